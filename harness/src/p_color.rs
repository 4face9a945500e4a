//! C21: colours.
use crate::engine::{Ctx, Prop, Sub};
use crate::gen::Gen;
use crate::raw::{eq, R};
use serde::{Deserialize, Serialize};
use swrs::api::block::BlockCategory as Cat;
use swrs::color::Color;

const CATS: [(Cat, u32); 9] = [
    (Cat::Variable, 0xee7d16), (Cat::List, 0xcc5b22), (Cat::Control, 0xe1a92a), (Cat::Operator, 0x5cb722), (Cat::Math, 0x23b9a9),
    (Cat::File, 0xa1887f), (Cat::ViewFunc, 0x4a6cd4), (Cat::ComponentFunc, 0xfca5e2), (Cat::MoreBlock, 0x8a55d7),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ColorCase { c: u32, case: u32, spell: u8 }
fn gen(g: &mut Gen) -> ColorCase {
    let c = match g.below(6) {
        0 => 0xff00_0000 | g.pick(&CATS).1,
        1 => {
            // a neighbour of a category colour: one component off, or two swapped
            let b = g.pick(&CATS).1;
            let sh = 8 * g.below(3) as u32;
            0xff00_0000 | match g.below(4) { 0 => b ^ (1 << g.below(24)), 1 => (b & !(0xff << sh)) | (g.pick(&CATS).1 & (0xff << sh)), 2 => (b >> 16) | (b & 0xff00) | (b & 0xff) << 16, _ => (b & !(0xff << sh)) | ((b >> sh & 0xff) + 1 & 0xff) << sh }
        }
        2 => { let z = g.below(5) as u32; let v = g.below(256) as u32; if z == 4 { v * 0x0101_0101 } else { v << (8 * z) } }
        _ => g.color(),
    };
    ColorCase { c, case: g.below(256) as u32, spell: g.below(6) as u8 }
}
/// hex digits in a mixed case given by the bits of `case`
fn cased(s: String, case: u32) -> String { s.chars().enumerate().map(|(i, c)| if case >> (i % 8) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect() }

fn same(what: &str, col: &Color, v: u32) -> R<()> {
    let b = v.to_be_bytes();
    eq(&format!("components (alpha, red, green, blue) of {what}"), &(col.alpha(), col.red(), col.green(), col.blue()), &(b[0], b[1], b[2], b[3]))?;
    eq(&format!("rgb of {what}"), &col.rgb(), &(b[1], b[2], b[3]))?;
    eq(&format!("display of {what}"), &col.to_string().to_ascii_lowercase(), &format!("0x{v:08x}"))?;
    if *col != Color::from(v) { return Err(format!("{what}: differs from the colour built from {v:#010x}")) }
    if *col == Color::from(v ^ 1) || *col == Color::from(v ^ 0x0100_0000) { return Err(format!("{what}: equals a different colour")) }
    Ok(())
}
fn c21(c: &ColorCase, ctx: &mut Ctx) -> R<()> {
    let v = c.c;
    let b = v.to_be_bytes();
    let opaque = v | 0xff00_0000;
    ctx.nontrivial(v != 0);
    ctx.label_if(v as i32 >= 0, "alpha below 0x80");
    let col = Color::from_argb(b[0], b[1], b[2], b[3]);
    same("from_argb", &col, v)?;
    same("from u32", &Color::from(v), v)?;
    same("from_rgb", &Color::from_rgb(b[1], b[2], b[3]), opaque)?;
    let h8 = cased(format!("{v:08x}"), c.case);
    same(&format!("parse_hex({h8:?})"), &Color::parse_hex(&h8).map_err(|e| format!("parse_hex({h8:?}) failed: {e}"))?, v)?;
    let h6 = cased(format!("{:06x}", v & 0xff_ffff), c.case);
    same(&format!("parse_hex({h6:?})"), &Color::parse_hex(&h6).map_err(|e| format!("parse_hex({h6:?}) failed: {e}"))?, opaque)?;
    let back = Color::parse_hex(&col.to_string()[2..]).map_err(|e| format!("parse_hex of the displayed digits failed: {e}"))?;
    same("parse_hex of the displayed digits", &back, v)?;

    let i = v as i32;
    eq("JSON form", &serde_json::to_string(&col).map_err(|e| e.to_string())?, &i.to_string())?;
    let text = match c.spell { 0 | 1 => i.to_string(), 2 => format!("{i}.0"), 3 => format!("{:e}", i as f64), 4 => format!("{:E}", i as f64), _ => format!(" {i}.00 ") };
    same(&format!("JSON {text}"), &serde_json::from_str::<Color>(&text).map_err(|e| format!("reading the JSON colour {text} failed: {e}"))?, v)?;
    let val = if c.spell % 2 == 0 { serde_json::json!(i) } else { serde_json::json!(i as f64) };
    same(&format!("JSON value {val}"), &serde_json::from_value::<Color>(val.clone()).map_err(|e| format!("reading the JSON value {val} failed: {e}"))?, v)?;

    match CATS.iter().find(|x| x.1 == v & 0xff_ffff) {
        Some((cat, rgb)) => {
            if b[0] == 0xff { ctx.label("category colour"); eq(&format!("category of {v:#010x}"), &Cat::try_from(col).map_err(|e| format!("category of {v:#010x}: {e}"))?, cat)?; }
            same(&format!("colour of {cat:?}"), &Into::<Color>::into(*cat), 0xff00_0000 | rgb)?;
        }
        None => match Cat::try_from(col) {
            Ok(cat) => return Err(format!("{v:#010x} is reported as the colour of {cat:?}")),
            Err(e) => { if CATS.iter().any(|x| (x.1 ^ v) & 0xff_ffff & ((x.1 ^ v).wrapping_sub(1)) & 0xff_ffff == 0) { ctx.label("one bit off a category"); } same("the colour in the error", &e.color, v)? }
        },
    }
    Ok(())
}
fn cats(_: &u8, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(true);
    for (i, (cat, rgb)) in CATS.iter().enumerate() {
        let col: Color = (*cat).into();
        same(&format!("colour of {cat:?}"), &col, 0xff00_0000 | rgb)?;
        eq(&format!("category of the colour of {cat:?}"), &Cat::try_from(col).map_err(|e| e.to_string())?, cat)?;
        for (o, _) in &CATS[i + 1..] { if Into::<Color>::into(*o) == col { return Err(format!("{cat:?} and {o:?} have the same colour")) } }
    }
    Ok(())
}
pub fn c21_prop() -> Prop {
    Prop {
        id: "C21", rule: "the colour is not 0", assumptions: &["category colours with an alpha other than ff are not constrained", "hex text has exactly 6 or 8 digits"],
        subs: vec![Sub::new("category", 8, 8, |_| 0u8, cats), Sub::new("color", 4_000_000, 60_000_000, gen, c21)],
    }
}
