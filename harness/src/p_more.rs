//! C23: a malformed entry is reported with its place. C24: coded values. C25: canonical saving.
//! C26: records of events, components, more-blocks, block types.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::Gen;
use crate::json::Style;
use crate::p_fault::{damage, LineFault};
use crate::raw::*;
use serde::{Deserialize, Serialize};
use swrs::parser::file as pf;
use swrs::parser::library as pl;
use swrs::parser::logic as pg;
use swrs::parser::resource as pr;
use swrs::parser::view as pv;
use swrs::parser::Parsable;

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Doc { File(MFile), Lib(MLib, Vec<usize>), Res(MRes), View(MViewFile, bool), Logic(MLogic, Vec<u32>, bool) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hurt { Entry(LineFault, u8), Header, CutAfterHeader, DropSection }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PlaceCase { doc: Doc, st: Style, hurt: Hurt, at: u32 }

fn c23_gen(g: &mut Gen) -> PlaceCase {
    let doc = match g.below(8) {
        0 => Doc::File(MFile::gen(g)),
        1 => { let mut o = vec![0, 1, 2, 3]; g.shuffle(&mut o); Doc::Lib(MLib::gen(g), o) }
        2 => Doc::Res(MRes::gen(g)),
        3 | 4 => Doc::View(MViewFile::gen(g), g.bool()),
        _ => Doc::Logic(MLogic::gen(g), g.vec(12, |g| g.below(64) as u32), g.bool()),
    };
    let hurt = match g.below(10) {
        0 => Hurt::Header, 1 => Hurt::CutAfterHeader, 2 => Hurt::DropSection,
        n => Hurt::Entry(match n % 4 { 0 => LineFault::Text(g.below(14) as u8), 1 => LineFault::Missing(g.below(1 << 20) as u32), 2 => LineFault::Type(g.below(1 << 20) as u32), _ => LineFault::Enum(g.below(1 << 20) as u32) }, g.below(30) as u8),
    };
    PlaceCase { doc, st: Style::gen(g), hurt, at: g.below(1 << 20) as u32 }
}

/// one section of a written document: header (without `@`), the line it is on, its entries' lines
struct Sec { header: String, line: usize, entries: Vec<usize> }
/// `blank`: sections end at a blank line (view, logic); otherwise at the next known header
fn scan(ls: &[String], known: Option<&[&str]>) -> Vec<Sec> {
    let mut out: Vec<Sec> = vec![];
    let mut open = false;
    for (i, l) in ls.iter().enumerate() {
        let head = match known { Some(k) => l.strip_prefix('@').map_or(false, |h| k.contains(&h)), None => !open && !l.is_empty() };
        if l.is_empty() { open = false; continue }
        if head { out.push(Sec { header: l[1..].to_string(), line: i, entries: vec![] }); open = true; }
        else if let Some(s) = out.last_mut() { s.entries.push(i) }
    }
    out
}
const BAD_VARS: [&str; 20] = ["4:Xy", "A:Bc", "NoColon É", "X:1:Y", "12 Ab:c", "4:x", "9:x", "255:y", "256:y", "x:x", ":x", "-1:x", "x", "1", "1 x", " 1:x", "0x1:a", " ", "   ", "\t"];

fn c23(c: &PlaceCase, ctx: &mut Ctx) -> R<()> {
    let at = c.at as usize;
    let (no, text, known): (u8, String, Option<&[&str]>) = match &c.doc {
        Doc::File(f) => (1, f.encode(&c.st), Some(&["activity", "customview"])),
        Doc::Lib(l, o) => (2, l.encode_order(&c.st, o), Some(&LIB_HEADERS)),
        Doc::Res(r) => (3, r.encode(&c.st), Some(&["images", "sounds", "fonts"])),
        Doc::View(v, t) => (4, v.encode(&c.st, *t), None),
        Doc::Logic(l, o, t) => (5, l.encode(&c.st, o, *t), None),
    };
    let mut ls: Vec<String> = text.split('\n').map(String::from).collect();
    let secs = scan(&ls, known);
    let name = ["", "file", "library", "resource", "view", "logic"][no as usize];
    macro_rules! wrong { ($e:expr, $($t:tt)*) => { bail!("{name}: {}: the error is {}", format!($($t)*), clip(&format!("{:?}", $e))) } }
    macro_rules! parse { ($t:ty, $what:expr) => {{ let t = ls.join("\n"); match guard("parsing", || <$t>::parse(&t))? { Err(e) => e, Ok(_) => bail!("{name}: {}: parsing succeeded", $what) } }} }
    match &c.hurt {
        Hurt::Entry(how, k) => {
            let all: Vec<(usize, usize)> = secs.iter().enumerate().flat_map(|(s, x)| x.entries.iter().enumerate().map(move |(e, _)| (s, e))).collect();
            if all.is_empty() { ctx.label("no entry"); return Ok(()) }
            let (s, e) = all[at % all.len()];
            let sec = &secs[s];
            let i = sec.entries[e];
            let kind = if no == 5 { sec.header.split_once(".java_").map(|x| x.1).unwrap_or("") } else { "" };
            let bad = match kind {
                "var" | "list" => BAD_VARS[*k as usize % 20].to_string(),
                "func" => ["noseparator", "Fn %s.X é", "x", " ", "   ", "\t"][*k as usize % 6].to_string(),
                _ => match damage(no, &ls[i], how) { Some(b) => b, None => { ctx.label("nothing of that kind to damage"); return Ok(()) } },
            };
            ls[i] = bad.clone();
            ctx.nontrivial(s + e > 0);
            ctx.label(if kind.is_empty() { name } else { match kind { "var" => "logic variable", "list" => "logic list", "components" => "logic component", "events" => "logic event", "func" => "logic more-block", _ => "logic block" } });
            ctx.label_if(s > 0, "not in the first section"); ctx.label_if(e > 0, "not the first entry");
            let what = format!("line {i} (entry {e} of @{}) is {}", sec.header, clip(&bad));
            match no {
                1 => match parse!(pf::File, what) { pf::FileParseError::FileItemParseError { line, content, .. } if line as usize == i && content == bad => {} e => wrong!(e, "{what}") },
                2 => match parse!(pl::Library, what) { pl::LibraryParseError::LibraryItemParseError { line, header, .. } if line as usize == i && header == format!("@{}", sec.header) => {} e => wrong!(e, "{what}") },
                3 => { let want = match sec.header.as_str() { "images" => pr::ResourceSection::Images, "sounds" => pr::ResourceSection::Sounds, _ => pr::ResourceSection::Fonts };
                    match parse!(pr::Resource, what) { pr::ResourceParseError::ResourceItemParseError { line, section, .. } if line as usize == i && section == want => {} e => wrong!(e, "{what}") } }
                4 => if let Some(n) = sec.header.strip_suffix(".xml_fab") {
                    match parse!(pv::View, what) { pv::ViewParseError::FabParseError { screen_name, line, content, .. } if screen_name == n && line as usize == i + 1 && content == bad => {} e => wrong!(e, "{what}") }
                } else {
                    let n = sec.header.strip_suffix(".xml").unwrap();
                    let before = if e == 0 { None } else { Some(MView::decode(&ls[sec.entries[e - 1]])?) };
                    match parse!(pv::View, what) { pv::ViewParseError::LayoutParseError { screen_name, container_name, source } if screen_name == n && container_name == "xml" && source.line as usize == e && source.content == bad && source.view_before.as_ref().map(MView::of).map(|v| format!("{v:?}")) == before.as_ref().map(|v| format!("{v:?}")) => {} e => wrong!(e, "{what}") }
                },
                _ => {
                    let scr = sec.header.split_once(".java_").unwrap().0;
                    let (h, e32) = (sec.line as u32, e as u32);
                    use pg::LogicParseError as E;
                    let err = parse!(pg::Logic, what);
                    let ok = match (kind, &err) {
                        ("var", E::VariablePoolParseError { screen_name, line, source }) => screen_name == scr && *line == h && source.count == e32 && source.content == bad && match (bad.split_once(':'), &source.source) {
                            (None, pg::variable::VariableParseError::MalformedVariable { content }) => *content == bad,
                            (Some((t, _)), pg::variable::VariableParseError::MalformedVariableType { content, .. }) => content == t && t.parse::<u8>().is_err(),
                            (Some((t, _)), pg::variable::VariableParseError::InvalidVariableType(x)) => t.parse() == Ok(x.value),
                            _ => false,
                        },
                        ("list", E::ListVariablePoolParseError { screen_name, line, source }) => screen_name == scr && *line == h && source.count == e32 && source.content == bad,
                        ("components", E::ComponentPoolParseError { screen_name, line, source }) => screen_name == scr && *line == h && source.count == e32 && source.content == bad,
                        ("events", E::EventPoolParseError { screen_name, line, source }) => screen_name == scr && *line == h && source.count == e32 && source.content == bad,
                        ("func", E::MoreBlockPoolParseError { screen_name, line, source }) => screen_name == scr && *line == h && source.count == e32 && source.content == bad && matches!(&source.source, pg::more_block::MoreBlockParseError::MalformedMoreBlock { content } if *content == bad),
                        (k, E::BlockContainerParseError { screen_name, container_name, line, source }) if !["var", "list", "components", "events", "func"].contains(&k) => screen_name == scr && container_name == k && *line == h && source.block_count == e32,
                        _ => false,
                    };
                    if !ok { wrong!(err, "{what}, header on line {h}") }
                }
            }
        }
        Hurt::Header => {
            if secs.is_empty() || no < 4 { ctx.label("no header to damage"); return Ok(()) }
            let sec = &secs[at % secs.len()];
            let i = sec.line;
            ctx.nontrivial(i > 0);
            ctx.label("header");
            if no == 4 {
                ls[i] = ls[i].replace('.', "");
                match parse!(pv::View, "a header without `.`") { pv::ViewParseError::InvalidHeader { line, content } if line as usize == i + 1 && content == ls[i] => {} e => wrong!(e, "header {:?} on line {i}", ls[i]) }
            } else {
                ls[i] = ls[i].replacen(".java_", if at & 1 == 0 { "" } else { "_java" }, 1);
                match parse!(pg::Logic, "a header without `.java_`") { pg::LogicParseError::BlockContainerHeaderParseError { line, .. } if line as usize == i => {} e => wrong!(e, "header {:?} on line {i}", ls[i]) }
            }
        }
        Hurt::CutAfterHeader => {
            let s = match no { 2 => at % secs.len(), 4 => { let f: Vec<usize> = (0..secs.len()).filter(|s| secs[*s].header.ends_with(".xml_fab")).collect(); if f.is_empty() { ctx.label("no fab"); return Ok(()) } f[at % f.len()] } _ => { ctx.label("cut does not apply"); return Ok(()) } };
            ls.truncate(secs[s].line + 1);
            ctx.nontrivial(true);
            ctx.label("ends after a header");
            let h = &secs[s].header;
            if no == 2 { match parse!(pl::Library, "a file that ends after a header") { pl::LibraryParseError::EOFAfterHeader { header } if header == format!("@{h}") => {} e => wrong!(e, "the file ends after @{h}") } }
            else { match parse!(pv::View, "a file that ends after a header") { pv::ViewParseError::EOFAfterFabHeader { screen_name, .. } if format!("{screen_name}.xml_fab") == *h => {} e => wrong!(e, "the file ends after @{h}") } }
        }
        Hurt::DropSection => {
            if no != 2 { ctx.label("drop does not apply"); return Ok(()) }
            let h = LIB_HEADERS[at % 4];
            let s = secs.iter().find(|s| s.header == h).unwrap();
            ls.drain(s.line..=s.line + 1);
            ctx.nontrivial(true);
            ctx.label("library without a section");
            match parse!(pl::Library, "a missing section") { pl::LibraryParseError::MissingItem { header } if header == format!("@{h}") => {} e => wrong!(e, "@{h} is missing") }
        }
    }
    Ok(())
}
pub fn c23_prop() -> Prop {
    Prop { id: "C23", rule: "the damaged line is not the first entry of the first section, or a header/section was damaged", assumptions: &["one damaged line per file, everything else well-formed"],
        subs: vec![Sub::new("place", 400_000, 3_000_000, c23_gen, c23)] }
}

// ---------------------------------------------------------------- C24

use serde_json::{json, Value};
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::AndroidView;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CodeCase { key: u8, v: Value, st: Style, view: MView, file: MFileItem }
enum Accept { Ints(&'static [i64]), Range(i64, i64), Strs(&'static [&'static str]) }
use Accept::*;
/// (in the file item?, path, codes). Everything else is refused.
const CODES: [(bool, &[&str], Accept); 29] = [
    (true, &["fileType"], Ints(&[0, 1, 2])), (true, &["keyboardSetting"], Ints(&[0, 1, 2])), (true, &["orientation"], Ints(&[0, 1, 2])), (true, &["theme"], Ints(&[-1, 0, 1, 2])), (true, &["options"], Range(0, 255)),
    (false, &["choiceMode"], Ints(&[0, 1, 2])), (false, &["spinnerMode"], Ints(&[0, 1])), (false, &["layout", "orientation"], Ints(&[-1, 0, 1])), (false, &["text", "imeOption"], Ints(&[0, 1, 2, 3, 4, 5, 6])), (false, &["text", "inputType"], Ints(&[1, 3, 129, 8194, 4098, 12290])), (false, &["text", "textType"], Ints(&[0, 1, 2, 3])),
    (false, &["image", "scaleType"], Strs(&SCALES)), (false, &["indeterminate"], Strs(&["true", "false"])),
    (false, &["checked"], Range(0, 255)), (false, &["clickable"], Range(0, 255)), (false, &["enabled"], Range(0, 255)), (false, &["text", "singleLine"], Range(0, 255)),
    (false, &["layout", "width"], Range(i32::MIN as i64, i32::MAX as i64)), (false, &["layout", "height"], Range(i32::MIN as i64, i32::MAX as i64)),
    (false, &["layout", "gravity"], Range(0, 255)), (false, &["layout", "layoutGravity"], Range(0, 255)), (false, &["type"], Range(0, 255)), (false, &["firstDayOfWeek"], Range(0, 255)),
    (false, &["parentType"], Range(-128, 127)), (false, &["preParentType"], Range(-128, 127)), (false, &["image", "rotate"], Range(-32768, 32767)), (false, &["preIndex"], Range(i32::MIN as i64, i32::MAX as i64)),
    (false, &["text", "textSize"], Range(0, u32::MAX as i64)), (false, &["layout", "weightSum"], Range(0, u32::MAX as i64)),
];
fn c24_gen(g: &mut Gen) -> CodeCase {
    let key = g.below(CODES.len() as u64) as u8;
    let int = |g: &mut Gen| match g.below(6) {
        0 | 1 => g.range(-4, 20),
        2 => *g.pick(&[-129, -128, -127, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 4097, 4098, 4099, 8193, 8194, 8195, 12289, 12290, 12291, 32767, 32768, -32768, -32769, 65535, 65536, 65537, 65539, 65665, 73730]),
        3 => *g.pick(&[i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 32, (1 << 32) + 1, i64::MAX, i64::MIN, -1, -2, -3]),
        4 => g.range(0, 300),
        _ => match CODES[key as usize].2 { Ints(c) => *g.pick(c) + *g.pick(&[0, 0, 0, 1, -1, 256, -256, 65536]), Range(a, b) => g.range(a, b), Strs(_) => g.range(0, 9) },
    };
    let v = match &CODES[key as usize].2 {
        Strs(c) if g.chance(5, 6) => { let s = g.pick(c).to_string(); json!(match g.below(10) { 0 => s.to_lowercase(), 1 => format!("{s} "), 2 => s.replace('_', ""), 3 => g.text(), 4 => s[..s.len() - 1].to_string(), 5 => { let mut x = s.clone(); x[..1].make_ascii_uppercase(); x } _ => s }) }
        _ => if g.chance(1, 12) { g.pick(&[json!("1"), json!("0"), json!(true), json!(null), json!(1.5), json!([1]), json!({}), json!(false)]).clone() } else { json!(int(g)) },
    };
    CodeCase { key, v, st: Style::gen(g), view: MView::gen(g), file: MFileItem::gen(g) }
}
fn set(v: &mut Value, path: &[&str], x: Value) { let mut v = v; for k in path { v = v.get_mut(*k).expect("the key exists"); } *v = x; }
fn c24(c: &CodeCase, ctx: &mut Ctx) -> R<()> {
    let (is_file, path, acc) = &CODES[c.key as usize];
    let ok = match (acc, &c.v) { (Ints(l), Value::Number(n)) => n.as_i64().map_or(false, |n| l.contains(&n)), (Range(a, b), Value::Number(n)) => n.as_i64().map_or(false, |n| n >= *a && n <= *b), (Strs(l), Value::String(s)) => l.contains(&s.as_str()), _ => false };
    let key = path.join(".");
    ctx.nontrivial(true);
    ctx.label(&format!("{}{key} {}", if *is_file { "file " } else { "" }, if ok { "accepted" } else { "refused" }));
    let base = if *is_file { serde_json::to_value(json_of(&c.file.json())) } else { serde_json::to_value(json_of(&c.view.json())) }.unwrap();
    let mut v = base.clone();
    set(&mut v, path, c.v.clone());
    let text = v.to_string();
    // what the written value has to be
    let norm = |v: &Value| -> Value { match key.as_str() { "checked" | "clickable" | "enabled" | "text.singleLine" => json!((v.as_i64() != Some(0)) as u8), "options" => json!(v.as_i64().unwrap() & 15), _ => v.clone() } };
    macro_rules! go { ($t:ty, $m:ty) => {{
        match guard("parsing", || <$t>::parse(&text))? {
            Err(e) if ok => bail!("{key} = {}: refused: {e}", c.v),
            Err(_) => {}
            Ok(x) if !ok => bail!("{key} = {}: accepted as {}", c.v, clip(&format!("{x:?}"))),
            Ok(x) => {
                let mut want = base.clone();
                set(&mut want, path, norm(&c.v));
                let want = <$m>::decode(&want.to_string())?;
                eq(&format!("{key} = {}: parsed", c.v), &<$m>::of(&x), &want)?;
                let w = guard("writing", || x.reconstruct())?.map_err(|e| format!("{key} = {}: writing failed: {e}", c.v))?;
                eq(&format!("{key} = {}: written", c.v), &<$m>::decode(&w)?, &want)?;
            }
        }
    }} }
    if *is_file { go!(pf::FileItem, MFileItem) } else { go!(AndroidView, MView) }
    Ok(())
}
fn json_of(j: &crate::json::J) -> Value { let st = Style::default(); let mut e = crate::json::Emit::new(&st, 0, false); serde_json::from_str(&e.line(j)).unwrap() }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BitCase { n: u8, line: String, ty: i64 }
fn bits_gen(g: &mut Gen) -> BitCase { BitCase { n: g.below(256) as u8, line: word(g), ty: match g.below(3) { 0 => g.range(0, 3), 1 => g.range(-2, 12), _ => g.range(0, 300) } } }
fn c24_bits(c: &BitCase, ctx: &mut Ctx) -> R<()> {
    let n = c.n;
    ctx.nontrivial(n != 0);
    let g = Gravity::new(n);
    eq("Gravity value", &g.0, &n)?;
    for (what, got, code) in [("center_horizontal", g.center_horizontal(), 1u8), ("left", g.left(), 3), ("right", g.right(), 5), ("center_vertical", g.center_vertical(), 16), ("center", g.center(), 17), ("top", g.top(), 48), ("bottom", g.bottom(), 80)] {
        if got != (n & code == code) { bail!("Gravity({n}).{what}() is {got}") }
    }
    let o = pf::ActivityOptions::from_num(n);
    for (what, got, bit) in [("toolbar", o.toolbar_enabled, 1u8), ("fullscreen", o.fullscreen_enabled, 2), ("drawer", o.drawer_enabled, 4), ("fab", o.fab_enabled, 8)] { if got != (n & bit != 0) { bail!("options {n}: {what} is {got}") } }
    eq("options as a number", &o.as_num(), &(n & 15))?;
    // variable and list types
    let line = format!("{}:{}", c.ty, c.line);
    let want = (0..4).contains(&c.ty);
    ctx.label(if want { "variable type accepted" } else { "variable type refused" });
    match guard("Variable::parse", || pg::variable::Variable::parse(&line))? {
        Ok(v) if want => { eq("variable type", &(var_type(v.r#type) as i64), &c.ty)?; eq("variable name", &v.name, &c.line)?; eq("written variable", &v.reconstruct(), &Ok(line.clone()))? }
        Err(_) if !want => {}
        r => bail!("variable line {line:?}: {}", clip(&format!("{r:?}"))),
    }
    match guard("ListVariable::parse", || pg::list_variable::ListVariable::parse(&line))? {
        Ok(v) if want => { eq("list type", &(var_type(v.r#type) as i64), &c.ty)?; eq("list name", &v.name, &c.line)?; eq("written list", &v.reconstruct(), &Ok(line.clone()))? }
        Err(_) if !want => {}
        r => bail!("list line {line:?}: {}", clip(&format!("{r:?}"))),
    }
    match pg::variable::VariableType::try_from(n) { Ok(t) if n < 4 && var_type(t) == n => {} Err(e) if n >= 4 && e.value == n => {} r => bail!("VariableType::try_from({n}): {r:?}") }
    Ok(())
}
pub fn c24_prop() -> Prop {
    Prop { id: "C24", rule: "codes: every case; bits: the code is not 0", assumptions: &["the code table in harness/src/p_more.rs (CODES) states the format as documented in the source"],
        subs: vec![Sub::new("codes", 800_000, 5_000_000, c24_gen, c24), Sub::new("bits", 200_000, 1_000_000, bits_gen, c24_bits)] }
}

// ---------------------------------------------------------------- C25

use crate::proj::{open, save, MProj};
use swrs::parser::RawSketchwareProject;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CanonCase { doc: Doc, a: Style, b: Style, trail: bool }
fn c25_gen(g: &mut Gen) -> CanonCase { let c = c23_gen(g); CanonCase { doc: c.doc, a: c.st, b: Style::gen(g), trail: g.bool() } }
fn c25_doc(c: &CanonCase, ctx: &mut Ctx) -> R<()> {
    macro_rules! go { ($t:ty, $name:expr, $a:expr, $b:expr) => {{
        let (a, b): (String, String) = ($a, $b);
        ctx.label($name);
        ctx.label_if(a != b, "spelled differently");
        ctx.nontrivial(a != b);
        let rd = |what: &str, t: &str| guard("parsing", || <$t>::parse(t))?.map_err(|e| format!("{} {what}: parsing failed: {e:?}", $name));
        let wr = |v: &$t| guard("writing", || v.reconstruct())?.map_err(|e| format!("{}: writing failed: {e:?}", $name));
        let (va, vb) = (rd("first spelling", &a)?, rd("second spelling", &b)?);
        if va != vb { bail!("{}: two spellings of the same content parse to different values", $name) }
        let wa = wr(&va)?;
        eq(&format!("{}: text written from another spelling", $name), &wr(&vb)?, &wa)?;
        eq(&format!("{}: text written a second time", $name), &wr(&va.clone())?, &wa)?;
        // logic sections are grouped by kind, so the order of the screens is not part of what the text says
        let norm = |t: String| if $name == "logic" { let mut s: Vec<&str> = t.split("\n\n").collect(); s.sort(); s.join("\n\n") } else { t };
        eq(&format!("{}: text written after reading it back", $name), &norm(wr(&rd("written text", &wa)?)?), &norm(wa))?;
    }} }
    match &c.doc {
        Doc::File(f) => go!(pf::File, "file", f.encode(&c.a), f.encode(&c.b)),
        Doc::Lib(l, o) => go!(pl::Library, "library", l.encode(&c.a), l.encode_order(&c.b, o)),
        Doc::Res(r) => go!(pr::Resource, "resource", r.encode(&c.a), r.encode(&c.b)),
        Doc::View(v, t) => go!(pv::View, "view", v.encode(&c.a, *t), v.encode(&c.b, c.trail)),
        Doc::Logic(l, o, t) => go!(pg::Logic, "logic", l.encode(&c.a, o, *t), l.encode(&c.b, o, c.trail)),
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CanonProj { p: MProj, a: (u64, Style), b: (u64, Style) }
fn c25_pgen(g: &mut Gen) -> CanonProj { CanonProj { p: MProj::gen(g), a: (g.below(1 << 32), Style::gen(g)), b: (g.below(1 << 32), Style::gen(g)) } }
fn texts(r: &RawSketchwareProject) -> [(&'static str, &String); 6] { [("project", &r.project), ("file", &r.file), ("library", &r.library), ("resource", &r.resource), ("view", &r.view), ("logic", &r.logic)] }
pub fn same_texts(what: &str, got: &RawSketchwareProject, want: &RawSketchwareProject) -> R<()> {
    for ((n, g), (_, w)) in texts(got).into_iter().zip(texts(want)) {
        if g != w { let i = g.split('\n').zip(w.split('\n')).position(|(a, b)| a != b).unwrap_or_else(|| g.split('\n').count().min(w.split('\n').count())); bail!("{what}: `{n}` differs at line {i}: {:?} instead of {:?}", clip(g.split('\n').nth(i).unwrap_or("<end>")), clip(w.split('\n').nth(i).unwrap_or("<end>"))) }
    }
    Ok(())
}
fn c25_proj(c: &CanonProj, ctx: &mut Ctx) -> R<()> {
    let pa = guard("opening", || open(c.p.to_raw(c.a.0, &c.a.1)))??;
    let pb = guard("opening", || open(c.p.to_raw(c.b.0, &c.b.1)))??;
    ctx.nontrivial(c.p.nontrivial());
    c.p.labels(ctx);
    let wa = guard("saving", || save(pa.clone()))??;
    same_texts("saved a second time", &guard("saving", || save(pa))??, &wa)?;
    same_texts("saved from another spelling and listing order of the same project", &guard("saving", || save(pb))??, &wa)?;
    let again = guard("reopening", || open(wa.clone()))??;
    same_texts("saved after reopening", &guard("saving", || save(again))??, &wa)?;
    Ok(())
}
pub fn c25_prop() -> Prop {
    Prop { id: "C25", rule: "doc: the two spellings differ; project: the project has a layout, event, more-block or variable", assumptions: &["well-formed files and consistent projects (the domains of C03 to C08 and C16)"],
        subs: vec![Sub::new("doc", 100_000, 2_000_000, c25_gen, c25_doc), Sub::new("project", 15_000, 300_000, c25_pgen, c25_proj)] }
}

// ---------------------------------------------------------------- C26

use crate::prog::{self, MItem, MProg, MTy};
use swrs::api::component::ComponentKind as CK;
use swrs::api::block as ab;
use swrs::api::screen as sc;
use swrs::parser::{ResourceFileWrapper as RW, ResourceType as RT};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RecCase { comp: MComp, ev: MEvent, id: String, spec: Vec<MItem>, code: MProg, code2: MProg, ty: String, tn: String, cat: u8, op: String, num: u32, rt: u8, ptype: i8 }
fn c26_gen(g: &mut Gen) -> RecCase {
    let comp = MComp { id: g.text(), p1: g.text(), p2: g.text(), p3: g.text(), ty: if g.chance(4, 5) { g.range(0, 23) as u8 } else { g.u8() } };
    let name = if g.chance(1, 4) { g.pick(&["onCreate", "onClick", "onCreated", "onCreate ", "oncreate", "onBackPressed", "onStart", "initializeLogic", "moreBlock", ""]).to_string() } else { g.text() };
    let ev = MEvent { name, ty: if g.chance(4, 5) { g.range(1, 3) as u8 } else { g.u8() }, target: g.text(), target_ty: g.u8() };
    let spec = g.with_size(3, |g| g.vec(6, |g| if g.bool() { MItem::Text(prog::spec_word(g)) } else { let kind = *g.pick(&['s', 'd', 'b', 'm']); MItem::Arg { kind, name: if kind == 'm' || g.bool() { Some(prog::arg_name(g)) } else { None }, val: prog::MVal::Empty } }));
    let (ty, tn) = (if g.chance(4, 5) { g.pick(&[" ", "b", "s", "d", "v", "p", "l", "c", "e", "f"]).to_string() } else { g.text() }, if g.bool() { g.pick(&["List String", "List Number", "", "textview", "List", "list string"]).to_string() } else { g.text() });
    RecCase { comp, ev, id: g.text(), spec, code: prog::gen_prog_cfg(g, 6, 2), code2: prog::gen_prog_cfg(g, 4, 1), ty, tn, cat: g.below(9) as u8, op: g.text(), num: g.u32(), rt: g.below(4) as u8, ptype: g.i32() as i8 }
}
/// the component kinds by type code, and whether the kind carries the first parameter
fn kind_of(ty: u8, p: &str) -> Option<CK> {
    let p = p.to_string();
    Some(match ty { 1 => CK::Intent, 2 => CK::SharedPreferences { path: p }, 3 => CK::Calendar, 4 => CK::Vibrator, 5 => CK::Timer, 6 => CK::FirebaseDatabase { path: p }, 7 => CK::Dialog, 8 => CK::MediaPlayer, 9 => CK::SoundPool, 10 => CK::ObjectAnimator, 11 => CK::Gyroscope, 12 => CK::FirebaseAuth, 13 => CK::InterstitialAd, 14 => CK::FirebaseStorage { path: p }, 15 => CK::Camera, 16 => CK::FilePicker { mime_type: p }, 17 => CK::RequestNetwork, 18 => CK::TextToSpeech, 19 => CK::SpeechToText, 20 => CK::BluetoothConnect, 21 => CK::LocationManager, _ => return None })
}
fn c26(c: &RecCase, ctx: &mut Ctx) -> R<()> {
    use pg::component::Component;
    let m = &c.comp;
    ctx.nontrivial(true);
    // components
    let full = Component::new(m.id.clone(), m.p1.clone(), m.p2.clone(), m.p3.clone(), m.ty);
    eq("Component::new", &MComp::of(&full), m)?;
    eq("Component::new_empty", &MComp::of(&Component::new_empty(m.id.clone(), m.ty)), &MComp { p1: String::new(), p2: String::new(), p3: String::new(), ..m.clone() })?;
    eq("Component::new_1param", &MComp::of(&Component::new_1param(m.id.clone(), m.p1.clone(), m.ty)), &MComp { p2: String::new(), p3: String::new(), ..m.clone() })?;
    eq("Component::new_2params", &MComp::of(&Component::new_2params(m.id.clone(), m.p1.clone(), m.p2.clone(), m.ty)), &MComp { p3: String::new(), ..m.clone() })?;
    match (guard("from_parser_component", || CK::from_parser_component(&full))?, kind_of(m.ty, &m.p1)) {
        (Ok(k), Some(w)) => {
            ctx.label("known component");
            eq(&format!("component type {}", m.ty), &k, &w)?;
            let p1 = if matches!(m.ty, 2 | 6 | 14 | 16) { m.p1.clone() } else { String::new() };
            eq("component written back", &MComp::of(&guard("into_parser_component", || k.into_parser_component(c.id.clone()))?), &MComp { id: c.id.clone(), p1, p2: String::new(), p3: String::new(), ty: m.ty })?;
        }
        (Err(e), None) => { ctx.label("unknown component"); eq("error component type", &e.component_type, &m.ty)?; eq("error component id", &e.component_id, &m.id)?; }
        (Ok(k), None) => bail!("component type {} was read as {k:?}", m.ty),
        (Err(e), Some(_)) => bail!("component type {} was refused: {e}", m.ty),
    }
    // events
    let e = &c.ev;
    let pe = pg::event::Event { event_name: e.name.clone(), event_type: e.ty, target_id: e.target.clone(), target_type: e.target_ty };
    let want = match e.ty { 1 => Some(sc::EventType::ViewEvent { id: e.target.clone() }), 2 => Some(sc::EventType::ComponentEvent { id: e.target.clone(), component_type: e.target_ty }), 3 => Some(sc::EventType::ActivityEvent), _ => None };
    match (sc::EventType::from_parser_event(&pe), &want) {
        (Ok(t), Some(w)) => eq("event type", &t, w)?,
        (Err(x), None) => { eq("error event type", &x.event_type, &e.ty)?; eq("error event name", &x.event_name, &e.name)? }
        (r, _) => bail!("event type {}: {r:?}", e.ty),
    }
    match (guard("Event::try_from", || sc::Event::try_from(pe.clone()))?, &want) {
        (Ok(mut v), Some(w)) => {
            ctx.label(match e.ty { 1 => "view event", 2 => "component event", _ => "activity event" });
            eq("event name", &v.name, &e.name)?; eq("event kind", &v.event_type, w)?;
            if !v.code.0.is_empty() { bail!("an event read from its record has code") }
            v.code = prog::to_api(&c.code);
            let id = match e.ty { 3 if e.name == "onCreate" => "onCreate_initializeLogic".to_string(), 3 => format!("{0}_{0}", e.name), _ => format!("{}_{}", e.target, e.name) };
            eq("container of the event's code", &v.get_block_container_id(), &id)?;
            let (r, code) = guard("into_parser_event", || v.into_parser_event())?;
            let target = if e.ty == 3 { e.name.clone() } else { e.target.clone() };
            eq("written event name", &r.event_name, &e.name)?; eq("written event type", &r.event_type, &e.ty)?; eq("written target id", &r.target_id, &target)?;
            if e.ty == 2 { eq("written target type", &r.target_type, &e.target_ty)? }
            if code != prog::to_api(&c.code) { bail!("the event's code changed while it was turned into its record") }
        }
        (Err(_), None) => ctx.label("unknown event"),
        (r, _) => bail!("event type {}: {}", e.ty, clip(&format!("{r:?}"))),
    }
    // more-blocks
    let mb = sc::MoreBlock { name: c.id.clone(), spec: prog::content_to_api(&c.spec), code: prog::to_api(&c.code) };
    let (r, code) = guard("into_parser_more_block", || mb.into_parser_more_block())?;
    eq("more-block id", &r.id, &c.id)?; eq("more-block spec", &r.spec, &prog::spec_of(&c.spec))?;
    if code != prog::to_api(&c.code) { bail!("the more-block's code changed while it was turned into its record") }
    // block types
    let want = match (c.ty.as_str(), c.tn.as_str()) { (" ", _) => Some(MTy::Regular), ("b", _) => Some(MTy::Bool), ("s", _) => Some(MTy::Str), ("d", _) => Some(MTy::Num), ("v", t) => Some(MTy::View(t.into())), ("p", t) => Some(MTy::Comp(t.into())), ("l", "List String") => Some(MTy::ListStr), ("l", "List Number") => Some(MTy::ListNum), ("c", _) => Some(MTy::One), ("e", _) => Some(MTy::Two), ("f", _) => Some(MTy::End), _ => None };
    match (guard("BlockType::from", || ab::BlockType::from(&c.ty, c.tn.clone()))?, want) {
        (Ok(t), Some(w)) => {
            let tn = match &w { MTy::View(t) | MTy::Comp(t) => Some(t.clone()), MTy::ListStr => Some("List String".into()), MTy::ListNum => Some("List Number".into()), _ => None };
            eq("block type", &t, &prog::ty_to_api(&w))?; eq("block type code", &t.to_string(), &c.ty)?; eq("block type name", &t.get_typename(), &tn)?;
        }
        (Err(e), None) => { ctx.label("unknown block type"); eq("error block type", &e.block_type, &c.ty)?; eq("error type name", &e.type_name, &c.tn)? }
        (r, _) => bail!("block type {:?} {:?}: {r:?}", c.ty, c.tn),
    }
    match (c.tn.parse::<ab::ListItem>(), c.tn.as_str()) {
        (Ok(i), "List String") => eq("list item", &Into::<ab::ArgumentBlockReturnType>::into(i), &ab::ArgumentBlockReturnType::String)?,
        (Ok(i), "List Number") => eq("list item", &Into::<ab::ArgumentBlockReturnType>::into(i), &ab::ArgumentBlockReturnType::Number)?,
        (Err(_), t) if t != "List String" && t != "List Number" => {}
        (r, t) => bail!("list type name {t:?}: {:?}", r.ok()),
    }
    // block constructors
    let cat = crate::p_block::CATEGORIES[c.cat as usize];
    let content = prog::content_to_api(&c.spec);
    let (s1, s2) = (prog::to_api(&c.code), prog::to_api(&c.code2));
    let ty = ab::BlockType::Argument(ab::ArgumentBlockReturnType::View { type_name: c.tn.clone() });
    for (what, b, w1, w2, wt) in [
        ("Block::new", ab::Block::new(cat.0, c.op.clone(), content.clone(), ty.clone()), None, None, ty),
        ("Block::new_1substack", ab::Block::new_1substack(cat.0, c.op.clone(), content.clone(), s1.clone()), Some(&s1), None, ab::BlockType::Control(ab::BlockControl::OneNest)),
        ("Block::new_2substack", ab::Block::new_2substack(cat.0, c.op.clone(), content.clone(), s1.clone(), s2.clone()), Some(&s1), Some(&s2), ab::BlockType::Control(ab::BlockControl::TwoNest)),
    ] {
        eq(&format!("{what}: first stack"), &b.sub_stack1.as_ref(), &w1)?; eq(&format!("{what}: second stack"), &b.sub_stack2.as_ref(), &w2)?; eq(&format!("{what}: type"), &b.block_type, &wt)?;
        eq(&format!("{what}: colour"), &color_of(&b.color), &cat.1)?; eq(&format!("{what}: opcode"), &b.op_code, &c.op)?; eq(&format!("{what}: content"), &b.content, &content)?;
        match b.category() { Ok(k) if k == cat.0 => {} r => bail!("{what}: category is {:?}, expected {:?}", r.ok(), cat.0) }
    }
    // views and resource files
    let v = AndroidView::new_empty(&c.id, m.ty, &m.p1, c.ptype);
    eq("AndroidView::new_empty", &(v.id.as_str(), v.r#type, v.parent.as_deref(), v.parent_type), &(c.id.as_str(), m.ty, Some(m.p1.as_str()), c.ptype))?;
    let rt = crate::p_raw::rtype(c.rt);
    match RW::make_random_id(c.id.clone(), rt) { RW::U32Id { res_full_name, res_type, .. } => { eq("make_random_id name", &res_full_name, &c.id)?; if res_type as u8 != rt as u8 { bail!("make_random_id changed the kind to {res_type:?}") } } w => bail!("make_random_id gave {w:?}") }
    eq("get_full_name", &RW::make_random_id(c.id.clone(), rt).get_full_name(), &c.id)?;
    eq("get_full_name", &RW::StringId { id: c.op.clone(), res_full_name: c.id.clone(), res_type: rt }.get_full_name(), &c.id)?;
    eq("get_full_name", &RW::U32Id { id: c.num, res_full_name: c.id.clone(), res_type: RT::Image }.get_full_name(), &c.id)?;
    Ok(())
}
pub fn c26_prop() -> Prop {
    Prop { id: "C26", rule: "every case", assumptions: &["the type codes in harness/src/p_more.rs (kind_of, block types) state the format"],
        subs: vec![Sub::new("records", 500_000, 3_000_000, c26_gen, c26)] }
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PartCase { s: MLogicScreen, layout: Vec<MView>, file: MFileItem, lib: MLibItem, res: MResItem, st: Style, rest: Option<Vec<String>> }
fn c27_gen(g: &mut Gen) -> PartCase {
    let rest = g.opt(3, 4, |g| g.vec(4, |g| match g.below(5) { 0 => String::new(), 1 => "@next.java_var".to_string(), 2 => "1:x".into(), 3 => "{}".into(), _ => word(g) }));
    PartCase { s: MLogicScreen::gen(g, "S".into()), layout: g.vecx(5, MView::gen), file: MFileItem::gen(g), lib: MLibItem::gen(g), res: MResItem::gen(g), st: Style::gen(g), rest }
}
fn c27(c: &PartCase, ctx: &mut Ctx) -> R<()> {
    use crate::json::Emit;
    let mut e = Emit::new(&c.st, 9, false);
    ctx.label(if c.rest.is_some() { "followed by more" } else { "at the end of the input" });
    // one section: lines, reader over an iterator, reader over a text, writer
    macro_rules! sec { ($name:expr, $t:ty, $lines:expr, |$it:ident| $rd:expr, |$p:ident| $of:expr, $want:expr, $decode:expr) => {{
        let lines: Vec<String> = $lines;
        ctx.nontrivial(lines.len() > 1);
        let mut all = lines.clone();
        if let Some(r) = &c.rest { all.push(String::new()); all.extend(r.iter().cloned()); }
        let (parsed, left) = guard($name, || { let mut it = all.iter().map(|s| s.as_str()); let $it = &mut it; let v = $rd; (v, it.map(String::from).collect::<Vec<_>>()) })?;
        let $p = parsed.map_err(|e| format!("{}: reading failed: {e:?}", $name))?;
        let want = $want;
        eq_list(&format!("{} read from an iterator", $name), &$of, &want)?;
        if left != c.rest.clone().unwrap_or_default() { bail!("{}: after reading, the iterator is left at {left:?} instead of {:?}", $name, c.rest) }
        let first = $p;
        let text = all.join("\n");
        let $p = guard($name, || <$t>::parse(&text))?.map_err(|e| format!("{}: reading failed: {e:?}", $name))?;
        eq_list(&format!("{} read from a text", $name), &$of, &want)?;
        if $p != first { bail!("{}: reading a text and reading its lines differ", $name) }
        let w = guard($name, || $p.reconstruct())?.map_err(|e| format!("{}: writing failed: {e:?}", $name))?;
        let d = w.split('\n').filter(|l| !l.is_empty()).map($decode).collect::<R<Vec<_>>>()?;
        eq_list(&format!("{} as written", $name), &d, &want)?;
        let $p = guard($name, || <$t>::parse(&w))?.map_err(|e| format!("{}: reading what was written failed: {e:?}", $name))?;
        eq_list(&format!("{} read back", $name), &$of, &want)?;
    }} }
    let s = c.s.canon();
    let var = |l: &str| -> R<(u8, String)> { let (a, b) = l.split_once(':').ok_or("no colon")?; Ok((a.parse().map_err(|e| format!("{l:?}: {e}"))?, b.to_string())) };
    let (vars, lists, comps, events, funcs) = (s.vars.clone().unwrap(), s.lists.clone().unwrap(), s.comps.clone().unwrap(), s.events.clone().unwrap(), s.funcs.clone().unwrap());
    sec!("variable pool", pg::variable::VariablePool, vars.iter().map(|(t, n)| format!("{t}:{n}")).collect(), |it| pg::variable::VariablePool::parse_iter(it), |p| p.0.values().map(|v| (var_type(v.r#type), v.name.clone())).collect::<Vec<_>>(), vars.clone(), var);
    sec!("list pool", pg::list_variable::ListVariablePool, lists.iter().map(|(t, n)| format!("{t}:{n}")).collect(), |it| pg::list_variable::ListVariablePool::parse_iter(it), |p| p.0.values().map(|v| (var_type(v.r#type), v.name.clone())).collect::<Vec<_>>(), lists.clone(), var);
    sec!("component pool", pg::component::ComponentPool, comps.iter().map(|x| e.line(&x.json())).collect(), |it| pg::component::ComponentPool::parse_iter(it), |p| p.0.iter().map(MComp::of).collect::<Vec<_>>(), comps.clone(), MComp::decode);
    sec!("event pool", pg::event::EventPool, events.iter().map(|x| e.line(&x.json())).collect(), |it| pg::event::EventPool::parse_iter(it), |p| p.0.iter().map(MEvent::of).collect::<Vec<_>>(), events.clone(), MEvent::decode);
    sec!("more-block pool", pg::more_block::MoreBlockPool, funcs.iter().map(|(i, s)| format!("{i}:{s}")).collect(), |it| pg::more_block::MoreBlockPool::parse_iter(it), |p| p.0.values().map(|v| (v.id.clone(), v.spec.clone())).collect::<Vec<_>>(), funcs.clone(), |l: &str| l.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).ok_or("no colon".to_string()));
    sec!("layout", pv::Layout, c.layout.iter().map(|x| e.line(&x.json())).collect(), |it| pv::Layout::parse_iter(it), |p| p.0.iter().map(MView::of).collect::<Vec<_>>(), c.layout.clone(), MView::decode);
    // block containers have no public line reader
    for (n, bs) in &s.containers {
        let mut t: Vec<String> = bs.iter().map(|b| e.line(&b.json())).collect();
        if let Some(r) = &c.rest { t.push(String::new()); t.extend(r.iter().cloned()); }
        let t = t.join("\n");
        let p = guard("block container", || pg::BlockContainer::parse(&t))?.map_err(|e| format!("block container: {e:?}"))?;
        eq_list("block container", &p.0.iter().map(MRawBlock::of).collect::<Vec<_>>(), bs)?;
        let w = p.reconstruct().map_err(|e| format!("writing a block container: {e:?}"))?;
        eq_list("block container as written", &w.split('\n').filter(|l| !l.is_empty()).map(MRawBlock::decode).collect::<R<Vec<_>>>()?, bs)?;
        if pg::BlockContainer::parse(&w).map_err(|e| format!("block container: {e:?}"))? != p { bail!("a block container changed by writing and reading it") }
        let h = format!("@{}.java_{n}", s.name);
        let p = guard("container header", || pg::BlockContainerHeader::parse(&h))?.map_err(|e| format!("header {h:?}: {e:?}"))?;
        eq("header screen", &p.screen_name, &s.name)?; eq("header container", &p.container_name, n)?; eq("header as written", &p.reconstruct(), &Ok(h))?;
    }
    // single items
    macro_rules! item { ($name:expr, $t:ty, $m:ty, $model:expr) => {{
        let m = $model;
        let line = e.line(&m.json());
        let v = guard($name, || <$t>::parse(&line))?.map_err(|e| format!("{}: {e:?}", $name))?;
        eq($name, &<$m>::of(&v), m)?;
        let w = guard($name, || v.reconstruct())?.map_err(|e| format!("{}: writing failed: {e:?}", $name))?;
        if w.contains('\n') { bail!("{}: written on several lines: {w:?}", $name) }
        eq($name, &<$m>::decode(&w)?, m)?;
        if <$t>::parse(&w).map_err(|e| format!("{}: {e:?}", $name))? != v { bail!("{}: changed by writing and reading it", $name) }
    }} }
    item!("file item", pf::FileItem, MFileItem, &c.file);
    item!("library item", pl::LibraryItem, MLibItem, &c.lib);
    item!("resource item", pr::ResourceItem, MResItem, &c.res);
    for x in comps.iter().take(2) { item!("component", pg::component::Component, MComp, x); }
    for x in events.iter().take(2) { item!("event", pg::event::Event, MEvent, x); }
    for x in c.layout.iter().take(2) { item!("view", AndroidView, MView, x); }
    for x in s.containers.iter().flat_map(|x| x.1.iter()).take(2) { item!("block", pg::Block, MRawBlock, x); }
    for (i, sp) in funcs.iter().take(2) {
        let l = format!("{i}:{sp}");
        let m = pg::more_block::MoreBlock::parse(&l).map_err(|e| format!("more-block {l:?}: {e:?}"))?;
        eq("more-block", &(m.id.clone(), m.spec.clone()), &(i.clone(), sp.clone()))?; eq("more-block as written", &m.reconstruct(), &Ok(l))?;
    }
    // empty things
    let d = pg::ScreenLogic::new_empty(c.file.name.clone());
    if d.name != c.file.name || !d.block_containers.is_empty() || d.variables.is_some() || d.list_variables.is_some() || d.components.is_some() || d.events.is_some() || d.more_blocks.is_some() { bail!("ScreenLogic::new_empty is not empty") }
    Ok(())
}
pub fn c27_prop() -> Prop {
    Prop { id: "C27", rule: "some section has more than one entry", assumptions: &["entries of the domains of C04 to C08"],
        subs: vec![Sub::new("parts", 150_000, 1_000_000, c27_gen, c27)] }
}

// ---------------------------------------------------------------- C28

/// what a view made from scratch must hold
fn scratch(id: &str, kind: u8, parent: &str, ptype: i8) -> MView {
    let mut v = MView::default_with(id.to_string(), kind, Some(parent.to_string()));
    v.parent_type = ptype;
    v.img_res = None; v.divider_height = 0; v.l.orient = 1;
    v.progress_style = String::new();
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NewView { id: String, kind: u8, parent: String, ptype: i8, typed: MView, common: MView, set: u8, st: Style }
fn gen_new_view(g: &mut Gen) -> NewView {
    let one = |g: &mut Gen| { let k = *g.pick(&KINDS); let mut v = MView::gen_with(g, "x".into(), k, None); if k == 6 || k == 16 { v.img_res = Some(g.text()) } v };
    NewView { id: if g.chance(3, 4) { g.uident() } else { g.text() }, kind: if g.chance(3, 4) { *g.pick(&KINDS) } else { g.u8() }, parent: if g.bool() { "root".into() } else { g.text() }, ptype: g.i32() as i8, typed: one(g), common: one(g), set: g.below(4) as u8, st: Style::gen(g) }
}
fn c28_view(c: &NewView, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(true);
    let raw = pv::models::AndroidView::new_empty(&c.id, c.kind, &c.parent, c.ptype);
    let mut want = scratch(&c.id, c.kind, &c.parent, c.ptype);
    // the code and its comment disagree about this one
    want.progress_style = raw.progress_style.clone();
    crate::tree::same_view("new view", &MView::of(&raw), &want)?;
    // written and read back
    let t = raw.reconstruct().map_err(|e| format!("writing a new view failed: {e}"))?;
    crate::tree::same_view("new view as written", &MView::decode(&t)?, &want)?;
    // a view of the API built on it: what is set is what is saved, and the rest stays as it was
    let mut v = guard("View::from", || swrs::api::view::View::from(raw))?;
    crate::tree::check_exposed("new view", &v, &want)?;
    if c.set & 1 != 0 { v.view = Ok(crate::tree::view_type(&c.typed).ok_or("harness: a typed view was expected")?); crate::tree::copy_typed(&c.typed, &mut want); ctx.label("typed attributes set") }
    if c.set & 2 != 0 { let mut m = c.common.clone(); m.id = c.id.clone(); crate::tree::set_common(&mut v, &m); crate::tree::copy_common(&m, &mut want); ctx.label("common attributes set") }
    want.parent = Some("root".into());
    want.parent_type = 0;
    let flat = guard("flatten_views", || swrs::api::view::flatten_views(vec![v], None, None))?;
    if flat.len() != 1 { bail!("flattening one view gives {}", flat.len()) }
    crate::tree::same_view("saved new view", &MView::of(&flat[0]), &want)
}
/// what is made without any input
fn c28_defaults(n: &u8, ctx: &mut Ctx) -> R<()> {
    use pv::models::*;
    ctx.nontrivial(true);
    let d = scratch("", 0, "", 0);
    match n {
        0 => { let mut v = AndroidView::new_empty("", 0, "", 0); v.layout = LayoutConfig::default(); v.text = TextConfig::default(); v.image = ImageConfig::default(); let mut w = d; w.progress_style = v.progress_style.clone(); crate::tree::same_view("default settings", &MView::of(&v), &w) }
        1 => eq("default colour", &color_of(&swrs::color::Color::default()), &0xff00_0000),
        2 => {
            let p = swrs::parser::project::ProjectColorPalette::default();
            eq("default palette", &[p.color_primary, p.color_primary_dark, p.color_accent, p.color_control_normal, p.color_control_highlight].map(|c| color_of(&c)), &[0xff00_8dcd, 0xff00_84c2, 0xff00_8dcd, 0xff57_beee, 0x2000_8dcd])
        }
        3 => { let r = swrs::parser::ResourceFiles::default(); if r.custom_icon.is_some() || !r.images.is_empty() || !r.sounds.is_empty() || !r.fonts.is_empty() { bail!("the default resource files are not empty") } Ok(()) }
        4 => {
            use pg::*;
            if !variable::VariablePool::default().0.is_empty() || !list_variable::ListVariablePool::default().0.is_empty() || !component::ComponentPool::default().0.is_empty() || !more_block::MoreBlockPool::default().0.is_empty() || !event::EventPool::default().0.is_empty() { bail!("a default pool is not empty") }
            Ok(())
        }
        5 => { let b = swrs::api::block::Blocks::default(); if !b.0.is_empty() || !swrs::api::block::Blocks::new().0.is_empty() { bail!("new code is not empty") } Ok(()) }
        _ => { let g = layout::gravity::Gravity::default(); eq("default gravity", &g.0, &0)?; use layout::gravity as k; eq("gravity codes", &[k::NONE, k::CENTER_HORIZONTAL, k::LEFT, k::RIGHT, k::CENTER_VERTICAL, k::CENTER, k::TOP, k::BOTTOM], &[0, 1, 3, 5, 16, 17, 48, 80]) }
    }
}
pub fn c28_prop() -> Prop {
    Prop { id: "C28", rule: "every case", assumptions: &["the defaults stated in harness/src/raw.rs and p_more.rs (scratch) are the format's"],
        subs: vec![Sub::new("view", 150_000, 2_000_000, gen_new_view, c28_view), Sub::new("defaults", 200, 2_000, |g| g.below(7) as u8, c28_defaults)] }
}
