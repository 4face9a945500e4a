//! C22: a single fault in an otherwise valid project is refused, and the error names the culprit.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::Gen;
use crate::json::{Emit, Style};
use crate::p_proj::{gen_files, Files};
use crate::proj::*;
use crate::raw::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use swrs::api;
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper as RW, ResourceType as RT, SketchwareProject as Parsed};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    CompType(u8), EventType(u8), BlockType(String), ListTypeName(String), BlockId(String), BlockSpec { spec: String, param: Option<String> }, Dangling(u8),
    UseYn { lib: u8, v: String }, Parent(String), CustomLayout, ResFile { other_kind: bool }, FuncSpec(String),
    VarLine { list: bool, line: String }, FuncLine(String), Line { file: u8, how: LineFault },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LineFault { Text(u8), Missing(u32), Type(u32), Enum(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase { f: Files, fault: Fault, at: u32 }

fn gen(g: &mut Gen) -> FaultCase {
    let mut f = gen_files(g);
    f.extra = 0;
    let fault = match g.below(28) {
        0 => Fault::CompType(if g.chance(1, 3) { *g.pick(&[0, 22, 255, 36]) } else { g.range(22, 255) as u8 }),
        1 => Fault::EventType(*g.pick(&[0, 4, 5, 255, 33])),
        2 => Fault::BlockType(g.pick(&["x", "", "  ", "S", "ss", "z", "B", " c", "d ", "0", "é"]).to_string()),
        3 => Fault::ListTypeName(g.pick(&["", "List", "String", "list string", "List Bool", "ListString"]).to_string()),
        4 => Fault::BlockId(g.pick(&["abc", "", "1.5", "x1", "99999999999"]).to_string()),
        5 | 6 => { let (a, b) = g.pick(&[("%z.x", None), ("%q", Some("1")), ("%d.n", Some("abc")), ("%d", Some("1,5")), ("%b.c", Some("maybe")), ("%b", Some("TRUE")), ("%s.x", None), ("%d.x", None), ("%b", None), ("%m.view", None), ("%s.x", Some("@abc")), ("%m.x", Some("@")), ("%d.x", Some("@1x")), ("%b.x", Some("@true"))]); Fault::BlockSpec { spec: a.to_string(), param: b.map(String::from) } }
        7 => Fault::Dangling(g.below(4) as u8),
        8 => Fault::UseYn { lib: *g.pick(&[0, 2, 3]), v: g.pick(&["", "y", "n", "YES", "X", " Y", "N ", "true", "0"]).to_string() },
        9 => Fault::Parent(if g.chance(1, 3) { g.uident() } else { g.pick(&["nowhere", "", "Root", "ROOT", "root2", " root", "root ", "null", "roo", "0", "-1", "_fab", "<itself", "<itself", "<later", "<later", "<elsewhere", "<elsewhere", "<elsewhere"]).to_string() }),
        10 => Fault::CustomLayout,
        11 | 12 => Fault::ResFile { other_kind: g.bool() },
        13 => Fault::FuncSpec(g.pick(&["%z.x", "%q", "%x.name", "%l.list", "%S.x", "%1"]).to_string()),
        14 | 15 => Fault::VarLine { list: g.bool(), line: g.pick(&["4:x", "9:x", "255:y", "256:y", "x:x", ":x", "-1:x", "x", "1", "1 x", " 1:x", "0x1:a", " ", "   ", "\t"]).to_string() },
        16 => Fault::FuncLine(g.pick(&["noseparator", "f %s.x", "x", " ", "    ", "\t"]).to_string()),
        _ => Fault::Line { file: g.below(6) as u8, how: match g.below(8) { 0 | 1 => LineFault::Text(g.below(14) as u8), 2 | 3 => LineFault::Missing(g.below(1 << 20) as u32), 4 | 5 => LineFault::Type(g.below(1 << 20) as u32), _ => LineFault::Enum(g.below(1 << 20) as u32) } },
    };
    FaultCase { f, fault, at: g.below(1 << 20) as u32 }
}

type Path = Vec<String>;
fn paths(v: &Value, at: &mut Path, out: &mut Vec<Path>) {
    match v {
        Value::Object(m) => for (k, x) in m { at.push(k.clone()); out.push(at.clone()); paths(x, at, out); at.pop(); },
        Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(i.to_string()); out.push(at.clone()); paths(x, at, out); at.pop(); },
        _ => {}
    }
}
fn at_mut<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    let mut v = v;
    for k in p { v = match v { Value::Array(a) => &mut a[k.parse::<usize>().unwrap()], x => x.get_mut(k).unwrap() } }
    v
}
const OPTIONAL: [&str; 4] = ["parent", "preId", "preParent", "resName"];
/// values outside the enumeration the key stands for
fn out_of_range(file: u8, p: &Path) -> Option<Vec<Value>> {
    Some(match (file, p.last()?.as_str()) {
        (1, "fileType") | (1, "keyboardSetting") | (1, "orientation") => vec![json!(3), json!(255), json!(-1), json!(256)],
        (1, "theme") => vec![json!(3), json!(-2), json!(127)],
        (4, "choiceMode") => vec![json!(3), json!(-1), json!(256)],
        (4, "spinnerMode") => vec![json!(2), json!(-1), json!(256)],
        (4, "scaleType") => vec![json!("CENTRE"), json!("center"), json!(""), json!("FIT_XYZ"), json!("FitXy")],
        (4, "orientation") => vec![json!(2), json!(-2), json!(127)],
        (4, "imeOption") => vec![json!(7), json!(8), json!(100)],
        (4, "inputType") => vec![json!(0), json!(2), json!(4), json!(8193), json!(12291)],
        (4, "textType") => vec![json!(4), json!(-1), json!(255)],
        (4, "indeterminate") => vec![json!("True"), json!("yes"), json!("1"), json!("")],
        (0, "my_sc_reg_dt") => vec![json!("2021"), json!("20211301000000"), json!("20210230000000"), json!("20210101250000"), json!("2021010100000"), json!("2021010100000x"), json!(""), json!("20210101000060"), json!("20210101000061"), json!("20210101006000"), json!("20210101240000"), json!("20210100000000"), json!("20210132000000"), json!("20210001000000"), json!("20210431000000"), json!("202101 1000000")],
        (0, "sc_id") | (0, "sc_ver_code") => vec![json!("65536"), json!("-1"), json!("x"), json!(""), json!(" 600"), json!("600 "), json!("1.0"), json!("0x1")],
        _ => return None,
    })
}
/// damages one JSON document; None if there is nothing of that kind in it
pub fn damage(file: u8, text: &str, how: &LineFault) -> Option<String> {
    let mut v: Value = serde_json::from_str(text).expect("reference encoder writes JSON");
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    let pick = |n: u32, l: usize| n as usize % l;
    match how {
        LineFault::Text(k) => Some(match k { 0 => text.trim_end()[..text.trim_end().len() - 1].to_string(), 1 => format!("{text}}}"), 2 => "{}".into(), 3 => "null".into(), 4 => "[]".into(), 5 => "x".into(), 6 => format!("[{text}]"), 7 => text.replacen('{', "", 1), 8 => "\"\"".into(), 10 => "   ".into(), 11 => "\t".into(), 12 => "@x".into(), 13 => format!("{text} x"), _ => text.replacen(':', "", 1) }).filter(|t| t != text),
        LineFault::Missing(n) => {
            ps.retain(|p| { let k = p.last().unwrap(); !(OPTIONAL.contains(&k.as_str()) && (file == 4)) && k.parse::<usize>().is_err() });
            let p = &ps[pick(*n, ps.len())];
            let (k, up) = p.split_last().unwrap();
            at_mut(&mut v, up).as_object_mut().unwrap().remove(k);
            Some(v.to_string())
        }
        LineFault::Type(n) => {
            let p = &ps[pick(*n, ps.len())];
            let x = at_mut(&mut v, p);
            *x = match x { Value::String(_) => [json!(5), json!(true), json!([]), json!({})][pick(*n / 7, 4)].clone(), Value::Number(_) => [json!("x"), json!(true), json!("1")][pick(*n / 7, 3)].clone(), Value::Bool(_) => [json!("true"), json!(1)][pick(*n / 7, 2)].clone(), Value::Array(_) => [json!("x"), json!(1)][pick(*n / 7, 2)].clone(), _ => [json!("x"), json!(3)][pick(*n / 7, 2)].clone() };
            Some(v.to_string())
        }
        LineFault::Enum(n) => {
            ps.retain(|p| out_of_range(file, p).is_some());
            if ps.is_empty() { return None }
            let p = &ps[pick(*n, ps.len())];
            let vals = out_of_range(file, p).unwrap();
            *at_mut(&mut v, p) = vals[pick(*n / 11, vals.len())].clone();
            Some(v.to_string())
        }
    }
}

struct Planted { raw: RawSketchwareProject, parse: bool, culprits: Vec<String>, what: String }
fn plant(c: &FaultCase) -> Option<Planted> {
    let f = &c.f;
    let at = c.at as usize;
    let mut p = f.p.clone();
    if matches!(c.fault, Fault::ResFile { .. }) { p.auto = false; }
    let st: &Style = &f.st;
    let mut raw = p.to_raw(f.seed, st);
    let trail = f.seed % 2 == 0;
    let one = |w: String| vec![w];
    let mut parse = false;
    let culprits;
    let what;
    match &c.fault {
        Fault::CompType(t) => {
            let mut l = p.logic(f.seed);
            let mut cs: Vec<&mut MComp> = l.screens.iter_mut().flat_map(|s| s.comps.iter_mut().flatten()).collect();
            if cs.is_empty() { return None }
            let k = at % cs.len();
            cs[k].ty = *t; culprits = one(cs[k].id.clone()); what = format!("component type {t}");
            raw.logic = l.encode(st, &[], true);
        }
        Fault::EventType(t) => {
            let mut l = p.logic(f.seed);
            let mut es: Vec<&mut MEvent> = l.screens.iter_mut().flat_map(|s| s.events.iter_mut().flatten()).collect();
            if es.is_empty() { return None }
            let k = at % es.len();
            es[k].ty = *t; culprits = one(es[k].name.clone()); what = format!("event type {t}");
            raw.logic = l.encode(st, &[], true);
        }
        Fault::BlockType(_) | Fault::ListTypeName(_) | Fault::BlockId(_) | Fault::BlockSpec { .. } | Fault::Dangling(_) => {
            let mut l = p.logic(f.seed);
            let mut cs: Vec<(usize, String, usize)> = vec![];
            for (si, s) in l.screens.iter().enumerate() { for (n, bs) in &s.containers { for i in 0..bs.len() { cs.push((si, n.clone(), i)) } } }
            if cs.is_empty() { return None }
            let (si, n, i) = cs[at % cs.len()].clone();
            let bs = &mut l.screens[si].containers.iter_mut().find(|x| x.0 == n).unwrap().1;
            let free = (0..).map(|k| 5_000_000 + k).find(|k: &i32| !bs.iter().any(|b| b.id == k.to_string())).unwrap();
            let is_arg = { let me = format!("@{}", bs[i].id); bs.iter().any(|b| b.params.contains(&me)) };
            let b = &mut bs[i];
            what = match &c.fault {
                Fault::BlockType(t) => { b.ty = t.clone(); format!("block type {t:?}") }
                Fault::ListTypeName(t) => { b.ty = "l".into(); b.tn = t.clone(); format!("list block with type name {t:?}") }
                Fault::BlockId(t) => { b.id = t.clone(); format!("block id {t:?}") }
                Fault::BlockSpec { spec, param } => { b.spec = format!("{} {spec}", b.spec); if let Some(x) = param { b.params.push(x.clone()) } format!("block spec {:?} with parameters {:?}", b.spec, b.params) }
                Fault::Dangling(k) => match k { 0 if !is_arg => { b.next = free; "a next pointer to nowhere".into() } 1 => { b.ss1 = free; "a first stack pointer to nowhere".into() } 2 => { b.ss2 = free; "a second stack pointer to nowhere".into() } _ => { b.spec += " %s"; b.params.push(format!("@{free}")); "an argument that refers to nowhere".to_string() } },
                _ => unreachable!(),
            };
            culprits = one(n);
            raw.logic = l.encode(st, &[], true);
        }
        Fault::UseYn { lib, v } => {
            let l = &mut p.lib;
            match lib { 0 => l.firebase.yn = v.clone(), 2 => l.admob.yn = v.clone(), _ => l.gmap.yn = v.clone() };
            culprits = one(match lib { 0 => "firebase", 2 => "admob", _ => "google" }.into());
            what = format!("use flag {v:?}");
            raw.library = l.encode(st);
        }
        Fault::Parent(to) => {
            let mut v = p.view(f.seed);
            let n: usize = v.layouts.iter().map(|l| l.1.len()).sum();
            if n == 0 { return None }
            let mut k = at % n;
            // ids of the other layouts and of the FABs
            let elsewhere: Vec<String> = v.layouts.iter().flat_map(|l| l.1.iter().map(|x| x.id.clone())).chain(v.fabs.iter().map(|f| f.1.id.clone())).collect();
            let l = v.layouts.iter_mut().find(|l| if k < l.1.len() { true } else { k -= l.1.len(); false }).unwrap();
            let here: Vec<String> = l.1.iter().map(|x| x.id.clone()).collect();
            let bad = match to.as_str() {
                "<itself" => here[k].clone(),
                "<later" if k + 1 < here.len() => here[k + 1 + (f.seed % 1000) as usize % (here.len() - k - 1)].clone(),
                "<elsewhere" if !elsewhere.iter().all(|x| here.contains(x)) => { let e: Vec<_> = elsewhere.into_iter().filter(|x| !here.contains(x)).collect(); e[(f.seed % 1000) as usize % e.len()].clone() }
                _ => { let mut bad = if to == "root" { "Root".to_string() } else { to.replace('<', "") }; while here.contains(&bad) { bad.push('_') } bad }
            };
            l.1[k].parent = Some(bad);
            culprits = one(l.1[k].id.clone());
            what = "a parent that does not exist".into();
            raw.view = v.encode(st, trail);
        }
        Fault::CustomLayout => {
            if p.customs.is_empty() { return None }
            let n = p.customs[at % p.customs.len()].name.clone();
            let mut v = p.view(f.seed);
            v.layouts.retain(|l| l.0 != n);
            raw.view = v.encode(st, trail);
            culprits = one(n); what = "a custom view without layout".into();
        }
        Fault::ResFile { other_kind } => {
            let all: Vec<(&MResource, RT)> = p.images.iter().map(|r| (r, RT::Image)).chain(p.sounds.iter().map(|r| (r, RT::Sound))).chain(p.fonts.iter().map(|r| (r, RT::Font))).collect();
            if all.is_empty() { return None }
            let (r, t) = all[at % all.len()];
            let files = raw.resource_files.as_mut().unwrap();
            let i = files.iter().position(|x| *x == r.w.to_swrs(&r.full, t)).unwrap();
            let taken = |k: RT| files.iter().any(|x| matches!(x, RW::StringId { res_full_name, res_type, .. } | RW::U32Id { res_full_name, res_type, .. } if *res_type == k && *res_full_name == r.full));
            let o = [RT::Image, RT::Sound, RT::Font].into_iter().find(|k| *k != t && !taken(*k));
            match (other_kind, o) { (true, Some(o)) => files[i] = r.w.to_swrs(&r.full, o), _ => { files.remove(i); } }
            culprits = one(r.name.clone()); what = format!("resource file {:?} missing", r.full);
        }
        Fault::FuncSpec(s) => {
            let mut l = p.logic(f.seed);
            let mut fs: Vec<&mut (String, String)> = l.screens.iter_mut().flat_map(|s| s.funcs.iter_mut().flatten()).collect();
            if fs.is_empty() { return None }
            let k = at % fs.len();
            fs[k].1 = format!("{} {s}", fs[k].1);
            culprits = one(fs[k].0.clone()); what = format!("more-block spec {:?}", fs[k].1);
            raw.logic = l.encode(st, &[], true);
        }
        Fault::VarLine { list, line } => {
            if p.screens.is_empty() { return None }
            let n = java_name(&p.screens[at % p.screens.len()].name);
            let l = p.logic(f.seed);
            raw.logic = with_line(&l, st, &format!("{n}.java_{}", if *list { "list" } else { "var" }), line, at);
            parse = true; culprits = vec![]; what = format!("{} line {line:?}", if *list { "list" } else { "variable" });
        }
        Fault::FuncLine(line) => {
            if p.screens.is_empty() { return None }
            let n = java_name(&p.screens[at % p.screens.len()].name);
            raw.logic = with_line(&p.logic(f.seed), st, &format!("{n}.java_func"), line, at);
            parse = true; culprits = vec![]; what = format!("more-block line {line:?}");
        }
        Fault::Line { file, how } => {
            let t: &mut String = match file { 0 => &mut raw.project, 1 => &mut raw.file, 2 => &mut raw.library, 3 => &mut raw.resource, 4 => &mut raw.view, _ => &mut raw.logic };
            parse = true; culprits = vec![];
            if *file == 0 { let d = damage(0, t, how)?; what = format!("project file {}", clip(&d)); *t = d; } else {
                let mut ls: Vec<String> = t.split('\n').map(String::from).collect();
                let idx: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].trim_start().starts_with('{') && serde_json::from_str::<Value>(&ls[*i]).is_ok()).collect();
                if idx.is_empty() { return None }
                let i = idx[at % idx.len()];
                ls[i] = damage(*file, &ls[i], how)?;
                what = format!("{} line {}", ["project", "file", "library", "resource", "view", "logic"][*file as usize], clip(&ls[i]));
                *t = ls.join("\n");
            }
        }
    }
    Some(Planted { raw, parse, culprits, what })
}
/// the logic file with one more line in the given section
fn with_line(l: &MLogic, st: &Style, header: &str, line: &str, at: usize) -> String {
    let mut e = Emit::new(st, 6, false);
    let mut secs: Vec<(String, Vec<String>)> = l.screens.iter().flat_map(|s| s.sections(&mut e)).collect();
    if !secs.iter().any(|s| s.0 == header) { secs.push((header.to_string(), vec![])) }
    let s = secs.iter_mut().find(|s| s.0 == header).unwrap();
    let k = at % (s.1.len() + 1);
    s.1.insert(k, line.to_string());
    secs.iter().map(|(h, ls)| format!("@{h}\n{}\n", ls.iter().map(|l| format!("{l}\n")).collect::<String>())).collect()
}
fn chain(e: &dyn std::error::Error) -> String {
    let mut t = format!("{e} {e:?}");
    let mut s = e.source();
    while let Some(x) = s { t += &format!(" {x} {x:?}"); s = x.source(); }
    t
}
fn mentions(t: &str, id: &str) -> bool { t.contains(&format!("{id:?}")) || t.contains(&format!("`{id}`")) }

fn c22(c: &FaultCase, ctx: &mut Ctx) -> R<()> {
    let Some(f) = plant(c) else { ctx.label("nothing to damage"); return Ok(()) };
    // the fault has to be the only reason for a refusal
    let mut base = c.f.p.clone();
    if matches!(c.fault, Fault::ResFile { .. }) { base.auto = false; }
    if guard("opening", || open(base.to_raw(c.f.seed, &c.f.st)))?.is_err() { ctx.label("refused without the fault"); return Ok(()) }
    ctx.nontrivial(true);
    ctx.label(match &c.fault { Fault::CompType(_) => "component type", Fault::EventType(_) => "event type", Fault::BlockType(_) => "block type", Fault::ListTypeName(_) => "list type name", Fault::BlockId(_) => "block id", Fault::BlockSpec { .. } => "block spec", Fault::Dangling(_) => "dangling block reference", Fault::UseYn { .. } => "use flag", Fault::Parent(_) => "view parent", Fault::CustomLayout => "custom view layout", Fault::ResFile { .. } => "resource file", Fault::FuncSpec(_) => "more-block spec", Fault::VarLine { .. } => "variable line", Fault::FuncLine(_) => "more-block line",
        Fault::Line { how, .. } => match how { LineFault::Text(_) => "not JSON of its kind", LineFault::Missing(_) => "missing field", LineFault::Type(_) => "wrong type", LineFault::Enum(_) => "value out of range" } });
    let err = match guard("parsing", || Parsed::parse_from(f.raw))? {
        Err(e) => chain(&e),
        Ok(_) if f.parse => bail!("{}: parsing succeeded", f.what),
        Ok(p) => match guard("opening", || api::SketchwareProject::try_from(p))? { Err(e) => chain(&e), Ok(_) => bail!("{} ({:?}): the project was opened", f.what, f.culprits) },
    };
    // a library is recognisable by its name; everything else is named exactly
    let lib = matches!(c.fault, Fault::UseYn { .. });
    for id in &f.culprits { if !(if lib { err.to_lowercase().contains(id) } else { mentions(&err, id) }) { bail!("{}: the error does not name {id:?}: {}", f.what, clip(&err)) } }
    Ok(())
}
pub fn c22_prop() -> Prop {
    Prop { id: "C22", rule: "the project opens without the fault and a fault was planted", assumptions: &["an error identifies the culprit when its message, debug form or sources contain the name of the component, event, container, library, view, custom view, resource or more-block"],
        subs: vec![Sub::new("fault", 45_000, 1_000_000, gen, c22)] }
}
