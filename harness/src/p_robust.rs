//! C10: no input makes parsing, converting or writing panic, abort or loop.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::{Gen, Names};
use crate::json::{Emit, Style, J};
use crate::p_block::container;
use crate::prog::*;
use crate::proj::*;
use crate::raw::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use swrs::api;
use swrs::api::block as ab;
use swrs::color::Color;
use swrs::parser as pa;
use swrs::parser::logic as lo;
use swrs::parser::{Parsable, RawSketchwareProject};

// ------------------------------------------------------------------------------ hostile texts

const TOKENS: &[&str] = &[
    "@", "@activity", "@customview", "@firebaseDB", "@compat", "@admob", "@googleMap", "@images", "@sounds", "@fonts", ".java_", ".java", ".java_var", ".java_list", ".java_components", ".java_events", ".java_func", ".java_onCreate_initializeLogic", "@.java_var", "@.java_", "@a.java_func", "@MainActivity.java_var",
    ".xml", ".xml_fab", "@main.xml", "@main.xml_fab", "@.xml", "@main", "@main.", "@é.xml", "_drawer_", ":", "0:", "1:x", "256:x", "-1:x", "%", "%s", "%m", "%m.", "%s.", "%é", "%d.x", "%b", "%.", "% ", "@1", "@-1", "@99999999999999", "@x", "é", "😀", "\u{0}", "\r", "\n", "\n\n", "\t", " ", "{}", "[]", "null", "{", "}", "\"", "\\", "\\u0000", "\\ud800", "1e999", "-0", "18446744073709551616", "2147483648", "-2147483649", "0.1", "true", "root", "onCreate", "_", "__", "List String", "List", "20211231235959", "99991231235960", "-0010101000000", "２０２１", "\u{feff}", "\u{2028}",
];
fn token(g: &mut Gen) -> String { if g.chance(1, 4) { g.ch().to_string() } else { g.pick(TOKENS).to_string() } }
fn bound(g: &mut Gen, t: &str) -> usize {
    let mut i = g.u(t.len() + 1);
    while !t.is_char_boundary(i) { i -= 1 }
    i
}
fn hostile_value(g: &mut Gen, old: &Value) -> Value {
    match g.below(8) {
        0 => Value::Null, 1 => json!(*g.pick(&[0i64, -1, -2, 1, 255, 256, -129, 65536, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i64::MAX, i64::MIN])), 2 => json!(*g.pick(&[0.5f64, -1.5, 1e300, 3.5e38, 1e-300, 4294967296.5])), 3 => json!(token(g)), 4 => json!([]), 5 => json!({}), 6 => json!(g.bool()),
        _ => match old { Value::String(s) => { let mut s = s.clone(); let k = bound(g, &s); s.insert_str(k, &token(g)); json!(s) } Value::Number(n) => json!(n.as_i64().unwrap_or(0).wrapping_add(g.range(-3, 3))), v => v.clone() },
    }
}
fn nodes(v: &mut Value) -> usize { 1 + match v { Value::Object(m) => m.iter_mut().map(|(_, x)| nodes(x)).sum(), Value::Array(a) => a.iter_mut().map(nodes).sum(), _ => 0 } }
fn node<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 { return Some(v) }
    *n -= 1;
    match v { Value::Object(m) => { for (_, x) in m.iter_mut() { if let Some(r) = node(x, n) { return Some(r) } } None } Value::Array(a) => { for x in a.iter_mut() { if let Some(r) = node(x, n) { return Some(r) } } None } _ => None }
}
fn mutate_json(g: &mut Gen, text: &str, typed: bool) -> String {
    let Ok(mut v) = serde_json::from_str::<Value>(text) else { return text.to_string() };
    let total = nodes(&mut v);
    let mut k = g.u(total);
    if let Some(x) = node(&mut v, &mut k) {
        if typed {
            // keeps the kind of value, so that the file still parses
            *x = match &*x { Value::String(_) => json!(if g.bool() { token(g) } else { g.text() }), Value::Number(n) if n.is_i64() => json!(*g.pick(&[0, -1, -2, 1, 2, 3, 16, 127, 255, 10, 11, 12, 2147483647])), Value::Number(_) => json!(g.f32()), o => o.clone() };
        } else if g.chance(1, 6) { if let Value::Object(m) = x { let ks: Vec<String> = m.keys().cloned().collect(); if !ks.is_empty() { let k = g.pick(&ks).clone(); m.remove(&k); } } } else { *x = hostile_value(g, x); }
    }
    v.to_string()
}
fn mutate(g: &mut Gen, t: &mut String) {
    let lines = |t: &str| t.split('\n').map(String::from).collect::<Vec<_>>();
    match g.below(13) {
        0 => { let i = bound(g, t); if let Some(c) = t[i..].chars().next() { t.replace_range(i..i + c.len_utf8(), ""); } }
        1 | 2 => { let i = bound(g, t); let k = token(g); t.insert_str(i, &k) }
        3 => { let i = bound(g, t); if let Some(c) = t[i..].chars().next() { let k = token(g); t.replace_range(i..i + c.len_utf8(), &k); } }
        4 => { let mut l = lines(t); let i = g.u(l.len()); let x = l[i].clone(); let j = g.u(l.len() + 1); l.insert(j, x); *t = l.join("\n") }
        5 => { let mut l = lines(t); let i = g.u(l.len()); l.remove(i); *t = l.join("\n") }
        6 => { let mut l = lines(t); let (i, j) = (g.u(l.len()), g.u(l.len())); l.swap(i, j); *t = l.join("\n") }
        7 => { let i = bound(g, t); t.truncate(i) }
        8 => { let (a, b) = (bound(g, t), bound(g, t)); let (a, b) = (a.min(b), a.max(b)); let s = t[a..b].to_string(); let i = bound(g, t); if s.len() < 4000 { t.insert_str(i, &s) } }
        9 => *t = t.replace('\n', *g.pick(&["\r\n", "\n\n", "\r", " ", "\n \n"])),
        10 => { let mut l = lines(t); let i = g.u(l.len()); l[i] = token(g); *t = l.join("\n") }
        _ => { let mut l = lines(t); let js: Vec<usize> = (0..l.len()).filter(|i| l[*i].trim_start().starts_with('{')).collect(); if js.is_empty() { return } let i = *g.pick(&js); let ty = g.bool(); l[i] = mutate_json(g, &l[i], ty); *t = l.join("\n") }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase { kind: u8, text: String }
const KINDS: u8 = 22;
fn valid(g: &mut Gen, kind: u8) -> String {
    let st = Style::gen(g);
    let mut e = Emit::new(&st, 9, false);
    let mut line = |j: J| e.line(&j);
    match kind {
        0 => MProject::gen(g).encode(&st),
        1 => MFile::gen(g).encode(&st),
        2 => line(MFileItem::gen(g).json()),
        3 => MLib::gen(g).encode(&st),
        4 => line(MLibItem::gen(g).json()),
        5 => MRes::gen(g).encode(&st),
        6 => line(MResItem::gen(g).json()),
        7 => MViewFile::gen(g).encode(&st, true),
        8 => g.vec(4, |g| { let j = MView::gen(g).json(); line(j) }).join("\n"),
        9 => line(MView::gen(g).json()),
        10 => MLogic::gen(g).encode(&st, &[], true),
        11 | 12 => g.vec(6, |g| format!("{}:{}", g.below(5), word(g))).join("\n"),
        13 => format!("{}:{}", g.below(5), word(g)),
        14 => g.vec(4, |g| format!("{}:{} %s.{}", g.ident(), g.ident(), g.ident())).join("\n"),
        15 => g.vec(4, |g| { let j = MComp { id: g.text(), p1: g.text(), p2: g.text(), p3: g.text(), ty: g.u8() }.json(); line(j) }).join("\n"),
        16 => g.vec(4, |g| { let j = MEvent { name: g.text(), ty: g.u8(), target: g.text(), target_ty: g.u8() }.json(); line(j) }).join("\n"),
        17 => g.vec(4, |g| { let j = MRawBlock::gen(g).json(); line(j) }).join("\n"),
        18 => line(MRawBlock::gen(g).json()),
        19 => format!("@{}.java_{}", g.ident(), g.ident()),
        20 => format!("{:08x}", g.color()),
        _ => spec_of(&MFunc::gen(g, "f".into()).spec),
    }
}
fn gen_text(g: &mut Gen) -> TextCase {
    let kind = g.below(KINDS as u64) as u8;
    let text = match g.weighted(&[6, 2, 2]) {
        0 => { let mut t = valid(g, kind); for _ in 0..1 + g.below(5) { mutate(g, &mut t) } t }
        1 => g.with_size(8, |g| g.vec(40, token)).concat(),
        _ => g.with_size(20, |g| g.vec(80, |g| g.ch())).into_iter().collect(),
    };
    TextCase { kind, text }
}
/// parse, write, parse what was written
fn cycle<P: Parsable>(what: &str, t: &str) -> R<bool> {
    let Ok(p) = guard(&format!("parsing a {what}"), || P::parse(t))? else { return Ok(false) };
    if let Ok(w) = guard(&format!("writing a parsed {what}"), || p.reconstruct())? { let _ = guard(&format!("parsing a written {what}"), || P::parse(&w))?; }
    Ok(true)
}
fn c10_text(c: &TextCase, ctx: &mut Ctx) -> R<()> {
    let t = c.text.as_str();
    ctx.nontrivial(!t.is_empty());
    let ok = match c.kind {
        0 => cycle::<pa::project::Project>("project", t)?,
        1 => cycle::<pa::file::File>("file list", t)?,
        2 => cycle::<pa::file::FileItem>("file item", t)?,
        3 => cycle::<pa::library::Library>("library file", t)?,
        4 => cycle::<pa::library::LibraryItem>("library item", t)?,
        5 => cycle::<pa::resource::Resource>("resource file", t)?,
        6 => cycle::<pa::resource::ResourceItem>("resource item", t)?,
        7 => { if let Ok(v) = guard("parsing a view file", || pa::view::View::parse(t))? { for (_, l) in v.layouts { layout(l)?; } } cycle::<pa::view::View>("view file", t)? }
        8 => { if let Ok(l) = guard("parsing a layout", || pa::view::Layout::parse(t))? { layout(l)?; } cycle::<pa::view::Layout>("layout", t)? }
        9 => cycle::<pa::view::models::AndroidView>("view", t)?,
        10 => { if let Ok(l) = guard("parsing a logic file", || lo::Logic::parse(t))? { for s in l.screens.values() { for b in s.block_containers.values() { blocks(b.clone())?; } } } cycle::<lo::Logic>("logic file", t)? }
        11 => cycle::<lo::variable::VariablePool>("variable pool", t)?,
        12 => cycle::<lo::list_variable::ListVariablePool>("list variable pool", t)?,
        13 => { cycle::<lo::list_variable::ListVariable>("list variable", t)?; cycle::<lo::variable::Variable>("variable", t)? }
        14 => { cycle::<lo::more_block::MoreBlock>("more-block", t)?; cycle::<lo::more_block::MoreBlockPool>("more-block pool", t)? }
        15 => { cycle::<lo::component::Component>("component", t)?; cycle::<lo::component::ComponentPool>("component pool", t)? }
        16 => { cycle::<lo::event::Event>("event", t)?; cycle::<lo::event::EventPool>("event pool", t)? }
        17 => { if let Ok(b) = guard("parsing a block container", || lo::BlockContainer::parse(t))? { blocks(b)?; } cycle::<lo::BlockContainer>("block container", t)? }
        18 => cycle::<lo::Block>("block", t)?,
        19 => cycle::<lo::BlockContainerHeader>("block container header", t)?,
        20 => guard("parsing a colour", || Color::parse_hex(t))?.is_ok(),
        _ => match guard("parsing a spec", || ab::BlockContent::parse_wo_params(t))? { Ok(x) => { guard("rendering a spec", || x.to_string())?; true } Err(_) => false },
    };
    ctx.label_if(ok, "accepted");
    Ok(())
}

// ------------------------------------------------------------------------------ blocks and layouts

fn blocks(b: lo::BlockContainer) -> R<bool> {
    let Ok(p) = guard("reading a block list", || ab::Blocks::try_from(b))? else { return Ok(false) };
    let q = p.clone();
    let _ = guard("inspecting a program", || { for b in &q.0 { let _ = b.category(); let _ = b.content.to_string(); let _ = b.content.get_args(); let _ = format!("{b:?}"); } })?;
    guard("writing a program that was read", || Into::<lo::BlockContainer>::into(p)).map(|_| true)
}
fn layout(l: pa::view::Layout) -> R<bool> {
    let Ok(v) = guard("reading a layout", || api::view::parse_raw_layout(l))? else { return Ok(false) };
    guard("finding views", || for x in &v { let _ = x.find_id("root"); let _ = x.find_id(&x.id.clone()); })?;
    guard("flattening a layout that was read", || api::view::flatten_views(v, None, None)).map(|_| true)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GraphCase { blocks: Vec<MRawBlock> }
fn gen_graph(g: &mut Gen) -> GraphCase {
    if g.chance(1, 40) {
        // long chains and deep nesting, closed into a cycle or not
        let n = g.range(50, 400) as i32;
        let (kind, close) = (g.below(4), g.chance(1, 3));
        let blocks = (0..n).map(|i| {
            let to = if i + 1 < n { i + 1 } else if close { g.range(0, n as i64 - 1) as i32 } else { -1 };
            let mut b = MRawBlock { color: 0xff5c_b722, id: i.to_string(), next: -1, op: "x".into(), params: vec![], spec: "x".into(), ss1: -1, ss2: -1, ty: "e".into(), tn: String::new() };
            match kind { 0 => b.next = to, 1 => b.ss1 = to, 2 => b.ss2 = to, _ => { b.spec = "x %s".into(); b.ty = "s".into(); b.params = vec![if to < 0 { "end".into() } else { format!("@{to}") }] } }
            b
        }).collect();
        return GraphCase { blocks };
    }
    let n = 1 + g.u(8) as u64;
    let base = if g.bool() { 0 } else { 10 };
    let r = |g: &mut Gen| if g.chance(1, 2) { -1 } else if g.chance(1, 10) { g.i32() } else { (base + g.below(n + 1)) as i32 };
    let blocks = (0..n).map(|i| {
        let id = if g.chance(1, 12) { token(g) } else if g.chance(1, 8) { (base + g.below(n)).to_string() } else { (base + i).to_string() };
        let nargs = g.u(4);
        let mut spec = vec![g.ident()];
        let mut params = vec![];
        for _ in 0..nargs {
            let k = *g.pick(&["%s", "%d", "%b", "%m.view", "%s.x", "%d.y", "%b.z", "%m.a.b"]);
            spec.push(k.to_string());
            params.push(if g.chance(1, 2) { format!("@{}", base + g.below(n + 1)) } else { match g.below(4) { 0 => String::new(), 1 => g.below(50).to_string(), 2 => "true".into(), _ => token(g) } });
        }
        if g.chance(1, 12) { spec.push(token(g)); }
        if g.chance(1, 12) { params.pop(); }
        MRawBlock { color: g.color(), id, next: r(g), op: g.ident(), params, spec: spec.join(" "), ss1: r(g), ss2: r(g), ty: g.pick(&[" ", "b", "s", "d", "c", "e", "f", "v", "p", "l"]).to_string(), tn: g.pick(&["List String", "List Number", "", "TextView"]).to_string() }
    }).collect();
    GraphCase { blocks }
}
fn c10_graph(c: &GraphCase, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(c.blocks.len() >= 2);
    ctx.label_if(c.blocks.len() > 40, "long chain or deep nesting");
    let ok = blocks(container(&c.blocks))?;
    ctx.label_if(ok, "accepted");
    ctx.label_if(ok && c.blocks.len() > 40, "long chain or deep nesting accepted");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ViewsCase { views: Vec<(String, u8, Option<String>, Option<String>)> }
fn gen_views(g: &mut Gen) -> ViewsCase {
    if g.chance(1, 30) {
        let n = g.range(50, 400);
        let rev = g.chance(1, 3);
        let mut views: Vec<_> = (0..n).map(|i| (format!("v{i}"), 0, Some(if i == 0 { "root".to_string() } else { format!("v{}", i - 1) }), None)).collect();
        if rev { views.reverse() }
        return ViewsCase { views };
    }
    let pool: Vec<String> = vec!["root".into(), "a".into(), "b".into(), "c".into(), "d".into(), String::new(), "é".into()];
    ViewsCase { views: g.vec1(9, |g| {
        let id = if g.chance(1, 8) { token(g) } else { g.pick(&pool).clone() };
        let parent = if g.chance(1, 20) { None } else if g.chance(1, 3) { Some("root".into()) } else { Some(if g.chance(1, 8) { token(g) } else { g.pick(&pool).clone() }) };
        (id, if g.bool() { view_kind(g) } else { g.u8() }, parent, g.opt(1, 2, |g| g.ident()))
    }) }
}
fn c10_views(c: &ViewsCase, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(c.views.len() >= 2);
    let l = pa::view::Layout(c.views.iter().map(|(id, k, p, r)| { let mut v = MView::default_with(id.clone(), *k, p.clone()); v.img_res = r.clone(); v.to_swrs() }).collect());
    ctx.label_if(layout(l)?, "accepted");
    Ok(())
}

// ------------------------------------------------------------------------------ specs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SpecCase { spec: String, args: Vec<String> }
fn gen_spec(g: &mut Gen) -> SpecCase {
    let spec = match g.below(3) {
        0 => g.with_size(4, |g| g.vec(10, |g| if g.bool() { token(g) } else { g.ident() })).join(" "),
        1 => g.with_size(4, |g| g.vec(8, |g| g.pick(&["%s", "%d", "%b", "%m.view", "%s.a", "%d.b", "%b.c", "%", "w", "%m", "%é", "%s.é", "é%s", "%%", "%.", "%s.x.y", ""]).to_string())).join(" "),
        _ => g.with_size(10, |g| g.vec(30, |g| if g.chance(1, 3) { '%' } else { g.ch() })).into_iter().collect(),
    };
    SpecCase { spec, args: g.with_size(5, |g| g.vec(10, |g| match g.below(5) { 0 => format!("@{}", g.below(30)), 1 => g.f64().to_string(), 2 => "true".into(), 3 => String::new(), _ => token(g) })) }
}
fn c10_spec(c: &SpecCase, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(c.spec.contains('%'));
    let a = guard("parse", || ab::BlockContent::parse(c.spec.clone(), c.args.clone()))?;
    if let Ok(x) = &a { ctx.label("parsed"); guard("to_string", || x.to_string())?; }
    if let Ok(x) = guard("parse_wo_params", || ab::BlockContent::parse_wo_params(&c.spec))? {
        guard("to_string", || x.to_string())?;
        if let Ok(mut y) = guard("apply_args", || x.apply_args(c.args.clone()))? {
            ctx.label("arguments applied");
            guard("get_args", || { y.get_args(); y.get_args_mut(); })?;
            let z = y.clone();
            let _ = guard("apply_blocks", || z.apply_blocks(|id| (id % 2 == 0).then(|| ab::Block::new(BCAT, "op".into(), ab::BlockContent { items: vec![] }, ab::BlockType::Argument(ab::ArgumentBlockReturnType::String)))))?;
            guard("take_args", || y.take_args())?;
        }
    }
    guard("parse_hex", || Color::parse_hex(&c.spec))?.ok();
    Ok(())
}
const BCAT: ab::BlockCategory = ab::BlockCategory::Operator;

// ------------------------------------------------------------------------------ whole projects

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProjCase { project: String, file: String, library: String, resource: String, view: String, logic: String, files: Option<Vec<(String, String, u8)>> }
fn gen_proj(g: &mut Gen) -> ProjCase {
    let z = if g.bool() { ProjSize::Small } else { ProjSize::Normal };
    let p = MProj::gen_sized(g, z);
    let st = Style::gen(g);
    let raw = p.to_raw(g.below(1000), &st);
    let mut t = [raw.project, raw.file, raw.library, raw.resource, raw.view, raw.logic];
    let typed = g.chance(2, 3);
    for _ in 0..1 + g.below(6) {
        let i = *g.pick(&[0usize, 1, 1, 2, 3, 4, 4, 4, 5, 5, 5, 5, 5]);
        if !typed { mutate(g, &mut t[i]); continue }
        // only change values of the right kind, or whole lines: most of these still parse
        let mut l: Vec<String> = t[i].split('\n').map(String::from).collect();
        match g.below(6) {
            0 => { let k = g.u(l.len()); let j = g.u(l.len()); if l[k].starts_with('{') == l[j].starts_with('{') { l.swap(k, j) } }
            1 => { let k = g.u(l.len()); if l[k].starts_with('{') { let x = l[k].clone(); l.insert(k, x) } }
            2 => { let k = g.u(l.len()); if !l[k].starts_with('@') && l.len() > 1 { l.remove(k); } }
            3 => { let hs: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with('@') && l[*i].contains('.')).collect(); if !hs.is_empty() { let k = *g.pick(&hs); let j = *g.pick(&hs); l[k] = l[j].clone(); } }
            _ => { let js: Vec<usize> = (0..l.len()).filter(|i| l[*i].trim_start().starts_with('{')).collect(); if !js.is_empty() { let k = *g.pick(&js); l[k] = mutate_json(g, &l[k], true) } }
        }
        t[i] = l.join("\n");
    }
    let files = if g.chance(1, 3) { None } else {
        let mut f: Vec<(String, String, u8)> = vec![];
        for (l, k) in [(&p.images, 0u8), (&p.sounds, 1), (&p.fonts, 2)] { for r in l { f.push((r.name.clone(), r.full.clone(), k)) } }
        if g.bool() { f.push(("i".into(), "icon.png".into(), 3)) }
        if g.chance(1, 4) && !f.is_empty() { let k = g.u(f.len()); match g.below(3) { 0 => { f.remove(k); } 1 => f[k].2 = g.below(4) as u8, _ => { let x = f[k].clone(); f.push(x) } } }
        Some(f)
    };
    let [project, file, library, resource, view, logic] = t;
    ProjCase { project, file, library, resource, view, logic, files }
}
fn c10_proj(c: &ProjCase, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(true);
    let raw = RawSketchwareProject {
        project: c.project.clone(), file: c.file.clone(), library: c.library.clone(), resource: c.resource.clone(), view: c.view.clone(), logic: c.logic.clone(),
        resource_files: c.files.as_ref().map(|f| f.iter().map(|(n, full, k)| MWrap::Str(n.clone()).to_swrs(full, crate::p_raw::rtype(*k))).collect()),
    };
    let Ok(p) = guard("parsing the project", || pa::SketchwareProject::parse_from(raw))? else { return Ok(()) };
    ctx.label("parsed");
    let Ok(a) = guard("opening the project", || api::SketchwareProject::try_from(p))? else { return Ok(()) };
    ctx.label("opened");
    let Ok(r) = guard("saving the project", || TryInto::<RawSketchwareProject>::try_into(a))? else { return Ok(()) };
    ctx.label("saved");
    let Ok(p) = guard("parsing the saved project", || pa::SketchwareProject::parse_from(r))? else { return Ok(()) };
    let Ok(a) = guard("reopening the saved project", || api::SketchwareProject::try_from(p))? else { return Ok(()) };
    ctx.label("reopened");
    let _ = guard("saving again", || TryInto::<RawSketchwareProject>::try_into(a))?;
    Ok(())
}
pub fn c10_prop() -> Prop {
    Prop {
        id: "C10", rule: "text: not empty; blocks, layout: at least two entries; spec: contains a parameter; project: always",
        assumptions: &["block nesting, statement chains and view trees go up to 400 levels (deeper ones recurse on the native stack)", "no time limit other than 90 s per case"],
        subs: vec![
            Sub::new("text", 250_000, 10_000_000, gen_text, c10_text), Sub::new("blocks", 200_000, 8_000_000, gen_graph, c10_graph), Sub::new("layout", 150_000, 5_000_000, gen_views, c10_views),
            Sub::new("spec", 200_000, 8_000_000, gen_spec, c10_spec), Sub::new("project", 25_000, 800_000, gen_proj, c10_proj),
        ],
    }
}
// ------------------------------------------------------------------------------ C29

/// a number too big for the field's float type is not a number any more; such values are not claimed
fn oversized(view: &str) -> bool { ["alpha", "scaleX", "scaleY", "translationX", "translationY"].iter().any(|k| view.contains(&format!("\"{k}\":null"))) }
/// whatever is accepted can be written, and reading that gives the same value and the same text again
fn stable<P: Parsable + PartialEq + std::fmt::Debug>(what: &str, t: &str) -> R<bool> where P::ParseError: std::fmt::Debug, P::ReconstructionError: std::fmt::Debug {
    let Ok(p) = guard(&format!("parsing a {what}"), || P::parse(t))? else { return Ok(false) };
    let w = guard(&format!("writing a parsed {what}"), || p.reconstruct())?.map_err(|e| format!("a {what} that was accepted cannot be written: {e:?}"))?;
    if matches!(what, "view" | "layout" | "view file") && oversized(&w) { return Ok(false) }
    let q = guard(&format!("parsing a written {what}"), || P::parse(&w))?.map_err(|e| format!("a {what} that was accepted cannot be read after writing: {} ({w:?})", clip(&format!("{e:?}"))))?;
    if p != q { bail!("a {what} that was accepted is read differently after writing: {} became {}, written as {w:?}", clip(&format!("{p:?}")), clip(&format!("{q:?}"))) }
    let w2 = guard(&format!("writing a {what} again"), || q.reconstruct())?.map_err(|e| format!("a {what} cannot be written again: {e:?}"))?;
    eq(&format!("{what} written twice"), &w2, &w)?;
    Ok(true)
}
/// the same for a logic file, whose screens may come out in another order (sections are written grouped by kind)
fn stable_logic(t: &str) -> R<bool> {
    let Ok(p) = guard("parsing a logic file", || lo::Logic::parse(t))? else { return Ok(false) };
    // `.java_` within a name makes headers ambiguous
    if t.lines().any(|l| l.matches(".java_").count() > 1) { return Ok(false) }
    let a = MLogic::of(&p)?;
    let w = guard("writing a parsed logic file", || p.reconstruct())?.map_err(|e| format!("a logic file that was accepted cannot be written: {e:?}"))?;
    let q = guard("parsing a written logic file", || lo::Logic::parse(&w))?.map_err(|e| format!("a logic file that was accepted cannot be read after writing: {} ({w:?})", clip(&format!("{e:?}"))))?;
    a.same(&MLogic::of(&q)?).map_err(|e| format!("a logic file that was accepted is read differently after writing: {e}, written as {w:?}"))?;
    let w2 = guard("writing a logic file again", || q.reconstruct())?.map_err(|e| format!("a logic file cannot be written again: {e:?}"))?;
    let lines = |t: &str| { let mut v: Vec<String> = t.split('\n').map(String::from).collect(); v.sort(); v };
    eq("lines of the logic file written twice", &lines(&w2), &lines(&w))?;
    Ok(true)
}
fn gen_near(g: &mut Gen) -> TextCase {
    let kind = *g.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 9, 10, 10, 10, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]);
    let mut text = valid(g, kind);
    for _ in 0..g.below(4) { mutate(g, &mut text) }
    TextCase { kind, text }
}
fn c29(c: &TextCase, ctx: &mut Ctx) -> R<()> {
    let t = c.text.as_str();
    let ok = match c.kind {
        0 => stable::<pa::project::Project>("project", t)?, 1 => stable::<pa::file::File>("file list", t)?, 2 => stable::<pa::file::FileItem>("file item", t)?,
        3 => stable::<pa::library::Library>("library file", t)?, 4 => stable::<pa::library::LibraryItem>("library item", t)?, 5 => stable::<pa::resource::Resource>("resource file", t)?,
        6 => stable::<pa::resource::ResourceItem>("resource item", t)?, 7 => stable::<pa::view::View>("view file", t)?, 8 => stable::<pa::view::Layout>("layout", t)?,
        9 => stable::<pa::view::models::AndroidView>("view", t)?, 10 => stable_logic(t)?, 11 => stable::<lo::variable::VariablePool>("variable pool", t)?,
        12 => stable::<lo::list_variable::ListVariablePool>("list variable pool", t)?, 13 => stable::<lo::variable::Variable>("variable", t)? | stable::<lo::list_variable::ListVariable>("list variable", t)?,
        14 => stable::<lo::more_block::MoreBlockPool>("more-block pool", t)? | stable::<lo::more_block::MoreBlock>("more-block", t)?,
        15 => stable::<lo::component::ComponentPool>("component pool", t)?, 16 => stable::<lo::event::EventPool>("event pool", t)?, 17 => stable::<lo::BlockContainer>("block container", t)?,
        18 => stable::<lo::Block>("block", t)?, _ => stable::<lo::BlockContainerHeader>("block container header", t)?,
    };
    ctx.label(if ok { "accepted" } else { "refused" });
    ctx.nontrivial(ok);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near { raw: [String; 6] }
fn gen_near_project(g: &mut Gen) -> Near {
    let f = crate::p_proj::gen_files(g);
    let r = f.p.to_raw(f.seed, &f.st);
    let mut raw = [r.project, r.file, r.library, r.resource, r.view, r.logic];
    for _ in 0..1 + g.below(2) { let i = *g.pick(&[0, 1, 2, 3, 4, 4, 4, 5, 5, 5, 5, 5]); mutate(g, &mut raw[i]) }
    Near { raw }
}
fn c29_project(c: &Near, ctx: &mut Ctx) -> R<()> {
    let [project, file, library, resource, view, logic] = c.raw.clone();
    let raw = swrs::parser::RawSketchwareProject { project, file, library, resource, view, logic, resource_files: None };
    let names = |t: &str, key: &str| t.split('\n').filter_map(|l| serde_json::from_str::<Value>(l).ok()?.get(key)?.as_str().map(line_safe)).all(|b| b);
    // names that cannot stand in a header line are not claimed
    if !names(&raw.file, "fileName") || !names(&raw.logic, "eventName") || !names(&raw.logic, "targetId") { ctx.label("names"); return Ok(()) }
    let Ok(p) = guard("opening the project", || crate::proj::open(raw))? else { ctx.label("refused"); return Ok(()) };
    ctx.label("accepted"); ctx.nontrivial(true);
    let w = guard("saving the project", || crate::proj::save(p))?.map_err(|e| format!("a project that opened: {e}"))?;
    if oversized(&w.view) { return Ok(()) }
    let q = guard("reopening the project", || crate::proj::open(w.clone()))?.map_err(|e| format!("a project that opened cannot be reopened after saving: {e}"))?;
    let w2 = guard("saving the reopened project", || crate::proj::save(q))?.map_err(|e| format!("a project that opened cannot be saved a second time: {e}"))?;
    crate::p_more::same_texts("a project that opened, saved, reopened and saved", &w2, &w)?;
    Ok(())
}
pub fn c29_prop() -> Prop {
    Prop { id: "C29", rule: "the text or project was accepted", assumptions: &[], subs: vec![Sub::new("accepted", 300_000, 5_000_000, gen_near, c29), Sub::new("project", 30_000, 800_000, gen_near_project, c29_project)] }
}
#[allow(unused)]
fn _unused(_: &mut Names) {}
