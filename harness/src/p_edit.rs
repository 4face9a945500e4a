//! C18: histories of edits through the API, interleaved with save / encrypt / decrypt / reopen.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::{Gen, Names};
use crate::json::Style;
use crate::prog::*;
use crate::proj::*;
use crate::raw::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use swrs::api::screen as sc;
use swrs::api::view as av;
use swrs::api::{self, ResourceId};
use swrs::parser::logic::{list_variable::ListVariable, variable::Variable};
use swrs::parser::{RawSketchwareProject, ResourceType as RT};

/// an edit; indices are taken modulo what is there, names are made unique against the state
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Meta(MProject, u8), Colors([u32; 5]), Lib(MLib, u8),
    AddScreen(usize, MScreen), RemoveScreen(usize), RenameScreen(usize, String), SwapScreens(usize, usize), Flags(usize, i64, i64, i64, i64),
    AddCustom(usize, MCustom), RemoveCustom(usize), RenameCustom(usize, String),
    AddView { lay: usize, parent: usize, at: usize, tree: MTree }, RemoveView { lay: usize, at: usize }, TypedView { lay: usize, at: usize, v: MView }, CommonView { lay: usize, at: usize, v: MView }, ReplaceView { lay: usize, at: usize, v: MView }, MoveView { lay: usize, at: usize, to: usize },
    Fab(usize, Option<MView>), FabCommon(usize, MView),
    AddVar(usize, u8, String), RemoveVar(usize, usize), RetypeVar(usize, usize, u8), AddList(usize, u8, String), RemoveList(usize, usize),
    AddComp(usize, MCompo), RemoveComp(usize, usize), EditComp(usize, usize, MCompo),
    AddFunc(usize, MFunc), RemoveFunc(usize, usize), FuncSpec(usize, usize, Vec<MItem>),
    AddEvent { s: usize, name: String, kind: u8, target: usize, ty: u8, code: MProg }, RemoveEvent(usize, usize), OnCreate(usize, Option<MProg>),
    Code { s: usize, which: usize, code: MProg }, InsertStatement { s: usize, which: usize, at: usize, b: MProg }, RemoveStatement { s: usize, which: usize, at: usize },
    PutRes { kind: u8, name: String, full: String, w: MWrap, declared: u8 }, RemoveRes(usize), Icon(Option<(String, MWrap)>),
    Save { fresh: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History { base: MProj, fresh: bool, seed: u64, st: Style, ops: Vec<Op> }

fn prog(g: &mut Gen) -> MProg { match g.below(4) { 0 => vec![], _ => gen_prog_cfg(g, 5, 3) } }
fn view(g: &mut Gen) -> MView { let k = view_kind(g); let id = g.uident(); MView::gen_with(g, id, k, Some("root".into())) }
fn gen_op(g: &mut Gen) -> Op {
    let i = |g: &mut Gen| g.u(12);
    match g.below(42) {
        0 => Op::Meta(MProject::gen(g), g.below(9) as u8), 1 => Op::Colors([0; 5].map(|_| g.color())), 2 | 3 => Op::Lib(canonical_lib(g), g.below(5) as u8),
        4 => { let n = screen_base(g); Op::AddScreen(i(g), g.with_size(1, |g| MScreen::gen(g, n))) }
        5 => Op::RemoveScreen(i(g)), 6 => Op::RenameScreen(i(g), screen_base(g)), 7 => Op::SwapScreens(i(g), i(g)), 8 => Op::Flags(i(g), g.range(0, 2), g.range(0, 15), g.range(0, 2), g.range(-1, 2)),
        9 => { let n = custom_name(g); Op::AddCustom(i(g), gen_custom(g, n)) } 10 => Op::RemoveCustom(i(g)), 11 => Op::RenameCustom(i(g), custom_name(g)),
        12 | 13 => { let mut n = Names::new(); n.add("root"); let v = view(g); n.add(&v.id); let ch = if g.chance(1, 3) { MTree::gen_forest(g, &mut n, 3, false) } else { vec![] }; Op::AddView { lay: i(g), parent: i(g), at: i(g), tree: MTree { v, ch } } }
        14 => Op::RemoveView { lay: i(g), at: i(g) }, 15 | 16 => Op::TypedView { lay: i(g), at: i(g), v: view(g) }, 17 => Op::CommonView { lay: i(g), at: i(g), v: view(g) }, 18 => Op::ReplaceView { lay: i(g), at: i(g), v: view(g) }, 19 => Op::MoveView { lay: i(g), at: i(g), to: i(g) },
        20 => { let mut n = Names::new(); Op::Fab(i(g), g.opt(2, 3, |g| gen_fab(g, &mut n))) } 21 => Op::FabCommon(i(g), view(g)),
        22 => Op::AddVar(i(g), g.below(4) as u8, g.uident()), 23 => Op::RemoveVar(i(g), i(g)), 24 => Op::RetypeVar(i(g), i(g), g.below(4) as u8), 25 => Op::AddList(i(g), g.below(4) as u8, g.uident()), 26 => Op::RemoveList(i(g), i(g)),
        27 => { let id = g.ident(); Op::AddComp(i(g), MCompo::gen(g, id)) } 28 => if g.bool() { Op::RemoveComp(i(g), i(g)) } else { let id = g.ident(); Op::EditComp(i(g), i(g), MCompo::gen(g, id)) },
        29 => { let id = g.uident(); Op::AddFunc(i(g), MFunc::gen(g, id)) } 30 => if g.bool() { Op::RemoveFunc(i(g), i(g)) } else { let id = g.ident(); Op::FuncSpec(i(g), i(g), MFunc::gen(g, id).spec) },
        31 | 32 => Op::AddEvent { s: i(g), name: event_name(g), kind: g.below(3) as u8, target: i(g), ty: g.u8(), code: prog(g) }, 33 => Op::RemoveEvent(i(g), i(g)), 34 => Op::OnCreate(i(g), g.opt(3, 4, prog)),
        35 => Op::Code { s: i(g), which: i(g), code: prog(g) }, 36 => Op::InsertStatement { s: i(g), which: i(g), at: i(g), b: gen_prog_cfg(g, 3, 2) }, 37 => Op::RemoveStatement { s: i(g), which: i(g), at: i(g) },
        38 => Op::PutRes { kind: g.below(3) as u8, name: g.ident(), full: full_name(g), w: MWrap::gen(g), declared: g.below(6) as u8 }, 39 => Op::RemoveRes(i(g)), 40 => Op::Icon(g.opt(2, 3, |g| (full_name(g), MWrap::gen(g)))),
        _ => Op::Save { fresh: g.bool() },
    }
}
fn gen_history(g: &mut Gen) -> History {
    let fresh = g.chance(1, 3);
    let mut base = MProj::gen_sized(g, ProjSize::Small);
    if fresh { base.auto = false; if g.chance(1, 3) { base.screens.clear(); base.customs.clear(); base.images.clear(); base.sounds.clear(); base.fonts.clear(); base.icon = None; base.meta.icon = false; } }
    // a resource is addressed by its id alone, so ids are unique across kinds
    let mut n = Names::new();
    for r in base.images.iter_mut().chain(base.sounds.iter_mut()).chain(base.fonts.iter_mut()) { r.name = n.uniq(std::mem::take(&mut r.name)); }
    let n = 2 + 2 * g.size.min(10);
    let ops = g.with_size(n, |g| g.vec1(40, gen_op));
    History { base, fresh, seed: if g.chance(1, 3) { 0 } else { 1 + g.below(1 << 32) }, st: Style::gen(g), ops }
}

fn nth<'a>(f: &'a mut [av::View], n: &mut usize) -> Option<&'a mut av::View> {
    for t in f { if *n == 0 { return Some(t) } *n -= 1; if let Some(x) = nth(&mut t.children, n) { return Some(x) } }
    None
}
/// removes the n-th view in depth-first order
fn cut_api(f: &mut Vec<av::View>, n: &mut usize) -> Option<av::View> {
    for i in 0..f.len() { if *n == 0 { return Some(f.remove(i)) } *n -= 1; if let Some(x) = cut_api(&mut f[i].children, n) { return Some(x) } }
    None
}
fn cut(f: &mut Vec<MTree>, n: &mut usize) -> Option<MTree> {
    for i in 0..f.len() { if *n == 0 { return Some(f.remove(i)) } *n -= 1; if let Some(x) = cut(&mut f[i].ch, n) { return Some(x) } }
    None
}
/// the layouts: those of the screens, then those of the custom views
fn lay<'a>(m: &'a mut MProj, p: &'a mut api::SketchwareProject, i: usize) -> Option<(&'a mut Vec<MTree>, &'a mut Vec<av::View>, Names)> {
    let n = m.screens.len() + m.customs.len();
    if n == 0 { return None }
    let i = i % n;
    if i < m.screens.len() { let ids = m.screens[i].taken_ids(); Some((&mut m.screens[i].layout, &mut p.screens[i].layout, ids)) }
    else { let k = i - m.screens.len(); let mut ids = Names::new(); ids.add("root"); for x in MTree::ids(&m.customs[k].layout) { ids.add(&x); } Some((&mut m.customs[k].layout, &mut p.custom_views[k].layout, ids)) }
}
fn layout_names(m: &MProj) -> Names {
    let mut n = Names::new();
    for s in &m.screens { n.add(&format!("l:{}", s.name)); n.add(&format!("j:{}", java_name(&s.name))); }
    for c in &m.customs { n.add(&format!("l:{}", c.name)); }
    n
}
fn uniq_ids(f: &mut [MTree], ids: &mut Names) { for t in f { t.v.id = ids.uniq(std::mem::take(&mut t.v.id)); uniq_ids(&mut t.ch, ids); } }
/// the code places of a screen: onCreate, events, more-blocks
fn code<'a>(m: &'a mut MScreen, p: &'a mut sc::Screen, which: usize) -> Option<(&'a mut MProg, &'a mut swrs::api::block::Blocks)> {
    let on = m.oncreate.is_some() as usize;
    let n = on + m.events.len() + m.funcs.len();
    if n == 0 { return None }
    let k = which % n;
    let is_on = |e: &sc::Event| e.name == "onCreate" && e.event_type == sc::EventType::ActivityEvent;
    if k < on { return p.events.iter_mut().find(|e| is_on(e)).map(|e| (m.oncreate.as_mut().unwrap(), &mut e.code)) }
    let k = k - on;
    if k < m.events.len() { return p.events.iter_mut().filter(|e| !is_on(e)).nth(k).map(|e| (&mut m.events[k].code, &mut e.code)) }
    let k = k - m.events.len();
    let f = &mut m.funcs[k];
    p.more_blocks.get_mut(&f.id).map(|b| (&mut f.code, &mut b.code))
}
fn event_pos(p: &sc::Screen, k: usize) -> Option<usize> { p.events.iter().enumerate().filter(|(_, e)| !(e.name == "onCreate" && e.event_type == sc::EventType::ActivityEvent)).nth(k).map(|x| x.0) }

/// applies an edit to the model and to the API project; false if there is nothing to apply it to
fn apply(op: &Op, m: &mut MProj, p: &mut api::SketchwareProject) -> R<bool> {
    macro_rules! screen { ($i:expr) => {{ if m.screens.is_empty() { return Ok(false) } let k = $i % m.screens.len(); (&mut m.screens[k], &mut p.screens[k]) }} }
    macro_rules! at { ($i:expr, $l:expr) => {{ if $l.is_empty() { return Ok(false) } $i % $l.len() }} }
    match op {
        Op::Meta(x, f) => {
            let (d, t) = (&mut p.metadata, &mut m.meta);
            if matches!(f, 0 | 8) { t.id = x.id; d.local_id = x.id } if matches!(f, 1 | 8) { t.app = x.app.clone(); d.name = x.app.clone() } if matches!(f, 2 | 8) { t.ws = x.ws.clone(); d.workspace_name = x.ws.clone() }
            if matches!(f, 3 | 8) { t.pkg = x.pkg.clone(); d.package_name = x.pkg.clone() } if matches!(f, 4 | 8) { t.date = x.date; d.time_created = x.timestamp() } if matches!(f, 5 | 8) { t.sw_ver = x.sw_ver; d.sketchware_version = x.sw_ver }
            if matches!(f, 6 | 8) { t.ver_name = x.ver_name.clone(); d.version_name = x.ver_name.clone() } if matches!(f, 7 | 8) { t.ver_code = x.ver_code; d.version_code = x.ver_code }
        }
        Op::Colors(c) => { m.meta.colors = *c; let k = c.map(mkcolor); p.colors = api::Colors { color_primary: k[0], color_primary_dark: k[1], color_accent: k[2], color_control_normal: k[3], color_control_highlight: k[4] } }
        Op::Lib(l, f) => {
            let a = libs_to_api(l);
            if matches!(f, 0 | 4) { m.lib.firebase = l.firebase.clone(); p.libraries.firebase = a.firebase.clone() } if matches!(f, 1 | 4) { m.lib.compat = l.compat.clone(); p.libraries.app_compat_enabled = a.app_compat_enabled }
            if matches!(f, 2 | 4) { m.lib.admob = l.admob.clone(); p.libraries.ad_mob = a.ad_mob.clone() } if matches!(f, 3 | 4) { m.lib.gmap = l.gmap.clone(); p.libraries.google_map = a.google_map.clone() }
        }
        Op::AddScreen(i, s) => { let mut s = s.clone(); s.name = uniq_screen(&mut layout_names(m), s.name); let k = i % (m.screens.len() + 1); p.screens.insert(k, s.to_api()); m.screens.insert(k, s) }
        Op::RemoveScreen(i) => { let k = at!(i, m.screens); m.screens.remove(k); p.screens.remove(k); }
        Op::RenameScreen(i, n) => { let n = uniq_screen(&mut layout_names(m), n.clone()); let (a, b) = screen!(i); b.layout_name = n.clone(); b.java_name = java_name(&n); a.name = n }
        Op::SwapScreens(i, j) => { if m.screens.len() < 2 { return Ok(false) } let (i, j) = (i % m.screens.len(), j % m.screens.len()); m.screens.swap(i, j); p.screens.swap(i, j) }
        Op::Flags(i, kb, o, or, th) => {
            let (a, b) = screen!(i);
            (a.kb, a.opts, a.orient, a.theme) = (*kb, *o, *or, *th);
            b.toolbar_enabled = o & 1 != 0; b.fullscreen_enabled = o & 2 != 0; b.drawer_enabled = o & 4 != 0; b.fab_enabled = o & 8 != 0; b.orientation = orient_of(*or); b.theme = theme_of(*th); b.keyboard_setting = kb_of(*kb);
        }
        Op::AddCustom(i, c) => { let mut c = c.clone(); c.name = uniq_layout(&mut layout_names(m), c.name); let k = i % (m.customs.len() + 1); p.custom_views.insert(k, api::CustomView { res_name: c.name.clone(), layout: c.layout.iter().map(tree_to_api).collect() }); m.customs.insert(k, c) }
        Op::RemoveCustom(i) => { let k = at!(i, m.customs); m.customs.remove(k); p.custom_views.remove(k); }
        Op::RenameCustom(i, n) => { let n = uniq_layout(&mut layout_names(m), n.clone()); let k = at!(i, m.customs); p.custom_views[k].res_name = n.clone(); m.customs[k].name = n }
        Op::AddView { lay: l, parent, at, tree } => {
            let Some((a, b, mut ids)) = lay(m, p, *l) else { return Ok(false) };
            let mut t = tree.clone();
            uniq_ids(std::slice::from_mut(&mut t), &mut ids);
            MTree::relink(std::slice::from_mut(&mut t), "root", 0);
            let v = tree_to_api(&t);
            let n = MTree::count(a);
            let k = parent % (n + 1);
            if k == n { let at = at % (a.len() + 1); a.insert(at, t); b.insert(at, v) } else {
                let (x, y) = (MTree::nth_mut(a, &mut k.clone()).unwrap(), nth(b, &mut k.clone()).ok_or("views differ")?);
                let at = at % (x.ch.len() + 1);
                x.ch.insert(at, t);
                y.children.insert(at, v);
            }
            MTree::relink(a, "root", 0);
        }
        Op::RemoveView { lay: l, at } => { let Some((a, b, _)) = lay(m, p, *l) else { return Ok(false) }; let n = MTree::count(a); if n == 0 { return Ok(false) } let k = at % n; cut(a, &mut k.clone()); cut_api(b, &mut k.clone()); }
        Op::MoveView { lay: l, at, to } => {
            let Some((a, b, _)) = lay(m, p, *l) else { return Ok(false) };
            let n = MTree::count(a);
            if n == 0 { return Ok(false) }
            let k = at % n;
            let (t, v) = (cut(a, &mut k.clone()).unwrap(), cut_api(b, &mut k.clone()).ok_or("views differ")?);
            let n = MTree::count(a);
            let k = to % (n + 1);
            if k == n { a.push(t); b.push(v) } else { MTree::nth_mut(a, &mut k.clone()).unwrap().ch.push(t); nth(b, &mut k.clone()).ok_or("views differ")?.children.push(v) }
            MTree::relink(a, "root", 0);
        }
        Op::TypedView { lay: l, at, v } | Op::CommonView { lay: l, at, v } | Op::ReplaceView { lay: l, at, v } => {
            let Some((a, b, mut ids)) = lay(m, p, *l) else { return Ok(false) };
            let n = MTree::count(a);
            if n == 0 { return Ok(false) }
            let k = at % n;
            let (x, y) = (MTree::nth_mut(a, &mut k.clone()).unwrap(), nth(b, &mut k.clone()).ok_or("views differ")?);
            match op {
                Op::TypedView { .. } => {
                    // new attributes for the type the view has, or another type
                    let mut v = v.clone();
                    if !(v.id.len() % 3 == 0 && recognised(&v)) { v.kind = x.v.kind }
                    if v.img_res.is_none() { v.img_res = Some("other".into()) }
                    if !recognised(&x.v) { return Ok(false) }
                    if v.kind != x.v.kind {
                        // what only the old type has stays as in the record
                        let mut old = MView::of(&y.raw);
                        copy_common(&x.v, &mut old);
                        x.v = old;
                    }
                    y.view = Ok(view_type(&v).unwrap());
                    copy_typed(&v, &mut x.v);
                }
                Op::CommonView { .. } => { let mut v = v.clone(); v.id = if v.id.len() % 2 == 0 { x.v.id.clone() } else { ids.uniq(v.id) }; set_common(y, &v); copy_common(&v, &mut x.v) }
                _ => { let mut v = v.clone(); v.id = ids.uniq(v.id); let ch = std::mem::take(&mut y.children); *y = av::View::from(v.to_swrs()); y.children = ch; x.v = v }
            }
            MTree::relink(a, "root", 0);
        }
        Op::Fab(i, f) => { let (a, b) = screen!(i); let f = f.as_ref().map(|f| { let mut f = f.clone(); a.fab = None; f.id = a.taken_ids().uniq(f.id); f }); b.fab = f.as_ref().map(|f| av::View::from(f.to_swrs())); a.fab = f }
        Op::FabCommon(i, v) => { let (a, b) = screen!(i); let id = a.taken_ids().uniq(v.id.clone()); let (Some(x), Some(y)) = (&mut a.fab, &mut b.fab) else { return Ok(false) }; let v = MView { id, ..v.clone() }; set_common(y, &v); copy_common(&v, x) }
        Op::AddVar(i, t, n) => { let (a, b) = screen!(i); let mut ns = Names::new(); for v in &a.vars { ns.add(&v.1); } let n = ns.uniq(n.clone()); b.variables.insert(n.clone(), Variable { name: n.clone(), r#type: var_type_of(*t) }); a.vars.push((*t, n)) }
        Op::RemoveVar(i, k) => { let (a, b) = screen!(i); let k = at!(k, a.vars); let v = a.vars.remove(k); b.variables.remove(&v.1); }
        Op::RetypeVar(i, k, t) => { let (a, b) = screen!(i); let k = at!(k, a.vars); a.vars[k].0 = *t; b.variables.get_mut(&a.vars[k].1).ok_or("variables differ")?.r#type = var_type_of(*t) }
        Op::AddList(i, t, n) => { let (a, b) = screen!(i); let mut ns = Names::new(); for v in &a.lists { ns.add(&v.1); } let n = ns.uniq(n.clone()); b.list_variables.insert(n.clone(), ListVariable { name: n.clone(), r#type: var_type_of(*t) }); a.lists.push((*t, n)) }
        Op::RemoveList(i, k) => { let (a, b) = screen!(i); let k = at!(k, a.lists); let v = a.lists.remove(k); b.list_variables.remove(&v.1); }
        Op::AddComp(i, c) => { let (a, b) = screen!(i); let mut ns = Names::new(); for v in &a.comps { ns.add(&v.id); } let c = MCompo { id: ns.uniq(c.id.clone()), ..c.clone() }; b.components.insert(c.id.clone(), c.kind()); a.comps.push(c) }
        Op::RemoveComp(i, k) => { let (a, b) = screen!(i); let k = at!(k, a.comps); let c = a.comps.remove(k); b.components.remove(&c.id); }
        Op::EditComp(i, k, c) => { let (a, b) = screen!(i); let k = at!(k, a.comps); *b.components.get_mut(&a.comps[k].id).ok_or("components differ")? = c.kind(); a.comps[k] = MCompo { id: a.comps[k].id.clone(), ..c.clone() } }
        Op::AddFunc(i, f) => {
            let (a, b) = screen!(i);
            let mut f = f.clone();
            let mut ids = Names::new();
            for x in &a.funcs { ids.add(&x.id); }
            while !ids.add(&f.id) || a.containers().taken(&f.container()) { f.id.push('2') }
            b.more_blocks.insert(f.id.clone(), func_to_api(&f));
            a.funcs.push(f);
        }
        Op::RemoveFunc(i, k) => { let (a, b) = screen!(i); let k = at!(k, a.funcs); let f = a.funcs.remove(k); b.more_blocks.remove(&f.id); }
        Op::FuncSpec(i, k, s) => { let (a, b) = screen!(i); let k = at!(k, a.funcs); a.funcs[k].spec = s.clone(); b.more_blocks.get_mut(&a.funcs[k].id).ok_or("moreblocks differ")?.spec = content_to_api(s) }
        Op::AddEvent { s, name, kind, target, ty, code } => {
            let (a, b) = screen!(s);
            let ts = a.event_targets();
            let kind = match kind { 0 if !ts.is_empty() => EvKind::View(ts[target % ts.len()].clone()), 1 if !a.comps.is_empty() => EvKind::Comp(a.comps[target % a.comps.len()].id.clone(), *ty), _ => EvKind::Activity };
            let mut e = MEv { name: name.clone(), kind, code: code.clone() };
            while a.containers().taken(&e.container()) { e.name.push('2') }
            b.events.push(event_to_api(&e));
            a.events.push(e);
        }
        Op::RemoveEvent(i, k) => { let (a, b) = screen!(i); let k = at!(k, a.events); a.events.remove(k); b.events.remove(event_pos(b, k).ok_or("events differ")?); }
        Op::OnCreate(i, c) => {
            let (a, b) = screen!(i);
            b.events.retain(|e| !(e.name == "onCreate" && e.event_type == sc::EventType::ActivityEvent));
            if let Some(c) = c { let at = if b.events.len() % 2 == 0 { 0 } else { b.events.len() }; b.events.insert(at, sc::Event { name: "onCreate".into(), event_type: sc::EventType::ActivityEvent, code: to_api(c) }) }
            a.oncreate = c.clone();
        }
        Op::Code { s, which, code: c } => { let (a, b) = screen!(s); let Some((x, y)) = code(a, b, *which) else { return Ok(false) }; *y = to_api(c); *x = c.clone() }
        Op::InsertStatement { s, which, at, b: st } => { let (a, b) = screen!(s); let Some((x, y)) = code(a, b, *which) else { return Ok(false) }; for st in st { let k = at % (x.len() + 1); x.insert(k, st.clone()); y.0.insert(k, block_to_api(st)) } }
        Op::RemoveStatement { s, which, at } => { let (a, b) = screen!(s); let Some((x, y)) = code(a, b, *which) else { return Ok(false) }; let k = at!(at, x); x.remove(k); y.0.remove(k); }
        Op::PutRes { kind, name, full, w, declared } => {
            let mut ns = Names::new();
            for r in m.images.iter().chain(&m.sounds).chain(&m.fonts) { ns.add(&r.name); }
            let (l, t) = match kind { 0 => (&mut m.images, RT::Image), 1 => (&mut m.sounds, RT::Sound), _ => (&mut m.fonts, RT::Font) };
            let mut fs = Names::new();
            for r in l.iter() { fs.add(&r.full); }
            let r = MResource { name: ns.uniq(name.clone()), full: fs.uniq(full.clone()), w: w.clone() };
            p.resources.put_resource(ResourceId(r.name.clone()), r.w.to_swrs(&r.full, match declared { 0 => RT::Image, 1 => RT::Sound, 2 => RT::Font, _ => t }), t).map_err(|e| format!("put_resource failed: {e:?}"))?;
            l.push(r);
        }
        Op::RemoveRes(k) => {
            let n = m.images.len() + m.sounds.len() + m.fonts.len();
            if n == 0 { return Ok(false) }
            let mut k = k % n;
            for l in [&mut m.images, &mut m.sounds, &mut m.fonts] {
                if k < l.len() { let r = l.remove(k); if p.resources.remove_resource(&ResourceId(r.name.clone())).is_none() { bail!("resource {:?} is not there", r.name) } break }
                k -= l.len();
            }
        }
        Op::Icon(i) => { m.meta.icon = i.is_some(); p.custom_icon = i.as_ref().map(|(f, w)| w.to_swrs(f, RT::CustomIcon)); m.icon = i.clone() }
        Op::Save { .. } => {}
    }
    Ok(true)
}

/// save, check the files, encrypt, decrypt, reopen
fn cycle(at: &str, m: &MProj, p: api::SketchwareProject) -> R<api::SketchwareProject> {
    let raw = guard("saving", || save(p))??;
    m.check_saved(&raw, None).map_err(|e| format!("{at}: {e}"))?;
    let enc = |s: &str| swrs::encrypt_sw(s.as_bytes());
    let (a, b, c, d, e, f) = (enc(&raw.project), enc(&raw.file), enc(&raw.library), enc(&raw.resource), enc(&raw.view), enc(&raw.logic));
    let back = match raw.resource_files.clone() { Some(r) => RawSketchwareProject::from_encrypted(a, b, c, d, e, f, r), None => RawSketchwareProject::from_encrypted_wo_res(a, b, c, d, e, f) }.map_err(|e| format!("{at}: decrypting the saved files failed: {e:?}"))?;
    let again = guard("reopening", || open(back))?.map_err(|e| format!("{at}: {e}"))?;
    m.same_api(&again).map_err(|e| format!("{at}, reopened: {e}"))?;
    Ok(again)
}
fn c18(c: &History, ctx: &mut Ctx) -> R<()> {
    let mut m = c.base.clone();
    let mut p = if c.fresh { ctx.label("new project"); m.to_api_new()? } else { guard("opening", || open(m.to_raw(c.seed, &c.st)))?? };
    let (mut edits, mut saves) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        if let Op::Save { fresh } = op {
            let again = cycle(&format!("save after operation {n}"), &m, p.clone())?;
            if *fresh { p = again }
            saves += 1;
        } else if guard(&format!("operation {n}"), || apply(op, &mut m, &mut p))?.map_err(|e| format!("operation {n}: {e}"))? {
            edits += 1;
            let d = format!("{op:?}");
            ctx.label(d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
        }
    }
    ctx.nontrivial(edits > 0);
    ctx.label_if(saves > 0, "saves in between");
    cycle("final save", &m, p).map(|_| ())
}
pub fn c18_prop() -> Prop {
    Prop {
        id: "C18", rule: "at least one edit was applied",
        assumptions: &["edits keep the project consistent: names stay unique and free of white space, a screen's Java name follows its name", "resource ids are unique across kinds", "string and menu literals do not start with `@`"],
        subs: vec![Sub::new("history", 45_000, 800_000, gen_history, c18)],
    }
}
