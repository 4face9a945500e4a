//! C14, C15: view trees and typed views.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::{Gen, Names};
use crate::raw::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use swrs::api::view as av;
use swrs::parser::view::Layout;

// ------------------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forest { f: Vec<MTree>, seed: u64, top: Option<(String, u8)>, garbage: bool }
fn gen_forest(g: &mut Gen) -> Forest {
    let mut n = Names::new();
    n.add("root");
    let (b, deep) = match g.weighted(&[1000, 600, 300, 80, 3, 3]) { 0 => (6, false), 1 => (20, false), 2 => (20, true), 3 => (120, false), 4 => (500, false), _ => (250, true) };
    let f = MTree::gen_forest(g, &mut n, b, deep);
    Forest { f, seed: if g.chance(1, 5) { g.below(2) } else { 2 + g.below(1 << 32) }, top: if g.chance(1, 6) { Some((n.uniq(g.uident()), g.below(128) as u8)) } else { None }, garbage: g.bool() }
}
fn layout(vs: &[MView]) -> Layout { Layout(vs.iter().map(|v| v.to_swrs()).collect()) }
fn forest_labels(f: &[MTree], ctx: &mut Ctx) {
    ctx.nontrivial(MTree::count(f) >= 2);
    ctx.label_if(MTree::depth(f) >= 2, "nested");
    ctx.label_if(MTree::depth(f) >= 5, "deeper than 4");
    ctx.label_if(MTree::depth(f) > 40, "deeper than 40");
    ctx.label_if(MTree::count(f) > 150, "more than 150 views");
    ctx.label_if(MTree::count(f) > 20, "more than 20 views");
}
fn c14_read(c: &Forest, ctx: &mut Ctx) -> R<()> {
    forest_labels(&c.f, ctx);
    let l = list(&c.f, c.seed);
    let mut got = guard("parse_raw_layout", || av::parse_raw_layout(layout(&l)))?.map_err(|e| format!("reading the layout failed: {e:?}"))?;
    check_api_forest("layout", &got, &c.f)?;
    // lookup, from each top-level view
    for (t, m) in got.iter_mut().zip(&c.f) {
        let mut inside = vec![];
        MTree::walk(std::slice::from_ref(m), &mut inside);
        for x in &inside {
            match t.find_id(&x.v.id) { Some(v) => { eq("view found by id", &v.id, &x.v.id)?; eq("children of the view found by id", &v.children.iter().map(|c| c.id.clone()).collect::<Vec<_>>(), &x.ch.iter().map(|c| c.v.id.clone()).collect::<Vec<_>>())? } None => bail!("view {:?} is not found", x.v.id) }
            match t.find_id_mut(&x.v.id) { Some(v) => eq("view found mutably by id", &v.id, &x.v.id)?, None => bail!("view {:?} is not found mutably", x.v.id) }
        }
        for id in MTree::ids(&c.f).iter().map(|s| s.as_str()).chain(["root", "absent id"]) {
            if inside.iter().any(|x| x.v.id == id) { continue }
            if t.find_id(id).is_some() || t.find_id_mut(id).is_some() { bail!("view {id:?} is found below {:?}, where it is not", m.v.id) }
        }
    }
    // and back
    let flat: Vec<MView> = guard("flatten_views", || av::flatten_views(got, None, None))?.iter().map(MView::of).collect();
    same_forest("flattened layout", &unlist(&flat)?, &c.f)
}
/// overwrites what flattening has to set
fn garble(v: &mut av::View, n: &mut u8) {
    *n = n.wrapping_mul(31).wrapping_add(7);
    v.raw.parent = match *n % 3 { 0 => None, 1 => Some("root".into()), _ => Some(format!("nowhere{n}")) };
    v.raw.parent_type = *n as i8;
    v.raw.id = format!("other{n}");
    // the type of a recognised view is that of its typed view
    if v.view.is_ok() { v.raw.r#type = n.rotate_left(3) & 127 }
    for c in &mut v.children { garble(c, n) }
}
fn c14_write(c: &Forest, ctx: &mut Ctx) -> R<()> {
    forest_labels(&c.f, ctx);
    ctx.label_if(c.garbage, "stale parent links in the raw records");
    let mut views: Vec<av::View> = c.f.iter().map(tree_to_api).collect();
    if c.garbage { let mut n = c.seed as u8; for v in &mut views { garble(v, &mut n) } }
    let flat: Vec<MView> = match &c.top {
        None => guard("flatten_views", || av::flatten_views(views, None, None))?.iter().map(MView::of).collect(),
        Some((id, k)) => {
            ctx.label("below a given parent");
            let flat: Vec<MView> = guard("flatten_views", || av::flatten_views(views, Some(id.clone()), Some(*k)))?.iter().map(MView::of).collect();
            let mut out = vec![];
            for (i, mut v) in flat.into_iter().enumerate() {
                if v.parent.as_deref() == Some(id.as_str()) {
                    eq(&format!("parent type of {:?} (#{i})", v.id), &v.parent_type, &(*k as i8))?;
                    v.parent = Some("root".into());
                    v.parent_type = 0;
                } else if v.parent.as_deref() == Some("root") { bail!("view {:?} is below root, not below the given parent", v.id) }
                out.push(v);
            }
            out
        }
    };
    same_forest("flattened tree", &unlist(&flat)?, &c.f)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadLink { f: Vec<MTree>, seed: u64, at: usize, parent: Option<String>, #[serde(default)] how: u8 }
fn gen_bad_link(g: &mut Gen) -> BadLink {
    let mut n = Names::new();
    n.add("root");
    let f = MTree::gen_forest(g, &mut n, 8, false);
    let parent = if g.chance(1, 3) { None } else { Some(n.uniq(match g.below(4) { 0 => "Root".into(), 1 => "".into(), 2 => g.text(), _ => g.ident() })) };
    BadLink { f, seed: g.below(100), at: g.u(50), parent, how: g.below(4) as u8 }
}
fn c14_errors(c: &BadLink, ctx: &mut Ctx) -> R<()> {
    let mut l = list(&c.f, c.seed);
    if l.is_empty() { return Ok(()) }
    let i = c.at % l.len();
    // a parent that does not exist, the view itself, or one listed later
    let bad = match c.how { 2 => Some(l[i].id.clone()), 3 if i + 1 < l.len() => Some(l[i + 1 + c.at / 7 % (l.len() - i - 1)].id.clone()), _ => c.parent.clone() };
    l[i].parent = bad.clone();
    ctx.label_if(c.how == 2, "its own parent");
    ctx.label_if(c.how == 3 && i + 1 < l.len(), "a parent listed later");
    ctx.nontrivial(true);
    ctx.label(if bad.is_none() { "no parent field" } else { "nonexistent parent" });
    match guard("parse_raw_layout", || av::parse_raw_layout(layout(&l)))? {
        Ok(_) => bail!("a layout in which view {:?} names the parent {:?} was accepted", l[i].id, bad),
        Err(av::ParseLayoutError::NoParentField { view_id }) if bad.is_none() => eq("view named by the error", &view_id, &l[i].id),
        Err(av::ParseLayoutError::NonexistentParent { view_id, parent_id }) if bad.is_some() => { eq("view named by the error", &view_id, &l[i].id)?; eq("parent named by the error", &Some(parent_id), &bad) }
        Err(e) => bail!("wrong error for view {:?} with parent {:?}: {e:?}", l[i].id, bad),
    }
}
pub fn c14_prop() -> Prop {
    Prop {
        id: "C14", rule: "trees: at least two views; errors: a broken link was injected",
        assumptions: &["view ids are unique within a layout and none is `root`", "type codes of views with children are at most 127"],
        subs: vec![Sub::new("read", 150_000, 2_000_000, gen_forest, c14_read), Sub::new("write", 150_000, 2_000_000, gen_forest, c14_write), Sub::new("errors", 150_000, 2_000_000, gen_bad_link, c14_errors)],
    }
}

// ------------------------------------------------------------------------------ C15

fn gen_view(g: &mut Gen) -> MView { let id = if g.chance(3, 4) { g.uident() } else { g.text() }; let k = if g.chance(7, 8) { *g.pick(&KINDS) } else { g.u8() }; let p = Some("root".to_string()); MView::gen_with(g, id, k, p) }
fn c15_read(m: &MView, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(recognised(m));
    ctx.label(&format!("type {}", if KINDS.contains(&m.kind) { m.kind.to_string() } else { "unknown".into() }));
    let raw = m.to_swrs();
    let v = guard("View::from", || av::View::from(raw.clone()))?;
    check_exposed("view", &v, m)?;
    same_view("raw record", &MView::of(&v.raw), m)?;
    if !v.children.is_empty() { bail!("a converted view has children") }
    match (guard("from_view", || av::ViewType::from_view(&raw))?, view_type(m)) {
        (Ok(a), Some(b)) => { eq("typed view", &a, &b)?; eq("type code of the typed view", &a.get_type_id(), &m.kind)?; }
        (Err(_), None) => {}
        (a, b) => bail!("typed view: got {a:?}, expected {b:?}"),
    }
    let flat = guard("flatten_views", || av::flatten_views(vec![v], None, None))?;
    if flat.len() != 1 { bail!("flattening one view gives {}", flat.len()) }
    let mut want = m.clone();
    want.parent = Some("root".into());
    want.parent_type = 0;
    same_view("view written back", &MView::of(&flat[0]), &want)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum VEdit { Type(MView), Common(MView), Raw(MView), Unrecognised, RawLink(String, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edited { base: MView, edits: Vec<VEdit> }
fn gen_edited(g: &mut Gen) -> Edited {
    let base = gen_view(g);
    let edits = g.with_size(2, |g| g.vec1(5, |g| match g.weighted(&[6, 4, 2, 1, 1]) {
        0 => { let mut v = gen_view(g); if g.bool() { v.kind = base.kind } if v.kind == 6 || v.kind == 16 { v.img_res = Some(g.text()) } VEdit::Type(v) }
        1 => VEdit::Common(gen_view(g)), 2 => VEdit::Raw(gen_view(g)), 3 => VEdit::Unrecognised, _ => VEdit::RawLink(g.text(), g.u8()),
    }));
    Edited { base, edits }
}
/// copies attributes the API does not expose
fn copy_rest(from: &MView, to: &mut MView) {
    to.ad_unit_id = from.ad_unit_id.clone(); to.alpha = from.alpha; to.choice_mode = from.choice_mode; to.clickable = from.clickable; to.enabled = from.enabled; to.img_rotate = from.img_rotate; to.index = from.index;
    to.pre_id = from.pre_id.clone(); to.pre_index = from.pre_index; to.pre_parent = from.pre_parent.clone(); to.pre_parent_type = from.pre_parent_type; to.scale_x = from.scale_x; to.scale_y = from.scale_y; to.tx = from.tx; to.ty = from.ty;
}
fn c15_edit(c: &Edited, ctx: &mut Ctx) -> R<()> {
    let mut v = av::View::from(c.base.to_swrs());
    let mut raw = c.base.clone();
    let mut typed: Option<MView> = if recognised(&c.base) { Some(c.base.clone()) } else { None };
    let mut common = c.base.clone();
    for e in &c.edits {
        match e {
            VEdit::Type(m) => if let Some(t) = view_type(m) { ctx.label_if(typed.as_ref().map_or(true, |x| x.kind != m.kind), "view type replaced"); v.view = Ok(t); typed = Some(m.clone()); ctx.nontrivial(true) },
            VEdit::Common(m) => { set_common(&mut v, m); common = m.clone(); ctx.nontrivial(true) }
            VEdit::Raw(m) => { copy_rest(m, &mut raw); let r = m.to_swrs(); let k = v.raw.clone(); v.raw = { let mut x = MView::of(&k); copy_rest(&MView::of(&r), &mut x); x.to_swrs() }; ctx.label("raw attributes edited") }
            VEdit::Unrecognised => { v.view = Err(av::ViewTypeConversionError::UnknownViewType { view_type: raw.kind, view_id: raw.id.clone() }); typed = None; ctx.label("made unrecognised") }
            VEdit::RawLink(p, k) => { v.raw.parent = Some(p.clone()); v.raw.parent_type = *k as i8; v.raw.id = p.clone(); v.raw.r#type = *k; raw.kind = *k; ctx.label("raw type, id and parent edited") }
        }
    }
    let mut want = raw;
    if let Some(t) = &typed { copy_typed(t, &mut want) }
    copy_common(&common, &mut want);
    want.parent = Some("root".into());
    want.parent_type = 0;
    let flat = guard("flatten_views", || av::flatten_views(vec![v], None, None))?;
    if flat.len() != 1 { bail!("flattening one view gives {}", flat.len()) }
    same_view("edited view", &MView::of(&flat[0]), &want)?;
    // and the record is read as the edited view
    let again = av::View::from(flat[0].clone());
    check_exposed("edited view read back", &again, &want)
}
/// applying a typed view to an arbitrary record
fn c15_apply(c: &(MView, MView), ctx: &mut Ctx) -> R<()> {
    let (a, b) = c;
    let Some(t) = view_type(a) else { return Ok(()) };
    ctx.nontrivial(true);
    eq("type code", &t.get_type_id(), &a.kind)?;
    let mut r = b.to_swrs();
    guard("apply_values_to_view", || t.apply_values_to_view(&mut r))?;
    let mut want = b.clone();
    let k = want.kind;
    copy_typed(a, &mut want);
    let mut got = MView::of(&r);
    // the type code is set by the caller or by this function
    if got.kind != a.kind && got.kind != k { bail!("the type code became {}", got.kind) }
    got.kind = a.kind;
    want.kind = a.kind;
    same_view("record after applying a typed view", &got, &want)
}
pub fn c15_prop() -> Prop {
    Prop {
        id: "C15", rule: "read: a recognised view; edit: at least one exposed attribute or the view type was set; apply: a recognised view",
        assumptions: &["scroll views are horizontal or vertical", "image resource names are set when a view is given an image type"],
        subs: vec![Sub::new("read", 400_000, 6_000_000, gen_view, c15_read), Sub::new("edit", 400_000, 6_000_000, gen_edited, c15_edit), Sub::new("apply", 200_000, 3_000_000, |g| (gen_view(g), gen_view(g)), c15_apply)],
    }
}
