//! View trees and the typed attributes of views.
use crate::gen::{mix, Gen, Names};
use crate::raw::*;
use serde::{Deserialize, Serialize};
use swrs::api::view as av;
use swrs::parser::view::models::layout::gravity::Gravity;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MTree { pub v: MView, pub ch: Vec<MTree> }

pub fn view_id(g: &mut Gen, n: &mut Names) -> String {
    let s = match g.below(8) { 0 => g.pick(&["linear1", "button1", "textview1", "main", "xml", "Root", "ROOT", "root1", "_fab", "0", "onCreate"]).to_string(), 1 => { let t = g.text(); if t == "root" { "root_".into() } else { t } } _ => g.uident() };
    n.uniq(s)
}
pub fn view_kind(g: &mut Gen) -> u8 {
    match g.weighted(&[5, 12, 2]) { 0 => *g.pick(&[0u8, 2, 12]), 1 => *g.pick(&KINDS), _ => *g.pick(&[1u8, 19, 20, 36, 64, 100, 126, 127]) }
}

impl MTree {
    /// a forest below `parent`; ids are unique
    pub fn gen_forest(g: &mut Gen, names: &mut Names, budget: usize, deep: bool) -> Vec<MTree> {
        let mut left = budget;
        MTree::forest(g, names, "root", 0, &mut left, 0, deep)
    }
    fn forest(g: &mut Gen, names: &mut Names, parent: &str, pkind: u8, left: &mut usize, depth: usize, deep: bool) -> Vec<MTree> {
        let mut out = vec![];
        let n = if deep && *left > 60 { 12 } else if *left > 60 { 60 } else if deep { 1 } else { g.size.min(4) };
        while *left > 0 && g.chance(n, n + 1) {
            *left -= 1;
            let id = view_id(g, names);
            let kind = view_kind(g);
            let mut v = MView::gen_with(g, id.clone(), kind, Some(parent.to_string()));
            v.parent_type = pkind as i8;
            let ch = if *left > 0 && depth < if deep { 160 } else { 40 } && (deep || g.chance(2, 5)) { MTree::forest(g, names, &id, kind, left, depth + 1, deep) } else { vec![] };
            out.push(MTree { v, ch });
        }
        out
    }
    pub fn count(f: &[MTree]) -> usize { f.iter().map(|t| 1 + MTree::count(&t.ch)).sum() }
    pub fn depth(f: &[MTree]) -> usize { f.iter().map(|t| 1 + MTree::depth(&t.ch)).max().unwrap_or(0) }
    pub fn walk<'a>(f: &'a [MTree], out: &mut Vec<&'a MTree>) { for t in f { out.push(t); MTree::walk(&t.ch, out); } }
    pub fn ids(f: &[MTree]) -> Vec<String> { let mut v = vec![]; MTree::walk(f, &mut v); v.iter().map(|t| t.v.id.clone()).collect() }
    pub fn find<'a>(f: &'a [MTree], id: &str) -> Option<&'a MTree> { let mut v = vec![]; MTree::walk(f, &mut v); v.into_iter().find(|t| t.v.id == id) }
    /// n-th view in depth-first order
    pub fn nth_mut<'a>(f: &'a mut [MTree], n: &mut usize) -> Option<&'a mut MTree> {
        for t in f {
            if *n == 0 { return Some(t) }
            *n -= 1;
            if let Some(x) = MTree::nth_mut(&mut t.ch, n) { return Some(x) }
        }
        None
    }
    /// sets parent ids and types to what the tree says
    pub fn relink(f: &mut [MTree], parent: &str, pkind: u8) {
        for t in f { t.v.parent = Some(parent.to_string()); t.v.parent_type = pkind as i8; let (id, k) = (t.v.id.clone(), t.v.kind); MTree::relink(&mut t.ch, &id, k); }
    }
}

/// A listing of the forest: seed 0 is depth-first, others are random orders with parents before
/// children and siblings in order
pub fn list(f: &[MTree], seed: u64) -> Vec<MView> {
    let mut out = vec![];
    let mut rng = mix(seed);
    // frontier: sibling lists still to be listed
    let mut front: Vec<(&[MTree], usize)> = vec![(f, 0)];
    loop {
        front.retain(|(s, i)| *i < s.len());
        if front.is_empty() { return out }
        rng = mix(rng);
        let k = match seed { 0 => front.len() - 1, 1 => 0, _ => (rng % front.len() as u64) as usize };
        let (s, i) = front[k];
        front[k].1 += 1;
        out.push(s[i].v.clone());
        if !s[i].ch.is_empty() { front.push((&s[i].ch, 0)); }
    }
}

/// Rebuilds the forest from a listing, demanding unique ids and parents listed before children
pub fn unlist(vs: &[MView]) -> R<Vec<MTree>> {
    let mut ids = Names::new();
    let mut roots: Vec<MTree> = vec![];
    fn find<'a>(f: &'a mut [MTree], id: &str) -> Option<&'a mut MTree> {
        for t in f { if t.v.id == id { return Some(t) } if let Some(x) = find(&mut t.ch, id) { return Some(x) } }
        None
    }
    for v in vs {
        if !ids.add(&v.id) { bail!("view {:?} is listed twice", v.id) }
        match v.parent.as_deref() {
            None => bail!("view {:?} has no parent", v.id),
            Some("root") => roots.push(MTree { v: v.clone(), ch: vec![] }),
            Some(p) => match find(&mut roots, p) { Some(t) => t.ch.push(MTree { v: v.clone(), ch: vec![] }), None => bail!("view {:?} is listed before its parent {p:?}, or the parent is missing", v.id) },
        }
    }
    Ok(roots)
}

pub fn same_forest(at: &str, got: &[MTree], want: &[MTree]) -> R<()> {
    if got == want { return Ok(()) }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let at = format!("{at}/{}", w.v.id);
        same_view(&format!("{at} (#{i})"), &g.v, &w.v)?;
        same_forest(&at, &g.ch, &w.ch)?;
    }
    eq(&format!("{at}: children"), &got.iter().map(|t| &t.v.id).collect::<Vec<_>>(), &want.iter().map(|t| &t.v.id).collect::<Vec<_>>())
}

/// attribute-wise comparison
pub fn same_view(at: &str, got: &MView, want: &MView) -> R<()> {
    if got == want { return Ok(()) }
    let (a, b) = (serde_json::to_value(got).unwrap(), serde_json::to_value(want).unwrap());
    for (k, x) in b.as_object().unwrap() {
        let y = &a[k];
        if x == y { continue }
        if let (Some(xo), Some(_)) = (x.as_object(), y.as_object()) {
            for (k2, x2) in xo { if x2 != &y[k2] { bail!("{at}: {k}.{k2} is {}, expected {x2}", y[k2]) } }
        }
        bail!("{at}: {k} is {y}, expected {x}");
    }
    bail!("{at}: got {got:?}, expected {want:?}")
}

// ------------------------------------------------------------------------------ typed views

/// whether the API must recognise a view of this record
pub fn recognised(v: &MView) -> bool { KINDS.contains(&v.kind) && !((v.kind == 6 || v.kind == 16) && v.img_res.is_none()) }

/// the typed view the record stands for
pub fn view_type(v: &MView) -> Option<av::ViewType> {
    use av::ViewType as T;
    if !recognised(v) { return None }
    let t = &v.t;
    let grav = Gravity(v.l.gravity);
    let (text, text_color, text_size, text_style, text_font) = (t.text.clone(), mkcolor(t.color), t.size, ttype_of(t.ttype), t.font.clone());
    Some(match v.kind {
        0 => T::LinearLayout { orientation: lorient_of(v.l.orient), gravity: grav },
        2 => T::ScrollView { orientation: lorient_of(-1), gravity: grav },
        12 => T::ScrollView { orientation: lorient_of(1), gravity: grav },
        3 => T::Button { text, text_color, text_size, text_style },
        4 => T::TextView { text, text_color, text_size, single_line: t.single, text_font, text_style, lines: t.line },
        5 => T::EditText { text, text_color, text_size, single_line: t.single, text_font, text_style, lines: t.line, hint: t.hint.clone(), hint_color: mkcolor(t.hint_color), ime_option: ime_of(t.ime), input_type: input_of(t.input) },
        6 => T::ImageView { image_res_name: v.img_res.clone().unwrap(), image_scale_type: scale_of(&v.img_scale) },
        7 => T::WebView,
        8 => T::ProgressBar { max_progress: v.max, progress: v.progress, indeterminate: v.indeterminate, progress_style: v.progress_style.clone() },
        9 => T::ListView { divider_height: v.divider_height, custom_view: v.custom_view.clone() },
        10 => T::Spinner { spinner_mode: spinner_of(v.spinner_mode) },
        11 => T::CheckBox { checked: v.checked, text, text_color, text_size, text_font, text_style },
        13 => T::Switch { checked: v.checked, text, text_color, text_size, text_font, text_style },
        14 => T::SeekBar { max_progress: v.max, progress: v.progress },
        15 => T::CalendarView { first_day_of_week: v.first_day },
        16 => T::Fab { image_res_name: v.img_res.clone().unwrap() },
        17 => T::AdView { adview_size: v.ad_size.clone() },
        18 => T::MapView,
        _ => return None,
    })
}

/// copies the type-specific attributes of `from` (and its kind) into `to`
pub fn copy_typed(from: &MView, to: &mut MView) {
    if !recognised(from) { return }
    to.kind = from.kind;
    macro_rules! c { ($($($f:ident).+),*) => {{ $( to.$($f).+ = from.$($f).+.clone(); )* }} }
    match from.kind {
        0 => c!(l.orient, l.gravity),
        2 | 12 => c!(l.gravity),
        3 => c!(t.text, t.color, t.size, t.ttype),
        4 => c!(t.text, t.color, t.size, t.single, t.font, t.ttype, t.line),
        5 => c!(t.text, t.color, t.size, t.single, t.font, t.ttype, t.line, t.hint, t.hint_color, t.ime, t.input),
        6 => c!(img_res, img_scale),
        8 => c!(max, progress, indeterminate, progress_style),
        9 => c!(divider_height, custom_view),
        10 => c!(spinner_mode),
        11 | 13 => c!(checked, t.text, t.color, t.size, t.font, t.ttype),
        14 => c!(max, progress),
        15 => c!(first_day),
        16 => c!(img_res),
        17 => c!(ad_size),
        _ => {}
    }
}
/// copies the attributes common to all views
pub fn copy_common(from: &MView, to: &mut MView) {
    macro_rules! c { ($($($f:ident).+),*) => {{ $( to.$($f).+ = from.$($f).+.clone(); )* }} }
    c!(id, l.height, l.width, l.pt, l.pr, l.pb, l.pl, l.mt, l.mr, l.mb, l.ml, l.weight, l.weight_sum, l.lgravity, l.bg);
}

/// sets the exposed common attributes of an API view
pub fn set_common(v: &mut av::View, m: &MView) {
    v.id = m.id.clone();
    v.background_color = mkcolor(m.l.bg);
    v.height = size_of(m.l.height);
    v.width = size_of(m.l.width);
    v.padding = av::SidesValue { top: m.l.pt, right: m.l.pr, bottom: m.l.pb, left: m.l.pl };
    v.margin = av::SidesValue { top: m.l.mt, right: m.l.mr, bottom: m.l.mb, left: m.l.ml };
    v.weight = m.l.weight;
    v.weight_sum = m.l.weight_sum;
    v.layout_gravity = Gravity(m.l.lgravity);
}

/// checks the exposed attributes of an API view (not its raw record or children) against a record
pub fn check_exposed(at: &str, v: &av::View, m: &MView) -> R<()> {
    eq(&format!("{at} id"), &v.id, &m.id)?;
    eq(&format!("{at} background"), &color_of(&v.background_color), &m.l.bg)?;
    eq(&format!("{at} height"), &size_num(v.height), &m.l.height)?;
    eq(&format!("{at} width"), &size_num(v.width), &m.l.width)?;
    let s = |s: &av::SidesValue| (s.top, s.right, s.bottom, s.left);
    eq(&format!("{at} padding"), &s(&v.padding), &(m.l.pt, m.l.pr, m.l.pb, m.l.pl))?;
    eq(&format!("{at} margin"), &s(&v.margin), &(m.l.mt, m.l.mr, m.l.mb, m.l.ml))?;
    eq(&format!("{at} weight"), &v.weight, &m.l.weight)?;
    eq(&format!("{at} weight sum"), &v.weight_sum, &m.l.weight_sum)?;
    eq(&format!("{at} layout gravity"), &v.layout_gravity.0, &m.l.lgravity)?;
    match (&v.view, view_type(m)) {
        (Ok(g), Some(w)) => eq(&format!("{at} typed view"), g, &w),
        (Err(e), None) => {
            let want = if KINDS.contains(&m.kind) { av::ViewTypeConversionError::ResNameNotPresent { view_id: m.id.clone() } } else { av::ViewTypeConversionError::UnknownViewType { view_type: m.kind, view_id: m.id.clone() } };
            eq(&format!("{at} unrecognised view"), e, &want)
        }
        (Ok(g), None) => bail!("{at}: type {} must be unrecognised, got {g:?}", m.kind),
        (Err(e), Some(w)) => bail!("{at}: got {e:?}, expected {w:?}"),
    }
}

/// checks an API forest: links, order, exposed attributes and raw records
pub fn check_api_forest(at: &str, got: &[av::View], want: &[MTree]) -> R<()> {
    for (g, w) in got.iter().zip(want) {
        let at = format!("{at}/{}", w.v.id);
        check_exposed(&at, g, &w.v)?;
        same_view(&format!("{at} raw"), &MView::of(&g.raw), &w.v)?;
        check_api_forest(&at, &g.children, &w.ch)?;
    }
    eq(&format!("{at}: children"), &got.iter().map(|t| t.id.as_str()).collect::<Vec<_>>(), &want.iter().map(|t| t.v.id.as_str()).collect::<Vec<_>>())
}

pub fn tree_to_api(t: &MTree) -> av::View {
    let mut v = av::View::from(t.v.to_swrs());
    v.children = t.ch.iter().map(tree_to_api).collect();
    v
}
