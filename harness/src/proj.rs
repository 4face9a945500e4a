//! Whole projects: a model, a generator of consistent projects, the reference encoding into the
//! six data files, comparison with an opened API project and with saved files.
use crate::engine::Ctx;
use crate::gen::{mix, Gen, Names};
use crate::json::Style;
use crate::prog::*;
use crate::raw::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use swrs::api::component::ComponentKind as CK;
use swrs::api::screen as sc;
use swrs::api::view as av;
use swrs::api::{self, library as al};
use swrs::parser::logic::{list_variable::ListVariable, variable::Variable};
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper as RW, ResourceType as RT};
use swrs::LinkedHashMap;

/// an id-based resource file wrapper, without name and kind
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MWrap { Str(String), U32(u32) }
impl MWrap {
    pub fn gen(g: &mut Gen) -> MWrap { if g.bool() { MWrap::Str(g.text()) } else { MWrap::U32(g.u32()) } }
    pub fn to_swrs(&self, full: &str, t: RT) -> RW {
        match self { MWrap::Str(s) => RW::StringId { id: s.clone(), res_full_name: full.into(), res_type: t }, MWrap::U32(n) => RW::U32Id { id: *n, res_full_name: full.into(), res_type: t } }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MResource { pub name: String, pub full: String, pub w: MWrap }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EvKind { View(String), Comp(String, u8), Activity }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MEv { pub name: String, pub kind: EvKind, pub code: MProg }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MFunc { pub id: String, pub spec: Vec<MItem>, pub code: MProg }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MCompo { pub id: String, pub ty: u8, pub p1: String }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MScreen {
    pub name: String, pub kb: i64, pub opts: i64, pub orient: i64, pub theme: i64,
    pub layout: Vec<MTree>, pub fab: Option<MView>,
    pub vars: Vec<(u8, String)>, pub lists: Vec<(u8, String)>, pub comps: Vec<MCompo>, pub funcs: Vec<MFunc>, pub events: Vec<MEv>, pub oncreate: Option<MProg>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MCustom { pub name: String, pub layout: Vec<MTree> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MProj {
    pub meta: MProject, pub lib: MLib, pub screens: Vec<MScreen>, pub customs: Vec<MCustom>,
    pub images: Vec<MResource>, pub sounds: Vec<MResource>, pub fonts: Vec<MResource>,
    pub icon: Option<(String, MWrap)>,
    /// opened without resource files
    pub auto: bool,
}

/// `debug_screen` -> `DebugScreenActivity`
pub fn java_name(s: &str) -> String {
    let mut out = String::new();
    for p in s.split('_') {
        let mut cs = p.chars();
        if let Some(c) = cs.next() { out.push(c.to_ascii_uppercase()); out.push_str(cs.as_str()); }
    }
    out + "Activity"
}
pub fn line_safe(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| !c.is_whitespace() && !c.is_control() && !matches!(c, '\u{feff}' | '\u{200b}')) && !s.contains(".java") }

impl MEv {
    pub fn container(&self) -> String { match &self.kind { EvKind::View(id) | EvKind::Comp(id, _) => format!("{id}_{}", self.name), EvKind::Activity => format!("{0}_{0}", self.name) } }
}
impl MFunc { pub fn container(&self) -> String { format!("{}_moreBlock", self.id) } }
pub const ON_CREATE: &str = "onCreate_initializeLogic";

fn small_prog(g: &mut Gen, big: bool) -> MProg {
    match g.weighted(&[3, 6, 2]) { 0 => vec![], 1 => gen_prog_cfg(g, 4, 2), _ => if big { gen_prog_cfg(g, 30, 5) } else { gen_prog_cfg(g, 8, 3) } }
}

impl MFunc {
    pub fn gen(g: &mut Gen, id: String) -> MFunc {
        let mut spec = vec![MItem::Text(if g.chance(3, 4) { id.clone() } else { spec_text(g) })];
        while spec.len() < 8 && g.chance(3, 5) {
            spec.push(if g.bool() { MItem::Text(spec_text(g)) } else {
                let kind = *g.pick(&['s', 'd', 'b', 'm']);
                MItem::Arg { kind, name: if kind == 'm' || g.chance(4, 5) { Some(if g.chance(1, 5) { format!("{}.{}", g.ident(), g.ident()) } else { g.ident() }) } else { None }, val: MVal::Empty }
            });
        }
        MFunc { id, spec, code: small_prog(g, true) }
    }
}
/// a non-blank, line-safe spec word
fn spec_text(g: &mut Gen) -> String {
    if g.chance(1, 24) { return String::new() }
    let w = match g.below(4) { 0 => g.pick(&["%", "a:b", ":", "=", "@x", "to", "100%", "\"q\""]).to_string(), 1 => word(g), _ => g.ident() };
    if w.starts_with('%') && w != "%" { format!("w{w}") } else { w }
}

impl MCompo {
    pub fn gen(g: &mut Gen, id: String) -> MCompo {
        let ty = g.range(1, 21) as u8;
        MCompo { id, ty, p1: if matches!(ty, 2 | 6 | 14 | 16) { g.text() } else { String::new() } }
    }
    pub fn kind(&self) -> CK {
        let p = self.p1.clone();
        match self.ty {
            1 => CK::Intent, 2 => CK::SharedPreferences { path: p }, 3 => CK::Calendar, 4 => CK::Vibrator, 5 => CK::Timer, 6 => CK::FirebaseDatabase { path: p }, 7 => CK::Dialog, 8 => CK::MediaPlayer, 9 => CK::SoundPool, 10 => CK::ObjectAnimator,
            11 => CK::Gyroscope, 12 => CK::FirebaseAuth, 13 => CK::InterstitialAd, 14 => CK::FirebaseStorage { path: p }, 15 => CK::Camera, 16 => CK::FilePicker { mime_type: p }, 17 => CK::RequestNetwork, 18 => CK::TextToSpeech, 19 => CK::SpeechToText, 20 => CK::BluetoothConnect, _ => CK::LocationManager,
        }
    }
}

impl MScreen {
    pub fn empty(name: String) -> MScreen { MScreen { name, kb: 0, opts: 1, orient: 0, theme: -1, layout: vec![], fab: None, vars: vec![], lists: vec![], comps: vec![], funcs: vec![], events: vec![], oncreate: None } }
    pub fn gen(g: &mut Gen, name: String) -> MScreen {
        let mut s = MScreen { kb: g.range(0, 2), opts: g.range(0, 15), orient: g.range(0, 2), theme: g.range(-1, 2), ..MScreen::empty(name) };
        let mut ids = Names::new();
        ids.add("root");
        if g.chance(4, 5) {
            let (b, deep) = match g.weighted(&[800, 300, 100, 3]) { 0 => (5, false), 1 => (12, false), 2 => (10, true), _ => (300, false) };
            s.layout = MTree::gen_forest(g, &mut ids, b, deep);
        }
        if g.chance(1, 2) { s.fab = Some(gen_fab(g, &mut ids)); }
        let mut n = Names::new();
        s.vars = g.vecx(5, |g| (g.below(4) as u8, n.uniq(g.uident())));
        let mut n = Names::new();
        s.lists = g.vecx(4, |g| (g.below(4) as u8, n.uniq(g.uident())));
        if g.chance(1, 60) { for i in 0..g.range(20, 120) { s.vars.push((g.below(4) as u8, format!("many{i}"))); } }
        let mut n = Names::new();
        s.comps = g.vecx(5, |g| { let id = n.uniq(g.ident()); MCompo::gen(g, id) });
        let mut cont = Names::new();
        cont.add(ON_CREATE);
        let mut n = Names::new();
        s.funcs = g.with_size(2, |g| g.vecx(4, |g| { let id = n.uniq(g.uident()); cont.add(&format!("{id}_moreBlock")); MFunc::gen(g, id) }));
        let targets = s.event_targets();
        s.events = g.with_size(3, |g| g.vecx(6, |g| {
            let kind = match g.below(3) { 0 => EvKind::Activity, 1 if !targets.is_empty() => EvKind::View(g.pick(&targets).clone()), 2 if !s.comps.is_empty() && g.chance(3, 4) => { let c = g.pick(&s.comps); EvKind::Comp(c.id.clone(), if g.bool() { c.ty } else { g.u8() }) } _ => EvKind::Comp(if g.chance(1, 15) { String::new() } else { g.ident() }, g.u8()) };
            let mut e = MEv { name: event_name(g), kind, code: vec![] };
            while !cont.add(&e.container()) { e.name.push('2'); }
            e.code = small_prog(g, true);
            e
        }));
        s.oncreate = g.opt(3, 5, |g| small_prog(g, true));
        s
    }
    pub fn event_targets(&self) -> Vec<String> {
        let mut t: Vec<String> = MTree::ids(&self.layout).into_iter().filter(|i| line_safe(i)).collect();
        if let Some(f) = &self.fab { if line_safe(&f.id) { t.push(f.id.clone()) } }
        t
    }
    /// type code of the view an event is attached to
    pub fn type_of_view(&self, id: &str) -> Option<u8> {
        if let Some(f) = &self.fab { if f.id == id { return Some(f.kind) } }
        MTree::find(&self.layout, id).map(|t| t.v.kind)
    }
    pub fn taken_ids(&self) -> Names {
        let mut n = Names::new();
        n.add("root");
        for i in MTree::ids(&self.layout) { n.add(&i); }
        if let Some(f) = &self.fab { n.add(&f.id); }
        n
    }
    pub fn containers(&self) -> Names {
        let mut n = Names::new();
        n.add(ON_CREATE);
        for f in &self.funcs { n.add(&f.container()); }
        for e in &self.events { n.add(&e.container()); }
        n
    }
    pub fn file_item(&self) -> MFileItem { MFileItem { name: self.name.clone(), ftype: 0, kb: self.kb, opts: self.opts, orient: self.orient, theme: self.theme } }
    pub fn raw_event(&self, e: &MEv) -> MEvent {
        match &e.kind {
            EvKind::View(id) => MEvent { name: e.name.clone(), ty: 1, target: id.clone(), target_ty: self.type_of_view(id).unwrap_or(0) },
            EvKind::Comp(id, t) => MEvent { name: e.name.clone(), ty: 2, target: id.clone(), target_ty: *t },
            EvKind::Activity => MEvent { name: e.name.clone(), ty: 3, target: e.name.clone(), target_ty: 0 },
        }
    }
    pub fn to_api(&self) -> sc::Screen {
        let mut events: Vec<sc::Event> = vec![];
        if let Some(p) = &self.oncreate { events.push(sc::Event { name: "onCreate".into(), event_type: sc::EventType::ActivityEvent, code: to_api(p) }) }
        for e in &self.events { events.push(event_to_api(e)) }
        sc::Screen {
            layout_name: self.name.clone(), java_name: java_name(&self.name), layout: self.layout.iter().map(tree_to_api).collect(),
            variables: self.vars.iter().map(|(t, n)| (n.clone(), Variable { name: n.clone(), r#type: var_type_of(*t) })).collect(),
            list_variables: self.lists.iter().map(|(t, n)| (n.clone(), ListVariable { name: n.clone(), r#type: var_type_of(*t) })).collect(),
            more_blocks: self.funcs.iter().map(|f| (f.id.clone(), func_to_api(f))).collect(),
            components: self.comps.iter().map(|c| (c.id.clone(), c.kind())).collect(),
            events, fab: self.fab.as_ref().map(|f| av::View::from(f.to_swrs())),
            fullscreen_enabled: self.opts & 2 != 0, toolbar_enabled: self.opts & 1 != 0, drawer_enabled: self.opts & 4 != 0, fab_enabled: self.opts & 8 != 0,
            orientation: orient_of(self.orient), theme: theme_of(self.theme), keyboard_setting: kb_of(self.kb),
        }
    }
}
pub fn event_name(g: &mut Gen) -> String {
    let n = match g.below(4) { 0 | 1 => g.pick(&["onClick", "onBackPressed", "onLongClick", "onTextChanged", "onPause", "onResume", "onDestroy", "onStart", "onItemClicked", "moreBlock", "initializeLogic", "onChildAdded"]).to_string(), 2 => if g.chance(1, 4) { format!("{}{}", g.pick(&["onCreate", "oncreate", "OnCreate", "onCreat", "_onCreate", "initializeLogic"]), g.pick(&["", "OptionsMenu", "_", "X", "2", "View"])) } else { g.ident() }, _ => g.uident() };
    // the name stands for the code that runs on creation, whatever the event is attached to
    if n == "onCreate" { "onCreateView".into() } else { n }
}
pub fn event_to_api(e: &MEv) -> sc::Event {
    sc::Event { name: e.name.clone(), event_type: match &e.kind { EvKind::View(id) => sc::EventType::ViewEvent { id: id.clone() }, EvKind::Comp(id, t) => sc::EventType::ComponentEvent { id: id.clone(), component_type: *t }, EvKind::Activity => sc::EventType::ActivityEvent }, code: to_api(&e.code) }
}
pub fn func_to_api(f: &MFunc) -> sc::MoreBlock { sc::MoreBlock { name: f.id.clone(), spec: content_to_api(&f.spec), code: to_api(&f.code) } }

pub fn gen_fab(g: &mut Gen, ids: &mut Names) -> MView {
    let id = if g.chance(2, 3) { "_fab".to_string() } else { g.uident() };
    let id = ids.uniq(id);
    let kind = if g.chance(5, 6) { 16 } else { view_kind(g) };
    let mut v = MView::gen_with(g, id, kind, None);
    v.parent = None;
    v.parent_type = -1;
    v
}

pub fn canonical_lib(g: &mut Gen) -> MLib {
    let yn = |b: bool| if b { "Y".to_string() } else { "N".to_string() };
    let mut l = MLib::default();
    l.compat.lt = 1; l.admob.lt = 2; l.gmap.lt = 3;
    let on = g.bool();
    l.firebase.yn = yn(on);
    if on { l.firebase.data = g.text(); l.firebase.r1 = g.text(); l.firebase.r2 = g.text(); l.firebase.r3 = g.text(); }
    l.compat.yn = yn(g.bool());
    let on = g.bool();
    l.admob.yn = yn(on);
    if on { l.admob.ads = g.with_size(2, |g| g.vecx(4, |g| (g.text(), g.text()))); l.admob.devs = g.with_size(2, |g| g.vecx(4, |g| g.text())); }
    let on = g.bool();
    l.gmap.yn = yn(on);
    if on { l.gmap.data = g.text(); }
    l
}

pub fn full_name(g: &mut Gen) -> String {
    match g.below(5) { 0 => g.pick(&["a.png", "icon.png", "x.y.mp3", "no_ext", "A.PNG", "font.ttf", "a b.png"]).to_string(), 1 => g.text(), _ => format!("{}.{}", g.ident(), g.pick(&["png", "mp3", "ttf", "9.png"])) }
}

#[derive(Clone, Copy, PartialEq)]
pub enum ProjSize { Small, Normal }

impl MProj {
    pub fn gen(g: &mut Gen) -> MProj { MProj::gen_sized(g, ProjSize::Normal) }
    pub fn gen_sized(g: &mut Gen, z: ProjSize) -> MProj {
        let mut meta = MProject::gen(g);
        let lib = canonical_lib(g);
        let mut names = Names::new(); // layout names and java names share one table with distinct prefixes
        let auto = g.chance(1, 4);
        let sz = if z == ProjSize::Small { 1 } else { g.size.min(3) };
        let max = if z == ProjSize::Small { 2 } else { 5 };
        let mut screens: Vec<MScreen> = g.with_size(sz, |g| g.vec(max, |g| { let n = screen_name(g, &mut names); MScreen::gen(g, n) }));
        if z == ProjSize::Normal && g.chance(1, 80) {
            // many small screens
            let many = if g.chance(1, 12) { 300 } else { 40 };
            for i in 0..g.range(5, many) { let n = uniq_screen(&mut names, format!("scr_{i}")); let mut s = MScreen::empty(n); s.vars = vec![(2, "v".into())]; s.oncreate = g.opt(1, 2, |g| small_prog(g, false)); screens.push(s); }
        }
        let drawers: Vec<String> = screens.iter().filter(|s| s.opts & 4 != 0).map(|s| s.name.clone()).collect();
        let mut customs = vec![];
        for d in drawers { if g.chance(2, 3) { let n = format!("_drawer_{d}"); if names.add(&format!("l:{n}")) { customs.push(gen_custom(g, n)) } } }
        let more = g.with_size(sz, |g| g.vec(3, |g| { let n = custom_name(g); let n = uniq_layout(&mut names, n); gen_custom(g, n) }));
        customs.extend(more);
        if z == ProjSize::Normal && g.chance(1, 600) { for i in 0..g.range(20, 300) { let n = uniq_layout(&mut names, format!("cv_{i}")); customs.push(gen_custom(g, n)) } }
        g.shuffle(&mut customs);
        let res = |g: &mut Gen| { let mut n = Names::new(); let mut f = Names::new(); g.vecx(4, |g| MResource { name: n.uniq(if g.chance(3, 4) { g.ident() } else { g.text() }), full: f.uniq(full_name(g)), w: MWrap::gen(g) }) };
        let (images, sounds, fonts) = (res(g), res(g), res(g));
        let icon = g.opt(1, 2, |g| (if g.chance(3, 4) { "icon.png".to_string() } else { full_name(g) }, MWrap::gen(g)));
        meta.icon = icon.is_some();
        MProj { meta, lib, screens, customs, images, sounds, fonts, icon, auto }
    }

    pub fn wrappers(&self) -> Vec<RW> {
        let mut v = vec![];
        if let Some((f, w)) = &self.icon { v.push(w.to_swrs(f, RT::CustomIcon)) }
        for (l, t) in [(&self.images, RT::Image), (&self.sounds, RT::Sound), (&self.fonts, RT::Font)] { for r in l { v.push(r.w.to_swrs(&r.full, t)) } }
        v
    }

    pub fn file(&self) -> MFile {
        MFile { activities: self.screens.iter().map(|s| s.file_item()).collect(), customs: self.customs.iter().map(|c| MFileItem { name: c.name.clone(), ftype: if c.name.starts_with("_drawer_") { 2 } else { 1 }, kb: 0, opts: 0, orient: 2, theme: -1 }).collect() }
    }
    pub fn res(&self) -> MRes {
        let f = |l: &Vec<MResource>| l.iter().map(|r| MResItem { full: r.full.clone(), name: r.name.clone(), ty: 1 }).collect();
        MRes { images: f(&self.images), sounds: f(&self.sounds), fonts: f(&self.fonts) }
    }
    pub fn view(&self, seed: u64) -> MViewFile {
        let mut rng = mix(seed);
        let mut r = |n: u64| { rng = mix(rng); if seed == 0 { 1 } else { rng % n } };
        let mut v = MViewFile::default();
        for s in &self.screens {
            if s.layout.is_empty() && r(3) == 0 { /* no section at all */ } else { v.layouts.push((s.name.clone(), list(&s.layout, if seed == 0 { 0 } else { r(50) }))) }
            if let Some(f) = &s.fab { v.fabs.push((s.name.clone(), f.clone())) }
        }
        for c in &self.customs { v.layouts.push((c.name.clone(), list(&c.layout, if seed == 0 { 0 } else { r(50) }))) }
        if seed != 0 { for i in (1..v.layouts.len()).rev() { let j = r(i as u64 + 1) as usize; v.layouts.swap(i, j); } }
        v
    }
    pub fn logic(&self, seed: u64) -> MLogic {
        let mut rng = mix(seed ^ 5);
        let mut r = |n: u64| { rng = mix(rng); if seed == 0 { 1 } else { rng % n } };
        let mut l = MLogic::default();
        for s in &self.screens {
            let mut o = MLogicScreen { name: java_name(&s.name), ..Default::default() };
            if !s.vars.is_empty() || r(2) == 0 { o.vars = Some(s.vars.clone()) }
            if !s.lists.is_empty() || r(2) == 0 { o.lists = Some(s.lists.clone()) }
            if !s.comps.is_empty() || r(2) == 0 { o.comps = Some(s.comps.iter().map(|c| MComp { id: c.id.clone(), p1: c.p1.clone(), p2: String::new(), p3: String::new(), ty: c.ty }).collect()) }
            if !s.events.is_empty() || r(2) == 0 { o.events = Some(s.events.iter().map(|e| s.raw_event(e)).collect()) }
            if !s.funcs.is_empty() || r(2) == 0 { o.funcs = Some(s.funcs.iter().map(|f| (f.id.clone(), spec_of(&f.spec))).collect()) }
            let mut cs: Vec<(String, &MProg)> = vec![];
            if let Some(p) = &s.oncreate { cs.push((ON_CREATE.into(), p)) }
            for e in &s.events { if !e.code.is_empty() || r(2) == 0 { cs.push((e.container(), &e.code)) } }
            for f in &s.funcs { if !f.code.is_empty() || r(2) == 0 { cs.push((f.container(), &f.code)) } }
            if seed != 0 { for i in (1..cs.len()).rev() { let j = r(i as u64 + 1) as usize; cs.swap(i, j); } }
            for (n, p) in cs { let sd = if seed == 0 { 0 } else { r(1000) }; o.containers.push((n, encode(p, sd))); }
            l.screens.push(o);
        }
        l
    }
    pub fn lib_text(&self, st: &Style) -> String { self.lib.encode(st) }

    pub fn to_raw(&self, seed: u64, st: &Style) -> RawSketchwareProject {
        let order: Vec<u32> = if seed % 3 == 0 { vec![] } else { (0..13).map(|i| mix(seed ^ (i + 100)) as u32 >> 3).collect() };
        RawSketchwareProject {
            project: self.meta.encode(st), file: self.file().encode(st), library: self.lib_text(st), resource: self.res().encode(st),
            view: self.view(seed).encode(st, seed % 2 == 0), logic: self.logic(seed).encode(st, &order, seed % 5 != 0),
            resource_files: if self.auto { None } else { Some(self.wrappers()) },
        }
    }

    /// a project built from scratch through the API (resources excepted)
    pub fn to_api_new(&self) -> R<api::SketchwareProject> {
        let m = &self.meta;
        let c = m.colors.map(mkcolor);
        let mut res = api::Resources::new_empty();
        for (l, t) in [(&self.images, RT::Image), (&self.sounds, RT::Sound), (&self.fonts, RT::Font)] {
            for r in l { res.put_resource(api::ResourceId(r.name.clone()), r.w.to_swrs(&r.full, t), t).map_err(|e| format!("put_resource({:?}) failed: {e:?}", r.name))?; }
        }
        let mut p = api::SketchwareProject::new(
            api::Metadata { local_id: m.id, name: m.app.clone(), workspace_name: m.ws.clone(), package_name: m.pkg.clone(), time_created: m.timestamp(), sketchware_version: m.sw_ver, version_name: m.ver_name.clone(), version_code: m.ver_code },
            api::Colors { color_primary: c[0], color_primary_dark: c[1], color_accent: c[2], color_control_normal: c[3], color_control_highlight: c[4] },
            self.screens.iter().map(|s| s.to_api()).collect(),
            self.customs.iter().map(|c| api::CustomView { res_name: c.name.clone(), layout: c.layout.iter().map(tree_to_api).collect() }).collect(),
            libs_to_api(&self.lib), res);
        p.custom_icon = self.icon.as_ref().map(|(f, w)| w.to_swrs(f, RT::CustomIcon));
        Ok(p)
    }

    // ------------------------------------------------------------------ comparison with the API

    pub fn same_api(&self, p: &api::SketchwareProject) -> R<()> {
        let m = &self.meta;
        let d = &p.metadata;
        eq("metadata.local_id", &d.local_id, &m.id)?; eq("metadata.name", &d.name, &m.app)?; eq("metadata.workspace_name", &d.workspace_name, &m.ws)?; eq("metadata.package_name", &d.package_name, &m.pkg)?;
        eq("metadata.time_created", &d.time_created, &m.timestamp())?; eq("metadata.sketchware_version", &d.sketchware_version, &m.sw_ver)?; eq("metadata.version_name", &d.version_name, &m.ver_name)?; eq("metadata.version_code", &d.version_code, &m.ver_code)?;
        let c = &p.colors;
        eq("colours", &[c.color_primary, c.color_primary_dark, c.color_accent, c.color_control_normal, c.color_control_highlight].map(|x| color_of(&x)), &m.colors)?;
        eq("libraries", &p.libraries, &libs_to_api(&self.lib))?;
        match (&p.custom_icon, &self.icon) {
            (None, None) => {}
            (Some(g), Some((f, w))) => if self.auto { kind_is("custom icon", g, None, RT::CustomIcon)? } else { eq("custom icon", g, &w.to_swrs(f, RT::CustomIcon))? },
            (g, w) => bail!("custom icon: got {g:?}, expected {w:?}"),
        }
        for (what, got, want, t) in [("images", p.resources.get_images(), &self.images, RT::Image), ("sounds", p.resources.get_sounds(), &self.sounds, RT::Sound), ("fonts", p.resources.get_fonts(), &self.fonts, RT::Font)] {
            eq(&format!("{what} ids"), &got.keys().map(|k| k.0.as_str()).collect::<Vec<_>>(), &want.iter().map(|r| r.name.as_str()).collect::<Vec<_>>())?;
            for (r, (_, g)) in want.iter().zip(got.iter()) {
                let at = format!("{what} {:?}", r.name);
                if self.auto { kind_is(&at, g, Some(&r.full), t)? } else { eq(&at, g, &r.w.to_swrs(&r.full, t))? }
            }
        }
        eq("custom view names", &p.custom_views.iter().map(|c| c.res_name.as_str()).collect::<Vec<_>>(), &self.customs.iter().map(|c| c.name.as_str()).collect::<Vec<_>>())?;
        for (g, w) in p.custom_views.iter().zip(&self.customs) { check_api_forest(&format!("custom view {}", w.name), &g.layout, &w.layout)?; }
        eq("screen names", &p.screens.iter().map(|c| c.layout_name.as_str()).collect::<Vec<_>>(), &self.screens.iter().map(|c| c.name.as_str()).collect::<Vec<_>>())?;
        for (g, w) in p.screens.iter().zip(&self.screens) { same_screen(g, w)?; }
        Ok(())
    }

    // ------------------------------------------------------------------ comparison with saved files

    pub fn check_saved(&self, raw: &RawSketchwareProject, ctx: Option<&mut Ctx>) -> R<()> {
        eq("saved project", &MProject::decode(&raw.project)?, &self.meta)?;
        self.file().same(&MFile::decode(&raw.file)?).map_err(|e| format!("saved file list: {e}"))?;
        self.saved_lib(&MLib::decode(&raw.library)?, ctx).map_err(|e| format!("saved libraries: {e}"))?;
        self.res().same(&MRes::decode(&raw.resource)?).map_err(|e| format!("saved resource list: {e}"))?;
        self.saved_view(&MViewFile::decode(&raw.view)?).map_err(|e| format!("saved views: {e}"))?;
        self.saved_logic(&MLogic::decode(&raw.logic)?).map_err(|e| format!("saved logic: {e}"))?;
        match (&raw.resource_files, self.auto) {
            (None, true) => {}
            (Some(got), false) => {
                let key = |v: Vec<RW>| { let mut k: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect(); k.sort(); k };
                eq("saved resource files", &key(got.clone()), &key(self.wrappers()))?;
            }
            (g, a) => bail!("saved resource files: got {g:?}, opened {} resource files", if a { "without" } else { "with" }),
        }
        Ok(())
    }
    fn saved_lib(&self, got: &MLib, mut ctx: Option<&mut Ctx>) -> R<()> {
        for i in 0..4 {
            let (h, g, w) = (LIB_HEADERS[i], got.items()[i], self.lib.items()[i]);
            if g == w { continue }
            let msg = eq(&format!("library {h}"), g, w).unwrap_err();
            // the two recorded findings, each matched by its exact outcome
            let dropped_disabled = i != 1 && w.yn == "N" && *g == MLibItem { lt: i as u8, yn: "N".into(), ..Default::default() };
            let dropped_admob = i == 2 && w.yn == "Y" && *g == MLibItem { data: String::new(), r1: String::new(), r2: String::new(), r3: String::new(), ..w.clone() };
            let sig = if dropped_disabled { "disabled-library-settings" } else if dropped_admob { "admob-data-reserved" } else { return Err(msg) };
            match &mut ctx { Some(c) => c.known(sig, msg)?, None => return Err(msg) }
        }
        Ok(())
    }
    fn saved_view(&self, got: &MViewFile) -> R<()> {
        let mut want: Vec<(&str, &Vec<MTree>)> = self.screens.iter().map(|s| (s.name.as_str(), &s.layout)).collect();
        want.extend(self.customs.iter().map(|c| (c.name.as_str(), &c.layout)));
        for (n, vs) in &got.layouts {
            match want.iter().find(|w| w.0 == n) {
                Some((_, w)) => same_forest(&format!("layout {n}"), &unlist(vs).map_err(|e| format!("layout {n}: {e}"))?, w)?,
                None => if !vs.is_empty() { bail!("layout {n} belongs to no screen or custom view") },
            }
        }
        for (n, w) in &want { if !got.layouts.iter().any(|g| g.0 == *n) && (!w.is_empty() || self.customs.iter().any(|c| c.name == *n)) { bail!("layout {n} is missing") } }
        for s in &self.screens {
            match (got.fabs.iter().find(|f| f.0 == s.name), &s.fab) {
                (None, None) => {}
                (Some((_, g)), Some(w)) => same_view(&format!("fab of {}", s.name), g, w)?,
                (g, w) => bail!("fab of {}: {}, expected {}", s.name, if g.is_some() { "present" } else { "absent" }, if w.is_some() { "present" } else { "absent" }),
            }
        }
        for (n, _) in &got.fabs { if !self.screens.iter().any(|s| &s.name == n) { bail!("fab of unknown screen {n}") } }
        Ok(())
    }
    fn saved_logic(&self, got: &MLogic) -> R<()> {
        for g in &got.screens {
            if !self.screens.iter().any(|s| java_name(&s.name) == g.name) && *g != (MLogicScreen { name: g.name.clone(), ..Default::default() }) {
                let c = g.canon();
                if !(c.vars.unwrap().is_empty() && c.lists.unwrap().is_empty() && c.comps.unwrap().is_empty() && c.events.unwrap().is_empty() && c.funcs.unwrap().is_empty() && c.containers.iter().all(|x| x.1.is_empty())) { bail!("logic of {} belongs to no screen", g.name) }
            }
        }
        for s in &self.screens {
            let n = java_name(&s.name);
            let none = MLogicScreen { name: n.clone(), ..Default::default() };
            let g = got.screens.iter().find(|g| g.name == n).unwrap_or(&none).canon();
            eq_list(&format!("{n} variables"), g.vars.as_ref().unwrap(), &s.vars)?;
            eq_list(&format!("{n} lists"), g.lists.as_ref().unwrap(), &s.lists)?;
            eq_list(&format!("{n} components"), g.comps.as_ref().unwrap(), &s.comps.iter().map(|c| MComp { id: c.id.clone(), p1: c.p1.clone(), p2: String::new(), p3: String::new(), ty: c.ty }).collect::<Vec<_>>())?;
            eq_list(&format!("{n} moreblocks"), g.funcs.as_ref().unwrap(), &s.funcs.iter().map(|f| (f.id.clone(), spec_of(&f.spec))).collect::<Vec<_>>())?;
            let mut evs = g.events.clone().unwrap();
            for (i, e) in s.events.iter().enumerate() {
                // an event left behind by a removed view has no type to speak of
                if let (EvKind::View(id), Some(x)) = (&e.kind, evs.get_mut(i)) { if s.type_of_view(id).is_none() { x.target_ty = 0 } }
            }
            eq_list(&format!("{n} events"), &evs, &s.events.iter().map(|e| s.raw_event(e)).collect::<Vec<_>>())?;
            let mut rest: Vec<(String, Vec<MRawBlock>)> = g.containers.clone();
            let mut take = |c: &str| rest.iter().position(|x| x.0 == c).map(|i| rest.remove(i).1).unwrap_or_default();
            let mut code = |c: String, p: &[MBlock]| -> R<()> {
                let bs = take(&c);
                same_prog(&format!("{n} {c}"), &interpret(&bs).map_err(|e| format!("{n} {c}: {e}"))?, p)
            };
            code(ON_CREATE.into(), s.oncreate.as_deref().unwrap_or(&[]))?;
            for e in &s.events { code(e.container(), &e.code)?; }
            for f in &s.funcs { code(f.container(), &f.code)?; }
            if let Some((c, _)) = rest.iter().find(|c| !c.1.is_empty()) { bail!("{n}: container {c} belongs to no event or moreblock") }
        }
        Ok(())
    }
    pub fn nontrivial(&self) -> bool { self.screens.iter().any(|s| !s.layout.is_empty() || !s.events.is_empty() || !s.funcs.is_empty() || !s.vars.is_empty()) }
    pub fn labels(&self, ctx: &mut Ctx) {
        ctx.label_if(self.auto, "without resource files");
        ctx.label_if(self.screens.len() > 1, "several screens");
        ctx.label_if(self.screens.iter().any(|s| s.fab.is_some()), "fab");
        ctx.label_if(self.screens.iter().any(|s| MTree::depth(&s.layout) > 1), "nested views");
        ctx.label_if(self.screens.iter().any(|s| s.events.iter().any(|e| has_args(&e.code) || has_stacks(&e.code))), "nested code");
        ctx.label_if(self.screens.iter().any(|s| s.oncreate.is_some()), "onCreate");
        ctx.label_if(self.customs.iter().any(|c| c.name.starts_with("_drawer_")), "drawer");
        ctx.label_if(!self.images.is_empty() || !self.sounds.is_empty() || !self.fonts.is_empty(), "resources");
        ctx.nontrivial(self.nontrivial());
    }
}

fn kind_is(at: &str, g: &RW, full: Option<&str>, t: RT) -> R<()> {
    let (f, k) = match g { RW::U32Id { res_full_name, res_type, .. } | RW::StringId { res_full_name, res_type, .. } => (res_full_name, *res_type), RW::Path(p) => bail!("{at}: a real path {p:?} was made up") };
    eq(&format!("{at} kind"), &k, &t)?;
    if let Some(x) = full { eq(&format!("{at} file name"), &f.as_str(), &x)?; }
    Ok(())
}

fn same_screen(g: &sc::Screen, w: &MScreen) -> R<()> {
    let n = &w.name;
    eq(&format!("{n} java name"), &g.java_name, &java_name(n))?;
    eq(&format!("{n} options (toolbar, fullscreen, drawer, fab)"), &(g.toolbar_enabled, g.fullscreen_enabled, g.drawer_enabled, g.fab_enabled), &(w.opts & 1 != 0, w.opts & 2 != 0, w.opts & 4 != 0, w.opts & 8 != 0))?;
    eq(&format!("{n} orientation, theme, keyboard"), &(orient_num(g.orientation), theme_num(g.theme), kb_num(g.keyboard_setting)), &(w.orient, w.theme, w.kb))?;
    check_api_forest(&format!("{n} layout"), &g.layout, &w.layout)?;
    match (&g.fab, &w.fab) {
        (None, None) => {}
        (Some(a), Some(b)) => { check_exposed(&format!("{n} fab"), a, b)?; same_view(&format!("{n} fab raw"), &MView::of(&a.raw), b)?; if !a.children.is_empty() { bail!("{n} fab has children") } }
        (a, b) => bail!("{n} fab: {}, expected {}", if a.is_some() { "present" } else { "absent" }, if b.is_some() { "present" } else { "absent" }),
    }
    for (k, v) in &g.variables { if k != &v.name { bail!("{n}: variable stored under {k:?} is named {:?}", v.name) } }
    for (k, v) in &g.list_variables { if k != &v.name { bail!("{n}: list stored under {k:?} is named {:?}", v.name) } }
    eq_list(&format!("{n} variables"), &g.variables.values().map(|v| (var_type(v.r#type), v.name.clone())).collect::<Vec<_>>(), &w.vars)?;
    eq_list(&format!("{n} lists"), &g.list_variables.values().map(|v| (var_type(v.r#type), v.name.clone())).collect::<Vec<_>>(), &w.lists)?;
    eq_list(&format!("{n} components"), &g.components.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), &w.comps.iter().map(|c| (c.id.clone(), c.kind())).collect::<Vec<_>>())?;
    eq(&format!("{n} moreblocks"), &g.more_blocks.iter().map(|(k, m)| (k.as_str(), m.name.as_str())).collect::<Vec<_>>(), &w.funcs.iter().map(|f| (f.id.as_str(), f.id.as_str())).collect::<Vec<_>>())?;
    for (a, b) in g.more_blocks.values().zip(&w.funcs) {
        eq(&format!("{n} moreblock {} spec", b.id), &canon_items(&items_of_api(&a.spec)?), &canon_items(&b.spec))?;
        same_prog(&format!("{n} moreblock {} code", b.id), &of_api(&a.code)?, &b.code)?;
    }
    let on: Vec<&sc::Event> = g.events.iter().filter(|e| e.event_type == sc::EventType::ActivityEvent && e.name == "onCreate").collect();
    if on.len() > 1 { bail!("{n} has {} onCreate events", on.len()) }
    if w.oncreate.is_some() && on.is_empty() { bail!("{n} has no onCreate event") }
    same_prog(&format!("{n} onCreate"), &on.first().map(|e| of_api(&e.code)).transpose()?.unwrap_or_default(), w.oncreate.as_deref().unwrap_or(&[]))?;
    let evs: Vec<&sc::Event> = g.events.iter().filter(|e| !(e.event_type == sc::EventType::ActivityEvent && e.name == "onCreate")).collect();
    let key = |e: &sc::Event| (e.name.clone(), match &e.event_type { sc::EventType::ViewEvent { id } => EvKind::View(id.clone()), sc::EventType::ComponentEvent { id, component_type } => EvKind::Comp(id.clone(), *component_type), sc::EventType::ActivityEvent => EvKind::Activity });
    eq_list(&format!("{n} events"), &evs.iter().map(|e| key(e)).collect::<Vec<_>>(), &w.events.iter().map(|e| (e.name.clone(), e.kind.clone())).collect::<Vec<_>>())?;
    for (a, b) in evs.iter().zip(&w.events) { same_prog(&format!("{n} event {}", b.container()), &of_api(&a.code)?, &b.code)?; }
    Ok(())
}
/// spec items with texts split into words and argument values dropped
pub fn canon_items(items: &[MItem]) -> Vec<MItem> {
    let mut out = vec![];
    for i in items { match i { MItem::Text(t) => out.extend(t.split(' ').map(|w| MItem::Text(w.into()))), MItem::Arg { kind, name, .. } => out.push(MItem::Arg { kind: *kind, name: name.clone(), val: MVal::Empty }) } }
    out
}

pub fn libs_to_api(l: &MLib) -> api::Libraries {
    use swrs::parser::library::AdUnit;
    api::Libraries {
        app_compat_enabled: l.compat.yn == "Y",
        firebase: (l.firebase.yn == "Y").then(|| al::Firebase { project_id: l.firebase.data.clone(), app_id: l.firebase.r1.clone(), api_key: l.firebase.r2.clone(), storage_bucket: l.firebase.r3.clone() }),
        ad_mob: (l.admob.yn == "Y").then(|| al::AdMob { ad_units: l.admob.ads.iter().map(|(i, n)| AdUnit { id: i.clone(), name: n.clone() }).collect(), test_devices: l.admob.devs.clone() }),
        google_map: (l.gmap.yn == "Y").then(|| al::GoogleMap { api_key: l.gmap.data.clone() }),
    }
}

pub fn screen_base(g: &mut Gen) -> String {
    match g.below(4) { 0 => g.pick(&["main", "debug_screen", "a_b", "a_b_c", "login", "x1", "main_menu"]).to_string(), 1 => format!("{}_{}", g.ident(), g.ident()), _ => g.ident() }
}
fn screen_name(g: &mut Gen, names: &mut Names) -> String { let s = screen_base(g); uniq_screen(names, s) }
/// unique both as a layout name and by its Java name
pub fn uniq_screen(names: &mut Names, s: String) -> String {
    let mut c = s.clone();
    let mut i = 1;
    while names.taken(&format!("l:{c}")) || names.taken(&format!("j:{}", java_name(&c))) { i += 1; c = format!("{s}{i}"); }
    names.add(&format!("l:{c}"));
    names.add(&format!("j:{}", java_name(&c)));
    c
}
pub fn uniq_layout(names: &mut Names, s: String) -> String { let mut c = s.clone(); let mut i = 1; while !names.add(&format!("l:{c}")) { i += 1; c = format!("{s}{i}"); } c }
pub fn custom_name(g: &mut Gen) -> String { if g.chance(1, 5) { format!("_drawer_{}", g.ident()) } else if g.chance(1, 6) { format!("drawer_{}", g.ident()) } else { g.ident() } }
pub fn gen_custom(g: &mut Gen, name: String) -> MCustom {
    let mut ids = Names::new();
    ids.add("root");
    MCustom { name, layout: MTree::gen_forest(g, &mut ids, 5, false) }
}

/// decodes, opens and compares: used by several properties
pub fn open(raw: RawSketchwareProject) -> R<api::SketchwareProject> {
    let p = swrs::parser::SketchwareProject::parse_from(raw).map_err(|e| format!("parsing the project failed: {}", errs(&e)))?;
    api::SketchwareProject::try_from(p).map_err(|e| format!("opening the project failed: {}", errs(&e)))
}
pub fn save(p: api::SketchwareProject) -> R<RawSketchwareProject> { TryInto::<RawSketchwareProject>::try_into(p).map_err(|e| format!("saving the project failed: {}", errs(&e))) }
pub fn errs<E: std::error::Error>(e: &E) -> String { clip(&format!("{e} / {e:?}")) }
#[allow(unused)]
type _L = LinkedHashMap<String, String>;
