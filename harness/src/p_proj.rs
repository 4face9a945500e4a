//! C16, C17, C19, C20: opening and saving projects, resources.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::{mix, Gen, Names};
use crate::json::Style;
use crate::p_raw::Scratch;
use crate::proj::*;
use crate::raw::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use swrs::api::{self, ResourceId, Resources};
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper as RW, ResourceFiles, ResourceType as RT};

const PROJ_ASSUME: &[&str] = &[
    "consistent projects: names of screens, layouts, views, variables, events and resources are unique where the format identifies them by name",
    "names stored in lines (ids, event and variable names) contain no white space; screen names are ASCII identifiers",
    "libraries use their canonical type numbers; string and menu literals do not start with `@`",
];

// ------------------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Files { pub p: MProj, pub seed: u64, pub st: Style, pub extra: u8 }
pub fn gen_files(g: &mut Gen) -> Files {
    let p = MProj::gen(g);
    Files { p, seed: if g.chance(1, 5) { 0 } else { 1 + g.below(1 << 32) }, st: Style::gen(g), extra: if g.chance(1, 3) { g.below(8) as u8 } else { 0 } }
}
/// things no entry of the project refers to, which must not show up in it
fn distract(c: &Files, raw: &mut RawSketchwareProject) {
    let mut names = Names::new();
    for s in &c.p.screens { names.add(&format!("l:{}", s.name)); names.add(&format!("j:{}", java_name(&s.name))); }
    for s in &c.p.customs { names.add(&format!("l:{}", s.name)); }
    let n = uniq_screen(&mut names, c.p.screens.first().map_or("main".to_string(), |s| format!("{}x", s.name)));
    if c.extra & 1 != 0 {
        let mut v = c.p.view(c.seed);
        let stray = MView::default_with("stray".into(), 4, Some("root".into()));
        v.layouts.insert((c.seed as usize) % (v.layouts.len() + 1), (n.clone(), vec![stray]));
        v.fabs.push((n.clone(), MView { parent: None, parent_type: -1, ..MView::default_with("_fab".into(), 16, None) }));
        raw.view = v.encode(&c.st, c.seed % 2 == 0);
    }
    if c.extra & 2 != 0 {
        let mut l = c.p.logic(c.seed);
        l.screens.push(MLogicScreen { name: java_name(&n), vars: Some(vec![(1, "stray".into())]), containers: vec![(ON_CREATE.into(), vec![])], ..Default::default() });
        raw.logic = l.encode(&c.st, &[], true);
    }
    if c.extra & 4 != 0 {
        if let Some(f) = &mut raw.resource_files {
            for (t, l) in [(RT::Image, &c.p.images), (RT::Sound, &c.p.sounds), (RT::Font, &c.p.fonts)] {
                let mut n = Names::new();
                for r in l { n.add(&r.full); }
                f.push(MWrap::U32(7).to_swrs(&n.uniq("a.png".into()), t));
            }
            let k = (mix(c.seed) as usize) % f.len();
            f.rotate_left(k);
        }
    }
}
fn c16(c: &Files, ctx: &mut Ctx) -> R<()> {
    c.p.labels(ctx);
    let mut raw = c.p.to_raw(c.seed, &c.st);
    if c.extra != 0 { ctx.label("unreferenced layouts, logic or files"); distract(c, &mut raw); }
    let p = guard("opening the project", || open(raw))??;
    c.p.same_api(&p)
}
pub fn c16_prop() -> Prop {
    Prop { id: "C16", rule: "some screen has views, events, more-blocks or variables", assumptions: PROJ_ASSUME, subs: vec![Sub::new("open", 60_000, 1_000_000, gen_files, c16)] }
}

// ------------------------------------------------------------------------------ C17

fn gen_c17(g: &mut Gen) -> Files {
    let mut f = gen_files(g);
    f.extra = 0;
    if g.chance(1, 12) {
        // what the API does not model: settings of a disabled library, the data fields of AdMob
        let l = &mut f.p.lib;
        match g.below(4) {
            0 if l.firebase.yn == "N" => { l.firebase.data = g.text(); l.firebase.r1 = g.text() }
            1 if l.gmap.yn == "N" => l.gmap.data = g.text(),
            2 if l.admob.yn == "N" => { l.admob.ads = vec![(g.text(), g.text())]; l.admob.devs = vec![g.text()] }
            3 if l.admob.yn == "Y" => { l.admob.data = g.text(); l.admob.r1 = g.text(); l.admob.r2 = g.text(); l.admob.r3 = g.text() }
            _ => {}
        }
    }
    f
}
fn c17(c: &Files, ctx: &mut Ctx) -> R<()> {
    c.p.labels(ctx);
    let p = guard("opening the project", || open(c.p.to_raw(c.seed, &c.st)))??;
    let first = p.clone();
    let raw = guard("saving the project", || save(p))??;
    c.p.check_saved(&raw, Some(ctx))?;
    let again = guard("reopening the project", || open(raw.clone()))?.map_err(|e| format!("reopening: {e}"))?;
    c.p.same_api(&again).map_err(|e| format!("reopened: {e}"))?;
    if !c.p.auto && again != first {
        bail!("the reopened project compares unequal to the first one");
    }
    // and a second save writes the same content
    let raw2 = guard("saving the reopened project", || save(again))??;
    c.p.check_saved(&raw2, Some(ctx)).map_err(|e| format!("second save: {e}"))
}
pub fn c17_prop() -> Prop {
    Prop { id: "C17", rule: "some screen has views, events, more-blocks or variables", assumptions: PROJ_ASSUME, subs: vec![Sub::new("roundtrip", 25_000, 600_000, gen_c17, c17)] }
}

// ------------------------------------------------------------------------------ C19

#[derive(Clone, Debug, Serialize, Deserialize)]
enum WF { Id(MWrap, String, u8), Path(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp { Put { id: String, file: WF, kind: u8 }, Remove(String), Get(String) }
const KIND: [RT; 3] = [RT::Image, RT::Sound, RT::Font];
const ALLKIND: [RT; 4] = [RT::Image, RT::Sound, RT::Font, RT::CustomIcon];
/// the last two do not exist
const PATHS: [&str; 6] = ["images/600/a.png", "sounds/600/b c.mp3", "x", "images/600", "images/600/missing.png", "nowhere/y"];
fn gen_rops(g: &mut Gen) -> Vec<ROp> {
    let many = g.chance(1, 6);
    let n = 4 * g.size.max(if many { 20 } else { 3 });
    let pool: Vec<String> = { let mut n = Names::new(); (0..if many { 8 + g.u(30) } else { 1 + g.u(7) }).map(|_| n.uniq(if g.chance(3, 4) { g.ident() } else { g.text() })).collect() };
    g.with_size(n, |g| g.vec1(if many { 160 } else { 80 }, |g| {
        let id = g.pick(&pool).clone();
        match g.weighted(if many { &[12, 2, 1] } else { &[5, 3, 2] }) {
            0 => ROp::Put { id, file: if g.chance(1, 5) { WF::Path(g.below(6) as u8) } else { WF::Id(MWrap::gen(g), full_name(g), g.below(4) as u8) }, kind: if many { *g.pick(&[0, 0, 1, 1, 1, 2]) } else { g.below(3) as u8 } },
            1 => ROp::Remove(id), _ => ROp::Get(id),
        }
    }))
}
fn c19(ops: &Vec<ROp>, ctx: &mut Ctx) -> R<()> {
    let need = ops.iter().any(|o| matches!(o, ROp::Put { file: WF::Path(_), .. }));
    let dir = if need { Some(Scratch::new()) } else { None };
    if let Some(d) = &dir { for p in &PATHS[..3] { let f = d.0.join(p); std::fs::create_dir_all(f.parent().unwrap()).unwrap(); std::fs::write(f, b"x").unwrap(); } }
    let mut r = Resources::new_empty();
    let mut model: Vec<(String, RW, RT)> = vec![];
    let mut rejected = false;
    let mut removed = false;
    for (n, op) in ops.iter().enumerate() {
        let at = format!("operation {n} {}", clip(&format!("{op:?}")));
        match op {
            ROp::Put { id, file, kind } => {
                let k = KIND[*kind as usize];
                let (w, stored, missing) = match file {
                    WF::Id(m, full, t) => (m.to_swrs(full, ALLKIND[*t as usize]), m.to_swrs(full, k), false),
                    WF::Path(i) => { let p = RW::Path(dir.as_ref().unwrap().0.join(PATHS[*i as usize])); (p.clone(), p, *i >= 4) }
                };
                let res = guard(&at, || r.put_resource(ResourceId(id.clone()), w, k))?;
                let taken = model.iter().any(|m| &m.0 == id);
                match (res, taken || missing) {
                    (Ok(()), false) => model.push((id.clone(), stored, k)),
                    (Err(e), true) => {
                        rejected = true;
                        match &e { api::ResourceAdditionError::IdTaken { .. } if taken => ctx.label("id taken"), api::ResourceAdditionError::FileDoesntExist { .. } if missing => ctx.label("missing file"), _ => bail!("{at}: refused for the wrong reason: {e:?}") }
                    }
                    (Ok(()), true) => bail!("{at}: accepted although {}", if taken { "the id is taken" } else { "the file does not exist" }),
                    (Err(e), false) => bail!("{at}: refused: {e:?}"),
                }
            }
            ROp::Remove(id) => {
                let got = guard(&at, || r.remove_resource(&ResourceId(id.clone())))?;
                let want = model.iter().position(|m| &m.0 == id).map(|i| { let m = model.remove(i); (m.1, m.2) });
                removed |= want.is_some();
                eq(&at, &got, &want)?;
            }
            ROp::Get(_) => {}
        }
        // the whole table after every operation
        for (what, k, l) in [("images", RT::Image, r.get_images()), ("sounds", RT::Sound, r.get_sounds()), ("fonts", RT::Font, r.get_fonts())] {
            let got: Vec<(&str, &RW)> = l.iter().map(|(a, b)| (a.0.as_str(), b)).collect();
            let want: Vec<(&str, &RW)> = model.iter().filter(|m| m.2 == k).map(|m| (m.0.as_str(), &m.1)).collect();
            eq(&format!("{what} after {at}"), &got, &want)?;
        }
        let probe: Vec<&str> = match op { ROp::Get(i) | ROp::Remove(i) => vec![i], ROp::Put { id, .. } => vec![id, "never added"] };
        for id in probe {
            let got = guard("get_resource", || r.get_resource(&ResourceId(id.to_string())).map(|(w, k)| (w.clone(), k)))?;
            eq(&format!("lookup of {id:?} after {at}"), &got, &model.iter().find(|m| m.0 == id).map(|m| (m.1.clone(), m.2)))?;
        }
    }
    ctx.nontrivial(removed || rejected);
    ctx.label_if(removed, "removal");
    ctx.label_if(model.len() > 8, "more than 8 resources");
    Ok(())
}
pub fn c19_prop() -> Prop {
    Prop { id: "C19", rule: "a history in which a stored resource was removed or an addition was refused", assumptions: &["custom icons are never put into the table (documented)"], subs: vec![Sub::new("history", 150_000, 2_000_000, gen_rops, c19)] }
}

// ------------------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
enum CF { Id(MWrap, String, u8), Path { folder: u8, mid: String, name: String, exists: bool, #[serde(default)] dir: bool, #[serde(default)] link: bool } }
const FOLDERS: [&str; 14] = ["images", "sounds", "fonts", "icons", "Images", "image", "xsounds", "fonts.d", "resources", "icon", "Sounds", "font", "FONTS", "sound"];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wraps { files: Vec<CF>, deep: u8 }
fn file_part(g: &mut Gen) -> String { match g.below(4) { 0 => g.pick(&["a.png", "b c.mp3", "x", "é.ttf", "images", ".hidden", "a.b.c", "中.png"]).to_string(), _ => format!("{:.200}.{}", g.ident(), g.pick(&["png", "mp3", "ttf"])) } }
fn gen_wraps(g: &mut Gen) -> Wraps {
    let bad = g.chance(1, 3);
    let mut names = Names::new();
    let mut icon = false;
    let mut files = vec![];
    for _ in 0..g.below(2 + g.size.min(8)) {
        let k = if icon { g.below(3) } else { g.below(4) } as u8;
        let name = match g.below(3) { 0 => g.text(), 1 => full_name(g), _ => file_part(g) };
        if g.chance(1, 3) {
            let folder = if bad && g.chance(1, 4) { 4 + g.below(10) as u8 } else { k };
            let exists = !(bad && g.chance(1, 5));
            let n = names.uniq_by(file_part(g), |s| format!("{folder}:{s}"));
            icon |= folder == 3;
            files.push(CF::Path { folder, mid: g.pick(&["600", "601", "images", "sounds", "fonts", "x y"]).to_string(), name: n, exists, dir: g.chance(1, 12), link: g.chance(1, 8) })
        } else {
            let n = names.uniq_by(name, |s| format!("{k}:{s}"));
            icon |= k == 3;
            files.push(CF::Id(MWrap::gen(g), n, k))
        }
    }
    Wraps { files, deep: g.below(3) as u8 }
}
fn sorted(v: &[RW]) -> Vec<String> { let mut k: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect(); k.sort(); k }
fn make(base: &Path, folder: &str, mid: &str, name: &str, exists: bool, dir: bool) -> PathBuf {
    let d = base.join(folder).join(mid);
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join(name);
    if exists && dir { std::fs::create_dir_all(&f).unwrap() } else if exists { std::fs::write(&f, b"x").unwrap() } else { let _ = std::fs::remove_file(&f); }
    f
}
fn c20_classify(c: &Wraps, ctx: &mut Ctx) -> R<()> {
    let dir = if c.files.iter().any(|f| matches!(f, CF::Path { .. })) { Some(Scratch::new()) } else { None };
    let mut ws: Vec<RW> = vec![];
    let mut want: [Vec<(String, RW)>; 4] = Default::default();
    let mut bad: Option<String> = None;
    for f in &c.files {
        match f {
            CF::Id(w, full, k) => { let w = w.to_swrs(full, ALLKIND[*k as usize]); want[*k as usize].push((full.clone(), w.clone())); ws.push(w) }
            CF::Path { folder, mid, name, exists, dir: is_dir, link } => {
                let mut base = dir.as_ref().unwrap().0.clone();
                for i in 0..c.deep { base = base.join(["images", "deep"][i as usize % 2]) }
                let p = make(&base, FOLDERS[*folder as usize], mid, name, *exists, *is_dir);
                if *link && *exists {
                    // the path counts, not what it links to
                    let store = dir.as_ref().unwrap().0.join("images/store");
                    std::fs::create_dir_all(&store).unwrap();
                    let to = store.join(format!("blob{}", ws.len()));
                    std::fs::rename(&p, &to).unwrap();
                    std::os::unix::fs::symlink(&to, &p).unwrap();
                    ctx.label("symbolic link");
                }
                let w = RW::Path(p.clone());
                if *folder > 3 || !exists { bad = Some(format!("{p:?}")) } else { want[*folder as usize].push((name.clone(), w.clone())) }
                ws.push(w);
                ctx.label("real path");
            }
        }
    }
    ctx.nontrivial(ws.len() >= 2);
    ctx.label_if(bad.is_some(), "misplaced or missing path");
    let r = guard("sorting the resource files", || ResourceFiles::try_from(ws.clone()))?;
    match (r, bad) {
        (Err(_), Some(_)) => Ok(()),
        (Ok(_), Some(b)) => bail!("the path {b}, which is missing or in no resource folder, was accepted"),
        (Err(e), None) => bail!("valid resource files were refused: {e:?}"),
        (Ok(f), None) => {
            for (what, got, want) in [("images", &f.images, &want[0]), ("sounds", &f.sounds, &want[1]), ("fonts", &f.fonts, &want[2])] {
                let mut g: Vec<String> = got.iter().map(|x| format!("{x:?}")).collect();
                let mut w: Vec<String> = want.iter().map(|x| format!("{:?}", (&x.0, &x.1))).collect();
                g.sort();
                w.sort();
                eq(what, &g, &w)?;
            }
            eq("custom icon", &f.custom_icon, &want[3].first().map(|x| x.1.clone()))?;
            let back: Vec<RW> = guard("listing the resource files", || f.into())?;
            eq("files listed back", &sorted(&back), &sorted(&ws))
        }
    }
}

/// opening a project whose only content is its resources; entries may lack their file
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResOpen { p: MProj, drop: Option<usize>, paths: Vec<u8>, icon_entry: bool, swap_kind: bool }
fn gen_res_open(g: &mut Gen) -> ResOpen {
    let mut p = MProj::gen_sized(g, ProjSize::Small);
    p.screens.clear();
    p.customs.clear();
    // the same file names in several kinds
    if g.bool() { let n = p.images.len().min(p.sounds.len()).min(p.fonts.len()); for i in 0..n { if !p.sounds.iter().chain(&p.fonts).any(|r| r.full == p.images[i].full) { let f = p.images[i].full.clone(); p.sounds[i].full = f.clone(); p.fonts[i].full = f; } } }
    let drop = if !p.auto && g.chance(1, 3) { Some(g.u(20)) } else { None };
    let paths = if g.chance(1, 4) { g.vec(6, |g| g.below(6) as u8) } else { vec![] };
    ResOpen { p, drop, paths, icon_entry: g.bool(), swap_kind: g.bool() }
}
fn c20_open(c: &ResOpen, ctx: &mut Ctx) -> R<()> {
    let mut raw = c.p.to_raw(0, &Style::default());
    let n = c.p.images.len() + c.p.sounds.len() + c.p.fonts.len();
    ctx.nontrivial(n > 0);
    ctx.label_if(c.p.auto, "without resource files");
    let full = |w: &RW| match w { RW::StringId { res_full_name, .. } | RW::U32Id { res_full_name, .. } => res_full_name.clone(), RW::Path(p) => p.file_name().unwrap().to_string_lossy().into_owned() };
    // some files are real ones
    let dir = if !c.p.auto && !c.paths.is_empty() { Some(Scratch::new()) } else { None };
    let mut real: Vec<(RT, String, RW)> = vec![];
    if let (Some(d), Some(fs)) = (&dir, &mut raw.resource_files) {
        for i in &c.paths {
            if fs.is_empty() { break }
            let i = *i as usize % fs.len();
            let (k, name) = match &fs[i] { RW::StringId { res_full_name, res_type, .. } | RW::U32Id { res_full_name, res_type, .. } => (*res_type, res_full_name.clone()), RW::Path(_) => continue };
            if !line_safe(&name) || name.contains('/') || name == "." || name == ".." || name.len() > 80 { continue }
            let folder = match k { RT::Image => "images", RT::Sound => "sounds", RT::Font => "fonts", RT::CustomIcon => "icons" };
            let w = RW::Path(make(&d.0, folder, "600", &name, true, false));
            real.push((k, name, w.clone()));
            fs[i] = w;
            ctx.label("real path");
        }
    }
    let mut missing = None;
    if let (Some(i), Some(fs)) = (c.drop, &mut raw.resource_files) {
        let off = c.p.icon.is_some() as usize;
        if n > 0 {
            let k = i % n;
            let gone = fs.remove(off + k);
            let e = c.p.images.iter().chain(&c.p.sounds).chain(&c.p.fonts).nth(k).unwrap();
            // a file of that name in another kind is no replacement
            if c.swap_kind {
                let t = match k { k if k < c.p.images.len() => RT::Sound, k if k < c.p.images.len() + c.p.sounds.len() => RT::Font, _ => RT::Image };
                let others = match t { RT::Image => &c.p.images, RT::Sound => &c.p.sounds, _ => &c.p.fonts };
                if !others.iter().any(|o| o.full == e.full) { fs.push(MWrap::U32(1).to_swrs(&e.full, t)); ctx.label("file of another kind"); }
            }
            missing = Some((e.name.clone(), full(&gone)));
            ctx.label("missing file");
        }
    }
    let parsed = guard("parsing", || swrs::parser::SketchwareProject::parse_from(raw))?.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    let r = guard("opening", || api::SketchwareProject::try_from(parsed))?;
    match (r, missing) {
        (Ok(_), Some((n, f))) => bail!("resource entry {n:?} has no file {f:?}, but the project opens"),
        (Err(e), Some((n, _))) => match &e {
            api::APISketchwareProjectConversionError::MissingResourceFile { res_name, .. } if *res_name == n => Ok(()),
            _ => if format!("{e:?} {e}").contains(&n) { Ok(()) } else { bail!("the error does not name the entry {n:?}: {}", errs(&e)) },
        },
        (Err(e), None) => bail!("opening failed: {}", errs(&e)),
        (Ok(p), None) => {
            if real.is_empty() { return c.p.same_api(&p) }
            for (k, l, entries) in [(RT::Image, p.resources.get_images(), &c.p.images), (RT::Sound, p.resources.get_sounds(), &c.p.sounds), (RT::Font, p.resources.get_fonts(), &c.p.fonts)] {
                eq(&format!("{k:?} ids"), &l.keys().map(|x| x.0.clone()).collect::<Vec<_>>(), &entries.iter().map(|e| e.name.clone()).collect::<Vec<_>>())?;
                for e in entries {
                    let want = real.iter().find(|x| x.0 == k && x.1 == e.full).map(|x| x.2.clone()).unwrap_or_else(|| e.w.to_swrs(&e.full, k));
                    eq(&format!("file of {k:?} {:?}", e.name), &l.get(&ResourceId(e.name.clone())), &Some(&want))?;
                }
            }
            // saving lists the same files again
            let saved = guard("saving", || save(p))??;
            let mut want: Vec<RW> = vec![];
            for (k, l) in [(RT::Image, &c.p.images), (RT::Sound, &c.p.sounds), (RT::Font, &c.p.fonts)] { for e in l { want.push(real.iter().find(|x| x.0 == k && x.1 == e.full).map(|x| x.2.clone()).unwrap_or_else(|| e.w.to_swrs(&e.full, k))) } }
            if let Some((f, w)) = &c.p.icon { want.push(real.iter().find(|x| x.0 == RT::CustomIcon).map(|x| x.2.clone()).unwrap_or_else(|| w.to_swrs(f, RT::CustomIcon))) }
            eq("saved resource files", &saved.resource_files.map(|v| sorted(&v)), &Some(sorted(&want)))?;
            c.p.res().same(&MRes::decode(&saved.resource)?)
        }
    }
}
pub fn c20_prop() -> Prop {
    Prop {
        id: "C20", rule: "classify: at least two files; open: at least one resource entry",
        assumptions: &["full names are unique within a kind and there is at most one custom icon", "real paths lie in a scratch directory the check creates and removes"],
        subs: vec![Sub::new("classify", 100_000, 1_500_000, gen_wraps, c20_classify), Sub::new("open", 100_000, 1_500_000, gen_res_open, c20_open)],
    }
}
#[allow(unused)]
fn _t(_: MTree) {}
