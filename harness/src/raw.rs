//! Models of the six data files, with generators, a reference encoder, a reference decoder and
//! conversions from and to the library's parser types. Numeric codes are spelled out here on
//! purpose: they are the format, not whatever the library's enums happen to be declared as.
use crate::gen::{Gen, Names};
use crate::json::{Emit, Style, J};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use swrs::color::Color;
use swrs::parser::file as pf;
use swrs::parser::library as pl;
use swrs::parser::logic as pg;
use swrs::parser::project as pp;
use swrs::parser::resource as pr;
use swrs::parser::view as pv;

pub type R<T> = Result<T, String>;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
pub(crate) use bail;

pub fn color_of(c: &Color) -> u32 {
    (c.alpha() as u32) << 24 | (c.red() as u32) << 16 | (c.green() as u32) << 8 | c.blue() as u32
}
pub fn mkcolor(c: u32) -> Color {
    Color::from_argb((c >> 24) as u8, (c >> 16) as u8, (c >> 8) as u8, c as u8)
}

// ---------------------------------------------------------------- JSON access for the decoder

pub struct Obj<'a> { m: &'a serde_json::Map<String, Value>, seen: std::cell::RefCell<Vec<String>>, what: String }
impl<'a> Obj<'a> {
    pub fn new(v: &'a Value, what: &str) -> R<Obj<'a>> {
        match v { Value::Object(m) => Ok(Obj { m, seen: Default::default(), what: what.to_string() }), _ => bail!("{what}: not a JSON object: {v}") }
    }
    fn get(&self, k: &str) -> R<&'a Value> {
        self.seen.borrow_mut().push(k.to_string());
        self.m.get(k).ok_or_else(|| format!("{}: key `{k}` is missing", self.what))
    }
    pub fn s(&self, k: &str) -> R<String> {
        match self.get(k)? { Value::String(s) => Ok(s.clone()), v => bail!("{}: `{k}` is not a string: {v}", self.what) }
    }
    pub fn os(&self, k: &str) -> R<Option<String>> {
        self.seen.borrow_mut().push(k.to_string());
        match self.m.get(k) { None => Ok(None), Some(Value::String(s)) => Ok(Some(s.clone())), Some(v) => bail!("{}: `{k}` is not a string: {v}", self.what) }
    }
    pub fn i(&self, k: &str) -> R<i64> {
        self.get(k)?.as_i64().ok_or_else(|| format!("{}: `{k}` is not an integer: {}", self.what, self.m[k]))
    }
    pub fn b(&self, k: &str) -> R<bool> {
        self.get(k)?.as_bool().ok_or_else(|| format!("{}: `{k}` is not a boolean", self.what))
    }
    pub fn f32(&self, k: &str) -> R<f32> {
        match self.get(k)? { Value::Number(n) => n.to_string().parse::<f32>().map_err(|e| format!("{k}: {e}")), v => bail!("{}: `{k}` is not a number: {v}", self.what) }
    }
    pub fn color(&self, k: &str) -> R<u32> {
        let v = self.i(k)?;
        if v < i32::MIN as i64 || v > i32::MAX as i64 { bail!("{}: colour `{k}` is not a signed 32-bit integer: {v}", self.what) }
        Ok(v as i32 as u32)
    }
    pub fn int<T: TryFrom<i64>>(&self, k: &str) -> R<T> {
        let v = self.i(k)?;
        T::try_from(v).map_err(|_| format!("{}: `{k}` out of range: {v}", self.what))
    }
    pub fn one_zero(&self, k: &str) -> R<bool> {
        match self.i(k)? { 0 => Ok(false), 1 => Ok(true), v => bail!("{}: `{k}` is neither 0 nor 1: {v}", self.what) }
    }
    pub fn val(&self, k: &str) -> R<&'a Value> { self.get(k) }
    pub fn arr(&self, k: &str) -> R<&'a Vec<Value>> {
        self.get(k)?.as_array().ok_or_else(|| format!("{}: `{k}` is not an array", self.what))
    }
    /// no key besides those read
    pub fn done(&self) -> R<()> {
        let seen = self.seen.borrow();
        for k in self.m.keys() { if !seen.contains(k) { bail!("{}: unexpected key `{k}`", self.what) } }
        Ok(())
    }
}

fn jparse(line: &str, what: &str) -> R<Value> {
    serde_json::from_str(line).map_err(|e| format!("{what}: written entry is not JSON ({e}): {line:?}"))
}

// ---------------------------------------------------------------- project

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MProject {
    pub id: u16,
    pub app: String,
    pub ws: String,
    pub pkg: String,
    pub ver_code: u16,
    pub ver_name: String,
    /// y, m, d, h, mi, s
    pub date: (i64, i64, i64, i64, i64, i64),
    pub icon: bool,
    pub colors: [u32; 5],
    pub sw_ver: u8,
}

const COLOR_KEYS: [&str; 5] = ["color_primary", "color_primary_dark", "color_accent", "color_control_normal", "color_control_highlight"];

fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn month_days(y: i64, m: i64) -> i64 {
    match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, _ => if leap(y) { 29 } else { 28 } }
}
/// seconds since 1970-01-01T00:00:00 UTC, proleptic Gregorian
pub fn unix_time(d: (i64, i64, i64, i64, i64, i64)) -> i64 {
    let (y, m, dd, h, mi, s) = d;
    // days before year y (since year 0)
    let days_before_year = |y: i64| -> i64 { 365 * y + (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400) };
    let mut days = days_before_year(y) - days_before_year(1970);
    for k in 1..m { days += month_days(y, k); }
    days += dd - 1;
    days * 86400 + h * 3600 + mi * 60 + s
}

pub fn gen_date(g: &mut Gen) -> (i64, i64, i64, i64, i64, i64) {
    let y = match g.below(6) { 0 | 1 => g.range(2015, 2030), 2 => g.range(0, 9999), 3 => *g.pick(&[0, 1, 99, 100, 999, 1000, 1600, 1900, 1969, 1970, 2000, 2038, 2100, 9999]), 4 => g.range(1970, 2100), _ => g.range(0, 999) };
    let m = if g.chance(1, 4) { *g.pick(&[1, 2, 9, 10, 12]) } else { g.range(1, 12) };
    let md = month_days(y, m);
    let d = match g.below(4) { 0 => 1, 1 => md, 2 => g.range(1, 9), _ => g.range(1, md) };
    let f = |g: &mut Gen, n: i64| match g.below(4) { 0 => 0, 1 => n - 1, 2 => g.range(0, 9), _ => g.range(0, n - 1) };
    (y, m, d, f(g, 24), f(g, 60), f(g, 60))
}

impl MProject {
    pub fn gen(g: &mut Gen) -> MProject {
        MProject {
            id: g.u16(), app: g.text(), ws: g.text(), pkg: g.text(), ver_code: g.u16(), ver_name: g.text(),
            date: gen_date(g), icon: g.bool(), colors: [0; 5].map(|_| g.color()), sw_ver: g.u8(),
        }
    }
    pub fn date_text(&self) -> String {
        let d = self.date;
        format!("{:04}{:02}{:02}{:02}{:02}{:02}", d.0, d.1, d.2, d.3, d.4, d.5)
    }
    pub fn timestamp(&self) -> u64 { unix_time(self.date) as u64 }
    pub fn json(&self, e: &mut Emit) -> J {
        let mut v = vec![
            ("sc_id", J::s(&self.id.to_string())), ("my_app_name", J::s(&self.app)), ("my_ws_name", J::s(&self.ws)),
            ("my_sc_pkg_name", J::s(&self.pkg)), ("sc_ver_code", J::s(&self.ver_code.to_string())), ("sc_ver_name", J::s(&self.ver_name)),
            ("my_sc_reg_dt", J::s(&self.date_text())), ("custom_icon", J::B(self.icon)), ("sketchware_ver", J::n(self.sw_ver)),
        ];
        for (k, c) in COLOR_KEYS.iter().zip(self.colors) { v.push((k, e.color(c))); }
        J::O(v)
    }
    pub fn encode(&self, st: &Style) -> String {
        let mut e = Emit::new(st, 1, true);
        let j = self.json(&mut e);
        e.emit(&j)
    }
    pub fn decode(t: &str) -> R<MProject> {
        let v = jparse(t, "project")?;
        let o = Obj::new(&v, "project")?;
        let num = |k: &str| -> R<u16> { let s = o.s(k)?; if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) { bail!("project: `{k}` is not a plain number: {s:?}") } s.parse().map_err(|e| format!("{k}: {e}")) };
        let dt = o.s("my_sc_reg_dt")?;
        if dt.len() != 14 || !dt.bytes().all(|b| b.is_ascii_digit()) { bail!("project: date is not 14 digits: {dt:?}") }
        let p = |a: usize, b: usize| dt[a..b].parse::<i64>().unwrap();
        let r = MProject {
            id: num("sc_id")?, app: o.s("my_app_name")?, ws: o.s("my_ws_name")?, pkg: o.s("my_sc_pkg_name")?, ver_code: num("sc_ver_code")?,
            ver_name: o.s("sc_ver_name")?, date: (p(0, 4), p(4, 6), p(6, 8), p(8, 10), p(10, 12), p(12, 14)), icon: o.b("custom_icon")?,
            colors: { let mut c = [0; 5]; for (i, k) in COLOR_KEYS.iter().enumerate() { c[i] = o.color(k)?; } c }, sw_ver: o.int("sketchware_ver")?,
        };
        o.done()?;
        Ok(r)
    }
    /// compares with a parsed value
    pub fn matches(&self, p: &pp::Project) -> R<()> {
        let c = &p.color_palette;
        let got = [c.color_primary, c.color_primary_dark, c.color_accent, c.color_control_normal, c.color_control_highlight].map(|x| color_of(&x));
        eq("id", &p.id, &self.id)?; eq("app_name", &p.app_name, &self.app)?; eq("workspace_name", &p.workspace_name, &self.ws)?;
        eq("package_name", &p.package_name, &self.pkg)?; eq("version_code", &p.version_code, &self.ver_code)?; eq("version_name", &p.version_name, &self.ver_name)?;
        eq("date_created", &p.date_created, &self.timestamp())?; eq("custom_icon", &p.custom_icon, &self.icon)?; eq("colours", &got, &self.colors)?;
        eq("sketchware_version", &p.sketchware_version, &self.sw_ver)
    }
    pub fn to_swrs(&self) -> pp::Project {
        let c = self.colors.map(mkcolor);
        pp::Project {
            id: self.id, app_name: self.app.clone(), workspace_name: self.ws.clone(), package_name: self.pkg.clone(), version_code: self.ver_code,
            version_name: self.ver_name.clone(), date_created: self.timestamp(), custom_icon: self.icon,
            color_palette: pp::ProjectColorPalette { color_primary: c[0], color_primary_dark: c[1], color_accent: c[2], color_control_normal: c[3], color_control_highlight: c[4] },
            sketchware_version: self.sw_ver,
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> R<()> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {}, expected {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")))) }
}
pub fn clip(s: &str) -> String {
    if s.chars().count() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s.to_string() }
}

/// element-wise list comparison with a readable message
pub fn eq_list<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> R<()> {
    for (i, (a, b)) in got.iter().zip(want).enumerate() { eq(&format!("{what}[{i}]"), a, b)?; }
    if got.len() != want.len() { bail!("{what}: got {} entries, expected {}", got.len(), want.len()) }
    Ok(())
}

// ---------------------------------------------------------------- file

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MFileItem { pub name: String, pub ftype: i64, pub kb: i64, pub opts: i64, pub orient: i64, pub theme: i64 }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MFile { pub activities: Vec<MFileItem>, pub customs: Vec<MFileItem> }

impl MFileItem {
    pub fn gen(g: &mut Gen) -> MFileItem {
        MFileItem { name: if g.bool() { g.ident() } else { g.text() }, ftype: g.range(0, 2), kb: g.range(0, 2), opts: g.range(0, 15), orient: g.range(0, 2), theme: g.range(-1, 2) }
    }
    pub fn json(&self) -> J {
        J::O(vec![("fileName", J::s(&self.name)), ("fileType", J::n(self.ftype)), ("keyboardSetting", J::n(self.kb)), ("options", J::n(self.opts)), ("orientation", J::n(self.orient)), ("theme", J::n(self.theme))])
    }
    pub fn decode(l: &str) -> R<MFileItem> {
        let v = jparse(l, "file item")?;
        let o = Obj::new(&v, "file item")?;
        let r = MFileItem { name: o.s("fileName")?, ftype: o.i("fileType")?, kb: o.i("keyboardSetting")?, opts: o.i("options")?, orient: o.i("orientation")?, theme: o.i("theme")? };
        o.done()?;
        Ok(r)
    }
    pub fn of(i: &pf::FileItem) -> MFileItem {
        MFileItem {
            name: i.filename.clone(),
            ftype: match i.file_type { pf::FileType::Activity => 0, pf::FileType::CustomView => 1, pf::FileType::Drawer => 2 },
            kb: kb_num(i.keyboard_setting),
            opts: i.options.toolbar_enabled as i64 | (i.options.fullscreen_enabled as i64) << 1 | (i.options.drawer_enabled as i64) << 2 | (i.options.fab_enabled as i64) << 3,
            orient: orient_num(i.orientation), theme: theme_num(i.theme),
        }
    }
}
pub fn kb_num(k: pf::KeyboardSetting) -> i64 { match k { pf::KeyboardSetting::Unspecified => 0, pf::KeyboardSetting::Visible => 1, pf::KeyboardSetting::Hidden => 2 } }
pub fn orient_num(k: pf::Orientation) -> i64 { match k { pf::Orientation::Portrait => 0, pf::Orientation::Landscape => 1, pf::Orientation::Both => 2 } }
pub fn theme_num(k: pf::Theme) -> i64 { match k { pf::Theme::None => -1, pf::Theme::Default => 0, pf::Theme::Actionbar => 1, pf::Theme::Fullscreen => 2 } }
pub fn kb_of(k: i64) -> pf::KeyboardSetting { match k { 0 => pf::KeyboardSetting::Unspecified, 1 => pf::KeyboardSetting::Visible, _ => pf::KeyboardSetting::Hidden } }
pub fn orient_of(k: i64) -> pf::Orientation { match k { 0 => pf::Orientation::Portrait, 1 => pf::Orientation::Landscape, _ => pf::Orientation::Both } }
pub fn theme_of(k: i64) -> pf::Theme { match k { -1 => pf::Theme::None, 0 => pf::Theme::Default, 1 => pf::Theme::Actionbar, _ => pf::Theme::Fullscreen } }

/// Splits a line-based file the way Sketchware reads it: `@` lines start a section, blank lines
/// are skipped, everything else belongs to the current section.
pub fn sections(t: &str) -> R<Vec<(String, Vec<String>)>> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    for l in t.split('\n') {
        if l.is_empty() { continue }
        if let Some(h) = l.strip_prefix('@') { out.push((h.to_string(), vec![])); }
        else if let Some(s) = out.last_mut() { s.1.push(l.to_string()) }
        else { bail!("line outside of any section: {l:?}") }
    }
    Ok(out)
}

impl MFile {
    pub fn gen(g: &mut Gen) -> MFile {
        MFile { activities: g.vecx(8, MFileItem::gen), customs: g.vecx(8, MFileItem::gen) }
    }
    pub fn encode(&self, st: &Style) -> String {
        let mut e = Emit::new(st, 2, false);
        let mut t = String::from("@activity\n");
        for i in &self.activities { t += &e.line(&i.json()); t.push('\n'); }
        t += "@customview\n";
        for i in &self.customs { t += &e.line(&i.json()); t.push('\n'); }
        t
    }
    pub fn decode(t: &str) -> R<MFile> {
        let mut f = MFile::default();
        for (h, ls) in sections(t)? {
            let dst = match h.as_str() { "activity" => &mut f.activities, "customview" => &mut f.customs, _ => bail!("file: unexpected header @{h}") };
            for l in ls { dst.push(MFileItem::decode(&l)?) }
        }
        Ok(f)
    }
    pub fn of(f: &pf::File) -> MFile { MFile { activities: f.activities.iter().map(MFileItem::of).collect(), customs: f.custom_views.iter().map(MFileItem::of).collect() } }
    pub fn same(&self, got: &MFile) -> R<()> { eq_list("activities", &got.activities, &self.activities)?; eq_list("custom views", &got.customs, &self.customs) }
}

// ---------------------------------------------------------------- library

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MLibItem { pub ads: Vec<(String, String)>, pub data: String, pub lt: u8, pub r1: String, pub r2: String, pub r3: String, pub devs: Vec<String>, pub yn: String }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MLib { pub firebase: MLibItem, pub compat: MLibItem, pub admob: MLibItem, pub gmap: MLibItem }
pub const LIB_HEADERS: [&str; 4] = ["firebaseDB", "compat", "admob", "googleMap"];

impl MLibItem {
    pub fn gen(g: &mut Gen) -> MLibItem {
        MLibItem { ads: g.with_size(2, |g| g.vecx(4, |g| (g.text(), g.text()))), data: g.text(), lt: g.u8(), r1: g.text(), r2: g.text(), r3: g.text(), devs: g.with_size(2, |g| g.vecx(4, |g| g.text())), yn: if g.chance(4, 5) { g.pick(&["N", "Y"]).to_string() } else { g.text() } }
    }
    pub fn json(&self) -> J {
        J::O(vec![("adUnits", J::A(self.ads.iter().map(|(i, n)| J::O(vec![("id", J::s(i)), ("name", J::s(n))])).collect())), ("data", J::s(&self.data)), ("libType", J::n(self.lt)),
            ("reserved1", J::s(&self.r1)), ("reserved2", J::s(&self.r2)), ("reserved3", J::s(&self.r3)), ("testDevices", J::A(self.devs.iter().map(|d| J::s(d)).collect())), ("useYn", J::s(&self.yn))])
    }
    pub fn decode(l: &str) -> R<MLibItem> {
        let v = jparse(l, "library item")?;
        let o = Obj::new(&v, "library item")?;
        let mut ads = vec![];
        for a in o.arr("adUnits")? { let ao = Obj::new(a, "ad unit")?; ads.push((ao.s("id")?, ao.s("name")?)); ao.done()?; }
        let mut devs = vec![];
        for d in o.arr("testDevices")? { devs.push(d.as_str().ok_or("test device is not a string")?.to_string()) }
        let r = MLibItem { ads, data: o.s("data")?, lt: o.int("libType")?, r1: o.s("reserved1")?, r2: o.s("reserved2")?, r3: o.s("reserved3")?, devs, yn: o.s("useYn")? };
        o.done()?;
        Ok(r)
    }
    pub fn of(i: &pl::LibraryItem) -> MLibItem {
        MLibItem { ads: i.ad_units.iter().map(|a| (a.id.clone(), a.name.clone())).collect(), data: i.data.clone(), lt: i.lib_type, r1: i.reserved1.clone(), r2: i.reserved2.clone(), r3: i.reserved3.clone(), devs: i.test_devices.clone(), yn: i.use_yn.clone() }
    }
}
impl MLib {
    pub fn gen(g: &mut Gen) -> MLib { MLib { firebase: MLibItem::gen(g), compat: MLibItem::gen(g), admob: MLibItem::gen(g), gmap: MLibItem::gen(g) } }
    pub fn items(&self) -> [&MLibItem; 4] { [&self.firebase, &self.compat, &self.admob, &self.gmap] }
    /// sections in the given order (a permutation of 0..4, or fewer to leave some out)
    pub fn encode_order(&self, st: &Style, order: &[usize]) -> String {
        let mut e = Emit::new(st, 3, false);
        let mut t = String::new();
        for i in order { t += &format!("@{}\n{}\n", LIB_HEADERS[*i], e.line(&self.items()[*i].json())); }
        t
    }
    pub fn encode(&self, st: &Style) -> String { self.encode_order(st, &[0, 1, 2, 3]) }
    pub fn decode(t: &str) -> R<MLib> {
        let mut m: BTreeMap<String, MLibItem> = BTreeMap::new();
        for (h, ls) in sections(t)? {
            if !LIB_HEADERS.contains(&h.as_str()) { bail!("library: unexpected header @{h}") }
            if ls.len() != 1 { bail!("library: section @{h} has {} entries", ls.len()) }
            if m.insert(h.clone(), MLibItem::decode(&ls[0])?).is_some() { bail!("library: section @{h} written twice") }
        }
        let mut take = |h: &str| m.remove(h).ok_or_else(|| format!("library: section @{h} is missing"));
        Ok(MLib { firebase: take("firebaseDB")?, compat: take("compat")?, admob: take("admob")?, gmap: take("googleMap")? })
    }
    pub fn of(l: &pl::Library) -> MLib { MLib { firebase: MLibItem::of(&l.firebase_db), compat: MLibItem::of(&l.compat), admob: MLibItem::of(&l.admob), gmap: MLibItem::of(&l.google_map) } }
    pub fn same(&self, got: &MLib) -> R<()> {
        for i in 0..4 { eq(&format!("library {}", LIB_HEADERS[i]), got.items()[i], self.items()[i])?; }
        Ok(())
    }
}

// ---------------------------------------------------------------- resource

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MResItem { pub full: String, pub name: String, pub ty: u8 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MRes { pub images: Vec<MResItem>, pub sounds: Vec<MResItem>, pub fonts: Vec<MResItem> }
impl MResItem {
    pub fn gen(g: &mut Gen) -> MResItem { MResItem { full: g.text(), name: g.text(), ty: g.u8() } }
    pub fn json(&self) -> J { J::O(vec![("resFullName", J::s(&self.full)), ("resName", J::s(&self.name)), ("resType", J::n(self.ty))]) }
    pub fn decode(l: &str) -> R<MResItem> {
        let v = jparse(l, "resource item")?;
        let o = Obj::new(&v, "resource item")?;
        let r = MResItem { full: o.s("resFullName")?, name: o.s("resName")?, ty: o.int("resType")? };
        o.done()?;
        Ok(r)
    }
    pub fn of(i: &pr::ResourceItem) -> MResItem { MResItem { full: i.full_name.clone(), name: i.name.clone(), ty: i.r#type } }
}
impl MRes {
    pub fn gen(g: &mut Gen) -> MRes {
        let f = |g: &mut Gen| if g.chance(1, 3) { vec![] } else { g.vecx(6, MResItem::gen) };
        MRes { images: f(g), sounds: f(g), fonts: f(g) }
    }
    pub fn encode(&self, st: &Style) -> String {
        let mut e = Emit::new(st, 4, false);
        let mut t = String::new();
        for (h, l) in [("images", &self.images), ("sounds", &self.sounds), ("fonts", &self.fonts)] {
            t += &format!("@{h}\n");
            for i in l { t += &e.line(&i.json()); t.push('\n'); }
        }
        t
    }
    pub fn decode(t: &str) -> R<MRes> {
        let mut f = MRes::default();
        for (h, ls) in sections(t)? {
            let dst = match h.as_str() { "images" => &mut f.images, "sounds" => &mut f.sounds, "fonts" => &mut f.fonts, _ => bail!("resource: unexpected header @{h}") };
            for l in ls { dst.push(MResItem::decode(&l)?) }
        }
        Ok(f)
    }
    pub fn of(r: &pr::Resource) -> MRes { let f = |v: &Vec<pr::ResourceItem>| v.iter().map(MResItem::of).collect(); MRes { images: f(&r.images), sounds: f(&r.sounds), fonts: f(&r.fonts) } }
    pub fn same(&self, got: &MRes) -> R<()> { eq_list("images", &got.images, &self.images)?; eq_list("sounds", &got.sounds, &self.sounds)?; eq_list("fonts", &got.fonts, &self.fonts) }
}

// ---------------------------------------------------------------- view

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MView {
    pub ad_size: String, pub ad_unit_id: String, pub alpha: f32, pub checked: bool, pub choice_mode: i64, pub clickable: bool, pub custom_view: String,
    pub divider_height: u32, pub enabled: bool, pub first_day: u8, pub id: String,
    pub img_res: Option<String>, pub img_rotate: i16, pub img_scale: String,
    pub indeterminate: bool, pub index: u32,
    pub l: MLayout,
    pub max: u32, pub parent: Option<String>, pub parent_type: i8, pub pre_id: Option<String>, pub pre_index: i32, pub pre_parent: Option<String>, pub pre_parent_type: i8,
    pub progress: u32, pub progress_style: String, pub scale_x: f32, pub scale_y: f32, pub spinner_mode: i64,
    pub t: MText,
    pub tx: f32, pub ty: f32, pub kind: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MLayout { pub bg: u32, pub gravity: u8, pub height: i32, pub lgravity: u8, pub mb: u32, pub ml: u32, pub mr: u32, pub mt: u32, pub orient: i64, pub pb: u32, pub pl: u32, pub pr: u32, pub pt: u32, pub weight: u32, pub weight_sum: u32, pub width: i32 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MText { pub hint: String, pub hint_color: u32, pub ime: i64, pub input: i64, pub line: u32, pub single: bool, pub text: String, pub color: u32, pub font: String, pub size: u32, pub ttype: i64 }

pub const SCALES: [&str; 7] = ["CENTER", "FIT_XY", "FIT_START", "FIT_CENTER", "FIT_END", "CENTER_CROP", "CENTER_INSIDE"];
pub const INPUTS: [i64; 6] = [1, 3, 129, 8194, 4098, 12290];

impl MView {
    pub fn gen(g: &mut Gen) -> MView {
        let id = if g.chance(3, 4) { g.uident() } else { g.text() };
        let parent = g.opt(3, 4, |g| if g.bool() { "root".into() } else { g.text() });
        let kind = if g.chance(5, 6) { *g.pick(&KINDS) } else { g.u8() };
        MView::gen_with(g, id, kind, parent)
    }
    pub fn gen_with(g: &mut Gen, id: String, kind: u8, parent: Option<String>) -> MView {
        // most views differ from the defaults in a few attributes; some in every one
        let dense = g.chance(1, 3);
        let mut v = MView::default_with(id, kind, parent);
        macro_rules! s { ($($f:ident).+, $e:expr) => { if dense || g.chance(1, 8) { v.$($f).+ = $e; } } }
        s!(ad_size, g.text()); s!(ad_unit_id, g.text()); s!(alpha, g.f32()); s!(checked, true); s!(choice_mode, g.range(0, 2)); s!(clickable, false);
        s!(custom_view, g.text()); s!(divider_height, g.u32()); s!(enabled, false); s!(first_day, g.u8());
        s!(img_res, if g.chance(1, 5) { None } else { Some(g.text()) }); s!(img_rotate, g.i32() as i16); s!(img_scale, g.pick(&SCALES).to_string());
        s!(indeterminate, true); s!(index, g.u32()); s!(max, g.u32()); s!(parent_type, g.i32() as i8);
        s!(pre_id, if g.bool() { Some(g.text()) } else { None }); s!(pre_index, g.i32()); s!(pre_parent, if g.bool() { Some(g.text()) } else { None }); s!(pre_parent_type, g.i32() as i8);
        s!(progress, g.u32()); s!(progress_style, g.text()); s!(scale_x, g.f32()); s!(scale_y, g.f32()); s!(spinner_mode, 0); s!(tx, g.f32()); s!(ty, g.f32());
        let size = |g: &mut Gen| match g.below(4) { 0 => -1, 1 => -2, _ => g.i32() };
        s!(l.bg, g.color()); s!(l.gravity, g.u8()); s!(l.height, size(g)); s!(l.lgravity, g.u8());
        s!(l.mb, g.u32()); s!(l.ml, g.u32()); s!(l.mr, g.u32()); s!(l.mt, g.u32()); s!(l.orient, g.range(-1, 1));
        s!(l.pb, g.u32()); s!(l.pl, g.u32()); s!(l.pr, g.u32()); s!(l.pt, g.u32()); s!(l.weight, g.u32()); s!(l.weight_sum, g.u32()); s!(l.width, size(g));
        s!(t.hint, g.text()); s!(t.hint_color, g.color()); s!(t.ime, g.range(0, 6)); s!(t.input, *g.pick(&INPUTS)); s!(t.line, g.u32()); s!(t.single, true);
        s!(t.text, g.text()); s!(t.color, g.color()); s!(t.font, g.text()); s!(t.size, g.u32()); s!(t.ttype, g.range(0, 3));
        v
    }
    pub fn default_with(id: String, kind: u8, parent: Option<String>) -> MView {
        MView {
            ad_size: String::new(), ad_unit_id: String::new(), alpha: 1.0, checked: false, choice_mode: 0, clickable: true, custom_view: String::new(), divider_height: 1, enabled: true, first_day: 1, id,
            img_res: if kind == 6 || kind == 16 { Some("img".into()) } else { None }, img_rotate: 0, img_scale: "CENTER".into(), indeterminate: false, index: 0,
            l: MLayout { bg: 0x00ff_ffff, gravity: 0, height: -2, lgravity: 0, mb: 0, ml: 0, mr: 0, mt: 0, orient: -1, pb: 8, pl: 8, pr: 8, pt: 8, weight: 0, weight_sum: 0, width: -1 },
            max: 100, parent, parent_type: 0, pre_id: Some(String::new()), pre_index: 0, pre_parent: None, pre_parent_type: 0, progress: 0, progress_style: "?android:progressBarStyle".into(), scale_x: 1.0, scale_y: 1.0, spinner_mode: 1,
            t: MText { hint: String::new(), hint_color: 0xff60_7d8b, ime: 0, input: 1, line: 0, single: false, text: String::new(), color: 0xff00_0000, font: "default_font".into(), size: 12, ttype: 0 },
            tx: 0.0, ty: 0.0, kind,
        }
    }
    pub fn json(&self) -> J {
        let oz = |b: bool| J::n(b as u8);
        let mut img = vec![];
        J::os(&mut img, "resName", &self.img_res);
        img.push(("rotate", J::n(self.img_rotate)));
        img.push(("scaleType", J::s(&self.img_scale)));
        let c = |c: u32| J::n(c as i32);
        let l = &self.l;
        let lay = J::O(vec![("backgroundColor", c(l.bg)), ("gravity", J::n(l.gravity)), ("height", J::n(l.height)), ("layoutGravity", J::n(l.lgravity)), ("marginBottom", J::n(l.mb)), ("marginLeft", J::n(l.ml)), ("marginRight", J::n(l.mr)), ("marginTop", J::n(l.mt)),
            ("orientation", J::n(l.orient)), ("paddingBottom", J::n(l.pb)), ("paddingLeft", J::n(l.pl)), ("paddingRight", J::n(l.pr)), ("paddingTop", J::n(l.pt)), ("weight", J::n(l.weight)), ("weightSum", J::n(l.weight_sum)), ("width", J::n(l.width))]);
        let t = &self.t;
        let tx = J::O(vec![("hint", J::s(&t.hint)), ("hintColor", c(t.hint_color)), ("imeOption", J::n(t.ime)), ("inputType", J::n(t.input)), ("line", J::n(t.line)), ("singleLine", oz(t.single)), ("text", J::s(&t.text)), ("textColor", c(t.color)), ("textFont", J::s(&t.font)), ("textSize", J::n(t.size)), ("textType", J::n(t.ttype))]);
        let mut v = vec![("adSize", J::s(&self.ad_size)), ("adUnitId", J::s(&self.ad_unit_id)), ("alpha", J::f32(self.alpha)), ("checked", oz(self.checked)), ("choiceMode", J::n(self.choice_mode)), ("clickable", oz(self.clickable)), ("customView", J::s(&self.custom_view)),
            ("dividerHeight", J::n(self.divider_height)), ("enabled", oz(self.enabled)), ("firstDayOfWeek", J::n(self.first_day)), ("id", J::s(&self.id)), ("image", J::O(img)), ("indeterminate", J::s(if self.indeterminate { "true" } else { "false" })), ("index", J::n(self.index)), ("layout", lay), ("max", J::n(self.max))];
        J::os(&mut v, "parent", &self.parent);
        v.push(("parentType", J::n(self.parent_type)));
        J::os(&mut v, "preId", &self.pre_id);
        v.push(("preIndex", J::n(self.pre_index)));
        J::os(&mut v, "preParent", &self.pre_parent);
        v.extend([("preParentType", J::n(self.pre_parent_type)), ("progress", J::n(self.progress)), ("progressStyle", J::s(&self.progress_style)), ("scaleX", J::f32(self.scale_x)), ("scaleY", J::f32(self.scale_y)), ("spinnerMode", J::n(self.spinner_mode)), ("text", tx), ("translationX", J::f32(self.tx)), ("translationY", J::f32(self.ty)), ("type", J::n(self.kind))]);
        J::O(v)
    }
    pub fn decode(line: &str) -> R<MView> {
        let v = jparse(line, "view")?;
        let o = Obj::new(&v, "view")?;
        let io = Obj::new(o.val("image")?, "view image")?;
        let lo = Obj::new(o.val("layout")?, "view layout")?;
        let to = Obj::new(o.val("text")?, "view text")?;
        let r = MView {
            ad_size: o.s("adSize")?, ad_unit_id: o.s("adUnitId")?, alpha: o.f32("alpha")?, checked: o.one_zero("checked")?, choice_mode: o.i("choiceMode")?, clickable: o.one_zero("clickable")?, custom_view: o.s("customView")?, divider_height: o.int("dividerHeight")?, enabled: o.one_zero("enabled")?, first_day: o.int("firstDayOfWeek")?, id: o.s("id")?,
            img_res: io.os("resName")?, img_rotate: io.int("rotate")?, img_scale: io.s("scaleType")?,
            indeterminate: match o.s("indeterminate")?.as_str() { "true" => true, "false" => false, x => bail!("indeterminate is {x:?}") }, index: o.int("index")?,
            l: MLayout { bg: lo.color("backgroundColor")?, gravity: lo.int("gravity")?, height: lo.int("height")?, lgravity: lo.int("layoutGravity")?, mb: lo.int("marginBottom")?, ml: lo.int("marginLeft")?, mr: lo.int("marginRight")?, mt: lo.int("marginTop")?, orient: lo.i("orientation")?, pb: lo.int("paddingBottom")?, pl: lo.int("paddingLeft")?, pr: lo.int("paddingRight")?, pt: lo.int("paddingTop")?, weight: lo.int("weight")?, weight_sum: lo.int("weightSum")?, width: lo.int("width")? },
            max: o.int("max")?, parent: o.os("parent")?, parent_type: o.int("parentType")?, pre_id: o.os("preId")?, pre_index: o.int("preIndex")?, pre_parent: o.os("preParent")?, pre_parent_type: o.int("preParentType")?, progress: o.int("progress")?, progress_style: o.s("progressStyle")?, scale_x: o.f32("scaleX")?, scale_y: o.f32("scaleY")?, spinner_mode: o.i("spinnerMode")?,
            t: MText { hint: to.s("hint")?, hint_color: to.color("hintColor")?, ime: to.i("imeOption")?, input: to.i("inputType")?, line: to.int("line")?, single: to.one_zero("singleLine")?, text: to.s("text")?, color: to.color("textColor")?, font: to.s("textFont")?, size: to.int("textSize")?, ttype: to.i("textType")? },
            tx: o.f32("translationX")?, ty: o.f32("translationY")?, kind: o.int("type")?,
        };
        o.done()?; io.done()?; lo.done()?; to.done()?;
        Ok(r)
    }
    pub fn of(v: &pv::models::AndroidView) -> MView {
        use pv::models::*;
        let l = &v.layout;
        let t = &v.text;
        MView {
            ad_size: v.ad_size.clone(), ad_unit_id: v.ad_unit_id.clone(), alpha: v.alpha, checked: v.checked, choice_mode: match v.choice_mode { ChoiceMode::None => 0, ChoiceMode::Single => 1, ChoiceMode::Multi => 2 }, clickable: v.clickable, custom_view: v.custom_view.clone(), divider_height: v.divider_height, enabled: v.enabled, first_day: v.first_day_of_week, id: v.id.clone(),
            img_res: v.image.res_name.clone(), img_rotate: v.image.rotate, img_scale: scale_name(v.image.scale_type).into(), indeterminate: v.indeterminate, index: v.index,
            l: MLayout { bg: color_of(&l.background_color), gravity: l.gravity.0, height: size_num(l.height), lgravity: l.layout_gravity.0, mb: l.margin_bottom, ml: l.margin_left, mr: l.margin_right, mt: l.margin_top, orient: lorient_num(l.orientation), pb: l.padding_bottom, pl: l.padding_left, pr: l.padding_right, pt: l.padding_top, weight: l.weight, weight_sum: l.weight_sum, width: size_num(l.width) },
            max: v.max, parent: v.parent.clone(), parent_type: v.parent_type, pre_id: v.pre_id.clone(), pre_index: v.pre_index, pre_parent: v.pre_parent.clone(), pre_parent_type: v.pre_parent_type, progress: v.progress, progress_style: v.progress_style.clone(), scale_x: v.scale_x, scale_y: v.scale_y, spinner_mode: spinner_num(v.spinner_mode),
            t: MText { hint: t.hint.clone(), hint_color: color_of(&t.hint_color), ime: ime_num(t.ime_option), input: input_num(t.input_type), line: t.line, single: t.single_line, text: t.text.clone(), color: color_of(&t.text_color), font: t.text_font.clone(), size: t.text_size, ttype: ttype_num(t.text_type) },
            tx: v.translation_x, ty: v.translation_y, kind: v.r#type,
        }
    }
    pub fn to_swrs(&self) -> pv::models::AndroidView {
        use pv::models::layout::gravity::Gravity;
        use pv::models::*;
        let l = &self.l;
        let t = &self.t;
        AndroidView {
            ad_size: self.ad_size.clone(), ad_unit_id: self.ad_unit_id.clone(), alpha: self.alpha, checked: self.checked, choice_mode: match self.choice_mode { 0 => ChoiceMode::None, 1 => ChoiceMode::Single, _ => ChoiceMode::Multi }, clickable: self.clickable, custom_view: self.custom_view.clone(), divider_height: self.divider_height, enabled: self.enabled, first_day_of_week: self.first_day, id: self.id.clone(),
            image: ImageConfig { res_name: self.img_res.clone(), rotate: self.img_rotate, scale_type: scale_of(&self.img_scale) }, indeterminate: self.indeterminate, index: self.index,
            layout: LayoutConfig { background_color: mkcolor(l.bg), gravity: Gravity(l.gravity), height: size_of(l.height), layout_gravity: Gravity(l.lgravity), margin_bottom: l.mb, margin_left: l.ml, margin_right: l.mr, margin_top: l.mt, orientation: lorient_of(l.orient), padding_bottom: l.pb, padding_left: l.pl, padding_right: l.pr, padding_top: l.pt, weight: l.weight, weight_sum: l.weight_sum, width: size_of(l.width) },
            max: self.max, parent: self.parent.clone(), parent_type: self.parent_type, pre_id: self.pre_id.clone(), pre_index: self.pre_index, pre_parent: self.pre_parent.clone(), pre_parent_type: self.pre_parent_type, progress: self.progress, progress_style: self.progress_style.clone(), scale_x: self.scale_x, scale_y: self.scale_y, spinner_mode: spinner_of(self.spinner_mode),
            text: TextConfig { hint: t.hint.clone(), hint_color: mkcolor(t.hint_color), ime_option: ime_of(t.ime), input_type: input_of(t.input), line: t.line, single_line: t.single, text: t.text.clone(), text_color: mkcolor(t.color), text_font: t.font.clone(), text_size: t.size, text_type: ttype_of(t.ttype) },
            translation_x: self.tx, translation_y: self.ty, r#type: self.kind,
        }
    }
}

/// the view type codes the API knows
pub const KINDS: [u8; 18] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];

use pv::models::image::ImageScaleType as Sc;
use pv::models::layout::{Orientation as LOr, Size};
use pv::models::text::{ImeOption as Ime, InputType as Inp, TextType as Tt};
use pv::models::SpinnerMode as Spm;
pub fn scale_name(s: Sc) -> &'static str { match s { Sc::Center => SCALES[0], Sc::FitXy => SCALES[1], Sc::FitStart => SCALES[2], Sc::FitCenter => SCALES[3], Sc::FitEnd => SCALES[4], Sc::CenterCrop => SCALES[5], Sc::CenterInside => SCALES[6] } }
pub fn scale_of(s: &str) -> Sc { match s { "CENTER" => Sc::Center, "FIT_XY" => Sc::FitXy, "FIT_START" => Sc::FitStart, "FIT_CENTER" => Sc::FitCenter, "FIT_END" => Sc::FitEnd, "CENTER_CROP" => Sc::CenterCrop, _ => Sc::CenterInside } }
// the library's naming: -2 is MatchParent, -1 is WrapContent
pub fn size_num(s: Size) -> i32 { match s { Size::MatchParent => -2, Size::WrapContent => -1, Size::Fixed(n) => n } }
pub fn size_of(n: i32) -> Size { match n { -2 => Size::MatchParent, -1 => Size::WrapContent, n => Size::Fixed(n) } }
pub fn lorient_num(o: LOr) -> i64 { match o { LOr::Vertical => 1, LOr::Unspecified => 0, LOr::Horizontal => -1 } }
pub fn lorient_of(o: i64) -> LOr { match o { 1 => LOr::Vertical, 0 => LOr::Unspecified, _ => LOr::Horizontal } }
pub fn spinner_num(s: Spm) -> i64 { match s { Spm::Dialog => 0, Spm::Dropdown => 1 } }
pub fn spinner_of(s: i64) -> Spm { match s { 0 => Spm::Dialog, _ => Spm::Dropdown } }
pub fn ime_num(i: Ime) -> i64 { match i { Ime::Normal => 0, Ime::None => 1, Ime::Go => 2, Ime::Search => 3, Ime::Send => 4, Ime::Next => 5, Ime::Done => 6 } }
pub fn ime_of(i: i64) -> Ime { match i { 0 => Ime::Normal, 1 => Ime::None, 2 => Ime::Go, 3 => Ime::Search, 4 => Ime::Send, 5 => Ime::Next, _ => Ime::Done } }
pub fn input_num(i: Inp) -> i64 { match i { Inp::NumberDecimal => 8194, Inp::NumberSigned => 4098, Inp::NumberSignedDecimal => 12290, Inp::Password => 129, Inp::Phone => 3, Inp::Text => 1 } }
pub fn input_of(i: i64) -> Inp { match i { 8194 => Inp::NumberDecimal, 4098 => Inp::NumberSigned, 12290 => Inp::NumberSignedDecimal, 129 => Inp::Password, 3 => Inp::Phone, _ => Inp::Text } }
pub fn ttype_num(t: Tt) -> i64 { match t { Tt::Normal => 0, Tt::Bold => 1, Tt::Italic => 2, Tt::BoldItalic => 3 } }
pub fn ttype_of(t: i64) -> Tt { match t { 0 => Tt::Normal, 1 => Tt::Bold, 2 => Tt::Italic, _ => Tt::BoldItalic } }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MViewFile { pub layouts: Vec<(String, Vec<MView>)>, pub fabs: Vec<(String, MView)> }
impl MViewFile {
    pub fn gen(g: &mut Gen) -> MViewFile {
        let mut n = Names::new();
        let sz = g.size;
        let layouts = g.with_size(sz.min(4), |g| g.vec(6, |g| { let name = n.uniq(g.ident()); (name, g.vecx(5, MView::gen)) }));
        let mut layouts: Vec<(String, Vec<MView>)> = layouts;
        if g.chance(1, 300) { for i in 0..g.range(20, 300) { let name = n.uniq(format!("l{i}")); layouts.push((name, vec![MView::gen(g)])) } }
        let mut fabs = vec![];
        let mut fnames = Names::new();
        for (name, _) in &layouts { if g.chance(1, 2) { fnames.add(name); fabs.push((name.clone(), MView::gen(g))) } }
        while fabs.len() < layouts.len() + 4 && g.chance(1, 4) { let name = fnames.uniq(g.ident()); fabs.push((name, MView::gen(g))) }
        MViewFile { layouts, fabs }
    }
    /// sections each followed by one blank line, as Sketchware writes them; `trail` = keep the
    /// trailing blank line
    pub fn encode(&self, st: &Style, trail: bool) -> String {
        let mut e = Emit::new(st, 5, false);
        let mut t = String::new();
        let (mut i, mut k) = (0, 0);
        while i < self.layouts.len() || k < self.fabs.len() {
            // layouts first, or interleaved with the FABs
            if i < self.layouts.len() && (k == self.fabs.len() || !e.shuffled() || e.r(2) == 0) {
                let (n, vs) = &self.layouts[i];
                t += &format!("@{n}.xml\n");
                for v in vs { t += &e.line(&v.json()); t.push('\n'); }
                i += 1;
            } else {
                let (n, v) = &self.fabs[k];
                t += &format!("@{n}.xml_fab\n{}\n", e.line(&v.json()));
                k += 1;
            }
            t += e.gap();
        }
        if !trail { while t.ends_with('\n') { t.pop(); } }
        t
    }
    pub fn decode(t: &str) -> R<MViewFile> {
        let mut f = MViewFile::default();
        for (h, ls) in sections(t)? {
            if let Some(n) = h.strip_suffix(".xml_fab") {
                if ls.len() != 1 { bail!("fab section @{h} has {} entries", ls.len()) }
                if f.fabs.iter().any(|x| x.0 == n) { bail!("fab @{h} written twice") }
                f.fabs.push((n.to_string(), MView::decode(&ls[0])?));
            } else if let Some(n) = h.strip_suffix(".xml") {
                if f.layouts.iter().any(|x| x.0 == n) { bail!("layout @{h} written twice") }
                f.layouts.push((n.to_string(), ls.iter().map(|l| MView::decode(l)).collect::<R<Vec<_>>>()?));
            } else { bail!("view: unexpected header @{h}") }
        }
        Ok(f)
    }
    pub fn of(v: &pv::View) -> MViewFile {
        MViewFile { layouts: v.layouts.iter().map(|(n, l)| (n.clone(), l.0.iter().map(MView::of).collect())).collect(), fabs: v.fabs.iter().map(|(n, f)| (n.clone(), MView::of(f))).collect() }
    }
    /// same layouts and fabs under the same names (the order of sections carries no meaning)
    pub fn same(&self, got: &MViewFile) -> R<()> {
        let names = |v: &MViewFile| { let mut a: Vec<String> = v.layouts.iter().map(|x| x.0.clone()).collect(); a.sort(); a };
        eq("layout names", &names(got), &names(self))?;
        let fnames = |v: &MViewFile| { let mut a: Vec<String> = v.fabs.iter().map(|x| x.0.clone()).collect(); a.sort(); a };
        eq("fab names", &fnames(got), &fnames(self))?;
        for (n, vs) in &self.layouts { eq_list(&format!("layout {n}"), &got.layouts.iter().find(|x| &x.0 == n).unwrap().1, vs)?; }
        for (n, v) in &self.fabs { eq(&format!("fab {n}"), &got.fabs.iter().find(|x| &x.0 == n).unwrap().1, v)?; }
        Ok(())
    }
}

// ---------------------------------------------------------------- logic

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MComp { pub id: String, pub p1: String, pub p2: String, pub p3: String, pub ty: u8 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MEvent { pub name: String, pub ty: u8, pub target: String, pub target_ty: u8 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MRawBlock { pub color: u32, pub id: String, pub next: i32, pub op: String, pub params: Vec<String>, pub spec: String, pub ss1: i32, pub ss2: i32, pub ty: String, pub tn: String }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MLogicScreen {
    pub name: String,
    pub vars: Option<Vec<(u8, String)>>, pub lists: Option<Vec<(u8, String)>>, pub comps: Option<Vec<MComp>>, pub events: Option<Vec<MEvent>>, pub funcs: Option<Vec<(String, String)>>,
    pub containers: Vec<(String, Vec<MRawBlock>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MLogic { pub screens: Vec<MLogicScreen> }

impl MComp {
    pub fn json(&self) -> J { J::O(vec![("componentId", J::s(&self.id)), ("param1", J::s(&self.p1)), ("param2", J::s(&self.p2)), ("param3", J::s(&self.p3)), ("type", J::n(self.ty))]) }
    pub fn decode(l: &str) -> R<MComp> {
        let v = jparse(l, "component")?; let o = Obj::new(&v, "component")?;
        let r = MComp { id: o.s("componentId")?, p1: o.s("param1")?, p2: o.s("param2")?, p3: o.s("param3")?, ty: o.int("type")? };
        o.done()?; Ok(r)
    }
    pub fn of(c: &pg::component::Component) -> MComp { MComp { id: c.id.clone(), p1: c.param1.clone(), p2: c.param2.clone(), p3: c.param3.clone(), ty: c.r#type } }
}
impl MEvent {
    pub fn json(&self) -> J { J::O(vec![("eventName", J::s(&self.name)), ("eventType", J::n(self.ty)), ("targetId", J::s(&self.target)), ("targetType", J::n(self.target_ty))]) }
    pub fn decode(l: &str) -> R<MEvent> {
        let v = jparse(l, "event")?; let o = Obj::new(&v, "event")?;
        let r = MEvent { name: o.s("eventName")?, ty: o.int("eventType")?, target: o.s("targetId")?, target_ty: o.int("targetType")? };
        o.done()?; Ok(r)
    }
    pub fn of(e: &pg::event::Event) -> MEvent { MEvent { name: e.event_name.clone(), ty: e.event_type, target: e.target_id.clone(), target_ty: e.target_type } }
}
impl MRawBlock {
    pub fn gen(g: &mut Gen) -> MRawBlock {
        MRawBlock { color: g.color(), id: if g.bool() { g.below(100).to_string() } else { g.text() }, next: g.i32(), op: g.text(), params: g.with_size(2, |g| g.vecx(4, |g| g.text())), spec: g.text(), ss1: g.i32(), ss2: g.i32(), ty: if g.bool() { g.pick(&[" ", "b", "s", "d", "c", "e", "f", "v", "p", "l", ""]).to_string() } else { g.text() }, tn: g.text() }
    }
    pub fn json(&self) -> J {
        J::O(vec![("color", J::n(self.color as i32)), ("id", J::s(&self.id)), ("nextBlock", J::n(self.next)), ("opCode", J::s(&self.op)), ("parameters", J::A(self.params.iter().map(|p| J::s(p)).collect())), ("spec", J::s(&self.spec)), ("subStack1", J::n(self.ss1)), ("subStack2", J::n(self.ss2)), ("type", J::s(&self.ty)), ("typeName", J::s(&self.tn))])
    }
    pub fn decode(l: &str) -> R<MRawBlock> {
        let v = jparse(l, "block")?; let o = Obj::new(&v, "block")?;
        let mut params = vec![];
        for p in o.arr("parameters")? { params.push(p.as_str().ok_or("parameter is not a string")?.to_string()) }
        let r = MRawBlock { color: o.color("color")?, id: o.s("id")?, next: o.int("nextBlock")?, op: o.s("opCode")?, params, spec: o.s("spec")?, ss1: o.int("subStack1")?, ss2: o.int("subStack2")?, ty: o.s("type")?, tn: o.s("typeName")? };
        o.done()?; Ok(r)
    }
    pub fn of(b: &pg::Block) -> MRawBlock {
        MRawBlock { color: color_of(&b.color), id: b.id.clone(), next: b.next_block, op: b.op_code.clone(), params: b.parameters.clone(), spec: b.spec.clone(), ss1: b.sub_stack1, ss2: b.sub_stack2, ty: b.r#type.clone(), tn: b.type_name.clone() }
    }
    pub fn to_swrs(&self) -> pg::Block {
        pg::Block { color: mkcolor(self.color), id: self.id.clone(), next_block: self.next, op_code: self.op.clone(), parameters: self.params.clone(), spec: self.spec.clone(), sub_stack1: self.ss1, sub_stack2: self.ss2, r#type: self.ty.clone(), type_name: self.tn.clone() }
    }
}

pub fn var_type(t: pg::variable::VariableType) -> u8 { use pg::variable::VariableType::*; match t { Boolean => 0, Integer => 1, String => 2, HashMap => 3 } }
pub fn var_type_of(t: u8) -> pg::variable::VariableType { use pg::variable::VariableType::*; match t { 0 => Boolean, 1 => Integer, 2 => String, _ => HashMap } }

/// a word without white space or control characters (for line-based entries)
pub fn word(g: &mut Gen) -> String {
    let w: String = match g.below(4) {
        0 => g.ident(),
        1 => g.uident(),
        _ => g.with_size(4, |g| g.vec1(10, |g| g.ch())).into_iter().collect(),
    };
    let w: String = w.chars().filter(|c| !c.is_whitespace() && !c.is_control() && !matches!(*c, '\u{feff}' | '\u{200b}')).collect();
    if w.is_empty() { "w".into() } else { w }
}

impl MLogicScreen {
    pub fn gen(g: &mut Gen, name: String) -> MLogicScreen {
        let mut nv = Names::new();
        let mut nl = Names::new();
        let mut nf = Names::new();
        let mut nc = Names::new();
        let vname = |g: &mut Gen, n: &mut Names| { let s = if g.chance(1, 8) { let mut w = word(g); match g.below(8) { 0..=3 => { w.push(':'); w.push_str(&g.ident()); } 4 => w.push_str(*g.pick(&[" ", "\u{a0}", "\t", "  ", "\r"])), 5 => w.insert(0, ' '), _ => {} } w } else { g.uident() }; n.uniq(s) };
        MLogicScreen {
            vars: g.opt(2, 3, |g| g.vecx(6, |g| (g.below(4) as u8, vname(g, &mut nv)))),
            lists: g.opt(2, 3, |g| g.vecx(6, |g| (g.below(4) as u8, vname(g, &mut nl)))),
            comps: g.opt(2, 3, |g| g.vecx(5, |g| MComp { id: g.text(), p1: g.text(), p2: g.text(), p3: g.text(), ty: g.u8() })),
            events: g.opt(2, 3, |g| g.vecx(5, |g| MEvent { name: g.text(), ty: g.u8(), target: g.text(), target_ty: g.u8() })),
            funcs: g.opt(2, 3, |g| g.vecx(5, |g| {
                let id = nf.uniq(g.uident());
                let spec = if g.chance(1, 2) { format!("{id} %s.{}", g.ident()) } else { let ws: Vec<String> = g.with_size(2, |g| g.vec1(5, word)); let s = ws.join(if g.chance(1, 8) { "  " } else { " " }); match g.below(16) { 0 => format!("{s} "), 1 => format!(" {s}"), 2 => format!("{s}{}", g.pick(&["  ", "\u{a0}", "\t", "\u{3000}"])), 3 => String::new(), _ => s } };
                (id, spec)
            })),
            containers: g.vecx(5, |g| {
                let n = match g.below(6) { 5 => { let w = *g.pick(&["var", "list", "components", "events", "func"]); match g.below(3) { 0 => format!("{}_{w}", g.ident()), 1 => format!("{w}_{}", g.ident()), _ => format!("{w}{}", g.pick(&["s", "2", " ", "_", "."])) } } 0 => "onCreate_initializeLogic".to_string(), 1 => format!("{}_moreBlock", g.ident()), 2 => format!("{}_onClick", g.uident()), _ => format!("{}_{}", g.ident(), g.ident()) };
                let n = if ["var", "list", "components", "events", "func"].contains(&n.as_str()) { format!("{n}_x") } else { n };
                let n = match g.below(24) { 0 => format!("{n}{}", g.pick(&[" ", "  ", "\u{a0}", "\t", "\r"])), 1 => format!(" {n}"), 2 => format!("{} {n}", g.ident()), _ => n };
                (nc.uniq(n), g.vecx(5, MRawBlock::gen))
            }),
            name,
        }
    }
    /// (header, lines) of every section present
    pub fn sections(&self, e: &mut Emit) -> Vec<(String, Vec<String>)> {
        let n = &self.name;
        let mut out = vec![];
        if let Some(v) = &self.vars { out.push((format!("{n}.java_var"), v.iter().map(|(t, x)| format!("{t}:{x}")).collect())) }
        if let Some(v) = &self.lists { out.push((format!("{n}.java_list"), v.iter().map(|(t, x)| format!("{t}:{x}")).collect())) }
        if let Some(v) = &self.comps { out.push((format!("{n}.java_components"), v.iter().map(|c| e.line(&c.json())).collect())) }
        if let Some(v) = &self.events { out.push((format!("{n}.java_events"), v.iter().map(|c| e.line(&c.json())).collect())) }
        if let Some(v) = &self.funcs { out.push((format!("{n}.java_func"), v.iter().map(|(i, s)| format!("{i}:{s}")).collect())) }
        for (c, bs) in &self.containers { out.push((format!("{n}.java_{c}"), bs.iter().map(|b| e.line(&b.json())).collect())) }
        out
    }
    /// normal form: missing sections are empty, containers sorted by name
    pub fn canon(&self) -> MLogicScreen {
        let mut s = self.clone();
        s.vars.get_or_insert_with(Vec::new); s.lists.get_or_insert_with(Vec::new); s.comps.get_or_insert_with(Vec::new); s.events.get_or_insert_with(Vec::new); s.funcs.get_or_insert_with(Vec::new);
        s.containers.sort_by(|a, b| a.0.cmp(&b.0));
        s
    }
    pub fn same(&self, got: &MLogicScreen) -> R<()> {
        let (a, b) = (self.canon(), got.canon());
        let n = &self.name;
        eq("screen name", &b.name, &a.name)?;
        eq_list(&format!("{n} variables"), b.vars.as_ref().unwrap(), a.vars.as_ref().unwrap())?;
        eq_list(&format!("{n} lists"), b.lists.as_ref().unwrap(), a.lists.as_ref().unwrap())?;
        eq_list(&format!("{n} components"), b.comps.as_ref().unwrap(), a.comps.as_ref().unwrap())?;
        eq_list(&format!("{n} events"), b.events.as_ref().unwrap(), a.events.as_ref().unwrap())?;
        eq_list(&format!("{n} moreblocks"), b.funcs.as_ref().unwrap(), a.funcs.as_ref().unwrap())?;
        eq(&format!("{n} container names"), &b.containers.iter().map(|c| &c.0).collect::<Vec<_>>(), &a.containers.iter().map(|c| &c.0).collect::<Vec<_>>())?;
        for (x, y) in a.containers.iter().zip(&b.containers) { eq_list(&format!("{n} container {}", x.0), &y.1, &x.1)?; }
        Ok(())
    }
}

impl MLogic {
    pub fn gen(g: &mut Gen) -> MLogic {
        let mut n = Names::new();
        let sz = g.size.min(4);
        MLogic { screens: g.with_size(sz, |g| g.vecx(5, |g| {
            let name = n.uniq(match g.below(4) { 0 => "MainActivity".to_string(), 1 => format!("{}Activity", g.ident()), _ => g.uident() });
            MLogicScreen::gen(g, name)
        })) }
    }
    /// `order` permutes the sections of the whole file (indices are taken modulo what is left)
    pub fn encode(&self, st: &Style, order: &[u32], trail: bool) -> String {
        let mut e = Emit::new(st, 6, false);
        let mut secs = vec![];
        for s in &self.screens { secs.extend(s.sections(&mut e)); }
        if !order.is_empty() {
            let mut out = vec![];
            let mut k = 0;
            while !secs.is_empty() { let i = order[k % order.len()] as usize % secs.len(); out.push(secs.remove(i)); k += 1; }
            secs = out;
        }
        let mut t = String::new();
        for (h, ls) in secs {
            t += &format!("@{h}\n");
            for l in ls { t += &l; t.push('\n'); }
            t += e.gap();
        }
        if !trail { while t.ends_with('\n') { t.pop(); } }
        t
    }
    pub fn decode(t: &str) -> R<MLogic> {
        let mut f = MLogic::default();
        for (h, ls) in sections(t)? {
            let Some((scr, sec)) = h.split_once(".java_") else { bail!("logic: unexpected header @{h}") };
            let i = match f.screens.iter().position(|s| s.name == scr) { Some(i) => i, None => { f.screens.push(MLogicScreen { name: scr.to_string(), ..Default::default() }); f.screens.len() - 1 } };
            let s = &mut f.screens[i];
            let var = |l: &String| -> R<(u8, String)> { let (a, b) = l.split_once(':').ok_or(format!("variable line {l:?}"))?; if a.len() != 1 || !a.bytes().all(|b| (b'0'..=b'3').contains(&b)) { bail!("variable type {a:?}") } Ok((a.parse().unwrap(), b.to_string())) };
            let dup = format!("logic: section @{h} written twice");
            match sec {
                "var" => if s.vars.replace(ls.iter().map(var).collect::<R<_>>()?).is_some() { return Err(dup) },
                "list" => if s.lists.replace(ls.iter().map(var).collect::<R<_>>()?).is_some() { return Err(dup) },
                "components" => if s.comps.replace(ls.iter().map(|l| MComp::decode(l)).collect::<R<_>>()?).is_some() { return Err(dup) },
                "events" => if s.events.replace(ls.iter().map(|l| MEvent::decode(l)).collect::<R<_>>()?).is_some() { return Err(dup) },
                "func" => if s.funcs.replace(ls.iter().map(|l| l.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).ok_or(format!("moreblock line {l:?}"))).collect::<R<_>>()?).is_some() { return Err(dup) },
                c => { if s.containers.iter().any(|x| x.0 == c) { return Err(dup) } s.containers.push((c.to_string(), ls.iter().map(|l| MRawBlock::decode(l)).collect::<R<_>>()?)) }
            }
        }
        Ok(f)
    }
    pub fn of(l: &pg::Logic) -> R<MLogic> {
        let mut f = MLogic::default();
        for (k, s) in &l.screens {
            if k != &s.name { bail!("screen stored under {k:?} is named {:?}", s.name) }
            for (n, v) in s.variables.iter().flat_map(|p| p.0.iter()) { if n != &v.name { bail!("variable stored under {n:?} is named {:?}", v.name) } }
            for (n, v) in s.list_variables.iter().flat_map(|p| p.0.iter()) { if n != &v.name { bail!("list stored under {n:?} is named {:?}", v.name) } }
            for (n, v) in s.more_blocks.iter().flat_map(|p| p.0.iter()) { if n != &v.id { bail!("moreblock stored under {n:?} is named {:?}", v.id) } }
            f.screens.push(MLogicScreen {
                name: s.name.clone(),
                vars: s.variables.as_ref().map(|p| p.0.values().map(|v| (var_type(v.r#type), v.name.clone())).collect()),
                lists: s.list_variables.as_ref().map(|p| p.0.values().map(|v| (var_type(v.r#type), v.name.clone())).collect()),
                comps: s.components.as_ref().map(|p| p.0.iter().map(MComp::of).collect()),
                events: s.events.as_ref().map(|p| p.0.iter().map(MEvent::of).collect()),
                funcs: s.more_blocks.as_ref().map(|p| p.0.values().map(|m| (m.id.clone(), m.spec.clone())).collect()),
                containers: s.block_containers.iter().map(|(n, c)| (n.clone(), c.0.iter().map(MRawBlock::of).collect())).collect(),
            });
        }
        Ok(f)
    }
    pub fn same(&self, got: &MLogic) -> R<()> {
        // a screen exists in the file only through its sections
        let has = |s: &MLogicScreen| s.vars.is_some() || s.lists.is_some() || s.comps.is_some() || s.events.is_some() || s.funcs.is_some() || !s.containers.is_empty();
        let names = |l: &MLogic| { let mut v: Vec<String> = l.screens.iter().filter(|s| has(s)).map(|s| s.name.clone()).collect(); v.sort(); v };
        eq("logic screens", &names(got), &names(self))?;
        for s in self.screens.iter().filter(|s| has(s)) { s.same(got.screens.iter().find(|x| x.name == s.name).unwrap())?; }
        Ok(())
    }
}
