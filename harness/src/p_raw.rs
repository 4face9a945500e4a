//! C01-C09: encryption, loading, and the six data files.
use crate::aes;
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::{mix, Gen};
use crate::json::Style;
use crate::proj::{errs, MWrap};
use crate::raw::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use swrs::parser::{self as ps, Parsable, RawSketchwareProject, ResourceFileWrapper as RW, ResourceType as RT};

/// a scratch directory removed on drop
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("swrs-verif-scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ------------------------------------------------------------------------------ C01

/// bytes given by a compact description, so that large cases stay small in replay files
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bytes { Lit(Vec<u8>), Rand { seed: u64, len: usize }, Rep(u8, usize) }
impl Bytes {
    pub fn gen(g: &mut Gen) -> Bytes {
        match g.weighted(&[600, 600, 300, 100, 1, 4]) {
            // at the edges of usual buffer sizes
            5 => { let len = *g.pick(&[256i64, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072]) + *g.pick(&[0i64, 0, 0, -1, 1, -16, 16]); Bytes::Rand { seed: g.below(1 << 40), len: len as usize } }
            4 => { let len = (1i64 << g.range(10, 21)) * g.range(1, 3) + g.range(-17, 17); Bytes::Rand { seed: g.below(1 << 40), len: len as usize } }
            0 => Bytes::Lit(g.with_size(12, |g| g.vec(70, |g| g.u8()))),
            1 => { let len = (16 * g.below(6)) as i64 + g.range(-2, 2); Bytes::Rand { seed: g.below(1 << 40), len: len.max(0) as usize } }
            2 => Bytes::Rep(*g.pick(&[0u8, 1, 15, 16, 17, 0xff, 0x80, b' ']), g.u(70)),
            _ => Bytes::Rand { seed: g.below(1 << 40), len: g.u(70_000) },
        }
    }
    pub fn get(&self) -> Vec<u8> {
        match self {
            Bytes::Lit(v) => v.clone(),
            Bytes::Rand { seed, len } => { let mut s = mix(*seed); (0..*len).map(|_| { s = mix(s); s as u8 }).collect() }
            Bytes::Rep(b, n) => vec![*b; *n],
        }
    }
}

fn c01_bytes(c: &Bytes, ctx: &mut Ctx) -> R<()> {
    let d = c.get();
    ctx.nontrivial(!d.is_empty());
    ctx.label_if(d.len() % 16 == 0, "multiple of the block size");
    ctx.label_if(d.len() > 1000, "large");
    let e = guard("encrypt_sw", || swrs::encrypt_sw(&d))?;
    let want = aes::encrypt(&d);
    if e != want { bail!("encrypting {} bytes: {} bytes that differ from AES-128-CBC/PKCS#7 ({} bytes)", d.len(), e.len(), want.len()) }
    match guard("decrypt_sw_encrypted", || swrs::decrypt_sw_encrypted(&e))? {
        Ok(b) if b == d => Ok(()),
        Ok(b) => bail!("decrypting gives {} bytes other than the original {}", b.len(), d.len()),
        Err(x) => bail!("decrypting an encrypted text of {} bytes failed: {x:?}", d.len()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cipher { Any(Bytes), Flip { plain: Bytes, at: usize, bit: u8 }, Cut { plain: Bytes, keep: usize }, Extend { plain: Bytes, by: Vec<u8> }, Forged { plain: Bytes, tail: Vec<u8> }, Swap { plain: Bytes, i: usize, j: usize } }
fn gen_cipher(g: &mut Gen) -> Cipher {
    match g.below(7) {
        0 => Cipher::Any(Bytes::gen(g)),
        1 => Cipher::Flip { plain: Bytes::gen(g), at: g.u(200), bit: g.below(8) as u8 },
        2 => Cipher::Cut { plain: Bytes::gen(g), keep: g.u(120) },
        3 => Cipher::Extend { plain: Bytes::gen(g), by: g.vec(40, |g| g.u8()) },
        4 => Cipher::Swap { plain: Bytes::gen(g), i: g.u(6), j: g.u(6) },
        _ => {
            // a last block whose padding is nearly right
            let n = g.range(0, 17) as u8;
            let mut t = vec![n; 16];
            for _ in 0..g.below(3) { let i = g.u(16); t[i] = g.range(0, 18) as u8; }
            if g.bool() { let k = 16 - (n as usize).min(16); for b in &mut t[..k] { *b = 0x41; } }
            Cipher::Forged { plain: Bytes::gen(g), tail: t }
        }
    }
}
fn cipher_bytes(c: &Cipher) -> Vec<u8> {
    match c {
        Cipher::Any(b) => b.get(),
        Cipher::Flip { plain, at, bit } => { let mut e = aes::encrypt(&plain.get()); let n = e.len(); e[at % n] ^= 1 << bit; e }
        Cipher::Cut { plain, keep } => { let mut e = aes::encrypt(&plain.get()); e.truncate(*keep); e }
        Cipher::Extend { plain, by } => { let mut e = aes::encrypt(&plain.get()); e.extend_from_slice(by); e }
        Cipher::Swap { plain, i, j } => { let mut e = aes::encrypt(&plain.get()); let n = e.len() / 16; let (i, j) = (i % n, j % n); for k in 0..16 { e.swap(16 * i + k, 16 * j + k); } e }
        Cipher::Forged { plain, tail } => { let mut p = plain.get(); p.truncate(p.len() / 16 * 16); p.extend_from_slice(tail); aes::encrypt_padded(&p) }
    }
}
fn c01_reject(c: &Cipher, ctx: &mut Ctx) -> R<()> {
    let d = cipher_bytes(c);
    let want = aes::decrypt(&d);
    ctx.nontrivial(!d.is_empty());
    ctx.label_if(want.is_none(), "invalid ciphertext");
    let got = guard("decrypt_sw_encrypted", || swrs::decrypt_sw_encrypted(&d))?;
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => bail!("decrypted {} bytes that differ from the reference ({})", g.len(), w.len()),
        (Ok(g), None) => bail!("an invalid ciphertext of {} bytes was decrypted to {} bytes", d.len(), g.len()),
        (Err(e), Some(w)) => bail!("a valid ciphertext of {} plain bytes was refused: {e:?}", w.len()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp { Write(u8, Bytes), WriteEnc(u8, Bytes), EncTo(u8, Option<(u8, bool)>), EncMem(u8), DecMem(u8), Remove(u8) }
/// scratch file names: plain ones, and neighbours that temporary or backup copies of them may be called
const FNAMES: [&str; 16] = ["project", "file", "sub.dir/logic", "view é", "project.tmp", "project.bak", "project~", ".project.tmp", "project.enc", "project.swp", "tmp", "sub.dir/logic.tmp", "sub.dir/tmp", "file.new", "project.old", ".project.swp"];
fn gen_fops(g: &mut Gen) -> Vec<FOp> {
    g.with_size(8, |g| g.vec1(20, |g| {
        let f = |g: &mut Gen| if g.chance(2, 3) { g.below(4) as u8 } else { g.below(FNAMES.len() as u64) as u8 };
        let b = |g: &mut Gen| if g.chance(1, 6) { Bytes::gen(g) } else { Bytes::Lit(g.vec(40, |g| g.u8())) };
        match g.weighted(&[5, 2, 6, 2, 4, 1]) {
            0 => FOp::Write(f(g), b(g)), 1 => FOp::WriteEnc(f(g), b(g)),
            2 => FOp::EncTo(f(g), g.opt(2, 3, |g| (f(g), g.chance(1, 4)))), 3 => FOp::EncMem(f(g)), 4 => FOp::DecMem(f(g)), _ => FOp::Remove(f(g)),
        }
    }))
}
fn c01_files(ops: &Vec<FOp>, ctx: &mut Ctx) -> R<()> {
    let dir = Scratch::new();
    let path = |i: u8| dir.0.join(FNAMES[i as usize]);
    std::fs::create_dir_all(dir.0.join("sub.dir")).unwrap();
    let mut model: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    for (n, op) in ops.iter().enumerate() {
        let at = format!("operation {n} {}", clip(&format!("{op:?}")));
        match op {
            FOp::Write(f, b) => { std::fs::write(path(*f), b.get()).unwrap(); model.insert(*f, b.get()); }
            FOp::WriteEnc(f, b) => { let e = aes::encrypt(&b.get()); std::fs::write(path(*f), &e).unwrap(); model.insert(*f, e); }
            FOp::Remove(f) => { let _ = std::fs::remove_file(path(*f)); model.remove(f); }
            FOp::EncTo(s, d) => {
                // the destination may be spelled differently from the source
                let to = d.map(|(d, alias)| if alias { dir.0.join("sub.dir/..").join(FNAMES[d as usize]) } else { path(d) });
                let d = d.map(|x| x.0);
                ctx.label_if(d == Some(*s), "destination is the source");
                let got = guard(&at, || swrs::encrypt_sw_file_to_file(&path(*s), to.as_deref()))?;
                match (got, model.get(s).cloned()) {
                    (Ok(()), Some(p)) => { model.insert(d.unwrap_or(*s), aes::encrypt(&p)); ctx.nontrivial(true); ctx.label("encrypted a file to a file"); }
                    (Err(_), None) => ctx.label("missing source"),
                    (Ok(()), None) => bail!("{at}: a missing file was accepted"),
                    (Err(e), Some(_)) => bail!("{at}: failed: {e:?}"),
                }
            }
            FOp::EncMem(s) => match (guard(&at, || swrs::encrypt_sw_file(&path(*s)))?, model.get(s)) {
                (Ok(e), Some(p)) => { if e != aes::encrypt(p) { bail!("{at}: wrong bytes") } }
                (Err(_), None) => {}
                (g, w) => bail!("{at}: {} although the file {}", if g.is_ok() { "succeeded" } else { "failed" }, if w.is_some() { "exists" } else { "is missing" }),
            },
            FOp::DecMem(s) => match (guard(&at, || swrs::decrypt_sw_file(&path(*s)))?, model.get(s).and_then(|p| aes::decrypt(p))) {
                (Ok(g), Some(w)) => { if g != w { bail!("{at}: wrong bytes") } ctx.label("decrypted a file"); }
                (Err(_), None) => {}
                (g, w) => bail!("{at}: {} although the file {} a ciphertext", if g.is_ok() { "succeeded" } else { "failed" }, if w.is_some() { "is" } else { "is not" }),
            },
        }
        // nothing but the destination may change
        let mut seen = BTreeMap::new();
        fn walk(d: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) { for e in std::fs::read_dir(d).unwrap().flatten() { let p = e.path(); if p.is_dir() { walk(&p, out) } else { out.insert(p.clone(), std::fs::read(&p).unwrap()); } } }
        walk(&dir.0, &mut seen);
        let want: BTreeMap<PathBuf, Vec<u8>> = model.iter().map(|(k, v)| (path(*k), v.clone())).collect();
        if seen != want {
            let bad: Vec<_> = seen.keys().chain(want.keys()).filter(|k| seen.get(*k) != want.get(*k)).map(|k| k.strip_prefix(&dir.0).unwrap().to_owned()).collect();
            bail!("{at}: files differ from the model: {bad:?}");
        }
    }
    Ok(())
}

pub fn c01() -> Prop {
    aes::self_test();
    Prop { id: "C01", rule: "bytes/reject: a non-empty byte string; files: a history in which at least one file is encrypted to a file", assumptions: &["the reference AES-128-CBC/PKCS#7 (harness/src/aes.rs, self-tested against FIPS 197 C.1) is right", "the file system behaves for plain files in a scratch directory"],
        subs: vec![Sub::new("bytes", 200_000, 3_000_000, Bytes::gen, c01_bytes), Sub::new("reject", 200_000, 3_000_000, gen_cipher, c01_reject), Sub::new("files", 20_000, 200_000, gen_fops, c01_files)] }
}

// ------------------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load { texts: [String; 6], res: Vec<(MWrap, String, u8)>, fault: Option<(u8, u8, u32)> }
pub fn rtype(n: u8) -> RT { match n { 0 => RT::Image, 1 => RT::Sound, 2 => RT::Font, _ => RT::CustomIcon } }
fn gen_load(g: &mut Gen) -> Load {
    Load { texts: [0; 6].map(|_| if g.chance(1, 8) { let n = g.u(3000); g.text().repeat(1 + n / 20) } else { g.text() }), res: g.vec(5, |g| (MWrap::gen(g), g.text(), g.below(4) as u8)), fault: g.opt(1, 2, |g| (g.below(6) as u8, g.below(5) as u8, g.below(1 << 20) as u32)) }
}
const SLOTS: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];
fn c02(c: &Load, ctx: &mut Ctx) -> R<()> {
    let mut enc: Vec<Vec<u8>> = c.texts.iter().map(|t| aes::encrypt(t.as_bytes())).collect();
    ctx.nontrivial(c.texts.iter().any(|t| !t.is_empty()));
    if let Some((slot, kind, r)) = c.fault {
        let e = &mut enc[slot as usize];
        match kind {
            0 => e.clear(),
            1 => { let n = e.len() - 1 - r as usize % 15; e.truncate(n) }
            2 => { let mut p = c.texts[slot as usize].as_bytes().to_vec(); p.truncate(p.len() / 16 * 16); p.extend([0x41; 15]); p.push((r % 256) as u8); *e = aes::encrypt_padded(&p); }
            3 => { let mut p = c.texts[slot as usize].as_bytes().to_vec(); let at = r as usize % (p.len() + 1); p.insert(at, 0xff); *e = aes::encrypt(&p); }
            _ => { let n = e.len(); e[r as usize % n] ^= 0x40; }
        }
        let d = aes::decrypt(e);
        if d.map_or(false, |d| String::from_utf8(d).is_ok()) { ctx.label("fault had no effect"); return Ok(()) }
        ctx.label(&format!("faulty {}", SLOTS[slot as usize]));
    }
    let files: Vec<RW> = c.res.iter().map(|(w, n, t)| w.to_swrs(n, rtype(*t))).collect();
    let x = |i: usize| enc[i].clone();
    let with = guard("from_encrypted", || RawSketchwareProject::from_encrypted(x(0), x(1), x(2), x(3), x(4), x(5), files.clone()))?;
    let without = guard("from_encrypted_wo_res", || RawSketchwareProject::from_encrypted_wo_res(x(0), x(1), x(2), x(3), x(4), x(5)))?;
    for (name, got, res) in [("from_encrypted", with, Some(files)), ("from_encrypted_wo_res", without, None)] {
        match (got, c.fault) {
            (Err(_), Some(_)) => {}
            (Ok(_), Some((s, _, _))) => bail!("{name} accepted a project whose `{}` is not an encrypted text", SLOTS[s as usize]),
            (Err(e), None) => bail!("{name} failed: {e:?}"),
            (Ok(p), None) => {
                for (i, t) in [&p.project, &p.file, &p.library, &p.resource, &p.view, &p.logic].into_iter().enumerate() { eq(&format!("{name}: {}", SLOTS[i]), t, &c.texts[i])?; }
                eq(&format!("{name}: resource files"), &p.resource_files, &res)?;
            }
        }
    }
    Ok(())
}
pub fn c02_prop() -> Prop {
    Prop { id: "C02", rule: "at least one of the six texts is non-empty", assumptions: &["the reference cipher is right"], subs: vec![Sub::new("load", 400_000, 6_000_000, gen_load, c02)] }
}

// ------------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProjCase { m: MProject, st: Style }
fn c03(c: &ProjCase, ctx: &mut Ctx) -> R<()> {
    let text = c.m.encode(&c.st);
    ctx.nontrivial(true);
    ctx.label_if(c.m.date.0 < 1970, "before 1970");
    ctx.label_if(c.st.color != 0, "colours as floats");
    let p = guard("Project::parse", || ps::project::Project::parse(&text))?.map_err(|e| format!("parsing {} failed: {}", clip(&text), errs(&e)))?;
    c.m.matches(&p)?;
    eq("parsed value", &p, &c.m.to_swrs())?;
    let w = guard("Project::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing failed: {}", errs(&e)))?;
    eq("written project", &MProject::decode(&w)?, &c.m)?;
    let again = ps::project::Project::parse(&w).map_err(|e| format!("parsing the written text failed: {}", errs(&e)))?;
    eq("reparsed value", &again, &p)
}
/// a metadata file in which one date or number cannot be read
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadMeta { m: MProject, st: Style, key: u8, text: String }
fn gen_bad_meta(g: &mut Gen) -> BadMeta {
    let mut m = MProject::gen(g);
    let key = g.below(5) as u8;
    let text = if key < 3 {
        let date = |m: &MProject| m.date_text();
        match g.below(9) {
            0 => { m.date.1 = *g.pick(&[0, 13, 14, 20, 99]); date(&m) }
            1 => { m.date.2 = *g.pick(&[0, 32, 33, 40, 99]); date(&m) }
            2 => { m.date.1 = *g.pick(&[4, 6, 9, 11]); m.date.2 = 31; date(&m) }
            3 => { m.date.1 = 2; let y = m.date.0; let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); m.date.2 = if leap { 30 } else { 29 } + g.below(2) as i64; date(&m) }
            4 => { m.date.3 = g.range(24, 99) as i64; date(&m) }
            5 => { m.date.4 = g.range(60, 99) as i64; date(&m) }
            6 => { m.date.5 = g.range(60, 99) as i64; date(&m) }
            7 => { let mut b = date(&m).into_bytes(); let i = g.below(14) as usize; b[i] = *g.pick(b" x:/.T_"); String::from_utf8(b).unwrap() }
            _ => { let t = date(&m); t[..g.below(14) as usize].to_string() }
        }
    } else {
        let n = g.u16();
        match g.below(9) {
            0 => format!(" {n}"), 1 => format!("{n} "), 2 => format!("{n}.0"), 3 => format!("0x{n:x}"), 4 => format!("-{}", n.max(1)), 5 => (65536 + g.below(1 << 40)).to_string(),
            6 => String::new(), 7 => format!("{n}a"), _ => format!("{n},{}", g.below(1000)),
        }
    };
    BadMeta { m, st: Style::gen(g), key, text }
}
fn c03_bad(c: &BadMeta, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(true);
    let key = match c.key { 0..=2 => "my_sc_reg_dt", 3 => "sc_id", _ => "sc_ver_code" };
    ctx.label(key);
    let mut e = crate::json::Emit::new(&c.st, 1, true);
    let mut j = c.m.json(&mut e);
    if let crate::json::J::O(v) = &mut j { for (k, x) in v { if *k == key { *x = crate::json::J::s(&c.text) } } }
    let text = e.emit(&j);
    match guard("Project::parse", || ps::project::Project::parse(&text))? { Err(_) => Ok(()), Ok(p) => bail!("{key} = {:?} was read as if it were valid: {}", c.text, clip(&format!("{p:?}"))) }
}
pub fn c03_prop() -> Prop {
    Prop { id: "C03", rule: "every case (a full metadata record in a generated JSON style)", assumptions: &["serde_json parses JSON as specified (reference decoder)"], subs: vec![Sub::new("metadata", 1_000_000, 10_000_000, |g| ProjCase { m: MProject::gen(g), st: Style::gen(g) }, c03), Sub::new("refused", 200_000, 2_000_000, gen_bad_meta, c03_bad)] }
}

// ------------------------------------------------------------------------------ C04 C05 C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase { m: MFile, st: Style, trail: bool }
fn big(g: &mut Gen) -> bool { g.chance(1, 50) }
fn gen_file(g: &mut Gen) -> FileCase {
    let mut m = MFile::gen(g);
    if big(g) { let to = if g.bool() { &mut m.activities } else { &mut m.customs }; for i in 0..g.range(20, 300) { to.push(MFileItem { name: format!("s{i}"), ftype: 0, kb: 0, opts: i % 16, orient: 0, theme: -1 }); } }
    FileCase { m, st: Style::gen(g), trail: g.chance(2, 3) }
}
/// how the text of a line-based file may end
fn tail(mut t: String, keep: bool) -> String { if !keep { while t.ends_with('\n') { t.pop(); } } t }
fn c04(c: &FileCase, ctx: &mut Ctx) -> R<()> {
    let text = tail(c.m.encode(&c.st), c.trail || c.m.customs.is_empty());
    ctx.nontrivial(!c.m.activities.is_empty() || !c.m.customs.is_empty());
    ctx.label_if(c.m.activities.is_empty() != c.m.customs.is_empty(), "one section empty");
    let p = guard("File::parse", || ps::file::File::parse(&text))?.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    c.m.same(&MFile::of(&p)).map_err(|e| format!("parsed: {e}"))?;
    let w = guard("File::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing failed: {}", errs(&e)))?;
    c.m.same(&MFile::decode(&w)?).map_err(|e| format!("written: {e}"))?;
    let again = ps::file::File::parse(&w).map_err(|e| format!("parsing the written text failed: {}", errs(&e)))?;
    eq("reparsed value", &again, &p)?;
    for i in c.m.activities.iter().chain(&c.m.customs) {
        let t = crate::json::Emit::new(&c.st, 9, true).emit(&i.json());
        let p = ps::file::FileItem::parse(&t).map_err(|e| format!("parsing an item failed: {e}"))?;
        eq("parsed item", &MFileItem::of(&p), i)?;
        let w = p.reconstruct().map_err(|e| format!("writing an item failed: {e}"))?;
        eq("written item", &MFileItem::decode(&w)?, i)?;
    }
    Ok(())
}
fn c04_opts(n: &u8, ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(true);
    let n = *n;
    let o = ps::file::ActivityOptions::from_num(n);
    eq("options", &(o.toolbar_enabled, o.fullscreen_enabled, o.drawer_enabled, o.fab_enabled), &(n & 1 != 0, n & 2 != 0, n & 4 != 0, n & 8 != 0))?;
    eq("option number", &o.as_num(), &(n & 15))
}
pub fn c04_prop() -> Prop {
    Prop { id: "C04", rule: "at least one entry", assumptions: &["serde_json parses JSON as specified (reference decoder)"], subs: vec![Sub::new("file", 400_000, 6_000_000, gen_file, c04), Sub::new("options", 1024, 1024, |g| g.u8(), c04_opts)] }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LibCase { m: MLib, st: Style, order: Vec<usize>, trail: bool }
fn gen_lib(g: &mut Gen) -> LibCase {
    let mut order = vec![0, 1, 2, 3];
    g.shuffle(&mut order);
    if g.chance(1, 5) { order.truncate(g.u(4)); }
    LibCase { m: MLib::gen(g), st: Style::gen(g), order, trail: g.chance(2, 3) }
}
fn c05(c: &LibCase, ctx: &mut Ctx) -> R<()> {
    let text = tail(c.m.encode_order(&c.st, &c.order), c.trail);
    ctx.nontrivial(!c.order.is_empty());
    ctx.label_if(c.order.len() == 4 && c.order != [0, 1, 2, 3], "other section order");
    let r = guard("Library::parse", || ps::library::Library::parse(&text))?;
    if c.order.len() < 4 {
        ctx.label("missing section");
        return match r {
            Ok(_) => bail!("a library file with only the sections {:?} was accepted", c.order.iter().map(|i| LIB_HEADERS[*i]).collect::<Vec<_>>()),
            Err(e) => { let s = format!("{e} {e:?}"); if (0..4).any(|i| !c.order.contains(&i) && s.contains(LIB_HEADERS[i])) { Ok(()) } else { bail!("the error does not name a missing section: {s}") } }
        };
    }
    let p = r.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    c.m.same(&MLib::of(&p)).map_err(|e| format!("parsed: {e}"))?;
    let w = guard("Library::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing failed: {}", errs(&e)))?;
    c.m.same(&MLib::decode(&w)?).map_err(|e| format!("written: {e}"))?;
    let again = ps::library::Library::parse(&w).map_err(|e| format!("parsing the written text failed: {}", errs(&e)))?;
    eq("reparsed value", &again, &p)
}
pub fn c05_prop() -> Prop {
    Prop { id: "C05", rule: "at least one section present", assumptions: &["serde_json parses JSON as specified (reference decoder)"], subs: vec![Sub::new("library", 400_000, 6_000_000, gen_lib, c05)] }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResCase { m: MRes, st: Style, trail: bool }
fn gen_res(g: &mut Gen) -> ResCase {
    let mut m = MRes::gen(g);
    if big(g) { let to = match g.below(3) { 0 => &mut m.sounds, 1 => &mut m.images, _ => &mut m.fonts }; for i in 0..g.range(20, 300) { to.push(MResItem { full: format!("s{i}.mp3"), name: format!("s{i}"), ty: 1 }); } }
    ResCase { m, st: Style::gen(g), trail: g.chance(2, 3) }
}
fn c06(c: &ResCase, ctx: &mut Ctx) -> R<()> {
    let text = tail(c.m.encode(&c.st), c.trail || c.m.fonts.is_empty());
    let n = [&c.m.images, &c.m.sounds, &c.m.fonts].iter().filter(|l| !l.is_empty()).count();
    ctx.nontrivial(n > 0);
    ctx.label(&format!("{n} sections non-empty"));
    let p = guard("Resource::parse", || ps::resource::Resource::parse(&text))?.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    c.m.same(&MRes::of(&p)).map_err(|e| format!("parsed: {e}"))?;
    let w = guard("Resource::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing failed: {}", errs(&e)))?;
    c.m.same(&MRes::decode(&w)?).map_err(|e| format!("written: {e}"))?;
    let again = ps::resource::Resource::parse(&w).map_err(|e| format!("parsing the written text failed: {}", errs(&e)))?;
    eq("reparsed value", &again, &p)
}
pub fn c06_prop() -> Prop {
    Prop { id: "C06", rule: "at least one entry", assumptions: &["serde_json parses JSON as specified (reference decoder)"], subs: vec![Sub::new("resource", 500_000, 8_000_000, gen_res, c06)] }
}

// ------------------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ViewCase { m: MViewFile, st: Style, trail: bool }
fn view_of(v: &ps::view::View) -> MViewFile {
    MViewFile { layouts: v.layouts.iter().map(|(n, l)| (n.clone(), l.0.iter().map(MView::of).collect())).collect(), fabs: v.fabs.iter().map(|(n, f)| (n.clone(), MView::of(f))).collect() }
}
fn c07(c: &ViewCase, ctx: &mut Ctx) -> R<()> {
    let text = c.m.encode(&c.st, c.trail);
    ctx.nontrivial(c.m.layouts.iter().any(|l| !l.1.is_empty()) || !c.m.fabs.is_empty());
    ctx.label_if(c.m.layouts.len() > 1, "several layouts");
    ctx.label_if(c.m.layouts.iter().any(|l| l.1.is_empty()), "empty layout");
    ctx.label_if(!c.m.fabs.is_empty(), "fab");
    let p = guard("View::parse", || ps::view::View::parse(&text))?.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    c.m.same(&view_of(&p)).map_err(|e| format!("parsed: {e}"))?;
    let w = guard("View::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing failed: {}", errs(&e)))?;
    c.m.same(&MViewFile::decode(&w)?).map_err(|e| format!("written: {e}"))?;
    let again = ps::view::View::parse(&w).map_err(|e| format!("parsing the written text failed: {}", errs(&e)))?;
    c.m.same(&view_of(&again)).map_err(|e| format!("reparsed: {e}"))?;
    if !p.layouts.is_empty() {
        // a layout on its own
        let (n, vs) = &c.m.layouts[0];
        let one = MViewFile { layouts: vec![(n.clone(), vs.clone())], fabs: vec![] }.encode(&c.st, false);
        let body = one.split_once('\n').map(|x| x.1).unwrap_or("");
        let l = guard("Layout::parse", || ps::view::Layout::parse(body))?.map_err(|e| format!("parsing a layout failed: {}", errs(&e)))?;
        eq_list("parsed layout", &l.0.iter().map(MView::of).collect::<Vec<_>>(), vs)?;
        let w = guard("Layout::reconstruct", || l.reconstruct())?.map_err(|e| format!("writing a layout failed: {}", errs(&e)))?;
        let got: Vec<MView> = w.split('\n').filter(|x| !x.is_empty()).map(MView::decode).collect::<R<_>>()?;
        eq_list("written layout", &got, vs)?;
    }
    Ok(())
}
fn c07_item(v: &(MView, Style), ctx: &mut Ctx) -> R<()> {
    ctx.nontrivial(true);
    let t = crate::json::Emit::new(&v.1, 9, true).emit(&v.0.json());
    let p = guard("AndroidView::parse", || ps::view::models::AndroidView::parse(&t))?.map_err(|e| format!("parsing a view failed: {e}"))?;
    crate::tree::same_view("parsed view", &MView::of(&p), &v.0)?;
    let w = guard("AndroidView::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing a view failed: {e}"))?;
    crate::tree::same_view("written view", &MView::decode(&w)?, &v.0)
}
pub fn c07_prop() -> Prop {
    Prop { id: "C07", rule: "file: at least one view or fab; item: every view record", assumptions: &["serde_json parses JSON as specified (reference decoder)"],
        subs: vec![Sub::new("file", 50_000, 800_000, |g| ViewCase { m: MViewFile::gen(g), st: Style::gen(g), trail: g.bool() }, c07), Sub::new("item", 200_000, 3_000_000, |g| (MView::gen(g), Style::gen(g)), c07_item)] }
}

// ------------------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LogicCase { m: MLogic, st: Style, order: Vec<u32>, trail: bool }
fn gen_logic(g: &mut Gen) -> LogicCase {
    LogicCase { m: MLogic::gen(g), st: Style::gen(g), order: g.opt(1, 2, |g| (0..7).map(|_| g.below(1000) as u32).collect()).unwrap_or_default(), trail: g.bool() }
}
/// the text of a logic file, keeping the blank line after a trailing empty section
fn logic_text(c: &LogicCase) -> String { c.m.encode(&c.st, &c.order, c.trail) }
fn c08(c: &LogicCase, ctx: &mut Ctx) -> R<()> {
    let text = logic_text(c);
    let secs: usize = c.m.screens.iter().map(|s| s.sections(&mut crate::json::Emit::new(&c.st, 0, false)).len()).sum();
    ctx.nontrivial(secs > 1);
    ctx.label_if(c.m.screens.len() > 1, "several screens");
    ctx.label_if(!c.order.is_empty() && c.m.screens.len() > 1, "sections of screens interleaved");
    ctx.label_if(c.m.screens.iter().any(|s| s.containers.iter().any(|c| !c.1.is_empty())), "blocks");
    let p = guard("Logic::parse", || ps::logic::Logic::parse(&text))?.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    c.m.same(&MLogic::of(&p)?).map_err(|e| format!("parsed: {e}"))?;
    let w = guard("Logic::reconstruct", || p.reconstruct())?.map_err(|e| format!("writing failed: {}", errs(&e)))?;
    c.m.same(&MLogic::decode(&w)?).map_err(|e| format!("written: {e}"))?;
    let again = ps::logic::Logic::parse(&w).map_err(|e| format!("parsing the written text failed: {}", errs(&e)))?;
    c.m.same(&MLogic::of(&again)?).map_err(|e| format!("reparsed: {e}"))?;
    // writing is stable
    let w2 = again.reconstruct().map_err(|e| format!("writing failed: {}", errs(&e)))?;
    c.m.same(&MLogic::decode(&w2)?).map_err(|e| format!("written again: {e}"))
}
/// the entries and pools on their own
fn c08_items(c: &LogicCase, ctx: &mut Ctx) -> R<()> {
    use ps::logic::*;
    let Some(s) = c.m.screens.first() else { return Ok(()) };
    let s = s.canon();
    let mut e = crate::json::Emit::new(&c.st, 11, false);
    ctx.nontrivial(!s.containers.is_empty() || !s.vars.as_ref().unwrap().is_empty() || !s.comps.as_ref().unwrap().is_empty());
    macro_rules! pool { ($t:ty, $lines:expr, $of:expr, $want:expr, $what:expr) => {{
        let text: String = $lines.join("\n");
        let p = guard(concat!($what, " parse"), || <$t>::parse(&text))?.map_err(|e| format!("parsing {} failed: {}", $what, errs(&e)))?;
        #[allow(clippy::redundant_closure_call)]
        let got: Vec<_> = $of(&p);
        eq_list(&format!("parsed {}", $what), &got, $want)?;
        let w = guard(concat!($what, " reconstruct"), || p.reconstruct())?.map_err(|e| format!("writing {} failed: {e:?}", $what))?;
        let p2 = <$t>::parse(&w).map_err(|e| format!("parsing the written {} failed: {}", $what, errs(&e)))?;
        let got: Vec<_> = $of(&p2);
        eq_list(&format!("reparsed {}", $what), &got, $want)?;
        w
    }} }
    let vars = s.vars.clone().unwrap();
    let lines: Vec<String> = vars.iter().map(|(t, n)| format!("{t}:{n}")).collect();
    let w = pool!(variable::VariablePool, lines, |p: &variable::VariablePool| p.0.values().map(|v| (var_type(v.r#type), v.name.clone())).collect::<Vec<_>>(), &vars, "variables");
    eq("written variables", &w.split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>(), &lines.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    let vars = s.lists.clone().unwrap();
    let lines: Vec<String> = vars.iter().map(|(t, n)| format!("{t}:{n}")).collect();
    let w = pool!(list_variable::ListVariablePool, lines, |p: &list_variable::ListVariablePool| p.0.values().map(|v| (var_type(v.r#type), v.name.clone())).collect::<Vec<_>>(), &vars, "lists");
    eq("written lists", &w.split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>(), &lines.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    let comps = s.comps.clone().unwrap();
    let lines: Vec<String> = comps.iter().map(|c| e.line(&c.json())).collect();
    pool!(component::ComponentPool, lines, |p: &component::ComponentPool| p.0.iter().map(MComp::of).collect::<Vec<_>>(), &comps, "components");
    let evs = s.events.clone().unwrap();
    let lines: Vec<String> = evs.iter().map(|c| e.line(&c.json())).collect();
    pool!(event::EventPool, lines, |p: &event::EventPool| p.0.iter().map(MEvent::of).collect::<Vec<_>>(), &evs, "events");
    let funcs = s.funcs.clone().unwrap();
    let lines: Vec<String> = funcs.iter().map(|(i, s)| format!("{i}:{s}")).collect();
    pool!(more_block::MoreBlockPool, lines, |p: &more_block::MoreBlockPool| p.0.values().map(|m| (m.id.clone(), m.spec.clone())).collect::<Vec<_>>(), &funcs, "moreblocks");
    for (n, bs) in &s.containers {
        let lines: Vec<String> = bs.iter().map(|b| e.line(&b.json())).collect();
        pool!(BlockContainer, lines, |p: &BlockContainer| p.0.iter().map(MRawBlock::of).collect::<Vec<_>>(), bs, "blocks");
        let h = format!("@{}.java_{n}", s.name);
        let p = guard("header parse", || BlockContainerHeader::parse(&h))?.map_err(|e| format!("parsing header {h:?} failed: {}", errs(&e)))?;
        eq("header screen", &p.screen_name, &s.name)?;
        eq("header container", &p.container_name, n)?;
        eq("written header", &p.reconstruct().map_err(|e| format!("writing header failed: {e:?}"))?, &h)?;
    }
    for b in s.containers.iter().flat_map(|c| &c.1) {
        let t = crate::json::Emit::new(&c.st, 12, true).emit(&b.json());
        let p = guard("Block::parse", || Block::parse(&t))?.map_err(|e| format!("parsing a block failed: {e}"))?;
        eq("parsed block", &MRawBlock::of(&p), b)?;
        eq("written block", &MRawBlock::decode(&p.reconstruct().map_err(|e| format!("writing a block failed: {e}"))?)?, b)?;
    }
    for x in &comps { let p = component::Component::parse(&e.line(&x.json())).map_err(|e| format!("parsing a component failed: {e}"))?; eq("parsed component", &MComp::of(&p), x)?; eq("written component", &MComp::decode(&p.reconstruct().map_err(|e| format!("{e}"))?)?, x)?; }
    for x in &evs { let p = event::Event::parse(&e.line(&x.json())).map_err(|e| format!("parsing an event failed: {e}"))?; eq("parsed event", &MEvent::of(&p), x)?; eq("written event", &MEvent::decode(&p.reconstruct().map_err(|e| format!("{e}"))?)?, x)?; }
    Ok(())
}
pub fn c08_prop() -> Prop {
    Prop { id: "C08", rule: "file: at least two sections; items: a screen with a container, a variable or a component", assumptions: &["serde_json parses JSON as specified (reference decoder)", "sections are separated by exactly one blank line and a section occurs once per screen, as Sketchware writes them"],
        subs: vec![Sub::new("file", 70_000, 1_000_000, gen_logic, c08), Sub::new("items", 40_000, 500_000, gen_logic, c08_items)] }
}

// ------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole { p: MProject, f: MFile, l: MLib, r: MRes, v: MViewFile, g: MLogic, st: Style, res: Option<Vec<(MWrap, String, u8)>>, fault: Option<(u8, u8)>, via: u8 }
fn gen_whole(g: &mut Gen) -> Whole {
    let mut names = [(); 4].map(|_| crate::gen::Names::new());
    let mut icon = false;
    let res = g.opt(3, 4, |g| { let mut v: Vec<(MWrap, String, u8)> = g.vec(6, |g| { let t = g.below(4) as u8; (MWrap::gen(g), names[t as usize].uniq(if g.chance(1, 3) { g.pick(&["a.png", "b.mp3", "c"]).to_string() } else { g.text() }), t) }); v.retain(|x| if x.2 == 3 { let k = !icon; icon = true; k } else { true }); v });
    g.with_size(2, |g| Whole { p: MProject::gen(g), f: MFile::gen(g), l: MLib::gen(g), r: MRes::gen(g), v: MViewFile::gen(g), g: MLogic::gen(g), st: Style::gen(g), res, fault: g.opt(1, 3, |g| (g.below(6) as u8, g.below(3) as u8)), via: g.below(2) as u8 })
}
fn key(v: &[RW]) -> Vec<String> { let mut k: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect(); k.sort(); k }
fn c09(c: &Whole, ctx: &mut Ctx) -> R<()> {
    let mut t = [c.p.encode(&c.st), c.f.encode(&c.st), c.l.encode(&c.st), c.r.encode(&c.st), c.v.encode(&c.st, false), c.g.encode(&c.st, &[], true)];
    let files = c.res.as_ref().map(|v| v.iter().map(|(w, n, t)| w.to_swrs(n, rtype(*t))).collect::<Vec<_>>());
    ctx.nontrivial(true);
    ctx.label_if(c.res.is_none(), "no resource files");
    if let Some((i, k)) = c.fault {
        // one entry that is not JSON of its kind
        let bad = ["{", "{\"unrelated\":1}", "not json"][k as usize];
        t[i as usize] = match i { 0 => bad.into(), 1 => format!("@activity\n{bad}\n@customview\n"), 2 => format!("@firebaseDB\n{bad}\n"), 3 => format!("@images\n{bad}\n@sounds\n@fonts\n"), 4 => format!("@main.xml\n{bad}\n"), _ => format!("@MainActivity.java_components\n{bad}\n") };
    }
    let s = t.clone();
    let parse = || -> Result<ps::SketchwareProject, ps::SketchwareProjectParseError> {
        let [a, b, cc, d, e, f] = s.clone();
        match (&files, c.via) {
            (Some(r), 0) => ps::SketchwareProject::parse(a, b, cc, d, e, f, r.clone()),
            (Some(r), _) => ps::SketchwareProject::parse_from(RawSketchwareProject::new(a, b, cc, d, e, f, r.clone())),
            (None, 0) => ps::SketchwareProject::parse_wo_res(a, b, cc, d, e, f),
            (None, _) => ps::SketchwareProject::parse_from(RawSketchwareProject::new_wo_res(a, b, cc, d, e, f)),
        }
    };
    let r = guard("parsing the project", parse)?;
    if let Some((i, _)) = c.fault {
        ctx.label(&format!("faulty {}", SLOTS[i as usize]));
        return match r {
            Ok(_) => bail!("a project with a malformed `{}` was accepted", SLOTS[i as usize]),
            Err(e) => if e.to_string().contains(SLOTS[i as usize]) { Ok(()) } else { bail!("the error does not name the data file `{}`: {}", SLOTS[i as usize], errs(&e)) },
        };
    }
    let p = r.map_err(|e| format!("parsing failed: {}", errs(&e)))?;
    let sep = |n: &str, e: String| format!("parsing `{n}` on its own failed: {e}");
    eq("project", &p.project, &ps::project::Project::parse(&t[0]).map_err(|e| sep("project", errs(&e)))?)?;
    eq("file", &p.file, &ps::file::File::parse(&t[1]).map_err(|e| sep("file", errs(&e)))?)?;
    eq("library", &p.library, &ps::library::Library::parse(&t[2]).map_err(|e| sep("library", errs(&e)))?)?;
    eq("resource", &p.resource, &ps::resource::Resource::parse(&t[3]).map_err(|e| sep("resource", errs(&e)))?)?;
    eq("view", &p.view, &ps::view::View::parse(&t[4]).map_err(|e| sep("view", errs(&e)))?)?;
    eq("logic", &p.logic, &ps::logic::Logic::parse(&t[5]).map_err(|e| sep("logic", errs(&e)))?)?;
    match (&p.resource_files, &files) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            let got: Vec<RW> = g.clone().into();
            eq("attached resource files", &key(&got), &key(w))?;
        }
        (g, w) => bail!("attached resource files: got {g:?}, expected {w:?}"),
    }
    let raw: RawSketchwareProject = guard("writing the project", || p.clone().try_into())?.map_err(|e: ps::SketchwareProjectReconstructionError| format!("writing failed: {}", errs(&e)))?;
    eq("written resource files", &raw.resource_files.as_ref().map(|v| key(v)), &files.as_ref().map(|v| key(v)))?;
    eq("written project", &MProject::decode(&raw.project)?, &c.p)?;
    c.f.same(&MFile::decode(&raw.file)?)?;
    c.l.same(&MLib::decode(&raw.library)?)?;
    c.r.same(&MRes::decode(&raw.resource)?)?;
    c.v.same(&MViewFile::decode(&raw.view)?)?;
    c.g.same(&MLogic::decode(&raw.logic)?)?;
    let again = ps::SketchwareProject::parse_from(raw).map_err(|e| format!("parsing the written project failed: {}", errs(&e)))?;
    eq("reparsed project", &again.project, &p.project)?;
    eq("reparsed file", &again.file, &p.file)?;
    eq("reparsed library", &again.library, &p.library)?;
    eq("reparsed resource", &again.resource, &p.resource)?;
    c.v.same(&view_of(&again.view))?;
    c.g.same(&MLogic::of(&again.logic)?)?;
    eq("reparsed resource files", &again.resource_files, &p.resource_files)
}
pub fn c09_prop() -> Prop {
    Prop { id: "C09", rule: "every case (six generated data files, with or without resource files)", assumptions: &["full names of attached resource files are unique within a kind"], subs: vec![Sub::new("whole", 60_000, 1_000_000, gen_whole, c09)] }
}
