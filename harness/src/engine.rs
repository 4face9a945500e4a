//! The search engine: runs sub-checks over generated cases in parallel, detects violations
//! (wrong result, panic, crash, hang), shrinks them and writes replay and evidence files.
//!
//! A run is split into a parent and a worker process, so that a stack overflow, an abort or an
//! endless loop in the code under test is an ordinary, attributable violation.
use crate::gen::{hash_str, mix, Gen};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R<T> = Result<T, String>;

/// What a check reports about a case besides its verdict
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub known_seen: BTreeSet<String>,
    known_listed: BTreeSet<String>,
}
impl Ctx {
    pub fn label(&mut self, l: &str) { *self.labels.entry(l.to_string()).or_default() += 1; }
    pub fn label_if(&mut self, c: bool, l: &str) { if c { self.label(l) } }
    pub fn nontrivial(&mut self, c: bool) { self.nontrivial |= c; }
    /// a deviation with this exact signature: accepted only if known_findings.txt lists it
    pub fn known(&mut self, sig: &str, msg: String) -> R<()> {
        if self.known_listed.contains(sig) { self.known_seen.insert(sig.to_string()); Ok(()) } else { Err(msg) }
    }
}

type GenFn = Box<dyn Fn(&mut Gen) -> Box<dyn Any + Send> + Send + Sync>;
type SerFn = Box<dyn Fn(&dyn Any) -> Value + Send + Sync>;
type HashFn = Box<dyn Fn(&dyn Any) -> u64 + Send + Sync>;
type DeFn = Box<dyn Fn(&Value) -> R<Box<dyn Any + Send>> + Send + Sync>;
type RunFn = Box<dyn Fn(&dyn Any, &mut Ctx) -> R<()> + Send + Sync>;

struct HashWriter(u64);
impl std::io::Write for HashWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3); } Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    gen: GenFn,
    ser: SerFn,
    hash: HashFn,
    de: DeFn,
    run: RunFn,
}
impl Sub {
    pub fn new<C: Serialize + DeserializeOwned + Send + 'static>(name: &'static str, quick: u64, thorough: u64, gen: fn(&mut Gen) -> C, run: fn(&C, &mut Ctx) -> R<()>) -> Sub {
        Sub {
            name, quick, thorough,
            gen: Box::new(move |g| Box::new(gen(g))),
            ser: Box::new(|c| serde_json::to_value(c.downcast_ref::<C>().unwrap()).expect("case serialises")),
            hash: Box::new(|c| { let mut h = HashWriter(0xcbf2_9ce4_8422_2325); serde_json::to_writer(&mut h, c.downcast_ref::<C>().unwrap()).expect("case serialises"); mix(h.0) }),
            de: Box::new(|v| serde_json::from_value::<C>(v.clone()).map(|c| Box::new(c) as Box<dyn Any + Send>).map_err(|e| e.to_string())),
            run: Box::new(move |c, ctx| run(c.downcast_ref::<C>().unwrap(), ctx)),
        }
    }
}

pub struct Prop { pub id: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub subs: Vec<Sub> }

pub struct Env { pub verif: PathBuf, pub seed: u64, pub tier: String, pub threads: usize }
impl Env {
    pub fn load() -> Env {
        let verif = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
        Env {
            verif,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough".into() } else { "quick".into() },
            threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)),
        }
    }
    pub fn known(&self, id: &str) -> BTreeMap<String, String> {
        // `known: property=<id> sig=<signature> <what fails>`
        let mut out = BTreeMap::new();
        for l in std::fs::read_to_string(self.verif.join("known_findings.txt")).unwrap_or_default().lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={id} sig=")) {
                if let Some((sig, what)) = rest.split_once(' ') { out.insert(sig.to_string(), what.to_string()); }
            }
        }
        out
    }
}

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
}

/// Runs `f`, turning a panic into an error message
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))
}

fn run_case(sub: &Sub, case: &dyn Any, known: &BTreeSet<String>) -> (R<()>, Ctx) {
    let mut ctx = Ctx { known_listed: known.clone(), ..Default::default() };
    let r = match catch_unwind(AssertUnwindSafe(|| (sub.run)(case, &mut ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    };
    (r, ctx)
}

fn case_seed(seed: u64, id: &str, sub: &str, index: u64) -> u64 { mix(mix(seed ^ hash_str(id)) ^ hash_str(sub) ^ mix(index)) }
fn case_size(seed: u64) -> u64 { const S: [u64; 16] = [1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 10, 14]; S[(mix(seed ^ 0x51) % 16) as usize] }

fn generate(sub: &Sub, seed: u64) -> (Box<dyn Any + Send>, Vec<u64>, u64) {
    let size = case_size(seed);
    let mut g = Gen::from_seed(seed, size);
    let c = (sub.gen)(&mut g);
    (c, g.rec, size)
}

// ------------------------------------------------------------------------------- shrinking

/// Minimises a failing choice sequence. `fails` returns the actually consumed choices when the
/// case built from the given choices still fails.
fn shrink(mut best: Vec<u64>, mut budget: usize, deadline: Instant, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut try_ = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut usize| -> bool {
        if *budget == 0 || Instant::now() > deadline { *budget = 0; return false }
        *budget -= 1;
        if let Some(used) = fails(&cand) {
            let n = if better(&used, &cand) { used } else { cand };
            if better(&n, best) { *best = n; return true }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 && budget > 0 {
                let lo = i.saturating_sub(k);
                let mut c = best[..lo].to_vec();
                c.extend_from_slice(&best[i..]);
                try_(c, &mut best, &mut budget);
                i = lo.min(best.len());
            }
            if k == 1 { break }
            k /= 2;
        }
        // zero chunks
        for k in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    try_(c, &mut best, &mut budget);
                }
                i += k;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo && budget > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_(c, &mut best, &mut budget) { lo = mid + 1; }
            }
            // a smaller length choice together with a deletion of what follows
            if i + 1 < best.len() && best[i] > 0 {
                for d in [1usize, 2, 4, 8] {
                    if i + 1 + d > best.len() { break }
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + d);
                    if try_(c, &mut best, &mut budget) { break }
                    if i >= best.len() || best[i] == 0 { break }
                }
            }
            i += 1;
        }
        if budget == 0 || best == before { break }
    }
    best
}

// ------------------------------------------------------------------------------- worker

struct Fail { sub: usize, index: u64, msg: String }

/// progress slots: 16 bytes per thread = (sub + 1, index)
fn slot(f: &std::fs::File, t: usize, sub: u64, index: u64) {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&sub.to_le_bytes());
    b[8..].copy_from_slice(&index.to_le_bytes());
    let _ = f.write_all_at(&b, (t * 16) as u64);
}

const STALL: u64 = 90;

pub fn worker(p: &Prop, env: &Env, work: &Path) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let known: BTreeSet<String> = env.known(p.id).into_keys().collect();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let progress = std::fs::File::create(work.join("progress")).expect("progress file");
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let acc: Mutex<(u64, HashSet<u64>, BTreeMap<String, u64>, BTreeSet<String>, Vec<Value>, BTreeMap<String, u64>)> = Mutex::new(Default::default());

    // committed regression cases first
    let mut regress = 0u64;
    if let Ok(rd) = std::fs::read_dir(env.verif.join("regress").join(p.id)) {
        let mut files: Vec<PathBuf> = rd.flatten().map(|e| e.path()).filter(|x| x.extension().map_or(false, |e| e == "json")).collect();
        files.sort();
        for f in files {
            let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(&f).unwrap_or_default()) else { continue };
            let Some(si) = p.subs.iter().position(|s| Some(s.name) == v["sub"].as_str()) else { continue };
            let Ok(c) = (p.subs[si].de)(&v["case"]) else { continue };
            regress += 1;
            let (r, ctx) = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, { let (sub, known) = (&p.subs[si], &known); move || run_case(sub, &*c, known) }).unwrap().join().unwrap());
            acc.lock().unwrap().3.extend(ctx.known_seen);
            if let Err(m) = r {
                let out = json!({"fail": {"sub": p.subs[si].name, "msg": m, "case": v["case"], "choices": [], "from": f.display().to_string()}});
                std::fs::write(work.join("result.json"), out.to_string()).unwrap();
                return 1;
            }
        }
    }

    for (si, sub) in p.subs.iter().enumerate() {
        let n = ((if env.tier == "thorough" { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let fail_at = AtomicU64::new(u64::MAX);
        let starts: Vec<AtomicU64> = (0..env.threads).map(|_| AtomicU64::new(0)).collect();
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..env.threads).map(|t| {
                let (next, fail_at, fail, acc, known, progress, starts) = (&next, &fail_at, &fail, &acc, &known, &progress, &starts);
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                    let mut evals = 0u64;
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut knowns: BTreeSet<String> = BTreeSet::new();
                    let mut samples: Vec<Value> = vec![];
                    'out: loop {
                        let lo = next.fetch_add(8, Ordering::Relaxed);
                        if lo >= n { break }
                        for i in lo..(lo + 8).min(n) {
                            if i > fail_at.load(Ordering::Relaxed) { break 'out }
                            slot(progress, t, si as u64 + 1, i);
                            starts[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let (c, _, _) = generate(sub, case_seed(env.seed, p.id, sub.name, i));
                            let (r, ctx) = run_case(sub, &*c, known);
                            evals += 1;
                            for (k, v) in ctx.labels { *labels.entry(format!("{}:{}", sub.name, k)).or_default() += v; }
                            knowns.extend(ctx.known_seen);
                            if ctx.nontrivial {
                                let h = mix((sub.hash)(&*c) ^ hash_str(sub.name));
                                if seen.insert(h) && samples.len() < 1 && i % 7 == 3 { samples.push(json!({"sub": sub.name, "index": i, "case": clip_value((sub.ser)(&*c))})); }
                            }
                            if let Err(msg) = r {
                                fail_at.fetch_min(i, Ordering::Relaxed);
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map_or(true, |x| x.index > i) { *f = Some(Fail { sub: si, index: i, msg }) }
                                break 'out;
                            }
                        }
                    }
                    starts[t].store(0, Ordering::Relaxed);
                    slot(progress, t, 0, 0);
                    let mut a = acc.lock().unwrap();
                    a.0 += evals;
                    a.1.extend(seen);
                    for (k, v) in labels { *a.2.entry(k).or_default() += v; }
                    a.3.extend(knowns);
                    if a.4.iter().filter(|s| s["sub"] == sub.name).count() < 2 { a.4.extend(samples); }
                    *a.5.entry(sub.name.to_string()).or_default() += evals;
                }).expect("spawn")
            }).collect();
            // watchdog
            let (starts, done) = (&starts, &done);
            let wd = s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    let now = t0.elapsed().as_millis() as u64;
                    if starts.iter().any(|x| { let v = x.load(Ordering::Relaxed); v != 0 && now > v + STALL * 1000 }) { std::process::exit(42) }
                }
            });
            for h in hs { let _ = h.join(); }
            done.store(true, Ordering::Relaxed);
            wd.thread().unpark();
        });
        if fail.lock().unwrap().is_some() { break }
    }

    let a = acc.into_inner().unwrap();
    let mut out = json!({
        "evaluations": a.0 + regress, "distinct_nontrivial": a.1.len(), "labels": a.2, "known": a.3, "samples": a.4, "per_sub": a.5, "regressions_replayed": regress,
    });
    let failed = fail.into_inner().unwrap();
    if let Some(f) = failed {
        let sub = &p.subs[f.sub];
        let seed = case_seed(env.seed, p.id, sub.name, f.index);
        // shrink in a thread with a large stack, in-process; a crash or a hang while shrinking is
        // handled by the parent, which then keeps the unshrunk case
        let (case, choices) = generate_unshrunk(sub, seed);
        std::fs::write(work.join("result.json"), {
            let mut o = out.clone();
            o["fail"] = json!({"sub": sub.name, "msg": f.msg, "case": case, "choices": choices, "index": f.index});
            o.to_string()
        }).unwrap();
        let best = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
            let size = case_size(seed);
            let deadline = Instant::now() + Duration::from_secs(60);
            let best = shrink(choices.clone(), 20_000, deadline, |c| {
                let mut g = Gen::from_choices(c.to_vec(), size);
                let case = (sub.gen)(&mut g);
                let (r, _) = run_case(sub, &*case, &known);
                r.err().map(|_| g.rec)
            });
            let mut g = Gen::from_choices(best.clone(), size);
            let case = (sub.gen)(&mut g);
            let (r, _) = run_case(sub, &*case, &known);
            r.err().map(|m| (m, (sub.ser)(&*case), best))
        }).unwrap().join().unwrap());
        out["fail"] = match best {
            Some((m, c, ch)) => json!({"sub": sub.name, "msg": m, "case": c, "choices": ch, "index": f.index}),
            None => json!({"sub": sub.name, "msg": f.msg, "case": case, "choices": choices, "index": f.index}),
        };
        std::fs::write(work.join("result.json"), out.to_string()).unwrap();
        return 1;
    }
    std::fs::write(work.join("result.json"), out.to_string()).unwrap();
    0
}

fn generate_unshrunk(sub: &Sub, seed: u64) -> (Value, Vec<u64>) {
    let (c, ch, _) = generate(sub, seed);
    ((sub.ser)(&*c), ch)
}

fn clip_value(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 { v } else { Value::String(s.chars().take(1500).collect::<String>() + "…") }
}

/// `one <id> <sub index> <seed> [choices file]`: runs a single case; exit 0 held, 1 violated
pub fn one(p: &Prop, env: &Env, si: usize, seed: u64, choices: Option<&Path>) -> i32 {
    install_panic_hook();
    let known: BTreeSet<String> = env.known(p.id).into_keys().collect();
    let sub = &p.subs[si];
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
        let size = case_size(seed);
        let mut g = match choices {
            None => Gen::from_seed(seed, size),
            Some(f) => Gen::from_choices(serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap(), size),
        };
        let c = (sub.gen)(&mut g);
        if let Some(f) = choices { std::fs::write(f.with_extension("case"), json!({"case": (sub.ser)(&*c), "used": g.rec}).to_string()).unwrap(); }
        run_case(sub, &*c, &known).0
    }).unwrap().join().unwrap());
    match r { Ok(()) => 0, Err(m) => { eprintln!("{m}"); 1 } }
}

pub fn replay(props: &[Prop], env: &Env, file: &Path) -> i32 {
    install_panic_hook();
    let v: Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) { Ok(v) => v, Err(e) => { eprintln!("cannot read replay: {e}"); return 2 } };
    let Some(p) = props.iter().find(|p| Some(p.id) == v["property"].as_str()) else { eprintln!("unknown property"); return 2 };
    let Some(sub) = p.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()) else { eprintln!("unknown sub-check"); return 2 };
    let known: BTreeSet<String> = env.known(p.id).into_keys().collect();
    let c = match (sub.de)(&v["case"]) { Ok(c) => c, Err(e) => { eprintln!("case does not deserialise: {e}"); return 2 } };
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, { let known = &known; move || run_case(sub, &*c, known).0 }).unwrap().join().unwrap());
    match r {
        Ok(()) => { println!("replay: property {} holds on this case", p.id); 0 }
        Err(m) => { println!("{m}"); println!("VIOLATION property={} replay={}", p.id, file.display()); 1 }
    }
}

// ------------------------------------------------------------------------------- parent

fn sh(script: &str, args: &[&std::ffi::OsStr], quiet: bool) -> std::io::Result<std::process::ExitStatus> {
    let exe = std::env::current_exe()?;
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg(script).arg(exe);
    c.args(args);
    c.stdin(Stdio::null());
    if quiet { c.stdout(Stdio::null()).stderr(Stdio::null()); }
    c.status()
}

pub fn check(p: &Prop, env: &Env) -> i32 {
    let t0 = Instant::now();
    let work = std::env::temp_dir().join(format!("swrs-verif-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work directory");
    let code = check_in(p, env, &work, t0);
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn check_in(p: &Prop, env: &Env, work: &Path, t0: Instant) -> i32 {
    let st = match sh("ulimit -c 0; ulimit -v 20000000; exec \"$0\" \"$@\"", &["worker".as_ref(), p.id.as_ref(), work.as_os_str()], false) { Ok(s) => s, Err(e) => { eprintln!("cannot start the worker: {e}"); return 2 } };
    let result: Option<Value> = std::fs::read_to_string(work.join("result.json")).ok().and_then(|t| serde_json::from_str(&t).ok());
    let mut out = result.clone().unwrap_or_else(|| json!({}));
    let mut verdict = match (st.code(), &result) {
        (Some(0), Some(_)) => Ok(None),
        (Some(1), Some(r)) if r.get("fail").is_some() => Ok(Some(r["fail"].clone())),
        _ => Err(format!("{st}")),
    };
    if let Err(how) = &verdict {
        // the worker crashed or stalled: either while shrinking an already found failure …
        if let Some(f) = result.as_ref().and_then(|r| r.get("fail")) { verdict = Ok(Some(f.clone())); }
        else {
            // … or in one of the cases in flight
            eprintln!("worker ended abnormally ({how}); examining the cases in flight");
            let b = std::fs::read(work.join("progress")).unwrap_or_default();
            let mut found = None;
            for ch in b.chunks_exact(16) {
                let (s, i) = (u64::from_le_bytes(ch[..8].try_into().unwrap()), u64::from_le_bytes(ch[8..].try_into().unwrap()));
                if s == 0 || s as usize > p.subs.len() { continue }
                if let Some(f) = crash_case(p, env, work, s as usize - 1, i) { found = Some(f); break }
            }
            match found {
                Some(f) => verdict = Ok(Some(f)),
                None => { eprintln!("no case in flight reproduces it; giving no answer"); return 2 }
            }
        }
    }
    let fail = verdict.unwrap();
    let known = env.known(p.id);
    let seen: Vec<String> = out["known"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
    for s in &seen { println!("KNOWN-FINDING: property={} {}", p.id, known.get(s).cloned().unwrap_or_default()); }

    let mut code = 0;
    if let Some(f) = &fail {
        code = 1;
        let dir = env.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", p.id, f["sub"].as_str().unwrap_or("x"), env.seed));
        let rep = json!({"property": p.id, "sub": f["sub"], "seed": env.seed, "index": f["index"], "message": f["msg"], "case": f["case"], "choices": f["choices"]});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("{}: {}: {}", p.id, f["sub"].as_str().unwrap_or(""), f["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let ev = json!({
        "property": p.id, "tier": env.tier, "seed": env.seed, "level": "exploration",
        "coverage": {
            "evaluations": out["evaluations"].take().as_u64().unwrap_or(0),
            "distinct_nontrivial": out["distinct_nontrivial"].take().as_u64().unwrap_or(0),
            "rule": p.rule,
            "samples": out["samples"].take().as_array().cloned().unwrap_or_default(),
            "cases_per_subcheck": out["per_sub"].take(),
            "labels": out["labels"].take(),
            "regressions_replayed": out["regressions_replayed"].take(),
            "known_findings_seen": seen,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": code,
    });
    let _ = std::fs::create_dir_all(env.verif.join("evidence"));
    if let Err(e) = std::fs::write(env.verif.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) { eprintln!("cannot write evidence: {e}"); return if code == 1 { 1 } else { 2 } }
    if code == 0 {
        println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", p.id, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], t0.elapsed().as_secs_f64());
    }
    code
}

/// Re-runs one case in a process of its own; if it dies by a signal (stack overflow, abort, CPU
/// limit) or fails, shrinks it with subprocess runs.
fn crash_case(p: &Prop, env: &Env, work: &Path, si: usize, index: u64) -> Option<Value> {
    let sub = &p.subs[si];
    let seed = case_seed(env.seed, p.id, sub.name, index);
    let (sis, seeds) = (si.to_string(), seed.to_string());
    let run = |file: Option<&Path>, cpu: u32| -> Option<std::process::ExitStatus> {
        let mut a: Vec<&std::ffi::OsStr> = vec!["one".as_ref(), p.id.as_ref(), sis.as_ref(), seeds.as_ref()];
        if let Some(f) = file { a.push(f.as_os_str()) }
        sh(&format!("ulimit -c 0; ulimit -v 8000000; ulimit -t {cpu}; exec \"$0\" \"$@\""), &a, true).ok()
    };
    let st = run(None, 60)?;
    if st.success() { return None }
    if st.code().is_some() && st.code() != Some(1) { return None }
    let how = |st: &std::process::ExitStatus| match st.signal() {
        Some(s) if s == 24 || s == 9 => "does not terminate (60 s of CPU time)".to_string(),
        Some(6) => "aborted (stack overflow or out of memory)".to_string(),
        Some(11) => "crashed (segmentation fault / stack overflow)".to_string(),
        Some(s) => format!("killed by signal {s}"),
        None => "failed".to_string(),
    };
    let msg = how(&st);
    let (case0, choices0) = generate_unshrunk(sub, seed);
    let hang = matches!(st.signal(), Some(24) | Some(9));
    let cf = work.join("cand.choices");
    let best = shrink(choices0.clone(), if hang { 20 } else { 300 }, Instant::now() + Duration::from_secs(120), |c| {
        std::fs::write(&cf, serde_json::to_string(c).unwrap()).ok()?;
        let st = run(Some(&cf), 5)?;
        if st.signal().is_some() || st.code() == Some(1) {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(cf.with_extension("case")).ok()?).ok()?;
            serde_json::from_value(v["used"].clone()).ok()
        } else { None }
    });
    let (mut case, mut choices) = (case0, choices0);
    if std::fs::write(&cf, serde_json::to_string(&best).unwrap()).is_ok() && run(Some(&cf), if hang { 60 } else { 10 }).map_or(false, |s| !s.success()) {
        if let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(cf.with_extension("case")).unwrap_or_default()) { case = v["case"].clone(); choices = best; }
    }
    Some(json!({"sub": sub.name, "msg": msg, "case": case, "choices": choices, "index": index}))
}
