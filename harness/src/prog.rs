//! Block programs: a model, a generator, the reference encoding into block lists, a reference
//! interpreter of block lists, and conversions from and to the library's `Blocks`.
use crate::gen::{mix, Gen};
use crate::raw::{bail, color_of, mkcolor, word, MRawBlock, R};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use swrs::api::block as ab;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MBlock { pub color: u32, pub op: String, pub items: Vec<MItem>, pub ss1: Option<Vec<MBlock>>, pub ss2: Option<Vec<MBlock>>, pub ty: MTy }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MTy { Regular, Bool, Str, Num, View(String), Comp(String), ListStr, ListNum, One, Two, End }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MItem { Text(String), Arg { kind: char, name: Option<String>, val: MVal } }
/// literals are kept as text: for `d` a spelling of a number, for `b` true/false
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MVal { Empty, Lit(String), Block(Box<MBlock>) }
pub type MProg = Vec<MBlock>;

pub const OPERATOR: u32 = 0xff5c_b722;
const CATS: [u32; 9] = [0xffee_7d16, 0xffcc_5b22, 0xffe1_a92a, OPERATOR, 0xff23_b9a9, 0xffa1_887f, 0xff4a_6cd4, 0xfffc_a5e2, 0xff8a_55d7];

// ------------------------------------------------------------------------------ generation

/// a spec word: no space, not a parameter
pub fn spec_word(g: &mut Gen) -> String {
    match g.below(12) {
        0..=5 => g.ident(),
        6 => g.pick(&["%", "=", ">", "+", "and", "or", "not", "@", "@main", "@10", ":", "a:b", "100%", "50%s", "x%", "\"", "\\", "true", "List"]).to_string(),
        7 => g.uident(),
        8 => { let w: String = g.with_size(4, |g| g.vec(12, |g| g.ch())).into_iter().filter(|c| *c != ' ').collect(); if w.starts_with('%') { format!("w{w}") } else { w } }
        _ => { let w = word(g); if w.starts_with('%') && w != "%" { format!("p{w}") } else { w } }
    }
}
pub fn arg_name(g: &mut Gen) -> String {
    match g.below(6) {
        0 => g.pick(&["inputOnly", "view", "textview", "varInt", "varStr", "list", "s", "d", "b", "m", "a.b", ".", "..", "%s", "%", "x.y.z", "1", "é"]).to_string(),
        1 => { let w: String = g.uident(); w }
        2 => word(g),
        _ => g.ident(),
    }
}
/// a spelling of a finite number
pub fn num_text(g: &mut Gen) -> String {
    match g.below(10) {
        0..=3 => g.range(-1000, 100_000).to_string(),
        4 => g.pick(&["007", "+5", ".5", "5.", "1e3", "1E3", "-0", "0.0", "1e-7", "2147483648", "-2147483649", "9007199254740993", "123456789012345678901234567890", "1.7976931348623157e308", "5e-324"]).to_string(),
        _ => { let f = g.f64(); if g.bool() { format!("{f}") } else { format!("{f:?}") } }
    }
}
/// a string or menu literal (cannot start with `@`, which denotes a block)
pub fn str_lit(g: &mut Gen) -> String {
    let s = g.text();
    if s.starts_with('@') { format!("_{s}") } else { s }
}

pub struct ProgCfg {
    /// remaining block budget
    pub budget: usize,
    /// restrict texts to what survives as a saved moreblock/event (no restriction is needed for
    /// JSON-stored specs, so this only bounds sizes)
    pub depth: usize,
}

impl MBlock {
    fn gen(g: &mut Gen, c: &mut ProgCfg, depth: usize, arg: Option<char>) -> MBlock {
        c.budget = c.budget.saturating_sub(1);
        let n_items = [1, 2, 3, 4, 5, 6, 7, 0][g.weighted(&[30, 40, 40, 30, 20, 10, 10, 3])];
        let mut items = vec![];
        for _ in 0..n_items {
            items.push(if g.chance(2, 5) { MItem::gen_arg(g, c, depth) } else { MItem::Text(spec_word(g)) });
        }
        if g.chance(1, 60) { for _ in 0..g.range(5, 20) { items.push(MItem::gen_arg(g, c, depth)); } }
        let stacks = depth < c.depth && c.budget > 0;
        let mut ss1 = None;
        let mut ss2 = None;
        let ty = match arg {
            None => match g.weighted(&[10, 4, 3, 1, 1]) {
                0 => MTy::Regular,
                1 => { if stacks { ss1 = Some(MBlock::gen_list(g, c, depth + 1)) } MTy::One }
                2 => { if stacks { ss1 = Some(MBlock::gen_list(g, c, depth + 1)); ss2 = Some(MBlock::gen_list(g, c, depth + 1)) } MTy::Two }
                3 => MTy::End,
                _ => MTy::gen(g),
            },
            Some(k) => if g.chance(1, 4) { MTy::gen(g) } else { match k { 's' => MTy::Str, 'd' => MTy::Num, 'b' => MTy::Bool, _ => match g.below(4) { 0 => MTy::View(g.ident()), 1 => MTy::Comp(g.ident()), 2 => MTy::ListStr, _ => MTy::ListNum } } },
        };
        if stacks && g.chance(1, 40) { ss1 = Some(MBlock::gen_list(g, c, depth + 1)); }
        if stacks && g.chance(1, 40) { ss2 = Some(MBlock::gen_list(g, c, depth + 1)); }
        if ss1.as_ref().map_or(false, |x| x.is_empty()) && g.chance(1, 2) { ss1 = None }
        if ss2.as_ref().map_or(false, |x| x.is_empty()) && g.chance(1, 2) { ss2 = None }
        if ss1.is_some() && ss2.is_some() && g.chance(1, 6) { ss1 = None }
        let op = match g.below(8) { 0 => g.text(), 1 => g.pick(&["true", "false", "if", "ifElse", "repeat", "setVarInt", "getVar", "+", "=", "", "definedFunc"]).to_string(), _ => g.ident() };
        // as a boolean argument, `true` and `false` are the literals
        let op = if arg == Some('b') && (op == "true" || op == "false") { format!("{op}_") } else { op };
        let color = if g.chance(2, 3) { *g.pick(&CATS) } else { g.color() };
        MBlock { color, op, items, ss1, ss2, ty }
    }
    fn gen_list(g: &mut Gen, c: &mut ProgCfg, depth: usize) -> MProg {
        let mut out = vec![];
        let n = if depth == 0 { g.size.max(1) + 1 } else { 2 };
        while c.budget > 0 && g.chance(n, n + 1) { out.push(MBlock::gen(g, c, depth, None)); }
        out
    }
}
impl MTy {
    fn gen(g: &mut Gen) -> MTy {
        match g.below(11) { 0 => MTy::Regular, 1 => MTy::Bool, 2 => MTy::Str, 3 => MTy::Num, 4 => MTy::View(g.text()), 5 => MTy::Comp(g.text()), 6 => MTy::ListStr, 7 => MTy::ListNum, 8 => MTy::One, 9 => MTy::Two, _ => MTy::End }
    }
    pub fn code(&self) -> &'static str {
        match self { MTy::Regular => " ", MTy::Bool => "b", MTy::Str => "s", MTy::Num => "d", MTy::View(_) => "v", MTy::Comp(_) => "p", MTy::ListStr | MTy::ListNum => "l", MTy::One => "c", MTy::Two => "e", MTy::End => "f" }
    }
    pub fn type_name(&self) -> String {
        match self { MTy::View(n) | MTy::Comp(n) => n.clone(), MTy::ListStr => "List String".into(), MTy::ListNum => "List Number".into(), _ => String::new() }
    }
    pub fn of(code: &str, tn: &str) -> R<MTy> {
        Ok(match code { " " => MTy::Regular, "b" => MTy::Bool, "s" => MTy::Str, "d" => MTy::Num, "v" => MTy::View(tn.into()), "p" => MTy::Comp(tn.into()), "l" => match tn { "List String" => MTy::ListStr, "List Number" => MTy::ListNum, _ => bail!("list block with type name {tn:?}") }, "c" => MTy::One, "e" => MTy::Two, "f" => MTy::End, _ => bail!("unknown block type {code:?}") })
    }
}
impl MItem {
    pub fn gen_arg(g: &mut Gen, c: &mut ProgCfg, depth: usize) -> MItem {
        let kind = *g.pick(&['s', 'd', 'b', 'm']);
        let name = if kind == 'm' || g.chance(1, 3) { Some(arg_name(g)) } else { None };
        let val = if c.budget > 0 && depth < c.depth && g.chance(1, 3) { MVal::Block(Box::new(MBlock::gen(g, c, depth + 1, Some(kind)))) }
            else if g.chance(1, 5) { MVal::Empty }
            else { MVal::Lit(match kind { 's' | 'm' => str_lit(g), 'd' => num_text(g), _ => g.pick(&["true", "false"]).to_string() }) };
        MItem::Arg { kind, name, val }
    }
    pub fn spec(&self) -> String {
        match self {
            MItem::Text(t) => t.clone(),
            MItem::Arg { kind, name: None, .. } => format!("%{kind}"),
            MItem::Arg { kind, name: Some(n), .. } => format!("%{kind}.{n}"),
        }
    }
}
pub fn spec_of(items: &[MItem]) -> String { items.iter().map(|i| i.spec()).collect::<Vec<_>>().join(" ") }

pub fn gen_prog(g: &mut Gen) -> MProg {
    let (budget, depth) = match g.weighted(&[600, 400, 60, 20, 1]) { 0 => (8, 3), 1 => (25, 5), 2 => (120, 12), 3 => (300, 30), _ => (1500, 60) };
    gen_prog_cfg(g, budget, depth)
}
pub fn gen_prog_cfg(g: &mut Gen, budget: usize, depth: usize) -> MProg {
    let mut c = ProgCfg { budget, depth };
    if budget > 100 && g.bool() {
        // a long flat chain or a deep nest
        return if g.bool() {
            (0..budget).map(|_| { let mut c = ProgCfg { budget: 1, depth: 1 }; MBlock::gen(g, &mut c, 1, None) }).collect()
        } else {
            let mut cur: MProg = vec![];
            for _ in 0..g.range(10, if budget > 1000 { 250 } else { 80 }) {
                let mut c = ProgCfg { budget: 1, depth: 0 };
                let mut b = MBlock::gen(g, &mut c, 1, None);
                match g.below(4) {
                    0 => b.ss1 = Some(std::mem::take(&mut cur)),
                    1 => b.ss2 = Some(std::mem::take(&mut cur)),
                    _ => { if cur.len() == 1 { let inner = cur.pop().unwrap(); let inner = MBlock { op: if inner.op == "true" || inner.op == "false" { "op".into() } else { inner.op }, ..inner }; b.items.push(MItem::Arg { kind: *g.pick(&['s', 'd', 'b', 'm']), name: Some("n".into()), val: MVal::Block(Box::new(inner)) }) } else { b.ss1 = Some(std::mem::take(&mut cur)) } }
                }
                cur = vec![b];
                if g.chance(1, 3) { let mut c = ProgCfg { budget: 1, depth: 0 }; cur.push(MBlock::gen(g, &mut c, 1, None)); }
            }
            cur
        };
    }
    MBlock::gen_list(g, &mut c, 0)
}

pub fn count_blocks(p: &[MBlock]) -> usize { p.iter().map(|b| 1 + b.items.iter().map(|i| match i { MItem::Arg { val: MVal::Block(b), .. } => count_blocks(std::slice::from_ref(b)), _ => 0 }).sum::<usize>() + b.ss1.as_deref().map_or(0, count_blocks) + b.ss2.as_deref().map_or(0, count_blocks)).sum() }
pub fn has_args(p: &[MBlock]) -> bool { p.iter().any(|b| b.items.iter().any(|i| matches!(i, MItem::Arg { val: MVal::Block(_), .. })) || b.ss1.as_deref().map_or(false, has_args) || b.ss2.as_deref().map_or(false, has_args)) }
pub fn has_stacks(p: &[MBlock]) -> bool { p.iter().any(|b| b.ss1.as_ref().map_or(false, |s| !s.is_empty()) || b.ss2.as_ref().map_or(false, |s| !s.is_empty())) }
pub fn depth(p: &[MBlock]) -> usize { p.iter().map(|b| 1 + b.items.iter().map(|i| match i { MItem::Arg { val: MVal::Block(b), .. } => depth(std::slice::from_ref(b)), _ => 0 }).max().unwrap_or(0).max(b.ss1.as_deref().map_or(0, depth)).max(b.ss2.as_deref().map_or(0, depth))).max().unwrap_or(0) }

// ------------------------------------------------------------------------------ normal form

/// Normal form under the equivalences the properties grant: an empty nested stack is no stack,
/// text items are single words, an absent string or menu argument is the empty string, numbers
/// compare by value.
pub fn canon(p: &[MBlock]) -> MProg {
    p.iter().map(|b| {
        let st = |s: &Option<MProg>| s.as_ref().filter(|s| !s.is_empty()).map(|s| canon(s));
        let mut items = vec![];
        for i in &b.items {
            match i {
                MItem::Text(t) => for w in t.split(' ') { items.push(MItem::Text(w.to_string())) },
                MItem::Arg { kind, name, val } => items.push(MItem::Arg { kind: *kind, name: name.clone(), val: canon_val(*kind, val) }),
            }
        }
        if items.is_empty() { items.push(MItem::Text(String::new())) } // both are the empty spec
        MBlock { color: b.color, op: b.op.clone(), items, ss1: st(&b.ss1), ss2: st(&b.ss2), ty: b.ty.clone() }
    }).collect()
}
pub fn canon_val(kind: char, v: &MVal) -> MVal {
    match v {
        MVal::Block(b) => MVal::Block(Box::new(canon(std::slice::from_ref(b)).pop().unwrap())),
        MVal::Empty if kind == 's' || kind == 'm' => MVal::Lit(String::new()),
        MVal::Empty => MVal::Empty,
        MVal::Lit(s) if kind == 'd' => MVal::Lit(num_key(s)),
        MVal::Lit(s) => MVal::Lit(s.clone()),
    }
}
pub fn num_key(s: &str) -> String { match s.parse::<f64>() { Ok(f) => format!("{:?}", if f == 0.0 { 0.0 } else { f }), Err(_) => format!("not a number: {s}") } }

pub fn same_prog(what: &str, got: &[MBlock], want: &[MBlock]) -> R<()> {
    let (g, w) = (canon(got), canon(want));
    same_at(what, &g, &w)
}
fn same_at(at: &str, got: &[MBlock], want: &[MBlock]) -> R<()> {
    use crate::raw::{clip, eq};
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g == w { continue }
        let at = format!("{at}/{i}");
        eq(&format!("{at} colour"), &g.color, &w.color)?;
        eq(&format!("{at} opcode"), &g.op, &w.op)?;
        eq(&format!("{at} type"), &g.ty, &w.ty)?;
        eq(&format!("{at} spec"), &spec_of(&g.items), &spec_of(&w.items))?;
        eq(&format!("{at} number of items"), &g.items.len(), &w.items.len())?;
        for (k, (a, b)) in g.items.iter().zip(&w.items).enumerate() {
            if a == b { continue }
            if let (MItem::Arg { val: MVal::Block(x), .. }, MItem::Arg { val: MVal::Block(y), .. }) = (a, b) { same_at(&format!("{at}.arg{k}"), std::slice::from_ref(x), std::slice::from_ref(y))?; }
            eq(&format!("{at} item {k}"), a, b)?;
        }
        for (n, a, b) in [("ss1", &g.ss1, &w.ss1), ("ss2", &g.ss2, &w.ss2)] {
            match (a, b) {
                (Some(a), Some(b)) => same_at(&format!("{at}.{n}"), a, b)?,
                (None, None) => {}
                _ => bail!("{at} {n}: got {}, expected {}", if a.is_some() { "a stack" } else { "no stack" }, if b.is_some() { "a stack" } else { "no stack" }),
            }
        }
        bail!("{at}: got {}, expected {}", clip(&format!("{g:?}")), clip(&format!("{w:?}")));
    }
    if got.len() != want.len() { bail!("{at}: {} blocks, expected {}", got.len(), want.len()) }
    Ok(())
}

// ------------------------------------------------------------------------------ reference encoding

/// How a program is laid out as a block list. Seed 0: consecutive ids from 10, depth-first order.
pub struct Lay { rng: u64, seed: u64, ids: HashSet<u32>, next: u32, inline_bool: bool }
impl Lay {
    pub fn new(seed: u64) -> Lay { Lay { rng: mix(seed), seed, ids: HashSet::new(), next: 10, inline_bool: seed != 0 && mix(seed ^ 77) % 3 == 0 } }
    fn r(&mut self, n: u64) -> u64 { self.rng = mix(self.rng); self.rng % n }
    fn id(&mut self) -> u32 {
        if self.seed == 0 { self.next += 1; return self.next - 1 }
        loop {
            let v = match self.seed % 4 { 0 => self.r(1 << 31) as u32, 1 => self.r(5000) as u32, 2 => { self.next += 1; self.next + 1000 - 2 * (self.next.min(500)) } _ => match self.r(4) { 0 => i32::MAX as u32 - self.r(1000) as u32, 1 => self.r(300) as u32, _ => self.r(100_000) as u32 } };
            if self.ids.insert(v) { return v }
            self.next += 1;
        }
    }
    fn neg(&mut self) -> i32 { if self.seed == 0 || self.r(8) != 0 { -1 } else { -1 - self.r(1000) as i32 } }

    fn chain(&mut self, p: &[MBlock], out: &mut Vec<MRawBlock>) -> i32 {
        if p.is_empty() { return self.neg() }
        let ids: Vec<u32> = p.iter().map(|_| self.id()).collect();
        for (i, b) in p.iter().enumerate() {
            let next = if i + 1 < p.len() { ids[i + 1] as i32 } else { self.neg() };
            self.block(b, ids[i], next, out);
        }
        ids[0] as i32
    }
    fn block(&mut self, b: &MBlock, id: u32, next: i32, out: &mut Vec<MRawBlock>) {
        let at = out.len();
        out.push(MRawBlock { color: b.color, id: id.to_string(), next, op: b.op.clone(), params: vec![], spec: spec_of(&b.items), ss1: -1, ss2: -1, ty: b.ty.code().into(), tn: b.ty.type_name() });
        let mut params = vec![];
        for it in &b.items {
            if let MItem::Arg { kind, val, .. } = it {
                params.push(match val {
                    MVal::Empty => String::new(),
                    MVal::Lit(s) if *kind == 'b' && !self.inline_bool => {
                        let id = self.id();
                        let n = self.neg();
                        out.push(MRawBlock { color: OPERATOR, id: id.to_string(), next: n, op: s.clone(), params: vec![], spec: s.clone(), ss1: -1, ss2: -1, ty: "b".into(), tn: String::new() });
                        format!("@{id}")
                    }
                    MVal::Lit(s) => s.clone(),
                    MVal::Block(x) => { let id = self.id(); let n = self.neg(); self.block(x, id, n, out); format!("@{id}") }
                });
            }
        }
        out[at].params = params;
        let s1 = match &b.ss1 { Some(s) => self.chain(s, out), None => self.neg() };
        let s2 = match &b.ss2 { Some(s) => self.chain(s, out), None => self.neg() };
        out[at].ss1 = s1;
        out[at].ss2 = s2;
    }
}
/// the block list of a program
pub fn encode(p: &[MBlock], seed: u64) -> Vec<MRawBlock> {
    let mut l = Lay::new(seed);
    let mut out = vec![];
    l.chain(p, &mut out);
    if seed != 0 && out.len() > 2 && l.r(2) == 0 {
        for i in (2..out.len()).rev() { let j = 1 + l.r(i as u64) as usize; out.swap(i, j); }
    }
    out
}

// ------------------------------------------------------------------------------ reference interpretation

/// splits a spec into (word | kind, name); Err for an unknown parameter kind
pub fn parse_spec(s: &str) -> R<Vec<(Option<char>, String)>> {
    let mut out = vec![];
    for w in s.split(' ') {
        let cs: Vec<char> = w.chars().collect();
        if cs.len() > 1 && cs[0] == '%' {
            if !['s', 'd', 'b', 'm'].contains(&cs[1]) { bail!("unknown parameter kind in {w:?}") }
            let name = if cs.len() == 2 { String::new() } else if cs.len() > 3 && cs[2] == '.' { cs[3..].iter().collect() } else { bail!("odd parameter {w:?}") };
            if cs[1] == 'm' && name.is_empty() { bail!("menu without name") }
            out.push((Some(cs[1]), name));
        } else { out.push((None, w.to_string())) }
    }
    Ok(out)
}

/// Interprets a block list, demanding well-formedness: unique numeric ids, every reference
/// resolves, every block but the first is referenced exactly once.
pub fn interpret(bs: &[MRawBlock]) -> R<MProg> {
    let mut by: HashMap<u32, &MRawBlock> = HashMap::new();
    for b in bs {
        let id: u32 = match b.id.parse::<u32>() { Ok(i) if i.to_string() == b.id => i, _ => bail!("block id {:?} is not a plain number", b.id) };
        if by.insert(id, b).is_some() { bail!("block id {id} is used twice") }
    }
    if bs.is_empty() { return Ok(vec![]) }
    let mut used = HashSet::new();
    let p = chain(bs[0].id.parse().unwrap(), &by, &mut used)?;
    if used.len() != bs.len() { bail!("{} of {} blocks are not reachable from the first one", bs.len() - used.len(), bs.len()) }
    Ok(p)
}
fn chain(start: u32, by: &HashMap<u32, &MRawBlock>, used: &mut HashSet<u32>) -> R<MProg> {
    let mut out = vec![];
    let mut cur = start;
    loop {
        let (b, next) = one(cur, by, used)?;
        out.push(b);
        if next < 0 { return Ok(out) }
        cur = next as u32;
    }
}
fn one(id: u32, by: &HashMap<u32, &MRawBlock>, used: &mut HashSet<u32>) -> R<(MBlock, i32)> {
    let Some(b) = by.get(&id) else { bail!("reference to block {id}, which is not in the list") };
    if !used.insert(id) { bail!("block {id} is referenced more than once") }
    let mut items = vec![];
    let mut ps = b.params.iter();
    for (k, n) in parse_spec(&b.spec)? {
        let Some(kind) = k else { items.push(MItem::Text(n)); continue };
        let Some(p) = ps.next() else { bail!("block {id}: fewer parameters than the spec {:?} has", b.spec) };
        let val = if let Some(r) = p.strip_prefix('@') {
            let rid: u32 = r.parse().map_err(|_| format!("block {id}: bad reference {p:?}"))?;
            let (x, nx) = one(rid, by, used)?;
            if nx >= 0 { bail!("argument block {rid} has a next block") }
            if kind == 'b' && (x.op == "true" || x.op == "false") {
                if x.ty != MTy::Bool || x.color != OPERATOR || x.items != [MItem::Text(x.op.clone())] || x.ss1.is_some() || x.ss2.is_some() { bail!("block {rid} is not the canonical {} block: {x:?}", x.op) }
                MVal::Lit(x.op)
            } else { MVal::Block(Box::new(x)) }
        } else if p.is_empty() && (kind == 'd' || kind == 'b') { MVal::Empty }
        else {
            if kind == 'd' && p.parse::<f64>().is_err() { bail!("block {id}: {p:?} is not a number") }
            if kind == 'b' && p != "true" && p != "false" { bail!("block {id}: {p:?} is not a boolean") }
            MVal::Lit(p.clone())
        };
        items.push(MItem::Arg { kind, name: if n.is_empty() { None } else { Some(n) }, val });
    }
    if !matches!(b.ty.as_str(), "v" | "p" | "l") && !b.tn.is_empty() { bail!("block {id} of type {:?} has the type name {:?}", b.ty, b.tn) }
    if ps.next().is_some() { bail!("block {id}: more parameters than the spec {:?} has", b.spec) }
    let ss1 = if b.ss1 < 0 { None } else { Some(chain(b.ss1 as u32, by, used)?) };
    let ss2 = if b.ss2 < 0 { None } else { Some(chain(b.ss2 as u32, by, used)?) };
    Ok((MBlock { color: b.color, op: b.op.clone(), items, ss1, ss2, ty: MTy::of(&b.ty, &b.tn).map_err(|e| format!("block {id}: {e}"))? }, b.next))
}

// ------------------------------------------------------------------------------ library types

pub fn to_api(p: &[MBlock]) -> ab::Blocks { ab::Blocks(p.iter().map(block_to_api).collect()) }
pub fn block_to_api(b: &MBlock) -> ab::Block {
    ab::Block { sub_stack1: b.ss1.as_ref().map(|s| to_api(s)), sub_stack2: b.ss2.as_ref().map(|s| to_api(s)), color: mkcolor(b.color), op_code: b.op.clone(), content: content_to_api(&b.items), block_type: ty_to_api(&b.ty) }
}
pub fn ty_to_api(t: &MTy) -> ab::BlockType {
    use ab::{ArgumentBlockReturnType as A, BlockControl as C, BlockType as T};
    match t { MTy::Regular => T::Regular, MTy::Bool => T::Argument(A::Boolean), MTy::Str => T::Argument(A::String), MTy::Num => T::Argument(A::Number), MTy::View(n) => T::Argument(A::View { type_name: n.clone() }), MTy::Comp(n) => T::Argument(A::Component { type_name: n.clone() }), MTy::ListStr => T::Argument(A::List { inner_type: ab::ListItem::String }), MTy::ListNum => T::Argument(A::List { inner_type: ab::ListItem::Number }), MTy::One => T::Control(C::OneNest), MTy::Two => T::Control(C::TwoNest), MTy::End => T::Control(C::EndingBlock) }
}
fn ty_of_api(t: &ab::BlockType) -> MTy {
    use ab::{ArgumentBlockReturnType as A, BlockControl as C, BlockType as T};
    match t { T::Regular => MTy::Regular, T::Argument(A::Boolean) => MTy::Bool, T::Argument(A::String) => MTy::Str, T::Argument(A::Number) => MTy::Num, T::Argument(A::View { type_name }) => MTy::View(type_name.clone()), T::Argument(A::Component { type_name }) => MTy::Comp(type_name.clone()), T::Argument(A::List { inner_type: ab::ListItem::String }) => MTy::ListStr, T::Argument(A::List { inner_type: ab::ListItem::Number }) => MTy::ListNum, T::Control(C::OneNest) => MTy::One, T::Control(C::TwoNest) => MTy::Two, T::Control(C::EndingBlock) => MTy::End }
}
pub fn content_to_api(items: &[MItem]) -> ab::BlockContent {
    ab::BlockContent { items: items.iter().map(|i| match i {
        MItem::Text(t) => ab::SpecItem::Text(t.clone()),
        MItem::Arg { kind, name, val } => ab::SpecItem::Parameter(match kind {
            's' => ab::Argument::String { name: name.clone(), value: val_to_api(val, |s| s.to_string()) },
            'd' => ab::Argument::Number { name: name.clone(), value: val_to_api(val, |s| s.parse().unwrap()) },
            'b' => ab::Argument::Boolean { name: name.clone(), value: val_to_api(val, |s| s == "true") },
            _ => ab::Argument::Menu { name: name.clone().unwrap_or_default(), value: val_to_api(val, |s| s.to_string()) },
        }),
    }).collect() }
}
fn val_to_api<T: std::fmt::Debug + Clone + PartialEq>(v: &MVal, f: impl Fn(&str) -> T) -> ab::ArgValue<T> {
    match v { MVal::Empty => ab::ArgValue::Empty, MVal::Lit(s) => ab::ArgValue::Value(f(s)), MVal::Block(b) => ab::ArgValue::Block(block_to_api(b)) }
}
pub fn of_api(p: &ab::Blocks) -> R<MProg> { p.0.iter().map(block_of_api).collect() }
pub fn block_of_api(b: &ab::Block) -> R<MBlock> {
    Ok(MBlock { color: color_of(&b.color), op: b.op_code.clone(), items: items_of_api(&b.content)?, ss1: b.sub_stack1.as_ref().map(of_api).transpose()?, ss2: b.sub_stack2.as_ref().map(of_api).transpose()?, ty: ty_of_api(&b.block_type) })
}
pub fn items_of_api(c: &ab::BlockContent) -> R<Vec<MItem>> {
    c.items.iter().map(|i| Ok(match i {
        ab::SpecItem::Text(t) => MItem::Text(t.clone()),
        ab::SpecItem::Parameter(a) => match a {
            ab::Argument::String { name, value } => MItem::Arg { kind: 's', name: name.clone(), val: val_of_api(value, |s| s.clone())? },
            ab::Argument::Number { name, value } => MItem::Arg { kind: 'd', name: name.clone(), val: val_of_api(value, |f| format!("{f:?}"))? },
            ab::Argument::Boolean { name, value } => MItem::Arg { kind: 'b', name: name.clone(), val: val_of_api(value, |b| b.to_string())? },
            ab::Argument::Menu { name, value } => MItem::Arg { kind: 'm', name: Some(name.clone()), val: val_of_api(value, |s| s.clone())? },
        },
    })).collect()
}
fn val_of_api<T: std::fmt::Debug + Clone + PartialEq>(v: &ab::ArgValue<T>, f: impl Fn(&T) -> String) -> R<MVal> {
    Ok(match v { ab::ArgValue::Empty => MVal::Empty, ab::ArgValue::Value(x) => MVal::Lit(f(x)), ab::ArgValue::Block(b) => MVal::Block(Box::new(block_of_api(b)?)), ab::ArgValue::BlockPlaceholder { block_id } => bail!("unresolved reference to block {block_id}") })
}
