//! C11-C13: reading and writing block programs, block specs.
use crate::engine::{guard, Ctx, Prop, Sub};
use crate::gen::{mix, Gen};
use crate::prog::*;
use crate::raw::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use swrs::api::block as ab;
use swrs::parser::logic::BlockContainer;

pub fn container(bs: &[MRawBlock]) -> BlockContainer { BlockContainer(bs.iter().map(|b| b.to_swrs()).collect()) }

// ------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Read { prog: MProg, seed: u64, stray: Vec<MRawBlock> }
fn gen_read(g: &mut Gen) -> Read {
    let prog = gen_prog(g);
    let seed = if g.chance(1, 6) { 0 } else { 1 + g.below(1 << 32) };
    // blocks nothing points to are not part of the program
    let stray = if g.chance(1, 8) { g.vec1(3, |g| { let mut b = MRawBlock::gen(g); b.next = -1; b.ss1 = -1; b.ss2 = -1; b }) } else { vec![] };
    Read { prog, seed, stray }
}
fn with_stray(bs: &mut Vec<MRawBlock>, stray: &[MRawBlock], seed: u64) {
    if bs.is_empty() { return }
    let mut ids: HashSet<String> = bs.iter().map(|b| b.id.clone()).collect();
    let mut n = mix(seed) % 1_000_000;
    for s in stray {
        while !ids.insert(n.to_string()) { n += 1 }
        let at = 1 + (mix(n) as usize) % bs.len();
        bs.insert(at, MRawBlock { id: n.to_string(), ..s.clone() });
    }
}
fn prog_labels(p: &MProg, ctx: &mut Ctx) {
    ctx.nontrivial(count_blocks(p) >= 2);
    ctx.label_if(has_args(p), "argument blocks");
    ctx.label_if(has_stacks(p), "nested stacks");
    ctx.label_if(depth(p) > 5, "deeper than 5");
    ctx.label_if(count_blocks(p) > 60, "more than 60 blocks");
}
fn c11_read(c: &Read, ctx: &mut Ctx) -> R<()> {
    prog_labels(&c.prog, ctx);
    ctx.label_if(!c.stray.is_empty(), "unreachable blocks");
    let mut bs = encode(&c.prog, c.seed);
    with_stray(&mut bs, &c.stray, c.seed);
    let got = guard("reading the block list", || ab::Blocks::try_from(container(&bs)))?.map_err(|e| format!("reading the block list failed: {e:?}"))?;
    same_prog("program", &of_api(&got)?, &c.prog)
}

/// a program of very many blocks, given by a small one that is repeated
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge { body: MProg, n: usize, wrap: u8, seed: u64 }
fn gen_huge(g: &mut Gen) -> Huge {
    let mut body = gen_prog_cfg(g, 5, 2);
    if body.is_empty() { body.push(MBlock { color: 0, op: "x".into(), items: vec![MItem::Text("x".into())], ss1: None, ss2: None, ty: MTy::Regular }) }
    Huge { body, n: g.range(0, 80_000) as usize, wrap: g.below(3) as u8, seed: g.below(1 << 30) * 4 + 2 * g.below(2) }
}
impl Huge {
    fn prog(&self) -> MProg {
        let per = count_blocks(&self.body);
        let mut long: MProg = vec![];
        for _ in 0..(self.n / per).max(1) { long.extend(self.body.iter().cloned()) }
        if self.wrap == 0 { return long }
        let mut out = self.body.clone();
        let b = MBlock { color: 0, op: "x".into(), items: vec![MItem::Text("x".into())], ss1: None, ss2: Some(self.body.clone()), ty: MTy::Two };
        out.push(if self.wrap == 1 { MBlock { ss1: Some(long), ..b } } else { MBlock { ss2: Some(long), ..b } });
        out.extend(self.body.iter().cloned());
        out
    }
}
fn c11_huge(c: &Huge, ctx: &mut Ctx) -> R<()> {
    let prog = c.prog();
    prog_labels(&prog, ctx);
    ctx.label_if(count_blocks(&prog) > 65_536, "more than 65536 blocks");
    let bs = encode(&prog, c.seed);
    let got = guard("reading the block list", || ab::Blocks::try_from(container(&bs)))?.map_err(|e| format!("reading the block list failed: {e:?}"))?;
    same_prog("program", &of_api(&got)?, &prog)
}
fn c12_huge(c: &Huge, ctx: &mut Ctx) -> R<()> {
    let prog = c.prog();
    prog_labels(&prog, ctx);
    ctx.label_if(count_blocks(&prog) > 65_536, "more than 65536 blocks");
    check_written(&prog, to_api(&prog))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BFault { Id { at: usize, text: String }, Type { at: usize, ty: String }, ListType { at: usize, tn: String }, Dangling { slot: usize, id: u64 }, Twice { slot: usize, to: usize } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty { prog: MProg, seed: u64, fault: BFault }
fn gen_faulty(g: &mut Gen) -> Faulty {
    let prog = if g.chance(3, 4) { gen_prog_cfg(g, 10, 4) } else { gen_prog(g) };
    let seed = if g.chance(1, 4) { 0 } else { 1 + g.below(1 << 32) };
    let fault = match g.weighted(&[2, 2, 1, 5, 5]) {
        0 => BFault::Id { at: g.u(1000), text: g.pick(&["abc", "", "-1", "1.5", "99999999999", "é", "0x1", "1 ", " 1", "4294967296", "10a", "@10", "１０"]).to_string() },
        1 => BFault::Type { at: g.u(1000), ty: g.pick(&["x", "", "  ", "S", "ss", "List", "é", "B", "z", "cc", " c", "d ", "0"]).to_string() },
        2 => BFault::ListType { at: g.u(1000), tn: g.pick(&["", "List", "String", "list string", "List  String", "List Bool", "List String "]).to_string() },
        3 => BFault::Dangling { slot: g.u(1000), id: g.below(1 << 31) },
        _ => BFault::Twice { slot: g.u(1000), to: g.u(1000) },
    };
    Faulty { prog, seed, fault }
}
#[derive(Clone, Copy, Debug)]
enum Slot { Next(usize), S1(usize), S2(usize), Param(usize, usize) }
fn set(bs: &mut [MRawBlock], s: Slot, id: u64) {
    match s { Slot::Next(i) => bs[i].next = id as i32, Slot::S1(i) => bs[i].ss1 = id as i32, Slot::S2(i) => bs[i].ss2 = id as i32, Slot::Param(i, k) => bs[i].params[k] = format!("@{id}") }
}
fn c11_faults(c: &Faulty, ctx: &mut Ctx) -> R<()> {
    let mut bs = encode(&c.prog, c.seed);
    if bs.is_empty() { return Ok(()) }
    let args: HashSet<String> = bs.iter().flat_map(|b| b.params.iter()).filter_map(|p| p.strip_prefix('@')).map(String::from).collect();
    let what;
    match &c.fault {
        BFault::Id { at, text } => { let i = at % bs.len(); bs[i].id = text.clone(); what = format!("block id {text:?}") }
        BFault::Type { at, ty } => { let i = at % bs.len(); bs[i].ty = ty.clone(); what = format!("block type {ty:?}") }
        BFault::ListType { at, tn } => { let i = at % bs.len(); bs[i].ty = "l".into(); bs[i].tn = tn.clone(); what = format!("list block of type name {tn:?}") }
        BFault::Dangling { slot, id } => {
            let slots = slots(&bs, &args, false);
            if slots.is_empty() { return Ok(()) }
            let s = slots[slot % slots.len()];
            let ids: HashSet<String> = bs.iter().map(|b| b.id.clone()).collect();
            let mut id = *id;
            while ids.contains(&id.to_string()) { id = (id + 1) % (1 << 31) }
            set(&mut bs, s, id);
            what = format!("{s:?} referring to block {id}, which is not there");
        }
        BFault::Twice { slot, to } => {
            // only slots that are free, so that every block stays reachable
            let slots = slots(&bs, &args, true);
            if slots.is_empty() { return Ok(()) }
            let s = slots[slot % slots.len()];
            let id: u64 = bs[to % bs.len()].id.parse().unwrap();
            set(&mut bs, s, id);
            what = format!("{s:?} referring to block {id}, which is already used");
        }
    }
    ctx.nontrivial(true);
    ctx.label(match &c.fault { BFault::Id { .. } => "non-numeric id", BFault::Type { .. } => "unknown type", BFault::ListType { .. } => "unknown list type", BFault::Dangling { .. } => "dangling reference", BFault::Twice { .. } => "block reached twice" });
    match guard("reading the block list", || ab::Blocks::try_from(container(&bs)))? {
        Err(_) => Ok(()),
        Ok(p) => bail!("a block list with {what} was read as a program of {} statements", p.0.len()),
    }
}
fn slots(bs: &[MRawBlock], args: &HashSet<String>, free: bool) -> Vec<Slot> {
    let mut out = vec![];
    for (i, b) in bs.iter().enumerate() {
        if !args.contains(&b.id) && (b.next < 0 || !free) { out.push(Slot::Next(i)) }
        if b.ss1 < 0 || !free { out.push(Slot::S1(i)) }
        if b.ss2 < 0 || !free { out.push(Slot::S2(i)) }
        for (k, p) in b.params.iter().enumerate() { if !p.starts_with('@') || !free { out.push(Slot::Param(i, k)) } }
    }
    out
}

pub fn c11_prop() -> Prop {
    Prop {
        id: "C11", rule: "read: the program has at least two blocks; faults: a fault was injected",
        assumptions: &["block ids are unique within a list", "string and menu literals do not start with `@`", "parameter lists have exactly as many entries as the spec has parameters"],
        subs: vec![Sub::new("read", 250_000, 4_000_000, gen_read, c11_read), Sub::new("faults", 250_000, 3_000_000, gen_faulty, c11_faults), Sub::new("huge", 40, 400, gen_huge, c11_huge)],
    }
}

// ------------------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Write { prog: MProg, merge: bool }
fn gen_write(g: &mut Gen) -> Write { Write { prog: gen_prog(g), merge: g.chance(1, 5) } }
/// joins adjacent words into one text item
fn merge(p: &mut MProg) {
    for b in p {
        let mut items: Vec<MItem> = vec![];
        for i in std::mem::take(&mut b.items) {
            match (items.last_mut(), i) {
                (Some(MItem::Text(a)), MItem::Text(t)) => { a.push(' '); a.push_str(&t); }
                (_, MItem::Arg { kind, name, val: MVal::Block(x) }) => { let mut v = vec![*x]; merge(&mut v); items.push(MItem::Arg { kind, name, val: MVal::Block(Box::new(v.pop().unwrap())) }) }
                (_, i) => items.push(i),
            }
        }
        b.items = items;
        for s in [&mut b.ss1, &mut b.ss2] { if let Some(s) = s { merge(s) } }
    }
}
pub fn check_written(prog: &MProg, blocks: ab::Blocks) -> R<()> {
    let bc: BlockContainer = guard("converting the program", || blocks.into())?;
    let raw: Vec<MRawBlock> = bc.0.iter().map(MRawBlock::of).collect();
    let back = interpret(&raw).map_err(|e| format!("the block list is not well-formed: {e}"))?;
    same_prog("interpreted block list", &back, prog)?;
    let again = guard("reading the block list back", || ab::Blocks::try_from(bc))?.map_err(|e| format!("reading the block list back failed: {e:?}"))?;
    same_prog("reread program", &of_api(&again)?, prog)
}
fn c12_write(c: &Write, ctx: &mut Ctx) -> R<()> {
    prog_labels(&c.prog, ctx);
    let mut p = c.prog.clone();
    if c.merge { merge(&mut p) }
    check_written(&c.prog, to_api(&p))
}

/// programs assembled with the constructors and the builder
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built { cat: u8, op: String, items: Vec<MItem>, s1: Option<MProg>, s2: Option<MProg>, ty: MTy, tail: MProg }
pub const CATEGORIES: [(ab::BlockCategory, u32); 9] = [
    (ab::BlockCategory::Variable, 0xffee_7d16), (ab::BlockCategory::List, 0xffcc_5b22), (ab::BlockCategory::Control, 0xffe1_a92a), (ab::BlockCategory::Operator, 0xff5c_b722), (ab::BlockCategory::Math, 0xff23_b9a9),
    (ab::BlockCategory::File, 0xffa1_887f), (ab::BlockCategory::ViewFunc, 0xff4a_6cd4), (ab::BlockCategory::ComponentFunc, 0xfffc_a5e2), (ab::BlockCategory::MoreBlock, 0xff8a_55d7),
];
fn gen_built(g: &mut Gen) -> Built {
    let b = loop { if let Some(b) = gen_prog_cfg(g, 6, 2).into_iter().next() { break b } if g.rec.len() > 1000 { break MBlock { color: 0, op: "x".into(), items: vec![MItem::Text("x".into())], ss1: None, ss2: None, ty: MTy::Regular } } };
    let (s1, s2) = match g.below(3) { 0 => (None, None), 1 => (Some(gen_prog_cfg(g, 4, 2)), None), _ => (Some(gen_prog_cfg(g, 4, 2)), Some(gen_prog_cfg(g, 4, 2))) };
    Built { cat: g.below(9) as u8, op: b.op, items: b.items, s1, s2, ty: b.ty, tail: gen_prog_cfg(g, 3, 1) }
}
fn c12_built(c: &Built, ctx: &mut Ctx) -> R<()> {
    let (cat, color) = CATEGORIES[c.cat as usize];
    let mut bl = ab::BlockContent::builder();
    let api = content_to_api(&c.items);
    for i in api.items.iter() { bl = match i { ab::SpecItem::Text(t) => bl.text(t), ab::SpecItem::Parameter(a) => bl.arg(a.clone()) } }
    let content = bl.build();
    eq("built content", &content, &api)?;
    let (block, ty) = match (&c.s1, &c.s2) {
        (None, _) => (ab::Block::new(cat, c.op.clone(), content, block_to_api(&MBlock { color, op: String::new(), items: vec![], ss1: None, ss2: None, ty: c.ty.clone() }).block_type), c.ty.clone()),
        (Some(a), None) => (ab::Block::new_1substack(cat, c.op.clone(), content, to_api(a)), MTy::One),
        (Some(a), Some(b)) => (ab::Block::new_2substack(cat, c.op.clone(), content, to_api(a), to_api(b)), MTy::Two),
    };
    match block.category() { Ok(k) if k == cat => {} k => bail!("category of a {cat:?} block is {k:?}") }
    let mut prog = vec![MBlock { color, op: c.op.clone(), items: c.items.clone(), ss1: c.s1.clone(), ss2: c.s2.clone(), ty }];
    same_prog("constructed block", &of_api(&ab::Blocks(vec![block.clone()]))?, &prog)?;
    let mut blocks = ab::Blocks::new();
    blocks.0.push(block);
    blocks.0.extend(to_api(&c.tail).into_iter());
    prog.extend(c.tail.clone());
    prog_labels(&prog, ctx);
    check_written(&prog, blocks)
}
pub fn c12_prop() -> Prop {
    Prop {
        id: "C12", rule: "the program has at least two blocks",
        assumptions: &["string and menu literals do not start with `@`", "number literals are finite", "text items contain no parameter syntax; no unresolved placeholder"],
        subs: vec![Sub::new("write", 200_000, 3_000_000, gen_write, c12_write), Sub::new("built", 80_000, 1_000_000, gen_built, c12_built), Sub::new("huge", 40, 400, gen_huge, c12_huge)],
    }
}

// ------------------------------------------------------------------------------ C13

/// what is passed for a parameter
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum PV { Lit(String), Empty, Ref(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SI { W(String), P { kind: char, name: Option<String>, v: PV } }
fn gen_spec(g: &mut Gen) -> Vec<SI> {
    let n = g.size.max(3);
    g.with_size(n, |g| g.vec1(30, |g| if g.bool() { SI::W(spec_word(g)) } else {
        let kind = *g.pick(&['s', 'd', 'b', 'm']);
        SI::P { kind, name: if kind == 'm' || g.chance(1, 2) { Some(arg_name(g)) } else { None }, v: match g.below(4) { 0 => PV::Empty, 1 => PV::Ref(g.u32()), _ => PV::Lit(match kind { 'd' => num_text(g), 'b' => g.pick(&["true", "false"]).to_string(), _ => str_lit(g) }) } }
    }))
}
fn spec_text(s: &[SI]) -> String { s.iter().map(|i| match i { SI::W(w) => w.clone(), SI::P { kind, name, .. } => match name { Some(n) => format!("%{kind}.{n}"), None => format!("%{kind}") } }).collect::<Vec<_>>().join(" ") }
fn params(s: &[SI]) -> Vec<String> { s.iter().filter_map(|i| match i { SI::P { v, .. } => Some(match v { PV::Lit(s) => s.clone(), PV::Empty => String::new(), PV::Ref(n) => format!("@{n}") }), _ => None }).collect() }
fn arg_of<T: std::fmt::Debug + Clone + PartialEq>(v: &PV, lit: impl Fn(&str) -> T, empty_is_value: bool) -> ab::ArgValue<T> {
    match v { PV::Lit(s) => ab::ArgValue::Value(lit(s)), PV::Empty if empty_is_value => ab::ArgValue::Value(lit("")), PV::Empty => ab::ArgValue::Empty, PV::Ref(n) => ab::ArgValue::BlockPlaceholder { block_id: *n } }
}
/// the arguments a spec stands for; `None` values when nothing is supplied
fn expected(s: &[SI], supplied: bool) -> Vec<ab::SpecItem> {
    use ab::{ArgValue as V, Argument as A};
    s.iter().map(|i| match i {
        SI::W(w) => ab::SpecItem::Text(w.clone()),
        SI::P { kind, name, v } => ab::SpecItem::Parameter(match kind {
            's' => A::String { name: name.clone(), value: if supplied { arg_of(v, |s| s.to_string(), true) } else { V::Empty } },
            'd' => A::Number { name: name.clone(), value: if supplied { arg_of(v, |s| s.parse::<f64>().unwrap(), false) } else { V::Empty } },
            'b' => A::Boolean { name: name.clone(), value: if supplied { arg_of(v, |s| s == "true", false) } else { V::Empty } },
            _ => A::Menu { name: name.clone().unwrap(), value: if supplied { arg_of(v, |s| s.to_string(), true) } else { V::Empty } },
        }),
    }).collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spec { items: Vec<SI>, /** which parameters are already set before the rest is filled in */ set: Vec<bool> }
fn c13_spec(c: &Spec, ctx: &mut Ctx) -> R<()> {
    let (set, c) = (&c.set, &c.items);
    let (spec, ps) = (spec_text(c), params(c));
    ctx.nontrivial(!ps.is_empty());
    ctx.label_if(c.iter().any(|i| matches!(i, SI::P { v: PV::Ref(_), .. })), "block reference");
    ctx.label_if(c.iter().any(|i| matches!(i, SI::P { v: PV::Empty, .. })), "empty parameter");
    ctx.label_if(c.iter().any(|i| matches!(i, SI::W(w) if w.is_empty())), "empty word");
    let bare = guard("parse_wo_params", || ab::BlockContent::parse_wo_params(&spec))?.map_err(|e| format!("parsing the spec {spec:?} failed: {e:?}"))?;
    eq_list("spec items without parameters", &bare.items, &expected(c, false))?;
    eq("rendered spec", &bare.to_string(), &spec)?;
    let full = guard("parse", || ab::BlockContent::parse(spec.clone(), ps.clone()))?.map_err(|e| format!("parsing the spec {spec:?} with {ps:?} failed: {e:?}"))?;
    let want = expected(c, true);
    eq_list("spec items", &full.items, &want)?;
    eq("rendered spec with arguments", &full.to_string(), &spec)?;
    let applied = guard("apply_args", || bare.clone().apply_args(ps.clone()))?.map_err(|e| format!("filling the spec {spec:?} with {ps:?} failed: {e:?}"))?;
    eq_list("spec filled afterwards", &applied.items, &want)?;
    // what is set already is kept, the rest is filled left to right
    let (mut n, mut some) = (0, false);
    let mut left = vec![];
    let half: Vec<ab::SpecItem> = c.iter().zip(want.iter().zip(expected(c, false))).map(|(i, (w, e))| match i {
        SI::W(_) => e,
        SI::P { v, .. } => {
            n += 1;
            let is_empty = matches!(w, ab::SpecItem::Parameter(ab::Argument::Number { value: ab::ArgValue::Empty, .. } | ab::Argument::Boolean { value: ab::ArgValue::Empty, .. }));
            if set.get(n - 1) == Some(&true) && !is_empty { some = true; w.clone() } else { left.push(match v { PV::Lit(s) => s.clone(), PV::Empty => String::new(), PV::Ref(n) => format!("@{n}") }); e }
        }
    }).collect();
    ctx.label_if(some && !left.is_empty(), "partly set");
    let filled = guard("apply_args", || ab::BlockContent { items: half.clone() }.apply_args(left.clone()))?.map_err(|e| format!("filling the partly set spec {spec:?} with {left:?} failed: {e:?}"))?;
    eq_list("partly set spec filled afterwards", &filled.items, &want)?;
    if some && !left.is_empty() && guard("apply_args", || ab::BlockContent { items: half }.apply_args(left[1..].to_vec()))?.is_ok() { bail!("filling the partly set spec {spec:?} with one parameter too few was accepted") }
    // accessors
    let args: Vec<ab::Argument> = want.iter().filter_map(|i| match i { ab::SpecItem::Parameter(a) => Some(a.clone()), _ => None }).collect();
    eq_list("get_args", &full.get_args().into_iter().cloned().collect::<Vec<_>>(), &args)?;
    let mut m = full.clone();
    eq_list("get_args_mut", &m.get_args_mut().into_iter().map(|a| a.clone()).collect::<Vec<_>>(), &args)?;
    if let Some(a) = m.get_args_mut().into_iter().last() { *a = ab::Argument::Menu { name: "changed".into(), value: ab::ArgValue::Empty }; }
    let mut want_m = want.clone();
    if let Some(x) = want_m.iter_mut().rev().find(|i| matches!(i, ab::SpecItem::Parameter(_))) { *x = ab::SpecItem::Parameter(ab::Argument::Menu { name: "changed".into(), value: ab::ArgValue::Empty }) }
    eq_list("spec after an edit through get_args_mut", &m.items, &want_m)?;
    let (rest, taken) = full.clone().take_args();
    eq_list("taken arguments", &taken, &args)?;
    eq_list("spec without its arguments", &rest.items, &expected(c, false))?;
    // references resolve to the blocks of their ids, literals are untouched
    let blk = |id: u32| ab::Block::new(ab::BlockCategory::Math, match id % 5 { 0 => "true".into(), 1 => "false".into(), _ => format!("op{id}") }, ab::BlockContent::builder().text(id).build(), ab::BlockType::Regular);
    let resolved = guard("apply_blocks", || full.clone().apply_blocks(|id| Some(blk(id))))?.map_err(|e| format!("resolving references failed: {e:?}"))?;
    fn res<T: std::fmt::Debug + Clone + PartialEq>(v: &ab::ArgValue<T>, blk: &impl Fn(u32) -> ab::Block) -> ab::ArgValue<T> { match v { ab::ArgValue::BlockPlaceholder { block_id } => ab::ArgValue::Block(blk(*block_id)), v => v.clone() } }
    let want_r: Vec<ab::SpecItem> = want.iter().map(|i| match i {
        ab::SpecItem::Text(t) => ab::SpecItem::Text(t.clone()),
        ab::SpecItem::Parameter(a) => ab::SpecItem::Parameter(match a {
            ab::Argument::String { name, value } => ab::Argument::String { name: name.clone(), value: res(value, &blk) },
            ab::Argument::Number { name, value } => ab::Argument::Number { name: name.clone(), value: res(value, &blk) },
            ab::Argument::Boolean { name, value } => ab::Argument::Boolean { name: name.clone(), value: match value { ab::ArgValue::BlockPlaceholder { block_id } if block_id % 5 < 2 => ab::ArgValue::Value(block_id % 5 == 0), v => res(v, &blk) } },
            ab::Argument::Menu { name, value } => ab::Argument::Menu { name: name.clone(), value: res(value, &blk) },
        }),
    }).collect();
    eq_list("spec with resolved references", &resolved.items, &want_r)?;
    let refs: Vec<u32> = c.iter().filter_map(|i| match i { SI::P { v: PV::Ref(n), .. } => Some(*n), _ => None }).collect();
    if let Some(miss) = refs.last() {
        match guard("apply_blocks", || full.apply_blocks(|id| if id == *miss { None } else { Some(blk(id)) }))? {
            Ok(_) => bail!("a reference to the missing block {miss} was accepted"),
            Err(ab::BlockContentParseError::BlockNotFound { block_id }) if block_id == *miss => {}
            Err(e) => bail!("wrong error for a reference to the missing block {miss}: {e:?}"),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SFault { Short { by: usize }, BadRef { at: usize, text: String }, BadNum { at: usize, text: String }, BadBool { at: usize, text: String }, Kind { at: usize, text: String } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadSpec { spec: Vec<SI>, fault: SFault }
fn gen_bad_spec(g: &mut Gen) -> BadSpec {
    let spec = gen_spec(g);
    let fault = match g.below(5) {
        0 => SFault::Short { by: 1 + g.u(5) },
        1 => SFault::BadRef { at: g.u(40), text: g.pick(&["@", "@x", "@-1", "@1.5", "@4294967296", "@1a", "@ 1", "@1 ", "@@1", "@é", "@99999999999999999999", "@0x10"]).to_string() },
        2 => SFault::BadNum { at: g.u(40), text: g.pick(&["abc", "1,5", "0x10", "1 2", "--1", "1e", " 1", "1 ", "é", "true", "1.2.3", "١", "5px", "."]).to_string() },
        3 => SFault::BadBool { at: g.u(40), text: g.pick(&["yes", "1", "0", "tru", "True", "FALSE", " true", "true ", "truefalse", "é", "t"]).to_string() },
        _ => SFault::Kind { at: g.u(40), text: g.pick(&["%x", "%S", "%é", "%%", "%.", "%1", "%x.name", "%D.n", "%中.a", "%-", "%i", "%f.x", "%😀"]).to_string() },
    };
    BadSpec { spec, fault }
}
fn c13_errors(c: &BadSpec, ctx: &mut Ctx) -> R<()> {
    let (mut ws, mut ps) = (c.spec.clone(), params(&c.spec));
    let pick = |k: &dyn Fn(char) -> bool, at: usize| -> Option<usize> {
        let idx: Vec<usize> = c.spec.iter().filter_map(|i| match i { SI::P { kind, .. } => Some(*kind), _ => None }).enumerate().filter(|(_, x)| k(*x)).map(|(i, _)| i).collect();
        if idx.is_empty() { None } else { Some(idx[at % idx.len()]) }
    };
    let (what, label, spec_only) = match &c.fault {
        SFault::Short { by } => { if ps.is_empty() { return Ok(()) } let n = ps.len() - (*by).min(ps.len()); ps.truncate(n); (format!("{n} parameters"), "too few parameters", false) }
        SFault::BadRef { at, text } => { let Some(i) = pick(&|_| true, *at) else { return Ok(()) }; ps[i] = text.clone(); (format!("reference {text:?}"), "malformed reference", false) }
        SFault::BadNum { at, text } => { let Some(i) = pick(&|k| k == 'd', *at) else { return Ok(()) }; ps[i] = text.clone(); (format!("number {text:?}"), "malformed number", false) }
        SFault::BadBool { at, text } => { let Some(i) = pick(&|k| k == 'b', *at) else { return Ok(()) }; ps[i] = text.clone(); (format!("boolean {text:?}"), "malformed boolean", false) }
        SFault::Kind { at, text } => { let i = at % (ws.len() + 1); ws.insert(i, SI::W(text.clone())); (format!("parameter {text:?}"), "unknown kind", true) }
    };
    ctx.nontrivial(true);
    ctx.label(label);
    let spec = spec_text(&ws);
    // the error names the offending value
    let named = |e: &ab::BlockContentParseError| -> bool {
        use ab::BlockContentParseError as E;
        match (&c.fault, e) {
            (SFault::Short { .. }, E::RanOutOfArgs) => true,
            (SFault::BadRef { text, .. }, E::InvalidBlockId { value }) => value == text,
            (SFault::BadNum { text, .. }, E::InvalidNumberArgument { value }) => value == text,
            (SFault::BadBool { text, .. }, E::InvalidBooleanArgument { value }) => value == text,
            (SFault::Kind { text, .. }, E::UnknownSpecParam { name, full }) => full == text && name.chars().eq(text.chars().skip(1).take(1)),
            _ => false,
        }
    };
    match guard("parse", || ab::BlockContent::parse(spec.clone(), { let mut p = ps.clone(); if spec_only { p.push("1".into()); p.push("1".into()) } p }))? {
        Ok(_) => bail!("parsing the spec {spec:?} with {what} was accepted"),
        Err(e) => if !named(&e) { bail!("wrong error for the spec {spec:?} with {what}: {e:?}") }
    }
    let bare = guard("parse_wo_params", || ab::BlockContent::parse_wo_params(&spec))?;
    match (bare, spec_only) {
        (Ok(_), true) => bail!("parsing the spec {spec:?} with {what} and no parameters was accepted"),
        (Err(e), true) => if named(&e) { Ok(()) } else { bail!("wrong error for the spec {spec:?} with {what}: {e:?}") },
        (Err(e), false) => bail!("parsing the spec {spec:?} failed: {e:?}"),
        (Ok(b), false) => match guard("apply_args", || b.apply_args(ps.clone()))? {
            Ok(_) => bail!("filling the spec {spec:?} with {what} was accepted"),
            Err(e) => if named(&e) { Ok(()) } else { bail!("wrong error when filling the spec {spec:?} with {what}: {e:?}") },
        },
    }
}
pub fn c13_prop() -> Prop {
    Prop {
        id: "C13", rule: "spec: at least one parameter; errors: a fault was injected",
        assumptions: &["words contain no space and do not look like parameters", "as many parameters as the spec has (fewer only as a fault)", "number literals are finite"],
        subs: vec![Sub::new("spec", 1_000_000, 15_000_000, |g| Spec { items: gen_spec(g), set: if g.chance(1, 2) { g.vec(20, |g| g.bool()) } else { vec![] } }, c13_spec), Sub::new("errors", 1_000_000, 10_000_000, gen_bad_spec, c13_errors)],
    }
}
