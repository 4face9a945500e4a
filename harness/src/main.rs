#![allow(dead_code)]
mod aes;
mod engine;
mod gen;
mod json;
mod p_block;
mod p_color;
mod p_edit;
mod p_fault;
mod p_more;
mod p_proj;
mod p_raw;
mod p_robust;
mod p_view;
mod prog;
mod proj;
mod raw;
mod tree;

use std::path::Path;

fn props() -> Vec<engine::Prop> {
    vec![p_raw::c01(), p_raw::c02_prop(), p_raw::c03_prop(), p_raw::c04_prop(), p_raw::c05_prop(), p_raw::c06_prop(), p_raw::c07_prop(), p_raw::c08_prop(), p_raw::c09_prop(), p_robust::c10_prop(),
        p_block::c11_prop(), p_block::c12_prop(), p_block::c13_prop(), p_view::c14_prop(), p_view::c15_prop(), p_proj::c16_prop(), p_proj::c17_prop(), p_edit::c18_prop(), p_proj::c19_prop(), p_proj::c20_prop(), p_color::c21_prop(), p_fault::c22_prop(), p_more::c23_prop(), p_more::c24_prop(), p_more::c25_prop(), p_more::c26_prop(), p_more::c27_prop(), p_more::c28_prop(), p_robust::c29_prop()]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = engine::Env::load();
    let all = props();
    let find = |id: &str| match all.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("no property {id}"); std::process::exit(2) } };
    let code = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[1..] {
        ["worker", id, work] => engine::worker(find(id), &env, Path::new(work)),
        ["one", id, si, seed] => engine::one(find(id), &env, si.parse().unwrap(), seed.parse().unwrap(), None),
        ["one", id, si, seed, f] => engine::one(find(id), &env, si.parse().unwrap(), seed.parse().unwrap(), Some(Path::new(f))),
        ["check", id] => engine::check(find(id), &env),
        ["replay", f] => engine::replay(&all, &env, Path::new(f)),
        ["list"] => { for p in &all { println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}:{}/{}", s.name, s.quick, s.thorough)).collect::<Vec<_>>().join(" ")); } 0 }
        _ => { eprintln!("usage: harness check ID | replay FILE | list"); 2 }
    };
    std::process::exit(code);
}
