//! Bounded search on the real code: replays and looks for inputs that break a property.
mod ctx;
mod derived;
#[allow(unused_variables, unused_mut, unused_braces)]
mod derived_gen;
mod random_gen;
mod gen;
mod macros;
mod model;
#[allow(unused_variables, unused_mut)]
mod sd;
mod typed;
mod untyped;

use ctx::*;
use std::{sync::atomic::Ordering, time::{Duration, Instant}};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

fn main() {
    // bridge PROP SEED STREAM MILLIS quick|thorough [--case ORACLE INDEX] [--trace FILE]
    let a: Vec<String> = std::env::args().collect();
    let get = |f: &str, k: usize| a.iter().position(|x| x == f).map(|i| a[i + k].clone());
    let mut c = Ctx {
        prop: a[1].clone(),
        seed: a[2].parse().unwrap(),
        stream: a[3].parse().unwrap(),
        until: Instant::now() + Duration::from_millis(a[4].parse().unwrap()),
        thorough: a[5] == "thorough",
        only: get("--case", 1).map(|o| (o, get("--case", 2).unwrap().parse().unwrap())),
        trace: get("--trace", 1),
        counts: vec![],
        sample: String::new(),
        samples: vec![],
    };
    std::panic::set_hook(Box::new(|_| {}));
    // A case that does not end is a failure too: the driver finds it by tracing.
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last { last = t; since = Instant::now() } else if since.elapsed() > Duration::from_secs(20) { std::process::exit(70) }
        }
    });
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { let r = run(&mut c); (c, r) }).unwrap();
    let (c, r) = t.join().unwrap();
    let counts: Vec<String> = c.counts.iter().map(|(o, n, h, e)| format!("{{\"oracle\":{},\"cases\":{},\"nontrivial\":{},\"exhaustive\":{}}}", esc(o), n, h, e)).collect();
    let samples: Vec<String> = c.samples.iter().map(|(o, s)| format!("[{},{}]", esc(o), esc(s))).collect();
    match r {
        Ok(()) => println!("{{\"ok\":true,\"counts\":[{}],\"samples\":[{}]}}", counts.join(","), samples.join(",")),
        Err(f) => {
            println!("{{\"ok\":false,\"oracle\":{},\"index\":{},\"seed\":{},\"stream\":{},\"input\":{},\"detail\":{},\"counts\":[{}]}}", esc(&f.oracle), f.index, c.seed, c.stream, esc(&short(f.input)), esc(&short(f.detail)), counts.join(","));
            std::process::exit(1)
        }
    }
}

fn run(c: &mut Ctx) -> Result<(), Fail> {
    match c.prop.clone().as_str() {
        "C01" => untyped::c01(c),
        "C02" => untyped::c02(c),
        "C03" => untyped::c03(c),
        "C04" => untyped::c04(c),
        "C05" => untyped::c05(c),
        "C06" => untyped::c06(c),
        "C07" => untyped::c07(c),
        "C08" => untyped::c08(c),
        "C09" => typed::c09(c),
        "C10" => typed::c10(c),
        "C11" => typed::c11(c),
        "C12" => typed::c12(c),
        "C13" => derived::c13(c),
        "C14" => derived::c14(c),
        "C15" => typed::c15(c),
        "C16" => sd::c16(c),
        "C17" => sd::c17(c),
        "C18" => typed::c18(c),
        "C19" => macros::c19(c),
        p => panic!("unknown property {}", p),
    }
}
