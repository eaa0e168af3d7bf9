//! Runs the real code of /repo on generated inputs and compares it with the property oracles.
//! usage: vh PROP --seed S --secs T [--threads N] [--trace FILE]   |   vh PROP --seed S --case IDX
mod rng; mod gen; mod cap; mod text; mod adt; mod gvp; mod topo; mod geo; mod draw; mod xml;
use rng::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

thread_local! { static DESC: RefCell<Option<String>> = const { RefCell::new(None) }; static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
/// Records a readable form of the current input (only evaluated when it is going to be reported).
pub fn desc(f: impl FnOnce() -> String) { DESC.with(|d| { let mut d = d.borrow_mut(); if let Some(s) = d.as_mut() { s.push_str(&f()); s.push('\n'); } }) }

/// One evaluated case: a hash of the input when it is non-trivial.
pub type R = Result<Option<u64>, String>;
pub struct Case { pub r: Rng, pub idx: u64, pub size: usize }

fn run(prop: &str, c: &mut Case) -> R {
    match prop {
        "P01" => text::p01(c), "P02" => text::p02(c), "P03" => text::p03(c),
        "P04" => adt::p04(c), "P07" => adt::p07(c), "P08" => adt::p08(c),
        "P05" => gvp::p05(c), "P06" => gvp::p06(c), "P19" => gvp::p19(c),
        "P09" => topo::p09(c), "P10" => topo::p10(c), "P11" => topo::p11(c), "P12" => topo::p12(c),
        "P13" => topo::p13(c), "P14" => topo::p14(c), "P15" => topo::p15(c), "P25" => topo::p25(c),
        "P16" => draw::p16(c), "P20" => draw::p20(c), "P24" => draw::p24(c),
        "P17" => geo::p17(c), "P18" => geo::p18(c),
        "P21" => xml::p21(c), "P22" => xml::p22(c), "P23" => xml::p23(c), "P26" => xml::p26(c), "P27" => xml::p27(c),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    }
}
fn one(prop: &str, seed: u64, idx: u64) -> R {
    let h = hash(prop).wrapping_add(seed.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(idx.wrapping_mul(0xd1342543de82ef95));
    let mut c = Case { r: Rng::new(h), idx, size: 1 + (idx / 400).min(12) as usize };
    // every 61st case is a big one: some counts in it (letters, lines, fields, statements, steps, edges) are far larger
    if idx % 61 == 60 { c.r.1 = 3; c.size = 1 + c.r.n(40); }
    match catch_unwind(AssertUnwindSafe(|| run(prop, &mut c))) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}
fn describe(prop: &str, seed: u64, idx: u64) -> (String, R) {
    DESC.with(|d| *d.borrow_mut() = Some(String::new()));
    let r = one(prop, seed, idx);
    (DESC.with(|d| d.borrow_mut().take().unwrap_or_default()), r)
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    let seed: u64 = opt("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panic: {} ({})", m, l));
    }));
    if let Some(ix) = opt("--case") {
        let ix: u64 = ix.parse().unwrap();
        let p = prop.clone();
        let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || describe(&p, seed, ix)).unwrap();
        let t = Instant::now();
        while !h.is_finished() && t.elapsed().as_secs() < 60 { std::thread::sleep(std::time::Duration::from_millis(2)); }
        if !h.is_finished() { println!("FAIL the case does not terminate within 60 s"); std::process::exit(1); }
        let (d, r) = h.join().unwrap();
        println!("{}", d);
        match r { Ok(_) => println!("PASS"), Err(m) => { println!("FAIL {}", m); std::process::exit(1) } }
        return;
    }
    let secs: f64 = opt("--secs").map(|x| x.parse().unwrap()).unwrap_or(5.0);
    let max: u64 = opt("--max").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
    let nt: u64 = opt("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let trace = opt("--trace");
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let fail: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let mut cur = vec![]; let mut hs = vec![];
    for t in 0..nt {
        let (stop, next, fail, prop, trace) = (stop.clone(), next.clone(), fail.clone(), prop.clone(), trace.clone());
        let c = Arc::new((AtomicU64::new(u64::MAX), AtomicU64::new(0))); cur.push(c.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
            let mut seen: HashSet<u64> = HashSet::new(); let mut evals = 0u64; let mut samples = vec![];
            while !stop.load(Relaxed) {
                let base = next.fetch_add(16, Relaxed);
                if base >= max { break }
                for idx in base..base + 16 {
                    if stop.load(Relaxed) { break }
                    if let Some(f) = &trace { let _ = std::fs::write(format!("{}.{}", f, t), idx.to_string()); }
                    c.1.store(t0.elapsed().as_millis() as u64, Relaxed); c.0.store(idx, Relaxed);
                    let r = one(&prop, seed, idx);
                    c.0.store(u64::MAX, Relaxed);
                    evals += 1;
                    match r {
                        Ok(Some(h)) => { if seen.len() < 2_000_000 { seen.insert(h); } if samples.len() < 1 && idx > 500 { samples.push(idx); } }
                        Ok(None) => {}
                        Err(m) => { let mut f = fail.lock().unwrap(); if f.as_ref().map_or(true, |x| idx < x.0) { *f = Some((idx, m)); } stop.store(true, Relaxed); }
                    }
                }
            }
            (evals, seen, samples)
        }).unwrap());
    }
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let el = t0.elapsed();
        if el.as_secs_f64() > secs { stop.store(true, Relaxed); }
        let now = el.as_millis() as u64;
        for c in &cur {
            let i = c.0.load(Relaxed);
            if i != u64::MAX && now.saturating_sub(c.1.load(Relaxed)) > 25_000 && c.0.load(Relaxed) == i {
                println!("{{\"evaluations\":0,\"distinct\":0,\"samples\":[],\"fail\":{{\"idx\":{},\"msg\":\"does not terminate within 25 s\",\"input\":\"\"}}}}", i);
                std::process::exit(0);
            }
        }
        if hs.iter().all(|h| h.is_finished()) { break }
    }
    let mut ev = 0; let mut seen: HashSet<u64> = HashSet::new(); let mut sm = vec![];
    for h in hs { let (e, s, p) = h.join().unwrap(); ev += e; seen.extend(s); sm.extend(p); }
    sm.truncate(3);
    let p2 = prop.clone();
    let f = fail.lock().unwrap().clone();
    let (smp, fl) = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let smp: Vec<String> = sm.iter().map(|i| { let mut d = describe(&p2, seed, *i).0; if d.len() > 1500 { let mut k = 1500; while !d.is_char_boundary(k) { k -= 1 } d.truncate(k); } d }).collect();
        (smp, f.map(|(i, m)| { let d = describe(&p2, seed, i).0; (i, m, d) }))
    }).unwrap().join().unwrap();
    let fj = match fl { None => "null".to_string(), Some((i, m, d)) => format!("{{\"idx\":{},\"msg\":{},\"input\":{}}}", i, js(&m), js(&d)) };
    println!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"fail\":{}}}", ev, seen.len(), smp.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), fj);
}
