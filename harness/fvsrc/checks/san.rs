//! C22: workload to be run under Miri and the sanitizers (see tools/san.py)
//!
//! The verdict is the sanitizer's; the workload only has to reach far.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

use firrtl_ast as fa;

use super::history::{operate_on, make_text_sized, observe, observe_circuit, operate, Share, OPS_};
use super::util::*;
use crate::conv::Build;
use crate::gen::{Cfg, G};
use crate::rng::{mix, Rng};
use crate::text;

static TEXTS: AtomicU64 = AtomicU64::new(0);
static OPERATIONS: AtomicU64 = AtomicU64::new(0);
static SHARED: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static DISTINCT: std::sync::Mutex<std::collections::BTreeSet<u64>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
static PANICS: AtomicU64 = AtomicU64::new(0);

/// Strings must be valid; safe code cannot make others
fn check(v: &[String]) {
    for s in v {
        BYTES.fetch_add(s.len() as u64, Ordering::Relaxed);
        if std::str::from_utf8(s.as_bytes()).is_err() {
            eprintln!("FV-INVALID-STRING: {:?}", s.as_bytes());
            std::process::abort();
        }
        if s.len() > 20 {
            let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            DISTINCT.lock().expect("harness: lock").insert(h);
        }
    }
}

fn distinct() -> usize {
    DISTINCT.lock().expect("harness: lock").len()
}

fn quietly(f: impl FnOnce()) {
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        PANICS.fetch_add(1, Ordering::Relaxed);
    }
}

fn spawn<'s, 'e: 's>(s: &'s std::thread::Scope<'s, 'e>, small: bool, f: impl FnOnce() + Send + 's) {
    THREADS.fetch_add(1, Ordering::Relaxed);
    std::thread::Builder::new().stack_size(if small { 8 << 20 } else { 256 << 20 }).spawn_scoped(s, move || quietly(f)).expect("spawn");
}

fn round(seed: u64, small: bool) {
    let mut r = Rng::new(seed);
    let n = if small { 2 } else { 4 };
    match r.below(4) {
        // Threads at work on their own
        0 => std::thread::scope(|s| {
            let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
            for seed in seeds {
                spawn(s, small, move || {
                    let mut r = Rng::new(seed);
                    for _ in 0..2 {
                        let k = r.below(OPS_.len());
                        operate(k, &mut r, small);
                        OPERATIONS.fetch_add(1, Ordering::Relaxed);
                    }
                });
            }
        }),
        // Threads parsing the same text
        1 => {
            let t = make_text_sized(&mut r, small);
            let b = Barrier::new(n);
            std::thread::scope(|s| {
                for _ in 0..n {
                    let (t, b) = (&t, &b);
                    spawn(s, small, move || {
                        b.wait();
                        check(&observe(t));
                        TEXTS.fetch_add(1, Ordering::Relaxed);
                    });
                }
            });
        }
        // Threads sharing a circuit
        _ => {
            let c = if small { Cfg { modules: 2, stmts: 2, depth: 1, when_depth: 1, budget: 60, spot: 0, ..Default::default() } } else { Cfg { budget: 300, ..Default::default() } };
            let p = G::new(&mut r, c).prog();
            let x = if r.chance(1, 2) {
                Build::new().circuit(p.top_module().expect("harness: top"), &p.info)
            } else {
                match parse(&text::prog_text(&mut r, &p)) {
                    Ok(x) => x,
                    Err(_) => return,
                }
            };
            let b = Barrier::new(n);
            let shared = Share(Arc::new(x));
            std::thread::scope(|s| {
                for k in 0..n {
                    let mine = Share(shared.0.clone());
                    let b = &b;
                    spawn(s, small, move || {
                        let mine = mine;
                        b.wait();
                        let mut v = vec![];
                        if k % 2 == 0 {
                            let copy: fa::Circuit = mine.0.as_ref().clone();
                            observe_circuit(&copy, &mut v);
                        } else {
                            observe_circuit(&mine.0, &mut v);
                        }
                        check(&v);
                        SHARED.fetch_add(1, Ordering::Relaxed);
                        drop(mine);
                    });
                }
                drop(shared);
            });
        }
    }
}

/// Hostile bytes through a reader
fn bytes(seed: u64) {
    let mut r = Rng::new(seed);
    let mut b = make_text_sized(&mut r, true).into_bytes();
    for _ in 0..1 + r.below(3) {
        let i = r.below(b.len() + 1);
        match r.below(3) {
            0 => b.insert(i, r.u64() as u8),
            1 if i < b.len() => b[i] = r.u64() as u8,
            _ => b.truncate(i),
        }
    }
    match fa::Circuit::from_read(&b[..]) {
        Ok(x) => {
            let mut v = vec![];
            observe_circuit(&x, &mut v);
            check(&v);
        }
        Err(e) => check(&[e.to_string()]),
    }
    OPERATIONS.fetch_add(1, Ordering::Relaxed);
}

/// A circuit made with constructors, without the harness' generator
pub fn built(s: &str) {
    use fa::info::WithInfo;
    use fa::module::{Direction, Instance, Kind as MK, Module, Port};
    use fa::stmt::{Entity, Kind as SK, Statement};
    use fa::types::{BundleField, GroundType, Type};
    let ty: Type = vec![BundleField::new("a", Type::GroundType(GroundType::UInt(Some(3)))), BundleField::new("b", Type::GroundType(GroundType::Clock)).flipped()].into_iter().collect();
    let port = Arc::new(Port::new("p", ty.clone(), Direction::Input).with_info(Some(s.into())));
    let ext = Arc::new(Module::new("Ext".into(), vec![port.clone()], MK::empty_external()));
    let pe = Arc::new(Entity::Port(port.clone()));
    let r = |e: &Arc<Entity>| fa::Expression::Reference(e.clone());
    let f = fa::Expression::SubField { base: Arc::new(r(&pe)), index: "a".into() };
    let reg: Arc<Entity> = Arc::new(fa::Register::new("r", ty, f.clone()).with_reset(f.clone(), r(&pe)).into());
    let inst: Arc<Entity> = Arc::new(Instance::new("i", ext).into());
    let mem: Arc<Entity> = Arc::new(fa::Memory::new("m", Type::GroundType(GroundType::SInt(None)), 5).into());
    let v: Vec<Statement> = vec![
        SK::Declaration(reg.clone()).into(), SK::Declaration(inst.clone()).into(), SK::Declaration(mem).into(),
        Statement::from(SK::Connection { from: r(&pe), to: r(&reg) }).with_info(Some(s.into())),
        SK::Conditional { cond: f.clone(), when: Arc::from(vec![Statement::from(SK::Invalidate(r(&inst)))]), r#else: Arc::from(vec![Statement::from(SK::Attach(vec![r(&reg), f]))]) }.into(),
    ];
    let m = Arc::new(Module::new("M".into(), vec![port], MK::Regular { stmts: v }));
    let x = fa::Circuit::new(m);
    let mut o = vec![];
    observe_circuit(&x, &mut o);
    check(&o);
}

/// Texts for `miri` below, as generating them under Miri takes too long
pub fn texts(args: &[String]) -> i32 {
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let mut r = Rng::new(mix(num(0) ^ 0x5a));
    let mut n = 0;
    while n < num(1) {
        let s = make_text_sized(&mut r, true);
        if s.len() < 500 {
            if std::fs::write(format!("{}/{}.fir", args[2], n), s).is_err() {
                return 3;
            }
            n += 1;
        }
    }
    0
}

/// Panics are no matter here, save for those about misused unsafe functions
fn report_unsafe(i: &std::panic::PanicHookInfo) {
    let s = i.to_string();
    if s.contains("unsafe precondition") {
        eprintln!("{}", s);
    }
}

/// Usage: fv miri SEED DIR FIRST LAST
pub fn miri(args: &[String]) -> i32 {
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(report_unsafe));
    let mut r = Rng::new(mix(num(0)));
    for i in num(2)..num(3) {
        let s = std::fs::read_to_string(format!("{}/{}.fir", args[1], i)).expect("text");
        match i % 4 {
            0 => {
                // Threads parsing the same text
                std::thread::scope(|sc| for _ in 0..2 {
                    let s = &s;
                    spawn(sc, true, move || {
                        check(&observe(s));
                        TEXTS.fetch_add(1, Ordering::Relaxed);
                    });
                });
            }
            1 | 2 => {
                // Threads sharing a circuit
                if let Ok(x) = parse(&s) {
                    let shared = Share(Arc::new(x));
                    std::thread::scope(|sc| {
                        for k in 0..3 {
                            let mine = Share(shared.0.clone());
                            spawn(sc, true, move || {
                                let mine = mine;
                                let mut v = vec![];
                                if k % 2 == 0 {
                                    let copy: fa::Circuit = mine.0.as_ref().clone();
                                    observe_circuit(&copy, &mut v);
                                    let _ = copy == *mine.0;
                                } else {
                                    observe_circuit(&mine.0, &mut v);
                                }
                                check(&v);
                                SHARED.fetch_add(1, Ordering::Relaxed);
                                drop(mine);
                            });
                        }
                        drop(shared);
                    });
                }
            }
            _ => (),
        }
        if i % 4 != 0 {
            let k = r.below(OPS_.len());
            quietly(|| operate_on(k, &mut r, s.clone(), true));
            OPERATIONS.fetch_add(1, Ordering::Relaxed);
        }
        if i % 4 == 3 {
            let mut b = s.into_bytes();
            let k = r.below(b.len());
            b[k] = r.u64() as u8;
            quietly(|| match fa::Circuit::from_read(&b[..]) {
                Ok(x) => drop(x),
                Err(e) => check(&[e.to_string()]),
            });
            quietly(|| built("info"));
            OPERATIONS.fetch_add(2, Ordering::Relaxed);
        }
    }
    let g = |x: &AtomicU64| x.load(Ordering::Relaxed);
    println!("FV-SAN {{\"operations\": {}, \"texts\": {}, \"shared\": {}, \"threads\": {}, \"bytes\": {}, \"panics\": {}, \"distinct\": {}}}",
        g(&OPERATIONS), g(&TEXTS), g(&SHARED), g(&THREADS), g(&BYTES), g(&PANICS), distinct());
    0
}

/// Usage: fv san SEED ROUNDS small|big CASES
pub fn main(args: &[String]) -> i32 {
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let (seed, rounds, small, cases) = (num(0), num(1), args.get(2).map(|s| s == "small").unwrap_or(true), num(3));
    std::panic::set_hook(Box::new(report_unsafe));
    for i in 0..rounds {
        round(mix(seed) ^ mix(i), small);
        if i % 2 == 0 {
            quietly(|| bytes(mix(seed ^ 77) ^ mix(i)));
        }
    }
    // Leave no trace in the main thread either
    if small {
        for k in 0..OPS_.len() {
            quietly(|| operate(k, &mut Rng::new(mix(seed) ^ k as u64), true));
            OPERATIONS.fetch_add(1, Ordering::Relaxed);
        }
    }
    let c = if cases > 0 { crate::fw::exercise(seed, cases) } else { 0 };
    let g = |x: &AtomicU64| x.load(Ordering::Relaxed);
    println!("FV-SAN {{\"rounds\": {}, \"operations\": {}, \"texts\": {}, \"shared\": {}, \"threads\": {}, \"bytes\": {}, \"panics\": {}, \"cases\": {}, \"distinct\": {}}}",
        rounds, g(&OPERATIONS), g(&TEXTS), g(&SHARED), g(&THREADS), g(&BYTES), g(&PANICS), c, distinct());
    0
}
