//! C18: determinism; C20: memory is released

use std::collections::HashMap;
use std::io::Read;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

use firrtl_ast as fa;
use fa::expr::Reference;
use fa::info::WithInfo;
use fa::memory::simple;
use fa::module::Modules;
use fa::stmt::context::{Context, TopContext};
use fa::stmt::{Entity, Kind as SK, Statement};
use fa::types::{Combinator, MaxWidth, Type, TypeExt, Typed};
use fa::{Expression, Named};

use super::util::*;
use crate::alloc;
use crate::conv::{self, Build, CEx};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::mutate;
use crate::rng::{hash_str, mix, Rng};
use crate::text::{self, Lay};

// ------------------------------------------------------------ observation

/// Everything observable about a circuit
pub fn observe_circuit(x: &fa::Circuit, out: &mut Vec<String>) {
    out.push(format!("format {}", show(x).unwrap_or_else(|e| e)));
    let mut todo = vec![x.top_module().clone()];
    let mut seen: Vec<*const fa::Module> = vec![];
    while let Some(m) = todo.pop() {
        if seen.contains(&Arc::as_ptr(&m)) {
            continue;
        }
        seen.push(Arc::as_ptr(&m));
        let mut o = format!("module {} {:?}", m.name_ref(), m.info());
        for p in m.ports() {
            o += &format!(" {}:{:?}:{:?}", p, Typed::r#type(p.as_ref()).map(|t| t.to_string()).ok(), p.flow());
        }
        // The same by name, the last one first
        let names: Vec<String> = m.ports().map(|p| p.name_ref().to_string()).collect();
        for n in names.iter().rev().take(100).chain(std::iter::once(&"no port".to_string())) {
            o += &format!(" {}", m.port_by_name(n).map(|p| m.ports().position(|q| Arc::ptr_eq(p, q)).map_or(-2, |i| i as i64)).unwrap_or(-1));
        }
        o += &format!(" {}", m.kind().keyword());
        out.push(o);
        for s in m.statements() {
            observe_st(s, out);
        }
        out.push(m.referenced_modules().map(|r| r.name_ref().to_string()).collect::<Vec<_>>().join(" "));
        todo.extend(m.referenced_modules().cloned());
    }
}

fn observe_ty(t: &Type) -> String {
    let mut o = format!("{} passive {} max {:?}", t, t.is_passive(), MaxWidth::new().combine(t, t).map(|t: Type| t.to_string()).ok());
    if let Type::Bundle(v) = t {
        for f in v.iter().rev().take(100) {
            o += &format!(" {:?}", t.field(f.name_ref()).map(|f| f.orientation()));
        }
        o += &format!(" {}", t.field("no field").is_some());
    }
    let w = t.with_orientation(Default::default());
    o + &format!(" oriented {} {} vector {:?}", w.is_passive(), w == w.clone(), t.vector().map(|(_, n)| n))
}

fn observe_ex(e: &CEx, out: &mut Vec<String>) {
    let t = e.r#type();
    out.push(format!("{} type {:?} flow {:?} refs {}", e, t.as_ref().map(observe_ty).ok(), e.flow().ok(),
        e.references().map(|r| r.name_ref()).collect::<Vec<_>>().join(" ")));
}

fn observe_st(s: &Statement, out: &mut Vec<String>) {
    out.push(format!("declares {} instantiates {}", s.declarations().map(|d| d.name_ref()).collect::<Vec<_>>().join(" "),
        s.instantiations().map(|d| d.name_ref()).collect::<Vec<_>>().join(" ")));
    match s.kind() {
        SK::Connection { from, to } | SK::PartialConnection { from, to } => {
            observe_ex(from, out);
            observe_ex(to, out);
            if let (Ok(a), Ok(b)) = (from.r#type(), to.r#type()) {
                out.push(format!("{} {}", TypeExt::eq(&a, &b), a.weak_eq(&b)));
            }
        }
        SK::Invalidate(e) => observe_ex(e, out),
        SK::Attach(v) => v.iter().for_each(|e| observe_ex(e, out)),
        SK::Conditional { cond, when, r#else } => {
            observe_ex(cond, out);
            when.iter().chain(r#else.iter()).for_each(|s| observe_st(s, out));
        }
        SK::Declaration(e) => {
            let (t, f) = (e.r#type(), e.flow());
            out.push(format!("{} {:?} {:?}", e.name_ref(), t.ok().map(|t| t.to_string()), f));
            match e.as_ref() {
                Entity::Node { value, .. } => observe_ex(value, out),
                Entity::Memory(m) => out.push(format!("{} {} {} {:?} {}", m.depth(), m.read_latency(), m.write_latency(), m.read_under_write(),
                    m.ports().map(|p| p.to_string()).collect::<Vec<_>>().join(" "))),
                Entity::Register(g) => {
                    observe_ex(g.clock(), out);
                    if let Some(v) = g.reset_value() {
                        observe_ex(v, out);
                    }
                }
                Entity::SimpleMemPort(p) => {
                    out.push(format!("{:?} {}", p.direction(), p.memory()));
                    observe_ex(p.address(), out);
                    observe_ex(p.clock(), out);
                }
                Entity::Instance(i) => out.push(format!("{} {}", i, i.module().name_ref())),
                _ => (),
            }
        }
        _ => (),
    }
}

/// Everything observable about a text
pub fn observe(s: &str) -> Vec<String> {
    let mut out = vec![];
    match fa::circuit::parse(s) {
        Ok(x) => {
            let mut k = Canon::new(false);
            out.push(conv::canon_c(&mut k, &x));
            out.push(k.dump());
            observe_circuit(&x, &mut out);
            let c = x.clone();
            out.push(format!("equal {}", c == x));
        }
        Err(e) => out.push(format!("error {}", e)),
    }
    match fa::circuit::consumer(s) {
        Ok(mut c) => {
            for m in &mut c {
                match m {
                    Ok(m) => out.push(format!("yields {}", m.name_ref())),
                    Err(e) => out.push(format!("yields error {}", e)),
                }
            }
            out.push(format!("consumed {}", c.circuit().is_some()));
        }
        Err(e) => out.push(format!("no consumer: {}", e)),
    }
    out
}

fn digest(v: &[String]) -> u64 {
    v.iter().fold(0, |h, s| mix(h ^ hash_str(s)))
}

fn compare(what: &str, s: &str, a: &[String], b: &[String]) -> Verdict {
    if a == b {
        return Ok(());
    }
    for (x, y) in a.iter().zip(b) {
        ensure!(x == y, "results differ {}:\n  {}\n  {}\n{}", what, x, y, q(s));
    }
    Err(format!("results differ {}: {} and {} items\n{}", what, a.len(), b.len(), q(s)))
}

fn make_text(r: &mut Rng) -> String {
    make_text_sized(r, false)
}

pub fn make_text_sized(r: &mut Rng, small: bool) -> String {
    if !small && r.chance(1, 8) {
        return super::reject::deep_text(r, 40);
    }
    let c = match r.below(4) {
        _ if small => Cfg { modules: 2, stmts: 2, depth: 1, when_depth: 1, budget: 60, spot: 0, ..Default::default() },
        0 => Cfg { modules: 1, stmts: 3, depth: 2, when_depth: 1, ..Default::default() },
        1 => Cfg { modules: 3, stmts: 3, depth: 2, when_depth: 2, ..Default::default() },
        2 => Cfg { modules: 2, stmts: 6, depth: 3, when_depth: 3, pool: &["a", "b", "c", "d", "e", "f", "g", "h", "io", "clk"], ..Default::default() },
        _ => Cfg { modules: 4, stmts: 8, depth: 3, ..Default::default() },
    };
    let p = G::new(r, Cfg { budget: c.budget.min(400), ..c }).prog();
    let mut l = text::prog_lines(r, true, &p);
    let bad = r.below(3);
    if bad == 0 {
        mutate::line(r, &mut l);
    } else if bad == 1 && r.chance(1, 2) {
        mutate::lines(r, &mut l);
    }
    let lay = if r.chance(1, 2) { Lay::plain() } else { Lay::random(r) };
    text::layout(r, &lay, &l).0
}

/// A fixed set of texts which all cases come back to
fn pooled(i: u64) -> String {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    make_text(&mut Rng::new(mix(seed ^ 0xC18) ^ mix(i)))
}

const POOL: u64 = 96;

// ----------------------------------------------------------------- C18

struct Probe<T>(PhantomData<T>);
trait NotShared {
    const YES: bool = false;
}
impl<T> NotShared for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const YES: bool = true;
}

fn c18_marker(c: &mut Case) -> Verdict {
    macro_rules! probe {
        ($($t:ty),*) => {
            $(
                c.eval();
                ensure!(Probe::<$t>::YES, "{} cannot be shared between threads (not Send + Sync)", stringify!($t));
                c.count("types which can be shared");
                c.nontrivial(stringify!($t));
            )*
        }
    }
    probe!(fa::Circuit, fa::Module, fa::module::Port, fa::module::Instance, Statement, Entity, CEx, Type, fa::Memory, simple::Memory, fa::Register<Arc<Entity>>);
    Ok(())
}

/// Circuits may be shared: checked by `c18_marker`
pub struct Share<T>(pub T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

fn shareable() -> bool {
    Probe::<fa::Circuit>::YES
}

/// What each pooled text was first observed to give, in a fresh thread
fn first() -> &'static Mutex<HashMap<u64, Arc<Vec<String>>>> {
    static F: OnceLock<Mutex<HashMap<u64, Arc<Vec<String>>>>> = OnceLock::new();
    F.get_or_init(Default::default)
}

fn on_fresh_thread(s: &str) -> Vec<String> {
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || observe(s)).expect("spawn").join()
            .unwrap_or_else(|_| vec!["panicked".into()])
    })
}

fn pooled_first(i: u64) -> (String, Arc<Vec<String>>) {
    let s = pooled(i);
    if let Some(o) = first().lock().unwrap().get(&i) {
        return (s, o.clone());
    }
    let o = Arc::new(on_fresh_thread(&s));
    let o = first().lock().unwrap().entry(i).or_insert(o).clone();
    (s, o)
}

/// Long histories: texts observed over and over, between others
fn c18_history(c: &mut Case) -> Verdict {
    for _ in 0..6 {
        let i = c.r.below(POOL as usize) as u64;
        let (s, want) = pooled_first(i);
        ensure!(want.first().map(|s| s.as_str()) != Some("panicked"), "panic while observing\n{}", q(&s));
        // something else in between
        match c.r.below(4) {
            0 => {
                let t = make_text(&mut c.r);
                let _ = fa::circuit::parse(&t);
                c.count("other calls in between");
            }
            1 => {
                let t: String = s.chars().take(c.r.below(s.len() + 1)).collect();
                let _ = fa::circuit::parse(&t);
                let _ = fa::Circuit::from_read(t.as_bytes());
                c.count("other calls in between");
            }
            2 => {
                // drop a consumer halfway
                if let Ok(mut k) = fa::circuit::consumer(&s) {
                    let _ = k.next();
                }
                c.count("other calls in between");
            }
            _ => (),
        }
        let got = observe(&s);
        c.eval();
        compare("from when first observed", &s, &want, &got)?;
        if want[0].starts_with("error") { c.count("failing texts observed again") } else { c.count("valid texts observed again") }
        c.nontrivial(&s);
    }
    Ok(())
}

/// Long histories of one operation, after which all others still work
fn c18_long(c: &mut Case) -> Verdict {
    use super::reject::{BAD, BADMEM, BADX};
    let in_module = |l: &str| format!("circuit a:\n  module a:\n    input i: UInt<3>\n    output o: UInt<3>\n    {}\n", l);
    let (kind, s) = match c.r.below(8) {
        0 | 1 => {
            let b = BAD[(c.idx as usize / 2) % BAD.len()];
            let l = match c.r.below(3) { 0 => format!("when i:\n      skip\n      {}\n    skip", b), _ => b.to_string() };
            ("malformed statement", in_module(&l))
        }
        2 => match c.r.below(2) {
            0 => ("malformed external module", format!("circuit a:\n  extmodule a:\n    {}\n", c.r.pick(BADX))),
            _ => ("malformed memory", in_module(&format!("mem m:\n      depth => 4\n      {}\n      data-type => UInt", c.r.pick(BADMEM)))),
        },
        3 => {
            let mut cs: Vec<char> = in_module("node x = add(i, i)").chars().collect();
            let at = cs.len() - 1 - c.r.below(30);
            match c.r.below(3) {
                0 => drop(cs.remove(at)),
                1 => cs[at] = *c.r.pick(&['x', ' ', '(', ')', ',', '1', '"', '\\', '<', 'é', '\n']),
                _ => cs.truncate(at),
            }
            ("malformed expression", cs.into_iter().collect())
        }
        4 => {
            let op = match c.r.below(3) { 0 => c.r.pick(crate::gen::KEYWORDS).to_string(), 1 => "q".to_string(), _ => G::new(&mut c.r, Cfg::default()).raw_ident() };
            let e = *c.r.pick(&["(i)", "(i, i)", "(i, 3)", "(i, 3, 1)", "()", "(", "<3>(1)", "(i, i, i)", ".x", "[1]", "[i]", ""]);
            ("odd expression", in_module(&format!("node x = {}{}", op, e)))
        }
        5 => ("mutated text", make_text_sized(&mut c.r, true)),
        6 => {
            let mut g = G::new(&mut c.r, Cfg { modules: 1, stmts: 3, depth: 2, when_depth: 1, budget: 60, spot: 0, ..Default::default() });
            let p = g.prog();
            ("valid text", text::prog_text(&mut c.r, &p))
        }
        _ => ("pooled text", pooled(c.r.below(POOL as usize) as u64)),
    };
    let probes: Vec<(String, Arc<Vec<String>>)> = (0..3).map(|_| pooled_first(c.r.below(POOL as usize) as u64)).collect();
    let n = (1_500_000 / (s.len() + 20)).clamp(200, 20000);
    let how = c.r.below(4);
    let want = on_fresh_thread(&s);
    let calls = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || -> Result<usize, String> {
            match how {
                0 => for _ in 0..n {
                    let _ = fa::circuit::consumer(&s).map(|mut k| k.next().is_some());
                },
                1 => match fa::circuit::parse(&s) {
                    Ok(x) => for _ in 0..n {
                        let _ = show(&x);
                        for s in x.top_module().statements() {
                            s.declarations().for_each(|e| drop(e.r#type()));
                        }
                    },
                    Err(e) => for _ in 0..n {
                        let _ = show(&e);
                    },
                },
                _ => for _ in 0..n {
                    let _ = fa::circuit::parse(&s);
                },
            }
            // This thread and all others
            compare("after many calls", &s, &want, &observe(&s))?;
            for (t, o) in &probes {
                compare("after many calls with another text", t, o, &observe(t))?;
            }
            Ok(n)
        }).expect("spawn").join().unwrap_or_else(|_| Err(format!("panic after many calls with\n{}", q(&s))))
    }).map_err(|e| format!("{}\n{} {} calls with\n{}", e, n, kind, q(&s)))?;
    for (t, o) in &probes {
        c.eval();
        compare("on a thread, after many calls on another", t, o, &observe(t)).map_err(|e| format!("{}\n{} calls with\n{}", e, n, q(&s)))?;
    }
    c.add("calls in long histories", calls as u64);
    c.count(&format!("long histories, {}", kind));
    c.nontrivial(&s);
    Ok(())
}

/// Fresh inputs: twice in a row, and on a new thread
fn c18_repeat(c: &mut Case) -> Verdict {
    let s = make_text(&mut c.r);
    let a = observe(&s);
    let b = observe(&s);
    c.eval();
    compare("on repetition", &s, &a, &b)?;
    let d = on_fresh_thread(&s);
    compare("on another thread", &s, &a, &d)?;
    c.count("repetitions");
    // Built by constructors
    let p = G::new(&mut c.r, Cfg { budget: 400, ..Default::default() }).prog();
    let top = p.top_module().expect("harness: top");
    let mut o = vec![];
    for _ in 0..2 {
        let x = Build::new().circuit(top, &p.info);
        let mut v = vec![];
        observe_circuit(&x, &mut v);
        let mut w = vec![];
        observe_circuit(&x, &mut w);
        compare("on repetition", &v[0], &v, &w)?;
        o.push(v);
    }
    compare("between equal circuits", &o[0][0], &o[0], &o[1])?;
    c.nontrivial(&s);
    c.sample(|| s.clone());
    Ok(())
}

/// Threads at work on the same and different texts
fn c18_threads(c: &mut Case) -> Verdict {
    let n = 2 + c.r.below(4);
    let mut texts: Vec<String> = (0..3 + c.r.below(4)).map(|_| make_text(&mut c.r)).collect();
    texts.push(pooled(c.r.below(POOL as usize) as u64));
    // half of the time, before any sequential observation
    let early = c.r.chance(1, 2);
    let mut want: Vec<Vec<String>> = if early { vec![] } else { texts.iter().map(|s| observe(s)).collect() };
    let barrier = Barrier::new(n);
    let overlap = AtomicUsize::new(0);
    let busy = AtomicUsize::new(0);
    let seeds: Vec<u64> = (0..n).map(|_| c.r.u64()).collect();
    let all: Vec<Vec<(usize, Vec<String>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|seed| {
            let (texts, barrier, overlap, busy) = (&texts, &barrier, &overlap, &busy);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut r = Rng::new(*seed);
                barrier.wait();
                let mut v = vec![];
                for _ in 0..4 {
                    let i = r.below(texts.len());
                    if busy.fetch_add(1, Ordering::SeqCst) > 0 {
                        overlap.fetch_add(1, Ordering::SeqCst);
                    }
                    v.push((i, observe(&texts[i])));
                    busy.fetch_sub(1, Ordering::SeqCst);
                    if r.chance(1, 4) {
                        std::thread::yield_now();
                    }
                }
                v
            }).expect("spawn")
        }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<_, _>>()
    }).map_err(|_| format!("a thread panicked at work on\n{}", texts.iter().map(|t| q(t)).collect::<Vec<_>>().join("\n")))?;
    if early {
        want = texts.iter().map(|s| observe(s)).collect();
    }
    for v in &all {
        for (i, o) in v {
            c.eval();
            compare("between threads", &texts[*i], &want[*i], o)?;
        }
    }
    c.add("observations overlapping others", overlap.load(Ordering::SeqCst) as u64);
    c.add("observations on threads", 4 * n as u64);
    c.nontrivial(&texts[0]);
    Ok(())
}

/// A text nested deeply everywhere
fn deep_text(r: &mut Rng) -> String {
    let n = 5 + r.below(60);
    let mut s = String::from("circuit a:\n  module a:\n    input i: UInt<3>\n");
    let wrap = |r: &mut Rng, opts: &[(&str, &str)], n: usize, leaf: &str| {
        let (mut a, mut b) = (String::new(), vec![]);
        let o = *r.pick(opts);
        for _ in 0..n {
            let (x, y) = if r.chance(1, 3) { *r.pick(opts) } else { o };
            a.push_str(x);
            b.push(y);
        }
        a.push_str(leaf);
        b.iter().rev().for_each(|y| a.push_str(y));
        a
    };
    const T: &[(&str, &str)] = &[("{a: ", "}"), ("{flip a: ", "}"), ("{b: UInt, a: ", "}"), ("{flip a: ", ", b: Clock}"), ("", "[1]"), ("", "[2]")];
    const E: &[(&str, &str)] = &[("add(", ", i)"), ("not(", ")"), ("mux(i, ", ", i)"), ("cat(i, ", ")"), ("validif(i, ", ")"), ("pad(", ", 4)"), ("asUInt(", ")"), ("bits(", ", 0, 0)")];
    for k in 0..1 + r.below(12) {
        let l = match r.below(4) {
            0 | 1 => format!("wire w{}: {}", k, wrap(r, T, n, "UInt<3>")),
            2 => format!("node n{} = {}", k, wrap(r, E, n, "i")),
            _ => {
                let mut l = String::new();
                for d in 0..n {
                    l.push_str(&format!("{}when i:\n{}    ", " ".repeat(d), " ".repeat(d + 1)));
                }
                l.push_str("skip");
                l
            }
        };
        s.push_str(&format!("    {}\n", l));
    }
    if r.chance(1, 4) {
        s.push_str(*r.pick(&["    oops\n", "    node x = add(i\n", "    wire x: {a: {b: UInt<70000>}}\n"]));
    }
    s
}

/// Many threads, all of them deep inside of some construct
fn c18_deep(c: &mut Case) -> Verdict {
    let n = 8 + c.r.below(9);
    let k = 1 + c.r.below(3);
    let texts: Vec<String> = (0..k).map(|_| deep_text(&mut c.r)).collect();
    fn light(s: &str) -> Vec<String> {
        match fa::circuit::parse(s) {
            Ok(x) => {
                let mut o = vec![show(&x).unwrap_or_else(|e| e)];
                for s in x.top_module().statements() {
                    o.push(s.declarations().map(|d| format!("{} {:?}", d.name_ref(), d.r#type().ok().map(|t| observe_ty(&t)))).collect::<Vec<_>>().join(" "));
                }
                o
            }
            Err(e) => vec![format!("error {}", e)],
        }
    }
    let early = c.r.chance(1, 2);
    let mut want: Vec<Vec<String>> = if early { vec![] } else { texts.iter().map(|s| light(s)).collect() };
    let barrier = Barrier::new(n);
    let all: Vec<Vec<(usize, Vec<String>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|k| {
            let (texts, barrier) = (&texts, &barrier);
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                barrier.wait();
                (0..3).map(|i| (i + k) % texts.len()).map(|i| (i, light(&texts[i]))).collect()
            }).expect("spawn")
        }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<_, _>>()
    }).map_err(|_| format!("a thread panicked at work on\n{}", texts.iter().map(|t| q(t)).collect::<Vec<_>>().join("\n")))?;
    if early {
        want = texts.iter().map(|s| light(s)).collect();
    }
    for v in &all {
        for (i, o) in v {
            c.eval();
            compare("between threads", &texts[*i], &want[*i], o)?;
        }
    }
    c.add("deep texts on many threads", 3 * n as u64);
    c.nontrivial(&texts[0]);
    Ok(())
}

type Call = Box<dyn Fn() -> String + Send + Sync>;

/// A call of a small operation on some input
fn small_call(kind: usize, r: &mut Rng) -> Call {
    match kind {
        0 => {
            use fa::types::GroundType as GT;
            let f = |r: &mut Rng| crate::conv::b_gr(&Gr::F(if r.chance(1, 8) { None } else { Some(r.below(40) as u16) }, if r.chance(1, 8) { None } else { Some(r.range(-9, 20) as i16) }));
            let (a, b): (GT, GT) = (f(r), f(r));
            Box::new(move || format!("{:?}", MaxWidth::new().combine(&Type::GroundType(a), &Type::GroundType(b)).map(|t: Type| t.to_string()).ok()))
        }
        1 | 2 => {
            let a = if kind == 1 { Ty::G(G::new(r, Cfg::default()).gr()) } else { super::types::some_ty(r) };
            let b = super::types::near(r, &a).0;
            let (a, b) = (crate::conv::b_ty(&a), crate::conv::b_ty(&b));
            Box::new(move || {
                let m = |a: &Type, b: &Type| MaxWidth::new().combine(a, b).map(|t: Type| t.to_string()).ok();
                format!("{} {} {} {} {:?} {:?} {:?}", a, TypeExt::eq(&a, &b), a.weak_eq(&b), a.is_passive(), m(&a, &b), m(&a, &a), m(&b, &b))
            })
        }
        3 | 4 => {
            let p = G::new(r, Cfg { modules: 1, stmts: 3, depth: if kind == 3 { 1 } else { 2 }, when_depth: 0, budget: 40, spot: 0, ..Default::default() }).prog();
            let x = Build::new().circuit(p.top_module().expect("harness: top"), &p.info);
            let ss: Vec<Statement> = x.top_module().statements().to_vec();
            let share = Share(ss);
            Box::new(move || {
                let share = &share;
                let mut o = vec![];
                share.0.iter().for_each(|s| observe_st(s, &mut o));
                o.join("\n")
            })
        }
        5 => {
            let s = format!("circuit a:\n  module a:\n    {} {}: UInt<{}>\n    node n = {}\n", r.pick(&["input", "output"]), r.pick(&["i", "ii"]), r.below(70000), r.pick(&["i", "add(i, i)", "UInt<4>(3)", "SInt(-5)", "tail(i, 3)"]));
            Box::new(move || match fa::circuit::parse(&s) {
                Ok(x) => x.to_string(),
                Err(e) => format!("error {}", e),
            })
        }
        6 => {
            let s = format!("circuit a:\n  module a:\n    {}\n", r.pick(super::reject::BAD));
            Box::new(move || match fa::circuit::parse(&s) {
                Ok(x) => x.to_string(),
                Err(e) => format!("error {}", e),
            })
        }
        7 => {
            let m = G::new(r, Cfg::default()).mem();
            let m = Share(Arc::new(Entity::from(Build::mem("m", &m))));
            Box::new(move || { let m = &m; format!("{:?} {:?}", m.0.r#type().map(|t| t.to_string()), m.0.flow()) })
        }
        _ => {
            let p = G::new(r, Cfg { modules: 2, stmts: 2, depth: 1, when_depth: 1, budget: 40, spot: 0, ..Default::default() }).prog();
            let x = Share(Build::new().circuit(p.top_module().expect("harness: top"), &p.info));
            Box::new(move || { let x = &x; format!("{} {} {}", x.0, x.0 == x.0.clone(), x.0.top_module().referenced_modules().map(|m| m.name_ref()).collect::<Vec<_>>().join(" ")) })
        }
    }
}

/// Several threads repeating small operations, each on a few inputs in turn
fn c18_hammer(c: &mut Case) -> Verdict {
    ensure!(shareable(), "circuits cannot be shared between threads (not Send + Sync)");
    let kind = c.idx as usize % 9;
    let calls: Vec<Call> = (0..2 + c.r.below(3)).map(|_| small_call(kind, &mut c.r)).collect();
    let n = 2 + c.r.below(3);
    let want: Vec<String> = calls.iter().map(|f| f()).collect();
    // In terms of work done, not of time
    let rounds = (400_000 / want.iter().map(|w| w.len() + 40).max().unwrap_or(40)).clamp(50, 4000);
    let barrier = Barrier::new(n);
    let all: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|t| {
            let (calls, want, barrier) = (&calls, &want, &barrier);
            let mut r = Rng::new(c.r.u64());
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                barrier.wait();
                for k in 0..rounds {
                    // The same twice in a row, or thrice
                    let i = (t + k / 2 + r.below(8) / 7) % calls.len();
                    let o = calls[i]();
                    ensure!(o == want[i], "results differ while other threads are at work:\n  {}\n  {}", want[i], o);
                }
                Ok(())
            }).expect("spawn")
        }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<_, _>>()
    }).map_err(|_| format!("a thread panicked repeating one of\n{}", want.join("\n")))?;
    for r in all {
        c.eval();
        r?;
    }
    c.add("small operations repeated on threads", (n * rounds) as u64);
    c.count(["fixed point combinations", "ground types", "types", "plain statements", "statements", "short texts", "malformed lines", "memories", "circuits"][kind]);
    c.nontrivial(&want.join("\n"));
    Ok(())
}

/// One circuit, used and dropped by several threads
fn c18_shared(c: &mut Case) -> Verdict {
    ensure!(shareable(), "circuits cannot be shared between threads (not Send + Sync)");
    let n = 2 + c.r.below(4);
    let p = G::new(&mut c.r, Cfg { budget: 400, ..Default::default() }).prog();
    let top = p.top_module().expect("harness: top");
    let x = if c.r.chance(1, 2) {
        Build::new().circuit(top, &p.info)
    } else {
        let s = text::prog_text(&mut c.r, &p);
        parse(&s).map_err(|e| format!("valid text is rejected: {}\n{}", e, q(&s)))?
    };
    let early = c.r.chance(1, 2);
    let mut want = vec![];
    if !early {
        observe_circuit(&x, &mut want);
    }
    let keep = x.clone();
    let shared = Share(Arc::new(x));
    let barrier = Barrier::new(n);
    let all: Vec<Vec<Vec<String>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|k| {
            let mine = Share(shared.0.clone());
            let barrier = &barrier;
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mine = mine;
                let mut v = vec![];
                barrier.wait();
                for i in 0..2 {
                    let mut o = vec![];
                    if (i + k) % 2 == 0 {
                        let copy = mine.0.as_ref().clone();
                        observe_circuit(&copy, &mut o);
                    } else {
                        observe_circuit(&mine.0, &mut o);
                    }
                    v.push(o);
                }
                // The last one drops
                drop(mine);
                v
            }).expect("spawn")
        }).collect();
        drop(shared);
        hs.into_iter().map(|h| h.join()).collect::<Result<_, _>>()
    }).map_err(|_| "a thread sharing a circuit panicked".to_string())?;
    if early {
        observe_circuit(&keep, &mut want);
    }
    for v in &all {
        for o in v {
            c.eval();
            compare("between threads sharing a circuit", &want[0], &want, o)?;
        }
    }
    let mut o = vec![];
    observe_circuit(&keep, &mut o);
    compare("after threads shared the circuit", &want[0], &want, &o)?;
    c.add("circuits shared by threads", 1);
    c.nontrivial(&want[0]);
    Ok(())
}

/// Digests of the pooled texts, for comparison between processes
pub fn print_digests() {
    for i in 0..POOL {
        println!("{} {}", i, digest(&observe(&pooled(i))));
    }
}

fn c18_process(c: &mut Case) -> Verdict {
    let exe = std::env::current_exe().expect("harness: exe");
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("digests");
    match c.idx % 3 {
        0 => (),
        1 => { cmd.current_dir("/").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu"); }
        _ => { cmd.env_remove("HOME").env_remove("PATH").env("NO_COLOR", "1").env("COLUMNS", "20").env("RUST_BACKTRACE", "full"); }
    }
    let o = cmd.output().expect("harness: run");
    assert!(!o.stdout.is_empty() || o.status.success(), "harness: no digests");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    ensure!(o.status.success(), "another process observing the texts ends with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    let mut n = 0;
    for l in text.lines() {
        let (i, d) = l.split_once(' ').expect("harness: digest");
        let (i, d): (u64, u64) = (i.parse().expect("harness: digest"), d.parse().expect("harness: digest"));
        let (s, want) = pooled_first(i);
        c.eval();
        ensure!(digest(&want) == d, "results differ between processes\n{}", q(&s));
        n += 1;
    }
    assert!(n == POOL, "harness: {} digests", n);
    c.add("digests compared between processes", n);
    c.nontrivial(&format!("{}", c.idx));
    Ok(())
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "everything observable about texts and circuits (content or error text, formatted text, types, flows, traversals in order) recorded and compared between repetitions, after histories of other calls, between threads \
               working concurrently (same text, other texts, one shared AST) and between processes with different environments; distinct by text",
        assumptions: &["interleavings are those the scheduler produces with 8 busy workers and up to 5 threads of each case"],
        parts: vec![
            Part { name: "marker", quick: 1, thorough: 1, f: c18_marker },
            Part { name: "history", quick: 6000, thorough: 200000, f: c18_history },
            Part { name: "repeat", quick: 6000, thorough: 200000, f: c18_repeat },
            Part { name: "long", quick: 1500, thorough: 40000, f: c18_long },
            Part { name: "threads", quick: 1500, thorough: 50000, f: c18_threads },
            Part { name: "shared", quick: 2000, thorough: 80000, f: c18_shared },
            Part { name: "deep", quick: 1000, thorough: 40000, f: c18_deep },
            Part { name: "hammer", quick: 2700, thorough: 90000, f: c18_hammer },
            Part { name: "process", quick: 3, thorough: 30, f: c18_process },
        ],
        must: &["types which can be shared", "failing texts observed again", "valid texts observed again", "other calls in between", "repetitions",
            "observations overlapping others", "circuits shared by threads", "deep texts on many threads", "small operations repeated on threads", "digests compared between processes"],
    }
}

// ----------------------------------------------------------------- C20

struct Limited(usize);
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

struct Fails<'a>(&'a [u8], usize);
impl<'a> Read for Fails<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "failed".to_string()));
        }
        let n = self.0.len().min(b.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

pub const OPS_: &[&str] = &["parse", "parse and observe", "stream partially", "into circuit", "read", "failing reader", "format to a failing writer", "build and observe",
    "partial traversal", "context", "clone and compare", "modules", "edit"];

/// One operation on content of its own; everything is dropped
pub fn operate(op: usize, r: &mut Rng, small: bool) {
    let s = make_text_sized(r, small);
    operate_on(op, r, s, small)
}

pub fn operate_on(op: usize, r: &mut Rng, s: String, small: bool) {
    match OPS_[op] {
        "parse" => drop(fa::circuit::parse(&s).map_err(|e| e.to_string())),
        "parse and observe" => drop(observe(&s)),
        "stream partially" => {
            if let Ok(mut c) = fa::circuit::consumer(&s) {
                let n = r.below(3);
                for _ in 0..n {
                    let m = c.next();
                    let _ = c.circuit();
                    drop(m);
                }
            }
        }
        "into circuit" => {
            if let Ok(mut c) = fa::circuit::consumer(&s) {
                for _ in 0..r.below(3) {
                    drop(c.next());
                }
                drop(c.into_circuit().map_err(|e| e.to_string()));
            }
        }
        "read" => drop(fa::Circuit::from_read(s.as_bytes()).map_err(|e| e.to_string())),
        "failing reader" => {
            let n = r.below(s.len() + 1);
            let e = fa::Circuit::from_read(Fails(s.as_bytes(), n));
            drop(e.map_err(|e| e.to_string()));
            let mut b = s.clone().into_bytes();
            b.insert(n, 0xff);
            drop(fa::Circuit::from_read(&b[..]));
        }
        "format to a failing writer" => {
            if let Ok(x) = fa::circuit::parse(&s) {
                for _ in 0..3 {
                    let _ = std::fmt::write(&mut Limited(r.below(s.len() + 1)), format_args!("{}", x));
                }
            }
        }
        "build and observe" if cfg!(miri) => super::san::built(&s),
        "build and observe" => {
            let c = if small { Cfg { modules: 2, stmts: 2, depth: 1, budget: 60, spot: 0, ..Default::default() } } else { Cfg { budget: 300, ..Default::default() } };
            let p = G::new(r, c).prog();
            let x = Build::new().circuit(p.top_module().expect("harness: top"), &p.info);
            let mut o = vec![];
            observe_circuit(&x, &mut o);
        }
        "partial traversal" => {
            if let Ok(x) = fa::circuit::parse(&s) {
                let m = x.top_module();
                let n = r.below(3);
                drop(m.referenced_modules().take(n).cloned().collect::<Vec<_>>());
                for s in m.statements() {
                    drop(s.declarations().take(n).cloned().collect::<Vec<_>>());
                    drop(s.instantiations().take(n).cloned().collect::<Vec<_>>());
                    if let SK::Connection { from, to } = s.kind() {
                        let mut i = from.references();
                        let _ = i.next();
                        let mut j = to.references();
                        let _ = j.next();
                        let _ = i.next();
                    }
                }
            }
        }
        "context" => {
            if let Ok(x) = fa::circuit::parse(&s) {
                let ms: HashMap<String, Arc<fa::Module>> = x.top_module().referenced_modules().map(|m| (m.name_ref().to_string(), m.clone())).collect();
                let f = |n: &str| ms.get(n).cloned();
                let mut c = TopContext::new(f).with_ports(x.top_module().ports().cloned());
                for s in x.top_module().statements() {
                    let mut sub = fa::stmt::context::SubContext::of(&mut c);
                    for d in s.declarations() {
                        sub.add_entity(d.clone());
                    }
                    let _ = sub.entity("x").is_some();
                }
                drop(c.clone());
            }
        }
        "clone and compare" => {
            if let (Ok(x), Ok(y)) = (fa::circuit::parse(&s), fa::circuit::parse(&s)) {
                let z = x.clone();
                assert!(z == x);
                let _ = x == y;
                for (a, b) in x.top_module().statements().iter().zip(y.top_module().statements()) {
                    let _ = a == b;
                    let _ = a.clone();
                }
            }
        }
        "modules" => {
            let ext = Arc::new(fa::Module::new("Ext".into(), None, fa::module::Kind::empty_external()));
            let mut m = Modules::new(&s);
            m.add_module(ext);
            for _ in 0..2 {
                drop(m.next());
            }
            let _ = m.module("Ext").is_some();
        }
        "edit" => {
            if let Ok(x) = fa::circuit::parse(&s) {
                let mut m = x.top_module().as_ref().clone();
                if let fa::module::Kind::Regular { stmts: v } = m.kind_mut() {
                    v.push(Statement::from(SK::Empty).with_info(Some(s.clone())));
                    let k = v.len() / 2;
                    v.truncate(k);
                }
                let y = fa::Circuit::new(Arc::new(m)).with_info(Some(s.clone()));
                drop(show(&y));
            }
        }
        o => panic!("harness: {}", o),
    }
    let _: Option<Expression<Arc<Entity>>> = None;
}

fn sequence(seed: u64, n: usize) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let op = r.below(OPS_.len());
        operate(op, &mut r, false);
    }
}

/// Repeating a sequence leaves the heap as it was
fn c20_repeat(c: &mut Case) -> Verdict {
    let (seed, n) = (c.r.u64(), 1 + c.r.below(5));
    sequence(seed, n);
    let a = alloc::snap();
    for _ in 0..3 {
        sequence(seed, n);
    }
    let b = alloc::snap();
    c.eval();
    ensure!(a.live == b.live && a.blocks == b.blocks, "repeating a sequence of {} operations three times leaves {} more bytes in {} more blocks; first operation: {}",
        n, b.live - a.live, b.blocks - a.blocks, OPS_[Rng::new(seed).below(OPS_.len())]);
    c.add("operations", 4 * n as u64);
    c.add("bytes allocated and released", b.bytes - a.bytes);
    c.nontrivial(&format!("{}", seed));
    Ok(())
}

/// The same for each operation by itself, on fresh content each time
fn c20_fresh(c: &mut Case) -> Verdict {
    let op = c.idx as usize % OPS_.len();
    let seed = c.r.u64();
    // Enough for buffers that may be kept to reach their size
    let mut r = Rng::new(seed);
    for _ in 0..4 {
        operate(op, &mut r, false);
    }
    let (mut grew, mut first, mut last) = (0, None, 0);
    const N: usize = 24;
    for _ in 0..N {
        let a = alloc::snap();
        operate(op, &mut r, false);
        let b = alloc::snap();
        if b.live > a.live || b.blocks > a.blocks {
            grew += 1;
        }
        first.get_or_insert(a.live);
        last = b.live;
    }
    c.eval();
    ensure!(grew * 3 < N, "operation '{}' on content of its own left memory behind in {} of {} calls, {} bytes in total", OPS_[op], grew, N, last - first.unwrap_or(0));
    c.add("operations", N as u64 + 4);
    c.count(OPS_[op]);
    c.nontrivial(&format!("{}", seed));
    Ok(())
}

/// Content which differs, in sizes which do not
fn c20_renamed(c: &mut Case) -> Verdict {
    let p = {
        let mut g = G::new(&mut c.r, Cfg { pool: POOL_NAMES, budget: 300, hostile: false, ..Default::default() });
        g.prog()
    };
    let mut l = text::prog_lines(&mut c.r, false, &p);
    let bad = c.r.chance(1, 2);
    if bad {
        mutate::line(&mut c.r, &mut l);
    }
    let mut s = text::layout(&mut c.r, &Lay::plain(), &l).0;
    if c.r.chance(1, 6) {
        // Faults deep inside
        s = super::reject::deep_text(&mut c.r, 60).replace("circuit a", "circuit aQQ").replace("module a", "module aQQ").replace("node n", "node nQQ").replace("wire n", "wire nQQ");
        c.count("renamed texts, deep");
    }
    let base = c.r.below(9000) as u32;
    let run = |k: u32| {
        // names of the pool all contain QQ
        let id = format!("{:04}", base + k);
        let t = s.replace("QQ", &id).replace("QI", &id);
        let o = observe(&t);
        drop(fa::Circuit::from_read(t.as_bytes()).map_err(|e| e.to_string()));
        drop(o);
    };
    run(0);
    run(1);
    let a = alloc::snap();
    for k in 2..8 {
        run(k);
    }
    let b = alloc::snap();
    c.eval();
    ensure!(a.live == b.live && a.blocks == b.blocks, "six observations of renamed texts leave {} bytes in {} blocks\n{}", b.live - a.live, b.blocks - a.blocks, q(&s));
    c.count(if bad { "renamed mutants" } else { "renamed texts" });
    c.nontrivial(&s);
    c.sample(|| s.clone());
    Ok(())
}

const POOL_NAMES: &[&str] = &["aQQ", "bQQ", "cQQ", "dQQ", "eQQ", "fQQ", "gQQ", "hQQ", "iQQ", "jQQ", "kQQ", "lQQ", "mQQ", "nQQ", "oQQ", "pQQ", "qQQ", "rQQ", "sQQ", "tQQ",
    "uQQ", "vQQ", "wQQ", "xQQ", "yQQ", "zQQ", "AQQ", "BQQ", "CQQ", "DQQ", "EQQ", "FQQ"];

pub fn c20() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        rule: "bytes and blocks held by the thread, as counted by the global allocator, before and after repeated sequences of operations (valid and failing), exact for repeated and for renamed content of the same size, \
               as absence of recurring growth for content that differs in size; distinct by sequence",
        assumptions: &["memory kept by a first call and reused by all later ones is not retained memory"],
        parts: vec![
            Part { name: "repeat", quick: 8000, thorough: 300000, f: c20_repeat },
            Part { name: "fresh", quick: 2600, thorough: 60000, f: c20_fresh },
            Part { name: "renamed", quick: 4000, thorough: 150000, f: c20_renamed },
        ],
        must: &["operations", "renamed texts", "renamed mutants", "parse", "parse and observe", "stream partially", "into circuit", "read", "failing reader", "format to a failing writer",
            "build and observe", "partial traversal", "context", "clone and compare", "modules", "edit"],
    }
}
