//! C08, C19: module streaming and reading from streams

use std::collections::HashMap;
use std::error::Error;
use std::io::{self, Read};
use std::sync::Arc;

use firrtl_ast as fa;
use fa::error::ParseError;
use fa::info::WithInfo;
use fa::module::Modules;
use fa::Named;

use super::reject::instantiated_c;
use super::util::*;
use crate::conv::{self, Build};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::mutate;
use crate::refparse::{self, V};
use crate::rng::Rng;
use crate::text::{self, Lay, Line};

fn prog(r: &mut Rng) -> Prog {
    let c = match r.below(4) {
        0 => Cfg { modules: 3, stmts: 3, depth: 1, when_depth: 1, ..Default::default() },
        1 => Cfg { modules: 7, stmts: 2, depth: 1, when_depth: 1, ..Default::default() },
        2 => Cfg { modules: 5, stmts: 4, depth: 2, when_depth: 2, hostile: false, ..Default::default() },
        _ => Cfg { modules: 4, stmts: 5, depth: 2, ..Default::default() },
    };
    G::new(r, c).prog()
}

fn lay(c: &mut Case, l: &[Line]) -> (String, Vec<usize>) {
    let lay = if c.r.chance(1, 2) { Lay::plain() } else { Lay::random(&mut c.r) };
    text::layout(&mut c.r, &lay, l)
}

/// Is the module what the model says?
fn same_m(m: &Rc2, x: &fa::Module) -> Result<(), String> {
    let mut k = Canon::new(true);
    let a = k.module_str(m);
    let b = conv::CC::new().module_str(&mut k, x);
    if a == b { Ok(()) } else { Err(conv::diff(&k, &a, &b)) }
}

type Rc2 = std::rc::Rc<Module>;

fn err_str(e: ParseError) -> Result<String, String> {
    show(&e)
}

// ------------------------------------------------------------------- C08

fn c08_valid(c: &mut Case) -> Verdict {
    let p = prog(&mut c.r);
    let l = text::prog_lines(&mut c.r, true, &p);
    let (s, _) = lay(c, &l);
    let whole = parse(&s).map_err(|e| format!("valid text is rejected: {}\n{}", e, q(&s)))?;
    let n = p.modules.len();
    let top = p.modules.iter().position(|m| m.name == p.top).expect("harness: top");
    let cons = || fa::circuit::consumer(&s).map_err(|e| format!("consumer rejects valid text: {:?}\n{}", e, q(&s)));
    let mut it = cons()?;
    ensure!(it.circuit().is_none(), "circuit available before any module was yielded\n{}", q(&s));
    let mut yielded: Vec<Arc<fa::Module>> = vec![];
    for (k, m) in p.modules.iter().enumerate() {
        c.eval();
        let x = match it.next() {
            Some(Ok(x)) => x,
            Some(Err(e)) => return Err(format!("error instead of module {}: {}\n{}", k, err_str(e)?, q(&s))),
            None => return Err(format!("iteration ends before module {} of {}\n{}", k, n, q(&s))),
        };
        ensure!(x.name_ref() == m.name, "module {} is {:?}, not {:?}\n{}", k, x.name_ref(), m.name, q(&s));
        same_m(m, &x).map_err(|d| format!("module {} yielded differs: {}\n{}", k, d, q(&s)))?;
        // Modules instantiated are those yielded before
        for i in instantiated_c(x.statements()) {
            ensure!(yielded.iter().any(|y| Arc::ptr_eq(y, &i)), "module {:?} instantiates {:?} which is not the module yielded\n{}", m.name, i.name_ref(), q(&s));
            c.count("instances identical to yielded modules");
        }
        yielded.push(x);
        match it.circuit() {
            None => ensure!(k < top, "circuit not available after its top module was yielded\n{}", q(&s)),
            Some(x) => {
                ensure!(k >= top, "circuit available before its top module was yielded\n{}", q(&s));
                ensure!(Arc::ptr_eq(x.top_module(), &yielded[top]), "circuit's top module is not the one yielded\n{}", q(&s));
                same_c(&x, &whole, false).map_err(|d| format!("circuit retrieved after {} modules differs: {}\n{}", k + 1, d, q(&s)))?;
                ensure!(x == whole, "circuit retrieved after {} modules is != the one parsed\n{}", k + 1, q(&s));
                c.count(if k == top { "circuits retrieved at once" } else { "circuits retrieved later" });
            }
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "module or error after the last module\n{}", q(&s));
    }
    ensure!(it.circuit().map(|x| x == whole) == Some(true), "circuit gone after iteration\n{}", q(&s));
    let x = it.into_circuit().map_err(|e| format!("into_circuit fails after full iteration: {:?}\n{}", e, q(&s)))?;
    same_c(&x, &whole, false).map_err(|d| format!("into_circuit after full iteration differs: {}\n{}", d, q(&s)))?;
    // Conversion after any number of modules
    for k in 0..n {
        c.eval();
        let mut it = cons()?;
        for _ in 0..k {
            it.next();
        }
        let x = it.into_circuit().map_err(|e| format!("into_circuit fails after {} modules: {:?}\n{}", k, e, q(&s)))?;
        same_c(&x, &whole, false).map_err(|d| format!("into_circuit after {} modules differs: {}\n{}", k, d, q(&s)))?;
        ensure!(x == whole, "into_circuit after {} modules gives another circuit\n{}", k, q(&s));
        c.count("conversions");
    }
    // Iterator adaptors
    let names: Vec<String> = cons()?.filter_map(|m| m.ok()).map(|m| m.name_ref().to_string()).collect();
    ensure!(names.iter().eq(p.modules.iter().map(|m| &m.name)), "collected names {:?}\n{}", names, q(&s));
    if n > 2 {
        c.nontrivial(&s);
    }
    c.add("modules yielded", n as u64);
    if n > top + 1 {
        c.count("modules behind the top module");
    }
    c.sample(|| s.clone());
    same(&p, &whole, true).map_err(|d| format!("{}\n{}", d, q(&s)))
}

/// Iterate malformed text: `ok` modules are expected, then an error
fn broken(c: &mut Case, p: &Prog, s: &str, ok: &[usize], why: &str) -> Verdict {
    c.eval();
    let mut it = match fa::circuit::consumer(s) {
        Ok(i) => i,
        Err(e) => return Err(format!("consumer rejects a good header ({}): {}\n{}", why, err_str(e)?, q(s))),
    };
    let mut k = 0;
    let mut seen_top = false;
    loop {
        match it.next() {
            Some(Ok(m)) => {
                ensure!(k < p.modules.len(), "more modules than there are ({})\n{}", why, q(s));
                same_m(&p.modules[k], &m).map_err(|d| format!("module {} preceding the malformed one differs ({}): {}\n{}", k, why, d, q(s)))?;
                seen_top |= p.modules[k].name == p.top;
                k += 1;
                ensure!(ok.iter().any(|o| *o >= k), "yields {} modules, expected {:?} ({})\n{}", k, ok, why, q(s));
            }
            Some(Err(e)) => {
                ensure!(!err_str(e)?.is_empty(), "empty error");
                break;
            }
            None => return Err(format!("ends after {} modules without an error ({})\n{}", k, why, q(s))),
        }
        ensure!(it.circuit().is_some() == seen_top, "circuit available: {}, top module yielded: {} ({})\n{}", it.circuit().is_some(), seen_top, why, q(s));
    }
    ensure!(ok.contains(&k), "error after {} modules, expected after {:?} ({})\n{}", k, ok, why, q(s));
    for _ in 0..4 {
        ensure!(it.next().is_none(), "yields more after the error ({})\n{}", why, q(s));
    }
    ensure!(it.circuit().is_some() == seen_top, "circuit available: {}, top module yielded: {} ({})\n{}", it.circuit().is_some(), seen_top, why, q(s));
    c.add("modules yielded before an error", k as u64);
    if seen_top {
        c.count("error behind the top module");
    }
    // Conversion after any number of modules
    for i in 0..=k {
        let mut it = fa::circuit::consumer(s).map_err(|e| format!("{:?}", e))?;
        for _ in 0..i {
            it.next();
        }
        ensure!(it.into_circuit().is_err(), "into_circuit succeeds after {} modules although an error remains ({})\n{}", i, why, q(s));
        c.count("failing conversions");
    }
    ensure!(parse(s).is_err(), "malformed text is accepted ({})\n{}", why, q(s));
    Ok(())
}

fn c08_malformed(c: &mut Case) -> Verdict {
    let p = prog(&mut c.r);
    let vary = c.r.chance(1, 2);
    let mut l = text::prog_lines(&mut c.r, vary, &p);
    let heads: Vec<usize> = (0..l.len()).filter(|i| l[*i].path.len() == 1).collect();
    if heads.len() != p.modules.len() {
        panic!("harness: {} headers for {} modules", heads.len(), p.modules.len());
    }
    let (mi, kind) = match mutate::line(&mut c.r, &mut l) {
        Some(m) => m,
        None => return Ok(()),
    };
    // A header may have become a blank line or got another indentation
    let first = l[mi].toks.concat();
    let gone = heads.contains(&mi) && (first.trim().is_empty() || first.starts_with(|c: char| c.is_whitespace() || c == ';'));
    let (s, nums) = lay(c, &l);
    if let V::Reject { line: Some(n), soft: false, why, .. } = refparse::read(&s, false) {
        let h = heads.iter().filter(|i| nums[**i] <= n).count();
        if h == 0 {
            // Still in the circuit's header
            c.eval();
            ensure!(fa::circuit::consumer(&s).is_err(), "consumer accepts malformed header ({})\n{}", why, q(&s));
            c.count("malformed header");
            return Ok(());
        }
        let ok: Vec<usize> = if gone { vec![h - 1, h.saturating_sub(2)] } else { vec![h - 1] };
        c.count("malformed modules");
        if h > 1 {
            c.nontrivial(&s);
        }
        if mi == heads[h - 1] {
            c.count("malformed module headers");
        }
        // The mutation itself may have changed modules before the one at fault
        if mi < heads[h - 1] {
            c.count("fault shows in a later module");
            return Ok(());
        }
        return broken(c, &p, &s, &ok, &format!("{}; line {}: {}", kind, n, why));
    }
    c.count("not judged");
    Ok(())
}

/// Text behind the last module, missing top modules
fn c08_ends(c: &mut Case) -> Verdict {
    let p = prog(&mut c.r);
    let mut l = text::prog_lines(&mut c.r, true, &p);
    let n = p.modules.len();
    if c.r.chance(1, 2) {
        let mut name = format!("{}_", p.top);
        while p.modules.iter().any(|m| m.name == name) {
            name.push('_');
        }
        l[0].toks[1] = name;
        let (s, _) = lay(c, &l);
        let mut it = fa::circuit::consumer(&s).map_err(|e| format!("{:?}\n{}", e, q(&s)))?;
        for (k, m) in p.modules.iter().enumerate() {
            match it.next() {
                Some(Ok(x)) => same_m(m, &x).map_err(|d| format!("{}\n{}", d, q(&s)))?,
                x => return Err(format!("{:?} instead of module {}\n{}", x.map(|r| r.map(|m| m.name_ref().to_string())), k, q(&s))),
            }
            ensure!(it.circuit().is_none(), "circuit without a top module\n{}", q(&s));
        }
        ensure!(it.next().is_none() && it.next().is_none(), "more than all modules\n{}", q(&s));
        ensure!(it.circuit().is_none(), "circuit without a top module\n{}", q(&s));
        ensure!(it.into_circuit().is_err(), "into_circuit without a top module\n{}", q(&s));
        for k in 0..n {
            let mut it = fa::circuit::consumer(&s).map_err(|e| format!("{:?}\n{}", e, q(&s)))?;
            for _ in 0..k {
                it.next();
            }
            ensure!(it.into_circuit().is_err(), "into_circuit without a top module after {} modules\n{}", k, q(&s));
        }
        c.eval();
        c.count("missing top modules");
        c.nontrivial(&s);
        Ok(())
    } else {
        const G: &[&str] = &["garbage", "module", "module :", "x", "circuit a:", "skip", ")", "\"", "extmodule a", "modul a:", "  garbage", "@[x]", "module a b:"];
        let lo = Lay::plain();
        let (mut s, _) = text::layout(&mut c.r, &lo, &l);
        let g = *c.r.pick(G);
        if g == "skip" && c.r.chance(1, 2) {
            // not at the module's own nesting: one deeper than statements
            s.push_str("        skip\n");
        } else {
            s.push_str(&" ".repeat(2 * c.r.below(2)));
            s.push_str(g);
            s.push('\n');
        }
        if let V::Reject { line: Some(k), soft: false, why, .. } = refparse::read(&s, false) {
            if k == s.matches('\n').count() {
                c.count("garbage at the end");
                c.nontrivial(&s);
                return broken(c, &p, &s, &[n - 1, n], &why);
            }
        }
        Ok(())
    }
}

/// Consumers over arbitrary iterators
fn c08_custom(c: &mut Case) -> Verdict {
    let p = prog(&mut c.r);
    let mut b = Build::new();
    let mods: Vec<Arc<fa::Module>> = p.modules.iter().map(|m| b.module(m)).collect();
    let n = c.r.below(9);
    let items: Vec<Result<Arc<fa::Module>, String>> = (0..n).map(|i| {
        if c.r.chance(1, 6) { Err(format!("error {}", i)) } else { Ok(c.r.pick(&mods).clone()) }
    }).collect();
    let top = match c.r.below(6) {
        0 => "absent".to_string(),
        1 => p.top.clone(),
        _ => c.r.pick(&p.modules).name.clone(),
    };
    let info = if c.r.chance(1, 2) { Some(G::new(&mut c.r, Cfg::default()).text()) } else { None };
    let descr = || format!("top {:?}, items {:?}", top, items.iter().map(|i| i.as_ref().map(|m| m.name_ref().to_string())).collect::<Vec<_>>());
    let new = || fa::circuit::ModuleConsumer::<_, String>::new(top.clone(), info.clone(), items.clone().into_iter());
    for stop in 0..=n + 1 {
        c.eval();
        let mut it = new();
        let mut cl = None;
        let at = c.r.below(n + 1);
        for k in 0..stop.min(n) {
            if k == at {
                cl = Some(it.clone());
            }
            match (it.next(), &items[k]) {
                (Some(Ok(x)), Ok(y)) => ensure!(Arc::ptr_eq(&x, y), "item {} is another module: {}", k, descr()),
                (Some(Err(x)), Err(y)) => ensure!(&x == y, "item {} is another error: {}", k, descr()),
                (x, _) => return Err(format!("item {} is {:?}: {}", k, x.map(|r| r.map(|m| m.name_ref().to_string())), descr())),
            }
            let cands: Vec<&Arc<fa::Module>> = items[..=k].iter().filter_map(|i| i.as_ref().ok()).filter(|m| m.name_ref() == top).collect();
            match it.circuit() {
                None => ensure!(cands.is_empty(), "no circuit after item {}: {}", k, descr()),
                Some(x) => {
                    ensure!(cands.iter().any(|m| Arc::ptr_eq(m, x.top_module())), "circuit's top module was not yielded, after item {}: {}", k, descr());
                    ensure!(x.info() == info.as_deref(), "circuit's info is {:?}, not {:?}", x.info(), info);
                }
            }
        }
        if stop > n {
            ensure!(it.next().is_none(), "more items than the iterator has: {}", descr());
        }
        let rest = &items[stop.min(n)..];
        let first_err = rest.iter().find_map(|i| i.as_ref().err());
        let have = items.iter().filter_map(|i| i.as_ref().ok()).any(|m| m.name_ref() == top);
        match (it.into_circuit(), first_err) {
            (Ok(_), Some(_)) => return Err(format!("into_circuit after {} items ignores an error: {}", stop, descr())),
            (Err(e), Some(f)) => {
                let m = show(&e)?;
                ensure!(m.contains(f.as_str()), "into_circuit after {} items reports {:?}, not {:?}: {}", stop, m, f, descr());
            }
            (Ok(x), None) => {
                ensure!(have, "into_circuit after {} items without a top module: {}", stop, descr());
                ensure!(x.top_module().name_ref() == top && x.info() == info.as_deref(), "into_circuit gives another circuit: {}", descr());
                ensure!(items.iter().filter_map(|i| i.as_ref().ok()).any(|m| Arc::ptr_eq(m, x.top_module())), "top module is a copy: {}", descr());
            }
            (Err(e), None) => {
                ensure!(!have, "into_circuit fails after {} items ({}): {}", stop, show(&e)?, descr());
                ensure!(matches!(e, ParseError::Other(_)), "missing top module reported as {:?}", e);
            }
        }
        // The clone has its own state
        if let Some(mut cl) = cl {
            let had = items[..at].iter().filter_map(|i| i.as_ref().ok()).any(|m| m.name_ref() == top);
            ensure!(cl.circuit().is_some() == had, "clone's circuit depends on the original's iteration: {}", descr());
            for (k, y) in items.iter().enumerate().skip(at) {
                let same = match (cl.next(), y) {
                    (Some(Ok(x)), Ok(y)) => Arc::ptr_eq(&x, y),
                    (Some(Err(x)), Err(y)) => &x == y,
                    _ => false,
                };
                ensure!(same, "clone yields something else as item {}: {}", k, descr());
            }
            ensure!(cl.next().is_none(), "clone yields more: {}", descr());
            c.count("clones");
        }
    }
    // Errors of any convertible type
    {
        let k = *c.r.pick(&[io::ErrorKind::NotFound, io::ErrorKind::Other, io::ErrorKind::BrokenPipe]);
        let v: Vec<Result<Arc<fa::Module>, io::Error>> = items.iter().map(|i| i.clone().map_err(|_| io::Error::new(k, "cause"))).collect();
        let bad = v.iter().any(|i| i.is_err());
        let r = fa::circuit::ModuleConsumer::new(top.clone(), info.clone(), v.into_iter()).into_circuit();
        if bad {
            match r {
                Err(ParseError::IO(e)) => ensure!(e.kind() == k && e.to_string() == "cause", "I/O error altered: {:?}", e),
                r => return Err(format!("I/O error reported as {:?}", r.map(|_| ()))),
            }
            c.count("custom I/O errors");
        }
    }
    c.count("custom iterators");
    c.nontrivial(&descr());
    Ok(())
}

/// Module tables: modules added by hand and parsed
fn c08_table(c: &mut Case) -> Verdict {
    let p = prog(&mut c.r);
    let n = p.modules.len();
    let by_hand: Vec<bool> = (0..n).map(|_| c.r.chance(1, 3)).collect();
    let q2 = Prog { top: p.top.clone(), info: None, modules: p.modules.iter().zip(&by_hand).filter(|x| !x.1).map(|x| x.0.clone()).collect() };
    let l = text::prog_lines(&mut c.r, true, &q2);
    let (s, nums) = lay(c, &l[1..]);
    // Blank lines before the first module are the circuit's
    let skip = nums.first().copied().unwrap_or(1) - 1;
    let s: String = s.split_inclusive('\n').skip(skip).collect();
    if nums.is_empty() {
        return Ok(());
    }
    let mut b = Build::new();
    let forget = if c.r.chance(1, 3) { (0..n).find(|i| by_hand[*i]) } else { None };
    let mut table: HashMap<String, Arc<fa::Module>> = HashMap::new();
    let mut it = if c.r.chance(1, 2) { Modules::new(&s) } else { Modules::new_with_origin(&s, &s) };
    // Shadow a name by something else first
    let decoy = {
        let name = c.r.pick(&p.modules).name.clone();
        Arc::new(fa::Module::new(name.as_str().into(), vec![], fa::module::Kind::empty_regular()))
    };
    let early = c.r.chance(1, 2);
    let decoyed = c.r.chance(1, 3) && !(0..n).any(|i| Some(i) == forget && p.modules[i].name == decoy.name_ref());
    // Only a name which gets replaced before its first use
    if decoyed {
        it.add_module(decoy.clone());
        table.insert(decoy.name_ref().to_string(), decoy.clone());
    }
    let mut hand = |i: usize, it: &mut Modules, table: &mut HashMap<String, Arc<fa::Module>>| {
        let m = b.module(&p.modules[i]);
        it.add_module(m.clone());
        table.insert(p.modules[i].name.clone(), m);
    };
    if early {
        for i in (0..n).filter(|i| by_hand[*i] && Some(*i) != forget) {
            hand(i, &mut it, &mut table);
        }
    }
    let mut failed = false;
    for i in 0..n {
        let m = &p.modules[i];
        if by_hand[i] {
            if !early && Some(i) != forget {
                hand(i, &mut it, &mut table);
            }
            continue;
        }
        c.eval();
        let lacks = forget.map(|f| instantiated(m.stmts()).iter().any(|d| d.name == p.modules[f].name)).unwrap_or(false);
        match it.next() {
            Some(Ok(x)) => {
                ensure!(!lacks, "module {:?} instantiates a module which was never added\n{}", m.name, q(&s));
                ensure!(x.name_ref() == m.name, "module {:?} yielded instead of {:?}\n{}", x.name_ref(), m.name, q(&s));
                for d in instantiated_c(x.statements()) {
                    let t = table.get(d.name_ref()).ok_or_else(|| format!("instance of unknown module {:?}\n{}", d.name_ref(), q(&s)))?;
                    ensure!(Arc::ptr_eq(t, &d), "instance of another module named {:?} than the table has\n{}", d.name_ref(), q(&s));
                    c.count(if by_hand[p.modules.iter().position(|m| m.name == d.name_ref()).unwrap()] { "instances of added modules" } else { "instances of parsed modules" });
                }
                same_m(m, &x).map_err(|d| format!("module {:?} differs: {}\n{}", m.name, d, q(&s)))?;
                table.insert(m.name.clone(), x);
            }
            Some(Err(e)) => {
                ensure!(lacks, "error instead of module {:?}: {}\n{}", m.name, err_str(e)?, q(&s));
                failed = true;
            }
            None => return Err(format!("ends before module {:?}\n{}", m.name, q(&s))),
        }
        // Lookups
        for m in &p.modules {
            match (it.module(&m.name), table.get(&m.name)) {
                (Some(a), Some(b)) => ensure!(Arc::ptr_eq(a, b), "lookup of {:?} finds another module than the latest\n{}", m.name, q(&s)),
                (None, None) => (),
                (a, b) => return Err(format!("lookup of {:?}: found: {}, expected: {}\n{}", m.name, a.is_some(), b.is_some(), q(&s))),
            }
            c.count("lookups");
        }
        ensure!(it.module("no such module").is_none() && it.module("").is_none(), "lookup of an unknown name succeeds");
        if failed {
            break;
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "yields something after the end\n{}", q(&s));
    }
    if failed {
        c.count("instances of missing modules");
    }
    if by_hand.iter().any(|b| *b) {
        c.nontrivial(&s);
    }
    Ok(())
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "multi-module texts, valid and with one line mutated, and arbitrary module iterators, driven step by step and converted after every number of steps; non-trivial: several modules; distinct by text",
        assumptions: &["module names within a text are distinct"],
        parts: vec![
            Part { name: "valid", quick: 20000, thorough: 400000, f: c08_valid },
            Part { name: "malformed", quick: 60000, thorough: 1200000, f: c08_malformed },
            Part { name: "ends", quick: 15000, thorough: 300000, f: c08_ends },
            Part { name: "custom", quick: 15000, thorough: 300000, f: c08_custom },
            Part { name: "table", quick: 20000, thorough: 400000, f: c08_table },
        ],
        must: &["circuits retrieved at once", "circuits retrieved later", "modules behind the top module", "error behind the top module", "malformed module headers",
            "malformed header", "missing top modules", "garbage at the end", "clones", "custom I/O errors", "instances of added modules", "instances of parsed modules",
            "instances of missing modules", "instances identical to yielded modules"],
    }
}

// ------------------------------------------------------------------- C19

/// A cause for a reader to fail
#[derive(Clone, Debug)]
enum Fault {
    Kind(io::ErrorKind),
    Message(io::ErrorKind, String),
    Payload(io::ErrorKind, u64),
    Os(i32),
}

/// A cause with an identity and a cause of its own
#[derive(Debug)]
struct Payload(u64, io::Error);

impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "payload {}", self.0)
    }
}

impl std::error::Error for Payload {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

impl Fault {
    fn some(r: &mut Rng, k: io::ErrorKind, id: String) -> Self {
        match r.below(6) {
            0 => Fault::Kind(k),
            1 => Fault::Payload(k, r.u64()),
            2 => loop {
                let e = 1 + r.below(133) as i32;
                if io::Error::from_raw_os_error(e).kind() != io::ErrorKind::Interrupted {
                    break Fault::Os(e);
                }
            }
            _ => Fault::Message(k, id),
        }
    }
    fn make(&self) -> io::Error {
        match self {
            Fault::Kind(k) => (*k).into(),
            Fault::Message(k, m) => io::Error::new(*k, m.clone()),
            Fault::Payload(k, n) => io::Error::new(*k, Payload(*n, io::Error::new(io::ErrorKind::AddrInUse, "inner"))),
            Fault::Os(n) => io::Error::from_raw_os_error(*n),
        }
    }
    /// What an error tells
    fn tell(e: &io::Error) -> String {
        format!("{:?}: {} (OS error {:?}, payload {:?}, cause {:?})", e.kind(), e, e.raw_os_error(),
            e.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0), std::error::Error::source(e).map(|s| s.to_string()))
    }
}

/// A reader delivering its content in pieces, with interruptions, failing at
/// an offset
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    r: Rng,
    /// Largest piece
    max: usize,
    /// Percentage of reads interrupted
    intr: usize,
    /// Fail once at this offset
    fail: Option<(usize, Fault)>,
    reads: u64,
    interrupted: u64,
    failed: bool,
}

impl<'a> Pieces<'a> {
    fn new(r: &mut Rng, data: &'a [u8]) -> Self {
        let max = match r.below(8) { 0 => 1, 1 => 2, 2 => 3, 3 => 1 + r.below(16), 4 => 1 + r.below(100), 5 => 1 + r.below(5000), 6 => 8192, _ => usize::MAX };
        let intr = *r.pick(&[0, 0, 5, 30, 60]);
        Pieces { data, pos: 0, r: Rng::new(r.u64()), max, intr, fail: None, reads: 0, interrupted: 0, failed: false }
    }
}

impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.r.chance(self.intr, 100) {
            self.interrupted += 1;
            return Err(if self.r.chance(1, 2) { io::ErrorKind::Interrupted.into() } else { io::Error::new(io::ErrorKind::Interrupted, "again") });
        }
        let mut end = self.data.len();
        if let Some((at, f)) = &self.fail {
            if self.pos >= *at && !self.failed {
                self.failed = true;
                return Err(f.make());
            }
            if !self.failed {
                end = *at;
            }
        }
        let most = self.max.min(b.len()).min(end - self.pos);
        let n = if most == 0 { 0 } else { 1 + self.r.below(most) };
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Content: valid, malformed, large
fn content(c: &mut Case) -> String {
    let r = &mut c.r;
    let mut s = match r.below(8) {
        0 | 1 => { let p = prog(r); text::prog_text(r, &p) }
        2 => { let p = gen_prog(r, Cfg::default()); text::prog_text(r, &p) }
        3 | 4 => {
            let p = prog(r);
            let s = text::prog_text(r, &p);
            let n = 1 + r.below(3);
            (0..n).fold(s, |s, _| mutate::text(r, &s).0)
        }
        5 => { let p = prog(r); text::prog_plain(r, &p) }
        6 => {
            // Large, with characters of several bytes at any offset
            let n = *r.pick(&[9000usize, 20000, 70000, 140000]);
            let mut s = String::from("circuit a:\n  module a:\n    input i: UInt<8>\n");
            while s.len() < n {
                match r.below(5) {
                    0 => s.push_str("    ; 变é🦀 comment\n"),
                    1 => s.push_str(&format!("    node n{} = add(i, UInt<8>(\"h1f\")) @[{}é🦀变 {}:1]\n", s.len(), "x".repeat(r.below(40)), r.below(100))),
                    2 => s.push_str("    skip @[🦀🦀🦀🦀🦀🦀🦀🦀🦀🦀🦀]\n"),
                    3 => s.push_str(&format!("    wire w{}: UInt<{}>\n", s.len(), r.below(100))),
                    _ => s.push_str("\n"),
                }
            }
            if r.chance(1, 4) {
                s.push_str("    garbage\n");
            }
            s
        }
        _ => (*r.pick(&["", "\n", " ", "circuit", "circuit a:", "circuit a:\n", "circuit a:\n  module a:\n", "circuit a:\n  module a:\n    skip", "\u{feff}circuit a:\n  module a:\n    skip\n", "circuit a:\r\n  module a:\r\n    skip\r\n", "\0", "circuit a:\n  module a:\n    skip\n\0",
            "circuit a:\n  module a:\n    skip\n\u{1a}", "circuit a:\n\n\n  module a:\n    skip\n\n\n"])).to_string(),
    };
    match r.below(30) {
        0 => s.insert(0, '\u{feff}'),
        1 => s.push('\u{feff}'),
        2 => s.push('\u{2028}'),
        3 => { s.pop(); }
        _ => (),
    }
    s
}

fn agree(s: &str, a: Result<fa::Circuit, ParseError>, how: &str) -> Verdict {
    match (a, fa::circuit::parse(s)) {
        (Ok(x), Ok(y)) => {
            same_c(&x, &y, false).map_err(|d| format!("reading ({}) gives another circuit than parsing: {}\n{}", how, d, q(s)))?;
            ensure!(x == y, "reading ({}) gives a circuit != the one parsed\n{}", how, q(s));
        }
        (Err(x), Err(y)) => {
            let (a, b) = (show(&x)?, show(&y)?);
            ensure!(a == b && matches!(x, ParseError::IO(_)) == matches!(y, ParseError::IO(_)), "reading ({}) fails with\n{}\nparsing with\n{}\n{}", how, a, b, q(s));
        }
        (Ok(_), Err(e)) => return Err(format!("reading ({}) succeeds, parsing fails: {}\n{}", how, show(&e)?, q(s))),
        (Err(e), Ok(_)) => return Err(format!("reading ({}) fails: {:?}; parsing succeeds\n{}", how, e, q(s))),
    }
    Ok(())
}

fn c19_pieces(c: &mut Case) -> Verdict {
    let s = content(c);
    let ok = parse(&s).is_ok();
    c.count(if ok { "valid contents" } else { "malformed contents" });
    if s.len() > 8192 {
        c.count("large contents");
    }
    for _ in 0..4 {
        c.eval();
        let mut p = Pieces::new(&mut c.r, s.as_bytes());
        let how = format!("pieces of at most {} bytes, {} % interrupted", p.max, p.intr);
        let r = fa::Circuit::from_read(&mut p);
        c.add("reads", p.reads);
        c.add("interrupted reads", p.interrupted);
        agree(&s, r, &how)?;
    }
    c.eval();
    let cut = c.r.below(s.len() + 1);
    let (a, b) = s.as_bytes().split_at(cut);
    match c.r.below(4) {
        0 => agree(&s, fa::Circuit::from_read(s.as_bytes()), "slice")?,
        1 => agree(&s, fa::Circuit::from_read(a.chain(b)), "chain")?,
        2 => agree(&s, fa::Circuit::from_read(io::BufReader::with_capacity(1 + c.r.below(64), s.as_bytes())), "buffered")?,
        _ => agree(&s, fa::Circuit::from_read(Box::new(io::Cursor::new(s.clone().into_bytes())) as Box<dyn Read>), "boxed")?,
    }
    c.nontrivial(&s);
    Ok(())
}

fn io_error(r: Result<fa::Circuit, ParseError>, f: Option<&Fault>, what: &dyn Fn() -> String) -> Verdict {
    let e = match r {
        Ok(_) => return Err(format!("a circuit in spite of {}", what())),
        Err(e) => e,
    };
    let src = e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(Fault::tell);
    match &e {
        ParseError::IO(i) => {
            match f {
                Some(f) => {
                    let want = Fault::tell(&f.make());
                    ensure!(Fault::tell(i) == want, "cause\n  {}\ninstead of\n  {}\n{}", Fault::tell(i), want, what());
                }
                None => ensure!(i.kind() == io::ErrorKind::InvalidData, "error of kind {:?}, {}", i.kind(), what()),
            }
            ensure!(src == Some(Fault::tell(i)), "source is {:?}, {}", src, what());
        }
        ParseError::Other(m) => return Err(format!("not reported as I/O error but as {:?}, {}", m, what())),
    }
    Ok(())
}

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::PermissionDenied, io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData, io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset, io::ErrorKind::NotFound, io::ErrorKind::ConnectionAborted, io::ErrorKind::OutOfMemory, io::ErrorKind::WriteZero];

fn short(c: &mut Case) -> String {
    let cfg = Cfg { modules: 2, stmts: 2, depth: 1, when_depth: 1, ..Default::default() };
    for _ in 0..20 {
        let p = G::new(&mut c.r, cfg.clone()).prog();
        let s = text::prog_text(&mut c.r, &p);
        if s.len() < 700 {
            return s;
        }
    }
    "circuit a:\n  module a:\n    skip ; é🦀\n  module b:\n    skip\n".into()
}

/// A fault at every offset
fn c19_faults(c: &mut Case) -> Verdict {
    let s = short(c);
    let b = s.as_bytes();
    for at in 0..=b.len() {
        let k = KINDS[(at + c.idx as usize) % KINDS.len()];
        let f = Fault::some(&mut c.r, k, format!("cause {} at {}", c.idx, at));
        let mut p = Pieces::new(&mut c.r, b);
        p.fail = Some((at, f.clone()));
        c.eval();
        let r = fa::Circuit::from_read(&mut p);
        io_error(r, Some(&f), &|| format!("failure {:?} at offset {} of {}\n{}", f, at, b.len(), q(&s)))?;
        match f {
            Fault::Os(_) => c.count("operating system errors"),
            Fault::Payload(..) => c.count("errors with a payload"),
            _ => (),
        }
        ensure!(p.failed, "never read as far as offset {} of {}\n{}", at, b.len(), q(&s));
        c.count("faults");
        if at == b.len() {
            c.count("faults behind the content");
        }
    }
    c.nontrivial(&s);
    c.sample(|| s.clone());
    Ok(())
}

/// Invalid UTF-8 at every offset
fn c19_utf8(c: &mut Case) -> Verdict {
    const BAD: &[&[u8]] = &[b"\xff", b"\xc3", b"\xc3(", b"\x80", b"\xe2\x82", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\xa6", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xc1\xbf", b"\xe0\x80\x80"];
    let s = short(c);
    let b = s.as_bytes();
    for at in 0..=b.len() {
        let bad = BAD[(at + c.idx as usize) % BAD.len()];
        let mut v = b[..at].to_vec();
        match c.r.below(3) {
            0 if at < b.len() => {
                // Replace
                v.extend_from_slice(bad);
                v.extend_from_slice(&b[at + 1..]);
            }
            1 if at < b.len() && b[at] >= 0x80 => v.extend_from_slice(&b[at + 1..]),
            _ => {
                v.extend_from_slice(bad);
                v.extend_from_slice(&b[at..]);
            }
        }
        if std::str::from_utf8(&v).is_ok() {
            continue;
        }
        c.eval();
        let mut p = Pieces::new(&mut c.r, &v);
        let r = fa::Circuit::from_read(&mut p);
        io_error(r, None, &|| format!("invalid UTF-8 at offset {} of {}: {:?}", at, v.len(), String::from_utf8_lossy(&v)))?;
        c.count("invalid UTF-8");
        if at == b.len() {
            c.count("invalid UTF-8 behind the content");
        }
    }
    // Truncated within a character
    c.nontrivial(&s);
    Ok(())
}

/// Contents of several MiB
fn c19_large(c: &mut Case) -> Verdict {
    const MIB: usize = 1 << 20;
    let n = [MIB, 2 * MIB, 4 * MIB, 5 * MIB, 8 * MIB, 17 * MIB, 33 * MIB, 64 * MIB][c.idx as usize % 8] + c.r.below(70000);
    let mut s = String::from("circuit a:\n  module b:\n    skip\n");
    let unit = *c.r.pick(&["\n", "; comment 变é🦀\n", "                                                               \n", ";"]);
    let unit = if unit == ";" { format!("; {}\n", "x".repeat(1 << 16)) } else { unit.to_string() };
    while s.len() < n {
        s.push_str(&unit);
    }
    let bad = c.r.chance(1, 4);
    s.push_str(if bad { "  module a:\n    inst i of c\n" } else { "  module a:\n    inst i of b\n    node é = i" });
    if !bad {
        s.truncate(s.len() - " = i".len() - "é".len());
        s.push_str("last = i @[é]\n");
    }
    let mut p = Pieces::new(&mut c.r, s.as_bytes());
    p.max = p.max.max(5000);
    p.intr = p.intr.min(5);
    let fail = c.r.chance(1, 4);
    let r = if fail {
        let at = if c.r.chance(1, 2) { s.len() } else { s.len() - 1 - c.r.below(200000.min(s.len() - 1)) };
        let f = Fault::some(&mut c.r, io::ErrorKind::TimedOut, "late".into());
        p.fail = Some((at, f.clone()));
        c.eval();
        let r = fa::Circuit::from_read(&mut p);
        return io_error(r, Some(&f), &|| format!("failure {:?} at offset {} of {}", f, at, s.len()));
    } else {
        fa::Circuit::from_read(&mut p)
    };
    c.eval();
    match (&r, bad) {
        (Ok(x), false) => {
            let y = fa::circuit::parse(&s).map_err(|e| format!("parsing {} bytes fails: {}", s.len(), e))?;
            same_c(x, &y, false).map_err(|d| format!("reading {} bytes gives another circuit than parsing: {}", s.len(), d))?;
            ensure!(x.top_module().statements().len() == 2, "{} statements in the last module after {} bytes", x.top_module().statements().len(), s.len());
        }
        (Err(ParseError::Other(m)), true) => {
            let e = fa::circuit::parse(&s).err().map(|e| e.to_string());
            ensure!(e.as_ref() == Some(m), "reading {} bytes fails with\n{}\nparsing with\n{:?}", s.len(), m, e);
        }
        _ => return Err(format!("reading {} bytes gives {:?}", s.len(), r.map(|_| "a circuit").map_err(|e| e.to_string()))),
    }
    c.count("contents of several MiB");
    c.nontrivial(&format!("{} {}", s.len(), unit.len()));
    Ok(())
}

/// Files
fn c19_file(c: &mut Case) -> Verdict {
    let s = content(c);
    let p = std::env::temp_dir().join(format!("fv-{}-{}", std::process::id(), c.r.u64()));
    std::fs::write(&p, &s).expect("harness: scratch file");
    let f = std::fs::File::open(&p);
    let _ = std::fs::remove_file(&p);
    let f = f.expect("harness: scratch file");
    c.eval();
    agree(&s, fa::Circuit::from_read(f), "file")?;
    let f = std::fs::File::open("/").expect("harness: directory");
    match fa::Circuit::from_read(f) {
        Err(ParseError::IO(_)) => (),
        r => return Err(format!("reading a directory gives {:?}", r.map(|_| ()))),
    }
    c.count("files");
    c.nontrivial(&s);
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        level: "fault_enumeration",
        rule: "contents read in random pieces with interruptions compared with parsing; for short texts a failure at every offset up to and including the end, and invalid UTF-8 at every offset; distinct by content",
        assumptions: &["readers obey the contract of std::io::Read"],
        parts: vec![
            Part { name: "pieces", quick: 12000, thorough: 300000, f: c19_pieces },
            Part { name: "faults", quick: 1500, thorough: 40000, f: c19_faults },
            Part { name: "utf8", quick: 1500, thorough: 40000, f: c19_utf8 },
            Part { name: "large", quick: 24, thorough: 400, f: c19_large },
            Part { name: "file", quick: 300, thorough: 3000, f: c19_file },
        ],
        must: &["valid contents", "malformed contents", "large contents", "interrupted reads", "faults behind the content", "operating system errors", "errors with a payload", "contents of several MiB",
            "invalid UTF-8 behind the content", "files"],
    }
}
