//! C07: name resolution

use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use firrtl_ast as fa;
use fa::memory::simple::{self, Memory as CSMem};
use fa::module::Module as CModule;
use fa::stmt::context::{Context, SubContext, TopContext};
use fa::stmt::Entity;
use fa::{GroundType, Named, Type};

use super::util::*;
use crate::conv::{self, CC};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::refparse::{self, V};
use crate::rng::Rng;
use crate::text::{self, Lay};

const POOL: &[&str] = &["a", "b", "c", "d"];
const NEAR: &[&str] = &["a", "ab", "abc", "a_", "A", "in", "when", "mem", "node_"];

/// A name which is almost, but not, another one
fn near(r: &mut Rng, n: &str) -> String {
    match r.below(8) {
        0 => n.to_ascii_uppercase(),
        1 => n.to_ascii_lowercase(),
        2 => format!("{}_", n),
        3 => format!("_{}", n),
        4 => format!("{}0", n),
        5 => format!("{}{}", n, n),
        6 if n.len() > 1 => n[..n.len() - 1].into(),
        6 => format!("{}$", n),
        _ => format!("{}{}", n, r.pick(&["a", "b", "1", "$", "__"])),
    }
}

fn dense(c: &mut Case) -> Prog {
    let cfg = Cfg {
        modules: 3,
        stmts: 4 + c.r.below(12),
        depth: 2,
        when_depth: 3,
        shadow: true,
        kw: false,
        uni: false,
        info: 0,
        hostile: false,
        pool: if c.r.chance(1, 2) { POOL } else { NEAR },
        ..Default::default()
    };
    G::new(&mut c.r, cfg).prog()
}

/// All modules of a text
fn modules_of(s: &str) -> Result<Vec<Arc<CModule>>, String> {
    let mut v = vec![];
    for m in fa::circuit::consumer(s).map_err(|e| show(&e).unwrap_or_default())? {
        v.push(m.map_err(|e| show(&e).unwrap_or_default())?);
    }
    Ok(v)
}

fn judge(c: &mut Case, s: &str) -> Verdict {
    let r = parse(s);
    match refparse::read(s, false) {
        V::Accept(p) => {
            c.eval();
            c.count("all names resolve");
            let x = r.map_err(|e| format!("text in which all names resolve is rejected: {}\n{}", e, q(s)))?;
            same(&p, &x, true).map_err(|d| format!("a name resolves to another declaration:\n{}\n{}", d, q(s)))?;
            let ms = modules_of(s).map_err(|e| format!("consumer rejects: {}\n{}", e, q(s)))?;
            ensure!(ms.len() == p.modules.len(), "{} of {} modules\n{}", ms.len(), p.modules.len(), q(s));
            let mut k = Canon::new(true);
            let mut cc = CC::new();
            for (a, b) in p.modules.iter().zip(&ms) {
                let (x, y) = (k.module(a), cc.module(&mut k, b));
                ensure!(x == y, "in module {}, a name resolves to another declaration:\n{}\n{}", a.name, {
                    let (a, b) = (k.def(x).to_string(), k.def(y).to_string());
                    conv::diff(&k, &a, &b)
                }, q(s));
            }
            let mut n = 0;
            for m in &p.modules {
                walk_stmts(m.stmts(), &mut |st| for e in st_exprs(st) {
                    walk_ex(e, &mut |e| if let Ex::Ref(_) = e { n += 1 });
                });
            }
            c.add("uses resolved", n);
            if n > 0 {
                c.nontrivial(s);
            }
        }
        V::Reject { why, line, .. } => {
            c.eval();
            c.count("some name does not resolve or is malformed");
            if why.contains("undeclared") || why.contains("unknown") {
                c.count("undeclared uses");
            }
            ensure!(r.is_err(), "accepted although line {:?} is malformed: {}\n{}", line, why, q(s));
            ensure!(modules_of(s).is_err() || why.contains("top module"), "consumer accepts although line {:?} is malformed: {}\n{}", line, why, q(s));
            c.nontrivial(s);
        }
        V::Unspec(w) => c.count(&format!("unspecified: {}", w)),
    }
    Ok(())
}

fn c07_dense(c: &mut Case) -> Verdict {
    let p = dense(c);
    let s = text::prog_plain(&mut c.r, &p);
    c.sample(|| s.clone());
    judge(c, &s)
}

/// Lines moved about and names replaced
fn c07_moved(c: &mut Case) -> Verdict {
    let p = dense(c);
    let mut l = text::prog_lines(&mut c.r, false, &p);
    for _ in 0..1 + c.r.below(2) {
        let i = 1 + c.r.below(l.len());
        if i >= l.len() {
            continue;
        }
        match c.r.below(5) {
            0 => {
                l.remove(i);
            }
            1 => {
                let j = 1 + c.r.below(l.len() - 1);
                l.swap(i, j);
            }
            2 => {
                // to another place of its block
                let x = l.remove(i);
                let js: Vec<usize> = (1..l.len()).filter(|j| l[*j].path == x.path).collect();
                let j = if js.is_empty() { i } else { *c.r.pick(&js) };
                l.insert(j, x);
            }
            _ => {
                let t = &mut l[i].toks;
                let ks: Vec<usize> = (0..t.len()).filter(|k| POOL.contains(&t[*k].as_str()) || NEAR.contains(&t[*k].as_str())).collect();
                if !ks.is_empty() {
                    let k = *c.r.pick(&ks);
                    t[k] = match c.r.below(3) {
                        0 => near(&mut c.r, &t[k]),
                        1 => c.r.pick(NEAR).to_string(),
                        _ => c.r.pick(&["a", "b", "c", "d", "e"]).to_string(),
                    };
                }
            }
        }
    }
    let lay = Lay::plain();
    let (s, _) = text::layout(&mut c.r, &lay, &l);
    judge(c, &s)
}

/// Scopes written out: declarations and uses in nested blocks, resolved by
/// counting through the lines
fn c07_scopes(c: &mut Case) -> Verdict {
    let mut s = String::from("circuit top:\n");
    // Modules to instantiate, named like entities
    let nm = c.r.below(3);
    let names = ["a", "b", "c", "d"];
    let mut known: Vec<(&str, usize)> = vec![];
    let mut id = 0usize;
    for i in 0..nm {
        id += 1;
        s.push_str(&format!("  module {}:\n    input p{}: UInt<{}>\n    wire only_{}: UInt<3>\n", names[i], id, id, names[i]));
        known.push((names[i], id));
    }
    s.push_str("  module top:\n");
    let mut ents: HashMap<String, usize> = HashMap::new();
    let mut mems: HashMap<String, usize> = HashMap::new();
    // (line kind, expected id) in order of appearance
    let mut want: Vec<usize> = vec![];
    for _ in 0..c.r.below(3) {
        id += 1;
        let n = *c.r.pick(&names);
        s.push_str(&format!("    input {}: UInt<{}>\n", n, id));
        ents.insert(n.into(), id);
    }
    let n = 3 + c.r.below(25);
    let mut depth = 0usize;
    let mut stack: Vec<bool> = vec![]; // is else
    let mut fresh = true;
    let bad_at = if c.r.chance(1, 3) { Some(c.r.below(n)) } else { None };
    let mut bad = None;
    for i in 0..n {
        // leave blocks
        while depth > 0 && !fresh && c.r.chance(1, 4) {
            let was_else = stack.pop().unwrap();
            depth -= 1;
            if !was_else && c.r.chance(1, 2) {
                s.push_str(&format!("{}else :\n", " ".repeat(4 + 2 * depth)));
                stack.push(true);
                depth += 1;
                fresh = true;
            }
        }
        let ind = " ".repeat(4 + 2 * depth);
        fresh = false;
        if bad_at == Some(i) {
            let n = *c.r.pick(&["a", "b", "c", "d", "e", "top", "only_a"]);
            let n = if c.r.chance(1, 2) { near(&mut c.r, n) } else { n.to_string() };
            let n = n.as_str();
            let fresh_name = *c.r.pick(&["x1", "zz"]);
            let line = match c.r.below(6) {
                0 if !ents.contains_key(n) => format!("{}<= UInt<1>(0)\n", n),
                1 if !ents.contains_key(n) => format!("node {} = {}\n", n, n),
                2 if !ents.contains_key(n) => format!("reg {}: UInt, {}\n", n, n),
                3 if !mems.contains_key(n) => format!("read mport {} = {}[UInt<1>(0)], UInt<1>(0)\n", fresh_name, n),
                4 if !known.iter().any(|k| k.0 == n) => format!("inst {} of {}\n", fresh_name, n),
                5 if !ents.contains_key(n) && mems.len() > 0 => format!("read mport {} = {}[{}], UInt<1>(0)\n", n, mems.keys().min().unwrap(), n),
                _ => String::new(),
            };
            if !line.is_empty() {
                s.push_str(&format!("{}{}", ind, line));
                bad = Some(line);
                continue;
            }
        }
        let n = *c.r.pick(&names);
        match c.r.below(10) {
            0 | 1 => {
                id += 1;
                s.push_str(&format!("{}wire {}: UInt<{}>\n", ind, n, id));
                ents.insert(n.into(), id);
            }
            2 => {
                id += 1;
                s.push_str(&format!("{}reg {}: UInt<{}>, UInt<1>(0)\n", ind, n, id));
                ents.insert(n.into(), id);
            }
            3 => {
                // marks a simple memory by its element width
                id += 1;
                s.push_str(&format!("{}{} {}: UInt<{}>[4]\n", ind, c.r.pick(&["cmem", "smem"]), n, id));
                mems.insert(n.into(), id);
            }
            4 if mems.contains_key(n) => {
                let m = *c.r.pick(&names);
                s.push_str(&format!("{}{} mport {} = {}[UInt<1>(0)], UInt<1>(0)\n", ind, c.r.pick(&["read", "write", "rdwr", "infer"]), m, n));
                ents.insert(m.into(), mems[n]);
                want.push(mems[n]);
            }
            5 if !known.is_empty() => {
                let (m, k) = *c.r.pick(&known);
                s.push_str(&format!("{}inst {} of {}\n", ind, n, m));
                ents.insert(n.into(), 10000 + k);
            }
            6 if ents.contains_key(n) => {
                // a node named like what it refers to
                let m = if c.r.chance(1, 2) { n } else { *c.r.pick(&names) };
                let old = ents[n];
                s.push_str(&format!("{}node {} = {}\n", ind, m, n));
                want.push(old);
                ents.insert(m.into(), 20000 + old);
            }
            7 => {
                s.push_str(&format!("{}when UInt<1>(0):\n", ind));
                stack.push(false);
                depth += 1;
                fresh = true;
            }
            _ => match ents.get(n) {
                Some(k) => {
                    s.push_str(&format!("{}{} is invalid\n", ind, n));
                    want.push(*k);
                }
                None => {
                    s.push_str(&format!("{}skip\n", ind));
                }
            },
        }
    }
    if fresh {
        s.push_str(&format!("{}skip\n", " ".repeat(4 + 2 * depth)));
    }
    c.eval();
    c.sample(|| s.clone());
    let r = parse(&s);
    if let Some(b) = bad {
        ensure!(r.is_err(), "use without preceding declaration is accepted: {:?}\n{}", b, q(&s));
        c.count("undeclared uses");
        c.nontrivial(&s);
        return Ok(());
    }
    let x = r.map_err(|e| format!("text in which all names resolve is rejected: {}\n{}", e, q(&s)))?;
    // What the uses refer to, in order
    fn ent_id(e: &Arc<Entity>) -> usize {
        fn w(t: &Type) -> usize {
            match t {
                Type::GroundType(GroundType::UInt(Some(w))) => *w as usize,
                Type::Vector(t, _) => w(t),
                _ => 0,
            }
        }
        match e.as_ref() {
            Entity::Port(p) => w(p.r#type()),
            Entity::Wire { r#type, .. } => w(r#type),
            Entity::Register(r) => fa::types::Typed::r#type(r).map(|t| w(&t)).unwrap_or(0),
            Entity::Node { value, .. } => match value {
                fa::Expression::Reference(e) => {
                    let k = ent_id(e);
                    // chains of nodes count once each
                    20000 + k
                }
                _ => 0,
            },
            Entity::SimpleMemPort(p) => fa::types::Typed::r#type(p.memory().as_ref()).map(|t| w(&t)).unwrap_or(0),
            Entity::Instance(i) => 10000 + i.module().ports().next().map(|p| w(p.r#type())).unwrap_or(0),
            Entity::Memory(_) => 0,
        }
    }
    fn uses(v: &[fa::stmt::Statement], out: &mut Vec<usize>) {
        use fa::stmt::Kind as K;
        for s in v {
            match s.kind() {
                K::Invalidate(fa::Expression::Reference(e)) => out.push(ent_id(e)),
                K::Declaration(d) => match d.as_ref() {
                    Entity::Node { value: fa::Expression::Reference(e), .. } => out.push(ent_id(e)),
                    Entity::SimpleMemPort(p) => out.push(fa::types::Typed::r#type(p.memory().as_ref()).map(|t| match t {
                        Type::Vector(t, _) => match t.as_ref() {
                            Type::GroundType(GroundType::UInt(Some(w))) => *w as usize,
                            _ => 0,
                        },
                        _ => 0,
                    }).unwrap_or(0)),
                    _ => (),
                },
                K::Conditional { when, r#else, .. } => {
                    uses(when, out);
                    uses(r#else, out);
                }
                _ => (),
            }
        }
    }
    let mut got = vec![];
    uses(x.top_module().statements(), &mut got);
    ensure!(got == want, "uses resolve to {:?}, expected {:?} (declarations numbered by width)\n{}", got, want, q(&s));
    c.add("uses resolved", want.len() as u64);
    if !want.is_empty() {
        c.nontrivial(&s);
    }
    Ok(())
}

// ------------------------------------------------------------- contexts

/// A context of our own, recording what is added
struct Rec {
    ents: HashMap<String, Arc<Entity>>,
    mems: HashMap<String, Arc<CSMem>>,
    mods: Arc<Mutex<Vec<Arc<CModule>>>>,
    adds: usize,
}

impl Context for Rec {
    fn entity(&self, n: &str) -> Option<Arc<Entity>> {
        self.ents.get(n).cloned()
    }
    fn add_entity(&mut self, e: Arc<Entity>) {
        self.adds += 1;
        self.ents.insert(e.name_ref().to_string(), e);
    }
    fn memory(&self, n: &str) -> Option<Arc<CSMem>> {
        self.mems.get(n).cloned()
    }
    fn add_memory(&mut self, m: Arc<CSMem>) {
        self.adds += 1;
        self.mems.insert(m.name_ref().to_string(), m);
    }
    fn module(&self, n: &str) -> Option<Arc<CModule>> {
        self.mods.lock().unwrap().iter().find(|m| m.name_ref() == n).cloned()
    }
}

type Scope = (HashMap<String, Arc<Entity>>, HashMap<String, Arc<CSMem>>);

fn mk_ent(c: &mut Case, id: &mut u16) -> Arc<Entity> {
    *id += 1;
    let n = *c.r.pick(POOL);
    let t = Type::GroundType(GroundType::UInt(Some(*id)));
    Arc::new(match c.r.below(4) {
        0 => Entity::Wire { name: n.into(), r#type: t },
        1 => Entity::Node { name: n.into(), value: fa::Expression::UIntLiteral { value: 0u8.into(), width: *id } },
        2 => Entity::Port(Arc::new(fa::module::Port::new(n, t, fa::module::Direction::Input))),
        _ => fa::Register::new(n, t, fa::Expression::UIntLiteral { value: 0u8.into(), width: 1 }).into(),
    })
}

fn check_all(ctx: &dyn Context, sc: &[Scope], mods: &[Arc<CModule>], log: &[String]) -> Verdict {
    for n in POOL.iter().chain(&["x", ""]) {
        let e = sc.iter().rev().find_map(|s| s.0.get(*n));
        let m = sc.iter().rev().find_map(|s| s.1.get(*n));
        let g = ctx.entity(n);
        let ok = match (e, &g) { (None, None) => true, (Some(a), Some(b)) => Arc::ptr_eq(a, b), _ => false };
        ensure!(ok, "entity({:?}) yields {:?}, expected {:?}\nhistory: {}", n, g, e, log.join("; "));
        let g = ctx.memory(n);
        let ok = match (m, &g) { (None, None) => true, (Some(a), Some(b)) => Arc::ptr_eq(a, b), _ => false };
        ensure!(ok, "memory({:?}) yields {:?}, expected {:?}\nhistory: {}", n, g, m, log.join("; "));
        let m = mods.iter().find(|m| m.name_ref() == *n);
        let g = ctx.module(n);
        let ok = match (m, &g) { (None, None) => true, (Some(a), Some(b)) => Arc::ptr_eq(a, b), _ => false };
        ensure!(ok, "module({:?}) yields {:?}, expected {:?}\nhistory: {}", n, g, m, log.join("; "));
    }
    Ok(())
}

fn drive(c: &mut Case, ctx: &mut dyn Context, sc: &mut Vec<Scope>, mods: &[Arc<CModule>], id: &mut u16, depth: usize, log: &mut Vec<String>) -> Verdict {
    let n = c.r.below(8);
    for _ in 0..n {
        match c.r.below(7) {
            0..=2 => {
                let e = mk_ent(c, id);
                log.push(format!("{}add entity {} #{}", depth, e.name_ref(), id));
                ctx.add_entity(e.clone());
                sc.last_mut().unwrap().0.insert(e.name_ref().to_string(), e);
            }
            3 => {
                *id += 1;
                let n = *c.r.pick(POOL);
                let m = Arc::new(CSMem::new(n, Type::GroundType(GroundType::UInt(Some(*id))), simple::Kind::Combinatory));
                log.push(format!("{}add memory {} #{}", depth, n, id));
                ctx.add_memory(m.clone());
                sc.last_mut().unwrap().1.insert(n.into(), m);
            }
            4 | 5 if depth < 5 => {
                log.push(format!("{}enter", depth));
                sc.push(Default::default());
                {
                    let mut sub = SubContext::of(ctx);
                    check_all(&sub, sc, mods, log)?;
                    drive(c, &mut sub, sc, mods, id, depth + 1, log)?;
                    check_all(&sub, sc, mods, log)?;
                }
                log.push(format!("{}leave", depth));
                c.count("sub contexts merged");
                let (e, m) = sc.pop().unwrap();
                sc.last_mut().unwrap().0.extend(e);
                sc.last_mut().unwrap().1.extend(m);
            }
            _ => (),
        }
        c.eval();
        check_all(ctx, sc, mods, log)?;
    }
    Ok(())
}

fn c07_context(c: &mut Case) -> Verdict {
    let mods: Vec<Arc<CModule>> = POOL.iter().take(c.r.below(4)).map(|n| Arc::new(CModule::new((*n).into(), None, fa::module::Kind::default()))).collect();
    let mut id = 0u16;
    let mut log = vec![];
    let mut sc: Vec<Scope> = vec![Default::default()];
    match c.r.below(4) {
        0 => {
            let shared = Arc::new(Mutex::new(mods.clone()));
            let mut ctx = Rec { ents: HashMap::new(), mems: HashMap::new(), mods: shared, adds: 0 };
            drive(c, &mut ctx, &mut sc, &mods, &mut id, 0, &mut log)?;
            c.count("contexts of our own");
        }
        k => {
            let m2 = mods.clone();
            let f = move |n: &str| m2.iter().find(|m| m.name_ref() == n).cloned();
            let ctx = if c.r.chance(1, 4) { TopContext::from(f) } else { TopContext::new(f) };
            let mut ctx = match k {
                1 => {
                    let v: Vec<_> = (0..c.r.below(4)).map(|_| mk_ent(c, &mut id)).collect();
                    log.push(format!("with entities {:?}", v.iter().map(|e| e.name_ref().to_string()).collect::<Vec<_>>()));
                    for e in &v {
                        sc[0].0.insert(e.name_ref().to_string(), e.clone());
                    }
                    ctx.with_entities(v)
                }
                2 => {
                    let mut used = vec![];
                    let v: Vec<_> = (0..c.r.below(4)).filter_map(|_| {
                        id += 1;
                        let n = *c.r.pick(POOL);
                        if used.contains(&n) {
                            return None;
                        }
                        used.push(n);
                        Some(Arc::new(fa::module::Port::new(n, Type::GroundType(GroundType::UInt(Some(id))), fa::module::Direction::Output)))
                    }).collect();
                    let ctx = ctx.with_ports(v.clone());
                    for p in &v {
                        let e = ctx.entity(p.name_ref()).ok_or_else(|| format!("port {} is not known", p.name_ref()))?;
                        match e.as_ref() {
                            Entity::Port(q) if Arc::ptr_eq(p, q) => (),
                            e => return Err(format!("port {} is known as {:?}", p.name_ref(), e)),
                        }
                        sc[0].0.insert(p.name_ref().to_string(), e);
                    }
                    ctx
                }
                _ => ctx,
            };
            check_all(&ctx, &sc, &mods, &log)?;
            drive(c, &mut ctx, &mut sc, &mods, &mut id, 0, &mut log)?;
            // Convenience function of the trait
            sc.push(Default::default());
            {
                let mut sub = ctx.sub();
                drive(c, &mut sub, &mut sc, &mods, &mut id, 3, &mut log)?;
                let sub2 = sub.sub();
                sc.push(Default::default());
                check_all(&sub2, &sc, &mods, &log)?;
                sc.pop();
            }
            let (e, m) = sc.pop().unwrap();
            sc[0].0.extend(e);
            sc[0].1.extend(m);
            check_all(&ctx, &sc, &mods, &log)?;
            // A clone is independent
            let mut copy = ctx.clone();
            let e = mk_ent(c, &mut id);
            copy.add_entity(e);
            check_all(&ctx, &sc, &mods, &log)?;
            c.count("top contexts");
        }
    }
    if log.len() > 3 {
        c.nontrivial(&log.join(";"));
    }
    c.sample(|| log.join("; "));
    let _ = Rc::new(0);
    Ok(())
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "texts dense in declarations and uses of few names (shadowing, nested blocks, separate name spaces), lines moved and names replaced; random histories of lookup contexts; distinct by text or history",
        assumptions: &["declaring a name again is permitted and replaces the former meaning"],
        parts: vec![
            Part { name: "dense", quick: 48000, thorough: 600000, f: c07_dense },
            Part { name: "moved", quick: 96000, thorough: 1500000, f: c07_moved },
            Part { name: "scopes", quick: 96000, thorough: 1500000, f: c07_scopes },
            Part { name: "context", quick: 96000, thorough: 1000000, f: c07_context },
        ],
        must: &["uses resolved", "undeclared uses", "sub contexts merged", "top contexts", "contexts of our own"],
    }
}
