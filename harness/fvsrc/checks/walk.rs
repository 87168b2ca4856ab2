//! C16: traversals; C17: modules of formatted circuits

use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

use firrtl_ast as fa;
use fa::module::Module as CModule;
use fa::stmt::{Entity, Statement};
use fa::types::Typed;
use fa::{Expression, Named};

use super::util::*;
use crate::conv::{self, Build, CEx, CC};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, Env, G};
use crate::model::*;
use crate::refparse::{self, V};
use crate::rng::Rng;
use crate::text;

/// How often each item occurs
fn bag<T: Ord>(i: impl Iterator<Item = T>) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in i {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}

fn fused<T>(what: &str, mut i: impl Iterator<Item = T>) -> Result<usize, String> {
    let mut n = 0;
    while i.next().is_some() {
        n += 1;
    }
    for _ in 0..3 {
        ensure!(i.next().is_none(), "{} yields more items after its end", what);
    }
    Ok(n)
}

// ----------------------------------------------------------------- C16

/// A reference type of the harness
#[derive(Clone, PartialEq, Debug)]
struct Tag(Arc<str>, u32);

impl Named for Tag {
    type Name = Arc<str>;
    fn name(&self) -> &Arc<str> {
        &self.0
    }
}
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl fa::expr::Reference for Tag {
    fn flow(&self) -> Option<fa::expr::Flow> {
        None
    }
}
impl Typed for Tag {
    type Err = Self;
    type Type = fa::Type;
    fn r#type(&self) -> Result<fa::Type, Self> {
        Err(self.clone())
    }
}

fn tag_ex(r: &mut Rng, depth: usize, n: &mut u32, want: &mut Vec<u32>) -> Expression<Tag> {
    use fa::expr::primitive::Operation as O;
    use Expression as E;
    let x = if depth == 0 { r.below(3) } else { r.below(12) };
    let mut sub = |r: &mut Rng| Arc::new(tag_ex(r, depth - 1, n, want));
    match x {
        0 => E::UIntLiteral { value: 1u8.into(), width: 1 },
        1 | 2 => {
            // Equal references are items of their own
            let k = if r.chance(1, 4) { 0 } else { *n };
            *n += 1;
            want.push(k);
            E::Reference(Tag(format!("t{}", k).as_str().into(), k))
        }
        3 => E::SubField { base: sub(r), index: "f".into() },
        4 => E::SubIndex { base: sub(r), index: 3 },
        5 => E::SubAccess { base: sub(r), index: sub(r) },
        6 => E::Mux { sel: sub(r), a: sub(r), b: sub(r) },
        7 => E::ValidIf { sel: sub(r), value: sub(r) },
        8 => E::PrimitiveOp(O::Cat(sub(r), sub(r))),
        9 => E::PrimitiveOp(O::Bits(sub(r), Some(1), None)),
        10 => E::PrimitiveOp(O::DShl(sub(r), sub(r))),
        _ => E::PrimitiveOp(O::Cast(sub(r), fa::GroundType::Clock)),
    }
}

fn c16_tags(c: &mut Case) -> Verdict {
    let (mut n, mut want) = (1, vec![]);
    let d = 1 + c.r.below(5);
    let x = tag_ex(&mut c.r, d, &mut n, &mut want);
    c.eval();
    let want = bag(want.into_iter());
    let got = bag(x.references().map(|t| t.1));
    ensure!(want == got, "references of {}: expected {:?}, actual {:?}", x, want, got);
    let k = fused("references()", x.references())?;
    c.add("references", k as u64);
    if k > 1 {
        c.nontrivial(&format!("{}", x));
    }
    Ok(())
}

/// Entities to refer to, all of them different
fn env(r: &mut Rng, n: usize) -> (Env, Vec<St>) {
    let mut e = Env { budget: 3000, ..Default::default() };
    let cfg = Cfg { hostile: false, info: 10, ..Default::default() };
    let mut g = G::new(r, cfg);
    let mut used = HashSet::new();
    for _ in 0..3 {
        let p = g.port(&mut used);
        g.add_ent(&mut e, Rc::new(Ent { name: p.name.clone(), k: EntK::Port(p) }));
    }
    let name = g.ident(&mut used);
    e.names = used;
    let m = g.module(name, &[], &[]);
    e.mods.push(m);
    let s = g.sts(&mut e, 2, n);
    (e, s)
}

fn ref_bag(b: &mut Build, x: &Ex) -> BTreeMap<*const Entity, usize> {
    let mut v = vec![];
    walk_ex(x, &mut |e| if let Ex::Ref(e) = e { v.push(Arc::as_ptr(&b.ent(e))) });
    bag(v.into_iter())
}

fn check_refs(c: &mut Case, b: &mut Build, x: &Ex, y: &CEx) -> Verdict {
    c.eval();
    let want = ref_bag(b, x);
    let got = bag(y.references().map(Arc::as_ptr));
    ensure!(want == got, "references of {}: expected {} of {} entities, actual {} of {}", y,
        want.values().sum::<usize>(), want.len(), got.values().sum::<usize>(), got.len());
    let n = fused("references()", y.references())?;
    c.add("references", n as u64);
    if n > 1 {
        c.nontrivial(&format!("{}", y));
    }
    Ok(())
}

fn c16_exprs(c: &mut Case) -> Verdict {
    let (mut e, _) = env(&mut c.r, 6);
    let mut b = Build::new();
    let depth = 1 + c.r.below(5);
    let x = G::new(&mut c.r, Cfg::default()).ex(&mut e, depth);
    let y = b.ex(&x);
    check_refs(c, &mut b, &x, &y)?;
    c.sample(|| format!("{}", y));
    Ok(())
}

/// Every kind of expression, each of its operand positions holding a tree of
/// its own
fn c16_forms(c: &mut Case) -> Verdict {
    let mut b = Build::new();
    let mut n = 0;
    let mut fresh = || {
        n += 1;
        Ex::Ref(Rc::new(Ent { name: format!("x{}", n), k: EntK::Wire(Ty::G(Gr::Clock)) }))
    };
    let r = &mut c.r;
    let mut operand = |r: &mut Rng| match r.below(5) {
        0 => Ex::Field(Box::new(fresh()), "f".into()),
        1 => Ex::Op(op_by_name("add").unwrap(), vec![fresh(), fresh()], vec![]),
        2 => Ex::Mux(Box::new(fresh()), Box::new(fresh()), Box::new(fresh())),
        3 => Ex::Acc(Box::new(fresh()), Box::new(fresh())),
        _ => fresh(),
    };
    let k = c.idx as usize % (OPS.len() + 5);
    let x = if k < OPS.len() {
        let es: Vec<_> = (0..OPS[k].1).map(|_| operand(r)).collect();
        let same = r.chance(1, 5);
        let es = if same && es.len() == 2 { vec![es[0].clone(), es[0].clone()] } else { es };
        let ps = OPS[k].2.chars().map(|_| r.below(5) as i64).collect();
        Ex::Op(k, es, ps)
    } else {
        let mut o = || Box::new(operand(r));
        match k - OPS.len() {
            0 => Ex::Field(o(), "g".into()),
            1 => Ex::Idx(o(), 1),
            2 => Ex::Acc(o(), o()),
            3 => Ex::Mux(o(), o(), o()),
            _ => Ex::Valid(o(), o()),
        }
    };
    let y = b.ex(&x);
    check_refs(c, &mut b, &x, &y)?;
    if let (Expression::PrimitiveOp(o), Ex::Op(_, es, _)) = (&y, &x) {
        let sub = o.sub_exprs();
        let (_, own, _) = conv::op_parts(o);
        let want = bag(own.iter().map(|e| Arc::as_ptr(e)));
        let got = bag(sub.iter().map(|e| Arc::as_ptr(e)));
        c.eval();
        ensure!(sub.len() == es.len() && want == got, "{} operands are reported of {}: {:?}", sub.len(), y, sub);
        c.count(OPS[k].0);
    } else {
        c.count("other expressions");
    }
    Ok(())
}

/// What statements declare, outside in
fn decls(s: &[St]) -> Vec<Rc<Ent>> {
    let mut v = vec![];
    walk_stmts(s, &mut |s| if let StK::Decl(e) = &s.k { v.push(e.clone()) });
    v
}

fn check_stmts(c: &mut Case, b: &mut Build, m: &[St], x: &[Statement]) -> Verdict {
    ensure!(m.len() == x.len(), "{} statements of {}", x.len(), m.len());
    for (s, t) in m.iter().zip(x) {
        c.eval();
        let d = decls(std::slice::from_ref(s));
        let want = bag(d.iter().map(|e| Arc::as_ptr(&b.ent(e))));
        let got = bag(t.declarations().map(Arc::as_ptr));
        ensure!(want == got, "declarations of {:?}: expected {:?}, actual {:?}", t, d.iter().map(|d| &d.name).collect::<Vec<_>>(),
            t.declarations().map(|d| d.name_ref().to_string()).collect::<Vec<_>>());
        let n = fused("declarations()", t.declarations())?;
        c.add("declarations", n as u64);
        let insts: Vec<_> = d.iter().filter(|e| matches!(e.k, EntK::Inst(_))).collect();
        let want = bag(insts.iter().map(|e| match b.ent(e).as_ref() {
            Entity::Instance(i) => i as *const _,
            _ => panic!("harness: instance"),
        }));
        let got = bag(t.instantiations().map(|i| i as *const _));
        ensure!(want == got, "instantiations of {:?}: expected {:?}, actual {:?}", t, insts.iter().map(|d| &d.name).collect::<Vec<_>>(),
            t.instantiations().map(|d| d.name_ref().to_string()).collect::<Vec<_>>());
        let n = fused("instantiations()", t.instantiations())?;
        c.add("instantiations", n as u64);
        if d.len() > 1 {
            c.count("statements with several declarations");
        }
        if let StK::When(_, p, q) = &s.k {
            if !decls(p).is_empty() && !decls(q).is_empty() {
                c.count("declarations in both branches");
            }
            if let fa::stmt::Kind::Conditional { when, r#else, .. } = t.kind() {
                check_stmts(c, b, p, when)?;
                check_stmts(c, b, q, r#else)?;
            } else {
                return Err(format!("{:?} is no conditional", t));
            }
        }
    }
    Ok(())
}

fn c16_stmts(c: &mut Case) -> Verdict {
    let k = c.r.below(4);
    let cfg = Cfg {
        when_depth: [3, 7, 4, 2][k],
        stmts: [10, 5, 8, 20][k],
        depth: 1,
        modules: 5,
        shadow: c.r.chance(1, 2),
        hostile: false,
        info: 10,
        ..Default::default()
    };
    let p = G::new(&mut c.r, cfg).prog();
    let mut b = Build::new();
    for m in &p.modules {
        let x = b.module(m);
        check_module(c, &mut b, m, &x)?;
        check_stmts(c, &mut b, m.stmts(), x.statements())?;
        let mut n = 0;
        walk_stmts(m.stmts(), &mut |_| n += 1);
        if n > 1 {
            c.nontrivial(&format!("{:?}", x));
        }
    }
    c.sample(|| text::prog_plain(&mut Rng::new(1), &p));
    Ok(())
}

fn check_module(c: &mut Case, b: &mut Build, m: &Rc<Module>, x: &Arc<CModule>) -> Verdict {
    c.eval();
    let d = instantiated(m.stmts());
    let want = bag(d.iter().map(|d| Arc::as_ptr(&b.module(d))));
    let got = bag(x.referenced_modules().map(Arc::as_ptr));
    ensure!(want == got, "modules referenced by {}: expected {:?}, actual {:?}", m.name, d.iter().map(|d| &d.name).collect::<Vec<_>>(),
        x.referenced_modules().map(|d| d.name().to_string()).collect::<Vec<_>>());
    let n = fused("referenced_modules()", x.referenced_modules())?;
    c.add("module references", n as u64);
    if want.values().any(|n| *n > 1) {
        c.count("modules referenced repeatedly");
    }
    Ok(())
}

/// Statements made for the purpose: few kinds, much nesting
fn shape(r: &mut Rng, mods: &[Rc<Module>], depth: usize, n: &mut usize, pool: &mut Vec<Rc<Ent>>) -> Vec<St> {
    let k = r.below(4) + (depth == 0) as usize;
    let mut v = vec![];
    for _ in 0..k {
        let st = match r.below(if depth > 0 { 8 } else { 5 }) {
            0 | 1 => {
                *n += 1;
                let k = match r.below(3) {
                    0 => EntK::Wire(Ty::G(Gr::Clock)),
                    1 => EntK::Node(Ex::ULit(1u8.into(), 1)),
                    _ => EntK::Inst(r.pick(mods).clone()),
                };
                let e = Rc::new(Ent { name: format!("e{}", *n), k });
                pool.push(e.clone());
                StK::Decl(e)
            }
            2 => {
                *n += 1;
                StK::Decl(Rc::new(Ent { name: format!("i{}", *n), k: EntK::Inst(r.pick(mods).clone()) }))
            }
            // The same declaration, once more
            3 if !pool.is_empty() => StK::Decl(r.pick(pool).clone()),
            3 | 4 => StK::Skip,
            _ => {
                let a = shape(r, mods, depth - 1, n, pool);
                let b = if r.chance(2, 3) { shape(r, mods, depth - 1, n, pool) } else { vec![] };
                StK::When(Ex::ULit(1u8.into(), 1), a, b)
            }
        };
        v.push(St { k: st, info: None });
    }
    v
}

fn c16_nest(c: &mut Case) -> Verdict {
    // Modules are told apart by more than their names
    let same = c.r.below(4);
    let mods: Vec<_> = (0..3).map(|i| Rc::new(Module { name: match same { 0 => "T".into(), 1 => "M".into(), 2 if i == 1 => "T".into(), _ => format!("M{}", i) }, ports: vec![], info: None, k: MK::Reg(vec![]) })).collect();
    let d = 1 + c.r.below(6);
    let s = shape(&mut c.r, &mods, d, &mut 0, &mut vec![]);
    let m = Rc::new(Module { name: "T".into(), ports: vec![], info: None, k: MK::Reg(s) });
    let mut b = Build::new();
    let x = b.module(&m);
    check_module(c, &mut b, &m, &x)?;
    check_stmts(c, &mut b, m.stmts(), x.statements())?;
    let n = decls(m.stmts()).len();
    if n > 1 {
        c.nontrivial(&format!("{:?}", x));
    }
    Ok(())
}

/// The same on circuits obtained by parsing
fn c16_parsed(c: &mut Case) -> Verdict {
    let p = gen_prog(&mut c.r, Cfg { shadow: true, hostile: false, info: 10, ..Default::default() });
    let s = text::prog_text(&mut c.r, &p);
    let mut k = Canon::new(true);
    let mut cc = CC::new();
    let mut i = 0;
    for x in fa::circuit::consumer(&s).map_err(|e| format!("{}\n{}", show(&e).unwrap_or_default(), q(&s)))? {
        let x = x.map_err(|e| format!("{}\n{}", show(&e).unwrap_or_default(), q(&s)))?;
        ensure!(i < p.modules.len(), "surplus module\n{}", q(&s));
        let m = &p.modules[i];
        c.eval();
        let want = bag(instantiated(m.stmts()).iter().map(|d| k.module(d)));
        let got = bag(x.referenced_modules().map(|d| cc.module(&mut k, d)));
        ensure!(want == got, "modules referenced by {} differ\n{}", m.name, q(&s));
        let want = bag(decls(m.stmts()).iter().map(|d| k.ent(d)));
        let got = bag(x.statements().iter().flat_map(|s| s.declarations()).map(|d| cc.ent(&mut k, d)));
        ensure!(want == got, "declarations of {} differ\n{}", m.name, q(&s));
        // References of nodes' values
        let nodes = |e: &Rc<Ent>| if let EntK::Node(v) = &e.k { Some(v.clone()) } else { None };
        let mut vals: Vec<_> = decls(m.stmts()).iter().filter_map(nodes).map(|v| {
            let mut r = vec![];
            walk_ex(&v, &mut |e| if let Ex::Ref(e) = e { r.push(k.ent(e)) });
            let b = bag(r.into_iter());
            (k.ex(&v), b)
        }).collect();
        let mut got: Vec<_> = x.statements().iter().flat_map(|s| s.declarations()).filter_map(|e| match e.as_ref() {
            Entity::Node { value, .. } => Some(value),
            _ => None,
        }).map(|v| {
            let b = bag(v.references().map(|e| cc.ent(&mut k, e)));
            (cc.ex(&mut k, v), b)
        }).collect();
        vals.sort();
        got.sort();
        ensure!(vals == got, "references in nodes of {} differ\n{}", m.name, q(&s));
        c.add("nodes", got.len() as u64);
        i += 1;
    }
    ensure!(i == p.modules.len(), "{} modules of {}\n{}", i, p.modules.len(), q(&s));
    c.nontrivial(&s);
    Ok(())
}

pub fn c16() -> Check {
    static MUST: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let must = MUST.get_or_init(|| {
        let mut must: Vec<&'static str> = OPS.iter().map(|o| o.0).collect();
        must.extend(["references", "other expressions", "declarations", "instantiations", "declarations in both branches",
            "modules referenced repeatedly", "nodes"]);
        must
    });
    Check {
        id: "C16",
        level: "exploration",
        rule: "random expressions over every kind of operation and reference (own reference type included), random nested statements and modules, built and parsed; items counted by identity; non-trivial: at least two items; distinct by content",
        assumptions: &["the order in which items are yielded is not specified"],
        parts: vec![
            Part { name: "forms", quick: 50400, thorough: 420000, f: c16_forms },
            Part { name: "exprs", quick: 120000, thorough: 600000, f: c16_exprs },
            Part { name: "tags", quick: 120000, thorough: 1000000, f: c16_tags },
            Part { name: "stmts", quick: 48000, thorough: 300000, f: c16_stmts },
            Part { name: "nest", quick: 120000, thorough: 1000000, f: c16_nest },
            Part { name: "parsed", quick: 36000, thorough: 200000, f: c16_parsed },
        ],
        must,
    }
}

// ----------------------------------------------------------------- C17

/// Modules of a formatted circuit, as (name, text)
fn split(s: &str) -> Result<(String, Vec<(String, String)>), String> {
    let mut lines = s.split_inclusive('\n');
    let head = lines.next().ok_or("no header")?;
    let name = head.strip_prefix("circuit ").and_then(|h| h.split_once(':')).ok_or_else(|| format!("header {:?}", head))?.0;
    let mut v: Vec<(String, String)> = vec![];
    let mut ind = None;
    for l in lines {
        let t = l.trim_start_matches(' ');
        let k = l.len() - t.len();
        let ind = *ind.get_or_insert(k);
        if k == ind {
            let t = t.strip_prefix("module ").or_else(|| t.strip_prefix("extmodule ")).ok_or_else(|| format!("line {:?}", l))?;
            let n = t.split(|c: char| c == ' ' || c == ':').next().unwrap_or("");
            v.push((n.to_string(), l.to_string()));
        } else {
            v.last_mut().ok_or_else(|| format!("line {:?}", l))?.1.push_str(l);
        }
    }
    Ok((name.to_string(), v))
}

fn judge(c: &mut Case, top: &Rc<Module>, info: &Option<String>, x: &fa::Circuit, simple: bool) -> Verdict {
    let s = show(x)?;
    let want = reachable(top);
    c.eval();
    let (head, names): (String, Vec<String>) = if simple {
        let (h, v) = split(&s).map_err(|e| format!("unexpected {}\n{}", e, q(&s)))?;
        (h, v.into_iter().map(|x| x.0).collect())
    } else {
        match refparse::read(&s, true) {
            V::Accept(o) => {
                let mut k = Canon::new(true);
                for m in &o.modules {
                    if let Some(w) = want.iter().find(|w| w.name == m.name) {
                        let (a, b) = (k.module(w), k.module(m));
                        ensure!(a == b, "module {} is not defined in full:\n{}\n{}", m.name, {
                            let (a, b) = (k.def(a).to_string(), k.def(b).to_string());
                            conv::diff(&k, &a, &b)
                        }, q(&s));
                        c.count("definitions compared");
                    }
                }
                ensure!(o.info == *info, "circuit info {:?} instead of {:?}\n{}", o.info, info, q(&s));
                (o.top.clone(), o.modules.iter().map(|m| m.name.clone()).collect())
            }
            V::Reject { why, line, .. } => return Err(format!("formatted text is not FIRRTL, line {:?}: {}\n{}", line, why, q(&s))),
            V::Unspec(w) => return Err(format!("formatted text is not clearly FIRRTL: {}\n{}", w, q(&s))),
        }
    };
    ensure!(head == top.name, "header names {:?} instead of {:?}\n{}", head, top.name, q(&s));
    let mut pos: HashMap<&str, usize> = HashMap::new();
    let known: HashSet<&str> = want.iter().map(|m| m.name.as_str()).collect();
    for (i, n) in names.iter().enumerate() {
        ensure!(pos.insert(n, i).is_none(), "module {} is defined twice\n{}", n, q(&s));
        ensure!(known.contains(n.as_str()), "module {} is not reachable\n{}", n, q(&s));
    }
    for m in &want {
        let p = *pos.get(m.name.as_str()).ok_or_else(|| format!("module {} is missing\n{}", m.name, q(&s)))?;
        for d in instantiated(m.stmts()) {
            ensure!(pos.get(d.name.as_str()).map(|k| *k < p).unwrap_or(false), "module {} is used by {} before its definition\n{}", d.name, m.name, q(&s));
            c.count("uses ordered");
        }
    }
    c.add("definitions", names.len() as u64);
    if want.len() > 1 {
        c.nontrivial(&s);
    }
    c.sample(|| s.clone());
    Ok(())
}

fn c17_progs(c: &mut Case) -> Verdict {
    let cfg = Cfg { modules: 2 + c.r.below(12), stmts: 2 + c.r.below(8), depth: 1, shadow: c.r.chance(1, 3), ..Default::default() };
    let p = G::new(&mut c.r, cfg).prog();
    let mut b = Build::new();
    // Any module can be the top
    for m in &p.modules {
        let x = b.circuit(m, &p.info);
        judge(c, m, &p.info, &x, false)?;
    }
    Ok(())
}

fn when(r: &mut Rng, s: Vec<St>) -> Vec<St> {
    let l = || Ex::ULit(1u8.into(), 1);
    let skip = || vec![St { k: StK::Skip, info: None }];
    match r.below(5) {
        0 => vec![St { k: StK::When(l(), s, vec![]), info: None }],
        1 => vec![St { k: StK::When(l(), skip(), s), info: None }],
        2 => vec![St { k: StK::When(l(), skip(), vec![St { k: StK::When(l(), s, vec![]), info: None }]), info: None }],
        _ => s,
    }
}

/// Graphs of given shapes
fn graph(r: &mut Rng) -> (Vec<Rc<Module>>, &'static str) {
    let mk = |r: &mut Rng, i: usize, deps: Vec<Rc<Module>>, names: &mut HashSet<String>| -> Rc<Module> {
        let mut s: Vec<St> = vec![];
        for (k, d) in deps.into_iter().enumerate() {
            let st = St { k: StK::Decl(Rc::new(Ent { name: format!("i{}", k), k: EntK::Inst(d) })), info: None };
            let st = when(r, vec![st]);
            s.extend(st);
        }
        let n = if r.chance(1, 2) { format!("M{}", i) } else { format!("m{}_{}", r.below(1000), i) };
        names.insert(n.clone());
        let k = if s.is_empty() && r.chance(1, 2) { MK::Ext(None, vec![]) } else { MK::Reg(s) };
        Rc::new(Module { name: n, ports: vec![], info: None, k })
    };
    let mut names = HashSet::new();
    let mut v: Vec<Rc<Module>> = vec![];
    let what = match r.below(7) {
        6 => {
            // Fan of modules which have instances themselves
            let n = crate::gen::excess(r).min(150);
            let shared = r.chance(1, 2);
            let leaf = mk(r, 0, vec![], &mut names);
            v.push(leaf.clone());
            let mut d = vec![];
            for i in 0..n {
                let l = if shared { leaf.clone() } else { mk(r, 2 * i + 1, vec![], &mut names) };
                if !shared {
                    v.push(l.clone());
                }
                let m = mk(r, 2 * i + 2, vec![l], &mut names);
                v.push(m.clone());
                d.push(m);
            }
            r.shuffle(&mut d);
            v.push(mk(r, 2 * n + 1, d, &mut names));
            "wide"
        }
        0 => {
            // Deep chain
            for i in 0..20 + r.below(100) {
                let d = v.last().cloned().into_iter().collect();
                v.push(mk(r, i, d, &mut names));
            }
            "chain"
        }
        1 => {
            // Ladder of diamonds: two to the n paths
            for i in 0..30 + r.below(20) {
                let d = match v.last() { None => vec![], Some(m) => vec![m.clone(), m.clone()] };
                v.push(mk(r, i, d, &mut names));
            }
            "repeated instances"
        }
        2 => {
            let mut layer: Vec<Rc<Module>> = vec![];
            let mut i = 0;
            for _ in 0..12 + r.below(8) {
                let mut next = vec![];
                for _ in 0..3 {
                    let mut d = layer.clone();
                    r.shuffle(&mut d);
                    let m = mk(r, i, d, &mut names);
                    i += 1;
                    v.push(m.clone());
                    next.push(m);
                }
                layer = next;
            }
            "layers"
        }
        3 => {
            // Fan
            let n = 5 + r.below(60);
            for i in 0..n {
                v.push(mk(r, i, vec![], &mut names));
            }
            let mut d = v.clone();
            r.shuffle(&mut d);
            v.push(mk(r, n, d, &mut names));
            "fan"
        }
        _ => {
            // Any acyclic graph
            let n = 2 + r.below(24);
            let den = 2 + r.below(6);
            for i in 0..n {
                let mut d: Vec<_> = v.iter().filter(|_| r.chance(1, den)).cloned().collect();
                r.shuffle(&mut d);
                if let (true, Some(x)) = (r.chance(1, 4), d.first().cloned()) {
                    d.push(x);
                }
                v.push(mk(r, i, d, &mut names));
            }
            "random"
        }
    };
    (v, what)
}

/// Graphs of many modules
fn large(r: &mut Rng) -> Vec<Rc<Module>> {
    let mk = |r: &mut Rng, i: usize, deps: Vec<Rc<Module>>| -> Rc<Module> {
        let in_when = r.chance(1, 8);
        let mut s: Vec<St> = vec![];
        for (k, d) in deps.into_iter().enumerate() {
            let st = vec![St { k: StK::Decl(Rc::new(Ent { name: format!("i{}", k), k: EntK::Inst(d) })), info: None }];
            s.extend(if in_when { when(r, st) } else { st });
        }
        let k = if s.is_empty() && r.chance(1, 2) { MK::Ext(None, vec![]) } else { MK::Reg(s) };
        Rc::new(Module { name: format!("M{}", i), ports: vec![], info: None, k })
    };
    let n = 100 + r.below(3000);
    let mut v: Vec<Rc<Module>> = vec![];
    match r.below(4) {
        0 => {
            // All below one
            for i in 0..n {
                v.push(mk(r, i, vec![]));
            }
            let mut d = v.clone();
            r.shuffle(&mut d);
            v.push(mk(r, n, d));
        }
        1 => {
            // Many instances of few, the last ones of others
            for i in 0..40 {
                v.push(mk(r, i, vec![]));
            }
            let mut d: Vec<_> = (0..n).map(|_| v[r.below(20)].clone()).collect();
            d.extend(v[20..].iter().cloned());
            v.push(mk(r, 40, d));
        }
        2 => {
            // A chain, all of which use a few others
            let base: Vec<_> = (0..4).map(|i| mk(r, i, vec![])).collect();
            v.extend(base.iter().cloned());
            for i in 4..4 + n.min(400) {
                let mut d = vec![v.last().unwrap().clone(), r.pick(&base).clone()];
                r.shuffle(&mut d);
                v.push(mk(r, i, d));
            }
        }
        _ => {
            // A shallow graph
            for i in 0..n {
                let d = if i < n / 2 { vec![] } else { (0..r.below(5)).map(|_| v[r.below(n / 2)].clone()).collect() };
                v.push(mk(r, i, d));
            }
            let d = v[n / 2..].to_vec();
            v.push(mk(r, n, d));
        }
    }
    v
}

fn c17_large(c: &mut Case) -> Verdict {
    let v = large(&mut c.r);
    let mut b = Build::new();
    let top = v.last().unwrap();
    let x = b.circuit(top, &None);
    judge(c, top, &None, &x, true)?;
    c.count("many modules");
    if c.idx % 4 == 0 {
        let s = show(&x)?;
        let y = parse(&s).map_err(|e| format!("{}\n{}", e, q(&s)))?;
        judge(c, top, &None, &y, true)?;
    }
    Ok(())
}

fn c17_graphs(c: &mut Case) -> Verdict {
    let (v, what) = graph(&mut c.r);
    let mut b = Build::new();
    let top = if c.r.chance(2, 3) { v.last().unwrap().clone() } else { c.r.pick(&v).clone() };
    let x = b.circuit(&top, &None);
    judge(c, &top, &None, &x, true)?;
    c.count(what);
    // Parsed from a text that defines all of them
    if c.idx % 4 == 0 {
        let p = Prog { top: top.name.clone(), info: None, modules: v };
        let s = text::prog_plain(&mut c.r, &p);
        let y = parse(&s).map_err(|e| format!("{}\n{}", e, q(&s)))?;
        judge(c, &top, &None, &y, true)?;
        c.count("parsed");
    }
    // Several copies of equal modules make up the circuit
    if c.idx % 4 == 1 && what == "random" {
        let x = fa::Circuit::new(copies(&top));
        judge(c, &top, &None, &x, true)?;
        c.count("equal copies");
    }
    Ok(())
}

/// The module, each of its instances being of a copy of its own
fn copies(m: &Rc<Module>) -> Arc<CModule> {
    fn go(m: &Rc<Module>, budget: &mut i64, cache: &mut Build) -> Arc<CModule> {
        *budget -= 1;
        if *budget < 0 {
            return cache.module(m);
        }
        fn sts(s: &[St], budget: &mut i64, cache: &mut Build) -> Vec<Statement> {
            s.iter().map(|s| match &s.k {
                StK::Decl(e) => match &e.k {
                    EntK::Inst(m) => {
                        let m = go(m, budget, cache);
                        Statement::from(fa::stmt::Kind::Declaration(Arc::new(fa::module::Instance::new(e.name.as_str(), m).into())))
                    }
                    _ => cache.st(s),
                },
                StK::When(c, a, b) => Statement::from(fa::stmt::Kind::Conditional {
                    cond: cache.ex(c),
                    when: sts(a, budget, cache).into(),
                    r#else: sts(b, budget, cache).into(),
                }),
                _ => cache.st(s),
            }).collect()
        }
        match &m.k {
            MK::Reg(s) => Arc::new(CModule::new(m.name.as_str().into(), vec![], fa::module::Kind::Regular { stmts: sts(s, budget, cache) })),
            MK::Ext(..) => {
                let mut b = Build::new();
                b.module(m)
            }
        }
    }
    go(m, &mut 200, &mut Build::new())
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        rule: "random circuits and instantiation graphs (chains, diamonds with exponentially many paths, layers, fans, random), any module as top, built and parsed; module definitions of the formatted text compared with those reachable; non-trivial: more than one module reachable; distinct by formatted text",
        assumptions: &["module names distinct, except for equal copies of one module"],
        parts: vec![
            Part { name: "progs", quick: 30000, thorough: 200000, f: c17_progs },
            Part { name: "graphs", quick: 48000, thorough: 400000, f: c17_graphs },
            Part { name: "large", quick: 960, thorough: 6000, f: c17_large },
        ],
        must: &["definitions compared", "uses ordered", "chain", "repeated instances", "layers", "fan", "wide", "random", "parsed", "equal copies", "many modules"],
    }
}
