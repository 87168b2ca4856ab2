//! C26: equality

use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

use firrtl_ast as fa;
use fa::stmt::{Entity, Statement};

use crate::conv::{self, Build, CC};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, Env, G};
use crate::model::*;
use crate::rewrite;

/// Compare in all ways
fn cmp<T: PartialEq + Debug>(c: &mut Case, what: &str, x: &T, y: &T, same: bool) -> Verdict {
    c.eval();
    let r = (x == y, y == x, !(x != y), !(y != x));
    if r != (same, same, same, same) {
        let (mut p, mut q) = (format!("{:?}", x), format!("{:?}", y));
        p.truncate((0..=3000.min(p.len())).rev().find(|n| p.is_char_boundary(*n)).unwrap_or(0));
        q.truncate((0..=3000.min(q.len())).rev().find(|n| q.is_char_boundary(*n)).unwrap_or(0));
        return Err(format!("{} are {}, but compare {:?} (==, reversed ==, not !=, reversed not !=)\nleft: {}\nright: {}", what,
            if same { "equal" } else { "different" }, r, p, q));
    }
    c.count(if same { "found equal" } else { "found different" });
    Ok(())
}

fn self_eq<T: PartialEq + Debug + Clone>(c: &mut Case, what: &str, x: &T) -> Verdict {
    cmp(c, what, x, &x.clone(), true)
}

fn c26_mutants(c: &mut Case) -> Verdict {
    let cfg = Cfg {
        modules: 1 + c.r.below(4),
        stmts: [3, 6, 12][c.r.below(3)],
        depth: 2,
        when_depth: 2,
        budget: 800,
        reach: c.r.chance(3, 4),
        shadow: c.r.chance(1, 4),
        ..Default::default()
    };
    let p = G::new(&mut c.r, cfg).prog();
    let top = p.top_module().expect("harness: top").clone();
    let x = Build::new().circuit(&top, &p.info);
    // Independent and cloned copies
    let x2 = Build::new().circuit(&top, &p.info);
    cmp(c, "circuits", &x, &x2, true)?;
    self_eq(c, "circuits", &x)?;
    for _ in 0..6 {
        let (m, i, what) = match rewrite::mutant(&mut c.r, &top, &p.info) {
            Some(m) => m,
            None => continue,
        };
        let y = Build::new().circuit(&m, &i);
        let mut k = Canon::new(false);
        let (a, b) = (k.circuit(&top, &p.info), k.circuit(&m, &i));
        let same = a == b;
        if same {
            c.count("no change");
        } else {
            c.count(what);
            c.nontrivial(&format!("{} {}", what, conv::diff(&k, &a, &b)));
        }
        let d = conv::diff(&k, &a, &b);
        let say = |w: &str| format!("{} ({} {}, {})", w, what, if same { "rewritten" } else { "changed" }, d);
        cmp(c, &say("circuits"), &x, &y, same)?;
        let (ma, mb) = (k.module(&top), k.module(&m));
        cmp(c, &say("modules"), x.top_module(), y.top_module(), ma == mb)?;
        cmp(c, &say("modules"), x.top_module().as_ref(), y.top_module().as_ref(), ma == mb)?;
        // Statement by statement
        let mut cc = CC::new();
        let (xs, ys) = (x.top_module().statements(), y.top_module().statements());
        for (s, t) in xs.iter().zip(ys) {
            let (a, b) = (cc.st(&mut k, s), cc.st(&mut k, t));
            cmp(c, &format!("statements ({})", what), s, t, a == b)?;
            if let (fa::stmt::Kind::Declaration(d), fa::stmt::Kind::Declaration(e)) = (s.kind(), t.kind()) {
                let (a, b) = (cc.ent_str(&mut k, d), cc.ent_str(&mut k, e));
                cmp(c, &format!("entities ({})", what), d.as_ref(), e.as_ref(), a == b)?;
                parts(c, &mut k, &mut cc, d, e)?;
            }
        }
        cmp(c, &format!("module kinds ({})", what), x.top_module().kind(), y.top_module().kind(), {
            // Compare the part of the module's content which is its kind
            kind_str(&mut k, &top) == kind_str(&mut k, &m)
        })?;
        for (p, q) in x.top_module().ports().zip(y.top_module().ports()) {
            cmp(c, &format!("ports ({})", what), p.as_ref(), q.as_ref(), c_port(&conv::m_port(p)) == c_port(&conv::m_port(q)))?;
        }
    }
    c.sample(|| format!("{:?}", x));
    Ok(())
}

fn kind_str(k: &mut Canon, m: &Module) -> String {
    k.module_str(&Module { name: String::new(), ports: vec![], info: None, k: m.k.clone() })
}

/// The declared things themselves
fn parts(c: &mut Case, k: &mut Canon, cc: &mut CC, d: &Entity, e: &Entity) -> Verdict {
    use fa::types::Typed;
    match (d, e) {
        (Entity::Register(a), Entity::Register(b)) => {
            let s = cc.ent_str(k, d) == cc.ent_str(k, e);
            cmp(c, "registers", a, b, s)?;
            cmp(c, "expressions", a.clock(), b.clock(), cc.ex(k, a.clock()) == cc.ex(k, b.clock()))?;
        }
        (Entity::Memory(a), Entity::Memory(b)) => {
            let s = cc.ent_str(k, d) == cc.ent_str(k, e);
            cmp(c, "memories", a, b, s)?;
            cmp(c, "types", a.data_type(), b.data_type(), conv::m_ty(a.data_type()) == conv::m_ty(b.data_type()))?;
            for (p, q) in a.ports().zip(b.ports()) {
                cmp(c, "memory ports", p, q, p.name.as_bytes() == q.name.as_bytes() && conv::m_dir(p.dir) == conv::m_dir(q.dir))?;
            }
        }
        (Entity::SimpleMemPort(a), Entity::SimpleMemPort(b)) => {
            let s = cc.ent_str(k, d) == cc.ent_str(k, e);
            cmp(c, "simple memory ports", a, b, s)?;
            let s = cc.smem(k, a.memory()) == cc.smem(k, b.memory());
            cmp(c, "simple memories", a.memory().as_ref(), b.memory().as_ref(), s)?;
        }
        (Entity::Instance(a), Entity::Instance(b)) => {
            let s = cc.ent_str(k, d) == cc.ent_str(k, e);
            cmp(c, "instances", a, b, s)?;
        }
        (Entity::Node { value: a, .. }, Entity::Node { value: b, .. }) => {
            cmp(c, "expressions", a, b, cc.ex(k, a) == cc.ex(k, b))?;
            if let (Ok(a), Ok(b)) = (a.r#type(), b.r#type()) {
                cmp(c, "types", &a, &b, conv::m_ty(&a) == conv::m_ty(&b))?;
            }
        }
        (Entity::Wire { r#type: a, .. }, Entity::Wire { r#type: b, .. }) => {
            let s = conv::m_ty(a) == conv::m_ty(b);
            cmp(c, "types", a, b, s)?;
            use fa::types::Orientation as O;
            cmp(c, "oriented types", &a.with_orientation(O::Normal), &b.with_orientation(O::Normal), {
                typing_orient(a) == typing_orient(b)
            })?;
        }
        _ => (),
    }
    Ok(())
}

fn typing_orient(t: &fa::Type) -> String {
    fn go(t: &Ty, flip: bool, s: &mut String) {
        match t {
            Ty::G(g) => s.push_str(&format!("{}{}", if flip { "~" } else { "" }, c_gr(g))),
            Ty::V(t, n) => {
                s.push('[');
                go(t, flip, s);
                s.push_str(&format!(";{}]", n));
            }
            Ty::B(v) => {
                s.push('{');
                for f in v {
                    s.push_str(&format!("{:?}:", f.name));
                    go(&f.ty, flip ^ f.flip, s);
                    s.push(',');
                }
                s.push('}');
            }
        }
    }
    let mut s = String::new();
    go(&conv::m_ty(t), false, &mut s);
    s
}

/// Things of one kind, each compared to each
fn c26_pairs(c: &mut Case) -> Verdict {
    let mut e = Env { budget: 300, ..Default::default() };
    let cfg = Cfg { pool: &["a", "b"], hostile: false, info: 20, depth: 1, budget: 300, ..Default::default() };
    let small = c.r.chance(1, 2);
    let mut g = G::new(&mut c.r, if small { cfg.clone() } else { Cfg { pool: &[], ..cfg } });
    g.c.shadow = true;
    for n in ["p", "q"] {
        let p = Rc::new(Port { name: n.into(), ty: g.ty(1), out: false, info: None });
        g.add_ent(&mut e, Rc::new(Ent { name: p.name.clone(), k: EntK::Port(p) }));
    }
    let s: Vec<St> = g.sts(&mut e, 1, 12);
    let xs: Vec<Ex> = (0..8).map(|_| { let d = g.r.below(2); g.ex(&mut e, d) }).collect();
    let gs: Vec<Gr> = (0..8).map(|_| { let mut t = g.gr(); if g.r.chance(1, 2) { if let Gr::U(w) | Gr::S(w) | Gr::A(w) | Gr::F(w, _) = &mut t { *w = Some(1) } } t }).collect();
    let ts: Vec<Ty> = (0..6).map(|_| { let d = g.r.below(3); g.ty(d) }).collect();
    let ps: Vec<PV> = (0..6).map(|_| g.pv()).collect();
    let mut k = Canon::new(false);
    let mut b = Build::new();
    macro_rules! all {
        ($what:expr, $m:expr, $b:expr, $s:expr) => {
            let built: Vec<_> = $m.iter().map($b).collect();
            let texts: Vec<String> = $m.iter().map($s).collect();
            for i in 0..built.len() {
                for j in 0..built.len() {
                    cmp(c, $what, &built[i], &built[j], texts[i] == texts[j])?;
                    if i != j && texts[i] != texts[j] {
                        c.nontrivial(&format!("{} {}", texts[i], texts[j]));
                    }
                }
                self_eq(c, $what, &built[i])?;
            }
            c.count($what);
        };
    }
    all!("statements", s, |s| b.st(s), |s| k.st(s));
    let mut b = Build::new();
    all!("expressions", xs, |s| b.ex(s), |s| k.ex(s));
    all!("ground types", gs, conv::b_gr, c_gr);
    all!("types", ts, conv::b_ty, c_ty);
    // Types against ground types
    for t in &ts {
        for g in &gs {
            c.eval();
            let r = conv::b_ty(t) == conv::b_gr(g);
            ensure!(r == (*t == Ty::G(*g)), "type {} == ground type {} is {}", c_ty(t), c_gr(g), r);
        }
    }
    let fs: Vec<Fld> = ts.iter().enumerate().flat_map(|(i, t)| {
        let o = |flip, name: &str| Fld { name: name.into(), flip, ty: t.clone() };
        if i % 2 == 0 { vec![o(false, "a"), o(true, "a")] } else { vec![o(false, "b"), o(false, "a")] }
    }).collect();
    all!("fields", fs, conv::b_fld, |f: &Fld| c_ty(&Ty::B(vec![f.clone()])));
    let os: Vec<_> = ts.iter().flat_map(|t| [(t, false), (t, true)]).collect();
    all!("oriented types", os, |(t, f): &(&Ty, bool)| conv::b_ty(t).with_orientation(if *f { fa::types::Orientation::Flipped } else { fa::types::Orientation::Normal }),
        |(t, f): &(&Ty, bool)| typing_orient(&conv::b_ty(&Ty::B(vec![Fld { name: "x".into(), flip: *f, ty: (*t).clone() }]))));
    let zero = |p: &PV| if let PV::Dbl(d) = p { *d == 0.0 } else { false };
    let ps: Vec<PV> = ps.into_iter().filter(|p| !zero(p)).collect();
    all!("parameter values", ps, conv::b_pv, c_pv);
    let es: Vec<PE> = xs.iter().take(4).flat_map(|x| [PE::Val(x.clone(), Fm::B), PE::Val(x.clone(), Fm::D)]).chain(["", "a", "%"].iter().map(|s| PE::Lit(s.to_string()))).collect();
    all!("printf elements", es, |p| b.pe(p), |p: &PE| match p {
        PE::Lit(s) => format!("{:?}", s),
        PE::Val(e, f) => format!("{} {}", k.ex(e), c_fm(*f)),
    });
    Ok(())
}

/// Each string which equality regards, with one character exchanged for any other
fn c26_chars(c: &mut Case) -> Verdict {
    use fa::info::WithInfo;
    use fa::stmt::print::PrintElement as P;
    const MORE: &[char] = &['\u{80}', '\u{a0}', 'à', 'é', 'É', 'ß', 'ſ', 'K', 'İ', 'ı', 'ﬁ', 'Σ', 'σ', 'ς', '٣', '\u{301}', '\u{200b}', '\u{feff}', '\u{fffd}', '变', '𝒳', '\u{10ffff}'];
    let n = 128 + MORE.len();
    let ch = |i: usize| if i < 128 { i as u8 as char } else { MORE[i - 128] };
    let i = c.idx as usize % n;
    let (pre, post) = *c.r.pick(&[("", ""), ("x", ""), ("", "x"), ("x", "y"), ("é", "é")]);
    let s = |i: usize| format!("{}{}{}", pre, ch(i), post);
    for j in 0..=n {
        // Against nothing at all, too
        let (a, b) = (s(i), if j < n { s(j) } else { format!("{}{}", pre, post) });
        let same = a == b;
        let both = |c: &mut Case, what: &str, r: (bool, bool, bool)| -> Verdict {
            c.eval();
            ensure!(r == (same, same, !same), "{} with {:?} and {:?} compare {:?} (==, reversed ==, !=)", what, a, b, r);
            Ok(())
        };
        macro_rules! two {
            ($what:expr, $f:expr) => {{
                let f = $f;
                let (x, y) = (f(&a), f(&b));
                both(c, $what, (x == y, y == x, x != y))?;
            }};
        }
        let ty = || conv::b_gr(&Gr::U(Some(1)));
        let port = |n: &str| Arc::new(fa::module::Port::new(n, ty().into(), fa::module::Direction::Input));
        let reference = |n: &str| fa::expr::Expression::Reference(Arc::new(Entity::from(port(n))));
        two!("printf literals", |s: &str| P::Literal(s.into()));
        two!("infos", |s: &str| Statement::from(fa::stmt::Kind::Empty).with_info(Some(s.to_string())));
        two!("ports", |s: &str| fa::module::Port::new(s, ty().into(), fa::module::Direction::Input));
        two!("infos of ports", |s: &str| fa::module::Port::new("p", ty().into(), fa::module::Direction::Input).with_info(Some(s.to_string())));
        two!("modules", |s: &str| fa::Module::new(s.into(), None, fa::module::Kind::empty_regular()));
        two!("infos of modules", |s: &str| fa::Module::new("m".into(), None, fa::module::Kind::empty_regular()).with_info(Some(s.to_string())));
        two!("defnames", |s: &str| fa::module::Kind::External { defname: Some(s.into()), params: Default::default() });
        two!("parameter values", |s: &str| fa::module::ParamValue::String(s.into()));
        two!("parameter names", |s: &str| fa::module::Kind::External { defname: None, params: std::iter::once((Arc::<str>::from(s), fa::module::ParamValue::Int(1))).collect() });
        two!("fields", |s: &str| conv::b_fld(&Fld { name: s.into(), flip: false, ty: Ty::G(Gr::U(Some(1))) }));
        two!("bundles", |s: &str| conv::b_ty(&Ty::B(vec![Fld { name: s.into(), flip: false, ty: Ty::G(Gr::U(Some(1))) }])));
        two!("memories", |s: &str| fa::Memory::new(s, fa::Type::from(ty()), 1));
        two!("memory ports", |s: &str| fa::memory::mem::Port { name: s.into(), dir: fa::memory::PortDir::Read });
        two!("references", |s: &str| reference(s));
        two!("sub-fields", |s: &str| fa::expr::Expression::SubField { base: Arc::new(reference("p")), index: s.into() });
        two!("wires", |s: &str| Entity::Wire { name: s.into(), r#type: ty().into() });
        two!("names of stop", |s: &str| Statement::from(fa::stmt::Kind::Stop { name: Some(s.into()), clock: reference("p"), cond: reference("p"), code: 0 }));
        two!("names of printf", |s: &str| Statement::from(fa::stmt::Kind::Print { name: Some(s.into()), clock: reference("p"), cond: reference("p"), msg: vec![] }));
        two!("circuits", |s: &str| fa::Circuit::new(Arc::new(fa::Module::new("m".into(), None, fa::module::Kind::empty_regular()))).with_info(Some(s.to_string())));
        c.count("characters exchanged");
    }
    c.nontrivial(&format!("{:?}", s(i)));
    Ok(())
}

/// Every pair of values of the plain enumerations
fn c26_enums(c: &mut Case) -> Verdict {
    use fa::expr::Flow;
    use fa::memory::{simple, PortDir as P, ReadUnderWrite as R};
    use fa::module::Direction as D;
    use fa::stmt::print::Format as F;
    use fa::types::{Orientation as O, ResetKind as K};
    fn all<T: PartialEq + Debug + Clone>(c: &mut Case, v: &[T]) -> Verdict {
        for i in 0..v.len() {
            for j in 0..v.len() {
                cmp(c, "values", &v[i], &v[j].clone(), i == j)?;
            }
        }
        Ok(())
    }
    all(c, &[Flow::Source, Flow::Sink, Flow::Duplex])?;
    all(c, &[P::Read, P::Write, P::ReadWrite])?;
    all(c, &[R::Old, R::New, R::Undefined])?;
    all(c, &[D::Input, D::Output])?;
    all(c, &[F::Binary, F::Decimal, F::Hexadecimal, F::Character])?;
    all(c, &[O::Normal, O::Flipped])?;
    all(c, &[K::Regular, K::Async])?;
    use simple::Kind as S;
    all(c, &[S::Combinatory, S::Sequential(None), S::Sequential(Some(R::Old)), S::Sequential(Some(R::New)), S::Sequential(Some(R::Undefined))])?;
    let st: Vec<Statement> = vec![fa::stmt::Kind::Empty.into(), fa::stmt::Kind::Attach(vec![]).into()];
    all(c, &st)?;
    let a: Arc<str> = "a".into();
    all(c, &[fa::stmt::print::PrintElement::Literal(String::new()), fa::stmt::print::PrintElement::Literal(a.to_string())])?;
    c.count("enumerations");
    c.nontrivial("enumerations");
    Ok(())
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        level: "exploration",
        rule: "random circuits and copies with one attribute (of any of some 60 kinds, at any depth, in declarations or in what references point to) changed, compared at circuit, module, port, statement, entity, expression and type level; pairs of random small values of each kind; every string with one character exchanged for each of 150 others; equality expected iff canonical renderings agree; non-trivial: values differ; distinct by difference",
        assumptions: &["parameters 0.0 and -0.0 are not compared", "no NaN", "parameter names and module names distinct"],
        parts: vec![
            Part { name: "mutants", quick: 28000, thorough: 500000, f: c26_mutants },
            Part { name: "pairs", quick: 8000, thorough: 150000, f: c26_pairs },
            Part { name: "chars", quick: 1800, thorough: 6000, f: c26_chars },
            Part { name: "enums", quick: 1, thorough: 1, f: c26_enums },
        ],
        must: &["found equal", "found different", "circuit info", "ground type kind", "UInt width", "SInt width", "Analog width", "Fixed width",
            "Fixed point", "type structure", "vector length", "field name", "field orientation", "fields", "expression kind", "unsigned value",
            "signed value", "literal width", "sub-field name", "index", "operand order", "operation", "operation parameter", "parameter order",
            "port name", "port direction", "port info", "simple memory name", "simple memory kind", "memory port direction", "entity kind", "reset",
            "memory depth", "memory port name", "memory ports", "read latency", "write latency", "latencies", "read-under-write", "mport direction",
            "mport operands", "entity name", "statements", "connection order", "connection kind", "skip", "invalidate", "attached expressions",
            "branches", "stop operands", "stop code", "printf operands", "printf literal", "printf format", "printf elements", "statement info",
            "statement name", "module name", "ports", "module info", "module kind", "defname", "parameter name", "parameter value", "parameters",
            "enumerations", "characters exchanged"],
    }
}
