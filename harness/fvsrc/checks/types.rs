//! C10-C15: typing, flow and the algebra of types

use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

use firrtl_ast as fa;
use fa::expr::Flow as CFlow;
use fa::expr::Reference;
use fa::types::combinator::FnWidth;
use fa::types::{Combinator, GroundType as GT, MaxWidth, Orientation, OrientedType, Type, TypeExt, Typed};

use super::util::*;
use crate::conv::{self, b_gr, b_ty, m_gr, m_ty, Build};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::rng::Rng;
use crate::typing::{self, agrees, show_r, Flow, Ora, FR, LT, R};

// -------------------------------------------------------------- generation

/// Widths at and around limits
const WS: &[u16] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 32766, 32767, 32768, 32769, 65533, 65534, 65535];
const PS: &[i16] = &[0, 1, -1, 2, -2, 3, -3, 7, 8, -8, 16, -16, 100, -100, 256, -256, 32766, 32767, -32766, -32767, -32768];

fn wid(r: &mut Rng, limits: bool) -> u16 {
    match r.below(if limits { 3 } else { 8 }) {
        0 => *r.pick(WS),
        1 if limits => r.u64() as u16,
        2 if limits => 65535 - r.below(4) as u16,
        1 => r.below(600) as u16,
        _ => r.below(40) as u16,
    }
}
fn pnt(r: &mut Rng, limits: bool) -> i16 {
    match r.below(if limits { 3 } else { 8 }) {
        0 => *r.pick(PS),
        1 if limits => r.u64() as i16,
        2 if limits => if r.chance(1, 2) { 32767 - r.below(4) as i16 } else { -32768 + r.below(4) as i16 },
        _ => r.range(-12, 24) as i16,
    }
}

#[derive(Copy, Clone, PartialEq)]
enum K { U, S, F, Clk, Rst, ARst, An }
const KS: &[K] = &[K::U, K::U, K::U, K::S, K::S, K::F, K::F, K::Clk, K::Rst, K::ARst, K::An];

fn gr(r: &mut Rng, k: K, limits: bool, unknown: usize) -> Gr {
    let o = |r: &mut Rng| if r.chance(unknown, 100) { None } else { Some(wid(r, limits)) };
    match k {
        K::U => Gr::U(o(r)),
        K::S => Gr::S(o(r)),
        K::F => {
            let w = o(r);
            Gr::F(w, if r.chance(unknown, 100) { None } else { Some(pnt(r, limits)) })
        }
        K::Clk => Gr::Clock,
        K::Rst => Gr::Reset,
        K::ARst => Gr::AReset,
        K::An => Gr::A(o(r)),
    }
}

fn kind_of(l: &LT) -> Option<K> {
    use crate::typing::LG;
    match l {
        LT::G(g) => Some(match g {
            LG::U(_) => K::U, LG::S(_) => K::S, LG::F(..) => K::F, LG::Clock => K::Clk, LG::Reset => K::Rst, LG::AReset => K::ARst, LG::A(_) => K::An,
        }),
        _ => None,
    }
}

fn wire(n: usize, t: Ty) -> Rc<Ent> {
    Rc::new(Ent { name: format!("w{}", n), k: EntK::Wire(t) })
}

fn params(r: &mut Rng, o: usize, w: Option<u16>, limits: bool) -> Vec<i64> {
    let mut v: Vec<i64> = OPS[o].2.chars().map(|k| {
        if k == 's' {
            return pnt(r, limits) as i64;
        }
        match (r.below(4), w) {
            (0, Some(w)) => r.below(w as usize + 2) as i64,
            (1, Some(w)) => w as i64,
            (2, Some(w)) => (w as i64 + r.range(-2, 2)).clamp(0, 65535),
            _ => wid(r, limits) as i64,
        }
    }).collect();
    if OPS[o].0 == "bits" && v[0] < v[1] && r.chance(9, 10) {
        v.swap(0, 1);
    }
    v
}

fn actual(b: &mut Build, e: &Ex) -> Option<Ty> {
    b.ex(e).r#type().ok().map(|t| m_ty(&t))
}

fn known_ty(t: &Ty) -> bool {
    match t {
        Ty::G(Gr::U(w)) | Ty::G(Gr::S(w)) | Ty::G(Gr::A(w)) => w.is_some(),
        Ty::G(Gr::F(w, p)) => w.is_some() && p.is_some(),
        Ty::G(_) => true,
        Ty::V(t, _) => known_ty(t),
        Ty::B(v) => v.iter().all(|f| known_ty(&f.ty)),
    }
}

fn check_ty(c: &mut Case, o: &mut Ora, b: &mut Build, e: &Ex) -> Result<Option<LT>, String> {
    c.eval();
    let r = o.ex(e);
    let a = actual(b, e);
    if !agrees(&r, &a) {
        let mut k = Canon::new(false);
        let s = k.ex(e);
        return Err(format!("type of {}\nis reported as {}\nexpected: {}\nwhere\n{}", s, a.map(|t| c_ty(&t)).unwrap_or_else(|| "an error".into()), show_r(&r), k.dump()));
    }
    match (&r, &a) {
        (R::Ty(_), Some(t)) => c.count(if known_ty(t) { "types, known" } else { "types, with unknown widths" }),
        (R::Err, _) => c.count("errors"),
        (R::Free, _) => c.count("not specified"),
        (R::Either(_), Some(_)) => c.count("types, tolerated"),
        (R::Either(_), None) => c.count("errors, tolerated"),
        (R::Ty(_), None) => unreachable!(),
    }
    Ok(match r { R::Ty(t) => Some(t), _ => None })
}

// ------------------------------------------------------------------- C10

/// One operation applied to entities of random types
fn ops(c: &mut Case, limits: bool) -> Verdict {
    let oi = c.idx as usize % OPS.len();
    let unknown = *c.r.pick(&[0, 0, 0, 15, 60]);
    let k = match OPS[oi].0 {
        "incp" | "decp" | "setp" if c.r.chance(4, 5) => K::F,
        _ => *c.r.pick(KS),
    };
    let mut es = vec![];
    let mut w0 = None;
    for i in 0..OPS[oi].1 {
        let t = if c.r.chance(1, 25) {
            G::new(&mut c.r, Cfg::default()).ty(2)
        } else {
            let k = match (i, OPS[oi].0) {
                (0, _) => k,
                (_, "dshl") | (_, "dshr") if c.r.chance(9, 10) => K::U,
                _ if c.r.chance(8, 10) => k,
                _ => *c.r.pick(KS),
            };
            let mut g = gr(&mut c.r, k, limits, unknown);
            if i == 1 && OPS[oi].0 == "dshl" && c.r.chance(3, 4) {
                if let Gr::U(Some(w)) = &mut g {
                    *w = c.r.below(18) as u16;
                }
            }
            if i == 0 {
                w0 = match g { Gr::U(w) | Gr::S(w) | Gr::F(w, _) => w, _ => None };
            }
            Ty::G(g)
        };
        es.push(Ex::Ref(wire(i, t)));
    }
    let ps = params(&mut c.r, oi, w0, limits);
    let e = Ex::Op(oi, es, ps);
    let (mut o, mut b) = (Ora::new(), Build::new());
    if check_ty(c, &mut o, &mut b, &e)?.is_some() {
        c.count(&format!("well-typed {}", OPS[oi].0));
        let mut k = Canon::new(false);
        let s = k.ex(&e);
        c.nontrivial(&format!("{}{}", s, k.dump()));
        c.sample(|| format!("{} {}: {:?}", s, k.dump(), o.ex(&e)));
    }
    Ok(())
}

fn c10_ops(c: &mut Case) -> Verdict {
    let l = c.r.chance(1, 4);
    ops(c, l)
}

/// Give some of a type's fields the same name. Nothing keeps a user from
/// building such a type, and a lookup yields the first one
fn dup_names(r: &mut Rng, t: &Ty) -> Ty {
    match t {
        Ty::G(g) => Ty::G(*g),
        Ty::V(t, n) => Ty::V(Rc::new(dup_names(r, t)), *n),
        Ty::B(v) => {
            let mut w: Vec<_> = v.iter().map(|f| { let mut f = f.clone(); f.ty = dup_names(r, &f.ty); f }).collect();
            if w.len() > 1 && r.chance(2, 3) {
                let (i, j) = (r.below(w.len()), r.below(w.len()));
                w[i].name = w[j].name.clone();
            }
            Ty::B(w)
        }
    }
}

/// Entities of all kinds with a pool of expressions over them
fn env(r: &mut Rng, unknown: usize, limits: bool) -> Vec<Rc<Ent>> {
    let mut v: Vec<Rc<Ent>> = vec![];
    let mut used = HashSet::new();
    let dups = r.chance(1, 6);
    let n = 4 + r.below(8);
    for i in 0..n {
        let one = |r: &mut Rng| match r.below(6) {
            0..=2 => { let k = *r.pick(KS); Ty::G(gr(r, k, limits, unknown)) }
            3 => { let k = *r.pick(KS); let n = r.below(6) as u16; Ty::V(Rc::new(Ty::G(gr(r, k, limits, unknown))), n) }
            _ => {
                let t = G::new(r, Cfg::default()).ty(3);
                if unknown == 0 { make_known(r, &t) } else { t }
            }
        };
        let ty = |r: &mut Rng| {
            let t = one(r);
            if dups { dup_names(r, &t) } else { t }
        };
        let name = G::new(r, Cfg::default()).ident(&mut used);
        let k = match r.below(11) {
            0..=2 => {
                let t = ty(r);
                EntK::Port(Rc::new(Port { name: name.clone(), ty: t, out: r.chance(1, 2), info: None }))
            }
            3..=4 => EntK::Wire(ty(r)),
            5 => {
                let t = ty(r);
                let reset = if r.chance(1, 2) { Some((lit(r), lit(r))) } else { None };
                EntK::Reg(t, lit(r), reset)
            }
            6 => EntK::Node(if v.is_empty() || r.chance(1, 4) { lit(r) } else { Ex::Ref(r.pick(&v).clone()) }),
            7 => {
                let mut m = G::new(r, Cfg::default()).mem();
                if unknown == 0 { m.ty = make_known(r, &m.ty) }
                if dups && m.ports.len() > 1 {
                    let (i, j) = (r.below(m.ports.len()), r.below(m.ports.len()));
                    m.ports[i].0 = m.ports[j].0.clone();
                }
                EntK::Mem(m)
            }
            8 => {
                let base = ty(r);
                let t = if r.chance(1, 10) { base } else { let n = r.below(9) as u16; Ty::V(Rc::new(base), n) };
                let m = Rc::new(SMem { name: "m".into(), ty: t, seq: None });
                let d = *r.pick(&[Some(Dir::R), Some(Dir::W), Some(Dir::RW), None]);
                EntK::MPort(m, d, lit(r), lit(r))
            }
            _ => {
                let mut pn = HashSet::new();
                let ports = (0..r.below(5)).map(|_| {
                    let t = ty(r);
                    let name = if dups && r.chance(1, 2) { r.pick(&["p", "q"]).to_string() } else { G::new(r, Cfg::default()).ident(&mut pn) };
                    Rc::new(Port { name, ty: t, out: r.chance(1, 2), info: None })
                }).collect();
                EntK::Inst(Rc::new(Module { name: format!("m{}", i), ports, info: None, k: MK::Reg(vec![]) }))
            }
        };
        v.push(Rc::new(Ent { name, k }));
    }
    v
}

fn make_known(r: &mut Rng, t: &Ty) -> Ty {
    match t {
        Ty::G(g) => {
            let w = wid(r, false);
            Ty::G(match *g {
                Gr::U(x) => Gr::U(x.or(Some(w))),
                Gr::S(x) => Gr::S(x.or(Some(w))),
                Gr::A(x) => Gr::A(x.or(Some(w))),
                Gr::F(x, p) => Gr::F(x.or(Some(w)), p.or(Some(pnt(r, false)))),
                g => g,
            })
        }
        Ty::V(t, n) => Ty::V(Rc::new(make_known(r, t)), *n),
        Ty::B(v) => Ty::B(v.iter().map(|f| Fld { ty: make_known(r, &f.ty), ..f.clone() }).collect()),
    }
}

fn lit(r: &mut Rng) -> Ex {
    let mut g = G::new(r, Cfg::default());
    if g.pct(70) { g.ulit() } else { g.slit() }
}

fn size(e: &Ex) -> usize {
    let mut n = 0;
    walk_ex(e, &mut |_| n += 1);
    n
}

/// Change a type into an equivalent one
fn rewidth(r: &mut Rng, t: &Ty) -> Ty {
    let w = |r: &mut Rng, w: Option<u16>| if r.chance(1, 2) { w } else { Some(wid(r, false)) };
    match t {
        Ty::G(g) => Ty::G(match *g {
            Gr::U(x) => Gr::U(w(r, x)),
            Gr::S(x) => Gr::S(w(r, x)),
            Gr::A(x) => Gr::A(w(r, x)),
            Gr::F(x, p) => Gr::F(w(r, x), if r.chance(1, 2) { p } else { Some(pnt(r, false)) }),
            g => g,
        }),
        Ty::V(t, n) => Ty::V(Rc::new(rewidth(r, t)), *n),
        Ty::B(v) => Ty::B(v.iter().map(|f| Fld { ty: rewidth(r, &f.ty), ..f.clone() }).collect()),
    }
}

fn unflip(t: &Ty) -> Ty {
    match t {
        Ty::G(g) => Ty::G(*g),
        Ty::V(t, n) => Ty::V(Rc::new(unflip(t)), *n),
        Ty::B(v) => Ty::B(v.iter().map(|f| Fld { flip: false, ty: unflip(&f.ty), name: f.name.clone() }).collect()),
    }
}

/// Grow expressions from well-typed ones
fn grow(c: &mut Case, o: &mut Ora, n: usize, unknown: usize, limits: bool, f: &mut dyn FnMut(&mut Case, &mut Ora, &Ex) -> Result<Option<LT>, String>) -> Verdict {
    let es = env(&mut c.r, unknown, limits);
    let mut pool: Vec<(Ex, LT)> = vec![];
    let mut vecs: Vec<(Ex, LT)> = vec![];
    let mut nw = 100;
    for e in &es {
        let x = Ex::Ref(e.clone());
        if let Some(t) = f(c, o, &x)? {
            pool.push((x, t));
        }
    }
    for _ in 0..2 {
        let x = lit(&mut c.r);
        if let Some(t) = f(c, o, &x)? {
            pool.push((x, t));
        }
    }
    for _ in 0..n {
        let (a, ta) = c.r.pick(&pool).clone();
        let bx = |e: &Ex| Box::new(e.clone());
        let same = |c: &mut Case, t: &LT| -> Ex {
            let k = kind_of(t);
            for _ in 0..8 {
                let (b, tb) = c.r.pick(&pool).clone();
                if kind_of(&tb) == k && size(&b) < 40 {
                    return b;
                }
            }
            c.r.pick(&pool).0.clone()
        };
        if size(&a) > 60 {
            continue;
        }
        let e = match c.r.below(20) {
            0..=3 => match &ta {
                LT::B(v) if !v.is_empty() && c.r.chance(9, 10) => Ex::Field(bx(&a), c.r.pick(v).0.clone()),
                LT::V(_, n) if c.r.chance(9, 10) => if c.r.chance(1, 2) {
                    Ex::Idx(bx(&a), c.r.below((*n).max(1) as usize) as u16)
                } else {
                    let i = c.r.pick(&pool).0.clone();
                    Ex::Acc(bx(&a), Box::new(i))
                },
                _ => match c.r.below(3) {
                    0 => Ex::Field(bx(&a), c.r.pick(&["data", "a", "b", "en", "nope"]).to_string()),
                    1 => Ex::Idx(bx(&a), c.r.below(4) as u16),
                    _ => Ex::Acc(bx(&a), Box::new(Ex::ULit(1u8.into(), 1))),
                },
            },
            4..=6 => {
                let s = if c.r.chance(3, 4) { Ex::ULit(1u8.into(), 1) } else { c.r.pick(&pool).0.clone() };
                let b = if c.r.chance(1, 2) { same(c, &ta) } else {
                    // Something equivalent, or nearly so
                    let t = typing::strict(&ta);
                    let mut t2 = rewidth(&mut c.r, &t);
                    if unknown == 0 {
                        t2 = make_known(&mut c.r, &t2);
                    }
                    if c.r.chance(1, 4) {
                        t2 = near(&mut c.r, &t2).0;
                    }
                    nw += 1;
                    Ex::Ref(wire(nw, t2))
                };
                if c.r.chance(1, 2) { Ex::Mux(Box::new(s), bx(&a), Box::new(b)) } else { Ex::Mux(Box::new(s), Box::new(b), bx(&a)) }
            }
            7 => {
                let s = if c.r.chance(3, 4) { Ex::ULit(1u8.into(), 1) } else { c.r.pick(&pool).0.clone() };
                Ex::Valid(Box::new(s), bx(&a))
            }
            8 => {
                // A passive entity of a structured type
                let t = unflip(&typing::strict(&ta));
                nw += 1;
                Ex::Ref(wire(nw, t))
            }
            _ => {
                let i = c.r.below(OPS.len());
                let w0 = match &ta { LT::G(g) => match g {
                    crate::typing::LG::U(crate::typing::C::K(w)) | crate::typing::LG::S(crate::typing::C::K(w)) | crate::typing::LG::F(crate::typing::C::K(w), _) => Some((*w).clamp(0, 65535) as u16),
                    _ => None,
                }, _ => None };
                let mut v = vec![a.clone()];
                if OPS[i].1 == 2 {
                    v.push(same(c, &ta));
                }
                let ps = params(&mut c.r, i, w0, limits);
                Ex::Op(i, v, ps)
            }
        };
        if let Some(t) = f(c, o, &e)? {
            if size(&e) > 3 {
                c.count("nested well-typed expressions");
            }
            if matches!(t, LT::G(_)) || pool.len() < 60 {
                pool.push((e, t));
            } else {
                vecs.push((e, t));
            }
        }
    }
    let _ = vecs;
    Ok(())
}

fn c10_nested(c: &mut Case) -> Verdict {
    let unknown = *c.r.pick(&[0, 0, 0, 20]);
    let limits = c.r.chance(1, 8);
    let mut b = Build::new();
    let mut o = Ora::new();
    // Keep every expression's entities alive: `Build` goes by address
    let mut keep: Vec<Ex> = vec![];
    grow(c, &mut o, 60, unknown, limits, &mut |c, o, e| {
        keep.push(e.clone());
        let t = check_ty(c, o, &mut b, e)?;
        if t.is_some() && size(e) > 1 {
            let mut k = Canon::new(false);
            let s = k.ex(e);
            c.nontrivial(&format!("{}{}", s, k.dump()));
        }
        Ok(t)
    })
}

/// All expressions of whole programs
fn c10_programs(c: &mut Case) -> Verdict {
    let p = gen_prog(&mut c.r, Cfg { modules: 2, ..Default::default() });
    let (mut o, mut b) = (Ora::new(), Build::new());
    for m in &p.modules {
        let mut v = vec![];
        walk_stmts(m.stmts(), &mut |s| v.extend(st_exprs(s)));
        for e in v {
            let mut sub = vec![];
            walk_ex(e, &mut |e| sub.push(e));
            for e in sub {
                check_ty(c, &mut o, &mut b, e)?;
            }
        }
    }
    c.count("programs");
    Ok(())
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        rule: "each operation on operands of random ground types, expressions grown from well-typed ones over entities of all kinds, all expressions of random programs; the reported type is compared with an independent implementation of the typing rules; non-trivial: well-typed; distinct by expression and declarations",
        assumptions: &["operations on operand kinds for which the specification gives no rule are not judged (counted)"],
        parts: vec![
            Part { name: "ops", quick: 3200000, thorough: 12000000, f: c10_ops },
            Part { name: "nested", quick: 64000, thorough: 250000, f: c10_nested },
            Part { name: "programs", quick: 24000, thorough: 100000, f: c10_programs },
        ],
        must: &["types, known", "types, with unknown widths", "errors", "nested well-typed expressions", "well-typed setp", "well-typed bits", "well-typed dshl", "well-typed rem"],
    }
}

// ------------------------------------------------------------------- C11

fn c11_ops(c: &mut Case) -> Verdict {
    ops(c, true)
}

/// Enumerate combinations of limits
fn c11_enum(c: &mut Case) -> Verdict {
    // One case: an operation, a kind and the first operand's width; all
    // second widths and parameters
    let mut i = c.idx as usize;
    let oi = i % OPS.len();
    i /= OPS.len();
    let ws: Vec<Option<u16>> = WS.iter().map(|w| Some(*w)).chain([None]).collect();
    let w = ws[i % ws.len()];
    i /= ws.len();
    let ks = [K::U, K::S, K::F];
    let k = ks[i % 3];
    let mk = |k: K, w: Option<u16>, p: Option<i16>| Ty::G(match k { K::U => Gr::U(w), K::S => Gr::S(w), _ => Gr::F(w, p) });
    let (mut o, mut b) = (Ora::new(), Build::new());
    let mut keep = vec![];
    let pts: Vec<Option<i16>> = if k == K::F {
        let mut v: Vec<Option<i16>> = (0..6).map(|_| Some(*c.r.pick(PS))).collect();
        v.push(Some(*c.r.pick(&[32767, -32768])));
        v.push(None);
        v
    } else { vec![None] };
    let kp: Vec<char> = OPS[oi].2.chars().collect();
    for p in &pts {
        let a = wire(0, mk(k, w, *p));
        let mut second: Vec<Option<Rc<Ent>>> = vec![None];
        if OPS[oi].1 == 2 {
            second = ws.iter().map(|w2| {
                let k2 = if OPS[oi].0.starts_with("dsh") { K::U } else { k };
                let p2 = if c.r.chance(1, 8) { None } else { Some(*c.r.pick(PS)) };
                Some(wire(1, mk(k2, *w2, p2)))
            }).collect();
        }
        let mut ps: Vec<Vec<i64>> = vec![vec![]];
        if kp.len() == 1 {
            ps = if kp[0] == 'u' { WS.iter().map(|x| vec![*x as i64]).collect() } else { PS.iter().map(|x| vec![*x as i64]).collect() };
        } else if kp.len() == 2 {
            ps = WS.iter().flat_map(|x| WS.iter().map(move |y| vec![*x as i64, *y as i64])).collect();
        }
        for s in &second {
            for ps in &ps {
                let mut v = vec![Ex::Ref(a.clone())];
                if let Some(s) = s {
                    v.push(Ex::Ref(s.clone()));
                }
                let e = Ex::Op(oi, v, ps.clone());
                check_ty(c, &mut o, &mut b, &e)?;
                c.count("combinations of limits");
                keep.push(e);
            }
        }
        keep.push(Ex::Ref(a));
    }
    if w.is_some() {
        c.nontrivial(&format!("{} {}", c.idx, OPS[oi].0));
    }
    Ok(())
}

/// Exact result of combining fixed point widths
fn c11_fixed(c: &mut Case) -> Verdict {
    let all: usize = WS.len() * PS.len();
    let exact = |a: (u16, i16), b: (u16, i16)| {
        let (aw, ap, bw, bp) = (a.0 as i64, a.1 as i64, b.0 as i64, b.1 as i64);
        let w = (aw - ap).max(bw - bp) + ap.max(bp);
        if (0..=65535).contains(&w) { Some(w as u16) } else { None }
    };
    let i = c.idx as usize % all;
    let a = (WS[i % WS.len()], PS[i / WS.len()]);
    for j in 0..all {
        let b = (WS[j % WS.len()], PS[j / WS.len()]);
        c.eval();
        let r = fa::types::combine_fixed_max(a, b);
        ensure!(r == exact(a, b), "combine_fixed_max({:?}, {:?}) is {:?}, not {:?}", a, b, r, exact(a, b));
    }
    for _ in 0..200 {
        let a = (wid(&mut c.r, true), pnt(&mut c.r, true));
        let b = (wid(&mut c.r, true), pnt(&mut c.r, true));
        c.eval();
        let r = fa::types::combine_fixed_max(a, b);
        ensure!(r == exact(a, b), "combine_fixed_max({:?}, {:?}) is {:?}, not {:?}", a, b, r, exact(a, b));
        // The same by way of combining types
        let (x, y) = (GT::Fixed(Some(a.0), Some(a.1)), GT::Fixed(Some(b.0), Some(b.1)));
        let t = MaxWidth::new().combine(&x, &y);
        ensure!(t == Ok(GT::Fixed(exact(a, b), Some(a.1.max(b.1)))), "{:?} combined with {:?} is {:?}", x, y, t);
    }
    c.count("fixed point combinations");
    c.nontrivial(&format!("{:?}", a));
    Ok(())
}

fn c11_addr(c: &mut Case) -> Verdict {
    let exact = |n: u128| {
        let mut w = 0u32;
        while w < 128 && (1u128 << w) < n {
            w += 1;
        }
        w as u16
    };
    // Around every power of two
    for k in 0..128u32 {
        for d in -2i32..=2 {
            let n = (1u128 << k).wrapping_add(d as i128 as u128);
            c.eval();
            let w = fa::types::required_address_width(n);
            ensure!(w == exact(n), "required_address_width({}) is {}, not {}", n, w, exact(n));
        }
    }
    for _ in 0..100 {
        let s = c.r.below(64) as u32;
        let n = c.r.u64() >> s;
        c.eval();
        let w = fa::types::required_address_width(n);
        ensure!(w == exact(n as u128), "required_address_width({}) is {}, not {}", n, w, exact(n as u128));
        let m = Mem { ty: Ty::G(Gr::U(Some(1))), depth: n, ports: vec![("p".into(), Dir::R)], rl: 0, wl: 0, ruw: Ruw::Undef };
        let x = Build::mem("m", &m).r#type().map_err(|_| "memory without a type")?;
        ensure!(m_ty(&x) == typing::mem_ty(&m), "memory of depth {} has type {}", n, c_ty(&m_ty(&x)));
        c.nontrivial(&n.to_string());
    }
    for n in [u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) + 1, 0, 1, 2, 3] {
        let w = fa::types::required_address_width(n);
        ensure!(w == exact(n as u128), "required_address_width({}) is {}, not {}", n, w, exact(n as u128));
    }
    ensure!(fa::types::required_address_width(u128::MAX) == 128, "required_address_width(u128::MAX)");
    c.count("address widths");
    Ok(())
}

fn c11_nested(c: &mut Case) -> Verdict {
    let mut b = Build::new();
    let mut o = Ora::new();
    let mut keep: Vec<Ex> = vec![];
    grow(c, &mut o, 60, 5, true, &mut |c, o, e| {
        keep.push(e.clone());
        let t = check_ty(c, o, &mut b, e)?;
        if t.is_some() && size(e) > 1 {
            let mut k = Canon::new(false);
            let s = k.ex(e);
            c.nontrivial(&format!("{}{}", s, k.dump()));
        }
        Ok(t)
    })
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        rule: "all operations on all combinations of widths, shift amounts and indices at and around the limits (points sampled), random operands biased to limits, fixed point combinations and address widths around all powers of two; compared with exact arithmetic; overflow checks are enabled; non-trivial: known widths",
        assumptions: &["a result outside the range may also be reported as an error"],
        parts: vec![
            Part { name: "enum", quick: (37 * 28 * 3) as u64, thorough: (37 * 28 * 3 * 8) as u64, f: c11_enum },
            Part { name: "ops", quick: 2000000, thorough: 8000000, f: c11_ops },
            Part { name: "fixed", quick: 567, thorough: 20000, f: c11_fixed },
            Part { name: "addr", quick: 3000, thorough: 10000, f: c11_addr },
            Part { name: "nested", quick: 30000, thorough: 100000, f: c11_nested },
        ],
        must: &["combinations of limits", "fixed point combinations", "address widths", "types, with unknown widths", "types, known"],
    }
}

// ------------------------------------------------------------------- C12

fn c12_ents(c: &mut Case) -> Verdict {
    let unknown = *c.r.pick(&[0, 20]);
    let es = env(&mut c.r, unknown, true);
    let (mut o, mut b) = (Ora::new(), Build::new());
    for e in &es {
        c.eval();
        let x = b.ent(e);
        let a = x.r#type().ok().map(|t| m_ty(&t));
        let r = o.ent(e);
        let mut k = Canon::new(false);
        let i = k.ent(e);
        let d = k.def(i).to_string();
        ensure!(agrees(&r, &a), "type of {}\nis {}\nexpected {}\n{}", d, a.map(|t| c_ty(&t)).unwrap_or_else(|| "an error".into()), show_r(&r), k.dump());
        // By way of a reference expression
        let y = fa::Expression::from(x.clone()).r#type().ok().map(|t| m_ty(&t));
        ensure!(agrees(&r, &y), "type of a reference to {}\nis {:?}\nexpected {}\n{}", d, y, show_r(&r), k.dump());
        c.nontrivial(&k.dump());
        // The declared item on its own
        use fa::stmt::Entity as E;
        let (n, own) = match x.as_ref() {
            E::Port(p) => ("port", Typed::r#type(p.as_ref()).ok().map(|t| m_ty(&t))),
            E::Wire { r#type, .. } => ("wire", Some(m_ty(r#type))),
            E::Register(r) => ("register", r.r#type().ok().map(|t| m_ty(&t))),
            E::Node { value, .. } => ("node", value.r#type().ok().map(|t| m_ty(&t))),
            E::Memory(m) => ("memory", m.r#type().ok().map(|t| m_ty(&t))),
            E::SimpleMemPort(p) => ("memory port", p.r#type().ok().map(|t| m_ty(&t))),
            E::Instance(i) => ("instance", i.r#type().ok().map(|t| m_ty(&t))),
        };
        c.count(n);
        ensure!(agrees(&r, &own), "{} {} has type {:?}, expected {}\n{}", n, d, own, show_r(&r), k.dump());
        if let E::SimpleMemPort(p) = x.as_ref() {
            let t = p.memory().r#type().ok().map(|t| m_ty(&t));
            if let EntK::MPort(m, ..) = &e.k {
                ensure!(t.as_ref() == Some(&m.ty), "simple memory has type {:?}", t);
            }
            if own.is_none() {
                c.count("memory port without a type");
            }
        }
    }
    Ok(())
}

fn c12_mem(c: &mut Case) -> Verdict {
    let mut m = G::new(&mut c.r, Cfg::default()).mem();
    if c.r.chance(1, 2) {
        m.depth = (1u64 << c.r.below(64)).wrapping_add(c.r.range(-1, 1) as u64);
    }
    let e = Rc::new(Ent { name: "m".into(), k: EntK::Mem(m.clone()) });
    c.eval();
    let x = Build::new().ent(&e);
    let a = x.r#type().map(|t| m_ty(&t)).map_err(|_| "memory without a type")?;
    let t = typing::mem_ty(&m);
    ensure!(a == t, "memory {}\nhas type {}\nexpected  {}", Canon::mem_str("m", &m), c_ty(&a), c_ty(&t));
    // Ports added one by one or all at once
    let mut y = fa::Memory::new("m", b_ty(&m.ty), m.depth);
    for (n, d) in &m.ports {
        y.add_port(fa::memory::mem::Port { name: n.as_str().into(), dir: conv::b_dir(*d) });
    }
    ensure!(y.r#type().map(|t| m_ty(&t)).ok() == Some(t.clone()), "type depends on how ports are added: {}", Canon::mem_str("m", &m));
    if !m.ports.is_empty() {
        c.nontrivial(&Canon::mem_str("m", &m));
    }
    c.sample(|| format!("{}: {}", Canon::mem_str("m", &m), c_ty(&t)));
    c.count("memories");
    Ok(())
}

/// Declarations read from text
fn c12_text(c: &mut Case) -> Verdict {
    let p = gen_prog(&mut c.r, Cfg { modules: 2, depth: 1, ..Default::default() });
    let s = crate::text::prog_text(&mut c.r, &p);
    let mut it = fa::circuit::consumer(&s).map_err(|e| format!("{:?}", e))?;
    let mut o = Ora::new();
    for m in &p.modules {
        let x = it.next().ok_or("module missing")?.map_err(|e| format!("{:?}\n{}", e, q(&s)))?;
        let mut es: Vec<&Rc<Ent>> = vec![];
        walk_stmts(m.stmts(), &mut |s| if let StK::Decl(e) = &s.k { es.push(e) });
        fn decls(s: &[fa::stmt::Statement], v: &mut Vec<Arc<fa::stmt::Entity>>) {
            for s in s {
                match s.kind() {
                    fa::stmt::Kind::Declaration(e) => v.push(e.clone()),
                    fa::stmt::Kind::Conditional { when, r#else, .. } => {
                        decls(when, v);
                        decls(r#else, v);
                    }
                    _ => (),
                }
            }
        }
        let mut xs = vec![];
        decls(x.statements(), &mut xs);
        ensure!(xs.len() == es.len(), "{} declarations instead of {}\n{}", xs.len(), es.len(), q(&s));
        for (e, x) in es.iter().zip(&xs) {
            c.eval();
            let r = o.ent(e);
            let a = x.r#type().ok().map(|t| m_ty(&t));
            ensure!(agrees(&r, &a), "type of {} is {:?}, expected {}\n{}", e.name, a, show_r(&r), q(&s));
            c.count("parsed declarations");
        }
        for (p, y) in m.ports.iter().zip(x.ports()) {
            ensure!(Typed::r#type(y.as_ref()).map(|t| m_ty(&t)).ok().as_ref() == Some(&p.ty), "type of port {}\n{}", p.name, q(&s));
        }
    }
    c.nontrivial(&s);
    Ok(())
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        rule: "random entities of all kinds, memories with depths around powers of two, declarations of parsed programs; the type is compared with the one the specification prescribes; distinct by declaration",
        assumptions: &[],
        parts: vec![
            Part { name: "ents", quick: 240000, thorough: 1000000, f: c12_ents },
            Part { name: "mem", quick: 480000, thorough: 2000000, f: c12_mem },
            Part { name: "text", quick: 40000, thorough: 100000, f: c12_text },
        ],
        must: &["port", "wire", "register", "node", "memory", "memory port", "instance", "memory port without a type", "parsed declarations", "memories"],
    }
}

// ------------------------------------------------------------------- C13

fn flow_of(f: CFlow) -> Flow {
    match f { CFlow::Source => Flow::Src, CFlow::Sink => Flow::Snk, CFlow::Duplex => Flow::Dup }
}

fn check_flow(c: &mut Case, o: &mut Ora, b: &mut Build, e: &Ex) -> Verdict {
    c.eval();
    let r = o.flow(e);
    let a = b.ex(e).flow().ok().map(flow_of);
    let ok = match r {
        FR::Is(f) => a == Some(f),
        FR::Err => a.is_none(),
        FR::Free => true,
    };
    let descr = || {
        let mut k = Canon::new(false);
        let s = k.ex(e);
        format!("{}\nwhere\n{}", s, k.dump())
    };
    ensure!(ok, "flow is {:?}, expected {:?}, of\n{}", a, r, descr());
    match r {
        FR::Is(Flow::Src) => c.count("source"),
        FR::Is(Flow::Snk) => c.count("sink"),
        FR::Is(Flow::Dup) => c.count("duplex"),
        FR::Err => c.count("no flow"),
        FR::Free => c.count("not specified"),
    }
    if size(e) > 1 && r != FR::Free {
        let d = descr();
        c.nontrivial(&d);
        c.sample(|| format!("{:?}: {}", r, d));
    }
    Ok(())
}

/// Flows of everything reachable below entities
fn c13_paths(c: &mut Case) -> Verdict {
    let es = env(&mut c.r, 10, false);
    let (mut o, mut b) = (Ora::new(), Build::new());
    for e in &es {
        let x = b.ent(e);
        let f = typing::ent_flow(e);
        let a = x.flow().map(flow_of);
        c.eval();
        ensure!(match f { FR::Is(f) => a == Some(f), _ => a.is_none() }, "flow of {:?} is {:?}, expected {:?}", e, a, f);
        use fa::stmt::Entity as E;
        let own = match x.as_ref() {
            E::Port(p) => p.flow(),
            E::Register(r) => r.flow(),
            E::Memory(m) => m.flow(),
            E::SimpleMemPort(p) => p.flow(),
            E::Instance(i) => i.flow(),
            _ => x.flow(),
        }.map(flow_of);
        ensure!(own == a, "flow of {:?} is {:?} on its own, {:?} as an entity", e, own, a);
        let mut work: Vec<(Ex, usize)> = vec![(Ex::Ref(e.clone()), 0)];
        let mut keep = vec![];
        let mut n = 0;
        while let Some((x, d)) = work.pop() {
            n += 1;
            check_flow(c, &mut o, &mut b, &x)?;
            if d < 7 && n < 60 {
                match o.ex(&x) {
                    R::Ty(LT::B(v)) => {
                        // some of very many
                        let few = v.len() > 40;
                        for (f, flip, _) in &v {
                            if few && !c.r.chance(40, v.len()) {
                                continue;
                            }
                            work.push((Ex::Field(Box::new(x.clone()), f.clone()), d + 1));
                            c.count(if *flip { "flipped fields" } else { "normal fields" });
                        }
                        if c.r.chance(1, 4) {
                            let mut n = String::from("missing");
                            while v.iter().any(|f| f.0 == n) {
                                n.push('_');
                            }
                            work.push((Ex::Field(Box::new(x.clone()), n), d + 1));
                        }
                    }
                    R::Ty(LT::V(_, n)) => {
                        work.push((Ex::Idx(Box::new(x.clone()), c.r.below(n.max(1) as usize) as u16), d + 1));
                        let i = Ex::Ref(c.r.pick(&es).clone());
                        work.push((Ex::Acc(Box::new(x.clone()), Box::new(i)), d + 1));
                    }
                    _ => if c.r.chance(1, 10) {
                        work.push((Ex::Field(Box::new(x.clone()), "a".into()), d + 1));
                    },
                }
            }
            keep.push(x);
        }
    }
    Ok(())
}

fn c13_nested(c: &mut Case) -> Verdict {
    let mut b = Build::new();
    let mut o = Ora::new();
    let mut keep: Vec<Ex> = vec![];
    grow(c, &mut o, 60, 5, false, &mut |c, o, e| {
        keep.push(e.clone());
        check_flow(c, o, &mut b, e)?;
        Ok(match o.ex(e) { R::Ty(t) => Some(t), _ => None })
    })
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        rule: "entities of all kinds with nested bundle and vector types, every path below them, and expressions grown from well-typed ones; the flow is compared with the rule; non-trivial: not a bare reference; distinct by expression and declarations",
        assumptions: &["flow of indexing into something that is no vector is not judged"],
        parts: vec![
            Part { name: "paths", quick: 48000, thorough: 300000, f: c13_paths },
            Part { name: "nested", quick: 30000, thorough: 200000, f: c13_nested },
        ],
        must: &["source", "sink", "duplex", "no flow", "flipped fields", "normal fields"],
    }
}

// ------------------------------------------------------------------- C14

/// A type differing in a single aspect
pub fn near(r: &mut Rng, t: &Ty) -> (Ty, &'static str) {
    fn nodes(t: &Ty) -> usize {
        1 + match t {
            Ty::G(_) => 0,
            Ty::V(t, _) => nodes(t),
            Ty::B(v) => v.iter().map(|f| nodes(&f.ty)).sum(),
        }
    }
    fn at(r: &mut Rng, t: &Ty, n: &mut usize, what: &mut &'static str) -> Ty {
        if *n == 0 {
            *n = usize::MAX;
            return one(r, t, what);
        }
        *n -= 1;
        match t {
            Ty::G(g) => Ty::G(*g),
            Ty::V(t, k) => Ty::V(Rc::new(at(r, t, n, what)), *k),
            Ty::B(v) => Ty::B(v.iter().map(|f| Fld { name: f.name.clone(), flip: f.flip, ty: at(r, &f.ty, n, what) }).collect()),
        }
    }
    fn one(r: &mut Rng, t: &Ty, what: &mut &'static str) -> Ty {
        match t {
            Ty::G(g) => {
                if r.chance(1, 2) {
                    *what = "width";
                    let x = rewidth(r, t);
                    if &x != t {
                        return x;
                    }
                }
                *what = "ground kind";
                let all = [Gr::U(Some(3)), Gr::S(Some(3)), Gr::F(Some(3), Some(1)), Gr::Clock, Gr::Reset, Gr::AReset, Gr::A(Some(3)), Gr::U(Some(1))];
                let mut n = *r.pick(&all);
                for _ in 0..4 {
                    if typing::same_kind(&n, g) {
                        n = *r.pick(&all);
                    }
                }
                if r.chance(1, 8) {
                    *what = "ground type wrapped";
                    return if r.chance(1, 2) { Ty::V(Rc::new(t.clone()), 1) } else { Ty::B(vec![Fld { name: "a".into(), flip: false, ty: t.clone() }]) };
                }
                Ty::G(n)
            }
            Ty::V(b, n) => match r.below(4) {
                0 => { *what = "vector unwrapped"; (**b).clone() }
                1 => { *what = "vector wrapped"; Ty::V(Rc::new(t.clone()), *n) }
                _ => { *what = "vector length"; Ty::V(b.clone(), if r.chance(1, 2) { n.wrapping_add(1) } else { n.wrapping_sub(1) }) }
            },
            Ty::B(v) => {
                let mut v = v.clone();
                let i = r.below(v.len());
                match r.below(8) {
                    _ if v.is_empty() => { *what = "field added"; v.push(Fld { name: "a".into(), flip: false, ty: Ty::G(Gr::Clock) }) }
                    0 => { *what = "field removed"; v.remove(i); }
                    1 => { *what = "field added"; v.insert(i, Fld { name: "extra".into(), flip: r.chance(1, 2), ty: Ty::G(Gr::U(None)) }) }
                    2 => { *what = "field name"; v[i].name.push('x') }
                    3 if v.len() > 1 => { *what = "fields swapped"; let j = (i + 1) % v.len(); v.swap(i, j) }
                    4 if v.len() > 1 => {
                        *what = "field types swapped";
                        let j = (i + 1) % v.len();
                        let x = v[i].ty.clone();
                        v[i].ty = v[j].ty.clone();
                        v[j].ty = x;
                    }
                    5 => {
                        // Same oriented type, other fields flipped
                        *what = "orientation moved";
                        if let Ty::B(w) = &mut v[i].ty {
                            for f in w.iter_mut() {
                                f.flip = !f.flip;
                            }
                        } else if let Ty::V(b, n) = &v[i].ty {
                            if let Ty::B(w) = &**b {
                                let w = w.iter().map(|f| Fld { flip: !f.flip, ..f.clone() }).collect();
                                v[i].ty = Ty::V(Rc::new(Ty::B(w)), *n);
                            }
                        }
                        v[i].flip = !v[i].flip;
                    }
                    _ => { *what = "orientation"; v[i].flip = !v[i].flip }
                }
                Ty::B(v)
            }
        }
    }
    let mut n = r.below(nodes(t));
    let mut what = "nothing";
    let x = at(r, t, &mut n, &mut what);
    (x, what)
}

pub fn some_ty(r: &mut Rng) -> Ty {
    let d = 1 + r.below(4);
    let t = G::new(r, Cfg::default()).ty(d);
    if r.chance(1, 6) { dup_names(r, &t) } else { t }
}

fn m_oty(t: &OrientedType) -> typing::OT {
    match t {
        OrientedType::GroundType(g, o) => typing::OT::G(m_gr(g), *o == Orientation::Flipped),
        OrientedType::Vector(t, n) => typing::OT::V(Rc::new(m_oty(t)), *n),
        OrientedType::Bundle(v) => typing::OT::B(v.iter().map(|(n, t)| (n.to_string(), m_oty(t))).collect()),
    }
}

fn pair_ok(c: &mut Case, a: &Ty, b: &Ty) -> Verdict {
    let (x, y) = (b_ty(a), b_ty(b));
    let (ox, oy) = (OrientedType::from(&x), OrientedType::from(&y));
    let e = typing::equivalent(a, b);
    let oe = typing::oequiv(&typing::orient(a, false), &typing::orient(b, false));
    c.eval();
    let d = || format!("{}\nand\n{}", c_ty(a), c_ty(b));
    ensure!(TypeExt::eq(&x, &y) == e, "equivalence is {} for\n{}", !e, d());
    ensure!(TypeExt::eq(&y, &x) == e, "equivalence is not symmetric for\n{}", d());
    ensure!(x.weak_eq(&y) == oe, "weak equivalence is {} for\n{}", !oe, d());
    ensure!(y.weak_eq(&x) == oe, "weak equivalence is not symmetric for\n{}", d());
    ensure!(TypeExt::eq(&ox, &oy) == oe, "equivalence of oriented types is {} for\n{}", !oe, d());
    ensure!(TypeExt::eq(&ox.flipped(), &oy.flipped()) == oe, "equivalence of flipped oriented types is {} for\n{}", !oe, d());
    c.count(if e { "equivalent" } else if oe { "weakly equivalent only" } else { "not equivalent" });
    if let (Ty::G(g), Ty::G(h)) = (a, b) {
        ensure!(TypeExt::eq(&b_gr(g), &b_gr(h)) == e, "equivalence of ground types is {} for\n{}", !e, d());
    }
    Ok(())
}

fn single_ok(c: &mut Case, a: &Ty) -> Verdict {
    let x = b_ty(a);
    c.eval();
    let d = c_ty(a);
    ensure!(x.is_passive() == typing::passive(a), "passive is {} for {}", x.is_passive(), d);
    c.count(if typing::passive(a) { "passive" } else { "not passive" });
    let gt = match a { Ty::G(g) => Some(*g), _ => None };
    ensure!(x.ground_type().map(|g| m_gr(&g)) == gt, "ground type of {} is {:?}", d, x.ground_type());
    for (o, f) in [(Orientation::Normal, false), (Orientation::Flipped, true)] {
        let y = x.with_orientation(o);
        let want = typing::orient(a, f);
        ensure!(m_oty(&y) == want, "{} oriented {:?} is {:?}", d, o, y);
        ensure!(m_oty(&y.flipped()) == typing::oflip(&want), "{} oriented {:?} and flipped is {:?}", d, o, y.flipped());
        ensure!(y.flipped().flipped() == y, "{} oriented {:?} and flipped twice is {:?}", d, o, y.flipped().flipped());
        ensure!(y.is_passive() == typing::opassive(&want), "passive is {} for {} oriented {:?}", y.is_passive(), d, o);
        ensure!(y.ground_type().map(|g| m_gr(&g)) == gt, "ground type of {} oriented {:?} is {:?}", d, o, y.ground_type());
        ensure!(TypeExt::eq(&y, &y), "{} oriented {:?} is not equivalent to itself", d, o);
    }
    ensure!(OrientedType::from(&x) == x.with_orientation(Orientation::Normal), "{} converted and oriented differ", d);
    ensure!(x.with_orientation(Orientation::Flipped) == OrientedType::from(&x).flipped(), "{} oriented flipped and flipped differ", d);
    ensure!(TypeExt::eq(&x, &x) && x.weak_eq(&x), "{} is not equivalent to itself", d);
    if let Ty::G(g) = a {
        let g = b_gr(g);
        ensure!(g.is_passive() && g.ground_type() == Some(g) && TypeExt::eq(&g, &g), "ground type {}", d);
    }
    Ok(())
}

fn c14_near(c: &mut Case) -> Verdict {
    let a = some_ty(&mut c.r);
    single_ok(c, &a)?;
    let mut b = a.clone();
    let n = 1 + c.r.below(3);
    for _ in 0..n {
        let (t, what) = near(&mut c.r, &b);
        c.count(what);
        pair_ok(c, &b, &t)?;
        b = t;
        pair_ok(c, &a, &b)?;
    }
    let w = rewidth(&mut c.r, &a);
    pair_ok(c, &a, &w)?;
    ensure!(TypeExt::eq(&b_ty(&a), &b_ty(&w)), "harness: rewidth");
    // Transitivity
    let z = rewidth(&mut c.r, &w);
    let (x, y, z) = (b_ty(&a), b_ty(&w), b_ty(&z));
    ensure!(!(TypeExt::eq(&x, &y) && TypeExt::eq(&y, &z)) || TypeExt::eq(&x, &z), "not transitive: {:?}\n{:?}\n{:?}", x, y, z);
    if !matches!(a, Ty::G(_)) {
        c.nontrivial(&format!("{} {}", c_ty(&a), c_ty(&b)));
    }
    c.sample(|| format!("{} and {}", c_ty(&a), c_ty(&b)));
    Ok(())
}

/// All pairs and triples of small types
fn small_types() -> Vec<Ty> {
    let g = [Gr::U(None), Gr::U(Some(1)), Gr::S(Some(1)), Gr::F(Some(1), Some(1)), Gr::F(None, None), Gr::Clock, Gr::Reset, Gr::AReset, Gr::A(Some(1))];
    let mut v: Vec<Ty> = g.iter().map(|g| Ty::G(*g)).collect();
    let base = v.clone();
    let mut lvl = base[..3].to_vec();
    for _ in 0..2 {
        let mut next = vec![Ty::B(vec![])];
        for t in &lvl {
            next.push(Ty::V(Rc::new(t.clone()), 1));
            next.push(Ty::V(Rc::new(t.clone()), 2));
            for f in [false, true] {
                next.push(Ty::B(vec![Fld { name: "a".into(), flip: f, ty: t.clone() }]));
                next.push(Ty::B(vec![Fld { name: "a".into(), flip: f, ty: t.clone() }, Fld { name: "b".into(), flip: false, ty: Ty::G(Gr::Clock) }]));
            }
        }
        v.extend(next.iter().cloned());
        lvl = next;
    }
    v
}

fn c14_small(c: &mut Case) -> Verdict {
    let v = small_types();
    let a = &v[c.idx as usize % v.len()];
    single_ok(c, a)?;
    let x = b_ty(a);
    let mut eq = vec![];
    for b in &v {
        pair_ok(c, a, b)?;
        if TypeExt::eq(&x, &b_ty(b)) {
            eq.push(b);
        }
    }
    for b in &eq {
        for d in &eq {
            c.eval();
            ensure!(TypeExt::eq(&b_ty(b), &b_ty(d)), "not transitive: {} {} {}", c_ty(b), c_ty(a), c_ty(d));
        }
    }
    c.count("small types");
    c.nontrivial(&c_ty(a));
    Ok(())
}

pub fn c14() -> Check {
    let n = small_types().len() as u64;
    Check {
        id: "C14",
        level: "exploration",
        rule: "all pairs of small types, random types against copies differing in a single aspect or in widths only; compared with independent definitions; non-trivial: aggregates; distinct by pair",
        assumptions: &[],
        parts: vec![
            Part { name: "small", quick: n, thorough: n, f: c14_small },
            Part { name: "near", quick: 960000, thorough: 5000000, f: c14_near },
        ],
        must: &["equivalent", "weakly equivalent only", "not equivalent", "passive", "not passive", "orientation", "orientation moved", "vector length", "fields swapped", "ground kind", "small types"],
    }
}

// ------------------------------------------------------------------- C15

fn has_fixed(t: &Ty) -> bool {
    match t {
        Ty::G(Gr::F(..)) => true,
        Ty::G(_) => false,
        Ty::V(t, _) => has_fixed(t),
        Ty::B(v) => v.iter().any(|f| has_fixed(&f.ty)),
    }
}

/// A width rule as a plain function, and its results
const RULES: &[(&str, fn(u16, u16) -> Option<u16>)] = &[
    ("max", |a, b| Some(a.max(b))),
    ("min", |a, b| Some(a.min(b))),
    ("sum", |a, b| a.checked_add(b)),
    ("difference", |a, b| a.checked_sub(b)),
    ("first", |a, _| Some(a)),
    ("second", |_, b| Some(b)),
    ("none", |_, _| None),
    ("mixed", |a, b| if a % 3 == 0 { None } else { Some(a.wrapping_mul(31).wrapping_add(b)) }),
];

/// Widths never decrease
fn not_below(t: &Ty, of: &Ty) -> bool {
    let ge = |a: Option<u16>, b: Option<u16>| match (a, b) { (Some(a), Some(b)) => a >= b, _ => true };
    match (t, of) {
        (Ty::G(a), Ty::G(b)) => match (a, b) {
            (Gr::U(a), Gr::U(b)) | (Gr::S(a), Gr::S(b)) | (Gr::A(a), Gr::A(b)) => ge(*a, *b),
            (Gr::F(a, p), Gr::F(b, q)) => ge(*a, *b) && match (p, q) { (Some(p), Some(q)) => p >= q, _ => true },
            _ => true,
        },
        (Ty::V(a, _), Ty::V(b, _)) => not_below(a, b),
        (Ty::B(a), Ty::B(b)) => a.iter().zip(b).all(|(a, b)| not_below(&a.ty, &b.ty)),
        _ => false,
    }
}

fn c15_pairs(c: &mut Case) -> Verdict {
    let a = if c.r.chance(1, 3) { let k = *c.r.pick(KS); Ty::G(gr(&mut c.r, k, true, 20)) } else { some_ty(&mut c.r) };
    let b = match c.r.below(10) {
        0..=5 => rewidth(&mut c.r, &a),
        6..=8 => { let t = rewidth(&mut c.r, &a); near(&mut c.r, &t).0 }
        _ => some_ty(&mut c.r),
    };
    let (x, y) = (b_ty(&a), b_ty(&b));
    let d = || format!("{}\nand\n{}", c_ty(&a), c_ty(&b));
    // Functions
    for (n, f) in RULES {
        c.eval();
        let comb = FnWidth::from(*f);
        let want = typing::combine_fn(&a, &b, f);
        let got = comb.combine(&x, &y).ok().map(|t: Type| m_ty(&t));
        ensure!(got == want, "combining by {} gives {}, expected {}, for\n{}", n, show(&got), show(&want), d());
        c.count(if want.is_some() { "combined by function" } else { "no combination by function" });
        if let (Ty::G(g), Ty::G(h)) = (&a, &b) {
            let got: Option<Ty> = comb.combine(&b_gr(g), &b_gr(h)).ok().map(|t: GT| Ty::G(m_gr(&t)));
            ensure!(got == want, "combining ground types by {} gives {}, expected {}, for\n{}", n, show(&got), show(&want), d());
        }
    }
    // Operands with parts in common
    {
        c.eval();
        let k = c.r.below(RULES.len());
        let comb = FnWidth::from(RULES[k].1);
        let vec = std::sync::Arc::new(x.clone());
        let outer = |second: &Type| -> Type {
            let v = Type::Vector(vec.clone(), 3);
            vec![fa::types::BundleField::new("p", v), fa::types::BundleField::new("q", second.clone())].into()
        };
        let wrap = |second: &Ty| Ty::B(vec![
            Fld { name: "p".into(), flip: false, ty: Ty::V(Rc::new(a.clone()), 3) },
            Fld { name: "q".into(), flip: false, ty: second.clone() },
        ]);
        let (l, r) = (outer(&x), if c.r.chance(1, 2) { outer(&x) } else { outer(&y) });
        let (wl, wr) = (wrap(&a), wrap(&conv::m_ty(match &r { Type::Bundle(v) => v[1].r#type(), _ => &x })));
        let want = typing::combine_fn(&wl, &wr, &RULES[k].1);
        let got = comb.combine(&l, &r).ok().map(|t: Type| m_ty(&t));
        ensure!(got == want, "combining types with parts in common by {} gives {}, expected {}, for\n{}\nand\n{}", RULES[k].0, show(&got), show(&want), c_ty(&wl), c_ty(&wr));
        let want = typing::combine_fn(&a, &a, &RULES[k].1);
        let got = comb.combine(&x, &x).ok().map(|t: Type| m_ty(&t));
        ensure!(got == want, "combining a type with itself by {} gives {}, expected {}, for\n{}", RULES[k].0, show(&got), show(&want), c_ty(&a));
        c.count(if want.is_some() { "operands in common combined" } else { "operands in common not combined" });
    }
    // Widths
    {
        let k = c.r.below(RULES.len());
        let ow = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(wid(r, true)) };
        let (l, r) = (ow(&mut c.r), ow(&mut c.r));
        let f = RULES[k].1;
        let want = match (l, r) { (Some(l), Some(r)) => f(l, r), _ => None };
        let comb = FnWidth::from(f);
        ensure!(comb.combine_widths(l, r) == want, "{} combined with {} by {}", sw(l), sw(r), RULES[k].0);
        ensure!(Combinator::<Option<u16>>::combine(&comb, &l, &r).ok() == Some(want), "{} combined with {} by {} (combinator)", sw(l), sw(r), RULES[k].0);
        let want = match (l, r) { (Some(l), Some(r)) => Some(l.max(r)), _ => None };
        ensure!(MaxWidth::combine_widths(l, r) == want, "{} combined with {} by maximum", sw(l), sw(r));
    }
    // Maximum
    c.eval();
    let m = MaxWidth::new();
    let want = typing::lmax(&typing::lt(&a), &typing::lt(&b));
    let got = m.combine(&x, &y).ok().map(|t: Type| m_ty(&t));
    let rev = m.combine(&y, &x).ok().map(|t: Type| m_ty(&t));
    ensure!(got == rev, "maximum is not commutative for\n{}", d());
    match (&want, &got) {
        (None, None) => c.count("no maximum"),
        (Some(w), Some(g)) => {
            ensure!(typing::matches(w, g), "maximum is {}, expected {:?}, for\n{}", c_ty(g), w, d());
            c.count("maximum");
            if has_fixed(g) {
                c.count("maximum with fixed point");
            }
            ensure!(not_below(g, &a) && not_below(g, &b), "maximum {} is narrower than an operand of\n{}", c_ty(g), d());
            ensure!(typing::equivalent(g, &a), "maximum changes the shape of\n{}", d());
        }
        _ => return Err(format!("maximum is {}, expected {:?}, for\n{}", show(&got), want, d())),
    }
    if let (Ty::G(g), Ty::G(h)) = (&a, &b) {
        let gg: Option<Ty> = m.combine(&b_gr(g), &b_gr(h)).ok().map(|t: GT| Ty::G(m_gr(&t)));
        ensure!(gg == got, "maximum of ground types is {}, of types {}, for\n{}", show(&gg), show(&got), d());
    }
    // Fields
    let (fl, gl) = (c.r.chance(1, 2), c.r.chance(1, 2));
    let same_name = c.r.chance(3, 4);
    let f = Fld { name: "f".into(), flip: fl, ty: a.clone() };
    let g = Fld { name: if same_name { "f".into() } else { "g".into() }, flip: gl, ty: b.clone() };
    let (cf, cg) = (conv::b_fld(&f), conv::b_fld(&g));
    let r = m.combine(&cf, &cg);
    let fit = fl == gl && same_name && got.is_some();
    ensure!(r.is_ok() == fit, "maximum of fields {:?} and {:?} is {:?}", f, g, r);
    if let Ok(r) = r {
        ensure!(Some(m_ty(r.r#type())) == got && (r.orientation() == Orientation::Flipped) == fl && fa::Named::name_ref(&r) == "f", "maximum of fields {:?} and {:?} is {:?}", f, g, r);
    }
    // Idempotence
    if known_ty(&a) {
        c.eval();
        ensure!(m.combine(&x, &x).ok() == Some(x.clone()), "maximum of {} with itself is {:?}", c_ty(&a), m.combine(&x, &x).ok());
        c.count("idempotent");
    }
    if !matches!(a, Ty::G(_)) && got.is_some() {
        c.nontrivial(&d());
    }
    c.sample(|| format!("{}: {}", d(), show(&got)));
    return Ok(());

    fn show(t: &Option<Ty>) -> String {
        t.as_ref().map(c_ty).unwrap_or_else(|| "an error".into())
    }
    fn sw(w: Option<u16>) -> String {
        format!("{:?}", w)
    }
}

/// A rule of one's own for ground types
struct Own;
impl Combinator<GT> for Own {
    fn combine<'a>(&self, l: &'a GT, r: &'a GT) -> Result<GT, (&'a GT, &'a GT)> {
        match (l, r) {
            (GT::UInt(Some(a)), GT::UInt(Some(b))) if a > b => Ok(GT::SInt(Some(a - b))),
            (GT::Clock, x) => Ok(*x),
            (GT::Fixed(w, _), GT::Fixed(_, p)) => Ok(GT::Fixed(*w, *p)),
            _ => Err((l, r)),
        }
    }
}

fn own(a: &Ty, b: &Ty) -> Option<Ty> {
    Some(match (a, b) {
        (Ty::G(a), Ty::G(b)) => Ty::G(match (a, b) {
            (Gr::U(Some(a)), Gr::U(Some(b))) if a > b => Gr::S(Some(a - b)),
            (Gr::Clock, x) => *x,
            (Gr::F(w, _), Gr::F(_, p)) => Gr::F(*w, *p),
            _ => return None,
        }),
        (Ty::V(a, n), Ty::V(b, m)) if n == m => Ty::V(Rc::new(own(a, b)?), *n),
        (Ty::B(v), Ty::B(w)) if v.len() == w.len() => Ty::B(v.iter().zip(w).map(|(f, g)| {
            if f.name == g.name && f.flip == g.flip { Some(Fld { ty: own(&f.ty, &g.ty)?, ..f.clone() }) } else { None }
        }).collect::<Option<Vec<_>>>()?),
        _ => return None,
    })
}

fn c15_own(c: &mut Case) -> Verdict {
    fn ty(r: &mut Rng, d: usize) -> Ty {
        match r.below(if d == 0 { 3 } else { 6 }) {
            0 => Ty::G(Gr::U(Some(5 + r.below(4) as u16))),
            1 => Ty::G(Gr::Clock),
            2 => Ty::G(Gr::F(Some(r.below(9) as u16), Some(r.below(9) as i16))),
            3 => Ty::V(Rc::new(ty(r, d - 1)), r.below(4) as u16),
            _ => Ty::B((0..r.below(4)).map(|i| Fld { name: format!("f{}", i), flip: r.chance(1, 3), ty: ty(r, d - 1) }).collect()),
        }
    }
    fn lower(r: &mut Rng, t: &Ty) -> Ty {
        match t {
            Ty::G(Gr::U(_)) => Ty::G(Gr::U(Some(r.below(5) as u16))),
            Ty::G(Gr::Clock) => Ty::G(*r.pick(&[Gr::Clock, Gr::Reset, Gr::S(None)])),
            Ty::G(g) => Ty::G(*g),
            Ty::V(t, n) => Ty::V(Rc::new(lower(r, t)), *n),
            Ty::B(v) => Ty::B(v.iter().map(|f| Fld { ty: lower(r, &f.ty), ..f.clone() }).collect()),
        }
    }
    let a = ty(&mut c.r, 3);
    let mut b = lower(&mut c.r, &a);
    if c.r.chance(1, 3) {
        b = near(&mut c.r, &b).0;
    }
    c.eval();
    let want = own(&a, &b);
    let got = Own.combine(&b_ty(&a), &b_ty(&b)).ok().map(|t: Type| m_ty(&t));
    ensure!(got == want, "combining by a rule of one's own gives {:?}, expected {:?}, for\n{}\nand\n{}", got, want, c_ty(&a), c_ty(&b));
    c.count(if got.is_some() { "combined by own rule" } else { "no combination by own rule" });
    Ok(())
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        level: "exploration",
        rule: "pairs of types with equal shape and of types differing in a single aspect, under the maximum rule, eight width functions and a custom rule; compared with leafwise application; non-trivial: aggregates which combine; distinct by pair",
        assumptions: &["the point of a maximum with an unknown width may be reported or not"],
        parts: vec![
            Part { name: "pairs", quick: 1440000, thorough: 5000000, f: c15_pairs },
            Part { name: "own", quick: 480000, thorough: 1000000, f: c15_own },
        ],
        must: &["maximum", "no maximum", "maximum with fixed point", "combined by function", "no combination by function", "idempotent", "operands in common combined", "combined by own rule", "no combination by own rule"],
    }
}

