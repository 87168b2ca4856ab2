//! Reference oracle for types and flows, written from the FIRRTL
//! specification's rules over the harness' own model.

use num_bigint::BigInt;
use std::collections::HashMap;
use std::rc::Rc;

use crate::model::*;

/// A width or point: known, unknown, or "unknown or this value"
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum C {
    K(i64),
    N,
    E(i64),
}

#[derive(Clone, PartialEq, Debug)]
pub enum LG {
    U(C),
    S(C),
    F(C, C),
    Clock,
    Reset,
    AReset,
    A(C),
}

/// Type with leniency at its leaves
#[derive(Clone, PartialEq, Debug)]
pub enum LT {
    G(LG),
    V(Rc<LT>, u16),
    B(Vec<(String, bool, LT)>),
}

/// Outcome of a typing query
#[derive(Clone, PartialEq, Debug)]
pub enum R {
    /// This type
    Ty(LT),
    /// This type or an error
    Either(LT),
    Err,
    /// Not specified
    Free,
}

const WMAX: i64 = 65535;

fn cmap(a: C, f: impl Fn(i64) -> i64) -> C {
    match a {
        C::K(x) => C::K(f(x)),
        C::E(x) => C::E(f(x)),
        C::N => C::N,
    }
}
fn cmap2(a: C, b: C, f: impl Fn(i64, i64) -> i64) -> C {
    match (a, b) {
        (C::N, _) | (_, C::N) => C::N,
        (C::K(x), C::K(y)) => C::K(f(x, y)),
        (C::K(x), C::E(y)) | (C::E(x), C::K(y)) | (C::E(x), C::E(y)) => C::E(f(x, y)),
    }
}
/// Clamp to representable widths
fn w(c: C) -> C {
    match c {
        C::K(x) | C::E(x) if !(0..=WMAX).contains(&x) => C::N,
        c => c,
    }
}
/// Clamp to representable points
fn p(c: C) -> C {
    match c {
        C::K(x) | C::E(x) if !(-32768..=32767).contains(&x) => C::N,
        c => c,
    }
}
/// Make a component lenient
fn soft(c: C) -> C {
    match c {
        C::K(x) => C::E(x),
        c => c,
    }
}

pub fn cw(o: Option<u16>) -> C {
    o.map(|w| C::K(w as i64)).unwrap_or(C::N)
}
pub fn cp(o: Option<i16>) -> C {
    o.map(|w| C::K(w as i64)).unwrap_or(C::N)
}

pub fn lg(g: &Gr) -> LG {
    match *g {
        Gr::U(w) => LG::U(cw(w)),
        Gr::S(w) => LG::S(cw(w)),
        Gr::F(w, p) => LG::F(cw(w), cp(p)),
        Gr::Clock => LG::Clock,
        Gr::Reset => LG::Reset,
        Gr::AReset => LG::AReset,
        Gr::A(w) => LG::A(cw(w)),
    }
}
pub fn lt(t: &Ty) -> LT {
    match t {
        Ty::G(g) => LT::G(lg(g)),
        Ty::V(t, n) => LT::V(Rc::new(lt(t)), *n),
        Ty::B(v) => LT::B(v.iter().map(|f| (f.name.clone(), f.flip, lt(&f.ty))).collect()),
    }
}
/// Some type within the lenient type
pub fn strict(t: &LT) -> Ty {
    let o = |c: C| match c { C::K(x) | C::E(x) => Some(x as u16), C::N => None };
    let op = |c: C| match c { C::K(x) | C::E(x) => Some(x as i16), C::N => None };
    match t {
        LT::G(g) => Ty::G(match g {
            LG::U(w) => Gr::U(o(*w)),
            LG::S(w) => Gr::S(o(*w)),
            LG::F(w, p) => Gr::F(o(*w), op(*p)),
            LG::Clock => Gr::Clock,
            LG::Reset => Gr::Reset,
            LG::AReset => Gr::AReset,
            LG::A(w) => Gr::A(o(*w)),
        }),
        LT::V(t, n) => Ty::V(Rc::new(strict(t)), *n),
        LT::B(v) => Ty::B(v.iter().map(|(n, f, t)| Fld { name: n.clone(), flip: *f, ty: strict(t) }).collect()),
    }
}

fn cmatch(c: C, v: Option<i64>) -> bool {
    match (c, v) {
        (C::K(x), Some(y)) | (C::E(x), Some(y)) => x == y,
        (C::N, None) | (C::E(_), None) => true,
        _ => false,
    }
}
pub fn matches(l: &LT, t: &Ty) -> bool {
    let uw = |c: &C, w: &Option<u16>| cmatch(*c, w.map(|w| w as i64));
    match (l, t) {
        (LT::G(l), Ty::G(g)) => match (l, g) {
            (LG::U(c), Gr::U(w)) | (LG::S(c), Gr::S(w)) | (LG::A(c), Gr::A(w)) => uw(c, w),
            (LG::F(c, d), Gr::F(w, p)) => uw(c, w) && cmatch(*d, p.map(|p| p as i64)),
            (LG::Clock, Gr::Clock) | (LG::Reset, Gr::Reset) | (LG::AReset, Gr::AReset) => true,
            _ => false,
        },
        (LT::V(a, n), Ty::V(b, m)) => n == m && matches(a, b),
        (LT::B(a), Ty::B(b)) => a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| x.0 == y.name && x.1 == y.flip && matches(&x.2, &y.ty)),
        _ => false,
    }
}

pub fn show_r(r: &R) -> String {
    match r {
        R::Ty(t) => format!("type {:?}", t),
        R::Either(t) => format!("type {:?} or an error", t),
        R::Err => "an error".into(),
        R::Free => "anything".into(),
    }
}

/// Does an actual result (`None`: error) agree with the oracle?
pub fn agrees(r: &R, actual: &Option<Ty>) -> bool {
    match (r, actual) {
        (R::Free, _) => true,
        (R::Err, a) => a.is_none(),
        (R::Ty(_), None) => false,
        (R::Either(_), None) => true,
        (R::Ty(l), Some(t)) | (R::Either(l), Some(t)) => matches(l, t),
    }
}

pub fn min_signed_width(v: &BigInt) -> u64 {
    // smallest w with -2^(w-1) <= v < 2^(w-1)
    if v.sign() == num_bigint::Sign::Minus {
        (v + 1u8).bits() + 1
    } else {
        v.bits() + 1
    }
}

// -------------------------------------------------------------- type algebra

pub fn same_kind(a: &Gr, b: &Gr) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}

pub fn equivalent(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::G(a), Ty::G(b)) => same_kind(a, b),
        (Ty::V(a, n), Ty::V(b, m)) => n == m && equivalent(a, b),
        (Ty::B(a), Ty::B(b)) => a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| x.name == y.name && x.flip == y.flip && equivalent(&x.ty, &y.ty)),
        _ => false,
    }
}

pub fn passive(t: &Ty) -> bool {
    match t {
        Ty::G(_) => true,
        Ty::V(t, _) => passive(t),
        Ty::B(v) => v.iter().all(|f| !f.flip && passive(&f.ty)),
    }
}

/// Shape with orientations pushed to the leaves
#[derive(Clone, PartialEq, Debug)]
pub enum OT {
    G(Gr, bool),
    V(Rc<OT>, u16),
    B(Vec<(String, OT)>),
}

pub fn orient(t: &Ty, flip: bool) -> OT {
    match t {
        Ty::G(g) => OT::G(*g, flip),
        Ty::V(t, n) => OT::V(Rc::new(orient(t, flip)), *n),
        Ty::B(v) => OT::B(v.iter().map(|f| (f.name.clone(), orient(&f.ty, flip ^ f.flip))).collect()),
    }
}

pub fn oflip(t: &OT) -> OT {
    match t {
        OT::G(g, f) => OT::G(*g, !f),
        OT::V(t, n) => OT::V(Rc::new(oflip(t)), *n),
        OT::B(v) => OT::B(v.iter().map(|(n, t)| (n.clone(), oflip(t))).collect()),
    }
}

pub fn oequiv(a: &OT, b: &OT) -> bool {
    match (a, b) {
        (OT::G(a, f), OT::G(b, g)) => same_kind(a, b) && f == g,
        (OT::V(a, n), OT::V(b, m)) => n == m && oequiv(a, b),
        (OT::B(a), OT::B(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && oequiv(&x.1, &y.1)),
        _ => false,
    }
}

pub fn opassive(t: &OT) -> bool {
    match t {
        OT::G(_, f) => !f,
        OT::V(t, _) => opassive(t),
        OT::B(v) => v.iter().all(|(_, t)| opassive(t)),
    }
}

/// Fixed point types combined to the smallest one holding both
fn fixed_max(a: (C, C), b: (C, C)) -> (C, C) {
    let int = |w: C, p: C| cmap2(w, p, |w, p| w - p);
    let i = cmap2(int(a.0, a.1), int(b.0, b.1), |x, y| x.max(y));
    let q = cmap2(a.1, b.1, |x, y| x.max(y));
    let wd = w(cmap2(i, q, |i, q| i + q));
    // The point alone may or may not be reported if a width is unknown
    let all_known = [a.0, a.1, b.0, b.1].iter().all(|c| matches!(c, C::K(_)));
    (wd, if all_known { q } else { soft(q) })
}

/// Combination by the maximum rule
pub fn lmax(a: &LT, b: &LT) -> Option<LT> {
    Some(match (a, b) {
        (LT::G(x), LT::G(y)) => LT::G(match (x, y) {
            (LG::U(x), LG::U(y)) => LG::U(cmap2(*x, *y, |x, y| x.max(y))),
            (LG::S(x), LG::S(y)) => LG::S(cmap2(*x, *y, |x, y| x.max(y))),
            (LG::A(x), LG::A(y)) => LG::A(cmap2(*x, *y, |x, y| x.max(y))),
            (LG::F(w1, p1), LG::F(w2, p2)) => {
                let (w, p) = fixed_max((*w1, *p1), (*w2, *p2));
                LG::F(w, p)
            }
            (LG::Clock, LG::Clock) => LG::Clock,
            (LG::Reset, LG::Reset) => LG::Reset,
            (LG::AReset, LG::AReset) => LG::AReset,
            _ => return None,
        }),
        (LT::V(x, n), LT::V(y, m)) if n == m => LT::V(Rc::new(lmax(x, y)?), *n),
        (LT::B(x), LT::B(y)) if x.len() == y.len() => {
            let mut v = vec![];
            for (f, g) in x.iter().zip(y) {
                if f.0 != g.0 || f.1 != g.1 {
                    return None;
                }
                v.push((f.0.clone(), f.1, lmax(&f.2, &g.2)?));
            }
            LT::B(v)
        }
        _ => return None,
    })
}

/// Combination by a rule for known widths, which does not support fixed point
pub fn combine_fn(a: &Ty, b: &Ty, f: &dyn Fn(u16, u16) -> Option<u16>) -> Option<Ty> {
    let c = |x: Option<u16>, y: Option<u16>| match (x, y) {
        (Some(x), Some(y)) => f(x, y),
        _ => None,
    };
    Some(match (a, b) {
        (Ty::G(x), Ty::G(y)) => Ty::G(match (x, y) {
            (Gr::U(x), Gr::U(y)) => Gr::U(c(*x, *y)),
            (Gr::S(x), Gr::S(y)) => Gr::S(c(*x, *y)),
            (Gr::A(x), Gr::A(y)) => Gr::A(c(*x, *y)),
            (Gr::Clock, Gr::Clock) => Gr::Clock,
            (Gr::Reset, Gr::Reset) => Gr::Reset,
            (Gr::AReset, Gr::AReset) => Gr::AReset,
            _ => return None,
        }),
        (Ty::V(x, n), Ty::V(y, m)) if n == m => Ty::V(Rc::new(combine_fn(x, y, f)?), *n),
        (Ty::B(x), Ty::B(y)) if x.len() == y.len() => {
            let mut v = vec![];
            for (g, h) in x.iter().zip(y) {
                if g.name != h.name || g.flip != h.flip {
                    return None;
                }
                v.push(Fld { name: g.name.clone(), flip: g.flip, ty: combine_fn(&g.ty, &h.ty, f)? });
            }
            Ty::B(v)
        }
        _ => return None,
    })
}

fn lpassive(t: &LT) -> bool {
    match t {
        LT::G(_) => true,
        LT::V(t, _) => lpassive(t),
        LT::B(v) => v.iter().all(|f| !f.1 && lpassive(&f.2)),
    }
}

fn lequiv(a: &LT, b: &LT) -> bool {
    equivalent(&strict(a), &strict(b))
}

// ----------------------------------------------------------------- entities

pub fn addr_width(depth: u64) -> u16 {
    let mut w = 0u16;
    while (1u128 << w) < depth as u128 {
        w += 1;
    }
    w
}

fn mask(t: &Ty) -> Ty {
    match t {
        Ty::G(_) => Ty::G(Gr::U(Some(1))),
        Ty::V(t, n) => Ty::V(Rc::new(mask(t)), *n),
        Ty::B(v) => Ty::B(v.iter().map(|f| Fld { name: f.name.clone(), flip: f.flip, ty: mask(&f.ty) }).collect()),
    }
}

pub fn mem_ty(m: &Mem) -> Ty {
    let fld = |n: &str, flip: bool, ty: Ty| Fld { name: n.into(), flip, ty };
    let bit = || Ty::G(Gr::U(Some(1)));
    let mut res = vec![];
    for (n, d) in &m.ports {
        let mut v = vec![];
        match d {
            Dir::R => v.push(fld("data", true, m.ty.clone())),
            Dir::W => {
                v.push(fld("data", false, m.ty.clone()));
                v.push(fld("mask", false, mask(&m.ty)));
            }
            Dir::RW => {
                v.push(fld("wmode", false, bit()));
                v.push(fld("rdata", true, m.ty.clone()));
                v.push(fld("wdata", false, m.ty.clone()));
                v.push(fld("wmask", false, mask(&m.ty)));
            }
        }
        v.push(fld("addr", false, Ty::G(Gr::U(Some(addr_width(m.depth))))));
        v.push(fld("en", false, bit()));
        v.push(fld("clk", false, Ty::G(Gr::Clock)));
        res.push(fld(n, true, Ty::B(v)));
    }
    Ty::B(res)
}

pub fn inst_ty(m: &Module) -> Ty {
    Ty::B(m.ports.iter().map(|p| Fld { name: p.name.clone(), flip: !p.out, ty: p.ty.clone() }).collect())
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Flow {
    Src,
    Snk,
    Dup,
}

/// Expected flow: known, an error or unspecified
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum FR {
    Is(Flow),
    Err,
    Free,
}

pub fn ent_flow(e: &Ent) -> FR {
    FR::Is(match &e.k {
        EntK::Port(p) => if p.out { Flow::Snk } else { Flow::Src },
        EntK::Wire(_) | EntK::Reg(..) => Flow::Dup,
        EntK::Node(_) | EntK::Mem(_) | EntK::Inst(_) => Flow::Src,
        EntK::MPort(_, Some(Dir::R), ..) => Flow::Src,
        EntK::MPort(_, Some(Dir::W), ..) => Flow::Snk,
        EntK::MPort(_, Some(Dir::RW), ..) => Flow::Dup,
        EntK::MPort(_, None, ..) => return FR::Err,
    })
}

#[derive(Default)]
pub struct Ora {
    memo: HashMap<*const Ent, (Rc<Ent>, R)>,
}

impl Ora {
    pub fn new() -> Self {
        Default::default()
    }

    pub fn ent(&mut self, e: &Rc<Ent>) -> R {
        if let Some((_, r)) = self.memo.get(&Rc::as_ptr(e)) {
            return r.clone();
        }
        let r = match &e.k {
            EntK::Port(p) => R::Ty(lt(&p.ty)),
            EntK::Wire(t) | EntK::Reg(t, ..) => R::Ty(lt(t)),
            EntK::Node(v) => self.ex(v),
            EntK::Mem(m) => R::Ty(lt(&mem_ty(m))),
            EntK::MPort(m, ..) => match &m.ty {
                Ty::V(t, _) => R::Ty(lt(t)),
                _ => R::Err,
            },
            EntK::Inst(m) => R::Ty(lt(&inst_ty(m))),
        };
        self.memo.insert(Rc::as_ptr(e), (e.clone(), r.clone()));
        r
    }

    pub fn ex(&mut self, e: &Ex) -> R {
        match e {
            Ex::ULit(_, w) => R::Ty(LT::G(LG::U(C::K(*w as i64)))),
            Ex::SLit(_, w) => R::Ty(LT::G(LG::S(C::K(*w as i64)))),
            Ex::Ref(r) => self.ent(r),
            Ex::Field(b, n) => {
                let r = self.ex(b);
                lift(r, |t| match t {
                    LT::B(v) => match v.into_iter().find(|f| f.0 == *n) {
                        Some(f) => R::Ty(f.2),
                        None => R::Err,
                    },
                    _ => R::Err,
                })
            }
            Ex::Idx(b, i) => {
                let r = self.ex(b);
                lift(r, |t| match t {
                    LT::V(b, n) => if *i < n { R::Ty((*b).clone()) } else { R::Either((*b).clone()) },
                    _ => R::Err,
                })
            }
            Ex::Acc(b, i) => {
                let r = self.ex(b);
                let i = self.ex(i);
                lift(r, |t| match t {
                    LT::V(b, _) => match i {
                        R::Ty(LT::G(LG::U(_))) => R::Ty((*b).clone()),
                        _ => R::Either((*b).clone()),
                    },
                    _ => R::Err,
                })
            }
            Ex::Mux(s, a, b) => {
                let s = self.ex(s);
                let (a, b) = (self.ex(a), self.ex(b));
                let sel_ok = matches!(s, R::Ty(LT::G(LG::U(_))));
                lift2(a, b, |a, b| {
                    if !lequiv(&a, &b) {
                        return R::Err;
                    }
                    if !lpassive(&a) {
                        return R::Free;
                    }
                    match lmax(&a, &b) {
                        Some(t) => if sel_ok { R::Ty(t) } else { R::Either(t) },
                        None => R::Err,
                    }
                })
            }
            Ex::Valid(s, v) => {
                let s = self.ex(s);
                let sel_ok = matches!(s, R::Ty(LT::G(LG::U(_))));
                match self.ex(v) {
                    R::Ty(t) if !sel_ok => R::Either(t),
                    r => r,
                }
            }
            Ex::Op(o, es, ps) => {
                let rs: Vec<R> = es.iter().map(|e| self.ex(e)).collect();
                op(OPS[*o].0, rs, ps)
            }
        }
    }

    pub fn flow(&mut self, e: &Ex) -> FR {
        match e {
            Ex::Ref(r) => ent_flow(r),
            Ex::Field(b, n) => {
                let f = match self.flow(b) {
                    FR::Is(f) => f,
                    o => return o,
                };
                match self.ex(b) {
                    R::Ty(LT::B(v)) => match v.iter().find(|x| x.0 == *n) {
                        Some((_, flip, _)) => FR::Is(match (f, flip) {
                            (f, false) => f,
                            (Flow::Src, true) => Flow::Snk,
                            (Flow::Snk, true) => Flow::Src,
                            (Flow::Dup, true) => Flow::Dup,
                        }),
                        None => FR::Err,
                    },
                    R::Ty(_) | R::Err => FR::Err,
                    R::Either(_) | R::Free => FR::Free,
                }
            }
            Ex::Idx(b, _) | Ex::Acc(b, _) => match (self.flow(b), self.ex(b)) {
                (FR::Err, _) => FR::Err,
                (f, R::Ty(LT::V(..))) => f,
                // Not a sensible expression
                (_, _) => FR::Free,
            },
            _ => FR::Is(Flow::Src),
        }
    }
}

fn lift(r: R, f: impl FnOnce(LT) -> R) -> R {
    match r {
        R::Ty(t) => f(t),
        R::Either(t) => match f(t) {
            R::Ty(t) => R::Either(t),
            o => o,
        },
        o => o,
    }
}

fn lift2(a: R, b: R, f: impl FnOnce(LT, LT) -> R) -> R {
    let soft = matches!(a, R::Either(_)) || matches!(b, R::Either(_));
    match (a, b) {
        (R::Err, _) | (_, R::Err) => R::Err,
        (R::Free, _) | (_, R::Free) => R::Free,
        (R::Ty(a), R::Ty(b)) | (R::Ty(a), R::Either(b)) | (R::Either(a), R::Ty(b)) | (R::Either(a), R::Either(b)) =>
            match f(a, b) {
                R::Ty(t) if soft => R::Either(t),
                o => o,
            },
    }
}

fn g1(g: LG) -> R {
    R::Ty(LT::G(g))
}

/// Out of range results may be errors as well
fn g1e(g: LG) -> R {
    R::Either(LT::G(g))
}

fn has_n(before: &[C], after: C) -> bool {
    // Did a known value become unrepresentable?
    before.iter().all(|c| *c != C::N) && after == C::N
}

fn op(name: &str, rs: Vec<R>, ps: &[i64]) -> R {
    let n = ps.first().copied().unwrap_or(0);
    let mut it = rs.into_iter();
    let a = it.next().expect("harness: operand");
    let b = it.next();

    // Operands which the type does not depend on
    match name {
        "lt" | "leq" | "gt" | "geq" | "eq" | "neq" => {
            let ok = match (&a, b.as_ref().unwrap()) {
                (R::Ty(LT::G(LG::U(_))), R::Ty(LT::G(LG::U(_)))) => true,
                (R::Ty(LT::G(LG::S(_))), R::Ty(LT::G(LG::S(_)))) => true,
                (R::Ty(LT::G(LG::F(..))), R::Ty(LT::G(LG::F(..)))) => true,
                _ => false,
            };
            let t = LG::U(C::K(1));
            return if ok { g1(t) } else { g1e(t) };
        }
        "andr" | "orr" | "xorr" => {
            let t = LG::U(C::K(1));
            return match a {
                R::Ty(LT::G(LG::U(_))) | R::Ty(LT::G(LG::S(_))) => g1(t),
                _ => g1e(t),
            };
        }
        "div" => {
            let b = b.unwrap();
            return lift(a, |a| {
                let same = match (&a, &b) {
                    (LT::G(LG::U(_)), R::Ty(LT::G(LG::U(_)))) => true,
                    (LT::G(LG::S(_)), R::Ty(LT::G(LG::S(_)))) => true,
                    _ => false,
                };
                let t = match a {
                    LT::G(LG::U(x)) => LG::U(x),
                    LT::G(LG::S(x)) => {
                        let r = w(cmap(x, |x| x + 1));
                        if has_n(&[x], r) {
                            return g1e(LG::S(r));
                        }
                        LG::S(r)
                    }
                    LT::G(_) => return R::Free,
                    _ => return R::Err,
                };
                if same { g1(t) } else { g1e(t) }
            });
        }
        "dshr" => {
            let amount_ok = matches!(b, Some(R::Ty(LT::G(LG::U(_)))));
            return lift(a, |a| match a {
                LT::G(g @ LG::U(_)) | LT::G(g @ LG::S(_)) | LT::G(g @ LG::F(..)) =>
                    if amount_ok { g1(g) } else { g1e(g) },
                LT::G(_) => R::Free,
                _ => R::Err,
            });
        }
        _ => (),
    }

    if let Some(b) = b {
        return lift2(a, b, |a, b| {
            let (a, b) = match (a, b) {
                (LT::G(a), LT::G(b)) => (a, b),
                _ => return R::Err,
            };
            // one width, computed exactly, error tolerated if unrepresentable
            let one = |x: C, y: C, r: C, mk: &dyn Fn(C) -> LG| {
                let c = w(r);
                if has_n(&[x, y], c) { g1e(mk(c)) } else { g1(mk(c)) }
            };
            match name {
                "add" | "sub" => match (a, b) {
                    (LG::U(x), LG::U(y)) => one(x, y, cmap2(x, y, |x, y| x.max(y) + 1), &LG::U),
                    (LG::S(x), LG::S(y)) => one(x, y, cmap2(x, y, |x, y| x.max(y) + 1), &LG::S),
                    (LG::F(w1, p1), LG::F(w2, p2)) => {
                        let i = cmap2(cmap2(w1, p1, |w, p| w - p), cmap2(w2, p2, |w, p| w - p), |a, b| a.max(b));
                        let q = cmap2(p1, p2, |a, b| a.max(b));
                        let all = [w1, p1, w2, p2].iter().all(|c| matches!(c, C::K(_)));
                        let m = cmap2(i, q, |i, q| i + q);
                        let wd = w(cmap(m, |x| x + 1));
                        let q = if all { q } else { soft(q) };
                        if has_n(&[w1, p1, w2, p2], wd) { g1e(LG::F(wd, soft(q))) }
                        else { g1(LG::F(wd, q)) }
                    }
                    _ => R::Err,
                },
                "mul" => match (a, b) {
                    (LG::U(x), LG::U(y)) => one(x, y, cmap2(x, y, |x, y| x + y), &LG::U),
                    (LG::S(x), LG::S(y)) => one(x, y, cmap2(x, y, |x, y| x + y), &LG::S),
                    (LG::F(w1, p1), LG::F(w2, p2)) => {
                        let wd = w(cmap2(w1, w2, |x, y| x + y));
                        let pt = p(cmap2(p1, p2, |x, y| x + y));
                        let all = [w1, p1, w2, p2].iter().all(|c| matches!(c, C::K(_)));
                        if has_n(&[w1, w2], wd) || has_n(&[p1, p2], pt) {
                            // The other component stays known
                            g1e(LG::F(wd, pt))
                        } else if all {
                            g1(LG::F(wd, pt))
                        } else {
                            g1(LG::F(soft(wd), soft(pt)))
                        }
                    }
                    _ => R::Err,
                },
                "rem" => match (a, b) {
                    (LG::U(x), LG::U(y)) => one(x, y, cmap2(x, y, |x, y| x.min(y)), &LG::U),
                    (LG::S(x), LG::S(y)) => one(x, y, cmap2(x, y, |x, y| x.min(y)), &LG::S),
                    (LG::U(_), LG::S(_)) | (LG::S(_), LG::U(_)) | (LG::F(..), LG::U(_)) | (LG::F(..), LG::S(_))
                    | (LG::U(_), LG::F(..)) | (LG::S(_), LG::F(..)) => R::Err,
                    _ => R::Free,
                },
                "and" | "or" | "xor" => match (a, b) {
                    (LG::U(x), LG::U(y)) | (LG::S(x), LG::S(y)) => one(x, y, cmap2(x, y, |x, y| x.max(y)), &LG::U),
                    _ => R::Free,
                },
                "cat" => match (a, b) {
                    (LG::U(x), LG::U(y)) | (LG::S(x), LG::S(y)) => one(x, y, cmap2(x, y, |x, y| x + y), &LG::U),
                    _ => R::Free,
                },
                "dshl" => {
                    let wb = match b {
                        LG::U(y) => y,
                        _ => return R::Free,
                    };
                    let sum = |x: C| cmap2(x, wb, |x, y| if y >= 40 { i64::MAX / 2 } else { x + (1i64 << y) - 1 });
                    match a {
                        LG::U(x) => one(x, wb, sum(x), &LG::U),
                        LG::S(x) => one(x, wb, sum(x), &LG::S),
                        LG::F(x, q) => one(x, wb, sum(x), &|c| LG::F(c, q)),
                        _ => R::Free,
                    }
                }
                o => panic!("harness: binary op {}", o),
            }
        });
    }

    lift(a, |a| {
        let a = match a {
            LT::G(a) => a,
            _ => return R::Err,
        };
        let one = |x: C, r: C, mk: &dyn Fn(C) -> LG| {
            let c = w(r);
            if has_n(&[x], c) { g1e(mk(c)) } else { g1(mk(c)) }
        };
        let width = |g: &LG| match g {
            LG::U(x) | LG::S(x) | LG::F(x, _) | LG::A(x) => *x,
            LG::Clock | LG::Reset | LG::AReset => C::K(1),
        };
        match name {
            "pad" => match a {
                LG::U(x) => g1(LG::U(cmap(x, |x| x.max(n)))),
                LG::S(x) => g1(LG::S(cmap(x, |x| x.max(n)))),
                LG::F(x, q) => g1(LG::F(cmap(x, |x| x.max(n)), q)),
                _ => R::Free,
            },
            "asUInt" | "asSInt" | "asFixed" | "asClock" | "asAsyncReset" => {
                if let LG::A(_) = a {
                    return R::Free;
                }
                let x = width(&a);
                g1(match name {
                    "asUInt" => LG::U(x),
                    "asSInt" => LG::S(x),
                    "asFixed" => LG::F(x, C::K(n)),
                    "asClock" => LG::Clock,
                    _ => LG::AReset,
                })
            }
            "shl" => match a {
                LG::U(x) => one(x, cmap(x, |x| x + n), &LG::U),
                LG::S(x) => one(x, cmap(x, |x| x + n), &LG::S),
                LG::F(x, q) => one(x, cmap(x, |x| x + n), &|c| LG::F(c, q)),
                _ => R::Free,
            },
            "shr" => match a {
                LG::U(x) => g1(LG::U(cmap(x, |x| (x - n).max(1)))),
                LG::S(x) => g1(LG::S(cmap(x, |x| (x - n).max(1)))),
                LG::F(x, q) => {
                    let r = cmap2(x, q, |x, q| (x - n).max(q.max(1)));
                    match (x, q) {
                        (C::K(v), C::K(_)) if v >= n => g1(LG::F(r, q)),
                        _ => g1e(LG::F(soft(r), soft(q))),
                    }
                }
                _ => R::Free,
            },
            "cvt" => match a {
                LG::U(x) => one(x, cmap(x, |x| x + 1), &LG::S),
                LG::S(x) => g1(LG::S(x)),
                _ => R::Err,
            },
            "neg" => match a {
                LG::U(x) | LG::S(x) => one(x, cmap(x, |x| x + 1), &LG::S),
                _ => R::Free,
            },
            "not" => match a {
                LG::U(x) | LG::S(x) => g1(LG::U(x)),
                _ => R::Free,
            },
            "bits" => {
                let (hi, lo) = (ps[0], ps[1]);
                match a {
                    LG::U(x) | LG::S(x) | LG::F(x, _) => {
                        let r = w(C::K(hi - lo + 1));
                        if hi < lo {
                            return g1e(LG::U(C::N));
                        }
                        match x {
                            C::K(x) if hi < x => if r == C::N { g1e(LG::U(r)) } else { g1(LG::U(r)) },
                            // Out of range or not known to be in range
                            C::K(_) => g1e(LG::U(soft(r))),
                            _ => g1(LG::U(r)),
                        }
                    }
                    _ => R::Free,
                }
            }
            "head" => match a {
                LG::U(x) | LG::S(x) | LG::F(x, _) => match x {
                    C::K(x) if n > x => g1e(LG::U(C::E(n))),
                    _ => g1(LG::U(C::K(n))),
                },
                _ => R::Free,
            },
            "tail" => match a {
                LG::U(x) | LG::S(x) | LG::F(x, _) => one(x, cmap(x, |x| x - n), &LG::U),
                _ => R::Free,
            },
            "incp" | "decp" => match a {
                LG::F(x, q) => {
                    let s = if name == "incp" { n } else { -n };
                    let wd = w(cmap(x, |x| x + s));
                    let pt = p(cmap(q, |q| q + s));
                    if has_n(&[x], wd) || has_n(&[q], pt) { g1e(LG::F(wd, pt)) } else { g1(LG::F(wd, pt)) }
                }
                _ => R::Err,
            },
            "setp" => match a {
                LG::F(x, q) => {
                    let wd = w(cmap2(x, q, |x, q| x - q + n));
                    if has_n(&[x, q], wd) { g1e(LG::F(wd, C::K(n))) } else { g1(LG::F(wd, C::K(n))) }
                }
                _ => R::Err,
            },
            o => panic!("harness: unary op {}", o),
        }
    })
}

/// Type of an entity, as far as it is specified; for guiding generation
pub fn ent_decl_ty(e: &Rc<Ent>) -> Option<Ty> {
    match &e.k {
        EntK::Port(p) => Some(p.ty.clone()),
        EntK::Wire(t) | EntK::Reg(t, ..) => Some(t.clone()),
        EntK::Mem(m) => Some(mem_ty(m)),
        EntK::MPort(m, ..) => match &m.ty { Ty::V(t, _) => Some((**t).clone()), _ => None },
        EntK::Inst(m) => Some(inst_ty(m)),
        EntK::Node(_) => match Ora::new().ent(e) {
            R::Ty(t) | R::Either(t) => Some(strict(&t)),
            _ => None,
        },
    }
}
