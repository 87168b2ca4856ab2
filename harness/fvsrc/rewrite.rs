//! Copies of model circuits with a single attribute changed

use num_bigint::{BigInt, BigUint};
use std::collections::HashMap;
use std::rc::Rc;

use crate::model::*;
use crate::rng::Rng;

/// Copier; counts the attributes it passes and changes one of them
pub struct Rw<'r> {
    r: &'r mut Rng,
    n: usize,
    target: Option<usize>,
    /// Kinds of the attributes passed
    pub kinds: Vec<&'static str>,
    /// Kind of the attribute changed
    pub hit: Option<&'static str>,
    /// Keep references to the same declaration the same; otherwise, only one
    /// occurrence is affected by a change
    share: bool,
    ents: HashMap<*const Ent, Rc<Ent>>,
    ports: HashMap<*const Port, Rc<Port>>,
    smems: HashMap<*const SMem, Rc<SMem>>,
    mods: HashMap<*const Module, Rc<Module>>,
}

/// A copy of the module with one attribute changed, and what was changed
pub fn mutant(r: &mut Rng, m: &Rc<Module>, info: &Option<String>) -> Option<(Rc<Module>, Option<String>, &'static str)> {
    let share = r.chance(1, 2);
    let mut count = Rw::new(r, share, None);
    count.module(m);
    count.opt_str(info, "circuit info");
    let kinds = std::mem::take(&mut count.kinds);
    let mut classes = kinds.clone();
    classes.sort();
    classes.dedup();
    if classes.is_empty() {
        return None;
    }
    let k = *r.pick(&classes);
    let all: Vec<usize> = kinds.iter().enumerate().filter(|x| *x.1 == k).map(|x| x.0).collect();
    let target = *r.pick(&all);
    let mut w = Rw::new(r, share, Some(target));
    let m = w.module(m);
    let i = w.opt_str(info, "circuit info");
    let h = w.hit?;
    Some((m, i, h))
}

impl<'r> Rw<'r> {
    pub fn new(r: &'r mut Rng, share: bool, target: Option<usize>) -> Self {
        Rw { r, n: 0, target, kinds: vec![], hit: None, share, ents: HashMap::new(), ports: HashMap::new(), smems: HashMap::new(), mods: HashMap::new() }
    }

    fn at(&mut self, what: &'static str) -> bool {
        let h = self.target == Some(self.n);
        self.n += 1;
        if self.target.is_none() {
            self.kinds.push(what);
        }
        if h {
            self.hit = Some(what);
        }
        h
    }

    fn alter_str(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        match self.r.below(9) {
            // a character which differs in one bit, or looks alike
            5 | 6 if !v.is_empty() => {
                let i = self.r.below(v.len());
                let b = 1 << self.r.below(8);
                v[i] = char::from_u32(v[i] as u32 ^ b).unwrap_or('?');
            }
            7 if !v.is_empty() => {
                let i = self.r.below(v.len());
                let n = *self.r.pick(&['-', '_', '.', ' ', '\t', '\r', '\n', '\u{a0}', '0', 'O', 'l', '1', '\\', '/', '\'', '"', 'é', 'e', 'ﬁ', '\u{301}', '\u{200b}', '\0']);
                if self.r.chance(1, 2) { v[i] = n } else { v.insert(i, n) }
            }
            8 => {
                let n = *self.r.pick(&[' ', '\n', '\0', '\u{301}', '.', '_']);
                if self.r.chance(1, 2) { v.push(n) } else { v.insert(0, n) }
            }
            0 if v.len() > 1 => { v.pop(); }
            1 if !v.is_empty() => {
                let i = self.r.below(v.len());
                v[i] = if v[i] == 'q' { 'Q' } else { 'q' };
            }
            2 if v.len() > 1 => {
                let i = self.r.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            3 if !v.is_empty() => {
                let i = self.r.below(v.len());
                let c = v[i];
                v[i] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
            }
            _ => v.push('x'),
        }
        v.into_iter().collect()
    }
    fn name(&mut self, s: &str, what: &'static str) -> String {
        if self.at(what) { self.alter_str(s) } else { s.to_string() }
    }
    pub fn opt_str(&mut self, s: &Option<String>, what: &'static str) -> Option<String> {
        if !self.at(what) {
            return s.clone();
        }
        match s {
            None => Some(self.r.pick(&["", "x", " "]).to_string()),
            Some(s) => if self.r.chance(1, 3) { None } else { Some(self.alter_str(s)) },
        }
    }
    fn u16(&mut self, w: u16, what: &'static str) -> u16 {
        if !self.at(what) {
            return w;
        }
        match self.r.below(3) {
            0 => w.wrapping_add(1),
            1 => w.wrapping_sub(1),
            _ => w ^ (1 << self.r.below(16)),
        }
    }
    fn ow(&mut self, w: Option<u16>, what: &'static str) -> Option<u16> {
        if !self.at(what) {
            return w;
        }
        match w {
            None => Some(*self.r.pick(&[0, 1, 65535])),
            Some(w) => match self.r.below(3) {
                0 => None,
                1 => Some(w.wrapping_add(1)),
                _ => Some(w ^ (1 << self.r.below(16))),
            },
        }
    }
    fn list<T: Clone>(&mut self, v: &mut Vec<T>, what: &'static str) {
        if v.is_empty() || !self.at(what) {
            return;
        }
        let i = self.r.below(v.len());
        match self.r.below(4) {
            0 => { v.remove(i); }
            1 => {
                let x = v[i].clone();
                v.push(x);
            }
            _ => {
                let j = self.r.below(v.len());
                v.swap(i, j);
            }
        }
    }

    pub fn gr(&mut self, g: &Gr) -> Gr {
        if self.at("ground type kind") {
            let w = match g { Gr::U(w) | Gr::S(w) | Gr::A(w) | Gr::F(w, _) => *w, _ => None };
            return *self.r.pick(&[Gr::U(w), Gr::S(w), Gr::A(w), Gr::F(w, None), Gr::Clock, Gr::Reset, Gr::AReset]);
        }
        match *g {
            Gr::U(w) => Gr::U(self.ow(w, "UInt width")),
            Gr::S(w) => Gr::S(self.ow(w, "SInt width")),
            Gr::A(w) => Gr::A(self.ow(w, "Analog width")),
            Gr::F(w, p) => {
                let w = self.ow(w, "Fixed width");
                let p = if self.at("Fixed point") {
                    match p {
                        None => Some(*self.r.pick(&[0i16, 1, -1])),
                        Some(p) => match self.r.below(3) { 0 => None, 1 => Some(p.wrapping_neg()), _ => Some(p.wrapping_add(1)) },
                    }
                } else {
                    p
                };
                Gr::F(w, p)
            }
            g => g,
        }
    }
    pub fn ty(&mut self, t: &Ty) -> Ty {
        if self.at("type structure") {
            return match (self.r.below(3), t) {
                (0, Ty::V(t, _)) => (**t).clone(),
                (1, t) => Ty::B(vec![Fld { name: "x".into(), flip: false, ty: t.clone() }]),
                (_, t) => Ty::V(Rc::new(t.clone()), 1),
            };
        }
        match t {
            Ty::G(g) => Ty::G(self.gr(g)),
            Ty::V(t, n) => {
                let t = self.ty(t);
                Ty::V(Rc::new(t), self.u16(*n, "vector length"))
            }
            Ty::B(v) => {
                let mut v: Vec<Fld> = v.iter().map(|f| {
                    let name = self.name(&f.name, "field name");
                    let flip = f.flip ^ self.at("field orientation");
                    Fld { name, flip, ty: self.ty(&f.ty) }
                }).collect();
                self.list(&mut v, "fields");
                Ty::B(v)
            }
        }
    }

    fn bex(&mut self, e: &Ex) -> Box<Ex> {
        Box::new(self.ex(e))
    }
    pub fn ex(&mut self, e: &Ex) -> Ex {
        if self.at("expression kind") {
            return match (self.r.below(4), e) {
                (0, Ex::Field(b, _)) | (0, Ex::Idx(b, _)) | (0, Ex::Acc(b, _)) | (0, Ex::Valid(_, b)) => (**b).clone(),
                (1, Ex::Idx(b, i)) => Ex::Acc(b.clone(), Box::new(Ex::ULit(BigUint::from(*i), 16))),
                (1, Ex::Field(b, n)) => n.parse().map(|n| Ex::Idx(b.clone(), n)).unwrap_or_else(|_| Ex::Idx(b.clone(), 0)),
                (1, Ex::Mux(s, a, _)) => Ex::Valid(s.clone(), a.clone()),
                (1, Ex::ULit(v, w)) => Ex::SLit(BigInt::from(v.clone()), *w),
                (1, Ex::SLit(v, w)) => Ex::ULit(v.magnitude().clone(), *w),
                (2, e) => Ex::Op(op_by_name("not").unwrap(), vec![e.clone()], vec![]),
                _ => Ex::ULit(BigUint::from(0u8), 1),
            };
        }
        match e {
            Ex::ULit(v, w) => {
                let v = if self.at("unsigned value") {
                    match self.r.below(3) { 0 => v + 1u8, 1 => v << 1, _ => v ^ (BigUint::from(1u8) << self.r.below(80)) }
                } else {
                    v.clone()
                };
                Ex::ULit(v, self.u16(*w, "literal width"))
            }
            Ex::SLit(v, w) => {
                let v = if self.at("signed value") {
                    match self.r.below(3) { 0 => v + 1, 1 => -v, _ => v - (BigInt::from(1) << self.r.below(80)) }
                } else {
                    v.clone()
                };
                Ex::SLit(v, self.u16(*w, "literal width"))
            }
            Ex::Ref(r) => Ex::Ref(self.ent(r)),
            Ex::Field(b, n) => Ex::Field(self.bex(b), self.name(n, "sub-field name")),
            Ex::Idx(b, i) => Ex::Idx(self.bex(b), self.u16(*i, "index")),
            Ex::Acc(b, i) => {
                let (b, i) = (self.bex(b), self.bex(i));
                if self.at("operand order") { Ex::Acc(i, b) } else { Ex::Acc(b, i) }
            }
            Ex::Mux(s, a, b) => {
                let (s, a, b) = (self.bex(s), self.bex(a), self.bex(b));
                if self.at("operand order") {
                    match self.r.below(3) { 0 => Ex::Mux(a, s, b), 1 => Ex::Mux(b, a, s), _ => Ex::Mux(s, b, a) }
                } else {
                    Ex::Mux(s, a, b)
                }
            }
            Ex::Valid(s, v) => {
                let (s, v) = (self.bex(s), self.bex(v));
                if self.at("operand order") { Ex::Valid(v, s) } else { Ex::Valid(s, v) }
            }
            Ex::Op(o, es, ps) => {
                let mut es: Vec<Ex> = es.iter().map(|e| self.ex(e)).collect();
                if es.len() == 2 && self.at("operand order") {
                    es.swap(0, 1);
                }
                let mut o = *o;
                if self.at("operation") {
                    let c: Vec<usize> = (0..OPS.len()).filter(|k| OPS[*k].1 == OPS[o].1 && OPS[*k].2 == OPS[o].2 && *k != o).collect();
                    if !c.is_empty() {
                        o = *self.r.pick(&c);
                    }
                }
                let mut ps = ps.clone();
                for (i, k) in OPS[o].2.chars().enumerate() {
                    if self.at("operation parameter") {
                        ps[i] = if k == 'u' { (ps[i] as u16).wrapping_add(1) as i64 } else { (ps[i] as i16).wrapping_add(1) as i64 };
                    }
                }
                if ps.len() == 2 && self.at("parameter order") {
                    ps.swap(0, 1);
                }
                Ex::Op(o, es, ps)
            }
        }
    }

    pub fn port(&mut self, p: &Rc<Port>) -> Rc<Port> {
        if self.share {
            if let Some(q) = self.ports.get(&Rc::as_ptr(p)) {
                return q.clone();
            }
        }
        let name = self.name(&p.name, "port name");
        let out = p.out ^ self.at("port direction");
        let ty = self.ty(&p.ty);
        let info = self.opt_str(&p.info, "port info");
        let q = Rc::new(Port { name, ty, out, info });
        self.ports.insert(Rc::as_ptr(p), q.clone());
        q
    }
    pub fn smem(&mut self, m: &Rc<SMem>) -> Rc<SMem> {
        if self.share {
            if let Some(q) = self.smems.get(&Rc::as_ptr(m)) {
                return q.clone();
            }
        }
        let name = self.name(&m.name, "simple memory name");
        let ty = self.ty(&m.ty);
        let seq = if self.at("simple memory kind") {
            *self.r.pick(&[None, Some(None), Some(Some(Ruw::Old)), Some(Some(Ruw::New)), Some(Some(Ruw::Undef))])
        } else {
            m.seq
        };
        let q = Rc::new(SMem { name, ty, seq });
        self.smems.insert(Rc::as_ptr(m), q.clone());
        q
    }
    fn dir(&mut self, d: Dir) -> Dir {
        if self.at("memory port direction") { *self.r.pick(&[Dir::R, Dir::W, Dir::RW]) } else { d }
    }
    pub fn ent(&mut self, e: &Rc<Ent>) -> Rc<Ent> {
        if self.share {
            if let Some(q) = self.ents.get(&Rc::as_ptr(e)) {
                return q.clone();
            }
        }
        let mut name = e.name.clone();
        let k = if self.at("entity kind") {
            match &e.k {
                EntK::Wire(t) => EntK::Reg(t.clone(), Ex::ULit(0u8.into(), 1), None),
                EntK::Reg(t, _, None) => EntK::Wire(t.clone()),
                EntK::Reg(t, c, Some(_)) => EntK::Reg(t.clone(), c.clone(), None),
                EntK::Port(p) => EntK::Wire(p.ty.clone()),
                _ => EntK::Wire(Ty::G(Gr::Clock)),
            }
        } else {
            match &e.k {
                EntK::Port(p) => {
                    let p = self.port(p);
                    name = p.name.clone();
                    EntK::Port(p)
                }
                EntK::Wire(t) => EntK::Wire(self.ty(t)),
                EntK::Reg(t, c, r) => {
                    let (t, c) = (self.ty(t), self.ex(c));
                    let r = match r {
                        Some((a, b)) => {
                            let (a, b) = (self.ex(a), self.ex(b));
                            if self.at("reset") {
                                match self.r.below(3) { 0 => None, 1 => Some((a.clone(), a)), _ => Some((b, a)) }
                            } else {
                                Some((a, b))
                            }
                        }
                        None => if self.at("reset") { Some((c.clone(), c.clone())) } else { None },
                    };
                    EntK::Reg(t, c, r)
                }
                EntK::Node(v) => EntK::Node(self.ex(v)),
                EntK::Mem(m) => {
                    let ty = self.ty(&m.ty);
                    let depth = if self.at("memory depth") { m.depth ^ (1 << self.r.below(64)) } else { m.depth };
                    let mut ports: Vec<(String, Dir)> = m.ports.iter().map(|(n, d)| (self.name(n, "memory port name"), self.dir(*d))).collect();
                    self.list(&mut ports, "memory ports");
                    let rl = self.u16(m.rl, "read latency");
                    let wl = self.u16(m.wl, "write latency");
                    let (rl, wl) = if self.at("latencies") { (wl, rl) } else { (rl, wl) };
                    let ruw = if self.at("read-under-write") { *self.r.pick(&[Ruw::Old, Ruw::New, Ruw::Undef]) } else { m.ruw };
                    EntK::Mem(Mem { ty, depth, ports, rl, wl, ruw })
                }
                EntK::MPort(m, d, a, c) => {
                    let m = self.smem(m);
                    let d = if self.at("mport direction") { *self.r.pick(&[None, Some(Dir::R), Some(Dir::W), Some(Dir::RW)]) } else { *d };
                    let (a, c) = (self.ex(a), self.ex(c));
                    if self.at("mport operands") { EntK::MPort(m, d, c, a) } else { EntK::MPort(m, d, a, c) }
                }
                EntK::Inst(m) => EntK::Inst(self.module(m)),
            }
        };
        if !matches!(k, EntK::Port(_)) {
            name = self.name(&name, "entity name");
        }
        let q = Rc::new(Ent { name, k });
        self.ents.insert(Rc::as_ptr(e), q.clone());
        q
    }

    pub fn sts(&mut self, s: &[St]) -> Vec<St> {
        let mut v: Vec<St> = s.iter().map(|s| self.st(s)).collect();
        self.list(&mut v, "statements");
        v
    }
    pub fn st(&mut self, s: &St) -> St {
        let k = match &s.k {
            StK::Conn(a, b) | StK::Part(a, b) => {
                let (a, b) = (self.ex(a), self.ex(b));
                let (a, b) = if self.at("connection order") { (b, a) } else { (a, b) };
                if matches!(s.k, StK::Conn(..)) ^ self.at("connection kind") { StK::Conn(a, b) } else { StK::Part(a, b) }
            }
            StK::Skip => if self.at("skip") { StK::Attach(vec![]) } else { StK::Skip },
            StK::Decl(e) => StK::Decl(self.ent(e)),
            StK::SMem(m) => StK::SMem(self.smem(m)),
            StK::Inval(e) => {
                let e = self.ex(e);
                if self.at("invalidate") { StK::Attach(vec![e]) } else { StK::Inval(e) }
            }
            StK::Attach(v) => {
                let mut v: Vec<Ex> = v.iter().map(|e| self.ex(e)).collect();
                self.list(&mut v, "attached expressions");
                StK::Attach(v)
            }
            StK::When(c, a, b) => {
                let (c, a, b) = (self.ex(c), self.sts(a), self.sts(b));
                if self.at("branches") { StK::When(c, b, a) } else { StK::When(c, a, b) }
            }
            StK::Stop(n, c, g, v) => {
                let n = self.stmt_name(n);
                let (c, g) = (self.ex(c), self.ex(g));
                let (c, g) = if self.at("stop operands") { (g, c) } else { (c, g) };
                let v = if self.at("stop code") { v ^ (1 << self.r.below(64)) } else { *v };
                StK::Stop(n, c, g, v)
            }
            StK::Print(n, c, g, m) => {
                let n = self.stmt_name(n);
                let (c, g) = (self.ex(c), self.ex(g));
                let (c, g) = if self.at("printf operands") { (g, c) } else { (c, g) };
                let mut m: Vec<PE> = m.iter().map(|p| match p {
                    PE::Lit(s) => PE::Lit(self.name(s, "printf literal")),
                    PE::Val(e, f) => {
                        let e = self.ex(e);
                        PE::Val(e, if self.at("printf format") { *self.r.pick(&[Fm::B, Fm::D, Fm::X, Fm::C]) } else { *f })
                    }
                }).collect();
                self.list(&mut m, "printf elements");
                StK::Print(n, c, g, m)
            }
        };
        St { k, info: self.opt_str(&s.info, "statement info") }
    }
    fn stmt_name(&mut self, n: &Option<String>) -> Option<String> {
        self.opt_str(n, "statement name")
    }

    pub fn module(&mut self, m: &Rc<Module>) -> Rc<Module> {
        if self.share {
            if let Some(q) = self.mods.get(&Rc::as_ptr(m)) {
                return q.clone();
            }
        }
        let name = self.name(&m.name, "module name");
        let mut ports: Vec<_> = m.ports.iter().map(|p| self.port(p)).collect();
        self.list(&mut ports, "ports");
        let info = self.opt_str(&m.info, "module info");
        let k = if self.at("module kind") {
            match &m.k {
                MK::Reg(s) if s.is_empty() => MK::Ext(None, vec![]),
                _ => MK::Reg(vec![]),
            }
        } else {
            match &m.k {
                MK::Reg(s) => MK::Reg(self.sts(s)),
                MK::Ext(d, p) => {
                    let d = self.opt_str(d, "defname");
                    let mut p: Vec<(String, PV)> = p.iter().map(|(n, v)| {
                        let n = self.name(n, "parameter name");
                        let v = if self.at("parameter value") {
                            match v {
                                PV::Int(i) => match self.r.below(3) { 0 => PV::Str(i.to_string()), 1 => PV::Int(i.wrapping_add(1)), _ => PV::Dbl(*i as f64) },
                                PV::Dbl(d) => match self.r.below(2) {
                                    0 if *d != 0.0 => PV::Dbl(f64::from_bits(d.to_bits() ^ 1)),
                                    _ => PV::Int(3),
                                },
                                PV::Str(s) => PV::Str(self.alter_str(s)),
                            }
                        } else {
                            v.clone()
                        };
                        (n, v)
                    }).collect();
                    if !p.is_empty() && self.at("parameters") {
                        p.remove(self.r.below(p.len()));
                    }
                    // No two of the same name
                    let mut seen = std::collections::HashSet::new();
                    p.retain(|x| seen.insert(x.0.clone()));
                    MK::Ext(d, p)
                }
            }
        };
        let q = Rc::new(Module { name, ports, info, k });
        self.mods.insert(Rc::as_ptr(m), q.clone());
        q
    }
}
