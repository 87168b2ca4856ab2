//! Conversions between the harness' model and the crate's AST, using the
//! crate's public API only.

use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

use firrtl_ast as fa;
use fa::expr::primitive::Operation as PO;
use fa::info::WithInfo;
use fa::memory::simple::{self, Memory as CSMem};
use fa::memory::{PortDir, ReadUnderWrite as CRuw};
use fa::module::{Direction, Instance, Kind as MKind, Module as CModule, ParamValue, Port as CPort};
use fa::named::Named;
use fa::stmt::{Entity, Kind as SK, Statement};
use fa::stmt::print::{Format, PrintElement};
use fa::types::{BundleField, GroundType as GT, Orientation, ResetKind as RK, Type};

use crate::model::*;

pub type CEx = fa::Expression<Arc<Entity>>;
pub type COp = PO<Arc<Entity>>;

// ---------------------------------------------------------------- to crate

pub fn b_gr(g: &Gr) -> GT {
    match *g {
        Gr::U(w) => GT::UInt(w),
        Gr::S(w) => GT::SInt(w),
        Gr::F(w, p) => GT::Fixed(w, p),
        Gr::Clock => GT::Clock,
        Gr::Reset => GT::Reset(RK::Regular),
        Gr::AReset => GT::Reset(RK::Async),
        Gr::A(w) => GT::Analog(w),
    }
}

pub fn b_fld(f: &Fld) -> BundleField {
    BundleField::new(f.name.as_str(), b_ty(&f.ty))
        .with_orientation(if f.flip { Orientation::Flipped } else { Orientation::Normal })
}

pub fn b_ty(t: &Ty) -> Type {
    match t {
        Ty::G(g) => Type::GroundType(b_gr(g)),
        Ty::V(t, n) => Type::Vector(Arc::new(b_ty(t)), *n),
        Ty::B(v) => Type::Bundle(v.iter().map(b_fld).collect()),
    }
}

pub fn b_dir(d: Dir) -> PortDir {
    match d { Dir::R => PortDir::Read, Dir::W => PortDir::Write, Dir::RW => PortDir::ReadWrite }
}

pub fn b_ruw(r: Ruw) -> CRuw {
    match r { Ruw::Old => CRuw::Old, Ruw::New => CRuw::New, Ruw::Undef => CRuw::Undefined }
}

pub fn b_fm(f: Fm) -> Format {
    match f { Fm::B => Format::Binary, Fm::D => Format::Decimal, Fm::X => Format::Hexadecimal, Fm::C => Format::Character }
}

pub fn b_op(o: usize, e: Vec<Arc<CEx>>, p: &[i64]) -> COp {
    let mut it = e.into_iter();
    let mut a = || it.next().expect("harness: operand");
    let u = |i: usize| p[i] as u16;
    let s = |i: usize| p[i] as i16;
    match OPS[o].0 {
        "add" => PO::Add(a(), a()),
        "sub" => PO::Sub(a(), a()),
        "mul" => PO::Mul(a(), a()),
        "div" => PO::Div(a(), a()),
        "rem" => PO::Rem(a(), a()),
        "lt" => PO::Lt(a(), a()),
        "leq" => PO::LEq(a(), a()),
        "gt" => PO::Gt(a(), a()),
        "geq" => PO::GEq(a(), a()),
        "eq" => PO::Eq(a(), a()),
        "neq" => PO::NEq(a(), a()),
        "pad" => PO::Pad(a(), u(0)),
        "asUInt" => PO::Cast(a(), GT::UInt(None)),
        "asSInt" => PO::Cast(a(), GT::SInt(None)),
        "asFixed" => PO::Cast(a(), GT::Fixed(None, Some(s(0)))),
        "asClock" => PO::Cast(a(), GT::Clock),
        "asAsyncReset" => PO::Cast(a(), GT::Reset(RK::Async)),
        "shl" => PO::Shl(a(), u(0)),
        "shr" => PO::Shr(a(), u(0)),
        "dshl" => PO::DShl(a(), a()),
        "dshr" => PO::DShr(a(), a()),
        "cvt" => PO::Cvt(a()),
        "neg" => PO::Neg(a()),
        "not" => PO::Not(a()),
        "and" => PO::And(a(), a()),
        "or" => PO::Or(a(), a()),
        "xor" => PO::Xor(a(), a()),
        "andr" => PO::AndReduce(a()),
        "orr" => PO::OrReduce(a()),
        "xorr" => PO::XorReduce(a()),
        "cat" => PO::Cat(a(), a()),
        // textual order: high, low
        "bits" => PO::Bits(a(), Some(u(1)), Some(u(0))),
        "head" => PO::Bits(a(), None, Some(u(0))),
        "tail" => PO::Bits(a(), Some(u(0)), None),
        "incp" => PO::IncPrecision(a(), u(0)),
        "decp" => PO::DecPrecision(a(), u(0)),
        "setp" => PO::SetPrecision(a(), s(0)),
        o => panic!("harness: unknown op {}", o),
    }
}

/// Builder of crate ASTs; every model object becomes one shared crate object
#[derive(Default)]
pub struct Build {
    ents: HashMap<*const Ent, Arc<Entity>>,
    mods: HashMap<*const Module, Arc<CModule>>,
    ports: HashMap<*const Port, Arc<CPort>>,
    smems: HashMap<*const SMem, Arc<CSMem>>,
    /// Count of equal siblings; every other pair is shared
    twins: usize,
}

impl Build {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn port(&mut self, p: &Rc<Port>) -> Arc<CPort> {
        self.ports.entry(Rc::as_ptr(p)).or_insert_with(|| Arc::new(
            CPort::new(p.name.as_str(), b_ty(&p.ty), if p.out { Direction::Output } else { Direction::Input })
                .with_info(p.info.clone())
        )).clone()
    }
    pub fn smem(&mut self, m: &Rc<SMem>) -> Arc<CSMem> {
        self.smems.entry(Rc::as_ptr(m)).or_insert_with(|| {
            let k = match m.seq {
                None => simple::Kind::Combinatory,
                Some(r) => simple::Kind::Sequential(r.map(b_ruw)),
            };
            Arc::new(CSMem::new(m.name.as_str(), b_ty(&m.ty), k))
        }).clone()
    }
    pub fn mem(name: &str, m: &Mem) -> fa::Memory {
        let mut res = fa::Memory::new(name, b_ty(&m.ty), m.depth)
            .with_read_latency(m.rl)
            .with_write_latency(m.wl)
            .with_read_under_write(b_ruw(m.ruw));
        res.add_ports(m.ports.iter().map(|(n, d)| fa::memory::mem::Port { name: n.as_str().into(), dir: b_dir(*d) }));
        res
    }
    pub fn ent(&mut self, e: &Rc<Ent>) -> Arc<Entity> {
        if let Some(r) = self.ents.get(&Rc::as_ptr(e)) {
            return r.clone();
        }
        let n: Arc<str> = e.name.as_str().into();
        let r = match &e.k {
            EntK::Port(p) => Entity::Port(self.port(p)),
            EntK::Wire(t) => Entity::Wire { name: n, r#type: b_ty(t) },
            EntK::Reg(t, c, r) => {
                let reg = fa::Register::new(n, b_ty(t), self.ex(c));
                match r {
                    None => reg,
                    Some((a, b)) => reg.with_reset(self.ex(a), self.ex(b)),
                }.into()
            }
            EntK::Node(v) => Entity::Node { name: n, value: self.ex(v) },
            EntK::Mem(m) => Self::mem(&e.name, m).into(),
            EntK::MPort(m, d, a, c) =>
                simple::Port::new(n, self.smem(m), d.map(b_dir), self.ex(a), self.ex(c)).into(),
            EntK::Inst(m) => Instance::new(n, self.module(m)).into(),
        };
        let r = Arc::new(r);
        self.ents.insert(Rc::as_ptr(e), r.clone());
        r
    }
    fn aex(&mut self, e: &Ex) -> Arc<CEx> {
        Arc::new(self.ex(e))
    }
    /// Like `aex`, possibly sharing the result for an equal sibling
    fn aex2(&mut self, e: &Ex, f: &Ex, r: &Arc<CEx>) -> Arc<CEx> {
        if same_ex(e, f) {
            self.twins += 1;
            if self.twins % 2 == 1 {
                return r.clone();
            }
        }
        self.aex(e)
    }
    pub fn ex(&mut self, e: &Ex) -> CEx {
        use fa::Expression as E;
        match e {
            Ex::ULit(v, w) => E::UIntLiteral { value: v.clone(), width: *w },
            Ex::SLit(v, w) => E::SIntLiteral { value: v.clone(), width: *w },
            Ex::Ref(r) => E::Reference(self.ent(r)),
            Ex::Field(b, n) => E::SubField { base: self.aex(b), index: n.as_str().into() },
            Ex::Idx(b, i) => E::SubIndex { base: self.aex(b), index: *i },
            Ex::Acc(b, i) => {
                let x = self.aex(b);
                E::SubAccess { index: self.aex2(i, b, &x), base: x }
            }
            Ex::Mux(s, a, b) => {
                let x = self.aex(a);
                E::Mux { sel: self.aex2(s, a, &x), b: self.aex2(b, a, &x), a: x }
            }
            Ex::Valid(s, v) => {
                let x = self.aex(v);
                E::ValidIf { sel: self.aex2(s, v, &x), value: x }
            }
            Ex::Op(o, es, ps) => {
                let mut v: Vec<Arc<CEx>> = vec![];
                for e in es {
                    let x = match v.first().cloned() { Some(r) => self.aex2(e, &es[0], &r), None => self.aex(e) };
                    v.push(x);
                }
                let es = v;
                E::PrimitiveOp(b_op(*o, es, ps))
            }
        }
    }
    pub fn pe(&mut self, p: &PE) -> PrintElement {
        match p {
            PE::Lit(s) => PrintElement::Literal(s.clone()),
            PE::Val(e, f) => PrintElement::Value(self.ex(e), b_fm(*f)),
        }
    }
    pub fn st(&mut self, s: &St) -> Statement {
        let n = |n: &Option<String>| n.as_ref().map(|n| Arc::<str>::from(n.as_str()));
        let k = match &s.k {
            StK::Conn(t, f) => SK::Connection { from: self.ex(f), to: self.ex(t) },
            StK::Part(t, f) => SK::PartialConnection { from: self.ex(f), to: self.ex(t) },
            StK::Skip => SK::Empty,
            StK::Decl(e) => SK::Declaration(self.ent(e)),
            StK::SMem(m) => SK::SimpleMemDecl(self.smem(m)),
            StK::Inval(e) => SK::Invalidate(self.ex(e)),
            StK::Attach(v) => SK::Attach(v.iter().map(|e| self.ex(e)).collect()),
            StK::When(c, a, b) => {
                let when: Arc<[Statement]> = self.sts(a).into();
                let share = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.info == y.info && same_st(x, y));
                self.twins += share as usize;
                let r#else = if share && self.twins % 2 == 1 { when.clone() } else { self.sts(b).into() };
                SK::Conditional { cond: self.ex(c), when, r#else }
            }
            StK::Stop(m, c, g, v) => SK::Stop { name: n(m), clock: self.ex(c), cond: self.ex(g), code: *v },
            StK::Print(m, c, g, p) => SK::Print {
                name: n(m),
                clock: self.ex(c),
                cond: self.ex(g),
                msg: p.iter().map(|p| self.pe(p)).collect(),
            },
        };
        Statement::from(k).with_info(s.info.clone())
    }
    pub fn sts(&mut self, s: &[St]) -> Vec<Statement> {
        s.iter().map(|s| self.st(s)).collect()
    }
    pub fn mkind(&mut self, k: &MK) -> MKind {
        match k {
            MK::Reg(s) => MKind::Regular { stmts: self.sts(s) },
            MK::Ext(d, p) => MKind::External {
                defname: d.as_ref().map(|d| d.as_str().into()),
                params: p.iter().map(|(k, v)| (Arc::<str>::from(k.as_str()), b_pv(v))).collect(),
            },
        }
    }
    pub fn module(&mut self, m: &Rc<Module>) -> Arc<CModule> {
        if let Some(r) = self.mods.get(&Rc::as_ptr(m)) {
            return r.clone();
        }
        let ports: Vec<_> = m.ports.iter().map(|p| self.port(p)).collect();
        let k = self.mkind(&m.k);
        let r = Arc::new(CModule::new(m.name.as_str().into(), ports, k).with_info(m.info.clone()));
        self.mods.insert(Rc::as_ptr(m), r.clone());
        r
    }
    pub fn circuit(&mut self, top: &Rc<Module>, info: &Option<String>) -> fa::Circuit {
        fa::Circuit::new(self.module(top)).with_info(info.clone())
    }
}

pub fn b_pv(v: &PV) -> ParamValue {
    match v {
        PV::Int(i) => ParamValue::Int(*i),
        PV::Dbl(d) => ParamValue::Double(*d),
        PV::Str(s) => ParamValue::String(s.as_str().into()),
    }
}

// -------------------------------------------------------------- from crate

pub fn m_gr(g: &GT) -> Gr {
    match *g {
        GT::UInt(w) => Gr::U(w),
        GT::SInt(w) => Gr::S(w),
        GT::Fixed(w, p) => Gr::F(w, p),
        GT::Clock => Gr::Clock,
        GT::Reset(RK::Regular) => Gr::Reset,
        GT::Reset(RK::Async) => Gr::AReset,
        GT::Analog(w) => Gr::A(w),
    }
}

pub fn m_ty(t: &Type) -> Ty {
    match t {
        Type::GroundType(g) => Ty::G(m_gr(g)),
        Type::Vector(t, n) => Ty::V(Rc::new(m_ty(t)), *n),
        Type::Bundle(v) => Ty::B(v.iter().map(|f| Fld {
            name: f.name().to_string(),
            flip: f.orientation() == Orientation::Flipped,
            ty: m_ty(f.r#type()),
        }).collect()),
    }
}

pub fn m_ruw(r: CRuw) -> Ruw {
    match r { CRuw::Old => Ruw::Old, CRuw::New => Ruw::New, CRuw::Undefined => Ruw::Undef }
}

pub fn m_dir(d: PortDir) -> Dir {
    match d { PortDir::Read => Dir::R, PortDir::Write => Dir::W, PortDir::ReadWrite => Dir::RW }
}

pub fn m_fm(f: Format) -> Fm {
    match f { Format::Binary => Fm::B, Format::Decimal => Fm::D, Format::Hexadecimal => Fm::X, Format::Character => Fm::C }
}

pub fn m_pv(v: &ParamValue) -> PV {
    match v {
        ParamValue::Int(i) => PV::Int(*i),
        ParamValue::Double(d) => PV::Dbl(*d),
        ParamValue::String(s) => PV::Str(s.to_string()),
    }
}

pub fn m_port(p: &CPort) -> Port {
    Port {
        name: p.name().to_string(),
        ty: m_ty(p.r#type()),
        out: p.direction() == Direction::Output,
        info: p.info().map(Into::into),
    }
}

pub fn m_mem(m: &fa::Memory) -> Mem {
    Mem {
        ty: m_ty(m.data_type()),
        depth: m.depth(),
        ports: m.ports().map(|p| (p.name.to_string(), m_dir(p.dir))).collect(),
        rl: m.read_latency(),
        wl: m.write_latency(),
        ruw: m_ruw(m.read_under_write()),
    }
}

pub fn m_smem(m: &CSMem) -> SMem {
    use fa::types::Typed;
    let ty = match m.r#type() {
        Ok(t) => m_ty(&t),
        Err(_) => Ty::B(vec![Fld { name: "<no type>".into(), flip: false, ty: Ty::G(Gr::Clock) }]),
    };
    SMem {
        name: m.name().to_string(),
        ty,
        seq: match m.kind() {
            simple::Kind::Combinatory => None,
            simple::Kind::Sequential(r) => Some(r.map(m_ruw)),
        },
    }
}

/// Operation as (name, operands, parameters in textual order)
pub fn op_parts(o: &COp) -> (&'static str, Vec<&Arc<CEx>>, Vec<i64>) {
    match o {
        PO::Add(a, b) => ("add", vec![a, b], vec![]),
        PO::Sub(a, b) => ("sub", vec![a, b], vec![]),
        PO::Mul(a, b) => ("mul", vec![a, b], vec![]),
        PO::Div(a, b) => ("div", vec![a, b], vec![]),
        PO::Rem(a, b) => ("rem", vec![a, b], vec![]),
        PO::Lt(a, b) => ("lt", vec![a, b], vec![]),
        PO::LEq(a, b) => ("leq", vec![a, b], vec![]),
        PO::Gt(a, b) => ("gt", vec![a, b], vec![]),
        PO::GEq(a, b) => ("geq", vec![a, b], vec![]),
        PO::Eq(a, b) => ("eq", vec![a, b], vec![]),
        PO::NEq(a, b) => ("neq", vec![a, b], vec![]),
        PO::Pad(a, n) => ("pad", vec![a], vec![*n as i64]),
        PO::Cast(a, GT::UInt(None)) => ("asUInt", vec![a], vec![]),
        PO::Cast(a, GT::SInt(None)) => ("asSInt", vec![a], vec![]),
        PO::Cast(a, GT::Fixed(None, Some(p))) => ("asFixed", vec![a], vec![*p as i64]),
        PO::Cast(a, GT::Clock) => ("asClock", vec![a], vec![]),
        PO::Cast(a, GT::Reset(RK::Async)) => ("asAsyncReset", vec![a], vec![]),
        PO::Cast(a, _) => ("<odd cast>", vec![a], vec![]),
        PO::Shl(a, n) => ("shl", vec![a], vec![*n as i64]),
        PO::Shr(a, n) => ("shr", vec![a], vec![*n as i64]),
        PO::DShl(a, b) => ("dshl", vec![a, b], vec![]),
        PO::DShr(a, b) => ("dshr", vec![a, b], vec![]),
        PO::Cvt(a) => ("cvt", vec![a], vec![]),
        PO::Neg(a) => ("neg", vec![a], vec![]),
        PO::Not(a) => ("not", vec![a], vec![]),
        PO::And(a, b) => ("and", vec![a, b], vec![]),
        PO::Or(a, b) => ("or", vec![a, b], vec![]),
        PO::Xor(a, b) => ("xor", vec![a, b], vec![]),
        PO::AndReduce(a) => ("andr", vec![a], vec![]),
        PO::OrReduce(a) => ("orr", vec![a], vec![]),
        PO::XorReduce(a) => ("xorr", vec![a], vec![]),
        PO::Cat(a, b) => ("cat", vec![a, b], vec![]),
        PO::Bits(a, Some(l), Some(h)) => ("bits", vec![a], vec![*h as i64, *l as i64]),
        PO::Bits(a, None, Some(n)) => ("head", vec![a], vec![*n as i64]),
        PO::Bits(a, Some(n), None) => ("tail", vec![a], vec![*n as i64]),
        PO::Bits(a, None, None) => ("<odd bits>", vec![a], vec![]),
        PO::IncPrecision(a, n) => ("incp", vec![a], vec![*n as i64]),
        PO::DecPrecision(a, n) => ("decp", vec![a], vec![*n as i64]),
        PO::SetPrecision(a, n) => ("setp", vec![a], vec![*n as i64]),
    }
}

/// Canonicaliser for crate ASTs
///
/// Holds on to what it visited, so that addresses identify objects.
#[derive(Default)]
pub struct CC {
    ents: HashMap<*const Entity, usize>,
    mods: HashMap<*const CModule, usize>,
    keep: Vec<Arc<Entity>>,
    keepm: Vec<Arc<CModule>>,
}

impl CC {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn ex(&mut self, c: &mut Canon, e: &CEx) -> String {
        use fa::Expression as E;
        match e {
            E::UIntLiteral { value, width } => format!("u{}w{}", value, width),
            E::SIntLiteral { value, width } => format!("s{}w{}", value, width),
            E::Reference(r) => format!("#{}", self.ent(c, r)),
            E::SubField { base, index } => format!("{}.{:?}", self.ex(c, base), index),
            E::SubIndex { base, index } => format!("{}[{}]", self.ex(c, base), index),
            E::SubAccess { base, index } => format!("{}[({})]", self.ex(c, base), self.ex(c, index)),
            E::Mux { sel, a, b } => format!("mux({},{},{})", self.ex(c, sel), self.ex(c, a), self.ex(c, b)),
            E::ValidIf { sel, value } => format!("validif({},{})", self.ex(c, sel), self.ex(c, value)),
            E::PrimitiveOp(o) => {
                let (n, es, ps) = op_parts(o);
                let mut s = format!("{}(", n);
                for e in es {
                    s.push_str(&self.ex(c, e));
                    s.push(',');
                }
                for p in ps {
                    s.push_str(&format!("{},", p));
                }
                s.push(')');
                s
            }
        }
    }
    pub fn smem(&mut self, c: &mut Canon, m: &CSMem) -> usize {
        c.smem(&m_smem(m))
    }
    pub fn ent_str(&mut self, c: &mut Canon, e: &Entity) -> String {
        use fa::types::Typed;
        match e {
            Entity::Port(p) => c_port(&m_port(p)),
            Entity::Wire { name, r#type } => format!("(wire {:?} {})", name, c_ty(&m_ty(r#type))),
            Entity::Register(r) => {
                let t = match r.r#type() {
                    Ok(t) => c_ty(&m_ty(&t)),
                    Err(_) => "<no type>".into(),
                };
                let ck = self.ex(c, r.clock());
                let rs = match (r.reset_signal(), r.reset_value()) {
                    (None, None) => "-".to_string(),
                    (Some(a), Some(b)) => format!("{}=>{}", self.ex(c, a), self.ex(c, b)),
                    _ => "<half a reset>".into(),
                };
                format!("(reg {:?} {} {} {})", r.name(), t, ck, rs)
            }
            Entity::Node { name, value } => format!("(node {:?} {})", name, self.ex(c, value)),
            Entity::Memory(m) => Canon::mem_str(m.name(), &m_mem(m)),
            Entity::SimpleMemPort(p) => {
                let m = self.smem(c, p.memory());
                format!("(mport {:?} #{} {} {} {})", p.name(), m, p.direction().map(|d| c_dir(m_dir(d))).unwrap_or("infer"),
                    self.ex(c, p.address()), self.ex(c, p.clock()))
            }
            Entity::Instance(i) => format!("(inst {:?} #{})", i.name(), self.module(c, i.module())),
        }
    }
    pub fn ent(&mut self, c: &mut Canon, e: &Arc<Entity>) -> usize {
        if let Some(i) = self.ents.get(&Arc::as_ptr(e)) {
            return *i;
        }
        let s = self.ent_str(c, e);
        let i = c.intern(s);
        self.ents.insert(Arc::as_ptr(e), i);
        self.keep.push(e.clone());
        i
    }
    pub fn st(&mut self, c: &mut Canon, s: &Statement) -> String {
        let n = |n: &Option<Arc<str>>| opt_s(&n.as_ref().map(|n| n.to_string()));
        let k = match s.kind() {
            SK::Connection { from, to } => format!("{} <= {}", self.ex(c, to), self.ex(c, from)),
            SK::PartialConnection { from, to } => format!("{} <- {}", self.ex(c, to), self.ex(c, from)),
            SK::Empty => "skip".into(),
            SK::Declaration(e) => format!("decl #{}", self.ent(c, e)),
            SK::SimpleMemDecl(m) => format!("smem #{}", self.smem(c, m)),
            SK::Invalidate(e) => format!("{} invalid", self.ex(c, e)),
            SK::Attach(v) => {
                let mut s = String::from("attach(");
                for e in v {
                    s.push_str(&self.ex(c, e));
                    s.push(',');
                }
                s.push(')');
                s
            }
            SK::Conditional { cond, when, r#else } => {
                let g = self.ex(c, cond);
                let a = self.sts(c, when, true);
                let b = self.sts(c, r#else, false);
                format!("when {} {{\n{}}} else {{\n{}}}", g, a, b)
            }
            SK::Stop { name, clock, cond, code } =>
                format!("stop({},{},{}) {}", self.ex(c, clock), self.ex(c, cond), code, n(name)),
            SK::Print { name, clock, cond, msg } => {
                let parts: Vec<Result<String, (String, Fm)>> = msg.iter().map(|p| match p {
                    PrintElement::Literal(s) => Ok(s.clone()),
                    PrintElement::Value(e, f) => Err((self.ex(c, e), m_fm(*f))),
                }).collect();
                format!("printf({},{},{}) {}", self.ex(c, clock), self.ex(c, cond), c_msg(parts, c.norm), n(name))
            }
        };
        format!("{} @{}\n", k, opt_s(&s.info().map(Into::into)))
    }
    pub fn sts(&mut self, c: &mut Canon, s: &[Statement], when: bool) -> String {
        if s.is_empty() && when && c.norm {
            return "skip @-\n".into();
        }
        let mut r = String::new();
        for x in s {
            r.push_str(&self.st(c, x));
        }
        r
    }
    pub fn module_str(&mut self, c: &mut Canon, m: &CModule) -> String {
        let ports: String = m.ports().map(|p| format!("{}\n", c_port(&m_port(p)))).collect();
        let body = match m.kind() {
            MKind::Regular { stmts } => format!("module\n{}", self.sts(c, stmts, false)),
            MKind::External { defname, params } => {
                let mut ps: Vec<_> = params.iter().map(|(k, v)| format!("{:?}={};", k, c_pv(&m_pv(v)))).collect();
                ps.sort();
                format!("extmodule {} {}", opt_s(&defname.as_ref().map(|d| d.to_string())), ps.concat())
            }
        };
        format!("(module {:?} {}\n{}{})", m.name(), opt_s(&m.info().map(Into::into)), ports, body)
    }
    pub fn module(&mut self, c: &mut Canon, m: &Arc<CModule>) -> usize {
        if let Some(i) = self.mods.get(&Arc::as_ptr(m)) {
            return *i;
        }
        let s = self.module_str(c, m);
        let i = c.intern(s);
        self.mods.insert(Arc::as_ptr(m), i);
        self.keepm.push(m.clone());
        i
    }
    pub fn circuit(&mut self, c: &mut Canon, x: &fa::Circuit) -> String {
        let m = self.module(c, x.top_module());
        format!("(circuit {} #{})", opt_s(&x.info().map(Into::into)), m)
    }
}

/// Canonical form of a crate circuit
pub fn canon_c(c: &mut Canon, x: &fa::Circuit) -> String {
    CC::new().circuit(c, x)
}

/// Expanded rendering of the difference between two canonical ids' contents
pub fn diff(c: &Canon, a: &str, b: &str) -> String {
    fn ids(s: &str) -> Vec<usize> {
        let mut v = vec![];
        let mut in_str = false;
        let mut esc = false;
        let mut it = s.chars().peekable();
        while let Some(ch) = it.next() {
            if in_str {
                if esc { esc = false } else if ch == '\\' { esc = true } else if ch == '"' { in_str = false }
            } else if ch == '"' {
                in_str = true
            } else if ch == '#' {
                let mut n = 0usize;
                while let Some(d) = it.peek().and_then(|c| c.to_digit(10)) {
                    n = n * 10 + d as usize;
                    it.next();
                }
                v.push(n);
            }
        }
        v
    }
    let mut a = a.to_string();
    let mut b = b.to_string();
    for _ in 0..200 {
        let (x, y) = (ids(&a), ids(&b));
        let la: Vec<&str> = a.lines().collect();
        let lb: Vec<&str> = b.lines().collect();
        let strip = |s: &str| -> String { s.to_string() };
        if x.len() == y.len() {
            if let Some((i, j)) = x.iter().zip(&y).find(|(i, j)| i != j) {
                let (na, nb) = (c.def(*i).to_string(), c.def(*j).to_string());
                a = na;
                b = nb;
                continue;
            }
        }
        for (p, q) in la.iter().zip(&lb) {
            if p != q {
                return format!("expected: {}\n  actual: {}", strip(p), strip(q));
            }
        }
        return format!("expected: {}\n  actual: {}", a, b);
    }
    format!("expected: {}\n  actual: {}", a, b)
}
