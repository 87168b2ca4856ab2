//! The harness' own model of FIRRTL circuits, independent of the crate's AST.

use num_bigint::{BigInt, BigUint};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Gr {
    U(Option<u16>),
    S(Option<u16>),
    F(Option<u16>, Option<i16>),
    Clock,
    Reset,
    AReset,
    A(Option<u16>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    G(Gr),
    V(Rc<Ty>, u16),
    B(Vec<Fld>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Fld {
    pub name: String,
    pub flip: bool,
    pub ty: Ty,
}

/// Primitive operations: name, number of operands, kinds of the integer
/// parameters in textual order ('u': unsigned 16 bit, 's': signed 16 bit)
pub const OPS: &[(&str, usize, &str)] = &[
    ("add", 2, ""), ("sub", 2, ""), ("mul", 2, ""), ("div", 2, ""), ("rem", 2, ""),
    ("lt", 2, ""), ("leq", 2, ""), ("gt", 2, ""), ("geq", 2, ""), ("eq", 2, ""), ("neq", 2, ""),
    ("pad", 1, "u"), ("asUInt", 1, ""), ("asSInt", 1, ""), ("asFixed", 1, "s"), ("asClock", 1, ""),
    ("asAsyncReset", 1, ""), ("shl", 1, "u"), ("shr", 1, "u"), ("dshl", 2, ""), ("dshr", 2, ""),
    ("cvt", 1, ""), ("neg", 1, ""), ("not", 1, ""), ("and", 2, ""), ("or", 2, ""), ("xor", 2, ""),
    ("andr", 1, ""), ("orr", 1, ""), ("xorr", 1, ""), ("cat", 2, ""), ("bits", 1, "uu"),
    ("head", 1, "u"), ("tail", 1, "u"), ("incp", 1, "u"), ("decp", 1, "u"), ("setp", 1, "s"),
];

pub fn op_by_name(n: &str) -> Option<usize> {
    OPS.iter().position(|o| o.0 == n)
}

#[derive(Clone, Debug)]
pub enum Ex {
    ULit(BigUint, u16),
    SLit(BigInt, u16),
    Ref(Rc<Ent>),
    Field(Box<Ex>, String),
    Idx(Box<Ex>, u16),
    Acc(Box<Ex>, Box<Ex>),
    Mux(Box<Ex>, Box<Ex>, Box<Ex>),
    Valid(Box<Ex>, Box<Ex>),
    Op(usize, Vec<Ex>, Vec<i64>),
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Dir { R, W, RW }

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ruw { Old, New, Undef }

#[derive(Clone, Debug)]
pub struct Port {
    pub name: String,
    pub ty: Ty,
    pub out: bool,
    pub info: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Mem {
    pub ty: Ty,
    pub depth: u64,
    pub ports: Vec<(String, Dir)>,
    pub rl: u16,
    pub wl: u16,
    pub ruw: Ruw,
}

#[derive(Clone, Debug)]
pub struct SMem {
    pub name: String,
    pub ty: Ty,
    /// `None`: cmem, `Some(ruw)`: smem
    pub seq: Option<Option<Ruw>>,
}

#[derive(Clone, Debug)]
pub enum EntK {
    Port(Rc<Port>),
    Wire(Ty),
    Reg(Ty, Ex, Option<(Ex, Ex)>),
    Node(Ex),
    Mem(Mem),
    MPort(Rc<SMem>, Option<Dir>, Ex, Ex),
    Inst(Rc<Module>),
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub name: String,
    pub k: EntK,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Fm { B, D, X, C }

#[derive(Clone, Debug)]
pub enum PE {
    Lit(String),
    Val(Ex, Fm),
}

#[derive(Clone, Debug)]
pub enum StK {
    Conn(Ex, Ex),
    Part(Ex, Ex),
    Skip,
    Decl(Rc<Ent>),
    SMem(Rc<SMem>),
    Inval(Ex),
    Attach(Vec<Ex>),
    When(Ex, Vec<St>, Vec<St>),
    Stop(Option<String>, Ex, Ex, i64),
    Print(Option<String>, Ex, Ex, Vec<PE>),
}

#[derive(Clone, Debug)]
pub struct St {
    pub k: StK,
    pub info: Option<String>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum PV {
    Int(i64),
    Dbl(f64),
    Str(String),
}

#[derive(Clone, Debug)]
pub enum MK {
    Reg(Vec<St>),
    Ext(Option<String>, Vec<(String, PV)>),
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub ports: Vec<Rc<Port>>,
    pub info: Option<String>,
    pub k: MK,
}

/// A text's worth of modules; `top` names the top module
#[derive(Clone, Debug)]
pub struct Prog {
    pub top: String,
    pub info: Option<String>,
    pub modules: Vec<Rc<Module>>,
}

impl Prog {
    pub fn top_module(&self) -> Option<&Rc<Module>> {
        self.modules.iter().find(|m| m.name == self.top)
    }
}

impl Module {
    pub fn stmts(&self) -> &[St] {
        match &self.k {
            MK::Reg(s) => s,
            MK::Ext(..) => &[],
        }
    }
}

/// Visit all statements, nested ones included, in textual order
pub fn walk_stmts<'a>(s: &'a [St], f: &mut impl FnMut(&'a St)) {
    for st in s {
        f(st);
        if let StK::When(_, a, b) = &st.k {
            walk_stmts(a, f);
            walk_stmts(b, f);
        }
    }
}

/// Modules instantiated by a statement list, in textual order
pub fn instantiated(s: &[St]) -> Vec<Rc<Module>> {
    let mut res = vec![];
    walk_stmts(s, &mut |st| if let StK::Decl(e) = &st.k {
        if let EntK::Inst(m) = &e.k {
            res.push(m.clone());
        }
    });
    res
}

/// Names of modules reachable from the given one, dependencies first
pub fn reachable(top: &Rc<Module>) -> Vec<Rc<Module>> {
    fn go(m: &Rc<Module>, seen: &mut HashSet<String>, out: &mut Vec<Rc<Module>>) {
        if !seen.insert(m.name.clone()) {
            return;
        }
        for d in instantiated(m.stmts()) {
            go(&d, seen, out);
        }
        out.push(m.clone());
    }
    let mut out = vec![];
    go(top, &mut HashSet::new(), &mut out);
    out
}

/// Canonical rendering with hash-consing of entities and modules
///
/// Two structures are equal iff their canonical strings, produced by the same
/// `Canon`, are equal. References are canonicalised by the content of the
/// declaration they point to, not by name or address.
pub struct Canon {
    ids: HashMap<String, usize>,
    defs: Vec<String>,
    ents: HashMap<*const Ent, usize>,
    mods: HashMap<*const Module, usize>,
    /// Normalise what the text form cannot express
    pub norm: bool,
}

pub fn opt_s(s: &Option<String>) -> String {
    match s {
        None => "-".into(),
        Some(s) => format!("{:?}", s),
    }
}

fn ow(w: &Option<u16>) -> String {
    w.map(|w| w.to_string()).unwrap_or_else(|| "?".into())
}

pub fn c_gr(g: &Gr) -> String {
    match g {
        Gr::U(w) => format!("U{}", ow(w)),
        Gr::S(w) => format!("S{}", ow(w)),
        Gr::F(w, p) => format!("F{}p{}", ow(w), p.map(|p| p.to_string()).unwrap_or_else(|| "?".into())),
        Gr::Clock => "Clk".into(),
        Gr::Reset => "Rst".into(),
        Gr::AReset => "ARst".into(),
        Gr::A(w) => format!("A{}", ow(w)),
    }
}

pub fn c_ty(t: &Ty) -> String {
    match t {
        Ty::G(g) => c_gr(g),
        Ty::V(t, n) => format!("{}[{}]", c_ty(t), n),
        Ty::B(v) => {
            let mut s = String::from("{");
            for f in v {
                s.push_str(&format!("{}{:?}:{};", if f.flip { "~" } else { "" }, f.name, c_ty(&f.ty)));
            }
            s.push('}');
            s
        }
    }
}

pub fn c_ruw(r: Ruw) -> &'static str {
    match r { Ruw::Old => "old", Ruw::New => "new", Ruw::Undef => "undef" }
}

pub fn c_dir(d: Dir) -> &'static str {
    match d { Dir::R => "r", Dir::W => "w", Dir::RW => "rw" }
}

pub fn c_fm(f: Fm) -> &'static str {
    match f { Fm::B => "%b", Fm::D => "%d", Fm::X => "%x", Fm::C => "%c" }
}

pub fn c_pv(p: &PV) -> String {
    match p {
        PV::Int(i) => format!("int {}", i),
        PV::Dbl(d) => format!("dbl {:016x} ({:?})", d.to_bits(), d),
        PV::Str(s) => format!("str {:?}", s),
    }
}

pub fn c_port(p: &Port) -> String {
    format!("(port {:?} {} {} {})", p.name, if p.out { "out" } else { "in" }, c_ty(&p.ty), opt_s(&p.info))
}

impl Canon {
    pub fn new(norm: bool) -> Self {
        Canon { ids: HashMap::new(), defs: vec![], ents: HashMap::new(), mods: HashMap::new(), norm }
    }
    pub fn intern(&mut self, s: String) -> usize {
        if let Some(i) = self.ids.get(&s) {
            return *i;
        }
        let i = self.defs.len();
        self.defs.push(s.clone());
        self.ids.insert(s, i);
        i
    }
    pub fn def(&self, i: usize) -> &str {
        &self.defs[i]
    }
    /// All definitions interned so far, for diagnostics
    pub fn dump(&self) -> String {
        self.defs.iter().enumerate().map(|(i, d)| format!("#{} = {}\n", i, d)).collect()
    }

    pub fn ex(&mut self, e: &Ex) -> String {
        match e {
            Ex::ULit(v, w) => format!("u{}w{}", v, w),
            Ex::SLit(v, w) => format!("s{}w{}", v, w),
            Ex::Ref(e) => format!("#{}", self.ent(e)),
            Ex::Field(b, n) => format!("{}.{:?}", self.ex(b), n),
            Ex::Idx(b, i) => format!("{}[{}]", self.ex(b), i),
            Ex::Acc(b, i) => format!("{}[({})]", self.ex(b), self.ex(i)),
            Ex::Mux(s, a, b) => format!("mux({},{},{})", self.ex(s), self.ex(a), self.ex(b)),
            Ex::Valid(s, v) => format!("validif({},{})", self.ex(s), self.ex(v)),
            Ex::Op(o, es, ps) => {
                let mut s = format!("{}(", OPS[*o].0);
                for e in es {
                    s.push_str(&self.ex(e));
                    s.push(',');
                }
                for p in ps {
                    s.push_str(&format!("{},", p));
                }
                s.push(')');
                s
            }
        }
    }
    pub fn smem(&mut self, m: &SMem) -> usize {
        let k = match m.seq {
            None => "cmem".to_string(),
            Some(None) => "smem".into(),
            Some(Some(r)) => format!("smem/{}", c_ruw(r)),
        };
        let s = format!("({} {:?} {})", k, m.name, c_ty(&m.ty));
        self.intern(s)
    }
    pub fn mem_str(name: &str, m: &Mem) -> String {
        let ports: String = m.ports.iter().map(|(n, d)| format!("{:?}:{};", n, c_dir(*d))).collect();
        format!("(mem {:?} {} {} [{}] {} {} {})", name, c_ty(&m.ty), m.depth, ports, m.rl, m.wl, c_ruw(m.ruw))
    }
    pub fn ent(&mut self, e: &Rc<Ent>) -> usize {
        if let Some(i) = self.ents.get(&Rc::as_ptr(e)) {
            return *i;
        }
        let s = match &e.k {
            EntK::Port(p) => c_port(p),
            EntK::Wire(t) => format!("(wire {:?} {})", e.name, c_ty(t)),
            EntK::Reg(t, c, r) => {
                let c = self.ex(c);
                let r = match r {
                    None => "-".to_string(),
                    Some((a, b)) => format!("{}=>{}", self.ex(a), self.ex(b)),
                };
                format!("(reg {:?} {} {} {})", e.name, c_ty(t), c, r)
            }
            EntK::Node(v) => format!("(node {:?} {})", e.name, self.ex(v)),
            EntK::Mem(m) => Self::mem_str(&e.name, m),
            EntK::MPort(m, d, a, c) => {
                let m = self.smem(m);
                format!("(mport {:?} #{} {} {} {})", e.name, m, d.map(c_dir).unwrap_or("infer"), self.ex(a), self.ex(c))
            }
            EntK::Inst(m) => format!("(inst {:?} #{})", e.name, self.module(m)),
        };
        let i = self.intern(s);
        self.ents.insert(Rc::as_ptr(e), i);
        i
    }
    pub fn st(&mut self, s: &St) -> String {
        let k = match &s.k {
            StK::Conn(t, f) => format!("{} <= {}", self.ex(t), self.ex(f)),
            StK::Part(t, f) => format!("{} <- {}", self.ex(t), self.ex(f)),
            StK::Skip => "skip".into(),
            StK::Decl(e) => format!("decl #{}", self.ent(e)),
            StK::SMem(m) => format!("smem #{}", self.smem(m)),
            StK::Inval(e) => format!("{} invalid", self.ex(e)),
            StK::Attach(v) => {
                let mut s = String::from("attach(");
                for e in v {
                    s.push_str(&self.ex(e));
                    s.push(',');
                }
                s.push(')');
                s
            }
            StK::When(c, a, b) => {
                let c = self.ex(c);
                let a = self.sts(a, true);
                let b = self.sts(b, false);
                format!("when {} {{\n{}}} else {{\n{}}}", c, a, b)
            }
            StK::Stop(n, c, g, v) => format!("stop({},{},{}) {}", self.ex(c), self.ex(g), v, opt_s(n)),
            StK::Print(n, c, g, m) => {
                let parts: Vec<Result<String, (String, Fm)>> = m.iter().map(|p| match p {
                    PE::Lit(s) => Ok(s.clone()),
                    PE::Val(e, f) => Err((self.ex(e), *f)),
                }).collect();
                format!("printf({},{},{}) {}", self.ex(c), self.ex(g), c_msg(parts, self.norm), opt_s(n))
            }
        };
        format!("{} @{}\n", k, opt_s(&s.info))
    }
    pub fn sts(&mut self, s: &[St], when: bool) -> String {
        if s.is_empty() && when && self.norm {
            return "skip @-\n".into();
        }
        let mut r = String::new();
        for x in s {
            r.push_str(&self.st(x));
        }
        r
    }
    pub fn module_str(&mut self, m: &Module) -> String {
        let ports: String = m.ports.iter().map(|p| format!("{}\n", c_port(p))).collect();
        let body = match &m.k {
            MK::Reg(s) => format!("module\n{}", self.sts(s, false)),
            MK::Ext(d, p) => {
                let mut ps: Vec<_> = p.iter().map(|(k, v)| format!("{:?}={};", k, c_pv(v))).collect();
                ps.sort();
                format!("extmodule {} {}", opt_s(d), ps.concat())
            }
        };
        format!("(module {:?} {}\n{}{})", m.name, opt_s(&m.info), ports, body)
    }
    pub fn module(&mut self, m: &Rc<Module>) -> usize {
        if let Some(i) = self.mods.get(&Rc::as_ptr(m)) {
            return *i;
        }
        let s = self.module_str(m);
        let i = self.intern(s);
        self.mods.insert(Rc::as_ptr(m), i);
        i
    }
    pub fn circuit(&mut self, top: &Rc<Module>, info: &Option<String>) -> String {
        let m = self.module(top);
        format!("(circuit {} #{})", opt_s(info), m)
    }
}

/// Canonical form of a print message
pub fn c_msg(parts: Vec<Result<String, (String, Fm)>>, norm: bool) -> String {
    let mut out = String::new();
    let mut lit: Option<String> = None;
    for p in parts {
        match p {
            Ok(s) if norm => lit.get_or_insert_with(String::new).push_str(&s),
            Ok(s) => out.push_str(&format!("{:?};", s)),
            Err((e, f)) => {
                if let Some(l) = lit.take().filter(|l| !l.is_empty()) {
                    out.push_str(&format!("{:?};", l));
                }
                out.push_str(&format!("{}={};", c_fm(f), e));
            }
        }
    }
    if let Some(l) = lit.filter(|l| !l.is_empty()) {
        out.push_str(&format!("{:?};", l));
    }
    out
}

pub fn walk_ex<'a>(e: &'a Ex, f: &mut impl FnMut(&'a Ex)) {
    f(e);
    match e {
        Ex::ULit(..) | Ex::SLit(..) | Ex::Ref(..) => (),
        Ex::Field(b, _) | Ex::Idx(b, _) => walk_ex(b, f),
        Ex::Acc(a, b) | Ex::Valid(a, b) => { walk_ex(a, f); walk_ex(b, f) }
        Ex::Mux(a, b, c) => { walk_ex(a, f); walk_ex(b, f); walk_ex(c, f) }
        Ex::Op(_, v, _) => v.iter().for_each(|e| walk_ex(e, f)),
    }
}

/// All expressions appearing directly in a statement (not in nested ones)
pub fn st_exprs(s: &St) -> Vec<&Ex> {
    match &s.k {
        StK::Conn(a, b) | StK::Part(a, b) => vec![a, b],
        StK::Skip | StK::SMem(_) => vec![],
        StK::Decl(e) => ent_exprs(e),
        StK::Inval(e) => vec![e],
        StK::Attach(v) => v.iter().collect(),
        StK::When(c, ..) => vec![c],
        StK::Stop(_, a, b, _) => vec![a, b],
        StK::Print(_, a, b, m) => {
            let mut v = vec![a, b];
            v.extend(m.iter().filter_map(|p| if let PE::Val(e, _) = p { Some(e) } else { None }));
            v
        }
    }
}

pub fn ent_exprs(e: &Ent) -> Vec<&Ex> {
    match &e.k {
        EntK::Reg(_, c, r) => {
            let mut v = vec![c];
            if let Some((a, b)) = r {
                v.push(a);
                v.push(b);
            }
            v
        }
        EntK::Node(v) => vec![v],
        EntK::MPort(_, _, a, c) => vec![a, c],
        _ => vec![],
    }
}

/// Are expressions the same, references to the same entity included?
pub fn same_ex(a: &Ex, b: &Ex) -> bool {
    match (a, b) {
        (Ex::ULit(x, w), Ex::ULit(y, v)) => x == y && w == v,
        (Ex::SLit(x, w), Ex::SLit(y, v)) => x == y && w == v,
        (Ex::Ref(x), Ex::Ref(y)) => Rc::ptr_eq(x, y),
        (Ex::Field(x, n), Ex::Field(y, m)) => n == m && same_ex(x, y),
        (Ex::Idx(x, n), Ex::Idx(y, m)) => n == m && same_ex(x, y),
        (Ex::Acc(x, i), Ex::Acc(y, j)) => same_ex(i, j) && same_ex(x, y),
        (Ex::Mux(s, x, y), Ex::Mux(t, v, w)) => same_ex(s, t) && same_ex(x, v) && same_ex(y, w),
        (Ex::Valid(s, x), Ex::Valid(t, y)) => same_ex(s, t) && same_ex(x, y),
        (Ex::Op(o, x, p), Ex::Op(q, y, r)) => o == q && p == r && x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_ex(x, y)),
        _ => false,
    }
}

/// Are statements (without infos, declarations and conditionals) the same?
pub fn same_st(a: &St, b: &St) -> bool {
    let all = |v: &[&Ex], w: &[&Ex]| v.len() == w.len() && v.iter().zip(w).all(|(x, y)| same_ex(x, y));
    match (&a.k, &b.k) {
        (StK::Conn(..), StK::Conn(..)) | (StK::Part(..), StK::Part(..)) | (StK::Inval(_), StK::Inval(_)) | (StK::Attach(_), StK::Attach(_)) =>
            all(&st_exprs(a), &st_exprs(b)),
        (StK::Skip, StK::Skip) => true,
        _ => false,
    }
}
