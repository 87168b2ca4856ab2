//! Rendering of model circuits as FIRRTL text, with free choice of spelling
//! and layout

use num_bigint::{BigInt, Sign};
use std::rc::Rc;

use crate::gen::{excess, excess_flat};
use crate::model::*;
use crate::rng::Rng;

/// A source line: nesting depth of its block and tokens
#[derive(Clone, Debug)]
pub struct Line {
    /// Identity of the block the line is part of, and the blocks around it
    pub path: Vec<usize>,
    pub toks: Vec<String>,
}

/// Choices of spelling
#[derive(Clone, Copy)]
pub struct Spell {
    /// Vary the spelling at all
    pub vary: bool,
    /// Percentage of characters escaped without need
    pub esc: usize,
}

pub struct W<'r> {
    pub r: &'r mut Rng,
    pub sp: Spell,
    pub lines: Vec<Line>,
    path: Vec<usize>,
    next: usize,
}

type Toks = Vec<String>;

fn t(v: &mut Toks, s: &str) {
    v.push(s.to_string());
}

impl<'r> W<'r> {
    pub fn new(r: &'r mut Rng, vary: bool) -> Self {
        W { r, sp: Spell { vary, esc: 4 }, lines: vec![], path: vec![], next: 1 }
    }
    fn coin(&mut self, pct: usize) -> bool {
        self.sp.vary && self.r.chance(pct, 100)
    }
    fn push(&mut self, toks: Toks) {
        self.lines.push(Line { path: self.path.clone(), toks });
    }
    fn enter(&mut self) {
        self.path.push(self.next);
        self.next += 1;
    }
    fn leave(&mut self) {
        self.path.pop();
    }

    // ------------------------------------------------------------ strings
    /// Escape a string's characters; `must` need an escape
    fn escaped(&mut self, s: &str, must: &[char], fmt: bool) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                '%' if fmt => o.push_str("%%"),
                c if must.contains(&c) => {
                    o.push('\\');
                    o.push(c);
                }
                // A needless escape, for characters without a special meaning
                c if c != 'n' && c != 't' && c != '\r' && self.coin(self.sp.esc) => {
                    o.push('\\');
                    o.push(c);
                }
                c => o.push(c),
            }
        }
        o
    }
    fn info_tok(&mut self, v: &mut Toks, i: &Option<String>) {
        if let Some(i) = i {
            let e = self.escaped(i, &[']', '\\'], false);
            v.push(format!("@[{}]", e));
        }
    }

    // ------------------------------------------------------------ scalars
    fn width(&mut self, v: &mut Toks, w: &Option<u16>) {
        if let Some(w) = w {
            v.push(format!("<{}>", w));
        }
    }
    fn radix(&mut self, x: &BigInt) -> String {
        if !self.coin(50) {
            return x.to_string();
        }
        let (sign, mag) = (x.sign(), x.magnitude().clone());
        let s = if sign == Sign::Minus { "-" } else { "" };
        let z = if self.coin(20) { "0".repeat(1 + self.r.below(3)) } else { String::new() };
        match self.r.below(4) {
            0 => format!("\"b{}{}{}\"", s, z, mag.to_str_radix(2)),
            1 => format!("\"o{}{}{}\"", s, z, mag.to_str_radix(8)),
            2 => format!("\"h{}{}{}\"", s, z, mag.to_str_radix(16)),
            _ => format!("\"h{}{}{}\"", s, z, mag.to_str_radix(16).to_uppercase()),
        }
    }
    fn double(&mut self, d: f64) -> String {
        let plain = |d: f64| {
            let s = format!("{}", d);
            if s.contains('.') { s } else { format!("{}.0", s) }
        };
        if !self.sp.vary {
            return plain(d);
        }
        match self.r.below(5) {
            4 => {
                // exponents with leading zeros
                let s = format!("{:.17E}", d);
                let (m, e) = s.split_once('E').unwrap();
                let (g, e) = match e.strip_prefix('-') { Some(e) => ("-", e), None => (*self.r.pick(&["", "+"]), e) };
                format!("{}E{}{}{}", m, g, "0".repeat(self.r.below(4)), e)
            }
            0 => format!("{:.17E}", d),
            1 => {
                // shortest digits, scientific
                let s = format!("{:E}", d);
                let (m, e) = s.split_once('E').unwrap();
                if m.contains('.') { s.clone() } else { format!("{}.0E{}", m, e) }
            }
            2 => {
                // trailing zeros
                format!("{}00", plain(d))
            }
            _ => plain(d),
        }
    }

    // -------------------------------------------------------------- types
    pub fn gr(&mut self, v: &mut Toks, g: &Gr) {
        match g {
            Gr::U(w) => { t(v, "UInt"); self.width(v, w) }
            Gr::S(w) => { t(v, "SInt"); self.width(v, w) }
            Gr::F(w, p) => {
                t(v, "Fixed");
                self.width(v, w);
                if let Some(p) = p {
                    v.push(format!("<<{}>>", p));
                }
            }
            Gr::Clock => t(v, "Clock"),
            Gr::Reset => t(v, "Reset"),
            Gr::AReset => t(v, "AsyncReset"),
            Gr::A(w) => { t(v, "Analog"); self.width(v, w) }
        }
    }
    pub fn ty(&mut self, v: &mut Toks, ty: &Ty) {
        match ty {
            Ty::G(g) => self.gr(v, g),
            Ty::V(b, n) => {
                self.ty(v, b);
                t(v, "[");
                v.push(n.to_string());
                t(v, "]");
            }
            Ty::B(fs) => {
                t(v, "{");
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 {
                        t(v, ",");
                    }
                    if f.flip {
                        t(v, "flip");
                    }
                    v.push(f.name.clone());
                    t(v, ":");
                    self.ty(v, &f.ty);
                }
                t(v, "}");
            }
        }
    }

    // -------------------------------------------------------- expressions
    pub fn ex(&mut self, v: &mut Toks, e: &Ex) {
        match e {
            Ex::ULit(x, w) => {
                t(v, "UInt");
                if !(x.bits() > 0 && x.bits() == *w as u64 && self.coin(60)) {
                    v.push(format!("<{}>", w));
                }
                t(v, "(");
                let s = self.radix(&BigInt::from(x.clone()));
                v.push(s);
                t(v, ")");
            }
            Ex::SLit(x, w) => {
                t(v, "SInt");
                let min = crate::typing::min_signed_width(x);
                let plain = x.bits() + 1 == min;
                if !(plain && min == *w as u64 && self.coin(60)) {
                    v.push(format!("<{}>", w));
                }
                t(v, "(");
                let s = self.radix(x);
                v.push(s);
                t(v, ")");
            }
            Ex::Ref(r) => v.push(r.name.clone()),
            Ex::Field(b, n) => {
                self.ex(v, b);
                t(v, ".");
                v.push(n.clone());
            }
            Ex::Idx(b, i) => {
                self.ex(v, b);
                t(v, "[");
                v.push(i.to_string());
                t(v, "]");
            }
            Ex::Acc(b, i) => {
                self.ex(v, b);
                t(v, "[");
                self.ex(v, i);
                t(v, "]");
            }
            Ex::Mux(s, a, b) => self.call(v, "mux", &[s, a, b], &[]),
            Ex::Valid(s, a) => self.call(v, "validif", &[s, a], &[]),
            Ex::Op(o, es, ps) => {
                let es: Vec<&Ex> = es.iter().collect();
                self.call(v, OPS[*o].0, &es, ps)
            }
        }
    }
    fn call(&mut self, v: &mut Toks, n: &str, es: &[&Ex], ps: &[i64]) {
        t(v, n);
        t(v, "(");
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                t(v, ",");
            }
            self.ex(v, e);
        }
        for p in ps {
            t(v, ",");
            v.push(p.to_string());
        }
        t(v, ")");
    }

    // --------------------------------------------------------- statements
    fn oname(&mut self, v: &mut Toks, n: &Option<String>) {
        if let Some(n) = n {
            t(v, ":");
            v.push(n.clone());
        }
    }
    pub fn sts(&mut self, s: &[St]) {
        for x in s {
            self.st(x);
        }
    }
    fn block(&mut self, s: &[St]) {
        self.enter();
        if s.is_empty() {
            self.push(vec!["skip".into()]);
        }
        self.sts(s);
        self.leave();
    }
    pub fn st(&mut self, s: &St) {
        let mut v: Toks = vec![];
        match &s.k {
            StK::Conn(a, b) | StK::Part(a, b) => {
                self.ex(&mut v, a);
                t(&mut v, if let StK::Conn(..) = s.k { "<=" } else { "<-" });
                self.ex(&mut v, b);
            }
            StK::Skip => t(&mut v, "skip"),
            StK::Decl(e) => return self.decl(e, &s.info),
            StK::SMem(m) => {
                t(&mut v, if m.seq.is_some() { "smem" } else { "cmem" });
                v.push(m.name.clone());
                t(&mut v, ":");
                self.ty(&mut v, &m.ty);
                if let Some(Some(r)) = m.seq {
                    t(&mut v, ",");
                    t(&mut v, ruw(r));
                }
            }
            StK::Inval(e) => {
                self.ex(&mut v, e);
                t(&mut v, "is");
                t(&mut v, "invalid");
            }
            StK::Attach(es) => {
                let es: Vec<&Ex> = es.iter().collect();
                self.call(&mut v, "attach", &es, &[]);
            }
            StK::When(c, a, b) => return self.when(vec![], c, a, b, &s.info),
            StK::Stop(n, c, g, code) => {
                self.call(&mut v, "stop", &[c, g], &[*code]);
                self.oname(&mut v, n);
            }
            StK::Print(n, c, g, m) => {
                t(&mut v, "printf");
                t(&mut v, "(");
                self.ex(&mut v, c);
                t(&mut v, ",");
                self.ex(&mut v, g);
                t(&mut v, ",");
                let mut f = String::from("\"");
                for p in m {
                    match p {
                        PE::Lit(s) => {
                            let e = self.escaped(s, &['"', '\\'], true);
                            f.push_str(&e);
                        }
                        PE::Val(_, x) => f.push_str(c_fm(*x)),
                    }
                }
                f.push('"');
                v.push(f);
                for p in m {
                    if let PE::Val(e, _) = p {
                        t(&mut v, ",");
                        self.ex(&mut v, e);
                    }
                }
                t(&mut v, ")");
                self.oname(&mut v, n);
            }
        }
        self.info_tok(&mut v, &s.info);
        self.push(v);
    }
    fn when(&mut self, mut v: Toks, c: &Ex, a: &[St], b: &[St], info: &Option<String>) {
        t(&mut v, "when");
        self.ex(&mut v, c);
        t(&mut v, ":");
        self.info_tok(&mut v, info);
        self.push(v);
        self.block(a);
        if let [St { k: StK::When(c, a, b), info }] = b {
            if !self.coin(30) {
                return self.when(vec!["else".into()], c, a, b, info);
            }
        }
        if !b.is_empty() {
            self.push(vec!["else".into(), ":".into()]);
            self.block(b);
        }
    }
    pub fn decl(&mut self, e: &Rc<Ent>, info: &Option<String>) {
        let mut v: Toks = vec![];
        match &e.k {
            EntK::Port(_) => panic!("harness: port declared by a statement"),
            EntK::Wire(ty) => {
                t(&mut v, "wire");
                v.push(e.name.clone());
                t(&mut v, ":");
                self.ty(&mut v, ty);
            }
            EntK::Reg(ty, c, r) => {
                t(&mut v, "reg");
                v.push(e.name.clone());
                t(&mut v, ":");
                self.ty(&mut v, ty);
                t(&mut v, ",");
                self.ex(&mut v, c);
                if let Some((a, b)) = r {
                    for x in ["with", ":", "(", "reset", "=>", "("] {
                        t(&mut v, x);
                    }
                    self.ex(&mut v, a);
                    t(&mut v, ",");
                    self.ex(&mut v, b);
                    t(&mut v, ")");
                    t(&mut v, ")");
                }
            }
            EntK::Node(x) => {
                t(&mut v, "node");
                v.push(e.name.clone());
                t(&mut v, "=");
                self.ex(&mut v, x);
            }
            EntK::Mem(m) => {
                t(&mut v, "mem");
                v.push(e.name.clone());
                t(&mut v, ":");
                self.info_tok(&mut v, info);
                self.push(v);
                self.enter();
                let mut ls: Vec<(usize, Toks)> = vec![];
                let mut l = |k: usize, key: &str, val: Toks| {
                    let mut v: Toks = vec![key.into(), "=>".into()];
                    v.extend(val);
                    ls.push((k, v));
                };
                let mut ty = vec![];
                self.ty(&mut ty, &m.ty);
                l(0, "data-type", ty);
                l(1, "depth", vec![m.depth.to_string()]);
                if !(m.rl == 0 && self.coin(60)) {
                    l(2, "read-latency", vec![m.rl.to_string()]);
                }
                if !(m.wl == 0 && self.coin(60)) {
                    l(3, "write-latency", vec![m.wl.to_string()]);
                }
                if !(m.ruw == Ruw::Undef && self.coin(60)) {
                    l(4, "read-under-write", vec![ruw(m.ruw).into()]);
                }
                if self.sp.vary && self.r.chance(1, 2) {
                    self.r.shuffle(&mut ls);
                }
                // Insert ports, in order, at arbitrary places
                let mut at = if self.sp.vary { 0 } else { 2 };
                for (n, d) in &m.ports {
                    if self.sp.vary {
                        at += self.r.below(ls.len() - at + 1);
                    }
                    let key = match d { Dir::R => "reader", Dir::W => "writer", Dir::RW => "readwriter" };
                    ls.insert(at, (9, vec![key.into(), "=>".into(), n.clone()]));
                    at += 1;
                }
                for (_, v) in ls {
                    self.push(v);
                }
                self.leave();
                return;
            }
            EntK::MPort(m, d, a, c) => {
                t(&mut v, match d { Some(Dir::R) => "read", Some(Dir::W) => "write", Some(Dir::RW) => "rdwr", None => "infer" });
                t(&mut v, "mport");
                v.push(e.name.clone());
                t(&mut v, "=");
                v.push(m.name.clone());
                t(&mut v, "[");
                self.ex(&mut v, a);
                t(&mut v, "]");
                t(&mut v, ",");
                self.ex(&mut v, c);
            }
            EntK::Inst(m) => {
                t(&mut v, "inst");
                v.push(e.name.clone());
                t(&mut v, "of");
                v.push(m.name.clone());
            }
        }
        self.info_tok(&mut v, info);
        self.push(v);
    }

    // ------------------------------------------------------------ modules
    pub fn port_toks(&mut self, p: &Port) -> Toks {
        let mut v = vec![];
        t(&mut v, if p.out { "output" } else { "input" });
        v.push(p.name.clone());
        t(&mut v, ":");
        self.ty(&mut v, &p.ty);
        self.info_tok(&mut v, &p.info);
        v
    }
    pub fn module(&mut self, m: &Module) {
        let mut v: Toks = vec![];
        t(&mut v, if let MK::Reg(_) = m.k { "module" } else { "extmodule" });
        v.push(m.name.clone());
        t(&mut v, ":");
        self.info_tok(&mut v, &m.info);
        self.push(v);
        self.enter();
        for p in &m.ports {
            let v = self.port_toks(p);
            self.push(v);
        }
        match &m.k {
            MK::Reg(s) => self.sts(s),
            MK::Ext(d, ps) => {
                if let Some(d) = d {
                    self.push(vec!["defname".into(), "=".into(), d.clone()]);
                }
                let mut ps: Vec<_> = ps.iter().collect();
                if self.sp.vary {
                    self.r.shuffle(&mut ps);
                }
                for (k, x) in ps {
                    let val = self.pv(x);
                    self.push(vec!["parameter".into(), k.clone(), "=".into(), val]);
                }
            }
        }
        self.leave();
    }
    pub fn pv(&mut self, x: &PV) -> String {
        match x {
            PV::Int(i) => i.to_string(),
            PV::Dbl(d) => self.double(*d),
            PV::Str(s) => {
                let q = if self.coin(50) { '\'' } else { '"' };
                let e = self.escaped(s, &[q, '\\'], false);
                format!("{}{}{}", q, e, q)
            }
        }
    }
    pub fn prog(&mut self, p: &Prog) {
        let mut v: Toks = vec!["circuit".into(), p.top.clone(), ":".into()];
        self.info_tok(&mut v, &p.info);
        self.push(v);
        self.enter();
        for m in &p.modules {
            self.module(m);
        }
        self.leave();
    }
}

fn ruw(r: Ruw) -> &'static str {
    match r { Ruw::Old => "old", Ruw::New => "new", Ruw::Undef => "undefined" }
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

/// Layout parameters
#[derive(Clone)]
pub struct Lay {
    pub vary: bool,
    pub tabs: bool,
    pub crlf: bool,
    pub comments: bool,
    /// Excessive amounts now and then
    pub big: bool,
}

impl Lay {
    pub fn plain() -> Self {
        Lay { vary: false, tabs: false, crlf: false, comments: false, big: false }
    }
    pub fn random(r: &mut Rng) -> Self {
        Lay { vary: true, tabs: r.chance(1, 2), crlf: r.chance(1, 2), comments: r.chance(2, 3), big: r.chance(1, 8) }
    }
}

fn spaces(r: &mut Rng, l: &Lay, min: usize) -> String {
    let n = match r.below(10) { 0..=3 => min, 4..=7 => min.max(1), 8 => min + r.below(3), _ => min + r.below(12) };
    let n = if l.big && r.chance(1, 40) { excess_flat(r) } else { n };
    (0..n).map(|_| if l.tabs && r.chance(1, 3) { '\t' } else { ' ' }).collect()
}

fn comment(r: &mut Rng, l: &Lay) -> String {
    const P: &[&str] = &["", " ", " a comment", ";", " circuit X:", " @[x]", " \"", " '", "é变", " <= y", "skip", "\t", " else:", "]", ")", " \\", "%d"];
    let mut s = String::from(";");
    let n = if l.big && r.chance(1, 4) { excess_flat(r) } else { r.below(3) };
    for _ in 0..n {
        s.push_str(r.pick(P));
    }
    s
}

fn eol(r: &mut Rng, l: &Lay) -> &'static str {
    if l.crlf && r.chance(1, 2) { "\r\n" } else { "\n" }
}

fn filler(r: &mut Rng, l: &Lay, out: &mut String) {
    if l.vary && r.chance(1, 6) {
        let n = if l.big && r.chance(1, 4) { excess_flat(r) } else { 1 + r.below(3) };
        for _ in 0..n {
            out.push_str(&spaces(r, l, 0));
            if l.comments && r.chance(1, 2) {
                out.push_str(&comment(r, l));
            }
            out.push_str(eol(r, l));
        }
    }
}

/// Render one line's tokens without indentation and line end
pub fn line_str(r: &mut Rng, l: &Lay, toks: &[String]) -> String {
    let mut out = String::new();
    for (i, tok) in toks.iter().enumerate() {
        if i > 0 {
            let prev = toks[i - 1].chars().last().unwrap_or(' ');
            let next = tok.chars().next().unwrap_or(' ');
            let need = is_word(prev) && is_word(next);
            if l.vary {
                out.push_str(&spaces(r, l, need as usize));
            } else {
                // conventional spacing
                let tight = matches!(tok.as_str(), "(" | ")" | "," | "." | "[" | "]" | ":")
                    || matches!(toks[i - 1].as_str(), "(" | "." | "[" | "{")
                    || tok.starts_with('<') && tok.ends_with('>')
                    || tok == "}";
                if need || !tight {
                    out.push(' ');
                }
            }
        }
        out.push_str(tok);
    }
    out
}

/// Lay out lines. Returns the text and, for each line, its line number (from 1)
pub fn layout(r: &mut Rng, l: &Lay, lines: &[Line]) -> (String, Vec<usize>) {
    use std::collections::HashMap;
    let mut ind: HashMap<usize, usize> = HashMap::new();
    let mut out = String::new();
    let mut nums = vec![];
    let (mut at, mut seen) = (0, 0);
    for line in lines {
        filler(r, l, &mut out);
        let mut cur = 0;
        for b in &line.path {
            cur = match ind.get(b) {
                Some(i) => *i,
                None => {
                    let step = if l.vary { match r.below(8) { 0 => 1, 1..=3 => 2, 4 => 3, 5 => 4, 6 => 8, _ => 1 + r.below(12) } } else { 2 };
                    let step = if l.big && r.chance(1, 4) { excess(r) } else { step };
                    ind.insert(*b, cur + step);
                    cur + step
                }
            };
        }
        at += out[seen..].matches('\n').count();
        seen = out.len();
        nums.push(at + 1);
        out.push_str(&" ".repeat(cur));
        out.push_str(&line_str(r, l, &line.toks));
        if l.vary {
            out.push_str(&spaces(r, l, 0));
            if l.comments && r.chance(1, 4) {
                out.push_str(&comment(r, l));
            }
        }
        out.push_str(eol(r, l));
    }
    filler(r, l, &mut out);
    (out, nums)
}

/// Lines of a program
pub fn prog_lines(r: &mut Rng, vary: bool, p: &Prog) -> Vec<Line> {
    let mut w = W::new(r, vary);
    w.prog(p);
    w.lines
}

/// Text of a program with random spelling and layout
pub fn prog_text(r: &mut Rng, p: &Prog) -> String {
    let lines = prog_lines(r, true, p);
    let l = if r.chance(1, 4) { Lay::plain() } else { Lay::random(r) };
    layout(r, &l, &lines).0
}

/// Text of a program with plain spelling and layout
pub fn prog_plain(r: &mut Rng, p: &Prog) -> String {
    let lines = prog_lines(r, false, p);
    layout(r, &Lay::plain(), &lines).0
}
