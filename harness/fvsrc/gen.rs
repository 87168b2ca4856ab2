//! Random generation of model circuits

use num_bigint::{BigInt, BigUint};
use std::collections::HashSet;
use std::rc::Rc;

use crate::model::*;
use crate::rng::Rng;
use crate::typing;

pub const KEYWORDS: &[&str] = &[
    "circuit", "module", "extmodule", "input", "output", "wire", "reg", "node", "mem", "cmem", "smem",
    "read", "write", "rdwr", "infer", "mport", "inst", "of", "with", "reset", "skip", "is", "invalid",
    "attach", "stop", "printf", "when", "defname", "parameter", "flip", "UInt", "SInt", "Fixed",
    "Clock", "Reset", "AsyncReset", "Analog", "mux", "validif", "old", "new", "undefined", "depth",
    "reader", "writer", "readwriter", "data", "add", "cat", "bits", "head", "tail", "asUInt", "asFixed", "cvt",
    "shl", "andr", "neg", "setp", "dshr",
];

const FEW: &[&str] = &["a", "b", "clk", "add", "of", "x", "data", "A", "_", "m", "mask", "reset"];

const UNI: &[&str] = &["é", "变量", "ß", "Ω", "ñandú", "ж", "æ_1", "ａ", "名", "ð2", "ﬁ", "𝒳", "x变", "ö0"];

const BW: &[u16] = &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65534, 65535];
const BP: &[i16] = &[0, 1, -1, 2, -2, 3, 4, 7, 8, -8, 15, 16, 100, -100, 255, 256, 32767, -32768, 32766, -32767];

#[derive(Clone)]
pub struct Cfg {
    pub modules: usize,
    pub stmts: usize,
    pub depth: usize,
    pub when_depth: usize,
    pub shadow: bool,
    /// Names equal to keywords
    pub kw: bool,
    /// Names of any identifier characters
    pub uni: bool,
    /// Probability (percent) of infos
    pub info: usize,
    pub exts: bool,
    /// Allow infos and strings with any characters
    pub hostile: bool,
    /// Only modules reachable from the top module
    pub reach: bool,
    /// Budget of expanded references per module
    pub budget: i64,
    /// Left hand sides are references
    pub lhs_ref: bool,
    /// Only what the text can express without normalisation
    pub norm: bool,
    /// Names to choose from, everywhere
    pub pool: &'static [&'static str],
    /// Probability (percent) of an excess in one dimension
    pub spot: usize,
}

/// Dimensions which may be excessive
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Dim { Ports, Stmts, When, Chain, Branch, Fields, Types, Exprs, MemPorts, Msg, Attach, Params, Modules, Text, Name, Lit }

pub const DIMS: &[Dim] = &[Dim::Ports, Dim::Stmts, Dim::When, Dim::Chain, Dim::Branch, Dim::Fields, Dim::Types, Dim::Exprs, Dim::MemPorts,
    Dim::Msg, Dim::Attach, Dim::Params, Dim::Modules, Dim::Text, Dim::Name, Dim::Lit];

/// A number beyond the usual
pub fn excess(r: &mut Rng) -> usize {
    match r.below(8) {
        0..=2 => 9 + r.below(32),
        3..=5 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129]),
        6 => 40 + r.below(100),
        _ => *r.pick(&[200, 254, 255, 256, 257, 300]),
    }
}

/// A number beyond the usual, for what neither nests nor is costly
pub fn excess_flat(r: &mut Rng) -> usize {
    if r.chance(1, 24) {
        *r.pick(&[400, 500, 511, 512, 513, 600, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000])
    } else {
        excess(r)
    }
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { modules: 4, stmts: 8, depth: 3, when_depth: 3, shadow: false, kw: true, uni: true, info: 35,
            exts: true, hostile: true, reach: false, budget: 3000, lhs_ref: false, norm: false, pool: &[], spot: 12 }
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    /// Dimension which is excessive, and how often this may yet happen
    spot: Option<(Dim, usize, usize)>,
}

#[derive(Default, Clone)]
pub struct Env {
    pub ents: Vec<(Rc<Ent>, Option<Ty>, i64)>,
    pub smems: Vec<Rc<SMem>>,
    pub mods: Vec<(Rc<Module>, i64)>,
    pub names: HashSet<String>,
    pub mnames: HashSet<String>,
    pub budget: i64,
    pub cost: i64,
}

pub fn ex_cost(e: &Ex, cost: &dyn Fn(&Rc<Ent>) -> i64) -> i64 {
    let mut s = 0;
    walk_ex(e, &mut |e| s += if let Ex::Ref(r) = e { cost(r) } else { 1 });
    s
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, mut c: Cfg) -> Self {
        if c.pool.is_empty() && r.chance(1, 12) {
            // The same names all over, in all name spaces
            c.pool = FEW;
        }
        let spot = if r.chance(c.spot, 100) {
            let d = *r.pick(DIMS);
            let n = excess_flat(r);
            // Nesting is limited by the stack
            let n = match d {
                Dim::When | Dim::Types | Dim::Exprs => n.min(72),
                Dim::Chain => n.min(40),
                Dim::Modules => n.min(100),
                // Widths are representable
                Dim::Lit if n > 300 => (n * 13).min(65000),
                Dim::Text | Dim::Name if n > 300 => n * if r.chance(1, 3) { 17 } else { 1 },
                Dim::Text | Dim::Name => n * 5,
                Dim::Lit => n * 8,
                _ => n,
            };
            Some((d, n, if d == Dim::Modules || d == Dim::Stmts || n > 300 { 1 } else { 1 + r.below(3) }))
        } else {
            None
        };
        G { r, c, spot }
    }
    /// The size to use for a dimension: the usual one or an excessive one
    fn size(&mut self, d: Dim, usual: usize) -> usize {
        match self.spot {
            Some((x, n, k)) if x == d && k > 0 && self.r.chance(1, match d { Dim::Name => 20, Dim::Text | Dim::Lit => 6, _ => 2 }) => {
                self.spot = Some((x, n, k - 1));
                n
            }
            _ => usual,
        }
    }
    fn is_excess(&mut self, d: Dim) -> Option<usize> {
        match self.size(d, usize::MAX) { usize::MAX => None, n => Some(n) }
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.r.chance(p, 100)
    }

    // ------------------------------------------------------------- names
    pub fn raw_ident(&mut self) -> String {
        const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$";
        const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$0123456789";
        if !self.c.pool.is_empty() {
            return self.r.pick(self.c.pool).to_string();
        }
        if let Some(n) = self.is_excess(Dim::Name) {
            let mut s = String::from("l");
            for _ in 0..n {
                s.push(*self.r.pick(REST) as char);
            }
            return s;
        }
        let x = self.r.below(100);
        match x {
            0..=54 => {
                let mut s = String::new();
                s.push(*self.r.pick(FIRST) as char);
                for _ in 0..self.r.below(4) {
                    s.push(*self.r.pick(REST) as char);
                }
                s
            }
            55..=66 => {
                let k = *self.r.pick(KEYWORDS);
                let s = *self.r.pick(&["x", "1", "_", "er", "$", "0a", "_is", "s", "B"]);
                format!("{}{}", k, s)
            }
            67..=71 => format!("{}{}", self.r.pick(&["x", "_", "$", "a1", "is", "u"]), self.r.pick(KEYWORDS)),
            72..=80 if self.c.kw => self.r.pick(KEYWORDS).to_string(),
            81..=87 if self.c.uni => {
                let mut s = self.r.pick(UNI).to_string();
                if self.r.chance(1, 2) {
                    s.push_str(self.r.pick(&["1", "_", "a", "$", "٣"]));
                }
                s
            }
            88..=90 => {
                let n = 20 + self.r.below(200);
                let mut s = String::from("l");
                for _ in 0..n {
                    s.push(*self.r.pick(REST) as char);
                }
                s
            }
            91..=94 => self.r.pick(&["_", "$", "__", "_0", "$1", "_T_3", "T$"]).to_string(),
            _ => self.r.pick(&["a", "b", "c", "x", "y", "io", "clk", "rst", "in", "out", "A", "B"]).to_string(),
        }
    }
    fn uniq(&mut self, used: &mut HashSet<String>, shadow: bool) -> String {
        loop {
            let n = self.raw_ident();
            if n == "else" {
                continue;
            }
            if used.insert(n.clone()) || (shadow && self.r.chance(1, 2)) {
                return n;
            }
            if self.r.chance(1, 3) {
                let n = format!("{}_{}", n, self.r.below(1000 + 4 * used.len()));
                if used.insert(n.clone()) {
                    return n;
                }
            }
        }
    }
    pub fn ident(&mut self, used: &mut HashSet<String>) -> String {
        self.uniq(used, false)
    }
    pub fn field_name(&mut self) -> String {
        match self.r.below(10) {
            0 => self.r.pick(&["0", "1", "2", "10", "007", "1a", "0_"]).to_string(),
            1 => self.r.pick(&["flip", "else", "UInt", "is", "with", "flipped", "flip_"]).to_string(),
            2..=5 => self.r.pick(&["a", "b", "c", "valid", "ready", "bits", "data", "addr", "en", "clk", "mask"]).to_string(),
            _ => self.raw_ident(),
        }
    }

    // ------------------------------------------------------------- scalars
    pub fn w16(&mut self) -> u16 {
        match self.r.below(10) {
            0..=4 => self.r.below(70) as u16,
            5..=8 => *self.r.pick(BW),
            _ => self.r.u64() as u16,
        }
    }
    pub fn ow16(&mut self) -> Option<u16> {
        if self.pct(25) { None } else { Some(self.w16()) }
    }
    pub fn p16(&mut self) -> i16 {
        match self.r.below(10) {
            0..=4 => self.r.range(-20, 20) as i16,
            5..=8 => *self.r.pick(BP),
            _ => self.r.u64() as i16,
        }
    }
    pub fn depth64(&mut self) -> u64 {
        match self.r.below(10) {
            0..=2 => self.r.below(20) as u64,
            3..=5 => {
                let k = self.r.below(64);
                let d = self.r.range(-1, 1);
                (1u64 << k).wrapping_add(d as u64)
            }
            6 => u64::MAX - self.r.below(2) as u64,
            7 => *self.r.pick(&[0u64, 1, 2, 1024, 65535, 65536, 65537, 1 << 32, 1 << 63]),
            _ => self.r.u64() >> self.r.below(64),
        }
    }
    pub fn i64v(&mut self) -> i64 {
        match self.r.below(8) {
            0..=2 => self.r.range(-20, 300),
            3 => *self.r.pick(&[i64::MAX, i64::MIN, 0, -1, 1, i64::MAX - 1, i64::MIN + 1, 1 << 31, -(1 << 31), 1 << 32, 1 << 53]),
            _ => (self.r.u64() as i64) >> self.r.below(64),
        }
    }
    pub fn dbl(&mut self) -> f64 {
        match self.r.below(8) {
            0 => *self.r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::MIN, 1e15, 1e16, 1e17, 123456789.0, 2.5e-7]),
            1 => self.r.range(-1000, 1000) as f64,
            2 => self.r.range(-100000, 100000) as f64 / 64.0,
            3 => self.r.range(-100000, 100000) as f64 / 1000.0,
            _ => loop {
                let d = f64::from_bits(self.r.u64());
                if d.is_finite() {
                    return d;
                }
            },
        }
    }

    // ------------------------------------------------------------- strings
    pub fn text(&mut self) -> String {
        if !self.c.hostile {
            let n = self.r.below(3);
            return (0..=n).map(|_| *self.r.pick(&["a", "Foo.scala", " ", "12:3", "x", ":"])).collect();
        }
        const PIECES: &[&str] = &[
            "a", "b", "Foo.scala 12:34", " ", "  ", "]", "[", "\\", "\"", "'", ";", "%", "%d", "%%", "%x", "@[", "\n", "\t", "\r",
            "\\n", "\\t", "\\]", "\\\\", "n", "t", "é", "变", "😀", "\u{0}", "\u{7f}", "\u{feff}", "\u{2028}", "\u{301}", "{}", "<=", ":", ",",
            "(", ")", "; c", "\r\n", "\n  ", "circuit X:", "skip", "0", "\\\"", "%b", "%c", "]\\", "\\]x", "\u{202e}", "\u{85}", "\u{a0}",
        ];
        let n = match self.r.below(10) { 0 => 0, 1..=4 => 1 + self.r.below(2), 5..=8 => 1 + self.r.below(6), _ => 1 + self.r.below(30) };
        let n = self.size(Dim::Text, n);
        let mut s = String::new();
        for _ in 0..n {
            if self.pct(85) {
                s.push_str(self.r.pick(PIECES));
            } else {
                let c = match self.r.below(3) {
                    0 => char::from_u32(self.r.below(128) as u32),
                    1 => char::from_u32(self.r.below(0x3000) as u32),
                    _ => char::from_u32(self.r.below(0x110000) as u32),
                };
                s.push(c.unwrap_or('\u{fffd}'));
            }
        }
        s
    }
    pub fn info(&mut self) -> Option<String> {
        if self.pct(self.c.info) { Some(self.text()) } else { None }
    }

    // --------------------------------------------------------------- types
    pub fn gr(&mut self) -> Gr {
        match self.r.below(12) {
            0..=3 => Gr::U(self.ow16()),
            4..=5 => Gr::S(self.ow16()),
            6..=7 => {
                let w = self.ow16();
                Gr::F(w, if self.pct(25) { None } else { Some(self.p16()) })
            }
            8 => Gr::Clock,
            9 => Gr::Reset,
            10 => Gr::AReset,
            _ => Gr::A(self.ow16()),
        }
    }
    pub fn vlen(&mut self) -> u16 {
        match self.r.below(8) { 0..=5 => self.r.below(9) as u16, _ => self.w16() }
    }
    pub fn ty(&mut self, depth: usize) -> Ty {
        if depth > 0 {
            if let Some(n) = self.is_excess(Dim::Types) {
                let mut t = self.ty(depth - 1);
                let what = self.r.below(3);
                for _ in 0..n {
                    t = if what == 0 || what == 1 && self.r.chance(1, 2) {
                        let n = self.vlen();
                        Ty::V(Rc::new(t), n)
                    } else {
                        let f = Fld { name: self.field_name(), flip: self.pct(50), ty: t };
                        let mut v = vec![f];
                        if self.pct(30) {
                            let n = self.field_name();
                            if n != v[0].name {
                                v.insert(self.r.below(2), Fld { name: n, flip: self.pct(50), ty: Ty::G(self.gr()) });
                            }
                        }
                        Ty::B(v)
                    };
                }
                return t;
            }
        }
        match if depth == 0 { 0 } else { self.r.below(10) } {
            0..=4 => Ty::G(self.gr()),
            5..=6 => {
                let t = self.ty(depth - 1);
                Ty::V(Rc::new(t), self.vlen())
            }
            _ => {
                let n = match self.r.below(12) { 0 => 0, 1..=9 => 1 + self.r.below(4), _ => 1 + self.r.below(9) };
                let n = self.size(Dim::Fields, n);
                let mut v: Vec<Fld> = vec![];
                for i in 0..n {
                    let mut name = self.field_name();
                    if n > 9 {
                        name.push_str(&i.to_string());
                    }
                    if v.iter().any(|f| f.name == name) {
                        continue;
                    }
                    let flip = self.pct(35);
                    let ty = self.ty(depth - 1);
                    v.push(Fld { name, flip, ty });
                }
                Ty::B(v)
            }
        }
    }

    // --------------------------------------------------------- expressions
    pub fn ulit(&mut self) -> Ex {
        let bits = match self.r.below(10) { 0..=5 => self.r.below(9), 6..=7 => self.r.below(66), 8 => self.r.below(200), _ => self.r.below(600) };
        let bits = self.size(Dim::Lit, bits);
        let v = self.big(bits);
        let need = v.bits() as u16;
        let w = match self.r.below(4) { 0 => need, 1 => need.saturating_add(self.r.below(4) as u16), 2 => need.max(self.w16()), _ => need.max(1) };
        Ex::ULit(v, w)
    }
    pub fn big(&mut self, bits: usize) -> BigUint {
        let mut v = BigUint::from(0u8);
        let mut n = bits;
        while n > 0 {
            let k = n.min(32);
            v = (v << k) + BigUint::from((self.r.u64() & ((1u64 << k) - 1)) as u32);
            n -= k;
        }
        match self.r.below(8) {
            0 if bits > 0 => (BigUint::from(1u8) << bits) - 1u8,
            1 if bits > 0 => BigUint::from(1u8) << (bits - 1),
            _ => v,
        }
    }
    pub fn slit(&mut self) -> Ex {
        let bits = match self.r.below(10) { 0..=5 => self.r.below(9), 6..=7 => self.r.below(66), _ => self.r.below(200) };
        let bits = self.size(Dim::Lit, bits);
        let m = self.big(bits);
        let mut v = BigInt::from(m);
        if self.r.chance(1, 2) {
            v = -v;
        }
        let need = typing::min_signed_width(&v) as u16;
        let w = match self.r.below(4) { 0 => need, 1 => need.saturating_add(self.r.below(4) as u16), 2 => need.max(self.w16()), _ => need };
        Ex::SLit(v, w)
    }
    /// A reference, followed into its type now and then
    pub fn refex(&mut self, env: &mut Env, depth: usize) -> Option<Ex> {
        if env.ents.is_empty() {
            return None;
        }
        for _ in 0..4 {
            let i = if self.pct(50) { env.ents.len() - 1 - self.r.below(env.ents.len().min(4)) } else { self.r.below(env.ents.len()) };
            let (e, t, c) = env.ents[i].clone();
            if c > env.budget / 4 + 1 && c > 3 {
                continue;
            }
            env.budget -= c;
            env.cost += c;
            let mut ex = Ex::Ref(e);
            let mut ty = t;
            let mut steps = 0;
            let most = if matches!(self.spot, Some((Dim::Types, n, _)) if n > 4) { self.r.below(80) } else { 4 };
            while steps < most {
                steps += 1;
                match ty.clone() {
                    Some(Ty::B(v)) if !v.is_empty() && self.pct(85) => {
                        let f = self.r.pick(&v).clone();
                        ex = Ex::Field(Box::new(ex), f.name);
                        ty = Some(f.ty);
                    }
                    Some(Ty::V(b, n)) if self.pct(85) => {
                        if self.pct(60) || depth == 0 {
                            let i = if self.pct(80) { self.r.below(n.max(1) as usize) as u16 } else { self.w16() };
                            ex = Ex::Idx(Box::new(ex), i);
                        } else {
                            let i = self.ex(env, depth - 1);
                            ex = Ex::Acc(Box::new(ex), Box::new(i));
                        }
                        ty = Some((*b).clone());
                    }
                    _ => break,
                }
            }
            return Some(ex);
        }
        None
    }
    pub fn ex(&mut self, env: &mut Env, depth: usize) -> Ex {
        env.cost += 1;
        let x = self.r.below(100);
        if depth == 0 || x < 35 {
            if self.pct(70) {
                if let Some(e) = self.refex(env, depth) {
                    return e;
                }
            }
            return if self.r.chance(1, 2) { self.ulit() } else { self.slit() };
        }
        let d = depth - 1;
        if let Some(n) = self.is_excess(Dim::Exprs) {
            return self.tower(env, n);
        }
        if self.pct(5) {
            // Equal operands
            let c = env.cost;
            let x = self.ex(env, d);
            let c = env.cost - c;
            if c < 100 && c < env.budget / 4 {
                env.cost += 2 * c;
                env.budget -= 2 * c;
                return match self.r.below(5) {
                    0 => Ex::Mux(Box::new(self.ex(env, d)), Box::new(x.clone()), Box::new(x)),
                    1 => Ex::Mux(Box::new(x.clone()), Box::new(x.clone()), Box::new(x)),
                    2 => Ex::Valid(Box::new(x.clone()), Box::new(x)),
                    3 => Ex::Acc(Box::new(x.clone()), Box::new(x)),
                    _ => loop {
                        let o = self.r.below(OPS.len());
                        if OPS[o].1 == 2 && OPS[o].2.is_empty() {
                            break Ex::Op(o, vec![x.clone(), x], vec![]);
                        }
                    },
                };
            }
            return x;
        }
        match x {
            35..=82 => {
                let o = self.r.below(OPS.len());
                let es = (0..OPS[o].1).map(|_| self.ex(env, d)).collect();
                let ps = OPS[o].2.chars().map(|k| if k == 'u' { self.w16() as i64 } else { self.p16() as i64 }).collect();
                Ex::Op(o, es, ps)
            }
            83..=87 => Ex::Mux(Box::new(self.ex(env, d)), Box::new(self.ex(env, d)), Box::new(self.ex(env, d))),
            88..=90 => Ex::Valid(Box::new(self.ex(env, d)), Box::new(self.ex(env, d))),
            91..=93 => Ex::Field(Box::new(self.ex(env, d)), self.field_name()),
            94..=96 => Ex::Idx(Box::new(self.ex(env, d)), self.w16()),
            _ => Ex::Acc(Box::new(self.ex(env, d)), Box::new(self.ex(env, d))),
        }
    }
    /// A deeply nested expression
    fn tower(&mut self, env: &mut Env, n: usize) -> Ex {
        let mut e = self.ex(env, 0);
        // A family of constructs, a single one or anything
        let what = self.r.below(6);
        let one = self.r.below(9);
        for _ in 0..n {
            env.cost += 2;
            let mut leaf = || -> Box<Ex> { Box::new(if self.r.chance(1, 2) { self.ulit() } else { self.slit() }) };
            let (a, b) = (leaf(), leaf());
            let b0 = Box::new(e);
            e = match match what { 0..=2 => self.r.below(3) + 3 * what, 3 => one, 4 => *self.r.pick(&[3, 5, 6]), _ => self.r.below(9) } {
                0 => Ex::Mux(b0, a, b),
                1 => Ex::Mux(a, b0, b),
                2 => Ex::Mux(a, b, b0),
                3 => Ex::Acc(b0, a),
                4 => Ex::Acc(a, b0),
                5 => Ex::Idx(b0, self.w16()),
                6 => Ex::Field(b0, self.field_name()),
                7 => Ex::Valid(a, b0),
                _ => {
                    let o = self.r.below(OPS.len());
                    let k = self.r.below(OPS[o].1);
                    let ps = OPS[o].2.chars().map(|k| if k == 'u' { self.w16() as i64 } else { self.p16() as i64 }).collect();
                    let es = (0..OPS[o].1).map(|i| if i == k { (*b0).clone() } else { (*a).clone() }).collect();
                    Ex::Op(o, es, ps)
                }
            };
        }
        e
    }
    fn lhs(&mut self, env: &mut Env) -> Ex {
        let d = self.c.depth.min(2);
        if let Some(e) = self.refex(env, d) {
            if self.c.lhs_ref || self.pct(92) {
                return e;
            }
        }
        if self.c.lhs_ref {
            // No reference available: fall back on a literal
            return self.ulit();
        }
        self.ex(env, d)
    }

    // ---------------------------------------------------------- statements
    pub fn add_ent(&mut self, env: &mut Env, e: Rc<Ent>) {
        let t = typing::ent_decl_ty(&e);
        let lookup: Vec<(*const Ent, i64)> = env.ents.iter().map(|x| (Rc::as_ptr(&x.0), x.2)).collect();
        let cost = |r: &Rc<Ent>| lookup.iter().find(|x| x.0 == Rc::as_ptr(r)).map(|x| x.1).unwrap_or(1);
        let mut c: i64 = 1 + ent_exprs(&e).iter().map(|x| ex_cost(x, &cost)).sum::<i64>();
        if let EntK::Inst(m) = &e.k {
            c += env.mods.iter().find(|x| Rc::ptr_eq(&x.0, m)).map(|x| x.1).unwrap_or(1);
        }
        env.ents.retain(|x| x.0.name != e.name);
        env.ents.push((e, t, c));
    }
    pub fn mem(&mut self) -> Mem {
        let mut ports: Vec<(String, Dir)> = vec![];
        let mut used = HashSet::new();
        let n = match self.r.below(6) { 0 => 0, 1..=4 => 1 + self.r.below(3), _ => self.r.below(9) };
        for _ in 0..self.size(Dim::MemPorts, n) {
            let d = *self.r.pick(&[Dir::R, Dir::W, Dir::RW]);
            ports.push((self.ident(&mut used), d));
        }
        Mem {
            ty: self.ty(2),
            depth: self.depth64(),
            ports,
            rl: self.w16(),
            wl: self.w16(),
            ruw: *self.r.pick(&[Ruw::Old, Ruw::New, Ruw::Undef]),
        }
    }
    pub fn st(&mut self, env: &mut Env, wd: usize) -> St {
        let d = self.c.depth;
        let sh = self.c.shadow;
        let x = self.r.below(100);
        let k = match x {
            0..=13 => {
                let t = self.lhs(env);
                StK::Conn(t, self.ex(env, d))
            }
            14..=18 => {
                let t = self.lhs(env);
                StK::Part(t, self.ex(env, d))
            }
            19..=21 => StK::Skip,
            22..=31 => {
                let t = self.ty(2);
                self.decl(env, sh, EntK::Wire(t))
            }
            32..=40 => {
                let t = self.ty(2);
                let c = self.ex(env, d.min(2));
                let r = if self.r.chance(1, 2) { Some((self.ex(env, d.min(2)), self.ex(env, d))) } else { None };
                self.decl(env, sh, EntK::Reg(t, c, r))
            }
            41..=51 => {
                let v = self.ex(env, d);
                self.decl(env, sh, EntK::Node(v))
            }
            52..=57 => {
                let m = self.mem();
                self.decl(env, sh, EntK::Mem(m))
            }
            58..=62 => {
                let mut used = std::mem::take(&mut env.mnames);
                let name = self.uniq(&mut used, sh);
                env.mnames = used;
                let ty = if self.pct(85) {
                    let t = self.ty(2);
                    Ty::V(Rc::new(t), self.vlen())
                } else {
                    self.ty(2)
                };
                let seq = match self.r.below(6) { 0..=1 => None, 2 => Some(None), 3 => Some(Some(Ruw::Old)), 4 => Some(Some(Ruw::New)), _ => Some(Some(Ruw::Undef)) };
                let m = Rc::new(SMem { name, ty, seq });
                env.smems.retain(|x| x.name != m.name);
                env.smems.push(m.clone());
                StK::SMem(m)
            }
            63..=68 if !env.smems.is_empty() => {
                let m = self.r.pick(&env.smems).clone();
                let dir = *self.r.pick(&[Some(Dir::R), Some(Dir::W), Some(Dir::RW), None]);
                let a = self.ex(env, d.min(2));
                let c = self.ex(env, d.min(2));
                self.decl(env, sh, EntK::MPort(m, dir, a, c))
            }
            69..=75 if !env.mods.is_empty() => {
                let (m, c) = self.r.pick(&env.mods).clone();
                if c > env.budget {
                    StK::Skip
                } else {
                    env.budget -= c;
                    env.cost += c;
                    self.decl(env, sh, EntK::Inst(m))
                }
            }
            76..=79 => StK::Inval(self.lhs(env)),
            80..=82 => {
                let n = 1 + self.r.below(4);
                let n = self.size(Dim::Attach, n);
                StK::Attach((0..n).map(|_| self.lhs(env)).collect())
            }
            83..=86 => StK::Stop(self.oname(), self.ex(env, d.min(2)), self.ex(env, d.min(2)), self.i64v()),
            87..=90 => {
                let (n, c, g) = (self.oname(), self.ex(env, d.min(2)), self.ex(env, d.min(2)));
                let m = self.msg(env);
                StK::Print(n, c, g, m)
            }
            _ if wd > 0 => {
                let c = self.ex(env, d.min(2));
                let n = if !self.c.norm && self.r.chance(1, 12) { 0 } else { 1 + self.r.below(3) };
                if let Some(n) = self.is_excess(Dim::When) {
                    return self.nest(env, n);
                }
                if let Some(n) = self.is_excess(Dim::Chain) {
                    return self.chain(env, n);
                }
                let n = self.size(Dim::Branch, n);
                let a = self.sts(env, if n > 9 { 0 } else { wd - 1 }, n);
                if self.pct(4) && !has_decl(&a) {
                    // Equal branches
                    return St { k: StK::When(c, a.clone(), a), info: self.info() };
                }
                let b = match self.r.below(10) {
                    0..=3 => vec![],
                    4..=6 => {
                        let n = 1 + self.r.below(3);
                        self.sts(env, wd - 1, n)
                    }
                    _ => {
                        // else-when chain
                        let c = self.ex(env, d.min(2));
                        let a = self.sts(env, wd - 1, 1);
                        let b = if self.r.chance(1, 2) { self.sts(env, wd - 1, 1) } else { vec![] };
                        vec![St { k: StK::When(c, a, b), info: self.info() }]
                    }
                };
                StK::When(c, a, b)
            }
            _ => StK::Skip,
        };
        St { k, info: self.info() }
    }
    pub fn msg(&mut self, env: &mut Env) -> Vec<PE> {
        let n = self.r.below(5);
        let n = self.size(Dim::Msg, n);
        let mut v: Vec<PE> = vec![];
        for _ in 0..n {
            if self.r.chance(1, 2) {
                let s = self.text();
                if self.c.norm && (s.is_empty() || matches!(v.last(), Some(PE::Lit(_)))) {
                    continue;
                }
                v.push(PE::Lit(s));
            } else {
                v.push(PE::Val(self.ex(env, 1), *self.r.pick(&[Fm::B, Fm::D, Fm::X, Fm::C])));
            }
        }
        v
    }
    pub fn oname(&mut self) -> Option<String> {
        if self.r.chance(1, 2) {
            loop {
                let n = self.raw_ident();
                return Some(n);
            }
        }
        None
    }
    pub fn decl(&mut self, env: &mut Env, shadow: bool, k: EntK) -> StK {
        let mut used = std::mem::take(&mut env.names);
        let name = self.uniq(&mut used, shadow);
        env.names = used;
        let e = Rc::new(Ent { name, k });
        self.add_ent(env, e.clone());
        StK::Decl(e)
    }
    pub fn sts(&mut self, env: &mut Env, wd: usize, n: usize) -> Vec<St> {
        let mut v: Vec<St> = vec![];
        for _ in 0..n {
            if self.pct(3) && v.last().map(|s| !has_decl(std::slice::from_ref(s))).unwrap_or(false) {
                let s = v.last().unwrap().clone();
                let c: i64 = st_cost(&s, &env.ents);
                if c < env.budget / 4 {
                    env.budget -= c;
                    env.cost += c;
                    v.push(s);
                    continue;
                }
            }
            let s = self.st(env, wd);
            v.push(s);
        }
        v
    }
    /// Deeply nested conditionals
    fn nest(&mut self, env: &mut Env, n: usize) -> St {
        let mut v = self.sts(env, 0, 1);
        for _ in 0..n {
            let c = self.ulit();
            let w = if self.r.chance(1, 2) { (v, vec![]) } else { (vec![St { k: StK::Skip, info: self.info() }], v) };
            let w = St { k: StK::When(c, w.0, w.1), info: self.info() };
            v = vec![w];
            if self.r.chance(1, 3) {
                // What follows comes after what is nested
                v.push(self.st(env, 0));
            }
        }
        let c = self.ulit();
        St { k: StK::When(c, v, vec![]), info: self.info() }
    }
    /// A chain of else-whens
    fn chain(&mut self, env: &mut Env, n: usize) -> St {
        let c = self.ex(env, 1);
        let a = self.sts(env, 0, 1);
        let b = if n > 0 { vec![self.chain(env, n - 1)] } else if self.r.chance(1, 2) { self.sts(env, 0, 1) } else { vec![] };
        St { k: StK::When(c, a, b), info: self.info() }
    }

    // ------------------------------------------------------------- modules
    pub fn port(&mut self, used: &mut HashSet<String>) -> Rc<Port> {
        Rc::new(Port { name: self.ident(used), ty: self.ty(2), out: self.r.chance(1, 2), info: self.info() })
    }
    pub fn pv(&mut self) -> PV {
        match self.r.below(3) {
            0 => PV::Int(self.i64v()),
            1 => PV::Dbl(self.dbl()),
            _ => PV::Str(self.text()),
        }
    }
    pub fn module(&mut self, name: String, mods: &[(Rc<Module>, i64)], must: &[(Rc<Module>, i64)]) -> (Rc<Module>, i64) {
        let mut env = Env { mods: mods.to_vec(), budget: self.c.budget, ..Default::default() };
        let n = match self.r.below(10) { 0 => 0, 1..=7 => self.r.below(5), _ => self.r.below(12) };
        let n = self.size(Dim::Ports, n);
        let mut names = HashSet::new();
        let ports: Vec<_> = (0..n).map(|_| self.port(&mut names)).collect();
        env.names = names;
        let info = self.info();
        let k = if must.is_empty() && self.c.exts && self.pct(25) {
            let mut used = HashSet::new();
            let def = if self.r.chance(1, 2) { Some(self.raw_ident()) } else { None };
            let n = self.r.below(5);
            let n = self.size(Dim::Params, n);
            let ps = (0..n).map(|_| (self.ident(&mut used), self.pv())).collect();
            env.cost = 5;
            MK::Ext(def, ps)
        } else {
            for p in &ports {
                let e = Rc::new(Ent { name: p.name.clone(), k: EntK::Port(p.clone()) });
                self.add_ent(&mut env, e);
            }
            let n = self.r.below(self.c.stmts + 1);
            let n = self.size(Dim::Stmts, n);
            let wd = self.c.when_depth;
            let mut v = self.sts(&mut env, wd, n);
            for (m, c) in must {
                env.cost += c;
                let k = self.decl(&mut env, false, EntK::Inst(m.clone()));
                let st = St { k, info: self.info() };
                // Anywhere at top level would do, but it must not capture
                // names; append, possibly within a conditional
                if wd > 0 && self.pct(30) {
                    let c = self.ulit();
                    if self.r.chance(1, 2) {
                        v.push(St { k: StK::When(c, vec![st], vec![]), info: self.info() });
                    } else {
                        v.push(St { k: StK::When(c, vec![St { k: StK::Skip, info: None }], vec![st]), info: self.info() });
                    }
                } else {
                    v.push(st);
                }
            }
            env.cost += v.len() as i64 + ports.len() as i64 + 1;
            MK::Reg(v)
        };
        (Rc::new(Module { name, ports, info, k }), env.cost.max(1))
    }
    pub fn prog(&mut self) -> Prog {
        let n = 1 + self.r.below(self.c.modules);
        let n = self.size(Dim::Modules, n);
        let mut used = HashSet::new();
        let mut mods: Vec<(Rc<Module>, i64)> = vec![];
        for i in 0..n {
            let name = self.ident(&mut used);
            let last = i + 1 == n;
            let must: Vec<_> = if self.c.reach && last {
                // Everything not yet used must be instantiated by the top module
                let mut seen: HashSet<String> = HashSet::new();
                for (m, _) in &mods {
                    for d in instantiated(m.stmts()) {
                        seen.insert(d.name.clone());
                    }
                }
                mods.iter().filter(|(m, _)| !seen.contains(&m.name)).cloned().collect()
            } else {
                vec![]
            };
            let cheap: Vec<_> = mods.iter().filter(|m| m.1 < 1500).cloned().collect();
            mods.push(self.module(name, &cheap, &must));
        }
        let top = if self.c.reach { n - 1 } else { self.r.below(n) };
        Prog {
            top: mods[top].0.name.clone(),
            info: self.info(),
            modules: mods.into_iter().map(|x| x.0).collect(),
        }
    }
}

/// Do statements declare anything?
pub fn has_decl(s: &[St]) -> bool {
    s.iter().any(|s| match &s.k {
        StK::Decl(_) | StK::SMem(_) => true,
        StK::When(_, a, b) => has_decl(a) || has_decl(b),
        _ => false,
    })
}

fn st_cost(s: &St, ents: &[(Rc<Ent>, Option<Ty>, i64)]) -> i64 {
    let cost = |r: &Rc<Ent>| ents.iter().find(|x| Rc::ptr_eq(&x.0, r)).map(|x| x.2).unwrap_or(1);
    match &s.k {
        StK::When(c, a, b) => ex_cost(c, &cost) + a.iter().chain(b).map(|s| st_cost(s, ents)).sum::<i64>(),
        _ => 1 + st_exprs(s).iter().map(|e| ex_cost(e, &cost)).sum::<i64>(),
    }
}
