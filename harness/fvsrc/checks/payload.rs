//! C23, C24: strings, names and numbers at every place that can carry them

use std::rc::Rc;

use num_bigint::{BigInt, BigUint, Sign};

use super::util::*;
use crate::conv::{self, Build};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::refparse::{self, V};
use crate::text::{self, W};
use crate::typing;

/// Where the payloads of the carrying circuit come from
trait Src {
    fn s(&mut self) -> String {
        "i".into()
    }
    /// A name, different at each call
    fn n(&mut self) -> String;
    fn w(&mut self) -> u16 {
        4
    }
    fn p(&mut self) -> i16 {
        2
    }
    fn i(&mut self) -> i64 {
        1
    }
    fn d(&mut self) -> f64 {
        1.5
    }
    fn depth(&mut self) -> u64 {
        8
    }
    fn u(&mut self) -> (BigUint, u16) {
        (BigUint::from(3u8), 4)
    }
    fn sl(&mut self) -> (BigInt, u16) {
        (BigInt::from(-3), 4)
    }
}

fn uint(w: Option<u16>) -> Ty {
    Ty::G(Gr::U(w))
}

/// A circuit with a payload at every place that can carry one
fn carrier(x: &mut dyn Src) -> Prog {
    fn info(x: &mut dyn Src) -> Option<String> {
        Some(x.s())
    }
    fn st(x: &mut dyn Src, k: StK) -> St {
        St { k, info: Some(x.s()) }
    }
    fn bundle(x: &mut dyn Src) -> Ty {
        let f = |x: &mut dyn Src, flip, ty| Fld { name: x.n(), flip, ty };
        let (a, b, c, d) = (x.w(), x.w(), x.w(), x.w());
        let (p, n, m) = (x.p(), x.w(), x.w());
        let q = x.p();
        Ty::B(vec![
            f(x, false, uint(Some(a))),
            f(x, true, Ty::G(Gr::S(Some(b)))),
            f(x, false, Ty::V(Rc::new(Ty::V(Rc::new(Ty::G(Gr::F(Some(c), Some(p)))), n)), m)),
            f(x, false, Ty::G(Gr::F(None, Some(q)))),
            f(x, true, Ty::G(Gr::A(Some(d)))),
        ])
    }
    fn fields(t: &Ty) -> Vec<String> {
        match t {
            Ty::B(v) => v.iter().map(|f| f.name.clone()).collect(),
            _ => vec![],
        }
    }
    let port = |x: &mut dyn Src, out: bool, ty: Ty| Rc::new(Port { name: x.n(), ty, out, info: Some(x.s()) });
    // an external module
    let mut params = vec![];
    for _ in 0..3 {
        params.push((x.n(), PV::Str(x.s())));
    }
    params.push((x.n(), PV::Int(x.i())));
    params.push((x.n(), PV::Dbl(x.d())));
    params.push((x.n(), PV::Str(x.s())));
    let t = bundle(x);
    let ext = Rc::new(Module {
        name: x.n(),
        ports: vec![port(x, false, t), port(x, true, uint(None))],
        info: info(x),
        k: MK::Ext(Some(x.n()), params),
    });
    // a regular one
    let t = bundle(x);
    let fs = fields(&t);
    let p0 = port(x, false, t.clone());
    let p1 = port(x, true, uint(Some(1)));
    let p2 = port(x, false, Ty::G(Gr::Clock));
    let ent = |x: &mut dyn Src, k: EntK| Rc::new(Ent { name: x.n(), k });
    let pe = |p: &Rc<Port>| Rc::new(Ent { name: p.name.clone(), k: EntK::Port(p.clone()) });
    let (e0, e1, e2) = (pe(&p0), pe(&p1), pe(&p2));
    let r = |e: &Rc<Ent>| Ex::Ref(e.clone());
    let clk = r(&e2);
    let cond = r(&e1);
    let mut v = vec![];
    let t = bundle(x);
    let wire = ent(x, EntK::Wire(t));
    v.push(st(x, StK::Decl(wire.clone())));
    let t = bundle(x);
    let reg = ent(x, EntK::Reg(t, clk.clone(), Some((cond.clone(), r(&wire)))));
    v.push(st(x, StK::Decl(reg.clone())));
    let (u, w) = x.u();
    let node = ent(x, EntK::Node(Ex::ULit(u, w)));
    v.push(st(x, StK::Decl(node.clone())));
    let (u, w) = x.sl();
    let node2 = ent(x, EntK::Node(Ex::SLit(u, w)));
    v.push(st(x, StK::Decl(node2.clone())));
    let t = bundle(x);
    let mem = Mem {
        ty: t,
        depth: x.depth(),
        ports: vec![(x.n(), Dir::R), (x.n(), Dir::W), (x.n(), Dir::RW)],
        rl: x.w(),
        wl: x.w(),
        ruw: Ruw::New,
    };
    let mp = mem.ports[1].0.clone();
    let mem = ent(x, EntK::Mem(mem));
    v.push(st(x, StK::Decl(mem.clone())));
    let n = x.w();
    let smem = Rc::new(SMem { name: x.n(), ty: Ty::V(Rc::new(uint(Some(4))), n), seq: Some(Some(Ruw::Old)) });
    v.push(st(x, StK::SMem(smem.clone())));
    let n = x.w();
    let cmem = Rc::new(SMem { name: x.n(), ty: Ty::V(Rc::new(uint(Some(4))), n), seq: None });
    v.push(st(x, StK::SMem(cmem.clone())));
    let mport = ent(x, EntK::MPort(smem, Some(Dir::RW), r(&node), clk.clone()));
    v.push(st(x, StK::Decl(mport.clone())));
    let inst = ent(x, EntK::Inst(ext.clone()));
    v.push(st(x, StK::Decl(inst.clone())));
    // uses
    let fld = |b: &Rc<Ent>, n: &str| Ex::Field(Box::new(Ex::Ref(b.clone())), n.to_string());
    let op = |n: &str, e: Vec<Ex>, p: Vec<i64>| Ex::Op(op_by_name(n).expect("harness: op"), e, p);
    let mut inner = vec![];
    let (i, j) = (x.w(), x.w());
    let idx = Ex::Idx(Box::new(Ex::Idx(Box::new(fld(&e0, &fs[2])), i)), j);
    inner.push(st(x, StK::Conn(r(&e1), idx)));
    inner.push(st(x, StK::Part(fld(&inst, &ext.ports[1].name), Ex::Field(Box::new(fld(&mem, &mp)), "data".into()))));
    inner.push(st(x, StK::Inval(r(&wire))));
    inner.push(st(x, StK::Attach(vec![r(&wire), r(&reg)])));
    let n = Some(x.n());
    let code = x.i();
    inner.push(st(x, StK::Stop(n, clk.clone(), cond.clone(), code)));
    inner.push(st(x, StK::Skip));
    for n in ["pad", "shl", "shr", "head", "tail", "incp", "decp"] {
        let w = x.w() as i64;
        let e = op(n, vec![r(&node)], vec![w]);
        inner.push(st(x, StK::Conn(r(&e1), e)));
    }
    for n in ["asFixed", "setp"] {
        let p = x.p() as i64;
        let e = op(n, vec![r(&node2)], vec![p]);
        inner.push(st(x, StK::Conn(r(&e1), e)));
    }
    let (a, b) = (x.w() as i64, x.w() as i64);
    inner.push(st(x, StK::Conn(r(&e1), op("bits", vec![r(&node)], vec![a, b]))));
    let (u, w) = x.sl();
    inner.push(st(x, StK::Conn(r(&e1), Ex::Mux(Box::new(cond.clone()), Box::new(Ex::SLit(u, w)), Box::new(Ex::Valid(Box::new(cond.clone()), Box::new(r(&mport))))))));
    let mut msg = vec![PE::Lit(x.s()), PE::Val(r(&node), Fm::D), PE::Lit(x.s()), PE::Val(r(&node2), Fm::X)];
    msg.push(PE::Val(r(&node), Fm::B));
    msg.push(PE::Lit(x.s()));
    let n = Some(x.n());
    inner.push(st(x, StK::Print(n, clk.clone(), cond.clone(), msg)));
    let s = x.s();
    let mut other = vec![st(x, StK::Print(None, clk.clone(), cond.clone(), vec![PE::Lit(s)]))];
    other.push(st(x, StK::Skip));
    let k = StK::When(cond.clone(), vec![st(x, StK::Skip)], vec![]);
    inner.push(st(x, k));
    v.push(st(x, StK::When(cond.clone(), inner, other)));
    v.push(st(x, StK::Skip));
    let top = Rc::new(Module { name: x.n(), ports: vec![p0, p1, p2], info: info(x), k: MK::Reg(v) });
    let last = Rc::new(Module { name: x.n(), ports: vec![], info: info(x), k: MK::Reg(vec![st(x, StK::Skip)]) });
    let _ = last;
    Prog { top: top.name.clone(), info: info(x), modules: vec![ext, top] }
}

fn same_prog(p: &Prog, q: &Prog) -> Result<(), String> {
    let mut k = Canon::new(true);
    let a = k.circuit(p.top_module().expect("harness: top"), &p.info);
    let b = match q.top_module() {
        Some(t) => k.circuit(t, &q.info),
        None => return Err("the top module is missing".into()),
    };
    if a == b { Ok(()) } else { Err(conv::diff(&k, &a, &b)) }
}

/// Build, format, read back by the harness' reader and by the crate
fn through_format(p: &Prog) -> Verdict {
    let x = Build::new().circuit(p.top_module().expect("harness: top"), &p.info);
    let s = show(&x)?;
    match refparse::read(&s, true) {
        V::Accept(o) => same_prog(p, &o).map_err(|d| format!("formatted text does not state the circuit:\n{}\n{}", d, q(&s)))?,
        V::Reject { why, line, .. } => return Err(format!("formatted text is malformed, line {:?}: {}\n{}", line, why, q(&s))),
        V::Unspec(w) => return Err(format!("formatted text is not clearly FIRRTL: {}\n{}", w, q(&s))),
    }
    let y = parse(&s).map_err(|e| format!("formatted circuit does not parse: {}\n{}", e, q(&s)))?;
    same(p, &y, true).map_err(|d| format!("circuit read back differs:\n{}\n{}", d, q(&s)))
}

/// Have the crate parse a text stating the given circuit
fn through_text(p: &Prog, s: &str) -> Verdict {
    let y = parse(s).map_err(|e| format!("valid text is rejected: {}\n{}", e, q(s)))?;
    same(p, &y, true).map_err(|d| format!("parsed circuit differs from the text:\n{}\n{}", d, q(s)))
}

fn spelled(c: &mut Case, p: &Prog, esc: usize) -> String {
    let mut w = W::new(&mut c.r, true);
    w.sp.esc = esc;
    w.prog(p);
    let lines = std::mem::take(&mut w.lines);
    let l = text::Lay::random(&mut c.r);
    text::layout(&mut c.r, &l, &lines).0
}

// ------------------------------------------------------------------- C23

/// Strings given by a function of a running number
struct Strs<'a> {
    f: &'a mut dyn FnMut(usize) -> String,
    k: usize,
    n: usize,
}

impl<'a> Src for Strs<'a> {
    fn s(&mut self) -> String {
        self.k += 1;
        (self.f)(self.k - 1)
    }
    fn n(&mut self) -> String {
        self.n += 1;
        format!("n{}", self.n)
    }
}

fn strs(f: &mut dyn FnMut(usize) -> String) -> (Prog, usize) {
    let mut x = Strs { f, k: 0, n: 0 };
    let p = carrier(&mut x);
    let k = x.k;
    (p, k)
}

fn both(c: &mut Case, p: &Prog, esc: usize) -> Verdict {
    through_format(p)?;
    let s = spelled(c, p, esc);
    through_text(p, &s)
}

fn c23_random(c: &mut Case) -> Verdict {
    let mut r = c.r.split();
    let (p, k) = strs(&mut |_| G::new(&mut r, Cfg::default()).text());
    c.add("strings", k as u64);
    let esc = *c.r.pick(&[0, 4, 30, 90]);
    both(c, &p, esc)?;
    c.eval();
    c.nontrivial(&format!("{:?}", p.info));
    c.sample(|| text::prog_plain(&mut crate::rng::Rng::new(1), &p));
    Ok(())
}

/// Every scalar value, alone and next to others, at every kind of place
fn c23_scalars(c: &mut Case) -> Verdict {
    let base = c.idx as u32 * 64;
    if base > 0x10ffff {
        return Ok(());
    }
    let chars: Vec<char> = (base..base + 64).filter_map(char::from_u32).collect();
    if chars.is_empty() {
        return Ok(());
    }
    // Each string carries several; together, each place carries all of them
    let at = |k: usize, i: usize| chars[(k * 7 + i) % chars.len()];
    let n = chars.len();
    let (p, k) = strs(&mut |k| match k % 5 {
        0 => (0..n).map(|i| at(k, i)).collect(),
        1 => (0..n).flat_map(|i| ['x', at(k, i)]).collect(),
        2 => (0..n).flat_map(|i| [at(k, i), '%']).collect(),
        3 => (0..n).flat_map(|i| ['\\', at(k, i)]).collect(),
        _ => (0..n).flat_map(|i| [at(k, i), ' ']).collect(),
    });
    c.add("strings", k as u64);
    c.add("scalar values", n as u64);
    both(c, &p, 4)?;
    // Each alone
    let per = 35;
    let mut i = 0;
    while i < n {
        let mut used = 0;
        let (p, _) = strs(&mut |k| {
            used = used.max(k);
            chars[(i + k) % n].to_string()
        });
        both(c, &p, 10)?;
        i += per;
    }
    c.eval();
    c.nontrivial(&format!("{}", base));
    Ok(())
}

const SPECIAL: &[char] = &['\\', '"', '\'', ']', '[', '%', 'n', 't', 'd', '\n', '\t', '\r', ';', ' ', '@', 'a'];

/// All short combinations of the characters which have a meaning somewhere
fn c23_combos(c: &mut Case) -> Verdict {
    let n = SPECIAL.len() as u64;
    // Every case takes 16 combinations
    let total = 1 + n + n * n + n * n * n + n * n * n * n;
    let combo = |mut i: u64| -> String {
        let mut len = 0;
        let mut k = 1;
        while i >= k {
            i -= k;
            k *= n;
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push(SPECIAL[(i % n) as usize]);
            i /= n;
        }
        s
    };
    let first = c.idx * 16;
    if first >= total {
        return Ok(());
    }
    // places of a circuit: let each combination visit places of all kinds
    for rot in 0..4u64 {
        let (p, k) = strs(&mut |k| combo((first + (k as u64 * 5 + rot) % 16) % total));
        c.add("strings", k as u64);
        both(c, &p, if rot % 2 == 0 { 0 } else { 50 })?;
    }
    c.add("combinations", 16.min(total - first));
    c.eval();
    c.nontrivial(&format!("{}", first));
    Ok(())
}

/// Raw spellings, with whatever escapes, judged by the harness' reader
fn c23_spellings(c: &mut Case) -> Verdict {
    let (p, k) = strs(&mut |k| format!("QQ{}QQ", k));
    let mut s = text::prog_plain(&mut c.r, &p);
    let few = c.r.chance(3, 4);
    let n = if few { 1 + c.r.below(3) } else { k };
    for j in 0..n {
        let i = if few { c.r.below(k) } else { j };
        let mut raw = String::new();
        let m = c.r.below(7);
        for _ in 0..m {
            const P: &[&str] = &["\\\\", "\\]", "\\\"", "\\'", "\\n", "\\t", "\\x", "\\%", "\\ ", "\\;", "%%", "a", " ", "[", "'", ";", "\\é", "é", "@[", "\\[",
                "\\0", "\\r", "\\u{41}", "\\d", "0", ":", "=>", "//", "\\😀", "\\@", "\\(", ")"];
            const Q: &[&str] = &["\\", "%", "]", "\"", "%d", "\t", "\r", "\n", "%\\%", "\\"];
            raw.push_str(if c.r.chance(1, 30) { *c.r.pick(Q) } else { *c.r.pick(P) });
        }
        s = s.replace(&format!("QQ{}QQ", i), &raw);
    }
    c.eval();
    match refparse::read(&s, false) {
        V::Accept(o) => {
            through_text(&o, &s)?;
            through_format(&o)?;
            c.count("spellings accepted");
            c.nontrivial(&s);
        }
        V::Reject { why, .. } => {
            ensure!(parse(&s).is_err(), "malformed text is accepted ({})\n{}", why, q(&s));
            c.count("spellings rejected");
        }
        V::Unspec(_) => {
            let _ = parse(&s);
            c.count("spellings unspecified");
        }
    }
    Ok(())
}

struct Names<'a> {
    f: &'a mut dyn FnMut(usize) -> String,
    k: usize,
}

impl<'a> Src for Names<'a> {
    fn n(&mut self) -> String {
        self.k += 1;
        (self.f)(self.k - 1)
    }
}

/// Every scalar value which names may contain, at every place taking a name
fn c23_names(c: &mut Case) -> Verdict {
    let base = c.idx as u32 * 128;
    let chars: Vec<char> = (base..base + 128).filter_map(char::from_u32).filter(|c| c.is_alphanumeric() || *c == '_' || *c == '$').collect();
    if chars.is_empty() {
        return Ok(());
    }
    c.add("name characters", chars.len() as u64);
    let mut i = 0;
    while i < chars.len() {
        let n = chars.len();
        let p = carrier(&mut Names { k: 0, f: &mut |k| {
            let (a, b) = (chars[(i + k) % n], chars[(i + 2 * k + 1) % n]);
            if k % 3 == 0 && !a.is_numeric() { format!("{}{}", a, k) } else { format!("x{}{}{}", a, k, b) }
        } });
        both(c, &p, 0)?;
        i += 40;
    }
    c.eval();
    c.nontrivial(&format!("{}", base));
    Ok(())
}

fn c23_names_random(c: &mut Case) -> Verdict {
    let mut used = std::collections::HashSet::new();
    for k in ["data", "mask", "addr", "en", "clk", "rdata", "wdata", "wmask", "wmode"] {
        used.insert(k.to_string());
    }
    let mut r = c.r.split();
    let p = carrier(&mut Names { k: 0, f: &mut |_| {
        let mut g = G::new(&mut r, Cfg { kw: true, uni: true, ..Default::default() });
        g.ident(&mut used)
    } });
    both(c, &p, 0)?;
    c.eval();
    c.nontrivial(&format!("{:?}", p.top));
    c.sample(|| text::prog_plain(&mut crate::rng::Rng::new(1), &p));
    Ok(())
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        level: "exploration",
        rule: "circuits carrying strings and names at every place that can carry one, formatted and read back by the crate and by an independent reader, and parsed from texts in random legal escape spellings; \
               all Unicode scalar values and all combinations of up to four special characters are enumerated over the cases; distinct by content",
        assumptions: &["a raw tab inside a string and a backslash followed by a raw line break are unspecified spellings", "an identifier consists of alphanumeric characters, '_' and '$' and does not start with a numeric one"],
        parts: vec![
            Part { name: "random", quick: 6000, thorough: 400000, f: c23_random },
            Part { name: "scalars", quick: 0x110000 / 64, thorough: 0x110000 / 64, f: c23_scalars },
            Part { name: "combos", quick: 274, thorough: 4370, f: c23_combos },
            Part { name: "spellings", quick: 20000, thorough: 1000000, f: c23_spellings },
            Part { name: "names", quick: 0x110000 / 128, thorough: 0x110000 / 128, f: c23_names },
            Part { name: "names-random", quick: 6000, thorough: 300000, f: c23_names_random },
        ],
        must: &["strings", "scalar values", "combinations", "spellings accepted", "spellings rejected", "name characters"],
    }
}

// ------------------------------------------------------------------- C24

struct Nums<'a> {
    n: usize,
    k: usize,
    w: &'a mut dyn FnMut() -> u16,
    p: &'a mut dyn FnMut() -> i16,
    i: &'a mut dyn FnMut() -> i64,
    d: &'a mut dyn FnMut() -> f64,
    depth: &'a mut dyn FnMut() -> u64,
    u: &'a mut dyn FnMut() -> (BigUint, u16),
    sl: &'a mut dyn FnMut() -> (BigInt, u16),
}

impl<'a> Src for Nums<'a> {
    fn n(&mut self) -> String {
        self.n += 1;
        format!("n{}", self.n)
    }
    fn w(&mut self) -> u16 {
        self.k += 1;
        (self.w)()
    }
    fn p(&mut self) -> i16 {
        self.k += 1;
        (self.p)()
    }
    fn i(&mut self) -> i64 {
        self.k += 1;
        (self.i)()
    }
    fn d(&mut self) -> f64 {
        self.k += 1;
        (self.d)()
    }
    fn depth(&mut self) -> u64 {
        self.k += 1;
        (self.depth)()
    }
    fn u(&mut self) -> (BigUint, u16) {
        self.k += 1;
        (self.u)()
    }
    fn sl(&mut self) -> (BigInt, u16) {
        self.k += 1;
        (self.sl)()
    }
}

fn c24_random(c: &mut Case) -> Verdict {
    let rs = std::cell::RefCell::new(c.r.split());
    macro_rules! g {
        ($g:ident => $e:expr) => {
            &mut || { let mut r = rs.borrow_mut(); let mut $g = G::new(&mut r, Cfg::default()); $e }
        }
    }
    let mut x = Nums {
        n: 0, k: 0,
        w: g!(g => g.w16()), p: g!(g => g.p16()), i: g!(g => g.i64v()), d: g!(g => g.dbl()), depth: g!(g => g.depth64()),
        u: g!(g => match g.ulit() { Ex::ULit(v, w) => (v, w), _ => panic!("harness: literal") }),
        sl: g!(g => match g.slit() { Ex::SLit(v, w) => (v, w), _ => panic!("harness: literal") }),
    };
    let p = carrier(&mut x);
    c.add("numbers", x.k as u64);
    both(c, &p, 0)?;
    c.eval();
    let s = text::prog_plain(&mut crate::rng::Rng::new(1), &p);
    c.nontrivial(&s);
    c.sample(|| s.clone());
    Ok(())
}

/// Every 16 bit value at every place taking one
fn c24_sweep(c: &mut Case) -> Verdict {
    let v = c.idx as u16;
    let b = BigUint::from(v);
    let s = BigInt::from(v as i16);
    let mut depth = v as u64;
    let need = typing::min_signed_width(&s) as u16;
    let mut x = Nums {
        n: 0, k: 0,
        w: &mut || v, p: &mut || v as i16, i: &mut || v as i16 as i64, d: &mut || v as i16 as f64 / 16.0,
        depth: &mut || { depth = depth.wrapping_mul(3); depth },
        u: &mut || (b.clone(), b.bits().max(v as u64 % 40) as u16), sl: &mut || (s.clone(), need.max(v % 40)),
    };
    let p = carrier(&mut x);
    c.add("numbers", x.k as u64);
    both(c, &p, 0)?;
    c.eval();
    c.nontrivial(&v.to_string());
    Ok(())
}

/// A number as one might write it
fn spelling(c: &mut Case) -> String {
    const EDGE: &[&str] = &["0", "1", "2", "7", "8", "9", "10", "15", "16", "127", "128", "255", "256", "32767", "32768", "32769", "65534", "65535", "65536", "65537",
        "99999", "100000", "131071", "131072", "2147483647", "2147483648", "4294967295", "4294967296", "4295032831", "9223372036854775806",
        "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
        "170141183460469231731687303715884105728", "340282366920938463463374607431768211456"];
    let mut s = match c.r.below(12) {
        0..=5 => c.r.pick(EDGE).to_string(),
        6 => (c.r.u64() >> c.r.below(64)).to_string(),
        7 => c.r.below(70000).to_string(),
        8 => { let n = 1 + c.r.below(60); (0..n).map(|_| *c.r.pick(&['0', '1', '5', '9'])).collect() }
        9 => "0".repeat(1 + c.r.below(25)) + *c.r.pick(EDGE),
        10 => c.r.pick(&["", "-", "+", "--1", "1.0", "1.5", "0x10", "1_0", "a", "0a", "1e3", "1E3", ".5", "1.", "- 1", "1 1", "1,1", "1-", "1+1", "١", "1٣", "₁", "1\u{a0}"]).to_string(),
        _ => c.r.below(40).to_string(),
    };
    if c.r.chance(1, 4) {
        s.insert(0, '-');
    } else if c.r.chance(1, 20) {
        s.insert(0, '+');
    }
    s
}

/// A quoted literal with a radix
fn radix(c: &mut Case) -> String {
    let bits = match c.r.below(4) { 0 => c.r.below(10) * c.r.below(2), 1 => c.r.below(70), 2 => c.r.below(300), _ => *c.r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128]) };
    let m = G::new(&mut c.r, Cfg::default()).big(bits);
    let v = BigInt::from_biguint(if c.r.chance(1, 3) { Sign::Minus } else { Sign::Plus }, m);
    let (k, r) = *c.r.pick(&[('b', 2), ('o', 8), ('h', 16)]);
    let mut d = v.magnitude().to_str_radix(r);
    if c.r.chance(1, 3) {
        d = d.to_uppercase();
    }
    if c.r.chance(1, 5) {
        let n = *c.r.pick(&[5, 5, 40, 40, 300]);
        d = "0".repeat(1 + c.r.below(n)) + &d;
    }
    match c.r.below(30) {
        0 => d.push('_'),
        1 => d.push(*c.r.pick(&['2', '7', '8', '9', 'f', 'g', 'G', ' '])),
        2 => d.clear(),
        _ => (),
    }
    let sign = if v.sign() == Sign::Minus { "-" } else if c.r.chance(1, 20) { "+" } else { "" };
    let k = match c.r.below(40) { 0 => "x".to_string(), 1 => String::new(), 2 => k.to_uppercase().to_string(), _ => k.to_string() };
    format!("\"{}{}{}\"", k, sign, d)
}

fn double(c: &mut Case) -> String {
    let d = G::new(&mut c.r, Cfg::default()).dbl();
    match c.r.below(10) {
        8 | 9 => {
            let s = format!("{}{:E}", c.r.pick(&["", "0", "000"]), d.abs());
            let (m, e) = s.split_once('E').unwrap();
            let (g, e) = match e.strip_prefix('-') { Some(e) => ("-", e), None => (*c.r.pick(&["", "", "+", "-"]), e) };
            format!("{}{}{}{}E{}{}{}", if d < 0.0 { "-" } else { "" }, m, if m.contains('.') { "" } else { ".0" }, "0".repeat(c.r.below(3)), g, "0".repeat(c.r.below(4)), e)
        }
        0 => format!("{}", d),
        1 => format!("{:?}", d),
        2 => format!("{:E}", d),
        3 => format!("{:e}", d),
        4 => format!("{:.3}", d % 1e6),
        5 => format!("{:.20E}", d),
        6 => {
            let (a, b, e) = (c.r.below(1000), c.r.below(100000), c.r.range(-330, 330));
            format!("{}{}.{}E{}", c.r.pick(&["", "-", "+"]), a, b, e)
        }
        _ => c.r.pick(&["1.0", "0.0", "-0.0", "1.5E3", "1.5e3", "1.5E+3", "1.5E-3", "1E3", "1.", ".5", "inf", "nan", "NaN", "-inf", "1.0E400", "1.0E-400", "1.5.2", "1.5E",
            "123456789012345678901234567890.123456789", "4.9E-324", "2.4E-324", "1.7976931348623157E308", "1.7976931348623159E308", "0.1", "0.30000000000000004", "9007199254740993.0"]).to_string(),
    }
}

/// One or a few numbers of a text spelled in odd ways
fn c24_spellings(c: &mut Case) -> Verdict {
    let (kw, kp, ki, kd) = (std::cell::Cell::new(20000u16), std::cell::Cell::new(10000i16), std::cell::Cell::new(50000i64), std::cell::Cell::new(71000i64));
    let kl = std::cell::Cell::new(90000i64);
    let ks = std::cell::Cell::new(80000i64);
    macro_rules! up {
        ($c:ident) => {{ $c.set($c.get() + 1); $c.get() }}
    }
    let mut x = Nums {
        n: 0, k: 0,
        w: &mut || up!(kw), p: &mut || up!(kp), i: &mut || up!(ki), d: &mut || up!(kd) as f64 + 0.5, depth: &mut || up!(kw) as u64,
        u: &mut || (BigUint::from(up!(kl) as u64), 300), sl: &mut || (BigInt::from(up!(ks)), 300),
    };
    let p = carrier(&mut x);
    let mut s = text::prog_plain(&mut c.r, &p);
    for _ in 0..match c.r.below(4) { 0 => 1 + c.r.below(5), _ => 1 } {
        let (from, to) = match c.r.below(8) {
            0..=3 => ((20001 + c.r.below((kw.get() - 20000) as usize)).to_string(), spelling(c)),
            4 => ((10001 + c.r.below((kp.get() - 10000) as usize)).to_string(), spelling(c)),
            5 => ((50001 + c.r.below((ki.get() - 50000) as usize)).to_string(), spelling(c)),
            6 => {
                let k = if c.r.chance(1, 2) { 90001 + c.r.below((kl.get() - 90000) as usize) } else { 80001 + c.r.below((ks.get() - 80000) as usize) };
                let v = if c.r.chance(1, 2) { radix(c) } else { spelling(c) };
                // now and then without a width, or with an odd one
                let t = format!("<300>({})", k);
                let u = match c.r.below(3) { 0 => format!("({})", v), 1 => format!("<300>({})", v), _ => format!("<{}>({})", spelling(c), v) };
                (t, u)
            }
            _ => (format!("{}.5", 71001 + c.r.below((kd.get() - 71000) as usize)), double(c)),
        };
        s = s.replacen(&from, &to, 1);
    }
    c.eval();
    match refparse::read(&s, false) {
        V::Accept(o) => {
            through_text(&o, &s)?;
            through_format(&o)?;
            c.count("spellings accepted");
            c.nontrivial(&s);
        }
        V::Reject { why, .. } => {
            ensure!(parse(&s).is_err(), "malformed number is accepted ({})\n{}", why, q(&s));
            c.count("spellings rejected");
        }
        V::Unspec(_) => {
            if let Ok(y) = parse(&s) {
                let t = show(&y)?;
                let z = parse(&t).map_err(|e| format!("formatted circuit does not parse: {}\n{}", e, q(&t)))?;
                same_c(&y, &z, true).map_err(|d| format!("circuit read back differs:\n{}\n{}", d, q(&t)))?;
            }
            c.count("spellings unspecified");
        }
    }
    Ok(())
}

/// Literals: inferred and stated widths for every width
fn c24_literals(c: &mut Case) -> Verdict {
    // magnitudes around 2^k
    let k = c.idx * 2521 % 4200;
    let k = if k > 4100 { 65530 + k % 8 } else { k } as usize;
    let one = BigUint::from(1u8);
    let mags = [(&one << k) - &one, &one << k, (&one << k) + &one];
    for (j, m) in mags.iter().enumerate() {
        for neg in [false, true] {
            let v = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, m.clone());
            let signed = neg || c.r.chance(1, 2);
            let (r, kind) = *c.r.pick(&[(2, "b"), (8, "o"), (16, "h"), (10, "")]);
            // a decimal of that many digits takes its time
            let (r, kind) = if k > 20000 { (16, "h") } else { (r, kind) };
            let d = v.to_str_radix(r);
            // leading zeros say nothing
            let d = if c.r.chance(1, 4) {
                let n = *c.r.pick(&[3, 20, 20, 70, 1000]);
                let (sign, m) = match d.strip_prefix('-') { Some(m) => ("-", m), None => ("", &d[..]) };
                format!("{}{}{}", sign, "0".repeat(1 + c.r.below(n)), m)
            } else {
                d
            };
            let d = if kind.is_empty() { d } else { format!("\"{}{}\"", kind, d) };
            let need = if signed { typing::min_signed_width(&v) } else { m.bits() };
            let stated = match c.r.below(3) { 0 => None, 1 => Some(need), _ => Some(need + c.r.below(100) as u64) };
            let s = format!("circuit M :\n  module M :\n    node x = {}{}({})\n    node y = UInt<3>(5)\n", if signed { "SInt" } else { "UInt" },
                stated.map(|w| format!("<{}>", w)).unwrap_or_default(), d);
            let got = parse(&s);
            c.eval();
            let w = stated.unwrap_or(need);
            if w > 65535 {
                // an inferred width one above the minimum is tolerated
                ensure!(got.is_err(), "literal of {} bits is accepted with width {:?}", m.bits(), stated);
                c.count("literals too wide");
                continue;
            }
            if stated.is_none() && (need == 0 || (signed && need != v.bits() + 1)) {
                if let Err(e) = &got {
                    ensure!(v.bits() + 1 > 65535, "literal is rejected: {}: {}", s.chars().take(300).collect::<String>(), e);
                    continue;
                }
            }
            let y = got.map_err(|e| format!("literal is rejected: {}: {}", s.chars().take(300).collect::<String>(), e))?;
            let back = parse(&show(&y)?).map_err(|e| format!("formatted literal does not parse: {}", e))?;
            for (z, what) in [(&y, "parsed"), (&back, "formatted and parsed")] {
                let (gv, gw, gs) = first_literal(z).ok_or_else(|| format!("no literal in {}", show(z).unwrap_or_default()))?;
                ensure!(gs == signed && gv == v, "2^{}{:+} {} as {} (signed: {})", k, j as i64 - 1, what, gv, gs);
                match stated {
                    Some(w) => ensure!(gw as u64 == w, "width {} of a {} literal, stated: {}", gw, what, w),
                    None if signed => ensure!(gw as u64 >= need && gw as u64 <= v.bits() + 1, "width {} inferred for {}, {} bits needed", gw, v, need),
                    None => ensure!(gw as u64 == need.max(1) || gw as u64 == need, "width {} inferred for {}, {} bits needed", gw, v, need),
                }
            }
            c.count("literals");
        }
    }
    c.nontrivial(&format!("{}", k));
    Ok(())
}

fn first_literal(c: &firrtl_ast::Circuit) -> Option<(BigInt, u16, bool)> {
    let s = c.top_module().statements().first()?;
    let e = s.declarations().next()?;
    match e.as_ref() {
        firrtl_ast::stmt::Entity::Node { value, .. } => match value {
            firrtl_ast::Expression::UIntLiteral { value, width } => Some((BigInt::from(value.clone()), *width, false)),
            firrtl_ast::Expression::SIntLiteral { value, width } => Some((value.clone(), *width, true)),
            _ => None,
        },
        _ => None,
    }
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        level: "exploration",
        rule: "circuits carrying numbers at every place that takes one, formatted and read back by the crate and by an independent reader, and parsed from texts in legal, borderline and illegal spellings; \
               all 16 bit values at all places taking one; literals around every power of two up to 2^4100 and around 2^65535; distinct by content",
        assumptions: &["a plus sign, a negative zero where no sign is allowed and digits outside of ASCII are unspecified spellings", "the width inferred for a literal 0 may be 0 or 1, the one inferred for a signed literal may be one above the minimum"],
        parts: vec![
            Part { name: "random", quick: 10000, thorough: 500000, f: c24_random },
            Part { name: "sweep", quick: 65536, thorough: 65536, f: c24_sweep },
            Part { name: "spellings", quick: 40000, thorough: 1500000, f: c24_spellings },
            Part { name: "literals", quick: 4200, thorough: 84000, f: c24_literals },
        ],
        must: &["numbers", "spellings accepted", "spellings rejected", "literals", "literals too wide"],
    }
}
