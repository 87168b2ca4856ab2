//! C27: formatting and the writers it goes to

use std::fmt::{self, Display};
use std::io;

use firrtl_ast as fa;
use fa::stmt::{Entity, Kind as SK, Statement};

use super::util::*;
use crate::conv::{self, Build, CEx};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::mutate;
use crate::rng::Rng;
use crate::text;

/// A writer failing at one of its calls
struct Calls {
    got: String,
    calls: usize,
    /// Fail at this call, for once or for good
    fail: Option<(usize, bool)>,
    /// Accept no more than this in total
    limit: usize,
    failed: bool,
    /// Calls after the failure
    late: usize,
}

impl Calls {
    fn new(fail: Option<(usize, bool)>, limit: usize) -> Self {
        Calls { got: String::new(), calls: 0, fail, limit, failed: false, late: 0 }
    }
}

impl fmt::Write for Calls {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if self.failed && !s.is_empty() {
            self.late += 1;
        }
        match self.fail {
            Some((at, _)) if n == at => {
                self.failed = true;
                return Err(fmt::Error);
            }
            Some((at, true)) if n > at => return Err(fmt::Error),
            _ => (),
        }
        if self.got.len() + s.len() > self.limit {
            let mut k = self.limit - self.got.len();
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            self.got.push_str(&s[..k]);
            self.limit = self.got.len();
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// A byte sink taking pieces of random size, interrupted, full at some point
struct Sink {
    got: Vec<u8>,
    r: Rng,
    limit: usize,
    zero: bool,
}

impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.r.chance(1, 10) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.limit - self.got.len();
        if n == 0 && !b.is_empty() {
            return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::StorageFull, "full")) };
        }
        let n = (1 + self.r.below(b.len().max(1))).min(n).min(b.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// All failures of writers for one item
fn item(c: &mut Case, what: &'static str, x: &dyn Display) -> Verdict {
    let mut w = Calls::new(None, usize::MAX);
    fmt::write(&mut w, format_args!("{}", x)).map_err(|_| format!("formatting {} fails, its writer did not; so far {:?}", what, w.got))?;
    let (s, calls) = (w.got, w.calls);
    ensure!(s == x.to_string(), "{} is written as\n{:?}\nbut to_string() gives\n{:?}", what, s, x.to_string());
    let verify = |c: &mut Case, w: Calls, r: fmt::Result, how: &str| {
        c.eval();
        ensure!(w.failed, "the writer of {} was to fail ({}) but did not\n{}", what, how, q(&s));
        ensure!(r.is_err(), "formatting {} succeeds although its writer failed ({})\nwritten: {:?}\nof {:?}", what, how, w.got, s);
        ensure!(w.late == 0, "formatting {} goes on after its writer failed ({})\nwritten: {:?}\nof {:?}", what, how, w.got, s);
        ensure!(s.starts_with(&w.got), "writer of {} failed ({}), written so far: {:?}\nwhich is not the beginning of {:?}", what, how, w.got, s);
        Ok(())
    };
    let step = (calls / 40).max(1);
    let mut at = if step > 1 { c.r.below(step) } else { 0 };
    while at < calls {
        let good = c.r.chance(1, 4);
        let mut w = Calls::new(Some((at, good)), usize::MAX);
        let r = fmt::write(&mut w, format_args!("{}", x));
        verify(c, w, r, &format!("at call {} of {}", at, calls))?;
        c.count("failing calls");
        at += 1 + c.r.below(2 * step - 1);
    }
    if !s.is_empty() {
        for k in 0..4 {
            let limit = if k == 0 { s.len() - 1 } else { c.r.below(s.len()) };
            let mut w = Calls::new(None, limit);
            let r = fmt::write(&mut w, format_args!("{}", x));
            verify(c, w, r, &format!("full after {} of {} bytes", limit, s.len()))?;
            c.count("full writers");
        }
    }
    // Byte sinks
    for k in 0..3 {
        use io::Write;
        let limit = match k { 0 => s.len(), _ => c.r.below(s.len() + 1) };
        let zero = c.r.chance(1, 3);
        let mut w = Sink { got: vec![], r: Rng::new(c.r.u64()), limit, zero };
        let r = write!(w, "{}", x);
        c.eval();
        ensure!(s.as_bytes().starts_with(&w.got) && w.got.len() == limit, "sink for {} bytes got {:?} of {}: {:?}", limit, String::from_utf8_lossy(&w.got), what, s);
        if limit == s.len() {
            ensure!(r.is_ok(), "writing {} to a sink fails: {:?}\n{}", what, r, q(&s));
            c.count("bytes written in pieces");
        } else {
            let k = r.as_ref().map_err(|e| e.kind());
            ensure!(k == Err(if zero { io::ErrorKind::WriteZero } else { io::ErrorKind::StorageFull }), "writing {} to a sink for {} of {} bytes gives {:?}", what, limit, s.len(), r);
            c.count("full sinks");
        }
    }
    c.count(what);
    Ok(())
}

fn ex(c: &mut Case, e: &CEx) -> Verdict {
    item(c, "expressions", e)?;
    if let fa::Expression::PrimitiveOp(o) = e {
        item(c, "operations", o)?;
    }
    Ok(())
}

fn st(c: &mut Case, s: &Statement) -> Verdict {
    match s.kind() {
        SK::Connection { from, to } | SK::PartialConnection { from, to } => {
            ex(c, from)?;
            ex(c, to)
        }
        SK::Invalidate(e) => ex(c, e),
        SK::Attach(v) => v.iter().try_for_each(|e| ex(c, e)),
        SK::Conditional { cond, when, r#else } => {
            ex(c, cond)?;
            when.iter().chain(r#else.iter()).try_for_each(|s| st(c, s))
        }
        SK::SimpleMemDecl(m) => item(c, "simple memories", m.as_ref()),
        SK::Declaration(e) => match e.as_ref() {
            Entity::Register(r) => item(c, "registers", r),
            Entity::SimpleMemPort(p) => item(c, "memory ports", p),
            Entity::Instance(i) => item(c, "instances", i),
            Entity::Wire { r#type, .. } => item(c, "types", r#type),
            Entity::Node { value, .. } => ex(c, value),
            Entity::Memory(m) => m.ports().try_for_each(|p| item(c, "ports of memories", p)),
            _ => Ok(()),
        },
        _ => Ok(()),
    }
}

fn c27_circuits(c: &mut Case) -> Verdict {
    let p = match c.r.below(4) {
        0 => gen_prog(&mut c.r, Cfg { budget: 400, ..Default::default() }),
        _ => G::new(&mut c.r, Cfg { modules: 3, stmts: 3, depth: 2, when_depth: 2, budget: 200, ..Default::default() }).prog(),
    };
    let x = Build::new().circuit(p.top_module().expect("harness: top"), &p.info);
    item(c, "circuits", &x)?;
    c.nontrivial(&x.to_string());
    c.sample(|| x.to_string());
    Ok(())
}

fn c27_items(c: &mut Case) -> Verdict {
    let p = G::new(&mut c.r, Cfg { modules: 2, stmts: 3, depth: 3, when_depth: 1, budget: 200, ..Default::default() }).prog();
    let x = Build::new().circuit(p.top_module().expect("harness: top"), &p.info);
    let m = x.top_module();
    m.ports().try_for_each(|p| {
        item(c, "ports", p.as_ref())?;
        item(c, "types", p.r#type())?;
        item(c, "directions", &p.direction())
    })?;
    m.statements().iter().try_for_each(|s| st(c, s))?;
    let t = G::new(&mut c.r, Cfg::default()).ty(4);
    if let Ty::B(v) = &t {
        v.iter().try_for_each(|f| item(c, "fields", &conv::b_fld(f)))?;
    }
    if let Ty::G(g) = &t {
        item(c, "ground types", &conv::b_gr(g))?;
    }
    item(c, "types", &conv::b_ty(&t))?;
    let v = G::new(&mut c.r, Cfg::default()).pv();
    item(c, "parameter values", &conv::b_pv(&v))?;
    // Errors
    let mut l = text::prog_lines(&mut c.r, true, &p);
    mutate::line(&mut c.r, &mut l);
    let s = text::layout(&mut c.r, &text::Lay::plain(), &l).0;
    if let Err(e) = fa::circuit::parse(&s) {
        item(c, "errors", &e)?;
    }
    item(c, "errors", &fa::error::ParseError::from(io::Error::new(io::ErrorKind::Other, "no 变é🦀")))?;
    c.nontrivial(&x.to_string());
    Ok(())
}

pub fn c27() -> Check {
    Check {
        id: "C27",
        level: "fault_enumeration",
        rule: "circuits and all items with a textual form, formatted to writers failing (for once or for good) at their calls (all calls of short texts, 40 of longer ones), to writers and byte sinks which become full at an offset, and to sinks taking pieces; \
               non-trivial: all; distinct by circuit",
        assumptions: &["writers obey the contracts of std::fmt::Write and std::io::Write"],
        parts: vec![
            Part { name: "circuits", quick: 100000, thorough: 1000000, f: c27_circuits },
            Part { name: "items", quick: 150000, thorough: 1500000, f: c27_items },
        ],
        must: &["failing calls", "full writers", "bytes written in pieces", "full sinks", "circuits", "expressions", "operations", "types", "fields", "ground types", "ports", "directions",
            "registers", "instances", "memory ports", "ports of memories", "simple memories", "parameter values", "errors"],
    }
}
