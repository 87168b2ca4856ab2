//! Helpers shared by the checks

use std::fmt::{Display, Write};

use firrtl_ast as fa;

use crate::conv;
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::rng::Rng;

/// Format something, `Err` if that fails
pub fn show(t: &impl Display) -> Result<String, String> {
    let mut s = String::new();
    match write!(s, "{}", t) {
        Ok(()) => Ok(s),
        Err(_) => Err(format!("formatting failed after {:?}", s)),
    }
}

pub fn parse(s: &str) -> Result<fa::Circuit, String> {
    fa::circuit::parse(s).map_err(|e| show(&e).unwrap_or_default())
}

/// Parse via a consumer
pub fn parse_stream(s: &str) -> Result<fa::Circuit, String> {
    fa::circuit::consumer(s).and_then(|c| c.into_circuit()).map_err(|e| show(&e).unwrap_or_default())
}

/// Is the circuit what the model says?
pub fn same(p: &Prog, c: &fa::Circuit, norm: bool) -> Result<(), String> {
    let top = p.top_module().expect("harness: top module");
    let mut k = Canon::new(norm);
    let a = k.circuit(top, &p.info);
    let b = conv::canon_c(&mut k, c);
    if a == b { Ok(()) } else { Err(conv::diff(&k, &a, &b)) }
}

pub fn same_c(x: &fa::Circuit, y: &fa::Circuit, norm: bool) -> Result<(), String> {
    let mut k = Canon::new(norm);
    let a = conv::canon_c(&mut k, x);
    let b = conv::canon_c(&mut k, y);
    if a == b { Ok(()) } else { Err(conv::diff(&k, &a, &b)) }
}

/// Vary the generator's configuration
pub fn cfg(r: &mut Rng, base: Cfg) -> Cfg {
    let mut c = base;
    match r.below(12) {
        0 => { c.modules = 1; c.stmts = 30 }
        1 => { c.modules = 9; c.stmts = 4 }
        2 => { c.depth = 6; c.stmts = 4 }
        3 => { c.when_depth = 7; c.stmts = 6; c.depth = 1 }
        4 => { c.modules = 1; c.stmts = 2; c.depth = 1 }
        5 => { c.info = 100 }
        6 => { c.info = 0; c.hostile = false }
        7 => { c.modules = 2; c.stmts = 60; c.depth = 2; c.when_depth = 2 }
        _ => (),
    }
    c
}

pub fn gen_prog(r: &mut Rng, base: Cfg) -> Prog {
    let c = cfg(r, base);
    G::new(r, c).prog()
}

pub fn n_stmts(p: &Prog) -> usize {
    let mut n = 0;
    for m in &p.modules {
        walk_stmts(m.stmts(), &mut |_| n += 1);
    }
    n
}

/// Account for what a program contains
pub fn tally(c: &mut crate::fw::Case, p: &Prog) {
    c.add("modules", p.modules.len() as u64);
    let (mut s, mut e) = (0, 0);
    for m in &p.modules {
        match &m.k {
            MK::Ext(..) => c.count("external modules"),
            MK::Reg(v) => walk_stmts(v, &mut |st| {
                s += 1;
                for x in st_exprs(st) {
                    walk_ex(x, &mut |_| e += 1);
                }
                c.count(match &st.k {
                    StK::Conn(..) => "connect",
                    StK::Part(..) => "partial connect",
                    StK::Skip => "skip",
                    StK::Decl(e) => match e.k {
                        EntK::Port(_) => "port?",
                        EntK::Wire(_) => "wire",
                        EntK::Reg(_, _, None) => "reg",
                        EntK::Reg(_, _, Some(_)) => "reg with reset",
                        EntK::Node(_) => "node",
                        EntK::Mem(_) => "mem",
                        EntK::MPort(..) => "mport",
                        EntK::Inst(_) => "inst",
                    },
                    StK::SMem(_) => "simple mem",
                    StK::Inval(_) => "invalidate",
                    StK::Attach(_) => "attach",
                    StK::When(_, _, b) => if b.is_empty() { "when" } else { "when/else" },
                    StK::Stop(..) => "stop",
                    StK::Print(..) => "printf",
                });
            }),
        }
    }
    c.add("statements", s);
    c.add("expression nodes", e);
}

/// A literal rendering of text for messages
pub fn q(s: &str) -> String {
    let mut o = String::from("--- text:\n");
    o.push_str(s);
    if !s.ends_with('\n') {
        o.push('\n');
    }
    o.push_str("---");
    o
}
