//! C01-C04: formatting and parsing

use firrtl_ast as fa;

use super::util::*;
use crate::conv::{self, Build, CC};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, Env, G};
use crate::model::*;
use crate::refparse::{self, Frag, FragK, V};
use crate::text;

fn reach() -> Cfg {
    Cfg { reach: true, ..Default::default() }
}

// ------------------------------------------------------------------- C01

fn c01_round(c: &mut Case) -> Verdict {
    let norm = c.r.chance(1, 2);
    let p = gen_prog(&mut c.r, Cfg { reach: c.idx % 2 == 0, shadow: c.idx % 5 == 0, norm, ..Default::default() });
    let top = p.top_module().expect("harness: top");
    let x = Build::new().circuit(top, &p.info);
    let s = show(&x).map_err(|e| format!("{}\nmodel: {:?}", e, p))?;
    let y = parse(&s).map_err(|e| format!("formatted circuit does not parse: {}\n{}", e, q(&s)))?;
    c.eval();
    tally(c, &p);
    same(&p, &y, true).map_err(|d| format!("parsed circuit differs:\n{}\n{}", d, q(&s)))?;
    if norm {
        ensure!(x == y, "circuit parsed back is != the original\n{}", q(&s));
        ensure!(y == x, "original is != the circuit parsed back\n{}", q(&s));
        c.count("compared with ==");
    }
    // And again: what was parsed formats to the same circuit
    let s2 = show(&y)?;
    let z = parse(&s2).map_err(|e| format!("formatted circuit does not parse: {}\n{}", e, q(&s2)))?;
    same_c(&y, &z, false).map_err(|d| format!("second round trip differs:\n{}\n{}", d, q(&s2)))?;
    if n_stmts(&p) > 0 {
        c.nontrivial(&s);
    }
    c.sample(|| s.clone());
    Ok(())
}

/// One construct at a time, in a small module
fn c01_small(c: &mut Case) -> Verdict {
    let p = G::new(&mut c.r, Cfg { modules: 2, stmts: 3, depth: 2, when_depth: 1, reach: true, norm: true, ..Default::default() }).prog();
    let top = p.top_module().expect("harness: top");
    let x = Build::new().circuit(top, &p.info);
    let s = show(&x)?;
    let y = parse(&s).map_err(|e| format!("formatted circuit does not parse: {}\n{}", e, q(&s)))?;
    c.eval();
    same(&p, &y, true).map_err(|d| format!("parsed circuit differs:\n{}\n{}", d, q(&s)))?;
    ensure!(x == y && y == x, "circuit parsed back is != the original\n{}", q(&s));
    c.nontrivial(&s);
    Ok(())
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "random well-formed circuits built through the public constructors, formatted and parsed back; non-trivial: at least one statement; distinct by formatted text",
        assumptions: &["module names distinct", "nothing named 'else'", "finite doubles", "vector of print literals compared modulo merging", "an identifier does not start with a digit"],
        parts: vec![
            Part { name: "round", quick: 72000, thorough: 500000, f: c01_round },
            Part { name: "small", quick: 72000, thorough: 500000, f: c01_small },
        ],
        must: &["compared with ==", "mem", "inst", "printf", "reg with reset", "external modules", "mport", "when/else"],
    }
}

// ------------------------------------------------------------------- C02

fn c02_parse(c: &mut Case) -> Verdict {
    let p = gen_prog(&mut c.r, Cfg { reach: c.idx % 2 == 0, shadow: c.idx % 3 == 0, ..Default::default() });
    let s = text::prog_text(&mut c.r, &p);
    // The reference reader agrees with the model the text was made of
    match refparse::read(&s, false) {
        V::Accept(o) => {
            let mut k = Canon::new(true);
            let a = k.circuit(p.top_module().expect("harness: top"), &p.info);
            let b = k.circuit(o.top_module().expect("harness: top"), &o.info);
            assert!(a == b, "harness: reference reader differs: {}\n{}", conv::diff(&k, &a, &b), q(&s));
        }
        V::Reject { why, line, .. } => panic!("harness: reference reader rejects {:?}: {}\n{}", line, why, q(&s)),
        V::Unspec(w) => panic!("harness: reference reader undecided: {}\n{}", w, q(&s)),
    }
    c.eval();
    tally(c, &p);
    let y = parse(&s).map_err(|e| format!("valid text is rejected: {}\n{}", e, q(&s)))?;
    same(&p, &y, true).map_err(|d| format!("parsed circuit differs from the text:\n{}\n{}", d, q(&s)))?;
    // Every module, not only those reachable
    let cons = fa::circuit::consumer(&s).map_err(|e| format!("valid text is rejected by consumer: {}\n{}", e, q(&s)))?;
    let mut k = Canon::new(true);
    let mut cc = CC::new();
    let mut n = 0;
    for m in cons {
        let m = m.map_err(|e| format!("valid module rejected by consumer: {}\n{}", show(&e).unwrap_or_default(), q(&s)))?;
        ensure!(n < p.modules.len(), "more modules than in the text\n{}", q(&s));
        let a = k.module(&p.modules[n]);
        let b = cc.module(&mut k, &m);
        ensure!(a == b, "module {} differs from the text:\n{}\n{}", n, {
            let (a, b) = (k.def(a).to_string(), k.def(b).to_string());
            conv::diff(&k, &a, &b)
        }, q(&s));
        n += 1;
        c.count("modules compared");
    }
    ensure!(n == p.modules.len(), "{} of {} modules yielded\n{}", n, p.modules.len(), q(&s));
    if n_stmts(&p) > 0 {
        c.nontrivial(&s);
    }
    c.sample(|| s.clone());
    Ok(())
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        rule: "texts rendered from random model circuits in random legal spellings and layouts; non-trivial: at least one statement; distinct by text",
        assumptions: &["the harness' rendering and its independent reader agree on every text (checked per case)"],
        parts: vec![Part { name: "parse", quick: 75000, thorough: 700000, f: c02_parse }],
        must: &["modules compared", "mem", "inst", "printf", "reg with reset", "external modules", "mport", "when/else"],
    }
}

// ------------------------------------------------------------------- C03

fn c03_circuit(c: &mut Case) -> Verdict {
    let p = gen_prog(&mut c.r, Cfg { reach: c.idx % 2 == 0, shadow: c.idx % 5 == 0, ..Default::default() });
    let top = p.top_module().expect("harness: top");
    let x = Build::new().circuit(top, &p.info);
    let s = show(&x)?;
    c.eval();
    tally(c, &p);
    match refparse::read(&s, true) {
        V::Accept(o) => {
            let mut k = Canon::new(true);
            let a = k.circuit(top, &p.info);
            let b = k.circuit(o.top_module().expect("harness: top"), &o.info);
            ensure!(a == b, "formatted text does not state the circuit:\n{}\n{}", conv::diff(&k, &a, &b), q(&s));
        }
        V::Reject { why, line, .. } => return Err(format!("formatted text is not FIRRTL, line {:?}: {}\n{}", line, why, q(&s))),
        V::Unspec(w) => return Err(format!("formatted text is not clearly FIRRTL: {}\n{}", w, q(&s))),
    }
    for (n, l) in s.split_inclusive('\n').enumerate() {
        ensure!(l.ends_with('\n'), "formatted line {} is not terminated\n{}", n + 1, q(&s));
    }
    if n_stmts(&p) > 0 {
        c.nontrivial(&s);
    }
    c.sample(|| s.clone());
    Ok(())
}

/// Environment of some entities to refer to
fn env(c: &mut Case, n: usize) -> Env {
    let mut e = Env { budget: 3000, ..Default::default() };
    let mut g = G::new(&mut c.r, Cfg { norm: true, ..Default::default() });
    let mut used = std::collections::HashSet::new();
    for _ in 0..2 {
        let p = g.port(&mut used);
        g.add_ent(&mut e, std::rc::Rc::new(Ent { name: p.name.clone(), k: EntK::Port(p) }));
    }
    let name = g.ident(&mut used);
    e.names = used;
    let m = g.module(name, &[], &[]);
    e.mods.push(m);
    g.sts(&mut e, 1, n);
    e
}

fn mk<'a>(s: &'a str, env: &Env) -> refparse::P<'a> {
    refparse::P::new(s, true)
        .with_ents(env.ents.iter().map(|x| x.0.clone()).collect::<Vec<_>>())
        .with_smems(env.smems.clone())
        .with_mods(env.mods.iter().map(|x| x.0.clone()).collect::<Vec<_>>())
}

fn c03_frag(c: &mut Case) -> Verdict {
    let e0 = env(c, 6);
    let mut e = e0.clone();
    let what = c.r.below(6);
    let mut k = Canon::new(true);
    let mut b = Build::new();
    c.eval();
    let s;
    match what {
        0 => {
            let mut g = G::new(&mut c.r, Cfg::default());
            let t = g.ty(4);
            s = show(&conv::b_ty(&t))?;
            match mk(&s, &e).frag(FragK::Ty) {
                Ok(Frag::Ty(u)) => ensure!(t == u, "type {:?} is formatted as {:?}", t, s),
                Ok(_) => panic!("harness: fragment kind"),
                Err(w) => return Err(format!("type {:?} is formatted as {:?}, which is not a type: {}", t, s, w)),
            }
            if let Ty::G(g) = &t {
                let s2 = show(&conv::b_gr(g))?;
                ensure!(s2 == s, "ground type is formatted as {:?}, as a type {:?}", s2, s);
            }
            if let Ty::B(v) = &t {
                for f in v {
                    let fs = show(&conv::b_fld(f))?;
                    let w = format!("{{{}}}", fs);
                    match mk(&w, &e).frag(FragK::Ty) {
                        Ok(Frag::Ty(Ty::B(u))) => ensure!(u.len() == 1 && u[0] == *f, "field {:?} is formatted as {:?}", f, fs),
                        _ => return Err(format!("field {:?} is formatted as {:?}", f, fs)),
                    }
                }
            }
            c.count("types");
        }
        1 => {
            let mut g = G::new(&mut c.r, Cfg::default());
            let x = g.ex(&mut e, 4);
            let y = b.ex(&x);
            s = show(&y)?;
            match mk(&s, &e).frag(FragK::Ex) {
                Ok(Frag::Ex(z)) => {
                    let (p, o) = (k.ex(&x), k.ex(&z));
                    ensure!(p == o, "expression is formatted as {:?}\nexpected {}\nactual   {}", s, p, o);
                }
                Ok(_) => panic!("harness: fragment kind"),
                Err(w) => return Err(format!("expression {} is formatted as {:?}, which is not one: {}", k.ex(&x), s, w)),
            }
            if let fa::Expression::PrimitiveOp(o) = &y {
                let s2 = show(o)?;
                ensure!(s == s2, "operation is formatted as {:?}, as an expression {:?}", s2, s);
                c.count("operations");
            }
            c.count("expressions");
        }
        2 => {
            let mut g = G::new(&mut c.r, Cfg::default());
            let mut used = std::collections::HashSet::new();
            let p = g.port(&mut used);
            let y = b.port(&p);
            s = show(y.as_ref())?;
            match mk(&s, &e).frag(FragK::Port) {
                Ok(Frag::Port(o)) => ensure!(c_port(&p) == c_port(&o), "port {} is formatted as {:?}", c_port(&p), s),
                Ok(_) => panic!("harness: fragment kind"),
                Err(w) => return Err(format!("port {} is formatted as {:?}, which is not one: {}", c_port(&p), s, w)),
            }
            let d = show(&y.direction())?;
            ensure!(d == if p.out { "output" } else { "input" } && d == y.direction().keyword(), "direction is formatted as {:?}", d);
            c.count("ports");
        }
        _ => {
            // Declarations formatted through their own Display
            let mut g = G::new(&mut c.r, Cfg::default());
            let name = loop {
                let n = g.raw_ident();
                if n != "else" { break n }
            };
            let kind = g.r.below(4);
            let ek = match kind {
                0 => {
                    let t = g.ty(3);
                    let r = if g.r.chance(1, 2) { Some((g.ex(&mut e, 2), g.ex(&mut e, 2))) } else { None };
                    EntK::Reg(t, g.ex(&mut e, 2), r)
                }
                1 => EntK::Inst(e.mods[0].0.clone()),
                2 => {
                    if e.smems.is_empty() {
                        let m = std::rc::Rc::new(SMem { name: "m".into(), ty: g.ty(2), seq: None });
                        e.smems.push(m);
                    }
                    let m = g.r.pick(&e.smems).clone();
                    let d = *g.r.pick(&[Some(Dir::R), Some(Dir::W), Some(Dir::RW), None]);
                    EntK::MPort(m, d, g.ex(&mut e, 2), g.ex(&mut e, 2))
                }
                _ => {
                    let m = SMem { name: name.clone(), ty: g.ty(3), seq: *g.r.pick(&[None, Some(None), Some(Some(Ruw::Old)), Some(Some(Ruw::New)), Some(Some(Ruw::Undef))]) };
                    let m = std::rc::Rc::new(m);
                    s = show(b.smem(&m).as_ref())?;
                    match mk(&format!("{}\n", s), &e).frag(FragK::St) {
                        Ok(Frag::St(St { k: StK::SMem(o), info: None })) => {
                            let (p, o) = (k.smem(&m), k.smem(&o));
                            ensure!(p == o, "memory {} is formatted as {:?}", k.def(p), s);
                        }
                        Ok(_) => return Err(format!("memory is formatted as {:?}", s)),
                        Err(w) => return Err(format!("memory is formatted as {:?}, which is not one: {}", s, w)),
                    }
                    c.count("simple memories");
                    c.nontrivial(&s);
                    return Ok(());
                }
            };
            let ent = std::rc::Rc::new(Ent { name, k: ek });
            let y = b.ent(&ent);
            s = match y.as_ref() {
                fa::stmt::Entity::Register(r) => show(r)?,
                fa::stmt::Entity::Instance(i) => show(i)?,
                fa::stmt::Entity::SimpleMemPort(p) => show(p)?,
                _ => panic!("harness: entity kind"),
            };
            match mk(&format!("{}\n", s), &e).frag(FragK::St) {
                Ok(Frag::St(St { k: StK::Decl(o), info: None })) => {
                    let (p, o) = (k.ent(&ent), k.ent(&o));
                    ensure!(p == o, "{} is formatted as {:?}, which means {}", k.def(p), s, k.def(o));
                }
                Ok(_) => return Err(format!("declaration is formatted as {:?}", s)),
                Err(w) => return Err(format!("declaration {:?} is formatted as {:?}, which is not one: {}", ent, s, w)),
            }
            c.count(match kind { 0 => "registers", 1 => "instances", _ => "memory ports" });
        }
    }
    c.nontrivial(&s);
    c.sample(|| s.clone());
    Ok(())
}

/// Keywords and attribute words
fn c03_words(c: &mut Case) -> Verdict {
    use fa::memory::{mem, PortDir, ReadUnderWrite as R};
    c.eval();
    let t = |a: String, b: &str| if a == b { Ok(()) } else { Err(format!("{:?} should be formatted {:?}", a, b)) };
    t(show(&R::Old)?, "old")?;
    t(show(&R::New)?, "new")?;
    t(show(&R::Undefined)?, "undefined")?;
    let name = G::new(&mut c.r, Cfg::default()).raw_ident();
    for (d, w) in [(PortDir::Read, "reader"), (PortDir::Write, "writer"), (PortDir::ReadWrite, "readwriter")] {
        t(show(&mem::Port { name: name.as_str().into(), dir: d })?, &format!("{} => {}", w, name))?;
    }
    let v = G::new(&mut c.r, Cfg::default()).pv();
    let s = show(&conv::b_pv(&v))?;
    let txt = format!("circuit a:\n  extmodule a:\n    parameter p = {}\n", s);
    match refparse::read(&txt, true) {
        V::Accept(p) => match &p.modules[0].k {
            MK::Ext(_, ps) => ensure!(ps.len() == 1 && c_pv(&ps[0].1) == c_pv(&v), "parameter {} is formatted as {:?}", c_pv(&v), s),
            _ => panic!("harness: module kind"),
        },
        V::Reject { why, .. } | V::Unspec(why) => return Err(format!("parameter {} is formatted as {:?}: {}", c_pv(&v), s, why)),
    }
    c.nontrivial(&s);
    c.count("parameters");
    Ok(())
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        rule: "formatted text of random circuits and fragments, read by an independent reader of the FIRRTL grammar; distinct by text",
        assumptions: &["an escaped line break in string parameters and infos denotes the line break (the crate's spelling)"],
        parts: vec![
            Part { name: "circuit", quick: 120000, thorough: 500000, f: c03_circuit },
            Part { name: "fragment", quick: 150000, thorough: 500000, f: c03_frag },
            Part { name: "words", quick: 30000, thorough: 100000, f: c03_words },
        ],
        must: &["types", "expressions", "operations", "ports", "registers", "instances", "memory ports", "simple memories", "parameters"],
    }
}

// ------------------------------------------------------------------- C04

fn c04_layout(c: &mut Case) -> Verdict {
    let p = gen_prog(&mut c.r, Cfg { reach: c.idx % 2 == 0, ..Default::default() });
    let vary = c.r.chance(2, 3);
    let lines = text::prog_lines(&mut c.r, vary, &p);
    let (a, _) = text::layout(&mut c.r, &text::Lay::plain(), &lines);
    let x = parse(&a).map_err(|e| format!("valid text is rejected: {}\n{}", e, q(&a)))?;
    for i in 0..3 {
        let lay = match i {
            // single aspects as well as mixtures
            0 => text::Lay::random(&mut c.r),
            1 => text::Lay { vary: true, tabs: false, crlf: false, comments: false, big: false },
            _ => text::Lay { vary: true, tabs: true, crlf: true, comments: true, big: c.r.chance(1, 4) },
        };
        let (b, _) = text::layout(&mut c.r, &lay, &lines);
        c.eval();
        let y = parse(&b).map_err(|e| format!("layout changes acceptance: {}\n{}", e, q(&b)))?;
        same_c(&x, &y, false).map_err(|d| format!("layout changes the circuit:\n{}\n{}\nversus\n{}", d, q(&a), q(&b)))?;
        ensure!(x == y, "circuits from two layouts are !=\n{}\nversus\n{}", q(&a), q(&b));
        c.add("lines laid out", lines.len() as u64);
        c.add("comments", b.matches(';').count() as u64);
        c.add("CRLF line ends", b.matches("\r\n").count() as u64);
        c.add("tabs", b.matches('\t').count() as u64);
        c.add("modules compared", p.modules.len() as u64);
        if b != a {
            c.nontrivial(&b);
        }
        c.sample(|| b.clone());
    }
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        rule: "one token sequence in four layouts (blank lines, comments, spaces and tabs between tokens, line ends, indentation per block); non-trivial: text differs from the plain layout",
        assumptions: &["tabs are not used for indentation"],
        parts: vec![Part { name: "layout", quick: 36000, thorough: 250000, f: c04_layout }],
        must: &["comments", "CRLF line ends", "tabs"],
    }
}
