//! C25: builders and accessors

use std::collections::HashMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

use firrtl_ast as fa;
use fa::expr::{Flow, Reference};
use fa::info::WithInfo;
use fa::memory::{mem, simple, PortDir, ReadUnderWrite};
use fa::module::{Direction, Instance, Kind as MKind, Module as CModule, ParamValue, Port as CPort};
use fa::stmt::{Entity, Kind as SK, Statement};
use fa::types::{BundleField, Orientation, TypeExt, Typed};
use fa::{GroundType as GT, Named, Type};

use crate::conv::{self, Build};
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, Env, G};
use crate::model::*;
use crate::typing;

fn eq<T: PartialEq + Debug>(c: &mut Case, what: &str, got: T, want: T) -> Verdict {
    c.eval();
    ensure!(got == want, "{}: {:?}, expected {:?}", what, got, want);
    Ok(())
}

/// Histories of info operations on anything that carries one
fn infos<T: WithInfo + Clone + Debug>(c: &mut Case, what: &str, mut x: T, mut want: Option<String>, rest: &dyn Fn(&T) -> String) -> Verdict {
    let r0 = rest(&x);
    for _ in 0..4 {
        let old = x.clone();
        let was = want.clone();
        let op = c.r.below(4);
        let new = match c.r.below(4) {
            0 => None,
            1 => Some(String::new()),
            _ => Some(G::new(&mut c.r, Cfg::default()).text()),
        };
        match op {
            0 => { x.set_info(new.clone()); want = new }
            1 => { x = x.with_info(new.clone()); want = new }
            2 => { x.clear_info(); want = None }
            _ => { x = x.clone() }
        }
        eq(c, &format!("info of {} after operation {}", what, op), x.info().map(String::from), want.clone())?;
        eq(c, &format!("rest of {} after operation {} on its info", what, op), rest(&x), r0.clone())?;
        eq(c, &format!("info of {} copied before operation {}", what, op), old.info().map(String::from), was)?;
        c.count("info operations");
    }
    Ok(())
}

struct World {
    env: Env,
    b: Build,
}

impl World {
    fn new(c: &mut Case) -> Self {
        let mut e = Env { budget: 500, ..Default::default() };
        let mut g = G::new(&mut c.r, Cfg { budget: 500, depth: 1, stmts: 4, ..Default::default() });
        for n in ["p", "q"] {
            let p = Rc::new(Port { name: n.into(), ty: g.ty(2), out: false, info: None });
            g.add_ent(&mut e, Rc::new(Ent { name: p.name.clone(), k: EntK::Port(p) }));
        }
        World { env: e, b: Build::new() }
    }
    fn ex(&mut self, c: &mut Case) -> (Ex, conv::CEx) {
        let d = c.r.below(3);
        let x = G::new(&mut c.r, Cfg::default()).ex(&mut self.env, d);
        let y = self.b.ex(&x);
        (x, y)
    }
}

fn name(c: &mut Case) -> String {
    match c.r.below(10) {
        0 => String::new(),
        1 => G::new(&mut c.r, Cfg::default()).text(),
        _ => G::new(&mut c.r, Cfg::default()).raw_ident(),
    }
}
fn ty(c: &mut Case) -> Ty {
    let d = c.r.below(4);
    G::new(&mut c.r, Cfg::default()).ty(d)
}

// ------------------------------------------------------------- modules

fn port_obs(p: &CPort) -> String {
    format!("{:?} {:?} {} {}", p.name(), p.name_ref(), c_port(&conv::m_port(p)), match p.r#type() { t => c_ty(&conv::m_ty(t)) })
}

fn c25_ports(c: &mut Case) -> Verdict {
    let (n, t, out) = (name(c), ty(c), c.r.chance(1, 2));
    let d = if out { Direction::Output } else { Direction::Input };
    let p = CPort::new(n.as_str(), conv::b_ty(&t), d);
    eq(c, "name of a port", p.name().as_ref(), n.as_str())?;
    eq(c, "name of a port", p.name_ref(), n.as_str())?;
    eq(c, "type of a port", conv::m_ty(p.r#type()), t.clone())?;
    eq(c, "type of a port", Typed::r#type(&p).ok().map(|t| conv::m_ty(&t)), Some(t.clone()))?;
    eq(c, "direction of a port", p.direction(), d)?;
    eq(c, "info of a new port", p.info(), None)?;
    eq(c, "flow of a port", Reference::flow(&p), Some(if out { Flow::Sink } else { Flow::Source }))?;
    let a = Arc::new(p.clone());
    eq(c, "name of a shared port", a.name().as_ref(), n.as_str())?;
    infos(c, "a port", p, None, &|p| port_obs(&p.clone().with_info(None)))?;
    c.nontrivial(&format!("{:?} {}", n, c_ty(&t)));
    c.count("ports");
    Ok(())
}

fn kind_obs(k: &MKind) -> String {
    match k {
        MKind::Regular { stmts } => format!("regular {:?}", stmts),
        MKind::External { defname, params } => {
            let mut v: Vec<_> = params.iter().map(|x| format!("{:?}", x)).collect();
            v.sort();
            format!("external {:?} {:?}", defname, v)
        }
    }
}

fn c25_modules(c: &mut Case) -> Verdict {
    let mut w = World::new(c);
    let n = name(c);
    let np = if c.r.chance(1, 12) { c.r.below(100) } else { c.r.below(8) };
    // Names repeat
    let ports: Vec<(String, Ty, bool)> = (0..np).map(|_| {
        let n = if c.r.chance(1, 2) { c.r.pick(&["a", "b", "ab", "A", "a_", ""]).to_string() } else { name(c) };
        (n, Ty::G(Gr::U(Some(c.r.below(9) as u16))), c.r.chance(1, 2))
    }).collect();
    let built: Vec<_> = ports.iter().map(|(n, t, o)| Arc::new(CPort::new(n.as_str(), conv::b_ty(t), if *o { Direction::Output } else { Direction::Input }))).collect();
    let stmts = G::new(&mut c.r, Cfg { depth: 1, ..Default::default() }).sts(&mut w.env, 1, 4);
    let ext = c.r.chance(1, 3);
    let mut params = HashMap::new();
    if ext {
        for _ in 0..c.r.below(4) {
            let v = G::new(&mut c.r, Cfg::default()).pv();
            params.insert(Arc::<str>::from(name(c).as_str()), conv::b_pv(&v));
        }
    }
    let bs = w.b.sts(&stmts);
    let kind = if ext { MKind::External { defname: Some("D".into()), params } } else { MKind::Regular { stmts: bs.clone() } };
    eq(c, "keyword of a module kind", kind.keyword(), if ext { "extmodule" } else { "module" })?;
    eq(c, "statements of a module kind", kind.statements() == if ext { &[][..] } else { &bs[..] }, true)?;
    let mut m = CModule::new(n.as_str().into(), built.clone(), kind.clone());
    let info = m.info().map(String::from);
    eq(c, "info of a new module", info, None)?;
    let mut cur = kind;
    let mut info: Option<String> = None;
    for step in 0..5 {
        eq(c, "name of a module", m.name().as_ref(), n.as_str())?;
        eq(c, "kind of a module", kind_obs(m.kind()), kind_obs(&cur))?;
        eq(c, "statements of a module", m.statements() == cur.statements(), true)?;
        eq(c, "info of a module", m.info().map(String::from), info.clone())?;
        let got: Vec<_> = m.ports().map(Arc::as_ptr).collect();
        eq(c, "ports of a module", got, built.iter().map(Arc::as_ptr).collect())?;
        for (i, (n, ..)) in ports.iter().enumerate() {
            let first = ports.iter().position(|x| x.0 == *n).unwrap();
            let got = m.port_by_name(n).map(Arc::as_ptr);
            eq(c, &format!("port {} looked up by its name {:?}", i, n), got, Some(Arc::as_ptr(&built[first])))?;
            if first != i {
                c.count("ports of the same name");
            }
        }
        for k in ["nope", "a ", " a", "aa", "b", "AB", ""] {
            let want = ports.iter().position(|x| x.0 == k).map(|i| Arc::as_ptr(&built[i]));
            let got = m.port_by_name(&k).map(Arc::as_ptr);
            if want.is_none() {
                c.count("ports not found");
            }
            eq(c, &format!("port looked up as {:?}", k), got, want)?;
        }
        let old = m.clone();
        match c.r.below(5) {
            0 => {
                cur = if c.r.chance(1, 2) { MKind::empty_external() } else { MKind::empty_regular() };
                *m.kind_mut() = cur.clone();
            }
            1 => if let MKind::Regular { stmts } = m.kind_mut() {
                let s = Statement::from(SK::Empty).with_info(Some(format!("s{}", step)));
                stmts.push(s.clone());
                if let MKind::Regular { stmts } = &mut cur {
                    stmts.push(s);
                }
                c.count("statements added in place");
            },
            2 => if let MKind::External { params, defname } = m.kind_mut() {
                params.insert("P".into(), ParamValue::Int(step));
                *defname = None;
                if let MKind::External { params, defname } = &mut cur {
                    params.insert("P".into(), ParamValue::Int(step));
                    *defname = None;
                }
            },
            3 => {
                info = Some(format!("i{}", step));
                m.set_info(info.clone());
            }
            _ => {
                info = None;
                m = m.with_info(None);
            }
        }
        eq(c, "name of a copied module", old.name().as_ref(), n.as_str())?;
        c.count("module operations");
    }
    infos(c, "a module", m.clone(), info, &|m| format!("{:?} {} {:?}", m.name(), kind_obs(m.kind()), m.ports().map(Arc::as_ptr).collect::<Vec<_>>()))?;
    // Instances and circuits
    let m = Arc::new(m);
    let n = name(c);
    let i = Instance::new(n.as_str(), m.clone());
    eq(c, "name of an instance", i.name().as_ref(), n.as_str())?;
    eq(c, "module of an instance", Arc::as_ptr(i.module()), Arc::as_ptr(&m))?;
    let x = fa::Circuit::new(m.clone());
    eq(c, "top module of a circuit", Arc::as_ptr(x.top_module()), Arc::as_ptr(&m))?;
    eq(c, "info of a new circuit", x.info(), None)?;
    infos(c, "a circuit", x, None, &|x| format!("{:?}", Arc::as_ptr(x.top_module())))?;
    // Kinds
    eq(c, "default module kind", kind_obs(&MKind::default()), "regular []".into())?;
    eq(c, "empty regular kind", kind_obs(&MKind::empty_regular()), "regular []".into())?;
    eq(c, "empty external kind", kind_obs(&MKind::empty_external()), "external None []".into())?;
    eq(c, "statements of external kind", MKind::empty_external().statements().len(), 0)?;
    c.nontrivial(&format!("{:?}", ports));
    Ok(())
}

// ---------------------------------------------------------- statements

fn c25_stmts(c: &mut Case) -> Verdict {
    let mut w = World::new(c);
    let s = G::new(&mut c.r, Cfg { depth: 1, info: 0, ..Default::default() }).st(&mut w.env, 1);
    let mut m = s.clone();
    m.info = None;
    let x = w.b.st(&m);
    let k = x.kind().clone();
    let y = Statement::from(k.clone());
    eq(c, "kind of a statement", y.kind() == &k, true)?;
    eq(c, "kind of a statement by AsRef", AsRef::<SK>::as_ref(&y) == &k, true)?;
    eq(c, "info of a new statement", y.info(), None)?;
    infos(c, "a statement", y, None, &|y| format!("{:?}", y.kind()))?;
    if let (SK::Declaration(e), StK::Decl(d)) = (&k, &m.k) {
        eq(c, "name of an entity", e.name().as_ref(), d.name.as_str())?;
        eq(c, "name of an entity", e.name_ref(), d.name.as_str())?;
        eq(c, "declarability of an entity", e.is_declarable(), true)?;
        c.count("entities");
    }
    let p = Arc::new(CPort::new("x", Type::GroundType(GT::Clock), Direction::Input));
    let e = Entity::from(p.clone());
    eq(c, "declarability of a port", e.is_declarable(), false)?;
    eq(c, "port entity", matches!(&e, Entity::Port(q) if Arc::ptr_eq(q, &p)), true)?;
    c.nontrivial(&format!("{:?}", k));
    c.count("statements");
    Ok(())
}

// ------------------------------------------------------------ memories

fn obs_reg(w: &mut World, r: &fa::Register<Arc<Entity>>) -> String {
    let mut k = Canon::new(false);
    let mut cc = conv::CC::new();
    let _ = w;
    let e = Entity::Register(r.clone());
    cc.ent_str(&mut k, &e) + &k.dump()
}

fn c25_regs(c: &mut Case) -> Verdict {
    let mut w = World::new(c);
    let (n, t) = (name(c), ty(c));
    let (ck, bck) = w.ex(c);
    let mut r = fa::Register::new(n.as_str(), conv::b_ty(&t), bck);
    let mut rst: Option<(Ex, Ex)> = None;
    for step in 0..6 {
        eq(c, "name of a register", r.name().as_ref(), n.as_str())?;
        eq(c, "type of a register", r.r#type().ok().map(|t| conv::m_ty(&t)), Some(t.clone()))?;
        let want = w.b.ex(&ck);
        eq(c, "clock of a register", r.clock() == &want, true)?;
        let (a, b) = match &rst {
            None => (None, None),
            Some((a, b)) => (Some(w.b.ex(a)), Some(w.b.ex(b))),
        };
        ensure!(r.reset_signal() == a.as_ref(), "reset signal of a register after step {}: {:?}, expected {:?}", step, r.reset_signal(), a);
        ensure!(r.reset_value() == b.as_ref(), "reset value of a register after step {}: {:?}, expected {:?}", step, r.reset_value(), b);
        let e = Rc::new(Ent { name: n.clone(), k: EntK::Reg(t.clone(), ck.clone(), rst.clone()) });
        let other = Build::new().ent(&e);
        eq(c, "register of the same attributes", Entity::from(r.clone()) == *other, true)?;
        let old = r.clone();
        let was = obs_reg(&mut w, &old);
        let (x, bx) = w.ex(c);
        let (y, by) = w.ex(c);
        match c.r.below(5) {
            0 => { r = r.with_reset(bx, by); rst = Some((x, y)); c.count("resets set") }
            1 => { r = r.with_optional_reset(Some((bx, by))); rst = Some((x, y)); c.count("resets set") }
            2 => { r = r.with_optional_reset(None); rst = None; c.count("resets removed") }
            3 => { r = r.without_reset(); rst = None; c.count("resets removed") }
            _ => { r = r.clone() }
        }
        let now = obs_reg(&mut w, &old);
        eq(c, "copy of a register", now, was)?;
    }
    eq(c, "flow of a register", Reference::flow(&r), Some(Flow::Duplex))?;
    c.nontrivial(&format!("{:?}", r));
    Ok(())
}

fn c25_mems(c: &mut Case) -> Verdict {
    let (n, t) = (name(c), ty(c));
    let depth = G::new(&mut c.r, Cfg::default()).depth64();
    let mut want = Mem { ty: t.clone(), depth, ports: vec![], rl: 0, wl: 0, ruw: Ruw::Undef };
    let mut m = fa::Memory::new(n.as_str(), conv::b_ty(&t), depth);
    let many = c.r.chance(1, 12);
    for step in 0..8 {
        let got = Canon::mem_str(m.name(), &conv::m_mem(&m));
        eq(c, &format!("memory after step {}", step), got, Canon::mem_str(&n, &want))?;
        eq(c, "data type of a memory", conv::m_ty(m.data_type()), want.ty.clone())?;
        eq(c, "depth of a memory", m.depth(), want.depth)?;
        eq(c, "type of a memory", m.r#type().ok().map(|t| conv::m_ty(&t)), Some(typing::mem_ty(&want)))?;
        let old = (m.clone(), want.clone());
        let mut g = G::new(&mut c.r, Cfg::default());
        match g.r.below(7) {
            0 => { let l = g.w16(); m = m.with_read_latency(l); want.rl = l; c.count("latencies set") }
            1 => { let l = g.w16(); m = m.with_write_latency(l); want.wl = l; c.count("latencies set") }
            2 => {
                let (r, x) = *g.r.pick(&[(Ruw::Old, ReadUnderWrite::Old), (Ruw::New, ReadUnderWrite::New), (Ruw::Undef, ReadUnderWrite::Undefined)]);
                m = m.with_read_under_write(x);
                want.ruw = r;
                eq(c, "read-under-write", m.read_under_write(), x)?;
            }
            3 | 4 => {
                let p = (g.raw_ident(), *g.r.pick(&[Dir::R, Dir::W, Dir::RW]));
                m.add_port(mem::Port { name: p.0.as_str().into(), dir: conv::b_dir(p.1) });
                want.ports.push(p);
                c.count("ports added");
            }
            5 => {
                let k = if many { g.r.below(60) } else { g.r.below(4) };
                let v: Vec<_> = (0..k).map(|_| (g.raw_ident(), *g.r.pick(&[Dir::R, Dir::W, Dir::RW]))).collect();
                m.add_ports(v.iter().map(|p| mem::Port { name: p.0.as_str().into(), dir: conv::b_dir(p.1) }));
                want.ports.extend(v);
                c.count("ports added");
            }
            _ => m = m.clone(),
        }
        let got = Canon::mem_str(old.0.name(), &conv::m_mem(&old.0));
        eq(c, "copy of a memory", got, Canon::mem_str(&n, &old.1))?;
    }
    eq(c, "flow of a memory", Reference::flow(&m), Some(Flow::Source))?;
    c.nontrivial(&Canon::mem_str(&n, &want));

    // Simple memories and their ports
    let seq = *c.r.pick(&[None, Some(None), Some(Some(Ruw::Old)), Some(Some(Ruw::New)), Some(Some(Ruw::Undef))]);
    let k = match seq { None => simple::Kind::Combinatory, Some(r) => simple::Kind::Sequential(r.map(conv::b_ruw)) };
    let s = Arc::new(simple::Memory::new(n.as_str(), conv::b_ty(&t), k));
    eq(c, "simple memory", format!("{:?}", conv::m_smem(&s)), format!("{:?}", SMem { name: n.clone(), ty: t.clone(), seq }))?;
    eq(c, "kind of a simple memory", s.kind(), k)?;
    eq(c, "keyword of a simple memory", k.keyword(), if seq.is_none() { "cmem" } else { "smem" })?;
    let mut w = World::new(c);
    let (_, a) = w.ex(c);
    let (_, b) = w.ex(c);
    let d = *c.r.pick(&[None, Some(PortDir::Read), Some(PortDir::Write), Some(PortDir::ReadWrite)]);
    let pn = name(c);
    let p = simple::Port::new(pn.as_str(), s.clone(), d, a.clone(), b.clone());
    eq(c, "name of a memory port", p.name().as_ref(), pn.as_str())?;
    eq(c, "memory of a memory port", Arc::as_ptr(p.memory()), Arc::as_ptr(&s))?;
    eq(c, "direction of a memory port", p.direction(), d)?;
    eq(c, "address of a memory port", p.address() == &a, true)?;
    eq(c, "clock of a memory port", p.clock() == &b, true)?;
    eq(c, "flow of a memory port", Reference::flow(&p), match d {
        None => None,
        Some(PortDir::Read) => Some(Flow::Source),
        Some(PortDir::Write) => Some(Flow::Sink),
        Some(PortDir::ReadWrite) => Some(Flow::Duplex),
    })?;
    c.count("simple memory ports");
    Ok(())
}

// --------------------------------------------------------------- types

fn c25_types(c: &mut Case) -> Verdict {
    let (n, t) = (name(c), ty(c));
    let mut f = BundleField::new(n.as_str(), conv::b_ty(&t));
    let mut want = Fld { name: n.clone(), flip: false, ty: t };
    for step in 0..6 {
        let obs = |f: &BundleField| Fld { name: f.name().to_string(), flip: f.orientation() == Orientation::Flipped, ty: conv::m_ty(f.r#type()) };
        eq(c, &format!("field after step {}", step), obs(&f), want.clone())?;
        eq(c, "type of a field", Typed::r#type(&f).ok().map(|t| conv::m_ty(&t)), Some(want.ty.clone()))?;
        let old = (f.clone(), want.clone());
        match c.r.below(5) {
            0 => { let t = ty(c); f = f.with_type(conv::b_ty(&t)); want.ty = t; c.count("field types set") }
            1 => { f = f.with_orientation(Orientation::Flipped); want.flip = true; c.count("orientations set") }
            2 => { f = f.with_orientation(Orientation::Normal); want.flip = false }
            3 => { f = f.flipped(); want.flip = !want.flip; c.count("fields flipped") }
            _ => { let g = G::new(&mut c.r, Cfg::default()).gr(); f = f.with_type(conv::b_gr(&g)); want.ty = Ty::G(g) }
        }
        eq(c, "copy of a field", obs(&old.0), old.1)?;
    }
    // Accessors of types
    let t = ty(c);
    let x = conv::b_ty(&t);
    match &t {
        Ty::G(g) => {
            eq(c, "vector base of a ground type", x.vector_base().is_none(), true)?;
            eq(c, "vector of a ground type", x.vector().is_none(), true)?;
            eq(c, "fields of a ground type", x.fields().is_none(), true)?;
            eq(c, "field of a ground type", x.field("a").is_none(), true)?;
            eq(c, "ground type", x.ground_type(), Some(conv::b_gr(g)))?;
            eq(c, "ground type as type", Type::from(conv::b_gr(g)) == x, true)?;
            c.count("ground types");
        }
        Ty::V(b, n) => {
            eq(c, "vector base", x.vector_base().map(|t| conv::m_ty(t)), Some((**b).clone()))?;
            eq(c, "vector", x.vector().map(|(t, n)| (conv::m_ty(t), n)), Some(((**b).clone(), *n)))?;
            eq(c, "fields of a vector", x.fields().is_none(), true)?;
            eq(c, "field of a vector", x.field("0").is_none(), true)?;
            eq(c, "ground type of a vector", x.ground_type(), None)?;
            c.count("vectors");
        }
        Ty::B(_) => {
            eq(c, "vector base of a bundle", x.vector_base().is_none(), true)?;
            eq(c, "ground type of a bundle", x.ground_type(), None)?;
            c.count("bundles");
        }
    }
    // Bundles with fields of equal names
    let k = c.r.below(6);
    let v: Vec<Fld> = (0..k).map(|_| Fld { name: c.r.pick(&["a", "b", "ab", "A", "a0", "0"]).to_string(), flip: c.r.chance(1, 2), ty: Ty::G(Gr::U(Some(c.r.below(50) as u16))) }).collect();
    let xs = [Type::from(v.iter().map(conv::b_fld).collect::<Vec<_>>()), v.iter().map(conv::b_fld).collect::<Type>(), conv::b_ty(&Ty::B(v.clone()))];
    for x in &xs {
        eq(c, "bundle", conv::m_ty(x), Ty::B(v.clone()))?;
        let got: Option<Vec<_>> = x.fields().map(|i| i.map(|f| f.name().to_string()).collect());
        eq(c, "fields", got, Some(v.iter().map(|f| f.name.clone()).collect()))?;
        for n in ["a", "b", "ab", "A", "a0", "0", "", "nope", "a "] {
            let want = v.iter().find(|f| f.name == n).cloned();
            let got = x.field(n).map(|f| Fld { name: f.name().to_string(), flip: f.orientation() == Orientation::Flipped, ty: conv::m_ty(f.r#type()) });
            if want.is_some() {
                c.count("fields found");
            }
            eq(c, &format!("field {:?} of {}", n, c_ty(&Ty::B(v.clone()))), got, want)?;
        }
    }
    c.nontrivial(&c_ty(&Ty::B(v)));
    Ok(())
}

/// Everything finite
fn c25_tables(c: &mut Case) -> Verdict {
    use Flow as F;
    use Orientation as O;
    for (f, src, snk) in [(F::Source, true, false), (F::Sink, false, true), (F::Duplex, true, true)] {
        eq(c, &format!("{:?} is source", f), f.is_source(), src)?;
        eq(c, &format!("{:?} is sink", f), f.is_sink(), snk)?;
        eq(c, &format!("{:?} + Normal", f), f + O::Normal, f)?;
        eq(c, &format!("{:?} + Flipped", f), f + O::Flipped, match f { F::Source => F::Sink, F::Sink => F::Source, F::Duplex => F::Duplex })?;
    }
    for a in [O::Normal, O::Flipped] {
        for b in [O::Normal, O::Flipped] {
            eq(c, &format!("{:?} + {:?}", a, b), a + b, if a == b { O::Normal } else { O::Flipped })?;
        }
    }
    eq(c, "default orientation", O::default(), O::Normal)?;
    eq(c, "default read-under-write", ReadUnderWrite::default(), ReadUnderWrite::Undefined)?;
    for (r, k) in [(ReadUnderWrite::Old, "old"), (ReadUnderWrite::New, "new"), (ReadUnderWrite::Undefined, "undefined")] {
        eq(c, "keyword", r.keyword(), k)?;
    }
    eq(c, "keyword", Direction::Input.keyword(), "input")?;
    eq(c, "keyword", Direction::Output.keyword(), "output")?;
    // Widths of ground types
    let ws: Vec<Option<u16>> = vec![None, Some(0), Some(1), Some(2), Some(255), Some(256), Some(32767), Some(32768), Some(65535)];
    let ps: Vec<Option<i16>> = vec![None, Some(0), Some(1), Some(-1), Some(i16::MAX), Some(i16::MIN)];
    for w in &ws {
        let mut gs = vec![Gr::U(*w), Gr::S(*w), Gr::A(*w), Gr::Clock, Gr::Reset, Gr::AReset];
        gs.extend(ps.iter().map(|p| Gr::F(*w, *p)));
        for g in gs {
            let x = conv::b_gr(&g);
            let want = match g { Gr::Clock | Gr::Reset | Gr::AReset => Some(1), _ => *w };
            eq(c, &format!("width of {}", c_gr(&g)), x.width(), want)?;
            for v in &ws {
                let want = match g {
                    Gr::U(_) => Gr::U(*v),
                    Gr::S(_) => Gr::S(*v),
                    Gr::A(_) => Gr::A(*v),
                    Gr::F(_, p) => Gr::F(*v, p),
                    g => g,
                };
                eq(c, &format!("{} with width {:?}", c_gr(&g), v), conv::m_gr(&x.with_width(*v)), want)?;
            }
            eq(c, "ground type of a ground type", x.ground_type(), Some(x))?;
            eq(c, "passivity of a ground type", x.is_passive(), true)?;
        }
    }
    // Errors
    use std::error::Error;
    use std::io;
    let e = fa::error::ParseError::from(io::ErrorKind::NotFound);
    eq(c, "cause of an I/O error", e.source().and_then(|e| e.downcast_ref::<io::Error>()).map(|e| e.kind()), Some(io::ErrorKind::NotFound))?;
    let e = fa::error::ParseError::from(io::Error::new(io::ErrorKind::Other, "boo"));
    eq(c, "cause of an I/O error", e.source().map(|e| e.to_string()), Some("boo".into()))?;
    let e = fa::error::ParseError::from("text".to_string());
    eq(c, "cause of another error", e.source().is_none(), true)?;
    eq(c, "message of another error", e.to_string(), "text".into())?;
    c.count("tables");
    c.nontrivial("tables");
    Ok(())
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        level: "exploration",
        rule: "random histories of constructor, setter and builder calls on every kind of object, all accessors compared with a shadow value after each call, copies made before included; finite tables enumerated; non-trivial: at least one operation; distinct by content",
        assumptions: &["exceptions of names (empty, any characters) may be stored even though they cannot be parsed"],
        parts: vec![
            Part { name: "ports", quick: 100000, thorough: 600000, f: c25_ports },
            Part { name: "modules", quick: 100000, thorough: 400000, f: c25_modules },
            Part { name: "stmts", quick: 100000, thorough: 600000, f: c25_stmts },
            Part { name: "regs", quick: 100000, thorough: 500000, f: c25_regs },
            Part { name: "mems", quick: 100000, thorough: 600000, f: c25_mems },
            Part { name: "types", quick: 100000, thorough: 600000, f: c25_types },
            Part { name: "tables", quick: 1, thorough: 1, f: c25_tables },
        ],
        must: &["info operations", "ports", "ports of the same name", "ports not found", "module operations", "statements added in place",
            "entities", "statements", "resets set", "resets removed", "latencies set", "ports added", "simple memory ports", "field types set",
            "orientations set", "fields flipped", "ground types", "vectors", "bundles", "fields found", "tables"],
    }
}
