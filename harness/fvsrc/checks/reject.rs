//! C05, C06, C09: arbitrary and malformed text

use firrtl_ast as fa;

use super::util::*;
use crate::fw::{Case, Check, Part, Verdict};
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::mutate;
use crate::refparse::{self, V};
use crate::rng::Rng;
use crate::text::{self, Lay, Line};

fn small(r: &mut Rng) -> Prog {
    let c = match r.below(6) {
        4 => Cfg { modules: 2, stmts: 8, depth: 1, when_depth: 3, shadow: true, pool: &["a", "b", "c", "d", "e", "f"], hostile: false, ..Default::default() },
        5 => Cfg { modules: 2, stmts: 6, depth: 2, when_depth: 2, shadow: true, spot: 30, budget: 400, ..Default::default() },
        0 => Cfg { modules: 1, stmts: 3, depth: 1, when_depth: 1, ..Default::default() },
        1 => Cfg { modules: 3, stmts: 3, depth: 2, when_depth: 2, ..Default::default() },
        2 => Cfg { modules: 2, stmts: 5, depth: 2, when_depth: 3, hostile: false, uni: false, ..Default::default() },
        _ => Cfg { modules: 3, stmts: 8, depth: 3, ..Default::default() },
    };
    G::new(r, c).prog()
}

fn some_lines(c: &mut Case) -> Vec<Line> {
    let p = small(&mut c.r);
    let vary = c.r.chance(2, 3);
    text::prog_lines(&mut c.r, vary, &p)
}

fn some_layout(c: &mut Case, l: &[Line]) -> (String, Vec<usize>) {
    let lay = if c.r.chance(2, 3) { Lay::plain() } else { Lay::random(&mut c.r) };
    text::layout(&mut c.r, &lay, l)
}

/// A valid text with mutations
fn mutant(c: &mut Case) -> (String, &'static str) {
    let mut l = some_lines(c);
    let mut kind = "unchanged";
    let n = if c.r.chance(3, 4) { 1 } else { 1 + c.r.below(4) };
    let what = c.r.below(3);
    match what {
        0 => for _ in 0..n {
            if let Some((_, k)) = mutate::line(&mut c.r, &mut l) {
                kind = k;
            }
        },
        1 => for _ in 0..n {
            if let Some(k) = mutate::lines(&mut c.r, &mut l) {
                kind = k;
            }
        },
        _ => (),
    }
    let (mut s, _) = some_layout(c, &l);
    if what == 2 {
        for _ in 0..n {
            let (t, k) = mutate::text(&mut c.r, &s);
            s = t;
            kind = k;
        }
    }
    (s, kind)
}

// ------------------------------------------------------------------- C05

/// Names which the textual form cannot carry in every place
fn exempt(x: &fa::Circuit) -> bool {
    use fa::stmt::Kind as SK;
    use fa::Named;
    fn st(s: &fa::stmt::Statement) -> bool {
        match s.kind() {
            SK::Declaration(e) => e.name_ref() == "else",
            SK::Conditional { when, r#else, .. } => when.iter().any(st) || r#else.iter().any(st),
            _ => false,
        }
    }
    fn go(m: &std::sync::Arc<fa::Module>, seen: &mut Vec<std::sync::Arc<fa::Module>>) -> bool {
        if seen.iter().any(|s| std::sync::Arc::ptr_eq(s, m)) {
            return false;
        }
        if seen.iter().any(|s| s.name_ref() == m.name_ref()) {
            return true;
        }
        seen.push(m.clone());
        m.ports().any(|p| p.name_ref() == "else")
            || m.statements().iter().any(st)
            || instantiated_c(m.statements()).iter().any(|d| go(d, seen))
    }
    go(x.top_module(), &mut vec![])
}

/// Modules instantiated, found without the crate's traversals
pub fn instantiated_c(s: &[fa::stmt::Statement]) -> Vec<std::sync::Arc<fa::Module>> {
    use fa::stmt::{Entity, Kind as SK};
    let mut v = vec![];
    for s in s {
        match s.kind() {
            SK::Declaration(e) => if let Entity::Instance(i) = e.as_ref() {
                v.push(i.module().clone());
            },
            SK::Conditional { when, r#else, .. } => {
                v.extend(instantiated_c(when));
                v.extend(instantiated_c(r#else));
            }
            _ => (),
        }
    }
    v
}

fn answer(c: &mut Case, s: &str) -> Verdict {
    c.eval();
    let a = parse(s);
    let b = parse_stream(s);
    match (&a, &b) {
        (Ok(x), Ok(y)) => same_c(x, y, false).map_err(|d| format!("parse and consumer disagree:\n{}\n{}", d, q(s)))?,
        (Err(_), Err(_)) => (),
        _ => return Err(format!("parse and consumer disagree on acceptance\n{}", q(s))),
    }
    match a {
        Err(e) => {
            ensure!(!e.is_empty(), "empty error message\n{}", q(s));
            c.count("rejected");
        }
        Ok(x) => {
            c.count("accepted");
            if exempt(&x) {
                c.count("accepted, not expressible");
                return Ok(());
            }
            let t = show(&x).map_err(|e| format!("{}\n{}", e, q(s)))?;
            let y = parse(&t).map_err(|e| format!("what was parsed is formatted as text that is rejected: {}\n{}\nformatted from\n{}", e, q(&t), q(s)))?;
            same_c(&x, &y, true).map_err(|d| format!("parsed circuit differs after formatting and parsing:\n{}\n{}\nformatted as\n{}", d, q(s), q(&t)))?;
            ensure!(x == y || has_split_literals(&x), "circuit parsed back is !=\n{}\n{}", q(s), q(&t));
        }
    }
    Ok(())
}

/// Whether a circuit has what the text cannot express
fn has_split_literals(x: &fa::Circuit) -> bool {
    let mut a = Canon::new(true);
    let mut b = Canon::new(false);
    let s = crate::conv::canon_c(&mut a, x);
    let t = crate::conv::canon_c(&mut b, x);
    s != t || a.dump() != b.dump()
}

fn c05_mutants(c: &mut Case) -> Verdict {
    let (s, k) = mutant(c);
    c.count(k);
    c.nontrivial(&s);
    c.sample(|| s.clone());
    answer(c, &s)
}

fn c05_soup(c: &mut Case) -> Verdict {
    // Tokens in random order below a header
    let mut s = String::new();
    if c.r.chance(9, 10) {
        s.push_str("circuit a:\n");
        if c.r.chance(9, 10) {
            s.push_str("  module a:\n");
            for _ in 0..c.r.below(3) {
                s.push_str(c.r.pick(&["    input x: UInt<3>\n", "    wire y: UInt[4]\n", "    cmem m: UInt[4]\n", "    wire z: {a: Fixed<3><<2>>, flip b: SInt[2]}\n", "    node n = x\n"]));
            }
            s.push_str("    ");
        }
    }
    let starts: &[&str] = &["wire x: ", "node x = ", "reg x: ", "mem x:\n      ", "cmem x: ", "smem x: ", "inst x of ", "when ", "stop(", "printf(", "attach(", "x <= ", "x is ",
        "read mport x = ", "infer mport ", "skip", "else", "input x: ", "output ", "parameter ", "defname = ", "x <- ", "data-type => ", "UInt", "SInt<", "mux(", "bits("];
    let n = c.r.below(16);
    if c.r.chance(3, 4) {
        s.push_str(c.r.pick(starts));
    }
    for _ in 0..n {
        s.push_str(&mutate::token(&mut c.r));
        match c.r.below(12) {
            0..=4 => s.push(' '),
            5 => s.push('\n'),
            6 => s.push_str("\n    "),
            7 => s.push_str("\n      "),
            8 => s.push_str(", "),
            _ => (),
        }
    }
    if c.r.chance(3, 4) {
        s.push('\n');
    }
    c.nontrivial(&s);
    c.sample(|| s.clone());
    answer(c, &s)
}

fn c05_chars(c: &mut Case) -> Verdict {
    let n = c.r.below(60);
    let mut s = String::new();
    if c.r.chance(1, 2) {
        s.push_str(c.r.pick(&["circuit a:\n  module a:\n    ", "circuit ", "circuit a:\n  extmodule a:\n    parameter x = ", "circuit a: @[", "circuit a:\n  module a:\n    node x = UInt<"]));
    }
    for _ in 0..n {
        let ch = match c.r.below(4) {
            0 => char::from_u32(c.r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
            1 => char::from_u32(c.r.below(128) as u32).unwrap(),
            _ => *c.r.pick(&[' ', ' ', '\n', ':', '"', '\\', '@', ']', '[', '(', ')', ',', '.', '%', ';', '<', '>', '=', '0', '1', '9', '-', 'a', 'x', 'U', 'h', 'b', '{', '}', '\t', '\r']),
        };
        s.push(ch);
    }
    c.nontrivial(&s);
    answer(c, &s)
}

/// Texts with a single lexeme of random make, where everything else is fine
const SPOTS: &[&str] = &[
    "circuit §:\n  module a:\n    skip\n", "circuit a: @[§]\n  module a:\n    skip\n", "circuit a:\n  module a: @[§]\n    skip\n", "circuit a:\n  module a:\n    skip\n  module §:\n    skip\n",
    "circuit a:\n  module a:\n    input §: UInt<3>\n", "circuit a:\n  module a:\n    input p: UInt<§>\n", "circuit a:\n  module a:\n    input p: UInt[§]\n", "circuit a:\n  module a:\n    input p: Fixed<3><<§>>\n",
    "circuit a:\n  module a:\n    wire w: {§: UInt}\n", "circuit a:\n  module a:\n    wire w: {flip §: UInt}\n", "circuit a:\n  module a:\n    wire w: §\n", "circuit a:\n  module a:\n    wire w: UInt<3> @[§]\n",
    "circuit a:\n  module a:\n    node n = UInt<9>(§)\n", "circuit a:\n  module a:\n    node n = SInt<9>(§)\n", "circuit a:\n  module a:\n    node n = UInt(\"§\")\n", "circuit a:\n  module a:\n    node n = UInt(\"h§\")\n",
    "circuit a:\n  module a:\n    node n = SInt(\"b§\")\n", "circuit a:\n  module a:\n    node n = SInt(\"o-§\")\n", "circuit a:\n  module a:\n    node n = SInt(\"h§\")\n", "circuit a:\n  module a:\n    node n = UInt<§>(1)\n",
    "circuit a:\n  module a:\n    input p: UInt<3>[4]\n    node n = p[§]\n", "circuit a:\n  module a:\n    input p: UInt<3>\n    node n = shl(p, §)\n", "circuit a:\n  module a:\n    input p: UInt<3>\n    node n = asFixed(p, §)\n",
    "circuit a:\n  module a:\n    input p: UInt<3>\n    node n = §(p)\n", "circuit a:\n  module a:\n    input p: {a: UInt<3>}\n    node n = p.§\n", "circuit a:\n  module a:\n    node n = §\n", "circuit a:\n  module a:\n    input p: UInt<3>\n    § <= p\n",
    "circuit a:\n  module a:\n    input c: Clock\n    stop(c, UInt<1>(1), §)\n", "circuit a:\n  module a:\n    input c: Clock\n    stop(c, UInt<1>(1), 1) : §\n", "circuit a:\n  module a:\n    input c: Clock\n    printf(c, c, \"§\")\n",
    "circuit a:\n  module a:\n    input c: Clock\n    printf(c, c, \"§\", c)\n", "circuit a:\n  module a:\n    input c: Clock\n    printf(c, c, \"a%d§\", c)\n", "circuit a:\n  module a:\n    input c: Clock\n    printf(c, c, §)\n",
    "circuit a:\n  module a:\n    mem m:\n      data-type => UInt\n      depth => §\n", "circuit a:\n  module a:\n    mem m:\n      data-type => UInt\n      depth => 4\n      read-latency => §\n", "circuit a:\n  module a:\n    mem m:\n      data-type => UInt\n      depth => 4\n      read-under-write => §\n",
    "circuit a:\n  module a:\n    mem m:\n      data-type => UInt\n      depth => 4\n      reader => §\n", "circuit a:\n  module a:\n    cmem m: UInt[§]\n", "circuit a:\n  module a:\n    smem m: UInt[4], §\n",
    "circuit a:\n  extmodule a:\n    parameter § = 1\n", "circuit a:\n  extmodule a:\n    parameter p = §\n", "circuit a:\n  extmodule a:\n    parameter p = \"§\"\n", "circuit a:\n  extmodule a:\n    parameter p = '§'\n", "circuit a:\n  extmodule a:\n    parameter p = 1.§\n",
    "circuit a:\n  extmodule a:\n    parameter p = 1.5E§\n", "circuit a:\n  extmodule a:\n    defname = §\n", "circuit a:\n  module a:\n    § w: UInt\n", "circuit a:\n  module a:\n    skip§\n", "circuit a:\n  module a:\n    skip\n§\n",
    "circuit a:\n  module a:\n    input c: Clock\n    infer mport r = §[c], c\n", "circuit a:\n  module a:\n    inst i of §\n", "circuit a:\n  module a:\n    input c: Clock\n    when c:§\n      skip\n    else:\n      skip\n", "circuit a:\n  module a:\n    skip ;§\n    skip\n",
];
const PIECES: &[&str] = &[
    "0", "1", "7", "9", "00", "12", "65535", "a", "b", "h", "o", "x", "F", "f", "E", "E+", "E-", "E0", "E-0", "_", "$", "-", "+", ".", "%", "%%", "%d", "%b", "%x", "%c", "% ", "\\", "\\n", "\\t", "\\\\", "\\\"", "\\'", "\\]",
    "\"", "'", "]", "[", "@", " ", "\t", "\r", "\u{0}", "é", "ß", "变", "𝒳", "٣", "²", "½", "Ⅷ", "߁", "𝟗", "\u{301}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{85}", "😀", "(", ")", "<", ">", ",", ":", ";", "=", "{", "}",
    "UInt", "SInt", "old", "new", "undefined", "a", "p", "c", "x1", "not", "asUInt", "data", "\\x", "\\0", "\\r", "\\%", "\\u", "/", "*", "#", "!", "~", "`", "?", "&", "|", "^", "\u{7f}", "\u{1}",
];

fn spotted(c: &mut Case) -> String {
    let t = *c.r.pick(SPOTS);
    let n = *c.r.pick(&[0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6]);
    let narrow = c.r.chance(1, 2).then(|| [*c.r.pick(PIECES), *c.r.pick(PIECES), *c.r.pick(PIECES)]);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(match &narrow {
            Some(p) => c.r.pick(p),
            None => c.r.pick(PIECES),
        });
    }
    // Literals about as wide as widths can tell
    let radix = [("\"b", 1), ("\"o", 3), ("\"h", 4)].iter().find(|(k, _)| t.contains(&(k.to_string() + "§")) || t.contains(&(k.to_string() + "-§")));
    if let (Some((_, per)), true) = (radix, c.r.chance(1, 40)) {
        let bits = 65532 + c.r.below(8);
        let first = 1u32 << ((bits - 1) % per);
        s = first.to_string() + &c.r.pick(&["0", "1"]).repeat((bits - 1) / per);
        c.count("literal of 2^16 bits");
    }
    t.replace('§', &s)
}

fn c05_spots(c: &mut Case) -> Verdict {
    let s = spotted(c);
    c.nontrivial(&s);
    c.sample(|| s.clone());
    answer(c, &s)
}

fn c06_spots(c: &mut Case) -> Verdict {
    let s = spotted(c);
    judge(c, &s, "lexeme")
}

/// Nesting up to a bounded depth
pub fn deep_text(r: &mut Rng, max: usize) -> String {
    let d = 1 + r.below(max);
    let mut s = String::from("circuit a:\n  module a:\n    input x: UInt<8>\n    input v: UInt<8>[4]\n");
    let cut = r.chance(1, 2);
    let ops: &[(&str, &str)] = &[("not(", ")"), ("mux(x, x, ", ")"), ("add(x, ", ")"), ("bits(", ", 3, 0)"), ("v[", "]"), ("validif(x, ", ")"), ("asFixed(", ", -3)"), ("cat(", ", x)"), ("mux(", ", x, x)")];
    match r.below(4) {
        0 => {
            let same = r.chance(1, 2);
            let one = *r.pick(ops);
            let picks: Vec<(&str, &str)> = (0..d).map(|_| if same { one } else { *r.pick(ops) }).collect();
            s.push_str("    node n = ");
            for p in &picks {
                s.push_str(p.0);
            }
            s.push_str(if cut && r.chance(1, 2) { "?" } else { "x" });
            let n = if cut { r.below(picks.len() + 1) } else { 0 };
            for p in picks.iter().skip(n).rev() {
                s.push_str(p.1);
            }
            s.push('\n');
        }
        1 => {
            s.push_str("    wire n: ");
            for _ in 0..d {
                s.push_str("{ flip a: ");
            }
            s.push_str("UInt<3>");
            let n = if cut { r.below(d + 1) } else { 0 };
            for _ in n..d {
                s.push_str(r.pick(&["}", "[3]}", ", b: UInt}"]));
            }
            s.push('\n');
        }
        2 => {
            for i in 0..d {
                s.push_str(&" ".repeat(4 + i));
                s.push_str("when x :\n");
            }
            s.push_str(&" ".repeat(4 + d));
            s.push_str(if cut { "skip ?\n" } else { "skip\n" });
            for i in (0..d).rev() {
                if r.chance(1, 3) {
                    s.push_str(&" ".repeat(4 + i));
                    s.push_str("else :\n");
                    s.push_str(&" ".repeat(5 + i));
                    s.push_str("skip\n");
                }
            }
        }
        _ => {
            s.push_str("    when x:\n      skip\n");
            for _ in 0..d {
                s.push_str("    else when x:\n      skip\n");
            }
            if cut {
                s.push_str("    else when :\n      skip\n");
            }
        }
    }
    s
}

fn c05_deep(c: &mut Case) -> Verdict {
    let max = if c.thorough { 300 } else { 120 };
    let s = deep_text(&mut c.r, max);
    c.count("deeply nested");
    c.nontrivial(&s);
    answer(c, &s)
}

/// Readers get an answer, too
fn c05_bytes(c: &mut Case) -> Verdict {
    let (s, _) = mutant(c);
    let mut b = s.into_bytes();
    for _ in 0..c.r.below(4) {
        if !b.is_empty() {
            let i = c.r.below(b.len());
            b[i] = c.r.u64() as u8;
        }
    }
    c.eval();
    let r = fa::Circuit::from_read(&b[..]);
    match std::str::from_utf8(&b) {
        Ok(s) => {
            ensure!(r.is_ok() == parse(s).is_ok(), "reading and parsing disagree\n{}", q(s));
            c.count("bytes, valid UTF-8");
        }
        Err(_) => {
            ensure!(r.is_err(), "invalid UTF-8 is accepted: {:?}", b);
            c.count("bytes, invalid UTF-8");
        }
    }
    c.nontrivial(&String::from_utf8_lossy(&b));
    Ok(())
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        rule: "mutated valid texts, token soup, random characters, single lexemes of random make, deep nesting, byte noise; every panic, abort or case without end is a violation, everything accepted is formatted and parsed again; distinct by text",
        assumptions: &["nesting depth bounded by 300", "round trip not required with duplicate module names or items named 'else'"],
        parts: vec![
            Part { name: "mutants", quick: 240000, thorough: 3000000, f: c05_mutants },
            Part { name: "soup", quick: 240000, thorough: 3000000, f: c05_soup },
            Part { name: "chars", quick: 240000, thorough: 3000000, f: c05_chars },
            Part { name: "spots", quick: 240000, thorough: 3000000, f: c05_spots },
            Part { name: "deep", quick: 3000, thorough: 20000, f: c05_deep },
            Part { name: "bytes", quick: 40000, thorough: 300000, f: c05_bytes },
        ],
        must: &["accepted", "rejected", "deeply nested", "bytes, invalid UTF-8"],
    }
}

// ------------------------------------------------------------------- C06

fn c06_mutants(c: &mut Case) -> Verdict {
    let (s, k) = mutant(c);
    judge(c, &s, k)
}

fn judge(c: &mut Case, s: &str, k: &str) -> Verdict {
    let r = parse(s);
    match refparse::read(s, false) {
        V::Unspec(w) => {
            c.count(&format!("unspecified: {}", w));
            // Whatever the verdict, it must be an answer
            return Ok(());
        }
        V::Reject { line, why, .. } => {
            c.eval();
            c.count("malformed");
            c.count(&format!("malformed: {}", k));
            ensure!(r.is_err(), "malformed text is accepted ({}; line {:?}: {})\n{}", k, line, why, q(s));
            ensure!(parse_stream(s).is_err(), "malformed text is accepted by consumer ({}; line {:?}: {})\n{}", k, line, why, q(s));
            if c.idx % 4 == 0 {
                ensure!(fa::Circuit::from_read(s.as_bytes()).is_err(), "malformed text is accepted by reader ({}; line {:?}: {})\n{}", k, line, why, q(s));
            }
            c.nontrivial(s);
            c.sample(|| s.to_string());
        }
        V::Accept(p) => {
            c.eval();
            c.count("well-formed mutants");
            let x = r.map_err(|e| format!("valid text is rejected ({}): {}\n{}", k, e, q(s)))?;
            same(&p, &x, true).map_err(|d| format!("text is not read as it says ({}):\n{}\n{}", k, d, q(s)))?;
        }
    }
    Ok(())
}

/// Lines which are never statements
pub const BAD: &[&str] = &[
    "wire", "wire x", "wire x:", "wire x: Foo", "wire : UInt", "wire x: UInt<", "wire x: UInt<5", "wire x: UInt<65536>", "wire x: UInt<-1>",
    "wire x: Fixed<3><<32768>>", "wire x: Fixed<3><<-32769>>", "wire x: UInt[65536]", "wire x: UInt[", "wire x: UInt[-1]", "wire x: {a}",
    "wire x: {a: UInt", "wire x: {a: UInt,, b: UInt}", "wire x: {a: UInt b: UInt}", "wire x: {flip: }", "wire x: UInt extra",
    "wire x: Clock<1>", "wire x: Reset<1>", "wire x: SInt<<1>>", "wire x: UInt<1><<2>>", "wire 1x: UInt", "wire x y: UInt", "wires x: UInt",
    "reg x: UInt", "reg x: UInt,", "reg x: UInt, i with", "reg x: UInt, i with: (reset => (i))", "reg x: UInt, i with: (reset => (i, i)",
    "reg x: UInt, i with: (reset => (i, i, i))", "reg x: UInt, i with: (rst => (i, i))", "reg x: UInt, i, i", "reg x: UInt, j",
    "node x", "node x =", "node x = undeclared", "node x = x", "node x = add(i)", "node x = add(i, i, i)", "node x = add(i, 3)", "node x = not(i, i)",
    "node x = bits(i, 3)", "node x = bits(i, 3, 2, 1)", "node x = bits(i, i, 0)", "node x = bits(i, -1, 0)", "node x = bits(i, 65536, 0)", "node x = foo(i)",
    "node x = pad(i)", "node x = pad(i, 65536)", "node x = shl(i, -1)", "node x = setp(i, 32768)", "node x = asFixed(i)", "node x = asFixed(i, -32769)",
    "node x = mux(i, i)", "node x = mux(i, i, i, i)", "node x = validif(i)", "node x = validif(i, i, i)", "node x = i.", "node x = i[", "node x = i[]",
    "node x = i[65536]", "node x = i[-1]", "node x = UInt<3>(", "node x = UInt<3>()", "node x = UInt<3>(-1)", "node x = UInt<3>(\"h\")", "node x = UInt<3>(\"b2\")",
    "node x = UInt<3>(\"o8\")", "node x = UInt<3>(\"x1\")", "node x = UInt<3>(1", "node x = SInt<3>(a)", "node x = UInt", "node x = i i", "node x = (i)",
    "node x = add(i i)", "node x = add(i, i", "node x = add i, i)", "node x == i", "node x <= i", "node x = \"h1\"", "node x = 3",
    "node x = UInt<65536>(0)", "node x = head(i, 1, 1)", "node x = tail(i)", "node x = cat(i)", "node x = asUInt(i, 1)", "node x = asClock()", "node x = neg()",
    "mem x", "cmem x", "cmem x:", "smem x: UInt[3], foo", "smem x: UInt[3],", "smem x: UInt[3] old", "cmem x: UInt[3], old", "cmem x: UInt[3], new",
    "inst x", "inst x of", "inst x of nowhere", "inst of a", "inst x off a", "inst x of a b",
    "i <=", "<= i", "o < = i", "o <= i,", "o <= i i", "o <-", "o = i", "o := i", "o <= undeclared", "undeclared <= i", "o => i", "o is", "o is valid", "is invalid", "o isinvalid", "o is invalid x",
    "attach", "attach(", "attach()", "attach(i", "attach(i,)", "attach(i i)", "attach i", "attach(,i)",
    "stop", "stop(i, i)", "stop(i, i, )", "stop(i, i, x)", "stop(i, i, 1", "stop(i, i, 1, 2)", "stop(i, i, 9223372036854775808)", "stop(i, i, -9223372036854775809)", "stop(i, 1)",
    "stop(i, i, 1) :", "stop(i, i, 1) : 1x", "stop(i, i, 1) x", "stop(i, i, 1.0)",
    "printf(i, i)", "printf(i, i, )", "printf(i, i, \"%d\")", "printf(i, i, \"\", i)", "printf(i, i, \"x\", i)", "printf(i, i, \"%d\", i, i)", "printf(i, i, \"%d %d\", i)",
    "printf(i, i, \"%q\", i)", "printf(i, i, \"%\")", "printf(i, i, \"%%\", i)", "printf(i, i, \"abc)", "printf(i, i, abc)", "printf(i, \"abc\")", "printf(i, i, \"%d\" i)",
    "printf(i, i, \"%d\", )", "printf(i, i, \"x\") : ", "printf(i, i, \"x\") name", "printf(i, i, 'x')", "printf(i, i, \"x\"", "printf(i, i, \"x\",)",
    "when", "when i", "when :", "when i: skip", "when j:", "else:", "else", "else when i:", "skip skip", "skips", "Skip", "skip ,", "skip :",
    "foo", "foo bar", ":", ",", "@[x]", "skip @[x", "skip @x", "skip @[x] y", "skip @[x] @[y]", "skip [x]", "skip @ [x]", "input", "input p", "input p:", "input p: UInt",
    "output p: UInt", "module x:", "extmodule x:", "circuit x:", "parameter p = 1", "defname = x", "depth => 3", "read mport", "read mport x", "read mport x = nomem[i], i",
    "infer mport x = i[i], i", "read mport x =", "rw mport x = q[i], i", "mport x = q[i], i", "read mport x = q[i],", "read mport x = q[i], i, i", "read mport x = q, i", "read mport x = q[], i", "data-type => UInt",
    "write mport = q[i], i", "readmport x = q[i], i", "rdwr mport x = q[i] [i], i", "node x = y", "wire x: UInt<3> @", "wire x: UInt<3> @[", "\\", "%", "\"", "1", "1 <= i", "o <= 1",
    "node x = UInt<9>(\"h_f\")", "node x = UInt<9>(\"hf_\")", "node x = UInt<9>(\"h1_0\")", "node x = UInt<9>(\"b1_0\")", "node x = UInt<9>(\"o1_0\")", "node x = SInt<9>(\"h-1_0\")", "node x = SInt<9>(\"h-_1\")", "node x = SInt<9>(\"b_\")",
    "node x = UInt<9>(1_0)", "node x = UInt<1_0>(1)", "node x = UInt(\"h1 0\")", "node x = UInt(\"h 1\")", "node x = UInt(\"h1 \")", "node x = UInt(\"h1)", "node x = UInt('h1')", "node x = UInt(\"0x1\")", "node x = UInt(0x1)", "node x = UInt(\"hg\")", "node x = UInt(\"d1\")",
    "node x = UInt<3>(1)(1)", "node x = UInt<3>[1]", "node x = UInt<3><3>(1)", "node x = SInt<9>(\"h--1\")", "node x = SInt<9>(--1)", "node x = SInt<9>(- 1)", "node x = UInt(1,)", "node x = UInt(,1)", "node x = UInt(1, 1)",
    "wire x: UInt<1_0>", "wire x: UInt<0x3>", "wire x: UInt<3", "wire x: UInt<3>>", "wire x: UInt<<3>", "wire x: UInt<>", "wire x: UInt< >", "wire x: UInt<3,3>", "wire x: UInt<3>[]", "wire x: UInt<3>[2][", "wire x: UInt<3>[2]]", "wire x: UInt[2,2]", "wire x: UInt<3>{}",
    "wire x: {a: UInt;}", "wire x: {flip flip a: UInt}", "wire x: {a flip: UInt}", "wire x: {,}", "wire x: {,a: UInt}", "wire x: {a: UInt}}", "wire x: {{a: UInt}}", "wire x: {a: UInt}{b: UInt}", "wire x,: UInt", "wire x:: UInt", "wire x: UInt,", "wire x: UInt UInt", "wire x = UInt",
    "wire x: Fixed<3><<", "wire x: Fixed<<3>", "wire x: Fixed<<>>", "wire x: Fixed<<3>><4>", "wire x: Fixed<3><4>", "wire x: Fixed<3><<4>", "wire x: Analog<<3>>", "wire x: AsyncReset<1>", "wire x: uint", "wire x: Uint<3>", "wire x: UINT", "wire x: UInt3",
    "node x = mux(i, i, i", "node x = mux(i,, i, i)", "node x = mux(,i, i, i)", "node x = mux(i, i, i,)", "node x = validif(i, i,)", "node x = add(i,, i)", "node x = add(i, i,)", "node x = add(,i, i)", "node x = add(i, i))", "node x = bits(i, 3,, 2)", "node x = bits(i, 3, 2,)", "node x = bits(i 3 2)",
    "node x = not(i,)", "node x = not()", "node x = shl(i)", "node x = shl(i, 1, 2)", "node x = shl(1, i)", "node x = pad(i, i)", "node x = pad(i, 1, 1)", "node x = xorr(i, i)", "node x = cvt(i, i)", "node x = incp(i)", "node x = decp(i)", "node x = setp(i)", "node x = setp(i, 1, 1)",
    "node x = ADD(i, i)", "node x = Add(i, i)", "node x = addd(i, i)", "node x = add_(i, i)", "node x = Mux(i, i, i)", "node x = valid(i, i)", "node x = validIf(i, i)", "node x = asuint(i)", "node x = asClock(i, i)", "node x = i..a", "node x = .i", "node x = i.[0]", "node x = i[[0]]", "node x = i[0]]", "node x = i[0", "node x = i.a.",
    "node x, i", "node x = = i", "node x = i,", "node x = i;; x = ; i\n    zzz", "nodex = i", "nodes x = i", "Node x = i", "wirex: UInt", "Wire x: UInt", "regx: UInt, i", "Reg x: UInt, i", "instx of a", "Inst x of a", "inst x ofa", "inst x Of a", "memx:", "cmemx: UInt[3]",
    "reg x: UInt, i with: (reset => i, i)", "reg x: UInt, i with: (reset => (i, i)))", "reg x: UInt, i with: ((reset => (i, i)))", "reg x: UInt, i with (reset => (i, i))", "reg x: UInt, i with: reset => (i, i)", "reg x: UInt, i with: (reset = (i, i))", "reg x: UInt, i with: ()", "reg x: UInt, i with:", "reg x: UInt, i, with: (reset => (i, i))", "reg x: UInt, i with: (reset => (i,, i))", "reg x: UInt, i with: (reset => (i, i),)", "reg x: UInt,, i", "reg x: UInt i", "reg x, UInt, i",
    "read mport x = q[i], , i", "read mport x = q[i],, i", "read mport x = q[i],,, i", "read mport x = q[i] , , i", "read mport x = , q[i], i", "read mport x = q[i][i], i", "read mport x = q.a[i], i", "read mport x = q(i), i", "read mport x = q[i", "read mport x: q[i], i", "Read mport x = q[i], i", "infer mport x = q[0], i", "rdwr mport x = q[i], i,", "read  port x = q[i], i",
    "attach(i,, i)", "attach((i))", "attach(i))", "Attach(i)", "attach[i]", "attach(i) x", "attach(i, i) : x", "stop(i,, i, 1)", "stop(i, i,, 1)", "stop(i i 1)", "stop(i, i, 1,)", "stop(i, i, 1))", "Stop(i, i, 1)", "stop(i, i, 1_0)", "stop(i, i, \"h1\")", "stop(i, i, 0x1)", "stop(i, i, 1) : a : b", "stop(i, i, 1) : a b",
    "printf(i,, i, \"x\")", "printf(i, i, \"x\"))", "Printf(i, i, \"x\")", "printf(i, i, \"%d\", i,)", "printf(i, i, \"%d\",, i)", "printf(i, i, \"%d\", i i)", "printf(i, i, \"x\" \"y\")", "printf(i, i, \"%D\", i)", "printf(i, i, \"% d\", i)", "printf(i, i, \"%5d\", i)", "printf(i, i, \"%%d\", i)", "printf(i, i, \"%%%d\")", "printf(i, i, \"%%%d\", i, i)", "printf(i, i, \"%s\", i)", "printf(i, i, \"x\") : a : b", "printf(i, i, \"x\") : a b",
    "when i,:", "when i::", "when i, i:", "when: i", "when (i):", "When i:", "wheni:", "when i", "when i: :", "when i then:", "o <= <= i", "o <<= i", "o <== i", "o < i", "o < - i", "o <- <- i", "o, o <= i", "o is  valid", "o is invalid,", "o is invalid : x", "o iss invalid", "o is Invalid", "o is invalid invalid", "skip;skip\n    zzz",
    "skip @[x]@[y]", "skip @[x]]", "skip @[[x]", "skip @[x] ]", "skip@x", "skip @[", "skip @", "skip @]x[", "skip @(x)", "skip [x]@", "@[x] skip", "skip @[x] skip", "skip @ [x]", "skip @[a\n    b]",
];
/// Lines which are never part of an external module
pub const BADX: &[&str] = &[
    "wire x: UInt", "skip", "parameter", "parameter p", "parameter p =", "parameter = 1", "parameter p = x", "parameter p = 9223372036854775808", "parameter p = -9223372036854775809",
    "parameter p = \"x", "parameter p = 'x", "parameter p = \"x'", "parameter p = 1 2", "parameter p = 1.0 x", "parameter p = 1.0E309", "parameter p = -1.0E309", "parameter p = \"a\" \"b\"", "parameter 1p = 1",
    "parameter p == 1", "parameter p : 1", "parameter p = 1 @[x]", "parameters p = 1", "defname", "defname =", "defname x", "defname = 1x", "defname = x y", "defname = \"x\"", "input", "input p", "inout p: UInt", "input p: Foo",
    "output p: UInt<", "p <= p", "foo", "node x = i", "when i:", "@[x]", "parameter p = -", "parameter p = 1\n    parameter p = 1", "parameter p = 1\n    parameter q2 = 2\n    parameter p = \"x\"", "parameter p = \"\\",
];
/// Lines which are never attributes of a memory with a depth
pub const BADMEM: &[&str] = &[
    "data-type", "data-type =>", "data-type => Foo", "data-type = UInt", "data_type => UInt", "depth", "depth =>", "depth => x", "depth => -1", "depth => 18446744073709551616", "depth => 1 1",
    "read-latency =>", "read-latency => 65536", "read-latency => -1", "write-latency => 65536", "write-latency => x", "readlatency => 1", "read-under-write =>", "read-under-write => foo", "read-under-write => Old",
    "reader =>", "reader => 1x", "reader => a b", "reader a", "readers => a", "writer =>", "readwriter =>", "readwriter a", "skip", "foo", "foo => 1", "=> 1", "depth => 1 @[x]", "reader => a, b", "depth == 3", "writer => a =>", "data-type => UInt extra",
    "depth => 8", "depth => 4", "data-type => UInt<3>", "data-type => SInt", "read-latency => 1\n      read-latency => 1", "write-latency => 0\n      write-latency => 2", "read-under-write => old\n      read-under-write => new",
    "read-under-write => undefined\n      reader => r\n      read-under-write => undefined",
];

/// Surplus and missing arguments of printf, known-bad lines, bad ends
pub(super) fn c06_targeted(c: &mut Case) -> Verdict {
    let what = c.r.below(4);
    let trail = *c.r.pick(&["", "", " ", "  ; c", "\t"]);
    let pre = *c.r.pick(&["", "    skip\n", "    wire zz: UInt<3>\n", "    when i:\n      skip\n", "    cmem q: UInt[3]\n", "    mem mm:\n      depth => 4\n      data-type => UInt\n"]);
    let post = *c.r.pick(&["", "    skip\n", "    o <= i\n", "  module b:\n    skip\n", "  extmodule b:\n    input x: UInt\n"]);
    let (s, n) = match what {
        0 | 1 => {
            let k = c.idx as usize % BAD.len();
            let b = BAD[k];
            if what == 0 {
                (format!("circuit a:\n  module a:\n    input i: UInt<3>\n    output o: UInt<3>\n{}    {}{}\n{}", pre, b, trail, post), b)
            } else {
                let els = c.r.chance(1, 2);
                let w = if els { "    when i:\n      skip\n    else:\n" } else { "    when i:\n" };
                let tail = *c.r.pick(&["", "      skip\n", "      o <= i\n"]);
                (format!("circuit a:\n  module a:\n    input i: UInt<3>\n    output o: UInt<3>\n{}{}      {}{}\n{}{}", pre, w, b, trail, tail, post), b)
            }
        }
        2 => {
            let b = BADX[c.idx as usize % BADX.len()];
            let tail = *c.r.pick(&["", "    parameter q = 1\n"]);
            (format!("circuit a:\n  extmodule a:\n    input i: UInt<3>\n    {}{}\n{}  module b:\n    skip\n", b, trail, tail), b)
        }
        _ => {
            let b = BADMEM[c.idx as usize % BADMEM.len()];
            let (x, y) = if c.r.chance(1, 2) { ("      depth => 4\n      data-type => UInt<3>\n", "") } else { ("      depth => 4\n", "      data-type => UInt<3>\n") };
            (format!("circuit a:\n  module a:\n    input i: UInt<3>\n    output o: UInt<3>\n{}    mem m:\n{}      {}{}\n{}{}", pre, x, b, trail, y, post), b)
        }
    };
    c.count("known-bad lines");
    if let V::Accept(_) = refparse::read(&s, false) {
        // harmless in this context
        c.count("known-bad lines, harmless here");
    }
    judge(c, &s, "known-bad line").map_err(|e| format!("{:?}: {}", n, e))
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        rule: "valid texts mutated by token, line, character and indentation, known-bad lines in valid surroundings and single lexemes of random make; the independent reader decides whether the text is malformed; non-trivial: malformed; distinct by text",
        assumptions: &["spellings the syntax neither permits nor forbids are not judged (counted as 'unspecified')"],
        parts: vec![
            Part { name: "mutants", quick: 312000, thorough: 5000000, f: c06_mutants },
            Part { name: "targeted", quick: 39000, thorough: 200000, f: c06_targeted },
            Part { name: "spots", quick: 195000, thorough: 3000000, f: c06_spots },
        ],
        must: &["malformed", "well-formed mutants", "known-bad lines", "malformed: line removed", "malformed: token appended"],
    }
}

// ------------------------------------------------------------------- C09

/// Lines cited by an error message: number and content
fn cited(msg: &str) -> Vec<(usize, Option<String>)> {
    let ls: Vec<&str> = msg.split('\n').collect();
    let mut v = vec![];
    for (i, l) in ls.iter().enumerate() {
        // "<i>: at line <n>, in ..." or "<i>: at line <n>:"
        let head = l.split_once(": at line ").filter(|(a, _)| !a.is_empty() && a.bytes().all(|b| b.is_ascii_digit()));
        if let Some((_, t)) = head {
            let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = d.parse() {
                v.push((n, ls.get(i + 1).map(|s| s.to_string())));
            }
        }
    }
    v
}

/// The number's occurrence anywhere in the message
fn mentions(msg: &str, n: usize) -> bool {
    msg.split(|c: char| !c.is_ascii_digit()).any(|t| t.parse::<usize>() == Ok(n))
}

/// Does the message cite one of the lines, by number and content?
fn cites(msg: &str, s: &str, lines: &[usize]) -> Result<(), String> {
    let all: Vec<&str> = s.split('\n').collect();
    let v = cited(msg);
    let ok = |n: usize, t: &str| all.get(n - 1).map(|l| l.trim() == t.trim() || (t.trim().len() > 3 && l.contains(t.trim()))).unwrap_or(false);
    if v.is_empty() {
        // Another wording: number and content somewhere
        for n in lines {
            if mentions(msg, *n) && all.get(n - 1).map(|l| msg.contains(l.trim())).unwrap_or(false) {
                return Ok(());
            }
        }
        return Err(format!("no line cited; expected one of {:?}", lines));
    }
    for (n, t) in &v {
        if lines.contains(n) && t.as_ref().map(|t| ok(*n, t)).unwrap_or(false) {
            return Ok(());
        }
    }
    Err(format!("lines cited: {:?}; expected one of {:?}", v, lines.iter().map(|n| (n, all.get(n - 1))).collect::<Vec<_>>()))
}

fn c09_lines(c: &mut Case) -> Verdict {
    let mut l = some_lines(c);
    let m = match mutate::line(&mut c.r, &mut l) {
        Some(m) => m,
        None => return Ok(()),
    };
    let (s, nums) = some_layout(c, &l);
    let r = refparse::read(&s, false);
    if let V::Reject { line: Some(n), headers, soft: false, why } = r {
        // Only faults in the line that was touched are certain to be there
        if n != nums[m.0] {
            c.count("fault shows elsewhere");
            // A use of a name whose declaration was changed
        }
        let e = match parse(&s) {
            Err(e) => e,
            Ok(_) => return Err(format!("malformed text is accepted ({}; line {}: {})\n{}", m.1, n, why, q(&s))),
        };
        c.eval();
        c.count("malformed lines");
        if !headers.is_empty() {
            c.count("within mem or when");
        }
        let mut allowed = vec![n];
        allowed.extend(&headers);
        cites(&e, &s, &allowed).map_err(|w| format!("{}; line {} is malformed ({}, {})\nmessage: {}\n{}", w, n, why, m.1, e, q(&s)))?;
        if n > 1 {
            c.nontrivial(&s);
        }
        c.sample(|| format!("{}\n{}", e, s));
        // The consumer says the same
        let e2 = match fa::circuit::consumer(&s) {
            Err(e) => show(&e)?,
            Ok(it) => {
                let mut res = None;
                for m in it {
                    if let Err(e) = m {
                        res = Some(show(&e)?);
                    }
                }
                match res {
                    Some(e) => e,
                    None => return Err(format!("consumer reports no error\n{}", q(&s))),
                }
            }
        };
        cites(&e2, &s, &allowed).map_err(|w| format!("consumer: {}; line {} is malformed ({})\nmessage: {}\n{}", w, n, why, e2, q(&s)))?;
        // A module table of its own, with and without origin
        let first = s.split_inclusive('\n').scan(0, |a, l| {
            let st = *a;
            *a += l.len();
            Some((st, l))
        }).find(|(_, l)| l.trim_start_matches(' ').len() < l.len() && !l.trim().is_empty() && !l.trim().starts_with(';')).map(|x| x.0);
        if let Some(off) = first {
            let skip = s[..off].matches('\n').count();
            if n > skip {
                let mut err = None;
                for m in fa::module::Modules::new(&s[off..]) {
                    if let Err(e) = m { err = Some(show(&e)?) }
                }
                if let Some(e) = err {
                    let a: Vec<usize> = allowed.iter().filter(|n| **n > skip).map(|n| n - skip).collect();
                    cites(&e, &s[off..], &a).map_err(|w| format!("Modules::new: {}; line {} is malformed ({})\nmessage: {}\n{}", w, n - skip, why, e, q(&s[off..])))?;
                    c.count("module table without origin");
                }
                let mut err = None;
                for m in fa::module::Modules::new_with_origin(&s[off..], &s) {
                    if let Err(e) = m { err = Some(show(&e)?) }
                }
                if let Some(e) = err {
                    cites(&e, &s, &allowed).map_err(|w| format!("Modules::new_with_origin: {}; line {} is malformed ({})\nmessage: {}\n{}", w, n, why, e, q(&s)))?;
                    c.count("module table with origin");
                }
            }
        }
    } else {
        c.count("not judged");
    }
    Ok(())
}

/// Missing top modules, empty texts and I/O errors
fn c09_other(c: &mut Case) -> Verdict {
    use std::error::Error;
    let p = small(&mut c.r);
    let s = text::prog_text(&mut c.r, &p);
    c.eval();
    match c.r.below(2) {
        0 => {
            // Rename the circuit
            let mut l = text::prog_lines(&mut c.r, true, &p);
            let mut n = format!("{}_x", p.top);
            while p.modules.iter().any(|m| m.name == n) {
                n.push('x');
            }
            if let Some(t) = l[0].toks.iter_mut().nth(1) {
                *t = n;
            }
            let (s, _) = some_layout(c, &l);
            let e = fa::circuit::parse(&s).err().ok_or_else(|| format!("text without top module is accepted\n{}", q(&s)))?;
            let m = show(&e)?;
            ensure!(matches!(e, fa::error::ParseError::Other(_)), "missing top module reported as I/O error\n{}", q(&s));
            ensure!(m.contains("top") && m.contains("module"), "missing top module reported as {:?}\n{}", m, q(&s));
            ensure!(e.source().is_none(), "a cause of its own for a missing top module");
            let e = fa::Circuit::from_read(s.as_bytes()).err().ok_or_else(|| format!("text without top module is accepted\n{}", q(&s)))?;
            let m = show(&e)?;
            ensure!(m.contains("top") && m.contains("module"), "missing top module reported as {:?}\n{}", m, q(&s));
            c.count("missing top module");
            c.nontrivial(&s);
        }
        _ => {
            // A failing reader
            let k = *c.r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::TimedOut, std::io::ErrorKind::InvalidData, std::io::ErrorKind::WouldBlock]);
            let at = c.r.below(s.len() + 1);
            let msg = format!("cause {}", c.r.u64());
            struct R<'a>(&'a [u8], std::io::ErrorKind, String);
            impl std::io::Read for R<'_> {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    if self.0.is_empty() {
                        return Err(std::io::Error::new(self.1, self.2.clone()));
                    }
                    let n = self.0.len().min(b.len()).min(50);
                    b[..n].copy_from_slice(&self.0[..n]);
                    self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            let e = fa::Circuit::from_read(R(&s.as_bytes()[..at], k, msg.clone())).err().ok_or("failing reader yields a circuit")?;
            match &e {
                fa::error::ParseError::IO(i) => {
                    ensure!(i.kind() == k, "I/O error of kind {:?} reported as {:?}", k, i.kind());
                    ensure!(i.to_string() == msg, "cause {:?} reported as {:?}", msg, i.to_string());
                }
                e => return Err(format!("I/O error reported as {:?}", e)),
            }
            let src = e.source().ok_or("I/O error without a source")?;
            let i = src.downcast_ref::<std::io::Error>().ok_or("source is not the I/O error")?;
            ensure!(i.kind() == k && i.to_string() == msg, "source is another error: {:?}", i);
            ensure!(show(&e)?.to_lowercase().contains("io") || show(&e)?.to_lowercase().contains("i/o") || show(&e)?.contains(&msg), "I/O error displayed as {:?}", show(&e)?);
            c.count("I/O errors");
            c.nontrivial(&msg);
        }
    }
    Ok(())
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "valid texts with one line mutated so that the independent reader rejects that or a later line; the error must cite its number and content, or those of a mem or when header around it; non-trivial: not the first line; distinct by text",
        assumptions: &["faults before which something unspecified was read are not judged"],
        parts: vec![
            Part { name: "lines", quick: 240000, thorough: 2500000, f: c09_lines },
            Part { name: "other", quick: 20000, thorough: 200000, f: c09_other },
        ],
        must: &["malformed lines", "within mem or when", "missing top module", "I/O errors", "module table without origin", "module table with origin"],
    }
}
