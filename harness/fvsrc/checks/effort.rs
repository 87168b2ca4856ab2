//! C21: effort of parsing and formatting

use firrtl_ast as fa;

use super::util::*;
use crate::effort::{blocks, measure};
use crate::fw::{Case, Check, Part, Verdict};
use crate::rng::Rng;

/// Expressions with a hole
const EX: &[&str] = &[
    "add(@, x)", "add(x, @)", "sub(@, x)", "mul(x, @)", "div(@, x)", "rem(x, @)", "lt(@, x)", "leq(x, @)", "gt(@, x)", "geq(x, @)", "eq(@, x)", "neq(x, @)",
    "pad(@, 3)", "asUInt(@)", "asSInt(@)", "asFixed(@, 2)", "asClock(@)", "asAsyncReset(@)", "shl(@, 1)", "shr(@, 1)", "dshl(@, x)", "dshl(x, @)", "dshr(@, x)", "dshr(x, @)",
    "cvt(@)", "neg(@)", "not(@)", "and(@, x)", "or(x, @)", "xor(@, x)", "andr(@)", "orr(@)", "xorr(@)", "cat(@, x)", "cat(x, @)", "bits(@, 3, 0)", "head(@, 1)", "tail(@, 1)",
    "incp(@, 1)", "decp(@, 1)", "setp(@, -1)", "mux(@, x, x)", "mux(x, @, x)", "mux(x, x, @)", "validif(@, x)", "validif(x, @)", "x[@]", "x.a[@]", "x[0][@]", "@.a", "@[3]", "@[x]",
    "mux(x, @, UInt<4>(3))", "add(SInt<3>(-1), @)", "cat( @ , \"h\")",
];
/// Types with a hole
const TY: &[&str] = &["{a: @}", "{flip a: @}", "{a: UInt<3>, b: @}", "{a: @, b: UInt<3>}", "{a: Clock, flip b: @, c: {}}", "@[3]", "@[3][4]", "{ a : @ , flip b : Fixed<3><<1>> }", "{flip: @}", "{flip flip: @}"];
/// Statements with a hole; lines are indented by a marker
const ST: &[&str] = &[
    "when x :\n>@", "when x :\n>skip\nelse :\n>@", "when x :\n>@\nelse :\n>skip", "when x :\n>skip\nelse when x :\n>@", "when x : @[info]\n>@\n>skip",
    "when x :\n>@\nelse when x :\n>skip\nelse :\n>skip", "skip\nwhen x :\n>skip\n>@", "when x :\n>skip\nelse when x :\n>skip\nelse :\n>@", "when x :\n>@\nskip",
    "when add(x, x) :\n>node n# = x\n>@\nelse :\n>x <= x",
];
/// Innermost statements
const LEAF: &[&str] = &["skip", "x <= x", "node a = x", "wire w : UInt<3>", "stop(x, x, 1)", "x is invalid", "reg r : UInt, x with : (reset => (x, x))", "printf(x, x, \"%d\", x)"];

/// Lists with an element to be repeated; '#' is replaced by a number
const LISTS: &[(&str, &str, &str, &str)] = &[
    // before, element, separator, after
    ("    skip\n", "    node n# = x\n", "", ""),
    ("    skip\n", "    wire w# : UInt<3>\n", "", ""),
    ("    skip\n", "    reg r# : UInt<3>, x with : (reset => (x, x))\n", "", ""),
    ("    skip\n", "    x <= x\n", "", ""),
    ("    skip\n", "    x.a[3] <- add(x, UInt<3>(1)) @[info]\n", "", ""),
    ("    skip\n", "    when x :\n      skip\n    else :\n      skip\n", "", ""),
    ("    when x :\n      skip\n", "    else when x :\n      skip\n", "", "    else :\n      skip\n"),
    ("    skip\n", "    inst i# of Ext\n", "", ""),
    ("    skip\n", "    mem m# :\n      data-type => UInt<3>\n      depth => 4\n      reader => a\n      writer => b\n", "", ""),
    ("    skip\n", "    cmem c# : UInt<3>[4]\n    infer mport p# = c#[x], x\n", "", ""),
    ("    skip\n", "    stop(x, x, #) : s#\n", "", ""),
    ("    skip\n", "    printf(x, x, \"a%d\", x) : s#\n", "", ""),
    ("    skip\n", "    attach(x, x)\n", "", ""),
    ("    skip\n", "\n", "", "    skip\n"),
    ("    skip\n", "  \n", "", "    skip\n"),
    ("    skip\n", "; a comment\n", "", "    skip\n"),
    ("    skip ;", "comment ", "", "\n"),
    ("    skip", " ", "", "\n"),
    ("    skip @[", "a", "", "]\n"),
    ("    skip @[", "\\]", "", "]\n"),
    ("    skip @[", "\\\\", "", "]\n"),
    ("    printf(x, x, \"", "a", "", "\")\n"),
    ("    printf(x, x, \"", "%%", "", "\")\n"),
    ("    printf(x, x, \"", "\\\"", "", "\")\n"),
    ("    attach(", "x", ", ", ")\n"),
    ("    attach(", "x.f#[3]", ", ", ")\n"),
    ("    wire w : {", "f# : UInt<3>", ", ", "}\n"),
    ("    wire w : {", "flip f# : {a : UInt, flip b : SInt<3>}", ", ", "}\n"),
    ("    wire w : UInt<3>", "[2]", "", "\n"),
    ("    node w = x", ".a", "", "\n"),
    ("    node w = x", "[2]", "", "\n"),
    ("    node w = x", "[x]", "", "\n"),
    ("    node ", "n", "", " = x\n"),
    ("    node n = UInt(1", "9", "", ")\n"),
    ("    node n = SInt(\"h-", "F", "", "\")\n"),
    ("    node n = UInt<9999>(\"b", "01", "", "\")\n"),
    ("    mem m :\n      data-type => UInt<3>\n      depth => 4\n", "      reader => r#\n", "", ""),
    ("    mem m :\n      data-type => UInt<3>\n      depth => 4\n", "      readwriter => r#\n", "", ""),
    ("    inst i0 of Ext\n", "    i0.a <= x\n", "", ""),
    // sharing: later declarations refer to earlier ones more than once
    ("    node n0 = x\n", "    node n# = add(n$, n$)\n", "", ""),
    ("    wire n0 : UInt<3>\n", "    node n# = mux(n$, n$, n$)\n", "", "    x <= x\n"),
    ("    node n0 = x\n", "    reg n# : UInt<3>, n$ with : (reset => (n$, n$))\n", "", ""),
    ("    node n0 = x\n", "    node n# = n$[n$]\n", "", ""),
    ("    cmem c : UInt<3>[4]\n    node n0 = x\n", "    read mport n# = c[n$], n$\n", "", ""),
    ("    node n0 = x\n", "    when n$ :\n      skip\n    else :\n      n$ <= n$\n    node n# = cat(n$, n$)\n", "", ""),
];

/// Lists of ports, parameters and modules: whole texts
const WHOLE: &[(&str, &str, &str)] = &[
    ("circuit M :\n  module M :\n", "    input p# : UInt<3>\n", "    skip\n"),
    ("circuit M :\n  module M :\n", "    output p# : {a : UInt, flip b : SInt<3>} @[i]\n", "    skip\n"),
    ("circuit M :\n  extmodule M :\n", "    input p# : UInt<3>\n", ""),
    ("circuit M :\n  extmodule M :\n    defname = N\n", "    parameter p# = #\n", ""),
    ("circuit M :\n  extmodule M :\n    defname = N\n", "    parameter p# = \"string #\"\n", ""),
    ("circuit M :\n  module M :\n    skip\n", "  module N# :\n    skip\n", ""),
    ("circuit M :\n", "  extmodule N# :\n    input a : UInt\n", "  module M :\n    skip\n"),
    // sharing: modules instantiating earlier ones
    ("circuit M :\n  module N0 :\n    skip\n", "  module N# :\n    inst a of N$\n", "  module M :\n    inst a of N^\n"),
    ("circuit M :\n  module N0 :\n    input x : UInt<1>\n", "  module N# :\n    input x : UInt<1>\n    inst a of N$\n    inst b of N$\n", "  module M :\n    inst a of N^\n    inst b of N^\n"),
    ("circuit M :\n  module N0 :\n    input x : UInt<1>\n", "  module N# :\n    input x : UInt<1>\n    when x :\n      inst a of N$\n    else :\n      inst b of N$\n      inst c of N$\n", "  module M :\n    inst a of N^\n"),
    ("circuit M :\n  extmodule N0 :\n    input x : UInt<1>\n", "  module N# :\n    inst a of N$\n    inst b of N0\n    inst c of N$\n", "  module M :\n    inst a of N^\n    inst b of N0\n"),
    ("circuit M : @[", "a]b", "]\n  module M :\n    skip\n"),
    ("", "\n", "circuit M :\n  module M :\n    skip\n"),
    ("circuit M :\n  module M :\n    skip\n", "\n", ""),
    ("circuit M :\n  module M :\n    skip\n", " ; c\n", ""),
    ("circuit M :\n  module M :\n    skip\n", "x", ""),
    ("", "circuit M :\n", ""),
    ("circuit M :\n", "  module M :\n", ""),
    ("", "(", ""),
    ("", " ", ""),
];

fn whole(body: &str) -> String {
    format!("circuit M :\n  extmodule Ext :\n    input a : UInt<3>\n  module M :\n    input x : UInt<3>\n    output y : UInt<3>\n{}", body)
}

fn numbered(e: &str, i: usize) -> String {
    e.replace('#', &(i + 1).to_string()).replace('$', &i.to_string())
}

/// Nest wrappers; the outermost is the first
fn nest(pat: &[&str], n: usize, leaf: &str) -> String {
    let (mut pre, mut post) = (String::new(), vec![]);
    for i in 0..n {
        let (a, b) = pat[i % pat.len()].split_once('@').expect("harness: hole");
        pre.push_str(a);
        post.push(b);
    }
    pre.push_str(leaf);
    for b in post.iter().rev() {
        pre.push_str(b);
    }
    pre
}

fn nest_st(pat: &[&str], n: usize, leaf: &str, at: usize, out: &mut String, k: usize) {
    if k == n {
        *out += &format!("{}{}\n", " ".repeat(at), leaf);
        return;
    }
    for l in pat[k % pat.len()].split('\n') {
        let (d, l) = match l.strip_prefix('>') { Some(l) => (1, l), None => (0, l) };
        if l == "@" {
            nest_st(pat, n, leaf, at + d, out, k + 1);
        } else {
            *out += &format!("{}{}\n", " ".repeat(at + d), l.replace('#', &k.to_string()));
        }
    }
}

/// A family of texts
struct Family {
    text: Box<dyn Fn(usize) -> String>,
    what: String,
    /// Deepest nesting
    max: usize,
    /// Statement nesting makes texts of quadratic length
    sizes: &'static [usize],
}

const NEST: &[usize] = &[6, 12, 24, 48, 96];
const LONG: &[usize] = &[8, 16, 32, 64, 128, 256, 512];
const LONGER: &[usize] = &[8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096];

/// Spoil a text: `None` keeps it
fn spoil(k: usize, s: String, r: u64) -> String {
    let at = |f: f64| {
        let mut i = (s.len() as f64 * f) as usize;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    match k {
        1 => s.trim_end_matches('\n').to_string() + " !\n",
        2 => s[..at(0.5)].to_string(),
        3 => s[..at(0.95)].to_string(),
        4 => s.replacen('x', "undeclared", 1),
        5 => {
            // the last mention
            match s.rfind('x') {
                Some(i) => format!("{}?{}", &s[..i], &s[i + 1..]),
                None => s,
            }
        }
        6 => {
            let i = at((r % 1000) as f64 / 1000.0);
            format!("{}{}{}", &s[..i], ["!", ")", "(", "\"", "\n", "]", "{", ",", ":", " "][r as usize / 1000 % 10], &s[i..])
        }
        7 => match s.rfind(')') {
            Some(i) => format!("{}{}", &s[..i], &s[i + 1..]),
            None => s,
        },
        8 => match s.rfind(']').or_else(|| s.rfind('}')) {
            Some(i) => format!("{}{}", &s[..i], &s[i + 1..]),
            None => s,
        },
        9 => s + "  module",
        _ => s,
    }
}

fn pattern(r: &mut Rng, v: &'static [&'static str], idx: u64) -> Vec<&'static str> {
    // Each wrapper by itself, then mixtures
    let i = idx as usize;
    if i < v.len() {
        return vec![v[i]];
    }
    (0..1 + r.below(4)).map(|_| *r.pick(v)).collect()
}

fn fam_ex(c: &mut Case) -> Family {
    let pat = pattern(&mut c.r, EX, c.idx / 8);
    let place = c.r.below(6);
    let leaf = *c.r.pick(&["x", "UInt<3>(1)", "SInt(\"h-1\")", "y", "x.a"]);
    let what = format!("expression {:?} around {:?}, place {}", pat, leaf, place);
    Family { what, max: usize::MAX, sizes: NEST, text: Box::new(move |n| {
        let e = nest(&pat, n, leaf);
        whole(&match place {
            0 => format!("    node n = {}\n", e),
            1 => format!("    y <= {}\n", e),
            2 => format!("    when {} :\n      skip\n", e),
            3 => format!("    printf(x, {}, \"%d\", {})\n", e, e),
            4 => format!("    reg r : UInt, x with : (reset => ({}, {}))\n", e, e),
            _ => format!("    {} is invalid\n", e),
        })
    }) }
}

fn fam_ty(c: &mut Case) -> Family {
    let pat = pattern(&mut c.r, TY, c.idx / 8);
    let place = c.r.below(5);
    let leaf = *c.r.pick(&["UInt<3>", "{}", "Fixed<3><<-1>>", "Clock"]);
    let what = format!("type {:?} around {:?}, place {}", pat, leaf, place);
    Family { what, max: usize::MAX, sizes: NEST, text: Box::new(move |n| {
        let t = nest(&pat, n, leaf);
        match place {
            0 => whole(&format!("    wire w : {}\n", t)),
            1 => whole(&format!("    mem m :\n      data-type => {}\n      depth => 3\n      reader => r\n", t)),
            2 => whole(&format!("    cmem c : {}[4]\n    infer mport p = c[x], x\n", t)),
            3 => format!("circuit M :\n  module M :\n    input x : {}\n", t),
            _ => whole(&format!("    reg r : {}, x\n", t)),
        }
    }) }
}

fn fam_st(c: &mut Case) -> Family {
    let pat = pattern(&mut c.r, ST, c.idx / 8);
    let leaf = *c.r.pick(LEAF);
    let what = format!("statement {:?} around {:?}", pat, leaf);
    Family { what, max: usize::MAX, sizes: NEST, text: Box::new(move |n| {
        let mut s = whole("");
        nest_st(&pat, n, leaf, 4, &mut s, 0);
        s
    }) }
}

fn fam_list(c: &mut Case) -> Family {
    let (a, e, sep, z) = LISTS[(c.idx / 8) as usize % LISTS.len()];
    let short = e.contains('\n') || e.len() > 4;
    Family { what: format!("list of {:?} after {:?}", e, a), max: usize::MAX, sizes: if short { LONG } else { LONGER }, text: Box::new(move |n| {
        let b: Vec<_> = (0..n).map(|i| numbered(e, i)).collect();
        whole(&format!("{}{}{}", a, b.join(sep), z))
    }) }
}

fn fam_whole(c: &mut Case) -> Family {
    let (a, e, z) = WHOLE[(c.idx / 8) as usize % WHOLE.len()];
    Family { what: format!("list of {:?} after {:?}", e, a), max: usize::MAX, sizes: LONG, text: Box::new(move |n| {
        let b: Vec<_> = (0..n).map(|i| numbered(e, i)).collect();
        format!("{}{}{}", a, b.concat(), z.replace('^', &n.to_string()))
    }) }
}

struct Count(usize);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Efforts: parse, stream, read, format; and the length of the formatted text
fn efforts(s: &str) -> ([u64; 5], bool) {
    use std::fmt::Write;
    let (x, parse) = measure(|| fa::circuit::parse(s).map_err(|e| e.to_string()));
    let (_, stream) = measure(|| {
        let mut n = 0;
        if let Ok(mut c) = fa::circuit::consumer(s) {
            for m in &mut c {
                n += m.map_err(|e| e.to_string()).is_ok() as usize;
            }
            let _ = c.into_circuit();
        }
        n
    });
    let (_, read) = measure(|| fa::Circuit::from_read(s.as_bytes()).map_err(|e| e.to_string()));
    let ok = x.is_ok();
    let (mut format, mut len) = (0, 0);
    if let Ok(x) = &x {
        let mut w = Count(0);
        format = measure(|| write!(w, "{}", x)).1;
        len = w.0 as u64;
    }
    let (_, release) = measure(|| drop(x));
    ([parse, stream, read, format + release, len], ok)
}

const NAMES: [&str; 5] = ["parsing", "streaming", "reading", "formatting", "length of the formatted text"];

/// Growth allowed when a text gets longer by a factor
const DEGREE: f64 = 2.5;
const FACTOR: f64 = 1.5;
const SMALL: u64 = 3000;

fn c21_run(c: &mut Case, f: Family) -> Verdict {
    let k = c.idx as usize % 8;
    // half valid, half spoiled
    let sp = if k < 2 { 0 } else { 1 + c.r.below(9) };
    let seed = c.r.u64();
    let mut last: Option<(usize, usize, [u64; 5])> = None;
    let mut worst: f64 = 0.0;
    for &n in f.sizes.iter().filter(|n| **n <= f.max) {
        let valid = (f.text)(n);
        let s = spoil(sp, valid.clone(), seed);
        let (e, ok) = efforts(&s);
        c.eval();
        c.count(if ok { "texts accepted" } else { "texts rejected" });
        c.add("work measured", e[..4].iter().sum());
        if let Some((m, l, d)) = last {
            let grow = (s.len() as f64 / l as f64).max(1.0);
            for i in 0..5 {
                let lim = (d[i].max(SMALL) as f64) * FACTOR * grow.powf(DEGREE);
                ensure!(e[i] as f64 <= lim, "effort of {} grows from {} to {} as the text grows from {} to {} bytes ({} to {} repetitions of {}, spoiled by {})\n{}",
                    NAMES[i], d[i], e[i], l, s.len(), m, n, f.what, sp, q(&s.chars().take(1500).collect::<String>()));
                if d[i] > SMALL && grow > 1.3 {
                    worst = worst.max((e[i] as f64 / d[i] as f64).ln() / grow.ln());
                }
            }
        }
        // A fault may end the work early at one size and late at the next:
        // growth is relative to the spoiled or the plain text, whichever took more
        let mut d = e;
        if sp != 0 {
            let (p, _) = efforts(&valid);
            for i in 0..5 {
                d[i] = d[i].max(p[i]);
            }
        }
        last = Some((n, s.len(), d));
    }
    c.count(match worst { w if w < 1.3 => "families growing about linearly", w if w < 2.3 => "families growing at most quadratically", _ => "families growing at most cubically" });
    c.nontrivial(&format!("{} {}", f.what, sp));
    if blocks().is_some() {
        c.count("families measured in basic blocks");
    }
    c.sample(|| format!("{}, spoiled by {}: exponent {:.2}; {} bytes, effort {:?}", f.what, sp, worst, last.unwrap().1, last.unwrap().2));
    Ok(())
}

fn c21_ex(c: &mut Case) -> Verdict {
    let f = fam_ex(c);
    c21_run(c, f)
}
fn c21_ty(c: &mut Case) -> Verdict {
    let f = fam_ty(c);
    c21_run(c, f)
}
fn c21_st(c: &mut Case) -> Verdict {
    let f = fam_st(c);
    c21_run(c, f)
}
fn c21_list(c: &mut Case) -> Verdict {
    let f = fam_list(c);
    c21_run(c, f)
}
fn c21_whole(c: &mut Case) -> Verdict {
    let f = fam_whole(c);
    c21_run(c, f)
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        level: "exploration",
        rule: "families of texts (nestings of every expression, type and conditional form in each of their positions, lists of every kind, sharing), valid and spoiled, at doubling sizes; work counted in basic blocks executed \
               plus allocations; from one size to the next it may grow by at most 1.5 times the power of 2.5 of the growth of the text; distinct by family and fault",
        assumptions: &["nesting up to 96 levels and lists up to 4096 items", "work inside the standard library counts by its allocations only"],
        parts: vec![
            Part { name: "expressions", quick: 2400, thorough: 60000, f: c21_ex },
            Part { name: "types", quick: 800, thorough: 20000, f: c21_ty },
            Part { name: "statements", quick: 800, thorough: 20000, f: c21_st },
            Part { name: "lists", quick: (LISTS.len() * 16) as u64, thorough: (LISTS.len() * 256) as u64, f: c21_list },
            Part { name: "texts", quick: (WHOLE.len() * 16) as u64, thorough: (WHOLE.len() * 256) as u64, f: c21_whole },
        ],
        must: &["texts accepted", "texts rejected", "families measured in basic blocks"],
    }
}
