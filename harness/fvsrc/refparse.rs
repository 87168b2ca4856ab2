//! Independent reader of FIRRTL text, used as the reference for what a text
//! denotes and whether it is well formed
//!
//! The reader is three-valued: a text is accepted, rejected or left
//! unspecified, the latter for spellings which the syntax neither clearly
//! permits nor clearly forbids.

use num_bigint::{BigInt, BigUint, Sign};
use num_bigint::BigInt as BI;
use std::collections::HashMap;
use std::rc::Rc;

use crate::model::*;
use crate::typing::min_signed_width;

pub enum V {
    Accept(Prog),
    /// Malformed at this line (if the fault lies in a line), within the
    /// constructs started at these lines. `soft`: something before is unspecified
    Reject { line: Option<usize>, headers: Vec<usize>, soft: bool, why: String },
    Unspec(String),
}

enum F {
    Rej(Option<usize>, Vec<usize>, String),
    Un(String),
}

type Res<T> = Result<T, F>;

const MAX_DEPTH: usize = 400;

pub struct P<'a> {
    s: &'a str,
    pos: usize,
    /// Line number of the line being read
    line: usize,
    /// Position up to which lines were counted and the line there
    counted: (usize, usize),
    heads: Vec<usize>,
    soft: Option<String>,
    /// Accept a backslash followed by a line break within strings
    pub escnl: bool,
    ents: HashMap<String, Rc<Ent>>,
    smems: HashMap<String, Rc<SMem>>,
    mods: HashMap<String, Rc<Module>>,
    depth: usize,
    /// Number of statements, ports and modules read
    pub items: usize,
}

fn word_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

impl<'a> P<'a> {
    pub fn new(s: &'a str, escnl: bool) -> Self {
        P { s, pos: 0, line: 1, counted: (0, 1), heads: vec![], soft: None, escnl, ents: HashMap::new(), smems: HashMap::new(),
            mods: HashMap::new(), depth: 0, items: 0 }
    }

    // -------------------------------------------------------------- basics
    fn rej<T>(&self, why: &str) -> Res<T> {
        Err(F::Rej(Some(self.line), self.heads.clone(), why.to_string()))
    }
    fn un<T>(&self, why: &str) -> Res<T> {
        Err(F::Un(why.to_string()))
    }
    fn soften(&mut self, why: &str) {
        if self.soft.is_none() {
            self.soft = Some(why.to_string());
        }
    }
    fn rest(&self) -> &'a str {
        &self.s[self.pos..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.pos += c.len_utf8();
        Some(c)
    }
    fn sp(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\t')) {
            self.pos += 1;
        }
    }
    fn lit(&mut self, l: &str) -> bool {
        if self.rest().starts_with(l) {
            self.pos += l.len();
            true
        } else {
            false
        }
    }
    /// Spaces and then a fixed symbol
    fn sym(&mut self, l: &str) -> bool {
        let p = self.pos;
        self.sp();
        if self.lit(l) {
            true
        } else {
            self.pos = p;
            false
        }
    }
    fn need(&mut self, l: &str) -> Res<()> {
        if self.sym(l) { Ok(()) } else { self.rej(&format!("expected '{}'", l)) }
    }
    /// The word at the current position, without consuming it
    fn word_at(&self) -> &'a str {
        let r = self.rest();
        let e = r.find(|c| !word_char(c)).unwrap_or(r.len());
        &r[..e]
    }
    fn peek_word(&self) -> &'a str {
        let r = self.rest().trim_start_matches([' ', '\t']);
        let e = r.find(|c| !word_char(c)).unwrap_or(r.len());
        &r[..e]
    }
    fn word(&mut self, w: &str) -> bool {
        let p = self.pos;
        self.sp();
        if self.word_at() == w {
            self.pos += w.len();
            true
        } else {
            self.pos = p;
            false
        }
    }
    fn need_word(&mut self, w: &str) -> Res<()> {
        if self.word(w) { Ok(()) } else { self.rej(&format!("expected '{}'", w)) }
    }
    fn ident(&mut self) -> Res<String> {
        self.sp();
        let w = self.word_at();
        if w.is_empty() || w.starts_with(char::is_numeric) {
            return self.rej("expected identifier");
        }
        self.pos += w.len();
        Ok(w.to_string())
    }
    fn field(&mut self) -> Res<String> {
        self.sp();
        let w = self.word_at();
        if w.is_empty() {
            return self.rej("expected field name");
        }
        self.pos += w.len();
        Ok(w.to_string())
    }
    fn enter(&mut self) -> Res<()> {
        self.depth += 1;
        if self.depth > MAX_DEPTH { self.un("deeply nested") } else { Ok(()) }
    }
    fn leave(&mut self) {
        self.depth -= 1;
    }

    // --------------------------------------------------------------- lines
    /// The end of the current line and any blank lines following
    fn eol(&mut self) -> Res<()> {
        let mut first = true;
        loop {
            let p = self.pos;
            self.sp();
            if self.peek() == Some(';') {
                while let Some(c) = self.peek() {
                    if c == '\n' || self.rest().starts_with("\r\n") {
                        break;
                    }
                    if c == '\r' {
                        return self.un("carriage return in a comment");
                    }
                    self.bump();
                }
            }
            if self.lit("\n") || self.lit("\r\n") {
                first = false;
                continue;
            }
            if self.peek().is_none() {
                if first || self.pos > p {
                    self.soften("no line end at the end of the text");
                }
                return Ok(());
            }
            if self.peek() == Some('\r') {
                return self.un("lone carriage return");
            }
            if first {
                return self.rej("unexpected characters");
            }
            self.pos = p;
            return Ok(());
        }
    }
    fn at_end(&self) -> bool {
        self.pos >= self.s.len()
    }
    /// Indentation of the line at the current position, `None` at the end
    fn indent(&self) -> Option<usize> {
        if self.at_end() {
            return None;
        }
        let r = self.rest();
        Some(r.len() - r.trim_start_matches(' ').len())
    }
    fn start_line(&mut self) -> Res<()> {
        // Counted on from the line before
        let (at, n) = if self.counted.0 <= self.pos { self.counted } else { (0, 1) };
        let new = self.s.as_bytes()[at..self.pos].iter().filter(|b| **b == b'\n').count();
        self.counted = (self.pos, n + new);
        self.line = n + new;
        let n = self.indent().unwrap_or(0);
        self.pos += n;
        if self.peek() == Some('\t') {
            return self.un("tab in indentation");
        }
        self.items += 1;
        Ok(())
    }
    /// Is the next line part of the current block? `block` is fixed by its
    /// first line
    fn in_block(&mut self, parent: usize, block: &mut Option<usize>) -> bool {
        match (self.indent(), *block) {
            (None, _) => false,
            (Some(i), Some(b)) => i == b,
            (Some(i), None) if i > parent => {
                *block = Some(i);
                true
            }
            _ => false,
        }
    }

    // ------------------------------------------------------------- numbers
    /// Digits with an optional sign, as text
    fn digits(&mut self, signed: bool) -> Res<String> {
        let mut s = String::new();
        if self.peek() == Some('+') {
            self.pos += 1;
            self.soften("plus sign");
        } else if self.peek() == Some('-') {
            self.pos += 1;
            if !signed {
                // Negative zero is nobody's business
                if self.rest().starts_with('0') {
                    self.soften("negative number where none is allowed");
                } else {
                    return self.rej("negative number");
                }
            }
            s.push('-');
        }
        let w = self.rest();
        let e = w.find(|c: char| !c.is_numeric()).unwrap_or(w.len());
        let d = &w[..e];
        if d.is_empty() {
            return self.rej("expected number");
        }
        if !d.bytes().all(|b| b.is_ascii_digit()) {
            return self.un("digits outside of ASCII");
        }
        if self.escnl && d.len() > 1 && d.starts_with('0') {
            return self.rej("leading zero");
        }
        self.pos += e;
        s.push_str(d);
        Ok(s)
    }
    fn num(&mut self, lo: i128, hi: i128) -> Res<i128> {
        let s = self.digits(lo < 0)?;
        let v: BigInt = s.parse().expect("harness: digits");
        if v < BI::from(lo) || v > BI::from(hi) {
            return self.rej("number out of range");
        }
        Ok(s.parse::<i128>().expect("harness: number"))
    }
    fn u16(&mut self) -> Res<u16> {
        self.num(0, 65535).map(|v| v as u16)
    }
    /// `<n>` at the current position or after spaces
    fn width(&mut self) -> Res<Option<u16>> {
        let p = self.pos;
        self.sp();
        if self.peek() == Some('<') && !self.rest().starts_with("<<") {
            self.pos += 1;
            if matches!(self.peek(), Some(' ') | Some('\t')) {
                return self.un("space in width");
            }
            let w = self.u16()?;
            if matches!(self.peek(), Some(' ') | Some('\t')) {
                return self.un("space in width");
            }
            if !self.lit(">") {
                return self.rej("expected '>'");
            }
            return Ok(Some(w));
        }
        self.pos = p;
        Ok(None)
    }
    fn int_lit(&mut self, signed: bool) -> Res<BigInt> {
        self.sp();
        if self.peek() != Some('"') {
            let s = self.digits(signed)?;
            return Ok(s.parse().expect("harness: digits"));
        }
        self.pos += 1;
        let radix = match self.bump() {
            Some('b') => 2,
            Some('o') => 8,
            Some('h') => 16,
            _ => return self.rej("expected radix"),
        };
        let mut neg = false;
        match self.peek() {
            Some('+') => {
                self.pos += 1;
                self.soften("plus sign");
            }
            Some('-') => {
                self.pos += 1;
                neg = true;
            }
            _ => (),
        }
        let r = self.rest();
        // an underscore is no digit in FIRRTL
        let e = r.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(r.len());
        let d = &r[..e];
        if d.is_empty() || !d.chars().all(|c| c.is_digit(radix)) {
            return self.rej("bad digits");
        }
        self.pos += e;
        if !self.lit("\"") {
            return self.rej("unterminated number");
        }
        let mut v = BigUint::from(0u8);
        for c in d.chars() {
            v = v * radix + c.to_digit(radix).unwrap();
        }
        if neg && !signed {
            if v.bits() == 0 {
                self.soften("negative zero");
            } else {
                return self.rej("negative number");
            }
        }
        Ok(BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, v))
    }

    // ------------------------------------------------------------- strings
    /// Characters up to the closing one, escapes resolved
    fn text(&mut self, close: char) -> Res<String> {
        let mut o = String::new();
        loop {
            match self.bump() {
                None => return self.rej("unterminated string"),
                Some(c) if c == close => return Ok(o),
                Some('\n') => return self.rej("line break in string"),
                Some('\t') => {
                    self.soften("tab in string");
                    o.push('\t');
                }
                Some('\\') => o.push(self.escape()?),
                Some(c) => o.push(c),
            }
        }
    }
    fn escape(&mut self) -> Res<char> {
        match self.bump() {
            None => self.rej("unterminated string"),
            Some('n') => Ok('\n'),
            Some('t') => Ok('\t'),
            Some('\n') if !self.escnl => self.un("escaped line break"),
            Some(c) => Ok(c),
        }
    }
    fn info(&mut self) -> Res<Option<String>> {
        if self.sym("@[") {
            self.text(']').map(Some)
        } else {
            Ok(None)
        }
    }
    fn fmt_str(&mut self) -> Res<Vec<Result<String, Fm>>> {
        self.sp();
        if !self.lit("\"") {
            return self.rej("expected format string");
        }
        let mut out: Vec<Result<String, Fm>> = vec![];
        let mut cur = String::new();
        loop {
            match self.bump() {
                None => return self.rej("unterminated string"),
                Some('"') => break,
                Some('\n') => return self.rej("line break in string"),
                Some('\t') => {
                    self.soften("tab in string");
                    cur.push('\t');
                }
                Some('\\') => {
                    let c = self.escape()?;
                    cur.push(c);
                }
                Some('%') => {
                    let f = match self.bump() {
                        Some('%') => {
                            cur.push('%');
                            continue;
                        }
                        Some('b') => Fm::B,
                        Some('d') => Fm::D,
                        Some('x') => Fm::X,
                        Some('c') => Fm::C,
                        _ => return self.rej("bad format specifier"),
                    };
                    if !cur.is_empty() {
                        out.push(Ok(std::mem::take(&mut cur)));
                    }
                    out.push(Err(f));
                }
                Some(c) => cur.push(c),
            }
        }
        if !cur.is_empty() {
            out.push(Ok(cur));
        }
        Ok(out)
    }

    // --------------------------------------------------------------- types
    fn ty_(&mut self) -> Res<Ty> {
        self.enter()?;
        self.sp();
        let mut t = if self.lit("{") {
            let mut v: Vec<Fld> = vec![];
            if !self.sym("}") {
                loop {
                    let p = self.pos;
                    let mut flip = false;
                    if self.word("flip") {
                        if self.sym(":") {
                            // a field named flip
                            self.pos = p;
                        } else {
                            flip = true;
                        }
                    }
                    let name = self.field()?;
                    if v.iter().any(|f| f.name == name) {
                        self.soften("duplicate field");
                    }
                    self.need(":")?;
                    let ty = self.ty_()?;
                    v.push(Fld { name, flip, ty });
                    if self.sym("}") {
                        break;
                    }
                    self.need(",")?;
                }
            }
            Ty::B(v)
        } else {
            let w = self.word_at();
            self.pos += w.len();
            Ty::G(match w {
                "UInt" => Gr::U(self.width()?),
                "SInt" => Gr::S(self.width()?),
                "Analog" => Gr::A(self.width()?),
                "Fixed" => {
                    let w = self.width()?;
                    let mut p = None;
                    if self.sym("<<") {
                        if matches!(self.peek(), Some(' ') | Some('\t')) {
                            return self.un("space in point");
                        }
                        p = Some(self.num(-32768, 32767)? as i16);
                        if matches!(self.peek(), Some(' ') | Some('\t')) {
                            return self.un("space in point");
                        }
                        if !self.lit(">>") {
                            return self.rej("expected '>>'");
                        }
                    }
                    Gr::F(w, p)
                }
                "Clock" => Gr::Clock,
                "Reset" => Gr::Reset,
                "AsyncReset" => Gr::AReset,
                _ => return self.rej("expected type"),
            })
        };
        while self.sym("[") {
            self.sp();
            let n = self.u16()?;
            self.need("]")?;
            t = Ty::V(Rc::new(t), n);
        }
        self.leave();
        Ok(t)
    }

    // --------------------------------------------------------- expressions
    pub fn with_ents(mut self, e: impl IntoIterator<Item = Rc<Ent>>) -> Self {
        for e in e {
            self.ents.insert(e.name.clone(), e);
        }
        self
    }
    pub fn with_smems(mut self, e: impl IntoIterator<Item = Rc<SMem>>) -> Self {
        for e in e {
            self.smems.insert(e.name.clone(), e);
        }
        self
    }
    pub fn with_mods(mut self, e: impl IntoIterator<Item = Rc<Module>>) -> Self {
        for e in e {
            self.mods.insert(e.name.clone(), e);
        }
        self
    }
    /// Does a literal follow, given that `UInt` or `SInt` was consumed?
    fn literal_follows(&self) -> bool {
        let r = self.rest().trim_start_matches([' ', '\t']);
        if r.starts_with('(') {
            return true;
        }
        match r.strip_prefix('<') {
            Some(r) => {
                let r = r.trim_start_matches([' ', '\t', '+', '-']);
                let r = r.trim_start_matches(word_char).trim_start_matches([' ', '\t']);
                match r.strip_prefix('>') {
                    Some(r) => r.trim_start_matches([' ', '\t']).starts_with('('),
                    None => false,
                }
            }
            None => false,
        }
    }
    fn ex(&mut self) -> Res<Ex> {
        self.enter()?;
        self.sp();
        let w = self.word_at();
        if w.is_empty() || w.starts_with(char::is_numeric) {
            return self.rej("expected expression");
        }
        self.pos += w.len();
        let call = self.rest().trim_start_matches([' ', '\t']).starts_with('(');
        let mut e = match w {
            "UInt" if self.literal_follows() => {
                let wd = self.width()?;
                self.need("(")?;
                let v = self.int_lit(false)?;
                self.need(")")?;
                let v = v.to_biguint().unwrap_or_default();
                let need = v.bits();
                let wd = match wd {
                    Some(w) => {
                        if (w as u64) < need {
                            self.soften("value exceeds width");
                        }
                        w
                    }
                    None => {
                        if need == 0 {
                            self.soften("inferred width of zero");
                        }
                        if need > 65535 {
                            return self.rej("width out of range");
                        }
                        need as u16
                    }
                };
                Ex::ULit(v, wd)
            }
            "SInt" if self.literal_follows() => {
                let wd = self.width()?;
                self.need("(")?;
                let v = self.int_lit(true)?;
                self.need(")")?;
                let need = min_signed_width(&v);
                let wd = match wd {
                    Some(w) => {
                        if (w as u64) < need {
                            self.soften("value exceeds width");
                        }
                        w
                    }
                    None => {
                        if need != v.bits() + 1 {
                            self.soften("inferred width of a negative power of two");
                        }
                        if need > 65535 {
                            return self.rej("width out of range");
                        }
                        need as u16
                    }
                };
                Ex::SLit(v, wd)
            }
            "mux" if call => {
                self.need("(")?;
                let s = self.ex()?;
                self.need(",")?;
                let a = self.ex()?;
                self.need(",")?;
                let b = self.ex()?;
                self.need(")")?;
                Ex::Mux(Box::new(s), Box::new(a), Box::new(b))
            }
            "validif" if call => {
                self.need("(")?;
                let s = self.ex()?;
                self.need(",")?;
                let a = self.ex()?;
                self.need(")")?;
                Ex::Valid(Box::new(s), Box::new(a))
            }
            _ if call => {
                let o = match op_by_name(w) {
                    Some(o) => o,
                    None => return self.rej("unknown operation"),
                };
                self.need("(")?;
                let mut es = vec![];
                for i in 0..OPS[o].1 {
                    if i > 0 {
                        self.need(",")?;
                    }
                    es.push(self.ex()?);
                }
                let mut ps = vec![];
                for k in OPS[o].2.chars() {
                    self.need(",")?;
                    self.sp();
                    ps.push(if k == 'u' { self.u16()? as i64 } else { self.num(-32768, 32767)? as i64 });
                }
                self.need(")")?;
                Ex::Op(o, es, ps)
            }
            _ => {
                match self.ents.get(w) {
                    Some(e) => Ex::Ref(e.clone()),
                    None => return self.rej(&format!("'{}' is not declared", w)),
                }
            }
        };
        loop {
            if self.sym(".") {
                let f = self.field()?;
                e = Ex::Field(Box::new(e), f);
            } else if self.sym("[") {
                self.sp();
                match self.peek() {
                    Some(c) if c.is_numeric() || c == '+' || c == '-' => {
                        let i = self.u16()?;
                        e = Ex::Idx(Box::new(e), i);
                    }
                    _ => {
                        let i = self.ex()?;
                        e = Ex::Acc(Box::new(e), Box::new(i));
                    }
                }
                self.need("]")?;
            } else {
                break;
            }
        }
        self.leave();
        Ok(e)
    }

    // ---------------------------------------------------------- statements
    fn add(&mut self, e: &Rc<Ent>) {
        if e.name == "else" {
            self.soften("declaration named else");
        }
        self.ents.insert(e.name.clone(), e.clone());
    }
    fn ruw(&mut self) -> Res<Ruw> {
        self.sp();
        let w = self.word_at();
        self.pos += w.len();
        Ok(match w {
            "old" => Ruw::Old,
            "new" => Ruw::New,
            "undefined" => Ruw::Undef,
            _ => return self.rej("bad read-under-write behaviour"),
        })
    }
    fn oname(&mut self) -> Res<Option<String>> {
        if self.sym(":") { self.ident().map(Some) } else { Ok(None) }
    }
    fn block(&mut self, parent: usize) -> Res<Vec<St>> {
        let mut b = None;
        self.stmts(parent, &mut b)
    }
    fn stmts(&mut self, parent: usize, b: &mut Option<usize>) -> Res<Vec<St>> {
        self.enter()?;
        let mut v = vec![];
        while self.in_block(parent, b) {
            self.start_line()?;
            let s = self.st(b.unwrap())?;
            v.push(s);
        }
        // A line deeper than this block is nobody's
        if let (Some(i), Some(b)) = (self.indent(), *b) {
            if i > b {
                return self.stray();
            }
        }
        self.leave();
        Ok(v)
    }
    fn stray<T>(&mut self) -> Res<T> {
        self.start_line()?;
        self.rej("unexpected indentation")
    }
    fn two_words(&self, a: &str, b: &str) -> bool {
        let r = self.rest().trim_start_matches([' ', '\t']);
        match r.strip_prefix(a) {
            Some(r) if !r.starts_with(word_char) => {
                let r = r.trim_start_matches([' ', '\t']);
                match r.strip_prefix(b) {
                    Some(r) => !r.starts_with(word_char),
                    None => false,
                }
            }
            _ => false,
        }
    }
    fn st(&mut self, ind: usize) -> Res<St> {
        let start = self.pos;
        let w = self.word_at();
        self.pos += w.len();
        let r = self.rest();
        let next = r.trim_start_matches([' ', '\t']);
        let ident_next = next.starts_with(|c| word_char(c) && !char::is_numeric(c)) && !self.two_words("is", "invalid");
        let call = next.starts_with('(');
        let k = match w {
            "skip" if next.is_empty() || next.starts_with(['\n', '\r', ';']) || next.starts_with("@[") => StK::Skip,
            "wire" if ident_next => {
                let name = self.ident()?;
                self.need(":")?;
                let t = self.ty_()?;
                self.decl(name, EntK::Wire(t))
            }
            "node" if ident_next => {
                let name = self.ident()?;
                self.need("=")?;
                let e = self.ex()?;
                self.decl(name, EntK::Node(e))
            }
            "reg" if ident_next => {
                let name = self.ident()?;
                self.need(":")?;
                let t = self.ty_()?;
                self.need(",")?;
                let c = self.ex()?;
                let mut rst = None;
                if self.word("with") {
                    self.need(":")?;
                    let n = self.rest().trim_start_matches([' ', '\t']);
                    if n.is_empty() || n.starts_with(['\n', '\r', ';', '@']) {
                        return self.un("reset on lines of its own");
                    }
                    self.need("(")?;
                    self.need_word("reset")?;
                    self.need("=>")?;
                    self.need("(")?;
                    let a = self.ex()?;
                    self.need(",")?;
                    let b = self.ex()?;
                    self.need(")")?;
                    self.need(")")?;
                    rst = Some((a, b));
                }
                self.decl(name, EntK::Reg(t, c, rst))
            }
            "inst" if ident_next => {
                let name = self.ident()?;
                self.need_word("of")?;
                let m = self.ident()?;
                match self.mods.get(&m).cloned() {
                    Some(m) => self.decl(name, EntK::Inst(m)),
                    None => return self.rej("unknown module"),
                }
            }
            "mem" if ident_next => return self.mem(ind),
            "cmem" | "smem" if ident_next => {
                let name = self.ident()?;
                self.need(":")?;
                let ty = self.ty_()?;
                let mut seq = None;
                if w == "smem" {
                    seq = Some(None);
                    if self.sym(",") {
                        seq = Some(Some(self.ruw()?));
                    }
                }
                let m = Rc::new(SMem { name: name.clone(), ty, seq });
                self.smems.insert(name, m.clone());
                StK::SMem(m)
            }
            "read" | "write" | "rdwr" | "infer" if self.peek_word() == "mport" => {
                self.word("mport");
                let name = self.ident()?;
                self.need("=")?;
                let m = self.ident()?;
                let m = match self.smems.get(&m).cloned() {
                    Some(m) => m,
                    None => return self.rej("unknown memory"),
                };
                self.need("[")?;
                let a = self.ex()?;
                self.need("]")?;
                if !self.sym(",") {
                    self.soften("missing comma");
                }
                let c = self.ex()?;
                let d = match w {
                    "read" => Some(Dir::R),
                    "write" => Some(Dir::W),
                    "rdwr" => Some(Dir::RW),
                    _ => None,
                };
                self.decl(name, EntK::MPort(m, d, a, c))
            }
            "attach" if call => {
                self.need("(")?;
                let mut v = vec![self.ex()?];
                while self.sym(",") {
                    v.push(self.ex()?);
                }
                self.need(")")?;
                StK::Attach(v)
            }
            "stop" if call => {
                self.need("(")?;
                let c = self.ex()?;
                self.need(",")?;
                let g = self.ex()?;
                self.need(",")?;
                self.sp();
                let code = self.num(i64::MIN as i128, i64::MAX as i128)? as i64;
                self.need(")")?;
                StK::Stop(self.oname()?, c, g, code)
            }
            "printf" if call => {
                self.need("(")?;
                let c = self.ex()?;
                self.need(",")?;
                let g = self.ex()?;
                self.need(",")?;
                let f = self.fmt_str()?;
                let mut m = vec![];
                for p in f {
                    m.push(match p {
                        Ok(s) => PE::Lit(s),
                        Err(f) => {
                            self.need(",")?;
                            PE::Val(self.ex()?, f)
                        }
                    });
                }
                self.need(")")?;
                StK::Print(self.oname()?, c, g, m)
            }
            "when" if ident_next => return self.when(ind),
            "else" => {
                if self.ents.contains_key("else") {
                    return self.un("entity named else");
                }
                return self.rej("stray else");
            }
            _ => {
                self.pos = start;
                let a = self.ex()?;
                if self.sym("<=") {
                    StK::Conn(a, self.ex()?)
                } else if self.sym("<-") {
                    StK::Part(a, self.ex()?)
                } else if self.word("is") {
                    self.need_word("invalid")?;
                    StK::Inval(a)
                } else {
                    return self.rej("not a statement");
                }
            }
        };
        let info = self.info()?;
        self.eol()?;
        if let StK::Decl(e) = &k {
            self.add(e);
        }
        Ok(St { k, info })
    }
    fn decl(&mut self, name: String, k: EntK) -> StK {
        StK::Decl(Rc::new(Ent { name, k }))
    }
    /// A conditional, its keyword being consumed
    fn when(&mut self, ind: usize) -> Res<St> {
        self.enter()?;
        let c = self.ex()?;
        self.need(":")?;
        let info = self.info()?;
        let n = self.heads.len();
        let line = self.line;
        self.eol()?;
        self.heads.push(line);
        let a = self.block(ind)?;
        if a.is_empty() {
            self.soften("empty when block");
        }
        let mut b = vec![];
        if self.indent() == Some(ind) && self.rest()[ind..].starts_with("else")
            && !self.rest()[ind + 4..].starts_with(word_char)
        {
            self.start_line()?;
            self.pos += 4;
            if self.sym(":") {
                if self.info()?.is_some() {
                    self.soften("info of else");
                }
                self.eol()?;
                b = self.block(ind)?;
                if b.is_empty() {
                    self.soften("empty else block");
                }
            } else if self.word("when") {
                b = vec![self.when(ind)?];
            } else {
                return self.rej("malformed else");
            }
        }
        self.heads.truncate(n);
        self.leave();
        Ok(St { k: StK::When(c, a, b), info })
    }
    fn mem(&mut self, ind: usize) -> Res<St> {
        let name = self.ident()?;
        self.need(":")?;
        let info = self.info()?;
        let head = self.line;
        self.eol()?;
        self.heads.push(head);
        let mut b = None;
        let (mut ty, mut depth, mut rl, mut wl, mut ru) = (None, None, None, None, None);
        let mut ports = vec![];
        while self.in_block(ind, &mut b) {
            self.start_line()?;
            let r = self.rest();
            let e = r.find(|c: char| !word_char(c) && c != '-').unwrap_or(r.len());
            let key = &r[..e];
            self.pos += e;
            self.need("=>")?;
            self.sp();
            let dup = match key {
                "data-type" => ty.replace(self.ty_()?).is_some(),
                "depth" => depth.replace(self.num(0, u64::MAX as i128)? as u64).is_some(),
                "read-latency" => rl.replace(self.u16()?).is_some(),
                "write-latency" => wl.replace(self.u16()?).is_some(),
                "read-under-write" => ru.replace(self.ruw()?).is_some(),
                "reader" | "writer" | "readwriter" => {
                    let d = match key { "reader" => Dir::R, "writer" => Dir::W, _ => Dir::RW };
                    ports.push((self.ident()?, d));
                    false
                }
                _ => return self.rej("unknown memory attribute"),
            };
            if dup {
                return self.rej("duplicate memory attribute");
            }
            self.eol()?;
        }
        if let (Some(i), Some(b)) = (self.indent(), b) {
            if i > b {
                return self.stray();
            }
        }
        self.heads.pop();
        let (ty, depth) = match (ty, depth) {
            (Some(t), Some(d)) => (t, d),
            _ => {
                self.line = head;
                return self.rej("incomplete memory");
            }
        };
        let m = Mem { ty, depth, ports, rl: rl.unwrap_or(0), wl: wl.unwrap_or(0), ruw: ru.unwrap_or(Ruw::Undef) };
        let k = self.decl(name, EntK::Mem(m));
        if let StK::Decl(e) = &k {
            self.add(e);
        }
        Ok(St { k, info })
    }

    // ------------------------------------------------------------- modules
    fn port(&mut self, out: bool) -> Res<Rc<Port>> {
        let name = self.ident()?;
        self.need(":")?;
        let ty = self.ty_()?;
        let info = self.info()?;
        Ok(Rc::new(Port { name, ty, out, info }))
    }
    fn pv(&mut self) -> Res<PV> {
        self.sp();
        match self.peek() {
            Some(q) if q == '"' || q == '\'' => {
                self.pos += 1;
                return self.text(q).map(PV::Str);
            }
            _ => (),
        }
        let r = self.rest();
        let e = r.find(|c: char| !(c.is_numeric() || "+-.eE_".contains(c))).unwrap_or(r.len());
        let s = &r[..e];
        if s.is_empty() {
            return self.rej("bad parameter");
        }
        let d = s.strip_prefix('-').unwrap_or(s);
        if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) {
            return Ok(PV::Int(self.num(i64::MIN as i128, i64::MAX as i128)? as i64));
        }
        // digits . digits [E [-] digits]
        let num = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
        let (m, x) = match d.split_once('E') {
            Some((m, x)) => (m, Some(x)),
            None => (d, None),
        };
        let ok = m.split_once('.').map(|(a, b)| num(a) && num(b)).unwrap_or(false)
            && x.map(|x| num(x.strip_prefix(&['-', '+'][..]).unwrap_or(x))).unwrap_or(true);
        if !ok {
            return if s.contains(|c: char| c.is_numeric()) { self.un("odd number") } else { self.rej("bad parameter") };
        }
        let v: f64 = s.parse().expect("harness: double");
        if !v.is_finite() {
            return self.rej("double out of range");
        }
        self.pos += e;
        Ok(PV::Dbl(v))
    }
    fn module(&mut self, ind: usize) -> Res<Rc<Module>> {
        let w = self.word_at();
        self.pos += w.len();
        let ext = match w {
            "module" => false,
            "extmodule" => true,
            _ => return self.rej("expected module"),
        };
        let name = self.ident()?;
        self.need(":")?;
        let info = self.info()?;
        self.eol()?;
        self.ents.clear();
        self.smems.clear();
        let mut b = None;
        let mut ports = vec![];
        let mut def = None;
        let mut params: Vec<(String, PV)> = vec![];
        let mut state = 0;
        let mut stmts = vec![];
        while self.in_block(ind, &mut b) {
            let p = self.pos;
            self.start_line()?;
            let w = self.word_at();
            let wl = w.len();
            self.pos += wl;
            let next = self.rest().trim_start_matches([' ', '\t']);
            let ident_next = next.starts_with(|c| word_char(c) && !char::is_numeric(c))
                && !self.two_words("is", "invalid");
            match w {
                "input" | "output" if ident_next && state == 0 => {
                    let port = self.port(w == "output")?;
                    self.eol()?;
                    let e = Rc::new(Ent { name: port.name.clone(), k: EntK::Port(port.clone()) });
                    self.add(&e);
                    ports.push(port);
                }
                _ if !ext => {
                    self.pos = p;
                    self.items -= 1;
                    stmts = self.stmts(ind, &mut b)?;
                    break;
                }
                "defname" if state == 0 => {
                    self.need("=")?;
                    def = Some(self.ident()?);
                    self.eol()?;
                    state = 1;
                }
                "parameter" => {
                    let k = self.ident()?;
                    self.need("=")?;
                    let v = self.pv()?;
                    if params.iter().any(|p| p.0 == k) {
                        return self.rej("duplicate parameter");
                    }
                    self.eol()?;
                    params.push((k, v));
                    state = 2;
                }
                _ => return self.rej("unexpected line in external module"),
            }
        }
        if let (Some(i), Some(b)) = (self.indent(), b) {
            if i > b {
                return self.stray();
            }
        }
        if self.ents.values().any(|e| matches!(e.k, EntK::Port(_)) && e.name == "else") {
            self.soften("port named else");
        }
        let k = if ext { MK::Ext(def, params) } else { MK::Reg(stmts) };
        Ok(Rc::new(Module { name, ports, info, k }))
    }
    fn prog(&mut self) -> Res<Prog> {
        // Blank lines first
        loop {
            let p = self.pos;
            self.sp();
            if self.peek() == Some(';') || self.rest().starts_with('\n') || self.rest().starts_with("\r\n") {
                let eof = self.rest().find('\n').is_none();
                if eof {
                    return self.rej("no circuit");
                }
                self.pos = p;
                // consumes all blank lines
                self.eol()?;
                continue;
            }
            if self.at_end() {
                return Err(F::Rej(None, vec![], "no circuit".into()));
            }
            self.pos = p;
            break;
        }
        if self.indent() != Some(0) || self.peek() == Some('\t') {
            return self.un("indented circuit line");
        }
        self.start_line()?;
        if !self.word("circuit") {
            return self.rej("expected circuit");
        }
        let top = self.ident()?;
        self.need(":")?;
        let info = self.info()?;
        self.eol()?;
        let mut b = None;
        let mut modules: Vec<Rc<Module>> = vec![];
        while self.in_block(0, &mut b) {
            self.start_line()?;
            let m = self.module(b.unwrap())?;
            if self.mods.insert(m.name.clone(), m.clone()).is_some() {
                self.soften("duplicate module name");
            }
            modules.push(m);
        }
        if !self.at_end() {
            self.start_line()?;
            return self.rej("unexpected line");
        }
        if !modules.iter().any(|m| m.name == top) {
            return Err(F::Rej(None, vec![], "top module not found".into()));
        }
        Ok(Prog { top, info, modules })
    }
}

/// Read a circuit. `own`: the text was formatted by the crate
pub fn read(s: &str, own: bool) -> V {
    let mut p = P::new(s, own);
    let r = p.prog();
    match (r, p.soft.take()) {
        (Ok(x), None) => V::Accept(x),
        (Ok(_), Some(w)) => V::Unspec(w),
        (Err(F::Rej(line, headers, why)), s) => V::Reject { line, headers, soft: s.is_some(), why },
        (Err(F::Un(w)), _) => V::Unspec(w),
    }
}

/// Read a fragment: a type, or one standing alone in its line
pub enum Frag {
    Ty(Ty),
    Ex(Ex),
    St(St),
    Port(Rc<Port>),
}

#[derive(Copy, Clone)]
pub enum FragK {
    Ty,
    Ex,
    St,
    Port,
}

impl<'a> P<'a> {
    pub fn frag(mut self, k: FragK) -> Result<Frag, String> {
        let r = (|| {
            Ok(match k {
                FragK::Ty => Frag::Ty(self.ty_()?),
                FragK::Ex => Frag::Ex(self.ex()?),
                FragK::St => return Ok(Frag::St(self.st(0)?)),
                FragK::Port => {
                    let out = if self.word("output") { true } else if self.word("input") { false } else {
                        return self.rej("expected direction");
                    };
                    Frag::Port(self.port(out)?)
                }
            })
        })();
        match r {
            Err(F::Rej(_, _, w)) | Err(F::Un(w)) => Err(w),
            Ok(_) if !self.rest().trim().is_empty() => Err(format!("surplus text {:?}", self.rest())),
            Ok(_) if self.soft.is_some() => Err(self.soft.unwrap()),
            Ok(f) => Ok(f),
        }
    }
}
