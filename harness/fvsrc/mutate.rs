//! Mutations of texts

use crate::gen::KEYWORDS;
use crate::rng::Rng;
use crate::text::Line;

const SYMS: &[&str] = &[
    ":", ",", ".", "(", ")", "[", "]", "{", "}", "<=", "<-", "=>", "=", "<", ">", "<<", ">>", "<5>", "<<2>>", "@[x]", "@[", "\"", "'",
    "\"x\"", "\"%d\"", ";", "-", "+", "\\", "@", "%", "#", "<65535>", "<65536>", "<-1>", "<<32767>>", "<<32768>>", "<<-32769>>", "<0>",
    "else", "-data", "-latency", "-under-write", "é", "\u{a0}", "\u{feff}", "\r", "\t", "\u{0}", "data-type", "read-latency",
    "\"h1F\"", "\"b102\"", "\"o8\"", "\"hg\"", "\"b\"", "\"h-1\"", "=>(", "1.0", "1.5E3", "1e400", "1.0E400", "\"\"", "''",
    "\"h1_F\"", "\"b_1\"", "\"o1_\"", ",,", "::", "..", "((", "))", "[[", "]]", "== ", "\"h 1\"",
];
pub const NUMS: &[&str] = &[
    "0", "1", "-1", "00", "007", "+1", "65535", "65536", "32767", "32768", "-32768", "-32769", "4294967296", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999", "1.5", "0x10", "1e5", "٣", "-0", "2147483648", "1_000", "-", "1.0", "-1.5E-3", "1.0E309",
];

pub fn token(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => r.pick(SYMS).to_string(),
        4..=6 => r.pick(KEYWORDS).to_string(),
        7..=8 => r.pick(NUMS).to_string(),
        _ => r.pick(&["x", "foo", "a1", "_", "$", "undeclared", "Adder"]).to_string(),
    }
}

fn is_num(t: &str) -> bool {
    let t = t.trim_matches(['<', '>', '"']);
    !t.is_empty() && t.trim_start_matches('-').bytes().all(|b| b.is_ascii_digit())
}

/// Mutate a single line's tokens. Returns the line and the kind of mutation
pub fn line(r: &mut Rng, lines: &mut [Line]) -> Option<(usize, &'static str)> {
    if lines.is_empty() {
        return None;
    }
    for _ in 0..20 {
        let i = r.below(lines.len());
        let donor = r.pick(lines).toks.clone();
        let t = &mut lines[i].toks;
        if t.is_empty() {
            continue;
        }
        let k = r.below(t.len());
        let kind = match r.below(14) {
            0 | 1 => {
                t.remove(k);
                "token removed"
            }
            2 => {
                let x = t[k].clone();
                t.insert(k, x);
                "token repeated"
            }
            3 if t.len() > 1 => {
                let k = r.below(t.len() - 1);
                if t[k] == t[k + 1] {
                    continue;
                }
                t.swap(k, k + 1);
                "tokens swapped"
            }
            4 | 5 => {
                t[k] = token(r);
                "token replaced"
            }
            6 => {
                let x = token(r);
                t.insert(k, x);
                "token inserted"
            }
            7 => {
                let x = token(r);
                t.push(x);
                "token appended"
            }
            8 if t.len() > 1 => {
                let k = 1 + r.below(t.len() - 1);
                t.truncate(k);
                "line cut short"
            }
            9 => {
                let nums: Vec<usize> = (0..t.len()).filter(|i| is_num(&t[*i])).collect();
                if nums.is_empty() {
                    continue;
                }
                let k = *r.pick(&nums);
                let x = *r.pick(NUMS);
                t[k] = if t[k].starts_with("<<") {
                    format!("<<{}>>", x)
                } else if t[k].starts_with('<') {
                    format!("<{}>", x)
                } else if t[k].starts_with('"') {
                    format!("\"{}\"", x)
                } else {
                    x.to_string()
                };
                "number replaced"
            }
            10 => {
                // change one character of a token
                let mut cs: Vec<char> = t[k].chars().collect();
                let j = r.below(cs.len().max(1));
                match r.below(4) {
                    0 if cs.len() > 1 => {
                        cs.remove(j);
                    }
                    1 if !cs.is_empty() => cs[j] = if cs[j].is_lowercase() { cs[j].to_ascii_uppercase() } else { cs[j].to_ascii_lowercase() },
                    2 => cs.insert(j, *r.pick(&['x', '1', '_', '%', '\\', '"', ' ', '.', '-', 'é', '@', ']', '<'])),
                    _ if !cs.is_empty() => cs[j] = *r.pick(&['q', '0', '!', '%', '\\', '"', ' ', '.', '-', '(', ')', '>']),
                    _ => continue,
                }
                t[k] = cs.into_iter().collect();
                "character changed"
            }
            11 => {
                // tokens of another line follow
                t.extend(donor);
                "two statements in one line"
            }
            12 => {
                // part of another line
                let j = r.below(donor.len().max(1));
                t.truncate(k);
                t.extend(donor.into_iter().skip(j));
                if t.is_empty() {
                    continue;
                }
                "lines spliced"
            }
            _ => {
                let n = 1 + r.below(3);
                *t = (0..n).map(|_| token(r)).collect();
                "line replaced by garbage"
            }
        };
        return Some((i, kind));
    }
    None
}

/// Mutate the sequence of lines
pub fn lines(r: &mut Rng, v: &mut Vec<Line>) -> Option<&'static str> {
    if v.is_empty() {
        return None;
    }
    let i = r.below(v.len());
    Some(match r.below(8) {
        0 | 1 => {
            v.remove(i);
            "line removed"
        }
        2 => {
            let x = v[i].clone();
            v.insert(i, x);
            "line repeated"
        }
        3 => {
            let j = r.below(v.len());
            v.swap(i, j);
            "lines exchanged"
        }
        4 => {
            let x = v.remove(i);
            let j = r.below(v.len() + 1);
            v.insert(j, x);
            "line moved"
        }
        5 => {
            // into another block
            let j = r.below(v.len());
            v[i].path = v[j].path.clone();
            "line moved to another block"
        }
        6 => {
            let mut x = v[i].clone();
            let n = 1 + r.below(3);
            x.toks = (0..n).map(|_| token(r)).collect();
            v.insert(i + r.below(2), x);
            "garbage line inserted"
        }
        _ => {
            v.truncate(i + 1);
            "text cut short"
        }
    })
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Mutate text by characters
pub fn text(r: &mut Rng, s: &str) -> (String, &'static str) {
    let mut o = s.to_string();
    let n = o.len();
    let at = |r: &mut Rng, s: &str| boundary(s, r.below(s.len() + 1));
    match r.below(9) {
        0 if n > 0 => {
            let i = boundary(&o, r.below(n));
            o.remove(i);
            (o, "character removed")
        }
        1 => {
            let i = at(r, &o);
            let c = match r.below(3) {
                0 => char::from_u32(r.below(128) as u32).unwrap(),
                1 => *r.pick(&[' ', '\t', '\n', '\r', ':', '"', '\\', '@', ']', '[', '(', ')', ',', '.', '%', ';', '<', '>', '=', '0', '9', '-']),
                _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
            };
            o.insert(i, c);
            (o, "character inserted")
        }
        2 if n > 0 => {
            let i = boundary(&o, r.below(n));
            o.remove(i);
            o.insert(i, *r.pick(&['x', ' ', '\n', ':', '"', '0', '(', ')', '\\', '-', '<', ',', '%', 'A', ']']));
            (o, "character replaced")
        }
        3 => {
            let i = at(r, &o);
            o.truncate(i);
            (o, "text truncated")
        }
        4 => {
            let (a, b) = (at(r, &o), at(r, &o));
            let (a, b) = (a.min(b), a.max(b));
            let b = boundary(&o, b.min(a + 40));
            o.replace_range(a..b.max(a), "");
            (o, "range removed")
        }
        5 => {
            let i = at(r, &o);
            let t = token(r);
            o.insert_str(i, &t);
            (o, "token inserted anywhere")
        }
        6 | 7 => {
            // indentation of one line
            let mut ls: Vec<String> = o.split_inclusive('\n').map(|s| s.to_string()).collect();
            if !ls.is_empty() {
                let i = r.below(ls.len());
                let l = &ls[i];
                let cur = l.len() - l.trim_start_matches(' ').len();
                let body = l[cur..].to_string();
                let new = match r.below(5) { 0 => 0, 1 => cur + 1, 2 => cur.saturating_sub(1), 3 => cur + 2, _ => r.below(14) };
                ls[i] = format!("{}{}", " ".repeat(new), body);
            }
            (ls.concat(), "indentation changed")
        }
        _ => {
            let t = *r.pick(&["x", "  skip\n", "garbage\n", "    skip\n", "circuit a:\n", "  module zz:\n    skip\n", "module zz:\n  skip\n", "\n", "; c\n", "  ", "\0", "  modul a:\n"]);
            o.push_str(t);
            (o, "text appended")
        }
    }
}
