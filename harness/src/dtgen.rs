//! Random datatypes of the whole library with consistent facets, and candidate values around them.

use crate::dt::{self, Dt, Esc, Item, Kind, Num, ParamVal, Re, Set, kind};
use crate::tape::Tape;

pub const STR_TYPES: &[&str] = &["string", "normalizedString", "token", "NCName", "NMTOKEN", "NMTOKENS"];
pub const OTHER_TYPES: &[&str] = &["boolean", "language", "ID", "IDREF", "anyURI", "date", "dateTime", "duration"];
pub const NUM_TYPES: &[&str] = &[
    "integer", "int", "short", "long", "unsignedInt", "unsignedShort", "unsignedLong", "positiveInteger", "decimal", "double",
];

/// the characters at the ends of the ranges of NameStartChar and NameChar, and those next to them
pub fn name_edge(t: &mut Tape) -> char {
    const ENDS: &[u32] = &[
        0x2D, 0x2E, 0x30, 0x39, 0x3A, 0x41, 0x5A, 0x5F, 0x61, 0x7A, 0xB7, 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x300, 0x36F, 0x370, 0x37D, 0x37F,
        0x1FFF, 0x200C, 0x200D, 0x203F, 0x2040, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF,
    ];
    loop {
        let c = (*t.pick(ENDS) as i64 + t.below(3) as i64 - 1) as u32;
        if let Some(c) = char::from_u32(c).filter(|c| *c != '<' && *c != '\u{FFFE}') {
            return c;
        }
        if t.exhausted() {
            return 'a';
        }
    }
}

/// a character of any category
pub fn any_char(t: &mut Tape) -> char {
    let r = &crate::ucd::CATS[t.below(crate::ucd::CATS.len())];
    let c = r.0 + t.below((r.1 - r.0 + 1).min(1 << 16) as usize) as u32;
    match char::from_u32(c) {
        Some(c) if c >= ' ' && c != '\u{7f}' && c != '\u{FFFE}' && c != '\u{FFFF}' => c,
        _ => 'a',
    }
}

/// a character class expression
fn set(t: &mut Tape, depth: usize) -> Set {
    let n = 1 + t.below(3);
    let items = (0..n)
        .map(|_| match t.below(8) {
            0..=3 => {
                let (a, b) = *t.pick(&[('a', 'c'), ('b', 'x'), ('0', '4'), ('x', 'z'), ('é', 'é'), ('A', 'Z'), ('a', 'z'), ('!', '/'), ('0', '9')]);
                Item::R(a, b)
            }
            4 if t.chance(1, 4) => {
                // a range between any characters
                let (a, b) = (any_char(t), any_char(t));
                Item::R(a.min(b), a.max(b))
            }
            4 | 5 => {
                let c = *t.pick(&['a', '1', '-', '^', '$', '.', '[', ']', '&', '~', '\\', ':', '{', '}', ' ', '*', '|', '(']);
                Item::R(c, c)
            }
            _ => Item::Esc(esc(t)),
        })
        .collect();
    let minus = if depth > 0 && t.chance(1, 4) { Some(Box::new(set(t, depth - 1))) } else { None };
    Set { neg: t.chance(1, 4), items, minus }
}

fn esc(t: &mut Tape) -> Esc {
    if t.chance(1, 5) {
        if t.chance(1, 3) {
            Esc::Cat(*t.pick(dt::CATEGORIES), t.chance(1, 3))
        } else {
            Esc::Cat(*t.pick(&["L", "Lu", "Ll", "N", "Nd", "P", "Pd", "Z", "S", "Sm"]), t.chance(1, 3))
        }
    } else {
        Esc::Multi(*t.pick(&['d', 'd', 'D', 's', 'S', 'i', 'I', 'c', 'C', 'w', 'W']))
    }
}

/// regular expressions of XML Schema
pub fn re(t: &mut Tape, depth: usize) -> Re {
    if depth == 0 {
        return match t.below(10) {
            0..=3 => Re::Char(*t.pick(&['a', 'b', 'c', '1', 'x', 'é', '.', '-', '+', '(', '*', '|', '?', '\\', '0', '^', '$', '&', '~', '#', ':', 'É'])),
            4 => Re::Digit,
            5 => Re::Class(Set::of(vec![('a', 'c')], false)),
            6 => Re::Any,
            7 => Re::Esc(esc(t)),
            _ => Re::Class(set(t, 2)),
        };
    }
    match t.below(6) {
        0 => re(t, 0),
        1 | 2 => Re::Seq((0..2 + t.below(2)).map(|_| re(t, depth - 1)).collect()),
        3 => Re::Alt((0..2 + t.below(2)).map(|_| re(t, depth - 1)).collect()),
        _ => {
            let r = re(t, depth - 1);
            let (lo, hi) = *t.pick(&[(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(3)), (2, None), (0, Some(2))]);
            Re::Rep(Box::new(r), lo, hi)
        }
    }
}

/// a regular expression for values of the type
fn re_for(t: &mut Tape, name: &str) -> Re {
    let digits = |lo, hi| Re::Rep(Box::new(Re::Digit), lo, hi);
    if t.chance(1, 4) {
        return re(t, 2);
    }
    match name {
        n if kind(n) == Kind::Int => {
            let k = t.below(3);
            let sign = Re::Rep(Box::new(Re::Alt(vec![Re::Char('-'), Re::Char('+')])), 0, Some(1));
            Re::Seq(vec![sign, digits(k, if t.chance(1, 2) { None } else { Some(k + 1) })])
        }
        "decimal" | "double" => {
            let k = t.below(3);
            Re::Seq(vec![
                Re::Rep(Box::new(Re::Char('-')), 0, Some(1)),
                digits(1, Some(2)),
                Re::Rep(Box::new(Re::Seq(vec![Re::Char('.'), digits(k, None)])), 0, Some(1)),
            ])
        }
        "boolean" => Re::Alt(vec![Re::Digit, Re::Seq("true".chars().map(Re::Char).collect())]),
        "date" | "dateTime" => Re::Seq(vec![
            Re::Rep(Box::new(Re::Alt(vec![Re::Digit, Re::Char('-')])), 4, None),
            Re::Rep(Box::new(Re::Class(Set::of(vec![('A', 'Z'), ('0', '9'), (':', ':'), ('.', '.')], false))), 0, Some(t.below(12))),
        ]),
        "duration" => Re::Seq(vec![
            Re::Char('P'),
            Re::Rep(Box::new(Re::Class(Set::of(vec![('A', 'Z'), ('0', '9')], false))), 1, Some(1 + t.below(8))),
        ]),
        "language" => Re::Seq(vec![Re::Rep(Box::new(Re::Class(Set::of(vec![('a', 'z')], false))), 2, Some(2)), Re::Rep(Box::new(re(t, 1)), 0, None)]),
        "anyURI" => Re::Seq(vec![Re::Rep(Box::new(Re::Class(Set::of(vec![('a', 'z'), (':', ':'), ('/', '/')], false))), 0, Some(t.below(8)))]),
        "NMTOKENS" => Re::Seq(vec![re(t, 1), Re::Rep(Box::new(Re::Seq(vec![Re::Char(' '), re(t, 1)])), 0, None)]),
        _ => re(t, 2),
    }
}

fn push(d: &mut Dt, n: &str, v: impl Into<String>) {
    d.params.push((n.to_string(), ParamVal::Text(v.into())));
}

/// adds 0..2 patterns
fn patterns(t: &mut Tape, d: &mut Dt) {
    let n = t.weighted(&[5, 3, 1]);
    for _ in 0..n {
        let r = re_for(t, d.name);
        d.params.push(("pattern".into(), ParamVal::Pattern(r)));
    }
}

/// a number written in one of the ways the type allows
pub fn spell_int(t: &mut Tape, v: i128, signed: bool) -> String {
    let mut s = v.unsigned_abs().to_string();
    if t.chance(1, 8) {
        s = format!("00{s}");
    }
    if v < 0 {
        format!("-{s}")
    } else if signed && t.chance(1, 10) {
        format!("+{s}")
    } else {
        s
    }
}

pub fn range(name: &str) -> (i128, i128) {
    let r = dt::INT_TYPES.iter().find(|x| x.0 == name).unwrap();
    let lo = r.1.map(|s| s.parse().unwrap()).unwrap_or(-100_000_000_000_000_000_000_000);
    let hi = r.2.map(|s| s.parse().unwrap()).unwrap_or(100_000_000_000_000_000_000_000);
    (lo, hi)
}
pub fn signed(name: &str) -> bool {
    matches!(name, "integer" | "int" | "short" | "long")
}

fn int_in(t: &mut Tape, lo: i128, hi: i128) -> i128 {
    let v = match t.below(8) {
        0 => lo,
        1 => hi,
        2 => lo.saturating_add(t.below(4) as i128),
        3 => hi.saturating_sub(t.below(4) as i128),
        4 | 5 => t.below(24) as i128 - 6,
        6 => (t.word() as i128) * if t.chance(1, 2) { 1 } else { -1 },
        _ => ((t.word() as i128) << 20) * if t.chance(1, 2) { 1 } else { -1 },
    };
    v.clamp(lo, hi)
}

fn dec(t: &mut Tape) -> String {
    let i = match t.below(4) {
        0 => 0,
        1 => t.below(10),
        2 => t.below(200),
        _ => t.below(2_000_000),
    };
    let neg = i > 0 && t.chance(1, 3);
    let mut s = format!("{}{i}", if neg { "-" } else { "" });
    if t.chance(1, 2) {
        let f = *t.pick(&["5", "25", "0", "10", "001", "99999999999999999999", "50"]);
        s = format!("{s}.{f}");
    }
    s
}
fn dbl(t: &mut Tape) -> String {
    let m = dec(t);
    match t.below(4) {
        0 => format!("{m}e{}", t.below(6)),
        1 => format!("{m}E-{}", t.below(6)),
        _ => m,
    }
}

pub fn numeric(t: &mut Tape) -> Dt {
    let name = *t.pick(NUM_TYPES);
    numeric_of(t, name)
}
fn numeric_of(t: &mut Tape, name: &'static str) -> Dt {
    let mut d = dt::xsd(name);
    let (which_lo, which_hi) = (t.weighted(&[2, 2, 2]), t.weighted(&[2, 2, 2]));
    let (lo_name, hi_name) = (["", "minInclusive", "minExclusive"][which_lo], ["", "maxInclusive", "maxExclusive"][which_hi]);
    // bounds with room between them
    let (a, b): (String, String) = match kind(name) {
        Kind::Int => {
            let (lo, hi) = range(name);
            let x = int_in(t, lo, hi);
            let y = if t.chance(1, 2) { x.saturating_add(t.below(12) as i128).min(hi) } else { int_in(t, lo, hi) };
            let (x, y) = (x.min(y), x.max(y));
            (spell_int(t, x, signed(name)), spell_int(t, y, signed(name)))
        }
        Kind::Dec => {
            let (x, y) = (dec(t), dec(t));
            if Num::parse(&x).unwrap().cmp(&Num::parse(&y).unwrap()) == std::cmp::Ordering::Greater { (y, x) } else { (x, y) }
        }
        _ => {
            let (x, y) = (dbl(t), dbl(t));
            if dt::parse_double(&x) > dt::parse_double(&y) { (y, x) } else { (x, y) }
        }
    };
    let same = match kind(name) {
        Kind::Dbl => dt::parse_double(&a) == dt::parse_double(&b),
        _ => Num::parse(&a).unwrap().cmp(&Num::parse(&b).unwrap()) == std::cmp::Ordering::Equal,
    };
    if which_lo > 0 {
        push(&mut d, lo_name, a);
    }
    // equal bounds are consistent only when both are inclusive
    if which_hi > 0 && !(same && which_lo > 0 && (which_lo == 2 || which_hi == 2)) {
        push(&mut d, hi_name, b);
    }
    if name == "decimal" {
        let mut total = None;
        if t.chance(1, 4) {
            let n = 1 + t.below(6);
            total = Some(n);
            push(&mut d, "totalDigits", n.to_string());
        }
        if t.chance(1, 4) {
            let n = t.below(5).min(total.unwrap_or(9));
            push(&mut d, "fractionDigits", n.to_string());
        }
    }
    if t.chance(1, 3) {
        patterns(t, &mut d);
    }
    d
}

pub fn stringy(t: &mut Tape) -> Dt {
    let name = *t.pick(STR_TYPES);
    let mut d = dt::xsd(name);
    match t.below(6) {
        0 => {
            let n = t.below(6);
            push(&mut d, "length", n.to_string());
        }
        1 => {
            let n = t.below(4);
            push(&mut d, "minLength", n.to_string());
        }
        2 => {
            let n = t.below(6);
            push(&mut d, "maxLength", n.to_string());
        }
        3 | 4 => {
            let n = t.below(4);
            let m = n + t.below(4);
            push(&mut d, "minLength", n.to_string());
            push(&mut d, "maxLength", m.to_string());
        }
        _ => {}
    }
    if t.chance(1, 2) {
        patterns(t, &mut d);
    }
    d
}

pub fn other(t: &mut Tape) -> Dt {
    let name = *t.pick(OTHER_TYPES);
    let mut d = dt::xsd(name);
    if t.chance(1, 3) {
        patterns(t, &mut d);
    }
    d
}

pub fn any(t: &mut Tape) -> Dt {
    let mut d = match t.below(7) {
        0 | 1 => numeric(t),
        2 | 3 => stringy(t),
        4 => other(t),
        5 => dt::builtin("token"),
        _ => dt::builtin("string"),
    };
    if d.params.len() > 1 && t.chance(1, 2) {
        t.shuffle(&mut d.params);
    }
    d
}

/// a datatype that differs from the given one in one detail
pub fn cousin(t: &mut Tape, d: &Dt) -> Dt {
    let mut e = d.clone();
    match t.below(4) {
        0 => {
            let same: &[&[&str]] = &[&["string", "normalizedString", "token"], &["ID", "IDREF"]];
            if let Some(f) = same.iter().find(|f| f.contains(&d.name)) {
                e.name = *t.pick(f);
                return e;
            }
        }
        1 if !e.params.is_empty() => {
            let i = t.below(e.params.len());
            e.params.remove(i);
            return e;
        }
        2 if !e.params.is_empty() => {
            let i = t.below(e.params.len());
            let alone = !e.params.iter().enumerate().any(|(j, (p, _))| j != i && p != "pattern");
            let name = e.params[i].0.clone();
            match &mut e.params[i].1 {
                ParamVal::Pattern(r) => {
                    *r = re_for(t, d.name);
                    return e;
                }
                ParamVal::Text(v) if name.ends_with("ength") || name.ends_with("Digits") => {
                    let up = !matches!(&name[..], "minLength" | "fractionDigits") || alone;
                    if let Ok(n) = v.trim().parse::<u32>() {
                        if up {
                            *v = (n + 1).to_string();
                            return e;
                        } else if n > 0 {
                            *v = (n - 1).to_string();
                            return e;
                        }
                    }
                }
                ParamVal::Text(_) if alone => {
                    let (a, b) = if name.ends_with("Inclusive") { ("Inclusive", "Exclusive") } else { ("Exclusive", "Inclusive") };
                    e.params[i].0 = name.replace(a, b);
                    return e;
                }
                _ => {}
            }
        }
        _ => {}
    }
    let r = re_for(t, d.name);
    let at = t.below(e.params.len() + 1);
    e.params.insert(at, ("pattern".into(), ParamVal::Pattern(r)));
    e
}

/// a string in or near the type, with white space around and within it varied; excluded are the
/// few spellings on which versions of XML Schema differ
pub fn value(t: &mut Tape, d: &Dt) -> String {
    loop {
        let s = raw_value(t, d);
        if !debatable(d, &s) {
            return s;
        }
        if t.exhausted() {
            return "1".into();
        }
    }
}

/// spellings on which editions of XML Schema disagree
pub fn debatable(d: &Dt, s: &str) -> bool {
    let v = dt::collapse(s);
    // the class of a character that is unassigned here depends on the version of Unicode
    if d.params.iter().any(|(_, p)| matches!(p, ParamVal::Pattern(_))) && s.chars().any(|c| dt::category(c) == "Cn") {
        return true;
    }
    match d.name {
        "unsignedInt" | "unsignedShort" | "unsignedLong" => v.starts_with(['-', '+']),
        "double" => v == "+INF",
        "date" | "dateTime" => {
            v.starts_with("0000")
                || v.starts_with("-0000")
                || v.contains("T24")
                || v.starts_with('+')
                || (v.starts_with('-') && v.contains("-02-29"))
                || v.contains(":60")
        }
        "anyURI" => dt::uri_debatable(&v),
        "duration" => v.starts_with('+'),
        _ => false,
    }
}

fn raw_value(t: &mut Tape, d: &Dt) -> String {
    let mut s = match t.below(10) {
        0..=2 => {
            let c = dt::candidates(d);
            t.pick(&c).clone()
        }
        3 => dt::sample(t, d),
        _ => fresh(t, d),
    };
    if t.chance(1, 5) {
        edit(t, &mut s, d.name);
    }
    if t.chance(1, 6) {
        let w = *t.pick(&[" ", "\n", "\t", "  ", "\r", "\u{a0}", "\u{2003}"]);
        if t.chance(1, 2) { s.insert_str(0, w) } else { s.push_str(w) }
    }
    s
}

fn edit(t: &mut Tape, s: &mut String, name: &str) {
    let alphabet: &[char] = match kind(name) {
        Kind::Int | Kind::Dec | Kind::Dbl => &['0', '1', '9', '-', '+', '.', 'e', ' ', 'x', '_', '٣'],
        _ => &['a', 'b', '1', '-', ':', ' ', '\n', 'T', 'Z', '.', 'é', 'P', '0', '_', '#', '%', '/'],
    };
    let mut c: Vec<char> = s.chars().collect();
    let i = t.below(c.len() + 1);
    if kind(name) == Kind::Str && t.chance(1, 4) {
        c.insert(i, any_char(t));
        *s = c.into_iter().collect();
        return;
    }
    match t.below(4) {
        0 => c.insert(i, *t.pick(alphabet)),
        1 if i < c.len() => {
            c.remove(i);
        }
        2 if i < c.len() => c[i] = *t.pick(alphabet),
        _ => {
            if i < c.len() {
                let j = t.below(c.len());
                c.swap(i, j);
            }
        }
    }
    *s = c.into_iter().collect();
}

fn fresh(t: &mut Tape, d: &Dt) -> String {
    match d.name {
        n if kind(n) == Kind::Int => {
            let (lo, hi) = range(n);
            // around a bound of the declaration or of the type
            let mut around: Vec<i128> = vec![lo, hi];
            for (_, v) in &d.params {
                if let ParamVal::Text(s) = v {
                    if let Ok(x) = s.trim().parse::<i128>() {
                        around.push(x);
                        around.push(x);
                    }
                }
            }
            let base = if t.chance(1, 2) { *t.pick(&around) } else { int_in(t, lo, hi) };
            let v = base + t.below(5) as i128 - 2;
            spell_int(t, v, true)
        }
        "decimal" | "double" => {
            let mut around: Vec<String> = vec![];
            for (n, v) in &d.params {
                if let ParamVal::Text(s) = v {
                    if n.contains("clusive") {
                        around.push(s.trim().to_string());
                    }
                }
            }
            let mut s = if !around.is_empty() && t.chance(1, 2) {
                t.pick(&around).clone()
            } else if d.name == "double" && t.chance(1, 4) {
                t.pick(&["INF", "-INF", "NaN", "-0", "1e400", "-1E400", "inf", "nan", "1e", "e5", ".e1", "1e1.5", "0x10", "Infinity", "1E+5", "+1.5", "4.9E-324"]).to_string()
            } else if d.name == "double" {
                dbl(t)
            } else {
                match t.below(6) {
                    0 => t.pick(&[".5", "5.", ".", "+.5", "-.0", "1e1", "00.50", "1.50000", "100", "", "-0.001", "12345.6789"]).to_string(),
                    _ => dec(t),
                }
            };
            // one more digit puts the value just beside the bound
            if t.chance(1, 3) && !s.contains(['e', 'E', 'N']) && !s.is_empty() {
                if !s.contains('.') {
                    s.push('.');
                }
                s.push_str(t.pick(&["0", "1", "000", "0001", "9"]));
            }
            s
        }
        "string" | "normalizedString" | "token" => {
            let n = t.below(7);
            (0..n).map(|_| *t.pick(&['a', 'b', 'c', 'x', '1', ' ', '\t', '\n', 'é', '\u{1F600}', '.', '-', ' '])).collect()
        }
        "NCName" | "ID" | "IDREF" => {
            let n = 1 + t.below(5);
            (0..n).map(|_| if t.chance(1, 6) { name_edge(t) } else { *t.pick(&['a', 'b', 'x', '1', '-', '.', '_', 'é', ':', '·', '\u{300}', 'Ω', '中', '\u{D7}']) }).collect()
        }
        "NMTOKEN" => {
            let n = 1 + t.below(5);
            (0..n).map(|_| if t.chance(1, 6) { name_edge(t) } else { *t.pick(&['a', 'b', 'x', '1', '-', '.', '_', 'é', ':', '·', '/', '中', ' ']) }).collect()
        }
        "NMTOKENS" => {
            let n = t.below(5);
            let sep = *t.pick(&[" ", "  ", "\n", "\t "]);
            (0..n).map(|_| t.pick(&["a", "1", "x:y", "ab", "é", "-", "b/c", "xx"]).to_string()).collect::<Vec<_>>().join(sep)
        }
        "boolean" => t.pick(&["true", "false", "0", "1", "TRUE", "yes", "", "2", "00", "t", " true ", "tru e", "+1"]).to_string(),
        "language" => {
            let n = 1 + t.below(3);
            (0..n).map(|_| t.pick(&["en", "x", "GB", "abcdefgh", "abcdefghi", "1996", "a1", "", "i", "zh"]).to_string()).collect::<Vec<_>>().join("-")
        }
        "anyURI" => {
            let n = t.below(5);
            (0..n).map(|_| t.pick(&["http:", "//", "example.org", "/a", "?q=1", "#f", "%20", "%zz", "%2", "urn:x", "é", "a b", "://", ":8", "1", "+", ":", "..", "a", "<", "\\", "^", "{", "|"]).to_string()).collect()
        }
        "date" => date_text(t),
        "dateTime" => {
            let d0 = date_text(t);
            // the zone belongs at the end
            let core: String = d0.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
            let h = t.pick(&["00", "23", "12", "24", "9", "25", "-1"]).to_string();
            let m = t.pick(&["00", "59", "30", "60", "5"]).to_string();
            let s = t.pick(&["00", "59", "60", "61", "7", "30.5", "30.", "30.123456789", "00.0", "5.5"]).to_string();
            let z = zone(t);
            let sep = if t.chance(1, 10) { *t.pick(&["t", " ", ""]) } else { "T" };
            if t.chance(1, 12) { format!("{core}{sep}{h}:{m}{z}") } else { format!("{core}{sep}{h}:{m}:{s}{z}") }
        }
        "duration" => {
            let mut s = String::new();
            if t.chance(1, 4) {
                s.push('-');
            }
            s.push_str(if t.chance(1, 16) { "" } else { "P" });
            for u in ["Y", "M", "D"] {
                if t.chance(1, 3) {
                    let n = *t.pick(&["1", "0", "12", "100", "1.5", "", "-1"]);
                    let n = if t.chance(3, 4) { "3" } else { n };
                    s.push_str(&format!("{n}{u}"));
                }
            }
            if t.chance(1, 2) {
                s.push('T');
                for u in ["H", "M", "S"] {
                    if t.chance(1, 2) {
                        let n = *t.pick(&["1", "0", "12", "1.5", ".5", "5.", ""]);
                        let n = if t.chance(1, 2) { "7" } else { n };
                        s.push_str(&format!("{n}{u}"));
                    }
                }
            }
            s
        }
        n => unreachable!("{n}"),
    }
}

fn zone(t: &mut Tape) -> String {
    t.pick(&["", "", "Z", "+00:00", "-05:00", "+14:00", "-14:00", "+14:01", "+15:00", "+1:00", "z", "+0100", "-00:60", "Z+01:00", "-13:59"]).to_string()
}
fn date_text(t: &mut Tape) -> String {
    let y = t.pick(&["2024", "2023", "1900", "2000", "0001", "-0044", "12024", "012024", "999", "-12000", "2100", "0400"]).to_string();
    let m = t.pick(&["01", "02", "02", "04", "12", "13", "00", "1", "11"]).to_string();
    let d = t.pick(&["01", "28", "29", "30", "31", "32", "00", "5"]).to_string();
    let z = zone(t);
    let sep = if t.chance(1, 16) { *t.pick(&["/", "", " "]) } else { "-" };
    format!("{y}{sep}{m}-{d}{z}")
}
