//! Reference semantics of the datatypes: written from XML Schema part 2 / RELAX NG, with its own
//! decimal arithmetic and its own regular-expression matcher, sharing nothing with the code under
//! test.

use crate::ucd::CATS;
use std::cmp::Ordering;

/// A character class expression: `[` `^`? items (`-` class)? `]`
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Set {
    pub neg: bool,
    pub items: Vec<Item>,
    pub minus: Option<Box<Set>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    /// inclusive range
    R(char, char),
    Esc(Esc),
}
/// multi-character escapes: one of `d D s S i I c C w W`, or a category with its negation
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Esc {
    Multi(char),
    Cat(&'static str, bool),
}
/// Unicode general category ("Cn" for characters unassigned in the version of the table)
pub fn category(c: char) -> &'static str {
    let c = c as u32;
    let i = CATS.partition_point(|r| r.1 < c);
    match CATS.get(i) {
        Some(r) if r.0 <= c => r.2,
        _ => "Cn",
    }
}
pub const CATEGORIES: &[&str] = &[
    "L", "Lu", "Ll", "Lt", "Lm", "Lo", "M", "Mn", "Mc", "Me", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "S", "Sm", "Sc",
    "Sk", "So", "Z", "Zs", "Zl", "Zp", "C", "Cc", "Cf", "Co",
];
impl Esc {
    pub fn print(&self) -> String {
        match self {
            Esc::Multi(c) => format!("\\{c}"),
            Esc::Cat(n, neg) => format!("\\{}{{{n}}}", if *neg { 'P' } else { 'p' }),
        }
    }
    /// some characters of a category
    pub fn samples(&self) -> Vec<char> {
        match self {
            Esc::Cat(n, _) => {
                let v: Vec<char> = CATS.iter().filter(|r| r.2.starts_with(n) && r.0 >= 0xa0).filter_map(|r| char::from_u32((r.0 + r.1) / 2)).collect();
                let k = v.len();
                if k == 0 { vec![] } else { vec![v[0], v[k / 3], v[k - 1]] }
            }
            _ => vec![],
        }
    }
    pub fn has(&self, c: char) -> bool {
        match self {
            Esc::Cat(n, neg) => category(c).starts_with(n) != *neg,
            Esc::Multi(m) => {
                let r = match m.to_ascii_lowercase() {
                    'd' => category(c) == "Nd",
                    's' => is_ws(c),
                    'i' => c == ':' || name_start(c),
                    'c' => c == ':' || name_char(c),
                    'w' => !matches!(&category(c)[..1], "P" | "Z" | "C"),
                    _ => unreachable!(),
                };
                r != m.is_ascii_uppercase()
            }
        }
    }
}
impl Set {
    pub fn of(v: Vec<(char, char)>, neg: bool) -> Set {
        Set { neg, items: v.into_iter().map(|(a, b)| Item::R(a, b)).collect(), minus: None }
    }
    pub fn print(&self) -> String {
        let one = |c: char| if "\\[]^-.?*+{}()|".contains(c) { format!("\\{c}") } else { c.to_string() };
        let mut s = String::from("[");
        if self.neg {
            s.push('^');
        }
        for i in &self.items {
            match i {
                Item::R(a, b) if a == b => s.push_str(&one(*a)),
                Item::R(a, b) => s.push_str(&format!("{}-{}", one(*a), one(*b))),
                Item::Esc(e) => s.push_str(&e.print()),
            }
        }
        if let Some(m) = &self.minus {
            s.push('-');
            s.push_str(&m.print());
        }
        s.push(']');
        s
    }
    pub fn has(&self, c: char) -> bool {
        self.items.iter().any(|i| match i {
            Item::R(a, b) => *a <= c && c <= *b,
            Item::Esc(e) => e.has(c),
        }) != self.neg
            && !self.minus.as_ref().is_some_and(|m| m.has(c))
    }
    pub fn samples(&self) -> Vec<String> {
        let mut v = vec![];
        for i in &self.items {
            match i {
                Item::R(a, b) => v.extend([*a, *b]),
                Item::Esc(e) => v.extend(e.samples()),
            }
        }
        v.extend("z7-a:^$.&~ \n[]éB_é√".chars());
        let mut v: Vec<char> = v.into_iter().filter(|c| self.has(*c)).collect();
        v.truncate(8);
        v.iter().map(|c| c.to_string()).collect()
    }
}

/// The regular expressions of XML Schema, with an unambiguous printed form.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Re {
    Char(char),
    /// the character without escape, where it does not need one
    Class(Set),
    Esc(Esc),
    /// `.`
    Any,
    Digit,
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>),
}

impl Re {
    pub fn print(&self) -> String {
        match self {
            Re::Char(c) => {
                if ".\\?*+{}()[]|".contains(*c) {
                    format!("\\{c}")
                } else {
                    c.to_string()
                }
            }
            Re::Class(c) => c.print(),
            Re::Esc(e) => e.print(),
            Re::Any => ".".into(),
            Re::Digit => "\\d".into(),
            Re::Seq(v) => v
                .iter()
                .map(|r| match r {
                    Re::Alt(_) => format!("({})", r.print()),
                    _ => r.print(),
                })
                .collect(),
            Re::Alt(v) => v.iter().map(|r| r.print()).collect::<Vec<_>>().join("|"),
            Re::Rep(r, lo, hi) => {
                let inner = match **r {
                    Re::Char(_) | Re::Class(..) | Re::Digit | Re::Esc(_) | Re::Any => r.print(),
                    _ => format!("({})", r.print()),
                };
                let q = match (lo, hi) {
                    (0, Some(1)) => "?".to_string(),
                    (0, None) => "*".to_string(),
                    (1, None) => "+".to_string(),
                    (l, None) => format!("{{{l},}}"),
                    (l, Some(h)) if l == h => format!("{{{l}}}"),
                    (l, Some(h)) => format!("{{{l},{h}}}"),
                };
                format!("{inner}{q}")
            }
        }
    }
    /// set of end positions after matching from position i
    fn ends(&self, s: &[char], i: usize) -> Vec<usize> {
        let mut out = vec![];
        match self {
            Re::Char(c) => {
                if s.get(i) == Some(c) {
                    out.push(i + 1)
                }
            }
            Re::Class(_) | Re::Esc(_) | Re::Any => {
                if let Some(c) = s.get(i) {
                    let ok = match self {
                        Re::Class(x) => x.has(*c),
                        Re::Esc(e) => e.has(*c),
                        _ => !matches!(c, '\n' | '\r'),
                    };
                    if ok {
                        out.push(i + 1)
                    }
                }
            }
            Re::Digit => {
                if s.get(i).is_some_and(|c| category(*c) == "Nd") {
                    out.push(i + 1)
                }
            }
            Re::Seq(v) => {
                let mut cur = vec![i];
                for r in v {
                    let mut next = vec![];
                    for p in cur {
                        next.extend(r.ends(s, p));
                    }
                    next.sort();
                    next.dedup();
                    cur = next;
                }
                out = cur;
            }
            Re::Alt(v) => {
                for r in v {
                    out.extend(r.ends(s, i));
                }
            }
            Re::Rep(r, lo, hi) => {
                let mut cur = vec![i];
                let mut n = 0;
                let mut seen = vec![];
                loop {
                    if n >= *lo {
                        for p in &cur {
                            if !seen.contains(p) {
                                seen.push(*p);
                            }
                        }
                    }
                    if hi.is_some_and(|h| n >= h) || n > s.len() + lo + 1 || cur.is_empty() {
                        break;
                    }
                    let mut next = vec![];
                    for p in &cur {
                        next.extend(r.ends(s, *p));
                    }
                    next.sort();
                    next.dedup();
                    cur = next;
                    n += 1;
                }
                out = seen;
            }
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn full_match(&self, s: &str) -> bool {
        let v: Vec<char> = s.chars().collect();
        self.ends(&v, 0).contains(&v.len())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ParamVal {
    Text(String),
    Pattern(Re),
}
impl ParamVal {
    pub fn print(&self) -> String {
        match self {
            ParamVal::Text(s) => s.clone(),
            ParamVal::Pattern(r) => r.print(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dt {
    /// true: XSD library, false: RELAX NG built-in
    pub xsd: bool,
    pub name: &'static str,
    pub params: Vec<(String, ParamVal)>,
}

pub fn builtin(name: &'static str) -> Dt {
    Dt {
        xsd: false,
        name,
        params: vec![],
    }
}
pub fn xsd(name: &'static str) -> Dt {
    Dt {
        xsd: true,
        name,
        params: vec![],
    }
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
pub fn ws_only(s: &str) -> bool {
    s.chars().all(is_ws)
}
pub fn collapse(s: &str) -> String {
    s.split(is_ws).filter(|t| !t.is_empty()).collect::<Vec<_>>().join(" ")
}
pub fn tokens(s: &str) -> Vec<String> {
    s.split(is_ws).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect()
}
fn replace(s: &str) -> String {
    s.chars().map(|c| if is_ws(c) { ' ' } else { c }).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Str,
    Int,
    Dec,
    Dbl,
    Other,
}

pub const INT_TYPES: &[(&str, Option<&str>, Option<&str>)] = &[
    ("integer", None, None),
    ("int", Some("-2147483648"), Some("2147483647")),
    ("short", Some("-32768"), Some("32767")),
    ("long", Some("-9223372036854775808"), Some("9223372036854775807")),
    ("unsignedInt", Some("0"), Some("4294967295")),
    ("unsignedShort", Some("0"), Some("65535")),
    ("unsignedLong", Some("0"), Some("18446744073709551615")),
    ("positiveInteger", Some("1"), None),
];

pub fn kind(name: &str) -> Kind {
    match name {
        "string" | "normalizedString" | "token" | "NCName" | "NMTOKEN" | "NMTOKENS" => Kind::Str,
        "decimal" => Kind::Dec,
        "double" => Kind::Dbl,
        n if INT_TYPES.iter().any(|t| t.0 == n) => Kind::Int,
        _ => Kind::Other,
    }
}

/// exact decimal: sign, integer digits (no leading zeros), fraction digits (no trailing zeros)
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Num {
    neg: bool,
    int: String,
    frac: String,
}
impl Num {
    /// lexical space of xsd:decimal
    pub fn parse(s: &str) -> Option<Num> {
        let (neg, r) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let (i, f) = match r.split_once('.') {
            Some((i, f)) => (i, f),
            None => (r, ""),
        };
        if i.is_empty() && f.is_empty() {
            return None;
        }
        if !i.chars().all(|c| c.is_ascii_digit()) || !f.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let int = i.trim_start_matches('0').to_string();
        let frac = f.trim_end_matches('0').to_string();
        let zero = int.is_empty() && frac.is_empty();
        Some(Num {
            neg: neg && !zero,
            int,
            frac,
        })
    }
    pub fn parse_int(s: &str) -> Option<Num> {
        if s.contains('.') { None } else { Num::parse(s) }
    }
    pub fn cmp(&self, o: &Num) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => return Ordering::Less,
            (false, true) => return Ordering::Greater,
            _ => {}
        }
        let m = self
            .int
            .len()
            .cmp(&o.int.len())
            .then_with(|| self.int.cmp(&o.int))
            .then_with(|| self.frac.cmp(&o.frac));
        if self.neg { m.reverse() } else { m }
    }
    pub fn fraction_digits(&self) -> usize {
        self.frac.len()
    }
    pub fn total_digits(&self) -> usize {
        // digits of the integer i with value = i * 10^-n, smallest n
        // "i * 10^-n where i and n are integers such that |i| < 10^totalDigits and 0 <= n <= totalDigits"
        let d = self.int.len() + self.frac.len();
        if self.int.is_empty() {
            self.frac.trim_start_matches('0').len().max(self.frac.len()).max(1)
        } else {
            d
        }
    }
}

/// lexical space of xsd:double (XML Schema 1.0)
pub fn parse_double(s: &str) -> Option<f64> {
    match s {
        "INF" => return Some(f64::INFINITY),
        "-INF" => return Some(f64::NEG_INFINITY),
        "NaN" => return Some(f64::NAN),
        _ => {}
    }
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    Num::parse(m)?;
    if let Some(e) = e {
        Num::parse_int(e)?;
    }
    s.parse::<f64>().ok()
}

pub fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
        | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
        | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}
pub fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
pub fn ncname(s: &str) -> bool {
    let mut it = s.chars();
    it.next().is_some_and(name_start) && it.all(name_char)
}
const NAME_RANGES: &[(char, char)] = &[
    ('\u{B7}', '\u{B7}'), ('\u{C0}', '\u{D6}'), ('\u{D8}', '\u{F6}'), ('\u{F8}', '\u{2FF}'), ('\u{300}', '\u{36F}'), ('\u{370}', '\u{37D}'), ('\u{37F}', '\u{1FFF}'),
    ('\u{200C}', '\u{200D}'), ('\u{203F}', '\u{2040}'), ('\u{2070}', '\u{218F}'), ('\u{2C00}', '\u{2FEF}'), ('\u{3001}', '\u{D7FF}'), ('\u{F900}', '\u{FDCF}'),
    ('\u{FDF0}', '\u{FFFD}'), ('\u{10000}', '\u{EFFFF}'),
];
/// a name, or something which is almost one, with a character at the edge of those which names have
pub fn edge_name(t: &mut crate::tape::Tape, good: bool) -> String {
    loop {
        let (a, b) = *t.pick(NAME_RANGES);
        let c = match t.below(5) {
            0 => a,
            1 => b,
            2 => char::from_u32((a as u32 + b as u32) / 2).unwrap_or(a),
            3 => char::from_u32(a as u32 - 1).unwrap_or(a),
            _ => char::from_u32(b as u32 + 1).unwrap_or(b),
        };
        let s = if t.chance(1, 2) { format!("{c}a") } else { format!("a{c}") };
        if ncname(&s) == good && !matches!(c, '\u{FFFE}' | '\u{FFFF}') || t.exhausted() {
            return if ncname(&s) == good && !matches!(c, '\u{FFFE}' | '\u{FFFF}') { s } else if good { "a".into() } else { "×".into() };
        }
    }
}
/// a name which starts like a given one
pub fn longer_name(t: &mut crate::tape::Tape, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..t.range(1, 2) {
        s.push(*t.pick(&['.', '-', '0', '_', '\u{b7}', 'x', 'Z', 'é', '\u{301}', '\u{203f}']))
    }
    s
}
pub fn nmtoken(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c == ':' || name_char(c))
}

fn digits(s: &str, n: usize) -> Option<(u32, &str)> {
    let b = s.as_bytes();
    if b.len() < n || !b[..n].iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some((s[..n].parse().ok()?, &s[n..]))
}

fn tz(s: &str) -> bool {
    if s.is_empty() || s == "Z" {
        return true;
    }
    let r = match s.strip_prefix('+').or_else(|| s.strip_prefix('-')) {
        Some(r) => r,
        None => return false,
    };
    let Some((h, r)) = digits(r, 2) else { return false };
    let Some(r) = r.strip_prefix(':') else { return false };
    let Some((m, r)) = digits(r, 2) else { return false };
    r.is_empty() && m <= 59 && (h < 14 || (h == 14 && m == 0))
}

/// parses [-]CCYY-MM-DD, returning the rest
fn date_part(s: &str) -> Option<&str> {
    let r = s.strip_prefix('-').unwrap_or(s);
    let n = r.bytes().take_while(|c| c.is_ascii_digit()).count();
    if n < 4 || (n > 4 && r.starts_with('0')) {
        return None;
    }
    let y: i128 = r[..n].parse().ok()?;
    let neg = s.starts_with('-');
    let r = r[n..].strip_prefix('-')?;
    let (m, r) = digits(r, 2)?;
    let r = r.strip_prefix('-')?;
    let (d, r) = digits(r, 2)?;
    let y = if neg { 1 - y } else { y };
    let leap = y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0);
    let dim = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap {
                29
            } else {
                28
            }
        }
        _ => return None,
    };
    if d < 1 || d > dim { None } else { Some(r) }
}

pub fn date(s: &str) -> bool {
    date_part(s).is_some_and(tz)
}

pub fn date_time(s: &str) -> bool {
    let f = || -> Option<bool> {
        let r = date_part(s)?.strip_prefix('T')?;
        let (h, r) = digits(r, 2)?;
        let r = r.strip_prefix(':')?;
        let (m, r) = digits(r, 2)?;
        let r = r.strip_prefix(':')?;
        let (sec, mut r) = digits(r, 2)?;
        if let Some(f) = r.strip_prefix('.') {
            let n = f.bytes().take_while(|c| c.is_ascii_digit()).count();
            if n == 0 {
                return None;
            }
            r = &f[n..];
        }
        Some(h <= 23 && m <= 59 && sec <= 59 && tz(r))
    };
    f().unwrap_or(false)
}

pub fn duration(s: &str) -> bool {
    let r = s.strip_prefix('-').unwrap_or(s);
    let Some(r) = r.strip_prefix('P') else { return false };
    let (d, t) = match r.split_once('T') {
        Some((d, t)) => (d, Some(t)),
        None => (r, None),
    };
    fn fields(mut s: &str, units: &str, frac_unit: Option<char>) -> Option<usize> {
        let mut idx = 0;
        let mut count = 0;
        while !s.is_empty() {
            let n = s.bytes().take_while(|c| c.is_ascii_digit()).count();
            if n == 0 {
                return None;
            }
            let mut r = &s[n..];
            let mut frac = false;
            if let Some(f) = r.strip_prefix('.') {
                let k = f.bytes().take_while(|c| c.is_ascii_digit()).count();
                if k == 0 {
                    return None;
                }
                frac = true;
                r = &f[k..];
            }
            let u = r.chars().next()?;
            let pos = units[idx..].find(u)? + idx;
            if frac && frac_unit != Some(u) {
                return None;
            }
            idx = pos + 1;
            count += 1;
            s = &r[u.len_utf8()..];
        }
        Some(count)
    }
    let Some(nd) = fields(d, "YMD", None) else { return false };
    match t {
        None => nd > 0,
        Some(t) => matches!(fields(t, "HMS", Some('S')), Some(n) if n > 0),
    }
}

pub fn language(s: &str) -> bool {
    let mut parts = s.split('-');
    let first = parts.next().unwrap_or("");
    (1..=8).contains(&first.len())
        && first.chars().all(|c| c.is_ascii_alphabetic())
        && parts.all(|p| (1..=8).contains(&p.len()) && p.chars().all(|c| c.is_ascii_alphanumeric()))
}

/// White-space processing of a type
pub fn normalize(d: &Dt, s: &str) -> String {
    if !d.xsd {
        return if d.name == "token" { collapse(s) } else { s.to_string() };
    }
    match d.name {
        "string" => s.to_string(),
        "normalizedString" => replace(s),
        _ => collapse(s),
    }
}

fn cmp_facet(op: &str, o: Option<Ordering>) -> bool {
    match op {
        "minInclusive" => matches!(o, Some(Ordering::Greater | Ordering::Equal)),
        "minExclusive" => matches!(o, Some(Ordering::Greater)),
        "maxInclusive" => matches!(o, Some(Ordering::Less | Ordering::Equal)),
        "maxExclusive" => matches!(o, Some(Ordering::Less)),
        _ => unreachable!(),
    }
}

/// Is the string in the datatype?
pub fn accepts(d: &Dt, raw: &str) -> bool {
    if !d.xsd {
        return true; // string and token accept everything
    }
    let v = normalize(d, raw);
    let lexical = match d.name {
        "string" | "normalizedString" | "token" => true,
        "NCName" | "ID" | "IDREF" => ncname(&v),
        "NMTOKEN" => nmtoken(&v),
        "NMTOKENS" => !v.is_empty() && v.split(' ').all(nmtoken),
        "boolean" => matches!(&v[..], "true" | "false" | "1" | "0"),
        "language" => language(&v),
        "date" => date(&v),
        "dateTime" => date_time(&v),
        "duration" => duration(&v),
        "anyURI" => uri_ref(&v),
        "decimal" => Num::parse(&v).is_some(),
        "double" => parse_double(&v).is_some(),
        n => {
            let Some(t) = INT_TYPES.iter().find(|t| t.0 == n) else {
                unreachable!("type {n}")
            };
            match Num::parse_int(&v) {
                None => false,
                Some(x) => {
                    t.1.is_none_or(|lo| x.cmp(&Num::parse(lo).unwrap()) != Ordering::Less)
                        && t.2.is_none_or(|hi| x.cmp(&Num::parse(hi).unwrap()) != Ordering::Greater)
                }
            }
        }
    };
    if !lexical {
        return false;
    }
    for (name, val) in &d.params {
        let ok = match (&name[..], val) {
            ("pattern", ParamVal::Pattern(re)) => re.full_match(&v),
            (op @ ("minInclusive" | "minExclusive" | "maxInclusive" | "maxExclusive"), ParamVal::Text(b)) => {
                let b = b.trim();
                if d.name == "double" {
                    let (x, y) = (parse_double(&v).unwrap(), parse_double(b).unwrap());
                    cmp_facet(op, x.partial_cmp(&y))
                } else {
                    cmp_facet(op, Some(Num::parse(&v).unwrap().cmp(&Num::parse(b).unwrap())))
                }
            }
            ("totalDigits", ParamVal::Text(b)) => {
                Num::parse(&v).unwrap().total_digits() <= b.trim().parse::<usize>().unwrap()
            }
            ("fractionDigits", ParamVal::Text(b)) => {
                Num::parse(&v).unwrap().fraction_digits() <= b.trim().parse::<usize>().unwrap()
            }
            ("length" | "minLength" | "maxLength", ParamVal::Text(b)) => {
                let n: usize = b.trim().parse().unwrap();
                let len = if d.name == "NMTOKENS" {
                    v.split(' ').count()
                } else {
                    v.chars().count()
                };
                match &name[..] {
                    "length" => len == n,
                    "minLength" => len >= n,
                    _ => len <= n,
                }
            }
            _ => unreachable!("param {name}"),
        };
        if !ok {
            return false;
        }
    }
    true
}

/// A URI reference after the escaping which XML Schema prescribes (reference for undisputed inputs,
/// see dtgen::debatable): escapes are complete, there is one fragment at most, and what precedes a
/// colon in the first segment is a scheme
pub fn uri_ref(s: &str) -> bool {
    let b = s.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'%' && !(i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit()) {
            return false;
        }
    }
    if b.iter().filter(|c| **c == b'#').count() > 1 {
        return false;
    }
    let first = s.find(['/', '?', '#']).unwrap_or(s.len());
    let mut rest = s;
    if let Some(i) = s[..first].find(':') {
        let scheme = &s[..i];
        let ok = scheme.starts_with(|c: char| c.is_ascii_alphabetic())
            && scheme.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.'));
        if !ok {
            return false;
        }
        rest = &s[i + 1..];
    }
    if let Some(authority) = authority(rest) {
        let host = match authority.rfind(':') {
            Some(i) => {
                if !authority[i + 1..].chars().all(|c| c.is_ascii_digit()) {
                    return false;
                }
                &authority[..i]
            }
            None => authority,
        };
        return host.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-');
    }
    true
}
fn authority(rest: &str) -> Option<&str> {
    let a = rest.strip_prefix("//")?;
    Some(&a[..a.find(['/', '?', '#']).unwrap_or(a.len())])
}
/// is it a matter of the edition of the specification whether this is a URI reference?
pub fn uri_debatable(s: &str) -> bool {
    if s.contains(['[', ']']) {
        return true;
    }
    let first = s.find(['/', '?', '#']).unwrap_or(s.len());
    let rest = match s[..first].find(':') {
        Some(i) => {
            // an empty path after the scheme
            if s[i + 1..].is_empty() || s[i + 1..].starts_with(['?', '#']) {
                return true;
            }
            &s[i + 1..]
        }
        None => s,
    };
    authority(rest).is_some_and(|a| a.chars().any(|c| !(c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | ':'))) || a.ends_with(':') || a.matches(':').count() > 1)
}

/// Does a literal of type d (normalised comparison) equal the string?
pub fn value_eq(d: &Dt, lit: &str, s: &str) -> bool {
    match (d.xsd, d.name) {
        (_, "string") => lit == s,
        (_, "token") => collapse(lit) == collapse(s),
        _ => unreachable!("value of type {}", d.name),
    }
}

/// Candidate strings in and around the type; used both for valid instances and near misses.
pub fn candidates(d: &Dt) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let base: &[&str] = match d.name {
        "string" | "token" | "normalizedString" => &["x", "", "a b", " a  b ", "abc", "é√", "a\tb", "10", "aa", "ab", "aab", "a\u{a0}b", "\u{2003}"],
        "NCName" | "ID" | "IDREF" => &["a", "x1", "_a-b.c", "é", "abc", "ab", "a1"],
        "NMTOKEN" => &["a", "1", "-a:b", "abc", "12", "é.x"],
        "NMTOKENS" => &["a", "a b", "1 2 3", " a  b ", "a b c d"],
        "boolean" => &["true", "false", "1", "0"],
        "language" => &["en", "en-GB", "x-klingon", "zh-Hans-1"],
        "date" => &["2024-02-29", "1999-12-31", "2000-01-01Z", "-0044-03-15", "2001-10-26+02:00"],
        "dateTime" => &["2024-02-29T23:59:59", "1999-12-31T00:00:00.5Z", "2001-10-26T21:32:52+02:00"],
        "duration" => &["P1Y", "P1DT2H", "PT0.5S", "-P3M", "P1Y2M3DT4H5M6.7S"],
        "anyURI" => &["http://example.com/", "a/b?c#d", "", "urn:x:y"],
        "decimal" => &["0", "1.5", "-2.25", "+3", ".5", "7.", "100"],
        "double" => &["0", "1.5e3", "-INF", "INF", "NaN", "1E-2", "-2"],
        _ => &["0", "1", "-1", "007", "+5", "10", "12", "100"],
    };
    v.extend(base.iter().map(|s| s.to_string()));
    for (n, p) in &d.params {
        match p {
            ParamVal::Text(t) => {
                if let Ok(x) = t.parse::<i64>() {
                    if n.starts_with("min") && kind(d.name) != Kind::Str || n.starts_with("max") && kind(d.name) != Kind::Str {
                        v.push(x.to_string());
                        v.push(x.saturating_add(1).to_string());
                        v.push(x.saturating_sub(1).to_string());
                    } else if x >= 0 && x < 40 {
                        for k in [x, x + 1, x - 1] {
                            if k > 0 {
                                if d.name == "NMTOKENS" {
                                    v.push(vec!["a"; k as usize].join(" "));
                                } else {
                                    v.push("a".repeat(k as usize));
                                }
                            }
                        }
                    }
                } else {
                    v.push(t.clone());
                }
            }
            ParamVal::Pattern(r) => v.extend(r.samples()),
        }
    }
    v
}

/// a string of the type when one of the candidates fits
pub fn sample(t: &mut crate::tape::Tape, d: &Dt) -> String {
    let c = candidates(d);
    let ok: Vec<&String> = c.iter().filter(|s| accepts(d, s)).collect();
    if ok.is_empty() {
        return t.pick(&c).clone();
    }
    (*t.pick(&ok)).clone()
}

impl Re {
    /// a few members of the language
    pub fn samples(&self) -> Vec<String> {
        let v = match self {
            Re::Char(c) => vec![c.to_string()],
            Re::Class(c) => c.samples(),
            Re::Esc(e) => Set { neg: false, items: vec![Item::Esc(e.clone())], minus: None }.samples(),
            Re::Any => vec!["^".into(), "b".into(), "é".into()],
            Re::Digit => vec!["4".into(), "0".into()],
            Re::Seq(v) => {
                let mut out = vec![String::new()];
                for r in v {
                    let s = r.samples();
                    let mut next = vec![];
                    for (i, o) in out.iter().enumerate() {
                        for (j, x) in s.iter().enumerate() {
                            if i < 2 && j < 2 || i == j {
                                next.push(format!("{o}{x}"));
                            }
                        }
                    }
                    out = next;
                }
                out
            }
            Re::Alt(v) => v.iter().flat_map(|r| r.samples()).collect(),
            Re::Rep(r, lo, hi) => {
                let s = r.samples();
                let mut out = vec![];
                for n in [*lo, lo + 1, lo + 2] {
                    if hi.is_none_or(|h| n <= h) {
                        for x in s.iter().take(2) {
                            out.push(x.repeat(n));
                        }
                    }
                }
                out
            }
        };
        let mut v = v;
        v.truncate(12);
        v
    }
}
