//! C15: parameters of datatypes are checked, whatever their order, and independent of it.

use super::common::*;
use crate::ast::*;
use crate::doc::{self, DElem, DN};
use crate::dt::{self, Dt, Kind, Num, ParamVal, kind};
use crate::dtgen;
use crate::runner::{CaseResult, Cx, Known, Prop};
use crate::sut::{self, Schema, Syn};
use crate::tape::Tape;
use relaxng_model::datatype::{Datatypes, xsd::XsdDatatypes};
use relaxng_model::model::Pattern;
use std::cmp::Ordering;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C15",
    tape_len: 160,
    quick: 250000,
    thorough: 6250000,
    run,
    fixed,
    rule: "distinct parameter lists (type, names, values) with at least two parameters or at least one problem",
    assumptions: &[
        "facets which XML Schema allows and the library does not support for the type (bounds of dates, digits of integers, lengths of anyURI) are left out",
        "of several problems in one list any may be the one which is reported",
    ],
    known: &[Known { slug: "accessor-overflow", run: known_overflow }],
    shrink_iters: 4000,
};

const CONFLICT: &str = "DatatypeError/Xsd/Facet/ConflictingFacet";
const BAD_INT: &str = "DatatypeError/Xsd/Facet/InvalidInt";
const BAD_FLOAT: &str = "DatatypeError/Xsd/Facet/InvalidFloat";
const BAD_PATTERN: &str = "DatatypeError/Xsd/Facet/InvalidPattern";
const BAD_FACET: &str = "DatatypeError/Xsd/Facet/InvalidFacet";
const BUILTIN: &str = "DatatypeError/Relax/ParamNotAllowed";

/// a parameter as written
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Par {
    name: String,
    val: ParamVal,
    /// what is wrong with the parameter alone
    bad: Option<&'static str>,
}

const BOUNDS: &[&str] = &["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"];
const LENS: &[&str] = &["length", "minLength", "maxLength"];
const UNKNOWN: &[&str] = &["enumeration", "whiteSpace", "min", "Length", "x", "maxlength", "min-inclusive", "minInclusiv", "patterns"];
const BAD_RE: &[&str] = &["[", "a)", "(", "a{2,1}", "[z-a]", "*", "\\", "(a|b", "[a-", "a**", "a*?", "(?i)a", "(?:a)", "a{2}{3}", "\\b", "\\x41", "\\1", "\\A", "]", "a{2", "[[:alpha:]]", "\\q", "[]", "a+?", "(*a)", "a|?"];

fn applicable(d: &str) -> Vec<&'static str> {
    let mut v = vec!["pattern"];
    match kind(d) {
        Kind::Int | Kind::Dbl => v.extend(BOUNDS),
        Kind::Dec => {
            v.extend(BOUNDS);
            v.extend(["totalDigits", "fractionDigits"]);
        }
        _ if dtgen::STR_TYPES.contains(&d) => v.extend(LENS),
        _ => {}
    }
    v
}

/// facets which do not apply to the type by XML Schema
fn inapplicable(d: &str) -> Vec<&'static str> {
    match kind(d) {
        Kind::Int => LENS.to_vec(),
        Kind::Dec => LENS.to_vec(),
        Kind::Dbl => [LENS, &["totalDigits", "fractionDigits"]].concat(),
        _ => match d {
            "date" | "dateTime" | "duration" => [LENS, &["totalDigits"]].concat(),
            "boolean" => [LENS, BOUNDS, &["totalDigits"]].concat(),
            _ => [BOUNDS, &["totalDigits", "fractionDigits"]].concat(),
        },
    }
}

fn number(t: &mut Tape, d: &str, pool: i128) -> String {
    match kind(d) {
        Kind::Int => {
            let (lo, hi) = dtgen::range(d);
            let v = match t.below(12) {
                0 => lo,
                1 => hi,
                2 => lo + t.below(3) as i128,
                3 => hi - t.below(3) as i128,
                _ => (pool + t.below(4) as i128).clamp(lo.max(if d == "positiveInteger" { 1 } else { lo }), hi),
            };
            dtgen::spell_int(t, v, dtgen::signed(d))
        }
        Kind::Dec => {
            let v = pool + t.below(3) as i128;
            let f = *t.pick(&["", ".0", ".5", ".50", ".49999999999999999999999", ".1"]);
            format!("{v}{f}")
        }
        _ => {
            let v = pool + t.below(3) as i128;
            let f = *t.pick(&["", ".0", ".5", "e0", "E1", ".5e-1", "e-3"]);
            format!("{v}{f}")
        }
    }
}

fn param(t: &mut Tape, d: &str, pool: i128) -> Par {
    let ok = applicable(d);
    let bounds = matches!(kind(d), Kind::Int | Kind::Dec | Kind::Dbl);
    match t.below(28) {
        0 => return Par { name: t.pick(UNKNOWN).to_string(), val: ParamVal::Text("1".into()), bad: Some(BAD_FACET) },
        1 => {
            let name = t.pick(&inapplicable(d)).to_string();
            return Par { name, val: ParamVal::Text("1".into()), bad: Some(BAD_FACET) };
        }
        2 => return Par { name: "pattern".into(), val: ParamVal::Text(t.pick(BAD_RE).to_string()), bad: Some(BAD_PATTERN) },
        _ => {}
    }
    let name = if bounds && t.chance(3, 4) {
        *t.pick(BOUNDS)
    } else if ok.contains(&"length") && t.chance(3, 4) {
        *t.pick(LENS)
    } else {
        *t.pick(&ok)
    };
    let (val, bad) = match name {
        "pattern" => (ParamVal::Pattern(dtgen::re(t, 1)), None),
        "length" | "minLength" | "maxLength" | "fractionDigits" | "totalDigits" => {
            if t.chance(1, 12) {
                (ParamVal::Text(t.pick(&["", "x", "-1", "1.5", "1e1", "１", "0x1", "a1", "1 2"]).to_string()), Some(BAD_INT))
            } else {
                let mut n = t.below(5) + if name == "totalDigits" { 1 } else { 0 };
                if name.ends_with("ength") && t.chance(1, 8) {
                    n = *t.pick(&[127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 100_000, 0x7fff_ffff, 0xffff_ffff]);
                }
                (ParamVal::Text(format!("{}{n}", t.pick(&["", "", "", "0", "00"]))), None)
            }
        }
        _ => {
            if t.chance(1, 12) {
                match kind(d) {
                    Kind::Int => {
                        let mut v: Vec<String> = ["", "x", "1.5", "1.0", "1e1", "--1", "0x1", "１", "1 2", "+", "-"].iter().map(|s| s.to_string()).collect();
                        let r = dt::INT_TYPES.iter().find(|x| x.0 == d).unwrap();
                        if let Some(h) = r.2 {
                            v.push((h.parse::<i128>().unwrap() + 1).to_string());
                            v.push(format!("{h}0"));
                        }
                        if let (Some(l), true) = (r.1, d != "positiveInteger") {
                            v.push((l.parse::<i128>().unwrap() - 1).to_string());
                        }
                        if d == "positiveInteger" {
                            v.push("-1".into());
                        }
                        (ParamVal::Text(t.pick(&v).clone()), Some(BAD_INT))
                    }
                    Kind::Dec => (ParamVal::Text(t.pick(&["", "x", "1e1", ".", "--1", "1.5.5", "1,5", "INF", "1 2"]).to_string()), Some(BAD_INT)),
                    _ => (ParamVal::Text(t.pick(&["", "x", "1e", ".", "--1", "e5", "inf", "nan", "1,5", "Infinity", "0x1", "1 2"]).to_string()), Some(BAD_FLOAT)),
                }
            } else {
                (ParamVal::Text(number(t, d, pool)), None)
            }
        }
    };
    // white space around a number is not part of it
    let val = match val {
        ParamVal::Text(n) if t.chance(1, 10) => ParamVal::Text(match t.below(5) {
            0 => format!(" {n}"),
            1 => format!("{n} "),
            2 => format!("\n\t {n}\n"),
            3 => format!("\t{n}"),
            _ => format!("  {n}\n"),
        }),
        v => v,
    };
    Par { name: name.into(), val, bad }
}

/// the value of a parameter, a number without the white space around it
fn text(p: &Par) -> String {
    match &p.val {
        ParamVal::Text(n) => n.trim().to_string(),
        v => v.print(),
    }
}

fn compare(d: &str, a: &str, b: &str) -> Ordering {
    match kind(d) {
        Kind::Dbl => dt::parse_double(a).unwrap().partial_cmp(&dt::parse_double(b).unwrap()).unwrap(),
        _ => Num::parse(a).unwrap().cmp(&Num::parse(b).unwrap()),
    }
}

/// kinds of all problems of a list
fn problems(d: &Dt, builtin: bool, v: &[Par]) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    if builtin {
        if !v.is_empty() {
            out.insert(BUILTIN);
        }
        return out;
    }
    out.extend(v.iter().filter_map(|p| p.bad));
    let get = |n: &str| v.iter().filter(|p| p.bad.is_none() && p.name == n).map(text).collect::<Vec<_>>();
    for p in v.iter().filter(|p| p.bad.is_none() && p.name != "pattern") {
        if v.iter().filter(|q| q.name == p.name).count() > 1 {
            out.insert(CONFLICT);
        }
    }
    let any = |n: &str| v.iter().any(|p| p.name == n && p.bad != Some(BAD_FACET));
    if any("minInclusive") && any("minExclusive") || any("maxInclusive") && any("maxExclusive") {
        out.insert(CONFLICT);
    }
    if any("length") && (any("minLength") || any("maxLength")) {
        out.insert(CONFLICT);
    }
    for (lo, hi, equal) in [
        ("minInclusive", "maxInclusive", true),
        ("minInclusive", "maxExclusive", false),
        ("minExclusive", "maxInclusive", false),
        ("minExclusive", "maxExclusive", true),
    ] {
        for a in get(lo) {
            for b in get(hi) {
                match compare(d.name, &a, &b) {
                    Ordering::Greater => {
                        out.insert(CONFLICT);
                    }
                    Ordering::Equal if !equal => {
                        out.insert(CONFLICT);
                    }
                    _ => {}
                }
            }
        }
    }
    for (lo, hi) in [("minLength", "maxLength"), ("fractionDigits", "totalDigits")] {
        for a in get(lo) {
            for b in get(hi) {
                if a.parse::<u64>().unwrap() > b.parse::<u64>().unwrap() {
                    out.insert(CONFLICT);
                }
            }
        }
    }
    out
}

fn schema_files(d: &Dt, v: &[Par], syn: Syn, place: usize) -> Vec<(String, String)> {
    let dt = Dt { params: v.iter().map(|p| (p.name.clone(), p.val.clone())).collect(), ..d.clone() };
    let data = P::Data(dt, None);
    let body = match place {
        0 => P::Attr(Nc::local("v"), Box::new(data)),
        1 => data,
        2 => P::List(Box::new(P::Group(vec![data, P::Data(dt::builtin("token"), None)]))),
        _ => P::Data(dt::builtin("string"), Some(Box::new(data))),
    };
    let sch = Sch { files: vec![SFile { name: "main".into(), body: Body::Pat(P::Elem(Nc::local("a"), Box::new(body))) }] };
    print_schema(&sch, syn)
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let d = match t.below(10) {
        0..=4 => dt::xsd(*t.pick(dtgen::NUM_TYPES)),
        5..=7 => dt::xsd(*t.pick(dtgen::STR_TYPES)),
        8 => dt::xsd(*t.pick(dtgen::OTHER_TYPES)),
        _ => dt::builtin(*t.pick(&["string", "token"])),
    };
    let builtin = d == dt::builtin(d.name);
    let pool = match t.below(4) {
        0 => 0,
        1 => 7,
        2 => 98,
        _ => if dtgen::signed(d.name) || matches!(d.name, "decimal" | "double") { -2 } else { 1 },
    };
    let n = 1 + t.weighted(&[2, 4, 3, 2]);
    let mut v: Vec<Par> = vec![];
    for _ in 0..n {
        let p = param(t, d.name, pool);
        // keep most lists consistent, or nearly so
        let mut w = v.clone();
        w.push(p.clone());
        if problems(&d, builtin, &w).is_empty() || builtin || t.chance(1, 4) {
            v = w;
        }
    }
    if v.is_empty() {
        return Ok(());
    }
    let want = problems(&d, builtin, &v);
    let place = t.weighted(&[3, 3, 1, 1]);
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let orders = permutations(t, v.len());
    let values: Vec<String> = (0..4)
        .map(|_| {
            let dd = Dt { params: v.iter().filter(|p| p.bad.is_none()).map(|p| (p.name.clone(), p.val.clone())).collect(), ..d.clone() };
            dtgen::value(t, &dd)
        })
        .filter(|v| v.chars().all(|c| matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)))
        .collect();
    cx.class(&format!("type {}", d.name));
    cx.class(&format!("{} parameters", v.len()));
    cx.class(if want.is_empty() { "consistent list" } else { "list with a problem" });
    for w in &want {
        cx.class(&format!("problem {w}"));
    }
    if v.len() > 1 || !want.is_empty() {
        cx.nontrivial(&(&d, &v));
    }
    for o in &orders {
        let w: Vec<Par> = o.iter().map(|i| v[*i].clone()).collect();
        let files = schema_files(&d, &w, syn, place);
        cx.note(show_files(&files));
        cx.eval();
        match sut::compile(files.clone(), syn) {
            Err(e) => {
                let k = sut::kind(&e);
                if want.is_empty() {
                    return Err(format!("consistent parameters were rejected with {k}: {e:?}\n{}", show_files(&files)));
                }
                if !want.contains(&k[..]) {
                    return Err(format!("expected an error of the kind {want:?}, got {k}\n{}", show_files(&files)));
                }
                names_the_problem(&e, &d, &w, &files)?;
            }
            Ok(s) => {
                if !want.is_empty() {
                    return Err(format!("parameters with a problem ({want:?}) were accepted\n{}", show_files(&files)));
                }
                let dd = Dt { params: w.iter().map(|p| (p.name.clone(), p.val.clone())).collect(), ..d.clone() };
                if place == 0 {
                    accessors(&s, &d, &w).map_err(|e| format!("{e}\n{}", show_files(&files)))?;
                }
                if place < 2 {
                    for v in &values {
                        let mut e = DElem::new("", "a");
                        if place == 0 {
                            e.attrs.push((String::new(), "v".into(), v.clone()));
                        } else if !v.is_empty() {
                            e.kids.push(DN::Text(v.clone()));
                        }
                        let text = doc::canonical(&e);
                        cx.note(format!("{}--- document\n{text}", show_files(&files)));
                        cx.eval();
                        let want = dt::accepts(&dd, v);
                        let got = sut::validate(&s, &text);
                        cx.class(if want { "value accepted" } else { "value rejected" });
                        if got.ok() != want {
                            return Err(format!("value is {}, but the library says {}\n{}--- document\n{text}", if want { "valid" } else { "invalid" }, got.short(), show_files(&files)));
                        }
                    }
                }
                cx.sample(|| show_files(&files));
            }
        }
    }
    Ok(())
}

/// the error names the facet, or points at it
fn names_the_problem(e: &relaxng_model::RelaxError, d: &Dt, v: &[Par], files: &[(String, String)]) -> CaseResult {
    use relaxng_model::datatype::{Errors, xsd};
    let relaxng_model::RelaxError::DatatypeError(Errors::Xsd(xsd::XsdDatatypeError::Facet { type_name, facet })) = sut::innermost(e) else {
        return Ok(());
    };
    let fail = |m: String| Err(format!("{m}: {e:?}\n{}", show_files(files)));
    if *type_name != d.name {
        return fail(format!("the error is about the type {type_name}"));
    }
    match facet {
        xsd::FacetError::ConflictingFacet(n) => {
            // every name in the message is one of the list
            let known = [BOUNDS, LENS, &["totalDigits", "fractionDigits"]].concat();
            let named: Vec<&str> = n.split(' ').filter(|w| known.contains(w)).collect();
            if named.is_empty() || !named.iter().all(|n| v.iter().any(|p| p.name == *n)) {
                return fail("the conflict names other facets".into());
            }
        }
        xsd::FacetError::InvalidFacet(_, n) => {
            if !v.iter().any(|p| p.name == *n && p.bad == Some(BAD_FACET)) {
                return fail("another facet is reported as invalid".into());
            }
        }
        _ => {}
    }
    Ok(())
}

fn accessors(s: &Schema, d: &Dt, v: &[Par]) -> CaseResult {
    let b = s.borrow();
    let Some(rule) = b.as_ref() else { return Ok(()) };
    fn find(p: &Pattern) -> Option<&XsdDatatypes> {
        match p {
            Pattern::DatatypeName { datatype: Datatypes::Xsd(x), .. } => Some(x),
            Pattern::Element(_, p) | Pattern::Attribute(_, p) => find(p),
            Pattern::Group(v) | Pattern::Choice(v) | Pattern::Interleave(v) => v.iter().find_map(find),
            _ => None,
        }
    }
    let Some(x) = find(rule.pattern()) else { return Ok(()) };
    let get = |n: &str| v.iter().find(|p| p.name == n).map(text);
    let num = |n: &str| get(n).map(|s| s.parse::<i128>().unwrap());
    let lo = num("minInclusive".filter_int(d)).or(num("minExclusive".filter_int(d)).map(|v| v + 1));
    let hi = num("maxInclusive".filter_int(d)).or(num("maxExclusive".filter_int(d)).map(|v| v - 1));
    let check = |what: &str, got: Option<i128>, want: Option<i128>| {
        if got == want { Ok(()) } else { Err(format!("{what} of the compiled type is {got:?}, declared is {want:?}")) }
    };
    // an empty range at the end of the type is a known finding
    let (tl, th) = if kind(d.name) == Kind::Int { dtgen::range(d.name) } else { (0, 0) };
    let fits = lo.is_none_or(|v| v <= th) && hi.is_none_or(|v| v >= tl.max(if d.name == "positiveInteger" { 0 } else { tl }));
    macro_rules! ints {
        ($m:expr) => {{
            if fits {
                check("min", $m.min().map(|v| v as i128), lo)?;
                check("max", $m.max().map(|v| v as i128), hi)?;
            }
            $m.bounded()
        }};
    }
    let bounded = match x {
        XsdDatatypes::Short(m, _) => Some(ints!(m)),
        XsdDatatypes::UnsignedShort(m, _) => Some(ints!(m)),
        XsdDatatypes::Int(m, _) => Some(ints!(m)),
        XsdDatatypes::UnsignedInt(m, _) => Some(ints!(m)),
        XsdDatatypes::Long(m, _) => Some(ints!(m)),
        XsdDatatypes::UnsignedLong(m, _) => Some(ints!(m)),
        XsdDatatypes::Integer(m, _) => {
            check("min", m.min_cloned().map(|v| v.to_string().parse().unwrap()), lo)?;
            check("max", m.max_cloned().map(|v| v.to_string().parse().unwrap()), hi)?;
            Some(m.bounded())
        }
        XsdDatatypes::PositiveInteger(m, _) => {
            check("min", m.min_cloned().map(|v| v.to_string().parse().unwrap()), lo)?;
            if fits {
                check("max", m.max_cloned().map(|v| v.to_string().parse().unwrap()), hi)?;
            }
            Some(m.bounded())
        }
        XsdDatatypes::Decimal { min_max, fraction_digits, total_digits, .. } => {
            check("fraction_digits", fraction_digits.map(|v| v as i128), num("fractionDigits"))?;
            check("total_digits", total_digits.map(|v| v as i128), num("totalDigits"))?;
            Some(min_max.bounded())
        }
        XsdDatatypes::Double(m, _) => Some(m.bounded()),
        XsdDatatypes::String(f) | XsdDatatypes::NormalizedString(f) | XsdDatatypes::Token(f) | XsdDatatypes::NcName(f) | XsdDatatypes::NmToken(f) | XsdDatatypes::NmTokens(f) => {
            check("min_len", f.min_len().map(|v| v as i128), num("length").or(num("minLength")))?;
            check("max_len", f.max_len().map(|v| v as i128), num("length").or(num("maxLength")))?;
            if f.regex().is_some() != get("pattern").is_some() {
                return Err("regex() does not tell whether there is a pattern".into());
            }
            if f.bounded() != v.iter().any(|p| LENS.contains(&&p.name[..])) {
                return Err("bounded() does not tell whether there is a length".into());
            }
            None
        }
        _ => None,
    };
    if let Some(b) = bounded {
        if b != v.iter().any(|p| BOUNDS.contains(&&p.name[..])) {
            return Err("bounded() does not tell whether there is a bound".into());
        }
    }
    Ok(())
}

trait FilterInt {
    /// the name for integer types, else one which no parameter has
    fn filter_int(&self, d: &Dt) -> &str;
}
impl FilterInt for str {
    fn filter_int(&self, d: &Dt) -> &str {
        if kind(d.name) == Kind::Int { self } else { "" }
    }
}

fn permutations(t: &mut Tape, n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    for i in 0..n {
        let mut next = vec![];
        for p in &all {
            for j in 0..=p.len() {
                let mut q: Vec<usize> = p.clone();
                q.insert(j, i);
                next.push(q);
            }
        }
        all = next;
    }
    // all orders of up to three parameters, and some of more
    while all.len() > 8 {
        let i = t.below(all.len());
        all.swap_remove(i);
    }
    all
}

fn known_overflow() -> CaseResult {
    let s = sut::compile_rnc("element a { attribute v { xsd:short { minExclusive = \"32767\" } } }").map_err(|e| format!("{e:?}"))?;
    let b = s.borrow();
    fn find(p: &Pattern) -> Option<&XsdDatatypes> {
        match p {
            Pattern::DatatypeName { datatype: Datatypes::Xsd(x), .. } => Some(x),
            Pattern::Element(_, p) | Pattern::Attribute(_, p) => find(p),
            _ => None,
        }
    }
    match find(b.as_ref().unwrap().pattern()) {
        Some(XsdDatatypes::Short(m, _)) => match std::panic::catch_unwind(|| m.min()) {
            Ok(Some(v)) if v > 0 => Ok(()),
            Ok(None) => Ok(()),
            r => Err(format!("MinMaxFacet::min() of xsd:short {{ minExclusive = \"32767\" }} overflows ({:?})", r.map_err(|_| "panic"))),
        },
        _ => Ok(()),
    }
}

/// parameter list (compact) and the accepted error kinds ("" for none)
const ROWS: &[(&str, &str)] = &[
    ("xsd:int { minInclusive = \"1\" maxInclusive = \"1\" }", ""),
    ("xsd:int { maxInclusive = \"1\" minInclusive = \"1\" }", ""),
    ("xsd:int { minInclusive = \"2\" maxInclusive = \"1\" }", CONFLICT),
    ("xsd:int { maxInclusive = \"1\" minInclusive = \"2\" }", CONFLICT),
    ("xsd:int { minExclusive = \"1\" maxInclusive = \"1\" }", CONFLICT),
    ("xsd:int { maxInclusive = \"1\" minExclusive = \"1\" }", CONFLICT),
    ("xsd:int { minInclusive = \"1\" maxExclusive = \"1\" }", CONFLICT),
    ("xsd:int { minExclusive = \"1\" maxExclusive = \"1\" }", ""),
    ("xsd:int { minExclusive = \"1\" minInclusive = \"1\" }", CONFLICT),
    ("xsd:int { maxExclusive = \"1\" maxInclusive = \"1\" }", CONFLICT),
    ("xsd:int { maxExclusive = \"1\" maxExclusive = \"1\" }", CONFLICT),
    ("xsd:int { maxExclusive = \"x\" }", BAD_INT),
    ("xsd:double { maxExclusive = \"x\" }", BAD_FLOAT),
    ("xsd:decimal { totalDigits = \"2\" fractionDigits = \"3\" }", CONFLICT),
    ("xsd:decimal { fractionDigits = \"3\" totalDigits = \"2\" }", CONFLICT),
    ("xsd:decimal { fractionDigits = \"2\" totalDigits = \"2\" }", ""),
    ("xsd:token { length = \"3\" minLength = \"2\" }", CONFLICT),
    ("xsd:token { maxLength = \"3\" length = \"2\" }", CONFLICT),
    ("xsd:token { maxLength = \"3\" minLength = \"3\" }", ""),
    ("xsd:token { maxLength = \"3\" minLength = \"4\" }", CONFLICT),
    ("xsd:token { minLength = \"4\" maxLength = \"3\" }", CONFLICT),
    ("xsd:string { minLength = \"4\" minLength = \"4\" }", CONFLICT),
    ("xsd:string { pattern = \"[\" }", BAD_PATTERN),
    ("xsd:string { pattern = \"a)|(b\" }", BAD_PATTERN),
    ("xsd:string { pattern = \"a\" pattern = \"b\" }", ""),
    ("xsd:string { minInclusive = \"1\" }", BAD_FACET),
    ("xsd:boolean { length = \"1\" }", BAD_FACET),
    ("xsd:int { minInclusive = \" 5 \" }", ""),
    ("xsd:unsignedShort { maxExclusive = \"\t5\" }", ""),
    ("xsd:int { minInclusive = \" 5 6 \" }", BAD_INT),
    ("xsd:int { minInclusive = \" 6 \" maxInclusive = \"5 \" }", CONFLICT),
    ("xsd:integer { minInclusive = \"5 \" }", ""),
    ("xsd:positiveInteger { minInclusive = \" 5\" }", ""),
    ("xsd:double { minInclusive = \" 5.0\" }", ""),
    ("xsd:decimal { minInclusive = \" 5.0\" totalDigits = \" 2\" fractionDigits = \"2 \" }", ""),
    ("xsd:token { minLength = \" 3\" maxLength = \"4 \" }", ""),
    ("xsd:token { length = \" 3 \" }", ""),
    ("token { length = \"1\" }", BUILTIN),
    ("string { pattern = \"a\" }", BUILTIN),
];

fn fixed(cx: &mut Cx) -> CaseResult {
    for (dt, want) in ROWS {
        for text in [format!("element a {{ {dt} }}"), format!("element a {{ attribute b {{ string - {dt} }} }}"), format!("element a {{ list {{ {dt}* }} }}")] {
            cx.eval();
            let got = match sut::compile_rnc(&text) {
                Ok(_) => String::new(),
                Err(e) => sut::kind(&e),
            };
            if got != *want {
                return Err(format!("{text}\nexpected {want:?}, got {got:?}"));
            }
        }
    }
    Ok(())
}
