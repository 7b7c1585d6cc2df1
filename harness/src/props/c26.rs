//! C26: the compiled model, which the model library offers to other programs than the validator,
//! states what the schema says.

use super::common::*;
use crate::ast::*;
use crate::dt::{self, Dt, ParamVal};
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx, InLibrary, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::sut::{self, Schema, Syn};
use crate::tape::Tape;
use crate::{doc, dtgen, rnc, rng, split};
use relaxng_model::datatype::Datatypes;
use relaxng_model::datatype::xsd::{StringFacets, XsdDatatypes};
use relaxng_model::model::{NameClass, Pattern};
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::path::Path;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C26",
    tape_len: 900,
    quick: 60000,
    thorough: 1500000,
    run,
    fixed,
    rule: "distinct (schema, document) pairs decided by interpreting the compiled model, and distinct datatypes whose stated limits were compared",
    assumptions: &["limits of ranges next to the end of the type's own range are left out", "limits of decimal and double with exclusive bounds are left out"],
    known: &[],
    shrink_iters: 3000,
};

/// reads the compiled model
struct Reader {
    nodes: Vec<N>,
    rules: HashMap<usize, Id>,
}
impl Reader {
    fn add(&mut self, n: N) -> Id {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    fn all(&mut self, v: &[Pattern], none: N, f: fn(Id, Id) -> N) -> Result<Id, String> {
        let mut out = None;
        for p in v {
            let id = self.pattern(p)?;
            out = Some(match out {
                None => id,
                Some(o) => self.add(f(o, id)),
            });
        }
        Ok(out.unwrap_or_else(|| self.add(none)))
    }
    fn rule(&mut self, s: &Schema, name: &str) -> Result<Id, String> {
        let key = Rc::as_ptr(s) as usize;
        if let Some(id) = self.rules.get(&key) {
            return Ok(*id);
        }
        let id = self.add(N::NotAllowed);
        self.rules.insert(key, id);
        let rule = s.borrow();
        let Some(rule) = rule.as_ref() else {
            return Err(format!("the compiled model refers to {name}, which is not defined"));
        };
        let body = self.pattern(rule.pattern())?;
        self.nodes[id] = N::Ref(body);
        Ok(id)
    }
    fn pattern(&mut self, p: &Pattern) -> Result<Id, String> {
        let n = match p {
            Pattern::Choice(v) => return self.all(v, N::NotAllowed, N::Choice),
            Pattern::Interleave(v) => return self.all(v, N::Empty, N::Inter),
            Pattern::Group(v) => return self.all(v, N::Empty, N::Group),
            Pattern::Mixed(p) => {
                let (a, b) = (self.add(N::Text), self.pattern(p)?);
                N::Inter(a, b)
            }
            Pattern::Empty => N::Empty,
            Pattern::Text => N::Text,
            Pattern::NotAllowed => N::NotAllowed,
            Pattern::Optional(p) => {
                let (a, b) = (self.pattern(p)?, self.add(N::Empty));
                N::Choice(a, b)
            }
            Pattern::ZeroOrMore(p) => {
                let a = self.pattern(p)?;
                let (a, b) = (self.add(N::Plus(a)), self.add(N::Empty));
                N::Choice(a, b)
            }
            Pattern::OneOrMore(p) => N::Plus(self.pattern(p)?),
            Pattern::Attribute(nc, p) => N::Attr(name_class(nc), self.pattern(p)?),
            Pattern::Element(nc, p) => N::Elem(name_class(nc), self.pattern(p)?),
            Pattern::Ref(_, name, r) => return self.rule(&r.0, name),
            Pattern::DatatypeValue { datatype } => N::Model(Md::Value(Rc::new(datatype.clone())), None),
            Pattern::DatatypeName { datatype, except } => {
                let e = match except {
                    Some(e) => Some(self.pattern(e)?),
                    None => None,
                };
                N::Model(Md::Name(Rc::new(datatype.clone())), e)
            }
            Pattern::List(p) => N::List(self.pattern(p)?),
        };
        Ok(self.add(n))
    }
}
fn name_class(nc: &NameClass) -> Nc {
    let sub = |e: &Option<Box<NameClass>>| e.as_ref().map(|e| Box::new(name_class(e)));
    match nc {
        NameClass::Named { namespace_uri, name } => Nc::Name(namespace_uri.clone(), name.clone()),
        NameClass::NsName { namespace_uri, except } => Nc::Ns(namespace_uri.clone(), sub(except)),
        NameClass::AnyName { except } => Nc::Any(sub(except)),
        NameClass::Alt { a, b } => Nc::Choice(Box::new(name_class(a)), Box::new(name_class(b))),
    }
}
fn read(s: &Schema) -> Result<Arena, String> {
    let mut r = Reader { nodes: vec![], rules: HashMap::new() };
    let start = r.rule(s, "start")?;
    Ok(Arena { nodes: r.nodes, start })
}

/// remembers which files were read
struct Recording(sut::MemFs, Rc<RefCell<BTreeSet<String>>>);
impl Files for Recording {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let r = self.0.load(name);
        if r.is_ok() {
            self.1.borrow_mut().insert(sut::normalise(name));
        }
        r
    }
}

fn compile(files: &[(String, String)], syn: Syn) -> Result<(Schema, BTreeSet<String>, BTreeSet<String>), String> {
    let seen = Rc::new(RefCell::new(BTreeSet::new()));
    let _g = InLibrary::enter();
    let mut c = Compiler::new(Recording(sut::MemFs(files.to_vec()), seen.clone()), if syn == Syn::Rnc { Syntax::Compact } else { Syntax::Xml });
    let s = c.compile(Path::new(&files[0].0)).map_err(|e| format!("a correct schema was rejected with {}\n{}", sut::variant(&e), show_files(files)))?;
    let loaded = c.loaded().map(|p| sut::normalise(p)).collect();
    let seen = seen.borrow().clone();
    Ok((s, seen, loaded))
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.chance(2, 5) {
        let mut d = dtgen::any(t);
        if d.params.len() > 1 && t.chance(1, 2) {
            t.shuffle(&mut d.params);
        }
        return datatype(t, cx, &d);
    }
    let o = match t.below(3) {
        0 => Opts { uris: 1, wild: false, data: false, elems: 3, depth: 3, ..FULL },
        1 => Opts { uris: 3, wild: false, depth: 3, ..FULL },
        _ => FULL,
    };
    let (orig, names) = schemagen::schema(t, o);
    let g = simplify(&orig);
    let mut sch = orig.clone();
    let n = t.below(4);
    let items = schemagen::gram_items(&mut sch);
    schemagen::extract_defs(t, items, n, "d");
    if t.chance(1, 2) {
        schemagen::split_combine(t, items);
    }
    if t.chance(1, 4) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = if t.chance(1, 2) {
        let (inh, _) = split::split(t, &mut sch);
        match syn {
            Syn::Rnc => rnc::files_inherit(&sch, t, rnc::PLAIN, &inh),
            Syn::Rng => rng::files_inherit(&sch, t, rng::PLAIN, &inh),
        }
    } else {
        print_schema(&sch, syn)
    };
    let shown = show_files(&files);
    cx.note(shown.clone());
    let (schema, seen, loaded) = compile(&files, syn)?;
    cx.eval();
    if seen != loaded {
        return Err(format!("the files {seen:?} were read, but the compiler says it has loaded {loaded:?}\n{shown}"));
    }
    cx.class_if(loaded.len() > 1, "several files");
    let m = read(&schema).map_err(|e| format!("{e}\n{shown}"))?;
    for _ in 0..4 {
        let (d, _) = near_doc(t, &g, &names, 14);
        let text = doc::canonical(&d);
        cx.note(format!("{shown}--- document\n{text}"));
        let (Some(want), Some(got)) = (Matcher::valid(&g, &d), Matcher::valid(&m, &d)) else {
            cx.class("oracle gave up (excluded)");
            continue;
        };
        cx.eval();
        cx.class(if want { "document valid" } else { "document invalid" });
        if want != got {
            return Err(format!("the document is {} by the schema, but not by the compiled model\n{shown}--- document\n{text}", if want { "valid" } else { "invalid" }));
        }
        cx.nontrivial(&(&sch, &d));
        cx.sample(|| format!("{shown}--- document ({})\n{text}", if want { "valid" } else { "invalid" }));
    }
    Ok(())
}

/// the datatype of the pattern `element a { T }`
fn datatype_of(s: &Schema) -> Result<Datatypes, String> {
    let rule = s.borrow();
    let mut p = rule.as_ref().ok_or("the start is not defined")?.pattern();
    loop {
        match p {
            Pattern::Element(_, b) | Pattern::Attribute(_, b) => p = b,
            Pattern::DatatypeName { datatype, except: None } => return Ok(datatype.clone()),
            _ => return Err("the compiled model is not the datatype which was written".into()),
        }
    }
}

type Limits = (bool, Option<String>, Option<String>);

fn facets(f: &StringFacets) -> Limits {
    (f.bounded(), f.min_len().map(|n| n.to_string()), f.max_len().map(|n| n.to_string()))
}

/// what the compiled datatype is called, and its limits; the bounds are not asked for where they
/// cannot be computed
fn limits(d: &XsdDatatypes, ask: bool) -> (&'static str, Limits) {
    macro_rules! copied {
        ($f:expr) => {
            ($f.bounded(), if ask { $f.min().map(|v| v.to_string()) } else { None }, if ask { $f.max().map(|v| v.to_string()) } else { None })
        };
    }
    macro_rules! cloned {
        ($f:expr) => {
            ($f.bounded(), if ask { $f.min_cloned().map(|v| v.to_string()) } else { None }, if ask { $f.max_cloned().map(|v| v.to_string()) } else { None })
        };
    }
    let none = (false, None, None);
    match d {
        XsdDatatypes::NormalizedString(f) => ("normalizedString", facets(f)),
        XsdDatatypes::String(f) => ("string", facets(f)),
        XsdDatatypes::Token(f) => ("token", facets(f)),
        XsdDatatypes::NcName(f) => ("NCName", facets(f)),
        XsdDatatypes::NmToken(f) => ("NMTOKEN", facets(f)),
        XsdDatatypes::NmTokens(f) => ("NMTOKENS", facets(f)),
        XsdDatatypes::Short(m, _) => ("short", copied!(m)),
        XsdDatatypes::UnsignedShort(m, _) => ("unsignedShort", copied!(m)),
        XsdDatatypes::Int(m, _) => ("int", copied!(m)),
        XsdDatatypes::UnsignedInt(m, _) => ("unsignedInt", copied!(m)),
        XsdDatatypes::Long(m, _) => ("long", copied!(m)),
        XsdDatatypes::UnsignedLong(m, _) => ("unsignedLong", copied!(m)),
        XsdDatatypes::Integer(m, _) => ("integer", cloned!(m)),
        XsdDatatypes::PositiveInteger(m, _) => ("positiveInteger", cloned!(m)),
        XsdDatatypes::Decimal { min_max, .. } => ("decimal", (min_max.bounded(), None, None)),
        XsdDatatypes::Double(m, _) => ("double", (m.bounded(), None, None)),
        XsdDatatypes::Duration(_) => ("duration", none),
        XsdDatatypes::Date(_) => ("date", none),
        XsdDatatypes::Datetime(_) => ("dateTime", none),
        XsdDatatypes::AnyURI(_) => ("anyURI", none),
        XsdDatatypes::Language(_) => ("language", none),
        XsdDatatypes::Boolean(_) => ("boolean", none),
        XsdDatatypes::Id(_) => ("ID", none),
        XsdDatatypes::IdRef(_) => ("IDREF", none),
    }
}

fn text(d: &Dt, name: &str) -> Option<String> {
    d.params.iter().find(|p| p.0 == name).map(|p| match &p.1 {
        ParamVal::Text(s) => dt::collapse(s),
        ParamVal::Pattern(r) => r.print(),
    })
}
fn number(d: &Dt, name: &str) -> Option<i128> {
    text(d, name).map(|s| s.trim_start_matches('+').parse().unwrap())
}

fn datatype(t: &mut Tape, cx: &mut Cx, d: &Dt) -> CaseResult {
    let sch = Sch { files: vec![SFile { name: "main".into(), body: Body::Pat(P::Elem(Nc::local("a"), Box::new(P::Data(d.clone(), None)))) }] };
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    let shown = show_files(&files);
    cx.note(shown.clone());
    let schema = must_compile(&files, syn)?;
    let got = datatype_of(&schema).map_err(|e| format!("{e}\n{shown}"))?;
    cx.eval();
    cx.class(&format!("type {}", d.name));
    let fail = |what: &str, want: String, got: String| Err(format!("{what} should be {want}, but the compiled datatype says {got}\n{shown}"));
    let x = match &got {
        Datatypes::Xsd(x) if d.xsd => x,
        Datatypes::Relax(x) if !d.xsd => {
            let name = format!("{x:?}").to_lowercase();
            return if name == d.name { Ok(()) } else { fail("the name", d.name.into(), name) };
        }
        _ => return fail("the library", format!("{}", d.xsd), format!("{got:?}")),
    };
    let has = |v: &[&str]| v.iter().any(|n| d.params.iter().any(|p| p.0 == *n));
    let is_int = dt::kind(d.name) == dt::Kind::Int;
    // the number behind an exclusive bound has to be one of the type
    let (mut ask, mut low, mut high) = (true, None, None);
    if is_int {
        let (lo, hi) = dtgen::range(d.name);
        low = number(d, "minInclusive").or(number(d, "minExclusive").map(|n| n + 1));
        high = number(d, "maxInclusive").or(number(d, "maxExclusive").map(|n| n - 1));
        ask = low.is_none_or(|n| n <= hi) && high.is_none_or(|n| n >= lo);
    }
    let _g = InLibrary::enter();
    let (name, have) = limits(x, ask);
    drop(_g);
    if name != d.name {
        return fail("the name", d.name.into(), name.into());
    }
    let want: Limits = match dt::kind(d.name) {
        dt::Kind::Str => {
            let len = text(d, "length");
            (has(&["length", "minLength", "maxLength"]), len.clone().or(text(d, "minLength")), len.or(text(d, "maxLength")))
        }
        _ => (
            has(&["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"]),
            low.filter(|_| ask).map(|n| n.to_string()),
            high.filter(|_| ask).map(|n| n.to_string()),
        ),
    };
    let plain = |l: &Limits| -> Limits { (l.0, l.1.as_ref().map(|s| zeros(s)), l.2.as_ref().map(|s| zeros(s))) };
    if plain(&have) != plain(&want) {
        return fail("the limits (bounded, lower, upper)", format!("{want:?}"), format!("{have:?}"));
    }
    match x {
        XsdDatatypes::Decimal { fraction_digits, total_digits, pattern, .. } => {
            let want = (number(d, "fractionDigits"), number(d, "totalDigits"), has(&["pattern"]));
            let have = (fraction_digits.map(i128::from), total_digits.map(i128::from), pattern.is_some());
            if want != have {
                return fail("fractionDigits, totalDigits and whether there is a pattern", format!("{want:?}"), format!("{have:?}"));
            }
        }
        XsdDatatypes::NormalizedString(f) | XsdDatatypes::String(f) | XsdDatatypes::Token(f) | XsdDatatypes::NcName(f) | XsdDatatypes::NmToken(f) | XsdDatatypes::NmTokens(f) => {
            let res: Vec<&dt::Re> = d.params.iter().filter_map(|p| if let ParamVal::Pattern(r) = &p.1 { Some(r) } else { None }).collect();
            let re = f.regex();
            if re.is_some() == res.is_empty() {
                return fail("whether there is a pattern", format!("{}", !res.is_empty()), format!("{re:?}"));
            }
            // with several patterns, only one of them is there to be asked for
            if let (Some(re), [r]) = (re, &res[..]) {
                for _ in 0..4 {
                    let v = dt::normalize(d, &dtgen::value(t, d));
                    cx.eval();
                    if re.is_match(&v) != r.full_match(&v) {
                        return fail(&format!("whether the pattern matches {v:?}"), format!("{}", r.full_match(&v)), format!("{}", re.is_match(&v)));
                    }
                }
                cx.class("pattern compared");
            }
        }
        _ => {}
    }
    cx.class_if(want.0, "with limits");
    cx.class_if(is_int && ask && has(&["minExclusive", "maxExclusive"]), "exclusive bound");
    cx.nontrivial(d);
    cx.sample(|| format!("{shown}limits {have:?}"));
    Ok(())
}

fn zeros(s: &str) -> String {
    let (sign, n) = match s.strip_prefix('-') {
        Some(n) => ("-", n),
        None => ("", s),
    };
    let n = n.trim_start_matches('0');
    if n.is_empty() { "0".into() } else { format!("{sign}{n}") }
}

fn fixed(cx: &mut Cx) -> CaseResult {
    // limits from each kind of parameter, for each type that has them
    let mut t = Tape::new(&[]);
    for name in ["short", "unsignedShort", "int", "unsignedInt", "long", "unsignedLong", "integer", "positiveInteger"] {
        let (lo, hi) = dtgen::range(name);
        for p in ["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"] {
            for v in [lo, lo + 1, 1, 2, 10, 99, 127, 128, 255, 256, 32766, hi - 1, hi] {
                let mut d = dt::xsd(name);
                d.params.push((p.into(), ParamVal::Text(v.to_string())));
                if p == "maxExclusive" && v == lo || p == "minExclusive" && v == hi {
                    continue;
                }
                datatype(&mut t, cx, &d)?;
            }
        }
        for a in ["minInclusive", "minExclusive"] {
            for b in ["maxInclusive", "maxExclusive"] {
                let mut d = dt::xsd(name);
                d.params.push((a.into(), ParamVal::Text("5".into())));
                d.params.push((b.into(), ParamVal::Text("9".into())));
                datatype(&mut t, cx, &d)?;
                d.params.reverse();
                datatype(&mut t, cx, &d)?;
            }
        }
    }
    for name in ["string", "normalizedString", "token", "NCName", "NMTOKEN", "NMTOKENS"] {
        for ps in [&["length"][..], &["minLength"], &["maxLength"], &["minLength", "maxLength"], &["maxLength", "minLength"], &[]] {
            for n in [0, 1, 2, 255, 256, 65535, 65536, 4294967295, 4294967296i128] {
                let mut d = dt::xsd(name);
                for p in ps {
                    d.params.push((p.to_string(), ParamVal::Text((n + i128::from(*p == "maxLength")).to_string())));
                }
                datatype(&mut t, cx, &d)?;
            }
        }
    }
    Ok(())
}
