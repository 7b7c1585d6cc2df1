//! C09: loading any schema text ends in a result, with an error that can be shown.

use super::common::*;
use crate::budget;
use crate::fault;
use crate::runner::{CaseResult, Cx, InLibrary, Known, Prop};
use crate::schemagen::{self, FULL};
use crate::split;
use crate::sut::{self, Syn};
use crate::tape::Tape;
use crate::{rnc, rng};
use codemap::Span;
use relaxng_model::datatype::{Errors, relax, xsd};
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use relaxng_validator::Validator;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use xmlparser::Tokenizer;

pub const PROP: Prop = Prop {
    id: "C09",
    tape_len: 900,
    quick: 150000,
    thorough: 3750000,
    run,
    fixed,
    rule: "distinct sets of schema files which are not correct schemas (an error was reported for them)",
    assumptions: &[
        "schemas nested up to 500 levels deep, loaded by a thread with a stack of 8 MB",
        "an input has 3 million allocations per 10 kB of text to be loaded with (usual are some thousands)",
    ],
    known: &[Known { slug: "deep-nesting", run: known_deep }, Known { slug: "long-sequence", run: known_long }],
    shrink_iters: 3000,
};

/// files in memory which remember what was loaded, in order
struct LogFs {
    files: Vec<(String, String)>,
    log: Rc<RefCell<Vec<(PathBuf, String)>>>,
}
impl Files for LogFs {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let n = sut::normalise(name);
        match self.files.iter().find(|(p, _)| *p == n) {
            Some((_, t)) => {
                self.log.borrow_mut().push((name.to_path_buf(), t.clone()));
                Ok(t.clone())
            }
            None => Err(RelaxError::Io(name.to_path_buf(), std::io::Error::from(std::io::ErrorKind::NotFound))),
        }
    }
}

/// what is written at a position that an error names
#[derive(Debug)]
enum At {
    /// (the code says that it does not know where it is, or takes a whole file)
    Any,
    /// that name
    Name(String),
    /// any name, or nothing for the keyword start of the compact syntax, which the parser does not keep
    Def,
    /// any name
    Ref,
    /// a reference to a file
    Href,
    /// an element or attribute, by its keyword
    Word(&'static str),
    /// a parameter of a datatype
    Param,
    /// at least something
    Some,
    /// the character in this line and column, which the message tells
    Place(usize, usize),
}

/// the positions an error names, each with what has to be written there
fn spans(e: &RelaxError, out: &mut Vec<(Span, At)>) {
    let mut add = |s: &Span, n: At| out.push((*s, n));
    let name = |n: &String| At::Name(n.clone());
    match e {
        RelaxError::IncludeError(s, e) => {
            add(s, At::Href);
            spans(e, out);
        }
        RelaxError::Parse(s, _) => add(s, At::Any),
        RelaxError::XmlParse(s, e) => add(s, match e {
            relaxng_syntax::xml::Error::Xml(_, m) => place(m),
            // the place of an attribute's value, which may be empty
            relaxng_syntax::xml::Error::Expected(_, m) if *m == "Expected identifier" => At::Any,
            relaxng_syntax::xml::Error::Todo(_) => At::Any,
            _ => At::Some,
        }),
        RelaxError::DuplicateDefinition { name: n, duplicate, original } => {
            add(duplicate, name(n));
            add(original, name(n));
        }
        RelaxError::UndefinedNamespacePrefix { span, prefix } | RelaxError::UndefinedDatatypePrefix { span, prefix } => add(span, name(prefix)),
        RelaxError::NamespacePrefixAlreadyDefined { span, prefix } => add(span, name(prefix)),
        RelaxError::UndefinedReference { span, .. } => add(span, At::Any),
        RelaxError::NoParentAvailable(span) => add(span, At::Ref),
        RelaxError::StartRuleNotDefined { span } | RelaxError::IncludedFileMustBeGrammar { span } => add(span, At::Any),
        RelaxError::RecursiveInclude { span, .. } => add(span, At::Href),
        RelaxError::DefineRulesMixesChoiceAndInterleave { this_span, that_span } => {
            add(this_span, At::Def);
            add(that_span, At::Def);
        }
        RelaxError::RecursiveReference { ref_id, ref_span, def_id, def_span } => {
            add(ref_span, name(ref_id));
            add(def_span, name(def_id));
        }
        RelaxError::ElementAsChildOfAttribute { attribute_span, element_span } => {
            add(attribute_span, At::Word("attribute"));
            add(element_span, At::Word("element"));
        }
        RelaxError::OverrideMissingFromInclude { override_span, include_span, name: n } => {
            add(override_span, name(n));
            add(include_span, At::Any);
        }
        RelaxError::DatatypeError(e) => match e {
            // (the place of the declaration is not kept)
            Errors::UnsupportedDatatypeLibrary { span, .. } => add(span, At::Any),
            Errors::Relax(relax::Error::ParamNotAllowed { span, .. }) => add(span, At::Param),
            Errors::Relax(relax::Error::DatataypeNameUnknown { span, name: n }) => add(span, name(n)),
            Errors::Xsd(xsd::XsdDatatypeError::Facet { facet, .. }) => match facet {
                xsd::FacetError::InvalidInt(s, _) | xsd::FacetError::InvalidFloat(s, _) | xsd::FacetError::InvalidPattern(s, _) | xsd::FacetError::InvalidFacet(s, _) => add(s, At::Param),
                xsd::FacetError::ConflictingFacet(_) => {}
            },
            Errors::Xsd(xsd::XsdDatatypeError::UnsupportedDatatype { span, name: n }) => add(span, name(n)),
            Errors::Xsd(xsd::XsdDatatypeError::InvalidValueOfType { span, .. }) => add(span, At::Some),
        },
        _ => {}
    }
}

fn place(message: &str) -> At {
    let Some((row, col)) = message.rsplit(' ').next().and_then(|w| w.split_once(':')) else { return At::Any };
    match (row.parse(), col.parse()) {
        (Ok(r), Ok(c)) if message.ends_with(&format!(" at {row}:{col}")) => At::Place(r, c),
        _ => At::Any,
    }
}

fn is_name(s: &str) -> bool {
    let s = s.trim_matches([' ', '\t', '\r', '\n']);
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || "_.-:\u{b7}".contains(c) || !c.is_ascii())
}
fn written(at: &At, text: &str, syn: Syn) -> bool {
    // references to characters
    let opaque = syn == Syn::Rng && text.contains('&');
    let bare = if syn == Syn::Rnc { text.trim_start_matches('\\') } else { text };
    match at {
        At::Any => true,
        At::Some => !text.is_empty(),
        At::Place(..) => text.chars().count() <= 1,
        // escapes outside of literals are resolved before parsing
        At::Name(n) if n == "start" => text.is_empty() && syn == Syn::Rnc || bare.contains("start") || opaque,
        At::Name(n) => text.contains(n.strip_prefix('\\').unwrap_or(n)) || opaque,
        At::Def => is_name(bare) || opaque || text.is_empty() && syn == Syn::Rnc,
        At::Ref => is_name(bare) || opaque,
        At::Href => syn == Syn::Rng || text.starts_with(['"', '\'']) && text.len() > 1 && text.ends_with(['"', '\'']),
        At::Word(w) => match syn {
            Syn::Rnc => text.starts_with(w) && text.ends_with('}'),
            Syn::Rng => text == *w || text.split_once(':').is_some_and(|(p, l)| is_name(p) && l == *w),
        },
        At::Param => match syn {
            Syn::Rnc => text.contains('=') && text.ends_with(['"', '\'']),
            Syn::Rng => text.starts_with('<') && text.ends_with('>') && text[..text.find(|c: char| c.is_whitespace()).unwrap_or(0)].ends_with("param"),
        },
    }
}

/// loads the files and checks what comes out; Some(variant) if it is an error
fn load(files: &[(String, String)], syn: Syn, edited: Option<usize>) -> Result<Option<String>, String> {
    let log = Rc::new(RefCell::new(vec![]));
    let fs = LogFs { files: files.to_vec(), log: log.clone() };
    let size: usize = files.iter().map(|f| f.1.len()).sum();
    let mut c = Compiler::new(fs, match syn {
        Syn::Rnc => Syntax::Compact,
        Syn::Rng => Syntax::Xml,
    });
    let main = PathBuf::from(format!("main.{}", syn.ext()));
    let work = 3_000_000 * (1 + size as u64 / 10_000);
    let _g = InLibrary::enter();
    let (r, _) = budget::within(work, || c.compile(&main));
    let e = match r {
        Ok(s) => {
            // the schema can be used
            budget::within(work, || {
                for d in ["<a/>", "<a b='c' xml:lang='en'>x<b/>y</a>", "<p:a xmlns:p='urn:a'><p:b>1</p:b></p:a>"] {
                    let mut v = Validator::new(s.clone(), Tokenizer::from(d));
                    for _ in 0..sut::step_limit(d) {
                        match v.validate_next() {
                            None => break,
                            Some(Ok(())) => {}
                            Some(Err(e)) => {
                                v.diagnostic("doc.xml".into(), d.into(), &e);
                                break;
                            }
                        }
                    }
                }
            });
            return Ok(None);
        }
        Err(e) => e,
    };
    // positions in a code map which got the same files in the same order are comparable
    let mut map = codemap::CodeMap::new();
    let loaded: Vec<_> = log.borrow().iter().map(|(n, t)| map.add_file(n.to_string_lossy().to_string(), t.clone())).collect();
    let mut v = vec![];
    spans(&e, &mut v);
    let mut last = None;
    let mut led: Option<(String, String)> = None;
    for (s, at) in &v {
        let Some(f) = loaded.iter().find(|f| f.span.contains(*s)) else {
            return Err(format!("the position {s:?} is in none of the files: {e:?}"));
        };
        let (a, b) = ((s.low() - f.span.low()) as usize, (s.high() - f.span.low()) as usize);
        let src = f.source();
        if a > b || !src.is_char_boundary(a) || !src.is_char_boundary(b) {
            return Err(format!("the position {a}..{b} in {} is not between characters: {e:?}", f.name()));
        }
        if !written(at, &src[a..b], syn) {
            return Err(format!("the error is about {at:?}, but its position {a}..{b} in {} is {:?}: {e:?}", f.name(), &src[a..b]));
        }
        if let At::Place(row, col) = at {
            let before = &src[..a];
            let (r, c) = (before.matches('\n').count() + 1, before[before.rfind('\n').map_or(0, |i| i + 1)..].chars().count() + 1);
            // the end of the file may be far from the place
            if ((r, c) != (*row, *col) || a == b) && a < src.len() {
                return Err(format!("the error is about line {row}, column {col}, but its position is {a}..{b}, in line {r}, column {c}: {e:?}"));
            }
        }
        // what is reported in another file is where the reference leads
        if let (Some((from, href)), RelaxError::Parse(..) | RelaxError::XmlParse(..)) = (&led, sut::innermost(&e)) {
            let end = sut::normalise(Path::new(f.name()));
            let to = href.rsplit('/').next().unwrap_or_default();
            if from != f.name() && !href.contains(['&', '\\', '~', ' ', '\n']) && !end.rsplit('/').next().is_some_and(|n| n == to) {
                return Err(format!("an error in {} is reported for the reference {href:?} of {from}: {e:?}", f.name()));
            }
        }
        led = matches!(at, At::Href).then(|| (f.name().to_string(), src[a..b].trim_matches(['"', '\'']).to_string()));
        last = Some(f.name().to_string());
    }
    if let (Some(i), RelaxError::Parse(..) | RelaxError::XmlParse(..)) = (edited, sut::innermost(&e)) {
        let last = last.map(|n| sut::normalise(Path::new(&n)));
        if last.as_deref() != Some(&files[i].0) {
            return Err(format!("the file {} was edited, but the syntax error is reported in {last:?}: {e:?}", files[i].0));
        }
    }
    budget::within(work, || c.dump_diagnostic(&e));
    Ok(Some(sut::kind(&e)))
}

const RNC_TOKENS: &[&str] = &[
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start", "string", "text", "token", "a", "b", "d0", "\\start",
    "\\a", "\\", "xsd:int", "xsd:string", "p:a", "p:*", "*", "a:b:c", ":", "=", "|=", "&=", "|", "&", ",", "-", "~", "?", "+", "{", "}", "(", ")", "[", "]", ">>", "\"x\"", "'y'", "\"", "'", "\"\"\"z\"\"\"", "'''", "\"urn:a\"",
    "\"http://www.w3.org/2001/XMLSchema-datatypes\"", "\\x{61}", "\\x{0}", "\\x{110000}", "\\x{d800}", "\\x{zz}", "\\x{", "\\xx{41}", "\"\\x{22}\"", "#", "##", "# c\n", "## d\n", "\n", "\r\n", "\t", "é", "😀", "\u{a0}", "\u{feff}", "\u{0}",
    "\u{2028}", "{ empty }", "{ text }", "element a { empty }", "start = element a { empty }", "namespace p = \"urn:a\"", "default namespace = \"\"", "datatypes d = \"\"", "[ a:b = \"c\" ]", "[ a:b [ \"x\" ] ]", ">> a:b [ ]", "minLength = \"1\"",
    "pattern = \"[\"", "maxInclusive = \"1e9\"", "include \"f1.rnc\"", "external \"f1.rnc\"", "include \"main.rnc\"", "parent x", "1", "0", ".", "_", "-a", "\u{301}",
];
const RNG_NAMES: &[&str] = &[
    "grammar", "start", "define", "element", "attribute", "group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed", "ref", "parentRef", "empty", "text", "value", "data", "notAllowed", "externalRef", "param", "except",
    "include", "div", "name", "anyName", "nsName", "elements", "é", "p:x",
];
const RNG_ATTRS: &[&str] = &["name", "ns", "datatypeLibrary", "combine", "href", "type", "xml:base", "x", "p:x", "xmlns:p", "xmlns", "é"];
const RNG_VALUES: &[&str] = &[
    "a", "b", "d0", "", " a ", "a b", "p:a", "xml:lang", ":", "choice", "interleave", "f1.rng", "main.rng", "../x/./f1.rng", "/abs", "urn:a", "http://www.w3.org/2001/XMLSchema-datatypes", "int", "string", "token", "decimal", "minLength", "pattern", "é", "😀",
    "&#x1F600;", "&amp;", "\u{a0}", "http://relaxng.org/ns/structure/1.0", "xmlns", "http://www.w3.org/2000/xmlns",
];
const XML_TOKENS: &[&str] = &[
    "<", ">", "</", "/>", "\"", "'", "=", "&", "&lt;", "&x;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY x 'é'>]>", "<a>", "</a>", " x='y'", " name='a'", " ns=''", "<empty/>", "<text/>", "<ref name='zz'/>", "<define name='zz'>",
    "</define>", "<data type='int'/>", "<value>é</value>", "é", "😀", "\u{feff}", "\u{0}", "\u{1}", "\n", "\r\n", "<?xml version='1.0'?>", "xmlns='http://relaxng.org/ns/structure/1.0'", "<param name='pattern'>[</param>", "<except>", "<include href='f1.rng'/>",
    "<externalRef href='main.rng'/>", "<name>p:a</name>", "combine='choice'",
];

fn at(t: &mut Tape, s: &str) -> usize {
    let mut i = t.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// a place where a word starts or ends
fn edge(t: &mut Tape, s: &str) -> usize {
    let i = at(t, s);
    match s[i..].char_indices().find(|(_, c)| !c.is_alphanumeric()) {
        Some((k, _)) if t.chance(2, 3) => i + k,
        _ => i,
    }
}
/// one edit of the text
fn edit(t: &mut Tape, s: &mut String, other: &str, tokens: &[&str]) {
    let (a, b) = (edge(t, s), edge(t, s));
    let (a, b) = (a.min(b), a.max(b));
    let near = {
        let mut e = (a + 1 + t.below(6)).min(s.len());
        while !s.is_char_boundary(e) {
            e += 1;
        }
        e
    };
    match t.below(11) {
        0 => s.insert_str(a, t.pick(tokens)),
        1 => s.insert_str(a, &format!(" {} ", t.pick(tokens))),
        2 => s.replace_range(a..near, ""),
        3 => s.replace_range(a..near, t.pick(tokens)),
        4 => s.replace_range(a..b, ""),
        5 => s.truncate(a),
        6 => {
            let x = s[a..b].to_string();
            if x.len() < 400 {
                s.insert_str(edge(&mut Tape::new(&[t.word()]), s), &x);
            }
        }
        7 => s.insert_str(a, t.pick(&["é", "😀", "\u{301}", "\u{feff}", "\r\n", "\u{0}", "\t", "\u{85}", "\\", "\"", "'"])),
        8 => {
            // a piece of another schema
            let (c, d) = (edge(t, other), edge(t, other));
            let x = other[c.min(d)..c.max(d)].to_string();
            if x.len() < 600 {
                s.insert_str(a, &x);
            }
        }
        9 => {
            // another case
            let x: String = s[a..near].chars().flat_map(|c| if c.is_lowercase() { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect() }).collect();
            s.replace_range(a..near, &x);
        }
        _ => {
            // one word by another
            let words: Vec<(usize, usize)> = word_ranges(s);
            if words.len() > 1 {
                let (i, j) = (t.below(words.len()), t.below(words.len()));
                let w = s[words[j].0..words[j].1].to_string();
                s.replace_range(words[i].0..words[i].1, &w);
            }
        }
    }
}
fn word_ranges(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = None;
    for (i, c) in s.char_indices().chain([(s.len(), ' ')]) {
        match (c.is_alphanumeric(), start) {
            (true, None) => start = Some(i),
            (false, Some(a)) => {
                v.push((a, i));
                start = None;
            }
            _ => {}
        }
    }
    v
}

fn soup(t: &mut Tape, syn: Syn) -> String {
    let n = t.range(1, 40);
    let mut s = String::new();
    match syn {
        Syn::Rnc => {
            for _ in 0..n {
                s.push_str(t.pick(RNC_TOKENS));
                if t.chance(3, 4) {
                    s.push(' ');
                }
            }
        }
        Syn::Rng if t.chance(1, 4) => {
            for _ in 0..n {
                s.push_str(t.pick(XML_TOKENS));
            }
        }
        Syn::Rng => {
            let mut left = n;
            xml_soup(t, &mut s, &mut left, 0);
        }
    }
    s
}
fn xml_soup(t: &mut Tape, s: &mut String, left: &mut usize, depth: usize) {
    let name = t.pick(RNG_NAMES);
    s.push_str(&format!("<{name}"));
    if depth == 0 && !t.chance(1, 12) {
        s.push_str(" xmlns=\"http://relaxng.org/ns/structure/1.0\" xmlns:p=\"urn:a\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"");
    }
    let mut used = vec![];
    for _ in 0..t.below(3) {
        let a = *t.pick(RNG_ATTRS);
        if used.contains(&a) || (depth == 0 && ["xmlns", "xmlns:p", "datatypeLibrary"].contains(&a)) {
            continue;
        }
        used.push(a);
        s.push_str(&format!(" {a}=\"{}\"", t.pick(RNG_VALUES)));
    }
    let n = if depth > 6 { 0 } else { t.below(4) };
    if n == 0 {
        s.push_str("/>");
        return;
    }
    s.push('>');
    for _ in 0..n {
        if *left == 0 {
            break;
        }
        *left -= 1;
        match t.below(8) {
            0 => s.push_str(t.pick(RNG_VALUES)),
            1 => s.push_str(t.pick(&["<!-- é -->", "<?p?>", "\n  ", "<![CDATA[x]]>"])),
            _ => xml_soup(t, s, left, depth + 1),
        }
    }
    s.push_str(&format!("</{name}>"));
}

fn generated(t: &mut Tape, syn: Syn, faulty: bool) -> Vec<(String, String)> {
    let (mut sch, _) = schemagen::schema(t, FULL);
    let items = schemagen::gram_items(&mut sch);
    let n = t.below(3);
    schemagen::extract_defs(t, items, n, "d");
    if t.chance(1, 3) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    if t.chance(1, 3) {
        schemagen::split_combine(t, items);
    }
    let inh = if t.chance(1, 2) { split::split(t, &mut sch).0 } else { Default::default() };
    if faulty {
        fault::inject(t, &mut sch);
    }
    let vary = t.chance(1, 2);
    match syn {
        Syn::Rnc => rnc::files_inherit(&sch, t, if vary { rnc::ALL } else { rnc::PLAIN }, &inh),
        Syn::Rng => rng::files_inherit(&sch, t, if vary { rng::ALL } else { rng::PLAIN }, &inh),
    }
}

/// datatypes with arbitrary names and parameters
fn data_soup(t: &mut Tape, syn: Syn) -> String {
    const TYPES: &[&str] = &[
        "int", "string", "token", "decimal", "double", "date", "dateTime", "duration", "anyURI", "ID", "IDREF", "NMTOKEN", "NMTOKENS", "QName", "boolean", "language", "normalizedString", "positiveInteger", "unsignedByte", "float", "é", "Int", "byte", "",
    ];
    const PARAMS: &[&str] = &[
        "pattern", "length", "minLength", "maxLength", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive", "totalDigits", "fractionDigits", "enumeration", "whiteSpace", "é", "x",
    ];
    const VALUES: &[&str] = &[
        "", "0", "1", "-1", "+1", "007", "1e3", "1.5", ".", "NaN", "INF", "-INF", "9223372036854775807", "9223372036854775808", "99999999999999999999999999999999999999999999", "-0", " 1 ", "é", "😀", "[", "a{1,99999}", "(a*)*", "[^\\s]", "\\p{L}", "\\p{X}", "\\i\\c*", "[a-z-[aeiou]]",
        "a{2,1}", "(", ")", "\\", "a{99999999999}", "((((((((a))))))))", "[\\d-z]", "0x10", "1_000", "१", "1 2",
    ];
    let ty = if t.chance(1, 3) { "string" } else { *t.pick(TYPES) };
    let n = t.below(4);
    let ps: Vec<(&str, &str)> = (0..n).map(|_| (*t.pick(PARAMS), *t.pick(VALUES))).collect();
    let val = *t.pick(VALUES);
    let form = t.below(4);
    match syn {
        Syn::Rnc => {
            let mut s = format!("element a {{ xsd:{ty}");
            if form == 0 {
                s.push_str(&format!(" \"{val}\""));
            } else {
                if n > 0 {
                    s.push_str(" { ");
                    for (p, v) in ps {
                        s.push_str(&format!("{p} = \"{v}\" "));
                    }
                    s.push('}');
                }
                if form == 1 {
                    s.push_str(&format!(" - xsd:{ty} \"{val}\""));
                }
            }
            s + " }"
        }
        Syn::Rng => {
            let e = |v: &str| v.replace('&', "&amp;").replace('<', "&lt;");
            let mut s = "<element name=\"a\" xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\">".to_string();
            if form == 0 {
                s.push_str(&format!("<value type=\"{ty}\">{}</value>", e(val)));
            } else {
                s.push_str(&format!("<data type=\"{ty}\">"));
                for (p, v) in ps {
                    s.push_str(&format!("<param name=\"{p}\">{}</param>", e(v)));
                }
                if form == 1 {
                    s.push_str(&format!("<except><value type=\"{ty}\">{}</value></except>", e(val)));
                }
                s.push_str("</data>");
            }
            s + "</element>"
        }
    }
}

/// files which refer to each other at random
fn file_graph(t: &mut Tape, syn: Syn) -> Vec<(String, String)> {
    let n = t.range(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("{}.{}", if i == 0 { "main".to_string() } else { format!("{}f{i}", t.pick(&["", "", "d/", "d/e/"])) }, syn.ext())).collect();
    let mut out = vec![];
    for i in 0..n {
        let mut refs = vec![];
        for _ in 0..t.below(3) {
            let to = match t.below(8) {
                0 => t.pick(&["", ".", "..", "/", "missing.x", "a b", "é", "http://x/y.rnc", "#x", "f1.rnc#x", "./", "//"]).to_string(),
                1 => names[t.below(n)].clone(),
                _ => {
                    let to = &names[t.below(n)];
                    // relative to the directory of the file
                    format!("{}{}{to}", t.pick(&["", "", "./", "x/../"]), "../".repeat(names[i].matches('/').count()))
                }
            };
            refs.push((t.below(4), to));
        }
        let start = !t.chance(1, 6);
        let mut s = String::new();
        match syn {
            Syn::Rnc => {
                if t.chance(1, 8) {
                    s.push_str("element q { empty }");
                    for (_, to) in &refs {
                        s.push_str(&format!(" | external \"{to}\""));
                    }
                } else {
                    if start {
                        s.push_str("start = x0\nx0 = element a { empty }\n");
                    }
                    for (k, (kind, to)) in refs.iter().enumerate() {
                        match kind {
                            0 => s.push_str(&format!("include \"{to}\"\n")),
                            1 => s.push_str(&format!("include \"{to}\" {{ start = x0 }}\n")),
                            2 => s.push_str(&format!("include \"{to}\" {{ x{k} = text }}\n")),
                            _ => s.push_str(&format!("y{i}{k} = external \"{to}\"\n")),
                        }
                    }
                }
            }
            Syn::Rng => {
                s.push_str("<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\">");
                if start {
                    s.push_str("<start><ref name='x0'/></start><define name='x0'><element name='a'><empty/></element></define>");
                }
                for (k, (kind, to)) in refs.iter().enumerate() {
                    match kind {
                        0 => s.push_str(&format!("<include href='{to}'/>")),
                        1 => s.push_str(&format!("<include href='{to}'><start><ref name='x0'/></start></include>")),
                        2 => s.push_str(&format!("<include href='{to}'><define name='x{k}'><text/></define></include>")),
                        _ => s.push_str(&format!("<define name='y{i}{k}'><externalRef href='{to}'/></define>")),
                    }
                }
                s.push_str("</grammar>");
            }
        }
        out.push((names[i].clone(), s));
    }
    out
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let tokens = match syn {
        Syn::Rnc => RNC_TOKENS,
        Syn::Rng => XML_TOKENS,
    };
    let mut edited = None;
    let mode = t.weighted(&[3, 6, 2, 2, 2, 1]);
    let mut files = match mode {
        0 => vec![(format!("main.{}", syn.ext()), soup(t, syn))],
        1 => generated(t, syn, false),
        2 => generated(t, syn, true),
        3 => vec![(format!("main.{}", syn.ext()), data_soup(t, syn))],
        4 => file_graph(t, syn),
        _ => {
            let n = t.below(60);
            let s: String = (0..n).filter_map(|_| char::from_u32(match t.below(4) {
                0 => t.below(128) as u32,
                1 => t.below(0x800) as u32,
                2 => t.below(0x11_0000) as u32,
                _ => 0x20 + t.below(0x5f) as u32,
            })).collect();
            vec![(format!("main.{}", syn.ext()), s)]
        }
    };
    if mode == 1 || (mode > 1 && t.chance(1, 4)) {
        let other = if t.chance(1, 4) { generated(t, syn, false).swap_remove(0).1 } else { files[0].1.clone() };
        let i = t.below(files.len());
        if mode == 1 {
            edited = Some(i);
        }
        for _ in 0..t.range(1, 4) {
            edit(t, &mut files[i].1, &other, tokens);
        }
    }
    // something in front of everything else, so that positions are not those of the characters
    if mode < 4 && t.chance(1, 3) {
        let i = edited.unwrap_or_else(|| t.below(files.len()));
        let x = match syn {
            Syn::Rnc => *t.pick(&["# é😀\n", "\u{feff}", "#\r\n", "# \u{2028}\n"]),
            Syn::Rng => *t.pick(&["<!-- é😀 -->", "\u{feff}", "<?p é?>\r\n"]),
        };
        files[i].1.insert_str(0, x);
    }
    cx.note(show_files(&files));
    cx.eval();
    let shown = |m: String| format!("{m}\n{}", show_files(&files));
    match load(&files, syn, edited).map_err(shown)? {
        None => cx.class(&format!("{}: accepted", syn.ext())),
        Some(k) => {
            cx.class(&format!("{}: {k}", syn.ext()));
            cx.nontrivial(&files);
            cx.sample(|| format!("{k}\n{}", show_files(&files)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ deep nesting

const XRNG: &str = "xmlns=\"http://relaxng.org/ns/structure/1.0\"";

fn nested(n: usize) -> Vec<(Syn, String)> {
    let r = |s: &str| s.repeat(n);
    let c = |s: String| (Syn::Rnc, s);
    let x = |s: String| (Syn::Rng, s);
    vec![
        c(format!("element a {{ {}empty{} }}", r("("), r(")"))),
        c(format!("{}empty{}", r("element a { "), r(" }"))),
        c(format!("element a {{ {}empty{} }}", r("(text | "), r(")"))),
        c(format!("element a {{ {}empty{} }}", r("("), r(")*"))),
        c(format!("element a {{ {}empty{} }}", r("("), r("|text)*"))),
        c(format!("element {}a{} {{ empty }}", r("("), r(")"))),
        c(format!("element {}a{} {{ empty }}", r("(a|"), r(")"))),
        c(format!("[ {}{} ] element a {{ empty }}", r("a:b [ "), r("]"))),
        c(format!("{}start = element a {{ empty }}{}", r("grammar { start = "), r(" }"))),
        c(format!("{}start = element a {{ empty }}{}", r("div { "), r(" }"))),
        c(format!("element a {{ {}xsd:int{} }}", r("xsd:int - ("), r(")"))),
        c(format!("element a {{ {}'x' }}", r("'x' ~ "))),
        c(format!("element a {{ {}empty }}", r("empty, "))),
        c(format!("element a {{ {}empty }}", r("empty | "))),
        c(format!("element a {{ {}", r("("))),
        c(r("element a { ")),
        c(r("grammar { start = ")),
        c(r("div { ")),
        c(format!("[ {}", r("a:b [ "))),
        c(format!("element {}", r("("))),
        c(format!("element {}", r("* - ("))),
        c(format!("element a {{ {}", r("list { "))),
        c(format!("element a {{ {}", r("attribute a { "))),
        c(format!("element a {{ {}", r("mixed { "))),
        c(format!("element a {{ {}empty ,{} }}", r("("), r(")"))),
        c(format!("element a {{ {}{} }}", r("("), r(")"))),
        c(format!("element a {{ {}a | b , c{} }}", r("("), r(")"))),
        c(r("[")),
        c(r("\\")),
        c(r("\"")),
        c(format!("element a {{ \"{}\" }}", r("\\x{61}"))),
        c(format!("element a {{ xsd:string {{ pattern = \"{}a{}\" }} }}", r("("), r(")"))),
        x(format!("{}<empty/>{}", r("<element name=\"a\">"), r("</element>")).replacen("<element", &format!("<element {XRNG}"), 1)),
        x(format!("<element {XRNG} name=\"a\">{}<empty/>{}</element>", r("<group>"), r("</group>"))),
        x(format!("<element {XRNG} name=\"a\">{}<empty/>{}</element>", r("<oneOrMore>"), r("</oneOrMore>"))),
        x(format!("<element {XRNG}>{}<name>a</name>{}<empty/></element>", r("<choice>"), r("</choice>"))),
        x(format!("<grammar {XRNG}>{}<start><element name='a'><empty/></element></start>{}</grammar>", r("<div>"), r("</div>"))),
        x(format!("<grammar {XRNG}>{}<start><element name='a'><empty/></element></start>{}</grammar>", r("<start><grammar>"), r("</grammar></start>"))),
        x(format!("<element {XRNG} name=\"a\">{}{}<empty/></element>", r("<x xmlns=''>"), r("</x>"))),
        x(format!("<element {XRNG} name=\"a\">{}</element>", r("<empty/>"))),
        x(r("<a>")),
    ]
}

fn on_usual_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap().join())
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
}

fn main_file(syn: Syn, text: &str) -> Vec<(String, String)> {
    vec![(format!("main.{}", syn.ext()), text.to_string())]
}

/// used as a process of its own: `deep <number> <depth>`
pub fn deep(case: usize, n: usize) {
    let (syn, text) = nested(n).swap_remove(case);
    on_usual_stack(move || {
        let _ = sut::compile(main_file(syn, &text), syn);
    });
}
fn overflows(case: usize, n: usize) -> CaseResult {
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["deep", &case.to_string(), &n.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    if st.success() { Ok(()) } else { Err(format!("loading {} characters of schema ends with {st}", nested(n)[case].1.len())) }
}
fn known_deep() -> CaseResult {
    overflows(0, 20000)
}
fn known_long() -> CaseResult {
    overflows(12, 20000)
}

fn fixed(cx: &mut Cx) -> CaseResult {
    for n in [1, 3, 30, 500] {
        for (syn, text) in nested(n) {
            cx.eval();
            cx.note(text.clone());
            let files = main_file(syn, &text);
            let r = on_usual_stack(move || load(&files, syn, Some(0)));
            if let Err(m) = r {
                let mut text = text;
                text.truncate(2000);
                return Err(format!("{m}\n{text}"));
            }
        }
    }
    let rnc: &[&str] = &[
        "", " ", "#", "# c", "\u{feff}", "start", "start =", "a", "\"", "\"\"\"", "'''x", "\\x{110000}", "\\x{D800}", "element a { \"\\x{110000}\" }", "element a { \"\\x{FFFFFFFFFFFFFFFFF}\" }", "namespace = ", "default", "datatypes",
        "element a { xsd:string { length = \"99999999999999999999999\" } }", "element a { xsd:int { minInclusive = \"\" } }", "start |= element a { empty }", "start = element a { empty } start &= element b { empty }", "element a { parent b }",
        "include \"\"", "include \".\"", "include \"..\"", "external \"main.rnc\"", "include \"main.rnc\"", "grammar { include \"main.rnc\" }", "element a { external \"main.rnc\" }", "x = x", "start = x x = x", "start = x x = y y = x",
        "element é:b { empty }", "[ é ] element a { empty }", "## é\nelement a { zzé }", "namespace xml = \"urn:x\" element a { empty }", "namespace xmlns = \"urn:x\" element a { empty }", "namespace a = inherit element a:b { empty }",
    ];
    for s in rnc {
        cx.eval();
        cx.note(s.to_string());
        load(&main_file(Syn::Rnc, s), Syn::Rnc, None).map_err(|m| format!("{m}\n{s}"))?;
    }
    let sets: &[&[(&str, &str)]] = &[
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { empty, empty, empty, parent x }")],
        &[("main.rnc", "# a long comment, so that every position in the other file is one in this\ninclude \"i.rnc\""), ("i.rnc", "start = element a { parent x }")],
        &[("main.rnc", "include \"i.rnc\" { start = element a { parent xyz } } # end"), ("i.rnc", "start = empty")],
        &[("main.rnc", "start = external \"i.rnc\""), ("i.rnc", "element a { empty, empty, empty, parent x }")],
        &[("main.rnc", "start = external \"i.rnc\""), ("i.rnc", "grammar { include \"j.rnc\" }"), ("j.rnc", "start = element a { empty, empty, empty, empty, empty, nosuch }")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { empty, empty, empty, empty, xsd:nosuch }")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { empty, empty, empty, empty, zz:b }")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { b } b = empty, empty, empty, b")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { b } b = empty, empty, empty, c c = empty, empty, empty, b")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { b } # comment comment\nb = empty\nb = text")],
        &[("main.rnc", "include \"i.rnc\" # comment comment comment\nb = empty"), ("i.rnc", "start = element a { b } b = empty")],
        &[("main.rnc", "b |= empty include \"i.rnc\""), ("i.rnc", "start = element a { b } # comment comment comment\nb &= empty")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { attribute b { empty, element c { empty } } }")],
        &[("main.rnc", "include \"i.rnc\""), ("i.rnc", "start = element a { attribute b { xsd:string { minLength = \"-1\" } } }")],
    ];
    for files in sets {
        cx.eval();
        let files: Vec<(String, String)> = files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        cx.note(show_files(&files));
        match load(&files, Syn::Rnc, None).map_err(|m| format!("{m}\n{}", show_files(&files)))? {
            Some(_) => {}
            None => return Err(format!("an error is expected\n{}", show_files(&files))),
        }
    }
    let g = format!("<grammar {XRNG}>");
    let e = format!("<element {XRNG} name='a'>");
    let rng: &[String] = &[
        "".into(),
        " ".into(),
        "<".into(),
        "<a".into(),
        "<a/>".into(),
        "\u{feff}<a/>".into(),
        format!("<grammar {XRNG}/>"),
        format!("<element {XRNG}/>"),
        format!("<element {XRNG} name=''/>"),
        format!("<element {XRNG} name='a'/>"),
        format!("<start {XRNG}/>"),
        format!("{g}<start/></grammar>"),
        format!("{g}<start name='x'><ref/></start></grammar>"),
        format!("{g}<start><ref name=''/></start></grammar>"),
        format!("{g}<start combine='x'><text/></start></grammar>"),
        format!("{g}<define/></grammar>"),
        format!("{g}<include/></grammar>"),
        format!("{g}<include href=''/></grammar>"),
        format!("{g}<include href='main.rng'/></grammar>"),
        format!("{g}<é/></grammar>"),
        format!("{e}<data/></element>"),
        format!("{e}<data type=''/></element>"),
        format!("{e}<value type='é'/></element>"),
        format!("{e}<data type='string'><param/></data></element>"),
        format!("{e}<param name='x'/></element>"),
        format!("{e}<except/></element>"),
        format!("{e}<list/></element>"),
        format!("{e}<attribute/></element>"),
        format!("{e}<attribute name='a:b'/></element>"),
        format!("{e}<attribute><name/></attribute></element>"),
        format!("{e}<choice/></element>"),
        format!("{e}<externalRef/></element>"),
        format!("{e}<externalRef href='main.rng'/></element>"),
        format!("{e}<parentRef name='x'/></element>"),
        format!("{e}é</element>"),
        format!("{e}<empty>é</empty></element>"),
        format!("<!-- é😀 -->{e}<nosuch/></element>"),
        format!("<!DOCTYPE a [<!ENTITY x '&x;'>]>{e}&x;</element>"),
        format!("<!DOCTYPE a [<!ENTITY x '&y;&y;&y;&y;'><!ENTITY y '&z;&z;&z;&z;'><!ENTITY z 'xxxx'>]>{e}<value>&x;</value></element>"),
    ];
    for s in rng {
        cx.eval();
        cx.note(s.to_string());
        load(&main_file(Syn::Rng, s), Syn::Rng, None).map_err(|m| format!("{m}\n{s}"))?;
    }
    Ok(())
}
