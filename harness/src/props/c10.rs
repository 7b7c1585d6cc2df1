//! C10: validating any text ends in a verdict, with an error that points at its cause.

use super::c08::{self, content_places};
use super::c16::{first_dead, join_text};
use super::common::*;
use crate::ast::simplify;
use crate::budget;
use crate::doc::{self, Ev, EvKind};
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx, InLibrary, Prop};
use crate::schemagen::{self, FULL};
use crate::sut::{self, Schema, Syn};
use crate::tape::Tape;
use relaxng_validator::{Validator, ValidatorError};
use xmlparser::{ElementEnd, Token, Tokenizer};

pub const PROP: Prop = Prop {
    id: "C10",
    tape_len: 800,
    quick: 90000,
    thorough: 2250000,
    run,
    fixed,
    rule: "distinct (schema, text) pairs for which an error was reported",
    assumptions: &[
        "texts of up to some thousand characters, elements nested up to 400 levels deep",
        "validating a text makes at most 200 million allocations (usual are some thousands)",
        "errors which the tokenizer itself reports are only required to point to the position it gives",
    ],
    known: &[],
    shrink_iters: 3000,
};

const WORK: u64 = 200_000_000;

fn tokens(doc: &str) -> Vec<Result<Token<'_>, xmlparser::Error>> {
    let mut v = vec![];
    for t in Tokenizer::from(doc) {
        let stop = t.is_err();
        v.push(t);
        if stop {
            break;
        }
    }
    v
}
fn range(t: &Token) -> (usize, usize) {
    let s = match t {
        Token::Declaration { span, .. }
        | Token::ProcessingInstruction { span, .. }
        | Token::Comment { span, .. }
        | Token::DtdStart { span, .. }
        | Token::EmptyDtd { span, .. }
        | Token::DtdEnd { span, .. }
        | Token::EntityDeclaration { span, .. }
        | Token::ElementStart { span, .. }
        | Token::Attribute { span, .. }
        | Token::ElementEnd { span, .. }
        | Token::Cdata { span, .. } => span,
        Token::Text { text } => text,
    };
    (s.start(), s.end())
}
fn offset(doc: &str, row: u32, col: u32) -> usize {
    let mut start = 0;
    for _ in 1..row {
        match doc[start..].find('\n') {
            Some(i) => start += i + 1,
            None => return doc.len(),
        }
    }
    let line = doc[start..].find('\n').map_or(doc.len(), |i| start + i);
    doc[start..line].char_indices().nth(col as usize - 1).map_or(line, |(i, _)| start + i)
}

/// what the error may point at, if it's reported for the token with this number
fn allowed(doc: &str, toks: &[Result<Token, xmlparser::Error>], i: usize, e: &ValidatorError, at: (usize, usize)) -> Result<(), String> {
    let text = &doc[at.0..at.1];
    let tok = match toks.get(i) {
        Some(Ok(t)) => t,
        Some(Err(err)) => {
            let p = offset(doc, err.pos().row, err.pos().col);
            return if at == (p, p) { Ok(()) } else { Err(format!("the tokenizer's error is at {p}")) };
        }
        None => return if at.0 == doc.len() { Ok(()) } else { Err("the document ends too early, the error must be at its end".into()) },
    };
    let ok = |i: usize| toks[i].as_ref().unwrap();
    // the constructs which are complete with this token
    let mut v = vec![range(tok)];
    match tok {
        Token::ElementEnd { end: ElementEnd::Open | ElementEnd::Empty, .. } => {
            let mut k = i;
            while k > 0 {
                k -= 1;
                v.push(range(ok(k)));
                if let Token::ElementStart { .. } = ok(k) {
                    break;
                }
            }
        }
        Token::ElementEnd { .. } | Token::ElementStart { .. } => {
            let mut k = i;
            while k > 0 {
                k -= 1;
                match ok(k) {
                    Token::Text { .. } | Token::Cdata { .. } => v.push(range(ok(k))),
                    Token::Comment { .. } | Token::ProcessingInstruction { .. } => {}
                    _ => break,
                }
            }
        }
        _ => {}
    }
    let inside = |w: &(usize, usize)| w.0 <= at.0 && at.1 <= w.1;
    match e {
        ValidatorError::NotAllowed(_) => {
            if at.0 == at.1 && !matches!(tok, Token::Text { .. }) {
                return Err("nothing is marked".into());
            }
            if v.iter().any(inside) { Ok(()) } else { Err(format!("what was read last is at {v:?}")) }
        }
        ValidatorError::UndefinedNamespacePrefix { .. } => {
            if v.iter().any(inside) && !text.is_empty() && doc[at.1..].starts_with(':') { Ok(()) } else { Err(format!("{text:?} is not the prefix of a name in this tag {v:?}")) }
        }
        ValidatorError::UndefinedEntity { name, .. } => {
            if text != *name || !doc[..at.0].ends_with('&') || !doc[at.1..].starts_with(';') {
                return Err(format!("this is not a reference to {name:?}"));
            }
            // in this token or in the value of an entity
            let decl = toks[..i].iter().any(|t| matches!(t, Ok(t @ Token::EntityDeclaration { .. }) if inside(&range(t))));
            if v.iter().any(inside) || decl { Ok(()) } else { Err(format!("what was read last is at {v:?}")) }
        }
        ValidatorError::InvalidOrUnclosedEntity { .. } => {
            let decl = toks[..i].iter().any(|t| matches!(t, Ok(t @ Token::EntityDeclaration { .. }) if inside(&range(t))));
            if v.iter().any(inside) || decl { Ok(()) } else { Err(format!("what was read last is at {v:?}")) }
        }
        ValidatorError::Xml(_) => Err("the tokenizer reports no error here".into()),
    }
}

/// validates the text to its end, also behind errors; what is first reported, and where
fn drive(schema: &Schema, doc: &str, after: bool) -> Result<Option<(&'static str, (usize, usize))>, String> {
    let toks = tokens(doc);
    let _g = InLibrary::enter();
    let mut v = Validator::new(schema.clone(), Tokenizer::from(doc));
    let mut first = None;
    let mut step = 0;
    loop {
        match v.validate_next() {
            None => break,
            Some(Ok(())) => {}
            Some(Err(e)) => {
                let d = sut::diag_of(&v, &e, step, doc);
                for (a, b) in &d.spans {
                    if a > b || *b > doc.len() || !doc.is_char_boundary(*a) || !doc.is_char_boundary(*b) {
                        return Err(format!("the position {a}..{b} of the error {} is not in the text", d.err.debug));
                    }
                }
                let Some(main) = d.spans.first() else { return Err(format!("the error {} has no position", d.err.debug)) };
                if !d.rendered.contains("error: ") || d.messages.is_empty() {
                    return Err(format!("the error {} is shown as {:?}", d.err.debug, d.rendered));
                }
                if first.is_none() {
                    allowed(doc, &toks, step, &e, *main).map_err(|m| format!("the error {} points at {main:?} {:?}, but {m}", d.err.debug, &doc[main.0..main.1]))?;
                    first = Some((d.err.kind, *main));
                    if !after {
                        break;
                    }
                }
            }
        }
        step += 1;
        // one more to see that the text ends too early
        if step > toks.len() + 1 {
            return Err(format!("{step} steps have been made for {} tokens", toks.len()));
        }
    }
    Ok(first)
}

const TOKENS: &[&str] = &[
    "<", ">", "</", "/>", "\"", "'", "=", "&", ";", "&lt;", "&amp;", "&#65;", "&#x1F600;", "&#0;", "&e;", "&f;", "&zz;", "&", "&#", "&#x", "&;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml version='1.0'?>", "<!DOCTYPE a>",
    "<!DOCTYPE a [", "]>", "<!ENTITY e 'é'>", "<!ENTITY f '&e;&e;'>", "<!ENTITY % e 'x'>", "<!ENTITY e SYSTEM 'x'>", "<!ELEMENT a (b)>", "<!ATTLIST a b CDATA 'x'>", "<!NOTATION n SYSTEM 'x'>", "%e;", "<a>", "</a>", "<b/>", "<p:a>",
    " x='y'", " a=\"é\"", " xmlns='urn:a'", " xmlns:p='urn:a'", " p:a='1'", " xml:lang='en'", " xmlns:xml='x'", " xmlns=''", "a", "b", ":", "é", "😀", "\u{301}", "\u{feff}", "\u{0}", "\u{1}", "\n", "\r\n", "\r", "\t", " ", "\u{85}", "\u{2028}", "1", "-1.5", "true",
];
fn boundary(t: &mut Tape, s: &str) -> usize {
    let mut i = t.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
fn edit(t: &mut Tape, s: &mut String) {
    let a = boundary(t, s);
    let mut b = (a + 1 + t.below(5)).min(s.len());
    while !s.is_char_boundary(b) {
        b += 1;
    }
    match t.below(8) {
        0 | 1 => s.insert_str(a, t.pick(TOKENS)),
        2 => s.replace_range(a..b, ""),
        3 => s.replace_range(a..b, t.pick(TOKENS)),
        4 => s.truncate(a),
        5 => {
            let c = boundary(t, s);
            let x = s[a.min(c)..a.max(c)].to_string();
            if x.len() < 300 {
                let at = boundary(t, s);
                s.insert_str(at, &x);
            }
        }
        6 => {
            let c = boundary(t, s);
            s.replace_range(a.min(c)..a.max(c), "");
        }
        _ => {
            let places: &[&[&str]] = &[c08::BAD_CONTENT, c08::BAD_REFS, c08::BAD_ATTR, c08::BAD_AFTER, c08::BAD_BEFORE];
            let l = *t.pick(places);
            s.insert_str(a, t.pick(l));
        }
    }
}
fn soup(t: &mut Tape) -> String {
    let n = t.range(0, 30);
    let mut s = String::new();
    if t.chance(1, 3) {
        s.push_str("<!DOCTYPE a [<!ENTITY e 'é'><!ENTITY f '&e;&e;'>]>");
    }
    if t.chance(1, 2) {
        s.push_str("<a xmlns:p='urn:a'>");
    }
    for _ in 0..n {
        s.push_str(t.pick(TOKENS));
    }
    s
}

/// one fault whose place is known in a document which is valid without it: new text, where the
/// fault is, kinds of error
fn known_fault(t: &mut Tape, s: &str, evs: &[Ev]) -> Option<(String, (usize, usize), &'static [&'static str], &'static str)> {
    let ins = |at: usize, x: &str| format!("{}{x}{}", &s[..at], &s[at..]);
    let starts: Vec<&Ev> = evs.iter().filter(|e| e.kind == EvKind::Start).collect();
    let start = starts[t.below(starts.len())];
    let at_attr = start.attrs.iter().map(|a| a.1).max().unwrap_or(start.name.1);
    let at_attr = if t.chance(1, 2) { start.name.1 } else { at_attr };
    let places = content_places(s, evs);
    let place = (!places.is_empty()).then(|| places[t.below(places.len())]);
    const ENT: &[&str] = &["UndefinedEntity"];
    const REF: &[&str] = &["InvalidOrUnclosedEntity"];
    const PRE: &[&str] = &["UndefinedNamespacePrefix"];
    const NOT: &[&str] = &["NotAllowed"];
    match t.below(8) {
        0 => {
            let p = place?;
            Some((ins(p, "&nösuch;"), (p + 1, p + 8), ENT, "undefined entity in content"))
        }
        1 => {
            let x = format!(" zz='{}&nösuch;'", t.pick(&["", "é", "&amp;", "&#x10FFFF;"]));
            let k = at_attr + x.find("&n").unwrap() + 1;
            Some((ins(at_attr, &x), (k, k + 7), ENT, "undefined entity in an attribute"))
        }
        2 => {
            let p = place?;
            let x = *t.pick(&["&#0;", "&#xD800;", "&#xZ;", "&#;", "&#1114112;"]);
            Some((ins(p, x), (p, p + x.len()), REF, "malformed reference in content"))
        }
        3 => {
            let x = format!(" zz='{}&#0;'", t.pick(&["", "é", "&amp;", "&#x10FFFF;"]));
            let k = at_attr + x.find("&#0").unwrap();
            Some((ins(at_attr, &x), (k, k + 4), REF, "malformed reference in an attribute"))
        }
        4 => Some((ins(at_attr, " nösuch:zz='é'"), (at_attr + 1, at_attr + 8), PRE, "undefined prefix of an attribute")),
        5 => {
            // both attributes are complete
            let x = " zz='é' zz='é'";
            let k = at_attr + x.len() / 2;
            Some((ins(at_attr, x), (k, at_attr + x.len()), NOT, "attribute written twice"))
        }
        6 => {
            // an unknown prefix of the start tag
            let name = &s[start.name.0..start.name.1];
            if name.contains(':') {
                return None;
            }
            Some((ins(start.name.0, "nösuch:"), (start.name.0, start.name.0 + 7), PRE, "undefined prefix of an element"))
        }
        _ => {
            let ends: Vec<&Ev> = evs.iter().filter(|e| e.kind == EvKind::End && s[e.span.0..].starts_with("</")).collect();
            if ends.is_empty() {
                return None;
            }
            let e = ends[t.below(ends.len())];
            let k = e.span.0 + 2;
            Some((ins(k, "zz"), (e.span.0, e.span.1 + 2), NOT, "another name in the end tag"))
        }
    }
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let (sch, names) = schemagen::schema(t, FULL);
    let g = simplify(&sch);
    let syn = if t.chance(1, 4) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    let shown = show_files(&files);
    cx.note(shown.clone());
    let schema = must_compile(&files, syn)?;
    let sat = g.satisfiable();
    for _ in 0..4 {
        let (mut d, _) = near_doc(t, &g, &names, 14);
        join_text(&mut d);
        let style = if t.chance(1, 3) { doc::CANONICAL } else { doc::VARIED };
        let (mut text, evs) = doc::print(&d, t, style);
        let mut expect: Option<((usize, usize), &[&str], &str)> = None;
        match t.weighted(&[3, 3, 5, 2, 1]) {
            0 if sat => match first_dead(&g, &d, &evs) {
                Some(Some(k)) => expect = Some((k.span(), &["NotAllowed"], k.class())),
                Some(None) => {
                    cx.eval();
                    if let Some((kind, at)) = drive_noted(cx, &schema, &text, &shown, true)? {
                        return Err(format!("the document is valid, but the library reports {kind} at {at:?}\n{shown}--- document\n{text}"));
                    }
                    cx.class("valid document");
                    continue;
                }
                None => {}
            },
            1 => {
                if Matcher::valid(&g, &d) == Some(true) {
                    if let Some((x, at, kinds, what)) = known_fault(t, &text, &evs) {
                        text = x;
                        expect = Some((at, kinds, what));
                    }
                }
            }
            3 => text = soup(t),
            4 => {
                let n = t.below(60);
                text = (0..n)
                    .filter_map(|_| {
                        char::from_u32(match t.below(4) {
                            0 => t.below(128) as u32,
                            1 => t.below(0x800) as u32,
                            2 => t.below(0x11_0000) as u32,
                            _ => *t.pick(&['<', '>', '/', '&', ';', '#', 'a', '"', '\'', '=', ' ']) as u32,
                        })
                    })
                    .collect();
            }
            _ => {
                for _ in 0..t.range(1, 3) {
                    edit(t, &mut text);
                }
            }
        }
        cx.eval();
        let got = drive_noted(cx, &schema, &text, &shown, true)?;
        if let Some((at, kinds, what)) = expect {
            let ok = matches!(got, Some((k, g)) if kinds.contains(&k) && at.0 <= g.0 && g.1 <= at.1);
            if !ok {
                return Err(format!("the fault ({what}) is at {at:?} {:?}, but the library reports {got:?}\n{shown}--- document\n{text}", text.get(at.0..at.1)));
            }
            cx.class(what);
        }
        match got {
            None => cx.class("edited document, still valid"),
            Some((k, at)) => {
                cx.nontrivial(&(&shown, &text));
                cx.class(k);
                cx.sample(|| format!("{k} at {at:?}\n{shown}--- document\n{text}"));
            }
        }
    }
    Ok(())
}

fn drive_noted(cx: &mut Cx, schema: &Schema, text: &str, shown: &str, after: bool) -> Result<Option<(&'static str, (usize, usize))>, String> {
    cx.note(format!("{shown}--- document\n{text}"));
    let (r, _) = budget::within(WORK, || drive(schema, text, after));
    r.map_err(|m| format!("{m}\n{shown}--- document\n{text}"))
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let schemas = [
        "element a { empty }",
        "start = any any = element * { (attribute * { text } | any | text)* }",
        "namespace p = \"urn:a\" element p:a { attribute p:b { xsd:int }?, (element p:c { text } & element d { list { xsd:int+ } })*, text }",
        "element a { xsd:string { maxLength = \"3\" } | \"é😀\" }",
        "start = a a = element a { a? }",
    ];
    let mut docs: Vec<String> = [
        "", " ", "\n", "\r\n", "é", "<", "<a", "<a>", "<a/>", "<a/>\n", "<a/>\r\n", "\u{feff}<a/>", "<a>\n\n", "<a>\r\n\r\n\n", "<a>é\n😀", "<a>\n  <é", "<a>\né<", "<a>é&;</a>", "<a>é&", "<a b='é&", "<a b='é&c'/>", "<a é='😀' é='😀'/>", "<é:a/>",
        "<a é:b=''/>", "<a xmlns:é='urn:é'><é:b/><ö:c/></a>", "<!DOCTYPE a [<!ENTITY é '&é;'>]><a>&é;</a>", "<!DOCTYPE a [<!ENTITY é '&ö;'>]><a>&é;</a>", "<!DOCTYPE a [<!ENTITY é '&#0;'>]><a>&é;</a>", "<!DOCTYPE a [<!ENTITY e '&'>]><a b='&e;'/>",
        "<!DOCTYPE a [\n<!ENTITY e SYSTEM 'é'>]><a/>", "<a></a></a>", "</a>", "<a/></a>", "<a/><b/>", "<a/>x", "<a/>&x;", "<a></b></a></c></d>", "<a><b></a></b>", "<?xml version='1.0'?><?xml version='1.0'?>", "<?XML é?><a/>", "<:a b=''/>", "<:a>x</:a>", "<a>x<b/>y</a><c> </c>z", "x<a/>y<b/>", "<a><![CDATA[é]]>]]></a>",
        "<a>\u{1}</a>", "<a>\u{0}</a>", "<a>\u{fffe}</a>", "<a><b><c/></b></a><a>", "<p:a xmlns:p='urn:a' p:b='é'/>", "<p:a xmlns:p='urn:a'><d> 1 é 2 </d></p:a>", "<p:a xmlns:p='urn:a'><p:c>\r\r\n</p:c>é<p:d/></p:a>",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    docs.push(format!("{}{}", "<a>".repeat(400), "</a>".repeat(400)));
    docs.push(format!("{}é{}", "<a>".repeat(400), "</a>".repeat(400)));
    docs.push("<a>".repeat(400));
    docs.push(format!("<a>{}</a>", "<b/>é".repeat(400)));
    docs.push(format!("<a {}/>", (0..300).map(|i| format!("é{i}='' ")).collect::<String>()));
    docs.push(format!("<!DOCTYPE a [{}]><a>&e0;</a>", (0..300).map(|i| format!("<!ENTITY e{i} '&e{};&e{};'>", i + 1, i + 1)).collect::<String>()));
    docs.push(format!("<!DOCTYPE a [{}<!ENTITY e9 'é'>]><a b='&e0;'>&e0;</a>", (0..9).map(|i| format!("<!ENTITY e{i} '{}'>", format!("&e{};", i + 1).repeat(10))).collect::<String>()));
    docs.push(format!("<a>{}</a>", "&".repeat(300)));
    docs.push(format!("<a>{}", "<!--".repeat(300)));
    docs.push(format!("<a>{}</a>", "<![CDATA[]]>".repeat(300)));
    docs.push(format!("<a b='{}'/>", "&#x41;".repeat(300)));
    for s in schemas {
        let schema = sut::compile_rnc(s).map_err(|e| format!("{s}: {e:?}"))?;
        for d in &docs {
            cx.eval();
            drive_noted(cx, &schema, d, s, true)?;
        }
    }
    // a chain of entities, on the stack which the main thread of a program usually has
    let chain = format!("<!DOCTYPE a [{}<!ENTITY e90000 'x'>]><a b='&e0;'>&e0;</a>", (0..90000).map(|i| format!("<!ENTITY e{i} '&e{};'>", i + 1)).collect::<String>());
    std::thread::scope(|s| {
        let f = || {
            let schema = sut::compile_rnc("element a { attribute b { text }, text }").ok();
            schema.map(|s| matches!(sut::validate(&s, &chain), sut::Verdict::Endless))
        };
        match std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap().join() {
            Ok(Some(false)) => Ok(()),
            r => Err(format!("a chain of entities does not end in a verdict: {r:?}")),
        }
    })?;
    // schema, document, kind, what the error points at
    let rows: &[(&str, &str, &str, &str)] = &[
        ("element a { element b { empty } }", "<a>é<b/></a>", "NotAllowed", "é"),
        ("element a { element b { empty } }", "<a>é<!-- -->x<b/></a>", "NotAllowed", "é"),
        ("element a { element b { empty } }", "<a>\n  <b é='1'/></a>", "NotAllowed", "é='1'"),
        ("element a { text }", "<a>é&ö;</a>", "UndefinedEntity", "ö"),
        ("element a { text }", "<a>é&#xD800;</a>", "InvalidOrUnclosedEntity", "#xD800"),
        ("element a { text }", "<é:a/>", "UndefinedNamespacePrefix", "é"),
        ("element a { text }", "<a>é\né<</a>", "Xml", ""),
        ("element a { text }", "<a>é\né", "Xml", ""),
    ];
    for (s, d, kind, at) in rows {
        cx.eval();
        let schema = sut::compile_rnc(s).map_err(|e| format!("{s}: {e:?}"))?;
        let got = drive_noted(cx, &schema, d, s, false)?;
        if !matches!(got, Some((k, (a, b))) if k == *kind && &d[a..b] == *at) {
            return Err(format!("{kind} at {at:?} is expected, but the library reports {got:?}\n{s}\n{d}"));
        }
    }
    Ok(())
}
