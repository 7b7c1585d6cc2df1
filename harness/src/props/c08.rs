//! C08: a document which is not well-formed is never accepted.

use super::common::*;
use crate::ast::*;
use crate::doc::{self, DElem, Ev, EvKind, Names};
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL};
use crate::sut::{self, Schema, Syn, Verdict};
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C08",
    tape_len: 700,
    quick: 100000,
    thorough: 2500000,
    run,
    fixed,
    rule: "distinct ill-formed texts (one fault in a document which is valid without it)",
    assumptions: &["entities whose replacement text contains markup are left out", "external subsets and parameter entities are left out"],
    known: &[],
    shrink_iters: 3000,
};

const PERMISSIVE: &str = "start = any any = element * { (attribute * { text } | any | text)* }";

/// name and new text
pub type Fault = (&'static str, String);

fn pick_ev<'a>(t: &mut Tape, evs: &'a [Ev], k: EvKind) -> Option<&'a Ev> {
    let v: Vec<&Ev> = evs.iter().filter(|e| e.kind == k).collect();
    if v.is_empty() { None } else { Some(v[t.below(v.len())]) }
}
fn ins(s: &str, at: usize, x: &str) -> String {
    format!("{}{x}{}", &s[..at], &s[at..])
}
/// whether the rest of the document could complete the text
fn completed(x: &str, rest: &str) -> bool {
    let text = &rest[..rest.find(['<', '&']).unwrap_or(rest.len())];
    let open = |start: &str, end: &str| x.starts_with(start) && !x[start.len()..].contains(end) && rest.contains(end);
    open("<!-", "-->") || open("<![CDATA", "]]>") || open("<?", "?>") || x.starts_with('&') && !x.ends_with(';') && text.contains(';') || x.contains(['\'', '"']) && text.contains("/>") || x == "<!" || x == "<a" && text.contains("/>")
}

/// places within element content: behind start tags, before end tags and around text
pub fn content_places(s: &str, evs: &[Ev]) -> Vec<usize> {
    let mut v = vec![];
    for e in evs {
        match e.kind {
            EvKind::Start => {
                if s[..e.span.1].ends_with('>') && !s[..e.span.1].ends_with("/>") {
                    v.push(e.span.1);
                }
                if !e.path.is_empty() {
                    v.push(e.span.0);
                }
            }
            EvKind::Text => v.extend([e.span.0, e.span.1]),
            EvKind::End => {
                if s[e.span.0..].starts_with("</") {
                    v.push(e.span.0);
                }
                if !e.path.is_empty() {
                    v.push(e.span.1);
                }
            }
        }
    }
    v
}

pub const BAD_REFS: &[&str] = &[
    "&", "& ", "&;", "&#;", "&#x;", "&#xg;", "&#0;", "&#x0;", "&#xD800;", "&#x110000;", "&#xFFFE;", "&#1;", "&#x1F;", "&#X41;", "&#-65;", "&#+65;", "&#x+41;", "&1;", "&-a;", "&a b;", "& amp;",
    "&amp ;", "&#6 5;", "&#99999999999999999999;", "&#x41", "&lt", "&&amp;", "&undefined;", "&AMP;", "&Lt;", "&nbsp;", "&#65 ;", "&# 65;", "&a:b;", "&.;",
];
/// ill-formed in element content
pub const BAD_CONTENT: &[&str] = &[
    "<", "< ", "<>", "</>", "<<a/>", "< a/>", "<a/ >", "<1/>", "<-a/>", "<.a/>", "<a", "<a ", "<a/", "<a b='c'", "<a b=c/>", "<a b/>", "<a b='c\"/>", "<a b=\"c'/>", "<a b='c'd='e'/>", "<a b=''''/>",
    "<a b='<'/>", "<a b='x<y/>'/>", "<a b='&'/>", "<a b='&#0;'/>", "<a b='1' b='2'/>", "<a b='1' b='1'/>", "<a b='' c='' b=''/>", "<a ='b'/>", "<a 1='b'/>", "<a b = />", "<a b='c' =/>", "<a></b>",
    "<a></A>", "<a><b></a></b>", "<a></a", "<a></ a>", "<a></a b='c'>", "<a></a/>", "</a>", "<a:b:c/>", "<:a/>", "<a:/>", "<p.q:a/>", "<undeclared:a/>", "<a undeclared:b='c'/>", "<a xmlns:zp='u:1'/><zp:b/>",
    "<a xmlns:p='u:1' xmlns:q='u:1' p:b='' q:b=''/>", "<a xmlns:p='u:1' xmlns:q='u:1' p:b='' c='' q:b=''/>", "<a xmlns:p=''/>", "<a xmlns:p='u:1' xmlns:p='u:2'/>", "<a xmlns='u:1' xmlns='u:1'/>",
    "<a xmlns:xml='u:1'/>", "<a xmlns:p='http://www.w3.org/XML/1998/namespace'/>", "<a xmlns='http://www.w3.org/XML/1998/namespace'/>", "<a xmlns:xmlns='u:1'/>",
    "<a xmlns:p='http://www.w3.org/2000/xmlns/'/>", "<a xmlns='http://www.w3.org/2000/xmlns/'/>", "<xmlns:a/>", "]]>", "a]]>b", "<!-- -- -->", "<!-- --->", "<!--->", "<!-->", "<!-", "<!", "<!a>", "<!-- ",
    "<!-- --", "<![CDATA[", "<![CDATA[ ]]", "<![CDATA[ ]] >", "<![CDATA [x]]>", "<![cdata[x]]>", "<![]>", "<!DOCTYPE a>", "<!ENTITY a 'b'>", "<?xml version='1.0'?>", "<?xml?>", "<?XML a?>", "<?Xml?>", "<?", "<??>", "<? a?>",
    "<?a", "<?a >", "<?1?>", "<?a'b'?>", "<a></:a>", "<:a></a>", "<:a></:a>", "\u{0}", "\u{1}", "\u{b}", "\u{1f}", "\u{fffe}", "\u{ffff}", "<!--\u{1}-->", "<![CDATA[\u{2}]]>", "<?a \u{3}?>", "<a b='\u{1}'/>", "<a\u{a0}b='c'/>", "<\u{d7}/>", "<a \u{b7}b=''/>",
    "<a b='c'\u{2003}d='e'/>", "<a b='&undefined;'/>", "<a\u{0}/>", "<a xmlns:1='u:1'/>", "<a xmlns:='u:1'/>", "<a b:c:d='' xmlns:b='u:1'/>", "<a :b=''/>", "<a b:='' xmlns:b='u:1'/>",
];
/// ill-formed inside a start tag, behind the name or an attribute
pub const BAD_ATTR: &[&str] = &[
    " b", " b=", " b=c", " b='c", " b=\"c'", " ='c'", " 1='c'", " <", " &", " b='<'", " b='&'", " b='&#0;'", " b='&x'", " undeclared:b='c'", " xx='1' xx='2'", " b:='c'", " :b='c'", " :xmlns='u:1'", " xmlns:='u:1'", " :xmlns=''", " xmlns:xmlns=''", " xmlns:a:b='u:1'", " xml:=''", " :xml=''", " xml:a:b=''", " XMLNS:k='u:9'", " Xml:k='u:9'", " xmlns :k='u:9'", " xmlns: k='u:9'", " xml :k=''", " b='\u{1}'", " /", " b='c'd='e'",
    " b ''", " xmlns:p9=''", " xmlns:xmlns='u:1'", " a:b:c=''", " xmlns:k='u:9' xmlns:l='u:9' k:zz='' l:zz=''", " xmlns:k='u:9' xmlns:l='u&#58;9' k:zz='' l:zz=''", " xmlns:k='http://www.w3.org/XML/1998/namespac&#101;'", " xmlns:k='http://www.w3.org&#x2f;2000/xmlns/'", " xmlns:xml='u&#58;9'", " b='&undefined;'", " \"b\"='c'", " ,", " b=`c`",
];
/// ill-formed behind the root element
pub const BAD_AFTER: &[&str] = &[
    "x", "&#32;", "&amp;", "<![CDATA[]]>", "<![CDATA[ ]]>", "<a/>", "<a></a>", "</a>", "<", "<!-- ", "<?xml version='1.0'?>", "<!DOCTYPE a>", "<?a", "]]>", "\u{1}", "\u{a0}", "<!--\u{1}-->", "<!-- -- -->", ">", "&undefined;", "<? ?>",
    "<a", "<!ENTITY a 'b'>", " x ", "<!-- -->x", "<?a?><a/>", "\u{feff}",
];
/// ill-formed before everything else
pub const BAD_BEFORE: &[&str] = &[
    "x", "&#32;", "&amp;", "<![CDATA[ ]]>", "</a>", "<", "<a>", "<!-- ", "<?a", "]]>", "\u{1}", "\u{a0}", "<!-- -- -->", ">", "<!DOCTYPE", "<!DOCTYPE>", "<!DOCTYPE a [>", "<!DOCTYPE a [<!ENTITY>]>", "<!DOCTYPE a [<!ENTITY b>]>",
    "<!DOCTYPE a [<!ENTITY b 'c]>", "<!DOCTYPE a [x]>", "<!DOCTYPE a [<b/>]>", "<!DOCTYPE a []", "<!DOCTYPE 1>", "<?xml?>", "<?xml version=1.0?>", "<?xml version='1.0'>", "<?xml encoding='UTF-8'?>",
    "<?xml version='1.0' standalone='maybe'?>", "<?xml version='1.0' standalone='yes' encoding='UTF-8'?>", "<?xml version='1.0' encoding='a b'?>", "<?xml version='2.0' x='y'?>", "<?xml version='1.0'encoding='UTF-8'?>", "<!ENTITY a 'b'>",
    "<!DOCTYPE a><!DOCTYPE a>", "<?xml version='1.0'?><?xml version='1.0'?>", "<!-- --><?xml version='1.0'?>", " <?xml version='1.0'?>", "<a/>", "<!DOCTYPE a [<!ENTITY b '&'>]>", "<!DOCTYPE a [<!ENTITY b '&#0;'>]>",
];

/// ill-formed within an internal subset
pub const BAD_DECL: &[&str] = &[
    "<!ENTITY zz 'a%b'>", "<!ENTITY zz '50%'>", "<!ENTITY zz \"%pe;\">", "<!ENTITY zz '%'>", "<!ENTITY zz '\u{1}'>", "<!ENTITY zz \"a\u{ffff}\">", "<!ENTITY zz 'a\u{8}b%'>", "<!ENTITY zz 'a&b'>", "<!ENTITY zz '&#xD800;'>", "<!ENTITY zz '&#x110000;'>",
    "<!ENTITY zz '&#0;'>", "<!ENTITY zz '&a b;'>", "<!ENTITY zz '&;'>", "<!ENTITY zz '&#;'>", "<!ENTITY zz '&#x;'>", "<!ENTITY zz '&#xG;'>", "<!ENTITY zz '&#1;'>", "<!ENTITY zz x>", "<!ENTITY zz>", "<!ENTITY 1zz 'x'>", "<!ENTITY zz 'x' 'y'>",
    "<!ENTITYzz 'x'>", "<!ENTITY zz'x'>", "<!entity zz 'x'>", "<!ENTITY zz SYSTEM>", "<!ENTITY zz PUBLIC 'x'>", "<!ENTITY zz \"x'>", "<!ENTITY 'x'>", "<!-- -- -->", "<!-- \u{1} -->", "<!-->", "<?xml version='1.0'?>", "<?p \u{1}?>", "<??>", "<zz/>", "text",
    "&amp;", "&#32;", "<![CDATA[]]>", "<!DOCTYPE a>", "<!BOGUS a>", "<!", "% pe", "\u{1}",
];

pub fn faults(t: &mut Tape, s: &str, evs: &[Ev]) -> Vec<Fault> {
    let mut out: Vec<Fault> = vec![];
    let root_start = evs[0].span.0;
    let root_end = evs.last().unwrap().span.1;
    // truncation
    let cuts: Vec<usize> = if s.len() < 120 && t.chance(1, 2) { (0..root_end).collect() } else { (0..8).map(|_| t.below(root_end)).collect() };
    for c in cuts {
        if s.is_char_boundary(c) {
            out.push(("truncated", s[..c].to_string()));
        }
    }
    for _ in 0..14 {
        let places = content_places(s, evs);
        let place = if places.is_empty() { None } else { Some(places[t.below(places.len())]) };
        match t.below(13) {
            12 => {
                let x = *t.pick(BAD_DECL);
                let after = match s.find("<!DOCTYPE").filter(|k| *k < root_start) {
                    Some(k) => s[k..root_start].find('[').map(|b| k + b + 1),
                    None => None,
                };
                out.push(("declaration", match after {
                    Some(b) => ins(s, b, x),
                    None => format!("<!DOCTYPE a [{x}<!ENTITY other 'x'>\n]>{}", &s[root_start..]),
                }));
            }
            0 | 1 => {
                let x = *t.pick(BAD_CONTENT);
                if let Some(p) = place.filter(|p| !completed(x, &s[*p..])) {
                    out.push(("malformed content", ins(s, p, x)));
                }
            }
            2 => {
                let x = *t.pick(BAD_REFS);
                if let Some(p) = place.filter(|p| !completed(x, &s[*p..])) {
                    out.push(("malformed reference", ins(s, p, x)));
                }
            }
            3 => {
                if let Some(e) = pick_ev(t, evs, EvKind::Start) {
                    let at = match t.below(3) {
                        0 => e.name.1,
                        _ => e.attrs.iter().map(|a| a.1).max().unwrap_or(e.name.1),
                    };
                    out.push(("malformed attribute", ins(s, at, t.pick(BAD_ATTR))));
                }
            }
            4 => {
                let x = *t.pick(BAD_AFTER);
                let at = if t.chance(1, 2) { root_end } else { s.len() };
                if !completed(x, &s[at..]) {
                    out.push(("after the root element", ins(s, at, x)));
                }
            }
            5 => {
                let x = *t.pick(BAD_BEFORE);
                if completed(x, &s[root_start..]) {
                    continue;
                }
                out.push(("before the root element", if t.chance(1, 2) || x.starts_with("<?xml") { format!("{x}{}", &s[root_start..]) } else { ins(s, root_start, x) }));
            }
            6 => {
                // end tags
                let ends: Vec<&Ev> = evs.iter().filter(|e| e.kind == EvKind::End && s[e.span.0..].starts_with("</")).collect();
                if !ends.is_empty() {
                    let e = ends[t.below(ends.len())];
                    let (a, b) = e.span;
                    let name = &s[e.name.0..e.name.1];
                    let new = match t.below(9) {
                        0 => String::new(),
                        1 => format!("</{name}x>"),
                        2 => format!("</x{name}>"),
                        3 => format!("</{}>", swap_case(name)),
                        4 => format!("</{name} b=''>"),
                        5 => format!("</{name}></{name}>"),
                        6 => format!("</p:{name}>"),
                        7 => format!("</ {name}>"),
                        _ => format!("</{}>", name.split_once(':').map(|x| x.1.to_string()).unwrap_or(format!("{name}:{name}"))),
                    };
                    out.push(("end tag", format!("{}{new}{}", &s[..a], &s[b..])));
                }
            }
            7 => {
                // one start tag less, or no longer closing itself
                if let Some(e) = pick_ev(t, evs, EvKind::Start) {
                    let (a, b) = e.span;
                    let tag = &s[a..b];
                    if tag.ends_with("/>") {
                        out.push(("start tag", format!("{}{}>{}", &s[..a], &tag[..tag.len() - 2], &s[b..])));
                    } else {
                        out.push(("start tag", format!("{}{}", &s[..a], &s[b..])));
                        out.push(("start tag", format!("{}{}/>{}", &s[..a], &tag[..tag.len() - 1], &s[b..])));
                    }
                }
            }
            8 => {
                // attributes
                let v: Vec<&Ev> = evs.iter().filter(|e| !e.attrs.is_empty()).collect();
                if !v.is_empty() {
                    let e = v[t.below(v.len())];
                    let (a, b) = e.attrs[t.below(e.attrs.len())];
                    let at = &s[a..b];
                    let (n, v) = at.split_once('=').unwrap();
                    let (n, v) = (n.trim(), v.trim());
                    let last = e.attrs.iter().map(|a| a.1).max().unwrap();
                    match t.below(8) {
                        0 => out.push(("duplicate attribute", ins(s, last, &format!(" {at}")))),
                        1 => out.push(("duplicate attribute", ins(s, last, &format!(" {n}=''")))),
                        2 => out.push(("attribute value", format!("{}{n}{}", &s[..a], &s[b..]))),
                        3 => out.push(("attribute value", format!("{}{n}={}{}", &s[..a], &v[1..], &s[b..]))),
                        4 => out.push(("attribute value", format!("{}{n}={}<{}{}", &s[..a], &v[..1], &v[1..], &s[b..]))),
                        5 => out.push(("attribute value", format!("{}{n}={}{}{}{}", &s[..a], &v[..1], t.pick(BAD_REFS), &v[1..], &s[b..]))),
                        6 => out.push(("attribute name", format!("{}undeclared:{}{}", &s[..a], at.rsplit_once(':').filter(|_| n.contains(':')).map_or(at, |_| at.split_once(':').unwrap().1), &s[b..]))),
                        _ => {
                            if let Some((p, l)) = n.split_once(':') {
                                if p != "xml" {
                                    // the same name by another prefix
                                    let uri = declared(s, p);
                                    if let Some(mut u) = uri {
                                        // spelled with a reference
                                        if t.chance(1, 3) && u[1..].starts_with(|c: char| c.is_ascii_alphabetic()) {
                                            u = format!("{}&#{};{}", &u[..1], u.as_bytes()[1], &u[2..]);
                                        }
                                        out.push(("duplicate attribute", ins(s, last, &format!(" xmlns:zz={u} zz:{l}=''"))));
                                    }
                                }
                            } else {
                                out.push(("attribute name", format!("{}{}{}", s[..a].trim_end(), at, &s[b..])));
                            }
                        }
                    }
                }
            }
            9 => {
                // a prefix without declaration
                if let Some(e) = pick_ev(t, evs, EvKind::Start) {
                    let n = &s[e.name.0..e.name.1];
                    let local = n.rsplit(':').next().unwrap();
                    let ends = evs.iter().find(|x| x.kind == EvKind::End && x.path == e.path).unwrap();
                    let mut r = s.to_string();
                    if s[ends.span.0..].starts_with("</") {
                        r.replace_range(ends.span.0..ends.span.1, &format!("</undeclared:{local}>"));
                    }
                    r.replace_range(e.name.0..e.name.1, &format!("undeclared:{local}"));
                    out.push(("undeclared prefix", r));
                }
            }
            10 => {
                // two roots, or none
                let root = &s[root_start..root_end];
                match t.below(4) {
                    0 => out.push(("several roots", ins(s, root_end, root))),
                    1 => out.push(("several roots", format!("{s}\n{root}"))),
                    2 => out.push(("no root", s[..root_start].to_string())),
                    _ => out.push(("no root", format!("{}{}", &s[..root_start], &s[root_end..]))),
                }
            }
            _ => {
                // elements overlap
                let ends: Vec<&Ev> = evs.iter().filter(|e| e.kind == EvKind::End && s[e.span.0..].starts_with("</")).collect();
                for w in ends.windows(2) {
                    let (a, b) = (&s[w[0].span.0..w[0].span.1], &s[w[1].span.0..w[1].span.1]);
                    let name = |x: &str| x[2..].trim_end_matches('>').trim().to_string();
                    if name(a) != name(b) {
                        out.push(("overlapping elements", format!("{}{b}{}{a}{}", &s[..w[0].span.0], &s[w[0].span.1..w[1].span.0], &s[w[1].span.1..])));
                        break;
                    }
                }
            }
        }
    }
    out
}

/// the same name twice among many attributes (only for schemas which allow any)
fn crowded(t: &mut Tape, s: &str, evs: &[Ev]) -> Option<Fault> {
    let e = pick_ev(t, evs, EvKind::Start)?;
    let (first, second) = *t.pick(&[
        ("zz=''", "zz='1'"),
        ("xmlns:zp='u:z' zp:zz=''", "zp:zz=''"),
        ("xmlns:zp='u:z' zp:zz=''", "xmlns:zq='u:z' zq:zz=''"),
        ("xmlns:zp='u:z'", "xmlns:zq='u:z' zp:zz='' zq:zz=''"),
        ("xmlns:zp='u:z'", "xmlns:zp='u:z'"),
        ("zz=''", "undeclared:zz=''"),
        ("xml:lang='en'", "xml:lang='fr'"),
        ("xml:lang='en'", "xmlns:zp='http://www.w3.org/XML/1998/namespace' zp:lang='en'"),
    ]);
    let fill = |t: &mut Tape, k: usize, n: usize| -> String { (0..n).map(|i| format!("{}f{k}.{i}=''", t.pick(&[" ", "  ", "\n"]))).collect() };
    let max = *t.pick(&[4, 12, 40, 130]);
    let mut x = String::new();
    for k in 0..3 {
        let n = t.below(max);
        x.push_str(&fill(t, k, n));
        if k < 2 {
            x.push_str(&format!(" {}", if k == 0 { first } else { second }));
        }
    }
    Some(("duplicate attribute among many", ins(s, e.name.1, &x)))
}

/// the quoted name of the namespace for which the prefix is declared, if it is so only once
fn declared(s: &str, p: &str) -> Option<String> {
    let key = format!("xmlns:{p}");
    let mut v = s.match_indices(&key).map(|(i, _)| s[i + key.len()..].trim_start()).filter(|r| r.starts_with('=')).map(|r| r[1..].trim_start());
    let r = v.next()?;
    if v.next().is_some() {
        return None;
    }
    let q = r.chars().next()?;
    let end = r[1..].find(q)?;
    Some(r[..end + 2].to_string())
}

fn swap_case(s: &str) -> String {
    let t: String = s.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
    if t == s { format!("{s}{s}") } else { t }
}

/// validates to the end of the input, ignoring errors: how many errors, and does the library ever
/// stop
pub fn errors(schema: &Schema, text: &str) -> Result<usize, String> {
    match sut::validate(schema, text) {
        Verdict::Valid => Ok(0),
        Verdict::Invalid(_) => Ok(1),
        Verdict::Endless => Err("validation does not end".into()),
    }
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let permissive = t.chance(1, 2);
    let (schema, files, d) = if permissive {
        let schema = sut::compile_rnc(PERMISSIVE).map_err(|e| format!("{e:?}"))?;
        let names = Names {
            elems: vec![(String::new(), "a".into()), ("urn:a".into(), "b".into()), ("urn:b".into(), "a".into()), (String::new(), "é".into())],
            attrs: vec![(String::new(), "x".into()), ("urn:a".into(), "x".into()), (String::new(), "y".into())],
            ..Names::default()
        };
        let mut d = DElem::new("", "a");
        for _ in 0..t.below(9) {
            doc::mutate(t, &mut d, &names);
        }
        (schema, vec![("main.rnc".to_string(), PERMISSIVE.to_string())], d)
    } else {
        let (sch, names) = schemagen::schema(t, FULL);
        let files = print_schema(&sch, Syn::Rnc);
        let g = simplify(&sch);
        let schema = must_compile(&files, Syn::Rnc)?;
        let Some(d) = doc::DocGen::new(&g, &names, 10).document(t) else {
            cx.class("schema without instance (excluded)");
            return Ok(());
        };
        (schema, files, d)
    };
    let style = if t.chance(1, 2) { doc::CANONICAL } else { doc::VARIED };
    let (text, evs) = doc::print(&d, t, style);
    let shown = show_files(&files);
    cx.note(format!("{shown}--- document\n{text}"));
    // without the fault the document is accepted (whether it should be is decided by C01)
    cx.eval();
    if let Verdict::Invalid(_) = sut::validate(&schema, &text) {
        cx.class("not accepted without the fault (excluded)");
        return Ok(());
    }
    let mut all = faults(t, &text, &evs);
    if permissive && t.chance(1, 3) {
        all.extend(crowded(t, &text, &evs));
    }
    for (name, bad) in all {
        cx.eval();
        cx.note(format!("{shown}--- document ({name})\n{bad}"));
        if errors(&schema, &bad)? == 0 {
            return Err(format!("a document which is not well-formed ({name}) is accepted\n{shown}--- document\n{bad}"));
        }
        cx.class(name);
        cx.nontrivial(&bad);
        cx.sample(|| format!("{shown}--- document ({name})\n{bad}"));
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let schema = sut::compile_rnc(PERMISSIVE).map_err(|e| format!("{e:?}"))?;
    let mut docs: Vec<String> = vec![];
    for x in BAD_CONTENT.iter().chain(BAD_REFS) {
        docs.extend([format!("<a>{x}</a>"), format!("<a>x{x}<b/></a>"), format!("<a><b/>{x}y</a>")]);
    }
    for x in BAD_ATTR {
        docs.extend([format!("<a{x}></a>"), format!("<a c='d'{x}/>")]);
    }
    for x in BAD_REFS {
        docs.push(format!("<a b='{x}'/>"));
    }
    for x in BAD_AFTER {
        docs.extend([format!("<a/>{x}"), format!("<a></a> {x}")]);
    }
    for x in BAD_BEFORE {
        docs.push(format!("{x}<a/>"));
    }
    for x in ["", " ", "\n", "<!-- -->", "<?a?>", "<!DOCTYPE a>", "<?xml version='1.0'?>", "\u{feff}", "x", "<a><b>", "<a", "<", "<a>x", "<a><!-- -->"] {
        docs.push(x.into());
    }
    for x in ["&e;", "<b c='&e;'/>"] {
        docs.extend([
            format!("<!DOCTYPE a [<!ENTITY e '&e;'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f 'x&e;'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY e '&undefined;'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY f 'x'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY % e 'x'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY %\te 'x'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY\n  %\n  e \"x\" >]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY e 'x&#0;'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY e 'x&'>]><a>{x}</a>"),
            format!("<!DOCTYPE a [<!ENTITY e '<'>]><a c='&e;'/>"),
            format!("<!DOCTYPE a [<!ENTITY e '&#60;'>]><a c='&e;'/>"),
            format!("<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f '<b/>'>]><a c='&e;'/>"),
        ]);
    }
    for x in ["xmlns:p='&e;'", "xmlns:p='&f;&e;'", "xmlns:p='&x;'", "xmlns:p='http://www.w3.org&y;'", "xmlns='&x;'", "xmlns='&x;&e;'", "xmlns:xml='&u;'", "xmlns:p='u' xmlns:q='&u;' p:b='' q:b=''", "xmlns:p='&u;' xmlns:q='u&e;' p:b='' q:b=''"] {
        docs.push(format!("<!DOCTYPE a [<!ENTITY e ''><!ENTITY f '&e;'><!ENTITY u 'u'><!ENTITY x 'http://www.w3.org/XML/1998/namespace'><!ENTITY y '/2000/xmlns/'>]><a {x}/>"));
    }
    for x in BAD_DECL {
        docs.extend([format!("<!DOCTYPE a [{x}]><a/>"), format!("<!DOCTYPE a [\n<!ENTITY b 'c'> {x} <!ENTITY d 'e'>\n]><a>&b;</a>")]);
    }
    for n in [5, 9, 17, 33, 65, 257, 1000] {
        let fill: String = (0..n).map(|i| format!(" f{i}=''")).collect();
        for (first, second) in [("z=''", "z=''"), ("xmlns:p='u:1' p:z=''", "xmlns:q='u:1' q:z=''"), ("xmlns:p='u:1'", "xmlns:p='u:1'")] {
            docs.extend([format!("<a {first}{fill} {second}/>"), format!("<a {first} {second}{fill}/>"), format!("<a{fill} {first} {second}/>")]);
        }
        docs.push(format!("{}</b>{}", "<a>".repeat(n), "</a>".repeat(n)));
        docs.push(format!("{}{}", "<a>".repeat(n), "</a>".repeat(n - 1)));
        docs.push(format!("<a>{}<p:a/></a>", "<b xmlns:p='u:1'/>".repeat(n)));
        docs.push(format!("<a>{}<p:a/></a>", "<b xmlns:p='u:1'></b>".repeat(n)));
    }
    let mut bad = vec![];
    for d in &docs {
        cx.eval();
        cx.note(d.clone());
        if errors(&schema, d)? == 0 {
            bad.push(d.clone());
        }
    }
    if bad.is_empty() { Ok(()) } else { Err(format!("documents which are not well-formed are accepted:\n{}", bad.iter().map(|b| format!("{b:?}")).collect::<Vec<_>>().join("\n"))) }
}
