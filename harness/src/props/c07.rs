//! C07: equivalent spellings of a document get the same verdict.

use super::common::*;
use crate::ast::*;
use crate::doc::{self, DElem, DN};
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::sut::{self, Syn};
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C07",
    tape_len: 1100,
    quick: 110000,
    thorough: 2750000,
    run,
    fixed,
    rule: "distinct (schema, document, spelling) triples where the spelling differs from the canonical one",
    assumptions: &["entities declared in the internal subset contain characters only", "XML 1.0 line-end and attribute-value normalisation"],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 1, wild: false, elems: 3, depth: 3, ..FULL },
        _ => FULL,
    };
    let (sch, names) = schemagen::schema(t, o);
    let g = simplify(&sch);
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    cx.note(show_files(&files));
    let schema = must_compile(&files, syn)?;
    for _ in 0..2 {
        let (d, _) = near_doc(t, &g, &names, 14);
        let base = doc::canonical(&d);
        let want = judge(cx, &g, &d, &base, &schema, &files)?;
        // without an oracle verdict the spellings still have to agree with the canonical one
        let want = want.unwrap_or_else(|| sut::validate(&schema, &base).ok());
        for _ in 0..3 {
            let mut e = d.clone();
            let split = t.chance(1, 3) && split_text(t, &mut e);
            let (text, _) = doc::print(&e, t, doc::VARIED);
            cx.eval();
            cx.note(format!("{}--- document\n{text}", show_files(&files)));
            let got = sut::validate(&schema, &text);
            if got.ok() != want {
                return Err(format!(
                    "the document is {}, but another spelling of it is {}\n{}--- document\n{base}\n--- spelled\n{text}",
                    if want { "valid" } else { "invalid" },
                    got.short(),
                    show_files(&files)
                ));
            }
            if text != base {
                cx.nontrivial(&(&sch, &text));
                cx.class(if want { "valid, spelled differently" } else { "invalid, spelled differently" });
                cx.class_if(text.contains("<![CDATA["), "CDATA section");
                cx.class_if(text.contains("<!DOCTYPE"), "DOCTYPE");
                cx.class_if(text.contains("&ent;") || text.contains("&nest;") || text.contains("&chr;") || text.contains("&emp;"), "general entity");
                cx.class_if(text.split("<!ENTITY").skip(1).filter(|d| d.contains(";\">") || d.contains(";'>")).count() > 5, "several nested entities");
                cx.class_if(text.contains("<!--") || text.contains("<?"), "comment or instruction");
                cx.class_if(text.contains("&#"), "character reference");
                cx.class_if(split, "adjacent text nodes");
                cx.sample(|| format!("{}--- document\n{base}\n--- spelled\n{text}", show_files(&files)));
            }
        }
    }
    Ok(())
}

/// divides a text node into two adjacent ones (the printer may put a comment between)
fn split_text(t: &mut Tape, e: &mut DElem) -> bool {
    let n = t.below(e.count());
    let e = e.pick_mut(n);
    for i in 0..e.kids.len() {
        if let DN::Text(s) = &e.kids[i] {
            let c: Vec<char> = s.chars().collect();
            if c.len() > 1 {
                let k = 1 + t.below(c.len() - 1);
                let (a, b): (String, String) = (c[..k].iter().collect(), c[k..].iter().collect());
                // "\r" and "\n" on either side would still be two characters, as both are references
                e.kids[i] = DN::Text(a);
                e.kids.insert(i + 1, DN::Text(b));
                return true;
            }
        }
    }
    false
}

fn fixed(cx: &mut Cx) -> CaseResult {
    table(
        cx,
        Syn::Rnc,
        "element a { element b { \"x y\" }, element c { empty }, element d { xsd:int }, attribute e { xsd:string \"p q\" } }",
        &[
            ("<a e='p q'><b>x y</b><c/><d>1</d></a>", true),
            ("<?xml version='1.0'?><!DOCTYPE a [<!ENTITY x 'x'>]><a e='p\nq'><!-- --> <b>&x;<!-- --> y</b><c></c><d>&#x31;</d></a>", true),
            ("<a e='p&#10;q'><b>x y</b><c/><d>1</d></a>", false),
            ("<a e='p&#32;q'><b><![CDATA[x]]> <![CDATA[y]]></b><c><!-- --></c><d><?pi?>1</d></a><!-- end -->\n", true),
            ("<a e='p\r\nq'><b>x\r\ny</b><c/><d>1</d></a>", true),
            ("<a e='p q'><b>x y</b><c> </c><d>1</d></a>", true),
            ("<!DOCTYPE a [<!ENTITY n '&#10;'>]><a e='p&n;q'><b>x&n;y</b><c>&n;</c><d>1&n;</d></a>", true),
            ("<!DOCTYPE a [<!ENTITY t \"&#x9;\"><!ENTITY u '&t;'>]><a e='p&u;q'><b>x&u;y</b><c/><d>&u;1</d></a>", true),
            ("<!DOCTYPE a [<!ENTITY n '&#10;&#10;'>]><a e='p&n;q'><b>x y</b><c/><d>1</d></a>", false),
            ("<a e='p q'><b>x y</b><c>&#32;</c><d>1</d></a>", true),
        ],
    )?;
    // names, declarations and entities which look like ill-formed ones
    table(
        cx,
        Syn::Rnc,
        "start = any any = element * { (attribute * { text } | any | text)* }",
        &[
            ("<a xmlns:xml='http://www.w3.org/XML/1998/namespace' xml:id='x'/>", true),
            ("<a xmlns:p='u:1' p:xmlns='x' xmlns=''><p:b/></a>", true),
            ("<?xml-stylesheet href='x'?><a><?xmlx?><?p.q?><?p ?><?p x?y?></a>", true),
            ("<!DOCTYPE a [<!ENTITY % p 'x'><!ENTITY p 'y&#37;&amp;z&later;'><!ENTITY later 'w'>]><a b='&p;'>&p;</a>", true),
            ("<!DOCTYPE a [<!ENTITY e '&lt;'>]><a b='&e;'>&e;</a>", true),
            ("<a b='&lt;&#60;>'>]]&gt; ]] > ></a>", true),
            ("<a b='&#xD7FF;&#xE000;&#xFFFD;&#x10000;&#x10FFFF;&#9;&#xa;&#13;'/>", true),
            ("<a xmlns:p='u:1' xmlns:q='u:1' p:b='' b=''><q:b/></a>", true),
            ("<é·.-_1 \u{10000}='1'/>", true),
        ],
    )?;
    // attributes with the same local name in namespaces which are almost the same, and many attributes
    let mut near: Vec<&str> = super::c02::NEAR.to_vec();
    near.extend(["urn:a", "http://x.example/ns", "b", "p", "q"]);
    near.retain(|u| !u.is_empty());
    let mut rows: Vec<String> = vec![];
    for u in &near {
        for v in near.iter().filter(|v| *v != u) {
            rows.push(format!("<p:a xmlns:p='{u}' xmlns:q='{v}' p:b='' q:b='' b=''/>"));
        }
    }
    for n in [9, 65, 300] {
        let many: String = (0..n).map(|i| format!(" p:f{i}='' q:f{i}='' f{i}=''")).collect();
        rows.push(format!("<p:a{many} xmlns:p='u:1' xmlns:q='u:2'/>"));
        let many: String = (0..n).map(|i| format!(" xmlns:p{i}='u:{i}' p{i}:f=''")).collect();
        rows.push(format!("<a{many} f=''><p0:b f=''/><p{k}:b{many}/></a>", k = n - 1));
        rows.push(format!("<a{many}>{}</a>", "<p0:b p1:f=''/>".repeat(n)));
    }
    let rows: Vec<(&str, bool)> = rows.iter().map(|d| (d.as_str(), true)).collect();
    table(cx, Syn::Rnc, "start = any any = element * { (attribute * { text } | any | text)* }", &rows)?;
    // white space between elements, and text in pieces
    table(
        cx,
        Syn::Rnc,
        "element a { element b { empty }*, element t { xsd:string { length = \"3\" } }? }",
        &[
            ("<a>\n <b/>\n <b/>\n</a>", true),
            ("<a><b/><t>a<!-- -->b<![CDATA[c]]></t></a>", true),
            ("<a><b/><t>a<!-- -->b<![CDATA[]]></t></a>", false),
            ("<a><b/><t>&lt;&#x1F600;&amp;</t></a>", true),
            ("<a><b/><t>\r\n\r\n\r</t></a>", true),
        ],
    )?;
    table(
        cx,
        Syn::Rnc,
        "element a { \"\" | \"x\" }",
        &[("<a/>", true), ("<a></a>", true), ("<a><!-- --></a>", true), ("<a><![CDATA[]]></a>", true), ("<a><![CDATA[x]]></a>", true), ("<a><?p?>x<!-- --></a>", true)],
    )?;
    // entities which are long, deep or referred to often
    let chain = |n: usize| -> String { (0..n).map(|i| if i == 0 { "<!ENTITY e0 'x'>".to_string() } else { format!("<!ENTITY e{i} '&e{};'>", i - 1) }).collect() };
    let long = "y".repeat(100_000);
    let mut rows: Vec<(String, bool)> = vec![];
    for n in [2, 10, 20, 40] {
        rows.push((format!("<!DOCTYPE a [{}]><a b='&e{k};'>&e{k};</a>", chain(n), k = n - 1), true));
        rows.push((format!("<!DOCTYPE a [{}]><a b='&e{k};&e0;'>&e{k};</a>", chain(n), k = n - 1), false));
        rows.push((format!("<!DOCTYPE a [{}]><a b='x'>&e{k};<!-- -->&e{k};</a>", chain(n), k = n - 1), false));
    }
    rows.push((format!("<!DOCTYPE a [<!ENTITY l '{long}'>]><a b='x' c='&l;'>x<l>&l;</l></a>"), true));
    rows.push((format!("<!DOCTYPE a [<!ENTITY l '{long}'>]><a b='x' c='&l;'>x<l>&l;y</l></a>"), false));
    rows.push((format!("<!DOCTYPE a [<!ENTITY l '{long}'>]><a b='x' c='y&l;'>x<l>&l;</l></a>"), false));
    rows.push((format!("<!DOCTYPE a [<!ENTITY m 'yyyyyyyyyy'>]><a b='x' c='{r}'>x<l>{r}</l></a>", r = "&m;".repeat(10_000)), true));
    rows.push((format!("<!DOCTYPE a [<!ENTITY m 'yyyyyyyyyy'>]><a b='x' c='{r}'>x<l>{r}&m;</l></a>", r = "&m;".repeat(10_000)), false));
    // white space within nested entities: becomes spaces in attribute values, but a reference does not
    for n in [1, 2, 3, 4, 9] {
        for (ws, one) in [("\n", true), ("\t", true), ("\r", true), ("&#10;", true), ("&#9;", true), ("&#13;", true), ("&#x20;", true), ("&#38;#10;", false), ("&#38;#9;", false), ("&#38;#13;", false)] {
            let decl: String = (0..n).map(|i| if i == 0 { format!("<!ENTITY e0 'y{ws}y'>") } else { format!("<!ENTITY e{i} '&e{};'>", i - 1) }).collect();
            rows.push((format!("<!DOCTYPE a [{decl}]><a b='x' d='&e{};'>x</a>", n - 1), one));
        }
    }
    let rows: Vec<(&str, bool)> = rows.iter().map(|(d, v)| (d.as_str(), *v)).collect();
    table(
        cx,
        Syn::Rnc,
        "element a { attribute d { xsd:string \"y y\" }?, attribute b { \"x\" }, attribute c { xsd:string { length = \"100000\" } }?, (\"x\" | mixed { element l { xsd:string { length = \"100000\" } } }) }",
        &rows,
    )
}
