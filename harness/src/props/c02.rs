//! C02: name classes and namespaces.

use super::common::*;
use crate::ast::*;
use crate::doc::{self, DElem, DN, Names};
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::URIS;
use crate::sut::Syn;
use crate::tape::Tape;
use crate::{rnc, rng};

pub const PROP: Prop = Prop {
    id: "C02",
    tape_len: 500,
    quick: 200000,
    thorough: 5000000,
    run,
    fixed,
    rule: "distinct (name classes, document) pairs where the document is printed with random prefixes, default declarations, redeclarations and undeclarations",
    assumptions: &["name classes respect the restrictions of section 4.16 (no anyName within the exception of anyName or nsName, no nsName within that of nsName)"],
    known: &[],
    shrink_iters: 3000,
};

const LOC: &[&str] = &["a", "b", "c", "é"];

/// names of namespaces, which are compared character by character
pub const NEAR: &[&str] = &["urn:a ", " urn:a", "urn:A", "URN:a", "urn:a/", "urn:%61", "urn:a#", "urn:a\u{a0}", "é", "urn: a", "xml", "http://x.example/ns/", "HTTP://x.example/ns", "http://www.w3.org/XML/1998/namespace/", "0", " "];

type Uris = [&'static str; 4];

fn uri(t: &mut Tape, us: &Uris) -> String {
    if t.chance(1, 16) { XML_NS.to_string() } else { us[t.below(4)].to_string() }
}

fn nc(t: &mut Tape, us: &Uris, depth: usize, any: bool, ns: bool) -> Nc {
    let w = [
        5,
        if depth > 0 { 3 } else { 0 },
        if ns { 4 } else { 0 },
        if any { 3 } else { 0 },
    ];
    match t.weighted(&w) {
        1 => Nc::Choice(Box::new(nc(t, us, depth - 1, any, ns)), Box::new(nc(t, us, depth - 1, any, ns))),
        2 if ns => {
            let u = uri(t, us);
            let e = if t.chance(1, 2) { Some(Box::new(nc(t, us, depth.saturating_sub(1), false, false))) } else { None };
            Nc::Ns(u, e)
        }
        3 if any => {
            let e = if t.chance(2, 3) { Some(Box::new(nc(t, us, depth.saturating_sub(1), false, true))) } else { None };
            Nc::Any(e)
        }
        _ => Nc::Name(uri(t, us), t.pick(LOC).to_string()),
    }
}

/// an attribute may not be called xmlns or be in the xmlns namespace; nothing here generates those
fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let mut us: Uris = [URIS[0], URIS[1], URIS[2], URIS[3]];
    if t.chance(1, 3) {
        us[2] = *t.pick(NEAR);
        if t.chance(1, 2) {
            us[3] = *t.pick(NEAR);
        }
        cx.class("namespaces of similar names");
    }
    let us = &us;
    let root = nc(t, us, 2, true, true);
    let kid = nc(t, us, 2, true, true);
    let kid2 = nc(t, us, 1, true, true);
    let at = nc(t, us, 2, true, true);
    let at2 = nc(t, us, 1, true, true);
    let attr = |n: &Nc| P::Star(Box::new(P::Attr(n.clone(), Box::new(P::Text))));
    let inner = P::Elem(kid2.clone(), Box::new(attr(&at2)));
    let child = P::Elem(kid.clone(), Box::new(P::Group(vec![P::Star(Box::new(inner)), attr(&at)])));
    let p = P::Elem(root.clone(), Box::new(P::Group(vec![attr(&at2), P::Star(Box::new(child))])));
    let sch = Sch::single(if t.chance(1, 2) { Body::Pat(p) } else { Body::Gram(vec![Item::Def("start".into(), Op::Assign, p)]) });
    let g = simplify(&sch);
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = match syn {
        Syn::Rnc => rnc::files(&sch, t, rnc::DECLS),
        Syn::Rng => rng::files(&sch, t, rng::Vary { names: true, inherit: true, prefix: true, implicit: true, ..rng::PLAIN }),
    };
    cx.note(show_files(&files));
    let schema = must_compile(&files, syn)?;
    let mut pool: Vec<(String, String)> = vec![];
    for u in us.iter().copied().chain([XML_NS]) {
        for l in LOC {
            pool.push((u.to_string(), l.to_string()));
        }
    }
    let names = Names { elems: pool.clone(), attrs: pool };
    for _ in 0..5 {
        let d = document(t, [&root, &kid, &kid2], [&at2, &at, &at2], &names);
        let (text, _) = doc::print(&d, t, doc::Style { namespaces: true, lexical: t_lex(&d), ..doc::CANONICAL });
        if judge(cx, &g, &d, &text, &schema, &files)?.is_some() {
            cx.nontrivial(&(&sch, &text));
            cx.class_if(text.contains("xmlns=\"\""), "default namespace undeclared");
            cx.class_if(!d.attrs.is_empty() || d.has_elem(), "with attributes or children");
        }
    }
    Ok(())
}
fn t_lex(_: &DElem) -> bool {
    false
}

fn name(t: &mut Tape, n: &Nc, pool: &[(String, String)]) -> (String, String) {
    // mostly a member of the class, sometimes any name
    let m: Vec<&(String, String)> = pool.iter().filter(|(u, l)| n.contains(u, l)).collect();
    if m.is_empty() || t.chance(1, 8) { t.pick(pool).clone() } else { (*t.pick(&m)).clone() }
}
fn document(t: &mut Tape, e: [&Nc; 3], a: [&Nc; 3], names: &Names) -> DElem {
    fn go(t: &mut Tape, level: usize, e: &[&Nc; 3], a: &[&Nc; 3], names: &Names) -> DElem {
        let (u, l) = name(t, e[level], &names.elems);
        let mut d = DElem::new(&u, &l);
        for _ in 0..t.weighted(&[3, 4, 2, 1]) {
            let (u, l) = name(t, a[level], &names.attrs);
            if !d.attrs.iter().any(|(x, y, _)| *x == u && *y == l) {
                // the value of xml:space or xml:lang is of no concern here
                d.attrs.push((u, l, "v".into()));
            }
        }
        if level < 2 {
            for _ in 0..t.weighted(&[2, 4, 2]) {
                d.kids.push(DN::Elem(Box::new(go(t, level + 1, e, a, names))));
            }
        }
        d
    }
    go(t, 0, &e, &a, names)
}

fn fixed(cx: &mut Cx) -> CaseResult {
    table(
        cx,
        Syn::Rnc,
        "default namespace = \"urn:a\"\nnamespace n = \"\"\nelement r { attribute x { text }?, element n:b { empty }? }",
        &[
            ("<r xmlns='urn:a'/>", true),
            ("<r/>", false),
            ("<p:r xmlns:p='urn:a' x=''><b/></p:r>", true),
            ("<r xmlns='urn:a'><b/></r>", false),
            ("<r xmlns='urn:a'><b xmlns=''/></r>", true),
            ("<p:r xmlns:p='urn:a' p:x=''/>", false),
            ("<p:r xmlns:p='urn:a'><p:b xmlns:p=''/></p:r>", false),
        ],
    )?;
    table(
        cx,
        Syn::Rnc,
        "namespace p = \"urn:a\"\nelement r { element (p:* - (p:a | p:b)) { empty }*, (element * - (p:* | r) { empty }) }",
        &[
            ("<r xmlns:q='urn:a'><q:c/><x/></r>", true),
            ("<r xmlns:q='urn:a'><q:a/><x/></r>", false),
            ("<r xmlns:q='urn:a'><r/></r>", false),
            ("<r xmlns:q='urn:a'><r xmlns='urn:b'/></r>", true),
        ],
    )?;
    table(
        cx,
        Syn::Rng,
        "<element xmlns='http://relaxng.org/ns/structure/1.0' xmlns:p='urn:a'><name>p:r</name><attribute ns='urn:b' name='x'/><attribute name='xml:lang'/></element>",
        &[("<r xmlns='urn:a' xmlns:b='urn:b' b:x='' xml:lang='en'/>", true), ("<r xmlns='urn:a' x='' xml:lang=''/>", false)],
    )
}
