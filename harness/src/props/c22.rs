//! C22: equivalent spellings of an XML schema mean the same.

use super::common::*;
use crate::ast::*;
use crate::doc;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::split;
use crate::sut::Syn;
use crate::tape::Tape;
use crate::rng;

pub const PROP: Prop = Prop {
    id: "C22",
    tape_len: 1600,
    quick: 90000,
    thorough: 2250000,
    run,
    fixed,
    rule: "distinct (spelling of an XML schema that differs from the plain one, document) pairs with a decided verdict",
    assumptions: &["the printer of the harness varies only what sections 4.1 to 4.15 of the specification declare to be equivalent"],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 2, wild: false, elems: 2, depth: 3, ..FULL },
        _ => FULL,
    };
    let (mut sch, names) = schemagen::schema(t, o);
    let g = simplify(&sch);
    let items = schemagen::gram_items(&mut sch);
    let n = t.below(3);
    schemagen::extract_defs(t, items, n, "d");
    if t.chance(1, 3) {
        schemagen::split_combine(t, items);
    }
    if t.chance(1, 4) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    if t.chance(1, 3) {
        schemagen::shuffle_div(t, items);
    }
    let inh = if t.chance(1, 6) { split::split(t, &mut sch).0 } else { Default::default() };
    for _ in 0..2 {
        let v = if t.chance(1, 3) {
            rng::Vary {
                space: t.chance(1, 2),
                foreign: t.chance(1, 2),
                prefix: t.chance(1, 2),
                div: t.chance(1, 2),
                implicit: t.chance(1, 2),
                inherit: t.chance(1, 2),
                names: t.chance(1, 2),
                expand: t.chance(1, 2),
            }
        } else {
            rng::ALL
        };
        let files = rng::files_inherit(&sch, t, v, &inh);
        let plain = inh.is_empty() && files == rng::files(&sch, &mut Tape::new(&[]), rng::PLAIN);
        cx.note(show_files(&files));
        let schema = must_compile(&files, Syn::Rng)?;
        for _ in 0..2 {
            let (d, _) = near_doc(t, &g, &names, 12);
            let text = doc::canonical(&d);
            if judge(cx, &g, &d, &text, &schema, &files)?.is_some() && !plain {
                cx.nontrivial(&(&files, &d));
                let s = &files[0].1;
                cx.class_if(s.contains("urn:foreign"), "foreign elements or attributes");
                cx.class_if(s.contains("<div") || s.contains(":div"), "div");
                cx.class_if(s.contains("xmlns:r=") || s.contains("xmlns:rng=") || s.contains("xmlns:x="), "prefixed RELAX NG elements");
                cx.class_if(s.contains("name=\"u0:") || s.contains(">u0:"), "qualified names");
                cx.class_if(s.contains("<!--"), "comments");
                cx.class_if(s.contains("<![CDATA["), "CDATA sections");
            }
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let docs: &[(&str, bool)] = &[
        ("<a xmlns='urn:a' b='5'><c/><c/></a>", true),
        ("<a xmlns='urn:a' b='5'/>", true),
        ("<a xmlns='urn:a' b='x'/>", false),
        ("<a b='5'/>", false),
        ("<a xmlns='urn:a' b='5'><c xmlns=''/></a>", false),
    ];
    let ns = "xmlns='http://relaxng.org/ns/structure/1.0'";
    let lib = "datatypeLibrary='http://www.w3.org/2001/XMLSchema-datatypes'";
    for s in [
        format!("<element {ns} name='a' ns='urn:a'><attribute name='b'><data type='int' {lib}/></attribute><zeroOrMore><element name='c'><empty/></element></zeroOrMore></element>"),
        format!("<grammar {ns} ns='urn:a' {lib}><start><ref name=' a '/></start><define name='a'><element><name> a </name><attribute><name ns=''>b</name><data type=' int '/></attribute><optional><oneOrMore><element name='c'><empty/></element></oneOrMore></optional></element></define></grammar>"),
        format!("<r:grammar xmlns:r='http://relaxng.org/ns/structure/1.0' {lib} xmlns:p='urn:a' p:x='y'><p:z>t</p:z><r:div><r:start><r:element name='p:a'><r:group><r:attribute name='b'><r:data type='int'><!-- --></r:data></r:attribute><r:choice><r:empty/><r:oneOrMore><r:element><r:name>p:c</r:name><r:empty/></r:element></r:oneOrMore></r:choice></r:group></r:element></r:start></r:div></r:grammar>"),
        format!("<?xml version='1.0'?><!-- x --><element {ns} ns='urn:a' name='a'>\n<interleave><attribute name='b'><data type='int' {lib}></data></attribute><group ns='urn:a'><zeroOrMore><element name='c' ns='urn:a'><group><empty/></group></element></zeroOrMore></group></interleave>\n</element>"),
        format!("<element {ns} ns='urn:a' {lib}><choice><name>a</name></choice><attribute name='b' ns=''><choice><data type='int'/></choice></attribute><zeroOrMore><choice><element name='c'><empty/></element></choice></zeroOrMore></element>"),
    ] {
        table(cx, Syn::Rng, &s, docs)?;
    }
    Ok(())
}
