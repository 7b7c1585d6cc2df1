//! Pieces shared by the verdict properties.

use crate::ast::*;
use crate::doc::{self, DElem, DocGen, Names};
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx};
use crate::sut::{self, Schema, Syn, Verdict};
use crate::tape::Tape;
use crate::{rng, rnc};

pub fn show_files(files: &[(String, String)]) -> String {
    let mut s = String::new();
    for (n, t) in files {
        s.push_str(&format!("--- {n}\n{t}\n"));
    }
    s
}

/// a document near the language of the schema: an instance with 0..3 edits, or (rarely, or when
/// the schema has no instance) an arbitrary small tree
pub fn near_doc(t: &mut Tape, g: &Arena, names: &Names, budget: i64) -> (DElem, usize) {
    let mut dg = DocGen::new(g, names, budget);
    let inst = if t.chance(1, 24) { None } else { dg.document(t) };
    match inst {
        Some(mut d) => {
            let n = t.weighted(&[4, 4, 2, 1]);
            for _ in 0..n {
                doc::mutate(t, &mut d, names);
            }
            (d, n)
        }
        None => {
            let (n, l) = t.pick(&names.elems).clone();
            let mut d = DElem::new(&n, &l);
            for _ in 0..t.below(5) {
                doc::mutate(t, &mut d, names);
            }
            (d, 9)
        }
    }
}

pub fn print_schema(s: &Sch, syn: Syn) -> Vec<(String, String)> {
    let mut t = Tape::new(&[]);
    match syn {
        Syn::Rnc => rnc::files(s, &mut t, rnc::PLAIN),
        Syn::Rng => rng::files(s, &mut t, rng::PLAIN),
    }
}

pub fn must_compile(files: &[(String, String)], syn: Syn) -> Result<Schema, String> {
    match sut::compile(files.to_vec(), syn) {
        Ok(s) => Ok(s),
        Err(e) => Err(format!(
            "a correct schema was rejected with {}: {e:?}\n{}",
            sut::variant(&e),
            show_files(files)
        )),
    }
}

/// compares the library's verdict on one document (already printed) with the oracle's
pub fn judge(
    cx: &mut Cx,
    g: &Arena,
    d: &DElem,
    text: &str,
    schema: &Schema,
    files: &[(String, String)],
) -> Result<Option<bool>, String> {
    let Some(want) = Matcher::valid(g, d) else {
        cx.class("oracle gave up (excluded)");
        return Ok(None);
    };
    cx.eval();
    cx.class(if want { "document valid" } else { "document invalid" });
    cx.note(format!("{}--- document\n{text}", show_files(files)));
    let got = sut::validate(schema, text);
    if got.ok() != want {
        return Err(format!(
            "document is {} by the specification, but the library says {}\n{}--- document\n{text}",
            if want { "valid" } else { "invalid" },
            got.short(),
            show_files(files)
        ));
    }
    cx.sample(|| format!("{}--- document ({})\n{text}", show_files(files), if want { "valid" } else { "invalid" }));
    Ok(Some(want))
}

/// explicit case: schema text in either syntax with documents and their verdicts
pub fn table(cx: &mut Cx, syn: Syn, schema: &str, docs: &[(&str, bool)]) -> CaseResult {
    let files = vec![(format!("main.{}", syn.ext()), schema.to_string())];
    cx.note(show_files(&files));
    let s = must_compile(&files, syn)?;
    for (d, want) in docs {
        cx.eval();
        cx.note(format!("{}--- document\n{d}", show_files(&files)));
        let got = sut::validate(&s, d);
        if got.ok() != *want {
            return Err(format!(
                "document is {} by the specification, but the library says {}\n{}--- document\n{d}",
                if *want { "valid" } else { "invalid" },
                got.short(),
                show_files(&files)
            ));
        }
    }
    Ok(())
}

pub fn valid(v: &Verdict) -> bool {
    v.ok()
}

/// one datatype with values in and around it, as attribute value and as element content
pub fn data_case(t: &mut Tape, cx: &mut Cx, mut d: crate::dt::Dt, n: usize) -> CaseResult {
    use crate::{dt, dtgen};
    if d.params.len() > 1 && t.chance(1, 2) {
        t.shuffle(&mut d.params);
    }
    let attr = t.chance(1, 2);
    // sometimes together with a datatype that differs in one detail
    let cousin = if d.xsd && t.chance(1, 4) { Some(dtgen::cousin(t, &d)) } else { None };
    let data = match &cousin {
        None => P::Data(d.clone(), None),
        Some(e) => {
            cx.class("choice of datatypes which differ in one detail");
            P::Choice(vec![P::Data(d.clone(), None), P::Data(e.clone(), None)])
        }
    };
    let body = if attr { P::Attr(Nc::local("v"), Box::new(data)) } else { data };
    let sch = Sch { files: vec![SFile { name: "main".into(), body: Body::Pat(P::Elem(Nc::local("a"), Box::new(body))) }] };
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    cx.note(show_files(&files));
    let schema = must_compile(&files, syn)?;
    let g = simplify(&sch);
    cx.class(&format!("type {}", d.name));
    for (p, _) in &d.params {
        cx.class(&format!("facet {p}"));
    }
    for _ in 0..n {
        let v = match &cousin {
            Some(e) if t.chance(1, 2) => dtgen::value(t, e),
            _ => dtgen::value(t, &d),
        };
        if !v.chars().all(|c| matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)) {
            continue;
        }
        let mut e = DElem::new("", "a");
        if attr {
            e.attrs.push((String::new(), "v".into(), v.clone()));
        } else if !v.is_empty() {
            e.kids.push(crate::doc::DN::Text(v.clone()));
        }
        let text = doc::canonical(&e);
        if let Some(ok) = judge(cx, &g, &e, &text, &schema, &files)? {
            cx.nontrivial(&(&d, &cousin, &v, attr));
            if let Some(e) = &cousin {
                if dt::accepts(e, &v) && !dt::accepts(&d, &v) {
                    cx.class("only the second of the datatypes accepts");
                }
                continue;
            }
            // a facet decides: the plain type accepts the value
            let plain = dt::Dt { params: vec![], ..d.clone() };
            if !ok && dt::accepts(&plain, &v) {
                cx.class("value excluded by a facet");
            } else if !ok {
                cx.class("value outside the lexical space or range");
            } else if !d.params.is_empty() {
                cx.class("value satisfies all facets");
            }
        }
    }
    Ok(())
}
