//! C04: definitions, combine, div, nested grammars and parent references.

use super::common::*;
use crate::ast::simplify;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::sut::Syn;
use crate::tape::Tape;
use crate::{doc, rnc};

pub const PROP: Prop = Prop {
    id: "C04",
    tape_len: 900,
    quick: 100000,
    thorough: 2500000,
    run,
    fixed,
    rule: "distinct (restructured grammar, document) pairs with a decided verdict",
    assumptions: &["the reference simplification of the harness implements sections 4.17 to 4.19; it is applied to the grammar before restructuring"],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 1, wild: false, data: false, elems: 3, ..FULL },
        1 => Opts { uris: 2, wild: false, ..FULL },
        _ => FULL,
    };
    let (orig, names) = schemagen::schema(t, o);
    let g = simplify(&orig);
    let mut sch = orig.clone();
    let items = schemagen::gram_items(&mut sch);
    let n = 1 + t.below(6);
    schemagen::extract_defs(t, items, n, "d");
    let nested = t.below(3);
    for _ in 0..nested {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    // definitions which are only names for others
    if t.chance(1, 3) {
        let n = t.below(3);
        aliases(t, items, n);
    }
    let combined = t.chance(2, 3);
    if combined {
        schemagen::split_combine(t, items);
    }
    schemagen::shuffle_div(t, items);
    // definitions that nothing refers to
    if t.chance(1, 6) {
        items.push(crate::ast::Item::Def("unused".into(), crate::ast::Op::Assign, crate::ast::P::Elem(crate::ast::Nc::local("un"), Box::new(crate::ast::P::Text))));
    }
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = if syn == Syn::Rnc && t.chance(1, 4) { rnc::files(&sch, t, rnc::Vary { wrap: true, ..rnc::PLAIN }) } else { print_schema(&sch, syn) };
    cx.note(show_files(&files));
    let schema = must_compile(&files, syn)?;
    for _ in 0..4 {
        let (d, _) = near_doc(t, &g, &names, 14);
        let text = doc::canonical(&d);
        if judge(cx, &g, &d, &text, &schema, &files)?.is_some() {
            cx.nontrivial(&(&sch, &d));
            cx.class_if(nested > 0, "nested grammars");
            cx.class_if(combined, "combined definitions");
        }
    }
    Ok(())
}

/// routes references through chains of definitions that consist of a reference only
fn aliases(t: &mut Tape, items: &mut Vec<crate::ast::Item>, n: usize) {
    use crate::ast::*;
    for k in 0..n {
        let names = schemagen::def_names(items);
        let target = t.pick(&names).clone();
        if target == "start" {
            continue;
        }
        let alias = format!("alias{k}");
        let mut which = t.below(4);
        for i in items.iter_mut() {
            if let Item::Def(_, _, p) = i {
                redirect(p, &target, &alias, &mut which);
            }
        }
        items.push(Item::Def(alias, Op::Assign, P::Ref(target)));
    }
}
fn redirect(p: &mut crate::ast::P, from: &str, to: &str, skip: &mut usize) {
    use crate::ast::P;
    match p {
        P::Ref(n) if n == from => {
            if *skip == 0 {
                *n = to.to_string();
            } else {
                *skip -= 1;
            }
        }
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => redirect(b, from, to, skip),
        P::Data(_, Some(b)) => redirect(b, from, to, skip),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().for_each(|x| redirect(x, from, to, skip)),
        _ => {}
    }
}

fn fixed(cx: &mut Cx) -> CaseResult {
    table(
        cx,
        Syn::Rnc,
        "start = a\na = element a { b }\nb = c\nc = element c { b? }",
        &[("<a><c/></a>", true), ("<a><c><c/></c></a>", true), ("<a/>", false)],
    )?;
    table(
        cx,
        Syn::Rnc,
        "start = element r { a }\na |= element x { empty }\na = element y { grammar { start = b  b = element b { parent a? } } }\na |= b\nb = element z { empty }",
        &[
            ("<r><x/></r>", true),
            ("<r><z/></r>", true),
            ("<r><y><b><z/></b></y></r>", true),
            ("<r><y><b><b/></b></y></r>", false),
            ("<r><y/></r>", false),
        ],
    )?;
    table(
        cx,
        Syn::Rnc,
        "start = element r { x }\nx &= element a { empty }\nx &= element b { empty }*",
        &[("<r><b/><a/><b/></r>", true), ("<r><b/></r>", false), ("<r><a/></r>", true)],
    )
}
