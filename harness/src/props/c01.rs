//! C01: the verdict equals the reference matcher's.

use super::common::*;
use crate::ast::simplify;
use crate::doc;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::sut::Syn;
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C01",
    tape_len: 700,
    quick: 120000,
    thorough: 3000000,
    run,
    fixed,
    rule: "distinct (schema, document) pairs whose document is an instance of the schema or an instance with 1-3 edits, and whose verdict the reference matcher decided",
    assumptions: &[
        "schemas respect the section 7 restrictions that README documents as unchecked",
        "at most 9 children and 6 attributes per element",
    ],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(4) {
        0 => Opts { uris: 1, wild: false, data: false, elems: 3, ..FULL },
        1 => Opts { uris: 2, wild: false, ..FULL },
        _ => FULL,
    };
    let (sch, names) = schemagen::schema(t, o);
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    let g = simplify(&sch);
    cx.note(show_files(&files));
    let schema = must_compile(&files, syn)?;
    for _ in 0..4 {
        let (d, edits) = near_doc(t, &g, &names, 14);
        let text = doc::canonical(&d);
        if judge(cx, &g, &d, &text, &schema, &files)?.is_some() {
            if edits < 9 {
                cx.nontrivial(&(&sch, &d));
            }
            cx.class_if(d.depth() > 2, "depth over 2");
            cx.class_if(!d.attrs.is_empty(), "root with attributes");
            cx.class(&format!("{edits} edits"));
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    table(cx, Syn::Rnc, "element foo { empty }", &[("<foo/>", true), ("<foo> </foo>", true), ("<foo>x</foo>", false)])
}
