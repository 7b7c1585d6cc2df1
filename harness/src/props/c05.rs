//! C05: several files mean the same as one.

use super::common::*;
use crate::ast::simplify;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::split;
use crate::sut::{self, Syn};
use crate::tape::Tape;
use crate::{doc, rnc, rng};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C05",
    tape_len: 900,
    quick: 120000,
    thorough: 3000000,
    run,
    fixed,
    rule: "distinct (file layout with at least one include or external reference, document) pairs with a decided verdict",
    assumptions: &[
        "an in-memory file system implementing the Files trait stands for the real one",
        "acyclic file layouts with up to 5 files",
    ],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 1, wild: false, data: false, elems: 3, depth: 3, ..FULL },
        1 => Opts { uris: 3, wild: false, depth: 3, ..FULL },
        _ => FULL,
    };
    let (orig, names) = schemagen::schema(t, o);
    let g = simplify(&orig);
    let mut sch = orig.clone();
    let n = t.below(4);
    let items = schemagen::gram_items(&mut sch);
    schemagen::extract_defs(t, items, n, "d");
    if t.chance(1, 2) {
        schemagen::split_combine(t, items);
    }
    if t.chance(1, 4) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    if t.chance(1, 2) {
        schemagen::shuffle_div(t, items);
    }
    let root = *t.pick(&["", "", "", "", "", "../", "../../", "../../../x/", "/", "/abs/"]);
    let (inh, st) = split::split_at(t, &mut sch, root);
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let vary = t.chance(2, 3);
    let files = match syn {
        Syn::Rnc => rnc::files_inherit(&sch, t, if vary { rnc::DECLS } else { rnc::PLAIN }, &inh),
        Syn::Rng => {
            let v = if vary { rng::Vary { inherit: true, names: true, ..rng::PLAIN } } else { rng::PLAIN };
            rng::files_inherit(&sch, t, v, &inh)
        }
    };
    cx.note(show_files(&files));
    let schema = load(&files, syn)?;
    for _ in 0..4 {
        let (d, _) = near_doc(t, &g, &names, 14);
        let text = doc::canonical(&d);
        if judge(cx, &g, &d, &text, &schema, &files)?.is_some() && files.len() > 1 {
            cx.nontrivial(&(&sch, &d));
            cx.class(&format!("{} files", files.len()));
            cx.class_if(st.overrides > 0, "overrides");
            cx.class_if(st.root.starts_with(".."), "files above the directory of the first");
            cx.class_if(st.root.starts_with('/'), "absolute paths");
            cx.class_if(st.externals > 0, "external references or included nested grammars");
            cx.class_if(st.inherits > 0, "inherited namespace");
        }
    }
    Ok(())
}

/// compiles the files, all of which the first one refers to
fn load(files: &[(String, String)], syn: Syn) -> Result<sut::Schema, String> {
    let mut c = sut::Comp::new(files.to_vec(), syn);
    let schema = c.compile(&files[0].0).map_err(|e| format!("a correct schema was rejected with {}: {e:?}\n{}", sut::variant(&e), show_files(files)))?;
    let got: BTreeSet<String> = c.c.loaded().map(|p| sut::normalise(p)).collect();
    let want: BTreeSet<String> = files.iter().map(|f| f.0.clone()).collect();
    if got != want {
        return Err(format!("the files of the schema are reported as {got:?}\n{}", show_files(files)));
    }
    Ok(schema)
}

fn check_files(cx: &mut Cx, files: &[(&str, &str)], docs: &[(&str, bool)]) -> CaseResult {
    let files: Vec<(String, String)> = files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let syn = if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc };
    let s = load(&files, syn)?;
    for (d, want) in docs {
        cx.eval();
        let got = sut::validate(&s, d);
        if got.ok() != *want {
            return Err(format!("{d} must be {}, got {}\n{}", if *want { "valid" } else { "invalid" }, got.short(), show_files(&files)));
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    check_files(
        cx,
        &[
            ("main.rnc", "datatypes d = \"http://www.w3.org/2001/XMLSchema-datatypes\"\ninclude \"sub/x.rnc\" { foo = element foo { d:int } }\nstart = foo | bar"),
            ("sub/x.rnc", "foo = element foo { text }\nfoo |= element foo2 { empty }\ninclude \"../y.rnc\""),
            ("y.rnc", "bar = element bar { foo }"),
        ],
        &[("<foo>1</foo>", true), ("<foo>x</foo>", false), ("<foo2/>", false), ("<bar><foo>1</foo></bar>", true), ("<bar><foo>x</foo></bar>", false)],
    )?;
    check_files(
        cx,
        &[
            ("main.rnc", "namespace p = \"urn:p\"\nelement a { external \"x.rnc\" inherit = p }"),
            ("x.rnc", "element b { attribute c { text } }"),
        ],
        &[("<a><b xmlns='urn:p' c=''/></a>", true), ("<a><b c=''/></a>", false)],
    )?;
    check_files(
        cx,
        &[
            ("main.rnc", "default namespace = \"urn:p\"\ninclude \"x.rnc\""),
            ("x.rnc", "start = element b { empty }"),
        ],
        &[("<b xmlns='urn:p'/>", true), ("<b/>", false)],
    )?;
    check_files(
        cx,
        &[
            ("main.rng", "<element name='a' xmlns='http://relaxng.org/ns/structure/1.0'><externalRef href='x.rng' ns='urn:p'/></element>"),
            ("x.rng", "<element name='b' xmlns='http://relaxng.org/ns/structure/1.0'><attribute name='c'/></element>"),
        ],
        &[("<a><b xmlns='urn:p' c=''/></a>", true), ("<a><b c=''/></a>", false)],
    )?;
    // e10dba6: the overridden definition refers to itself
    check_files(
        cx,
        &[
            ("main.rnc", "include \"x.rnc\" { e1 = element a { empty } }\nstart = e1"),
            ("x.rnc", "e1 |= e1?"),
        ],
        &[("<a/>", true), ("<b/>", false)],
    )
}
