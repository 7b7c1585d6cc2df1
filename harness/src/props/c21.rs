//! C21: equivalent spellings of a compact schema mean the same.

use super::common::*;
use crate::ast::*;
use crate::doc;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::split;
use crate::sut::Syn;
use crate::tape::Tape;
use crate::rnc;

pub const PROP: Prop = Prop {
    id: "C21",
    tape_len: 1400,
    quick: 90000,
    thorough: 2250000,
    run,
    fixed,
    rule: "distinct (spelling of a compact schema that differs from the plain one, document) pairs with a decided verdict",
    assumptions: &["the printer of the harness varies only what the definition of the compact syntax declares to be equivalent"],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 2, wild: false, elems: 2, depth: 3, ..FULL },
        _ => FULL,
    };
    let (mut sch, names) = schemagen::schema(t, o);
    let g = simplify(&sch);
    let items = schemagen::gram_items(&mut sch);
    // definitions named like keywords have to be quoted
    if t.chance(1, 2) {
        for n in ["e0", "e1"] {
            let k = *t.pick(&["element", "text", "start", "string", "empty", "x-1", "é", "list", "stringent", "tokens", "startx", "inherit", "_"]);
            if k != "start" && !schemagen::def_names(items).iter().any(|d| d == k) {
                rename(items, n, k);
            }
        }
    }
    let n = t.below(3);
    schemagen::extract_defs(t, items, n, "d");
    if t.chance(1, 3) {
        schemagen::split_combine(t, items);
    }
    if t.chance(1, 4) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    if t.chance(1, 3) {
        schemagen::shuffle_div(t, items);
    }
    let inh = if t.chance(1, 6) { split::split(t, &mut sch).0 } else { Default::default() };
    for _ in 0..2 {
        let v = if t.chance(1, 3) {
            rnc::Vary {
                space: t.chance(1, 2),
                annotations: t.chance(1, 2),
                parens: t.chance(1, 2),
                literals: t.chance(1, 2),
                quote_ids: t.chance(1, 2),
                decls: t.chance(1, 2),
                wrap: t.chance(1, 2),
            }
        } else {
            rnc::ALL
        };
        let mut files = rnc::files_inherit(&sch, t, v, &inh);
        for f in files.iter_mut().filter(|_| v.space) {
            if t.chance(1, 8) {
                f.1.insert(0, '\u{feff}');
            }
        }
        let plain = inh.is_empty() && files == rnc::files(&sch, &mut Tape::new(&[]), rnc::PLAIN);
        cx.note(show_files(&files));
        let schema = must_compile(&files, Syn::Rnc)?;
        for _ in 0..2 {
            let (d, _) = near_doc(t, &g, &names, 12);
            let text = doc::canonical(&d);
            if judge(cx, &g, &d, &text, &schema, &files)?.is_some() && !plain {
                cx.nontrivial(&(&files, &d));
                let s = &files[0].1;
                cx.class_if(s.starts_with('\u{feff}'), "byte order mark");
                cx.class_if(s.contains('#'), "comment or documentation");
                cx.class_if(s.contains('[') || s.contains(">>"), "annotation");
                cx.class_if(s.contains('~'), "concatenation");
                cx.class_if(s.contains('\\'), "quoted identifier or escape");
                cx.class_if(s.contains("\"\"\"") || s.contains("'''"), "triple quotes");
                cx.class_if(s.contains("default namespace"), "default namespace");
            }
        }
    }
    Ok(())
}

pub fn rename(items: &mut [Item], from: &str, to: &str) {
    fn pat(p: &mut P, from: &str, to: &str) {
        match p {
            P::Ref(n) if n == from => *n = to.to_string(),
            P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => pat(b, from, to),
            P::Data(_, Some(b)) => pat(b, from, to),
            P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().for_each(|x| pat(x, from, to)),
            _ => {}
        }
    }
    for i in items {
        match i {
            Item::Def(n, _, p) => {
                if n == from {
                    *n = to.to_string()
                }
                pat(p, from, to)
            }
            Item::Div(v) => rename(v, from, to),
            _ => {}
        }
    }
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let docs: &[(&str, bool)] = &[("<a b='x y'><c/></a>", true), ("<a b='x  y'><c/></a>", true), ("<a b='xy'><c/></a>", false), ("<a b='x y'/>", false), ("<a b='x y'><d/></a>", false)];
    for s in [
        "element a { attribute b { \"x y\" }, element c { empty } }",
        "element a{attribute b{\"x y\"},element c{empty}}",
        "# comment\nelement # x\na { # {\nattribute b { 'x' ~ \" \" ~ '''y''' }, element c { empty } } # end",
        "start = element a { attribute b { token \"x y\" } , (\\c) }\n\\c = element c { empty }",
        "grammar { start = a  a = element a { (attribute b { (\"x y\") }), ((element c { (empty) })) } }",
        "## doc\n## doc\nelement a { [ x = \"1\" ] attribute b { \"x\\x{20}y\" } >> n [], element \\c { empty } }",
        "q:n [ ]\nstart = element a { attribute b { \"x y\" }, element c { string = empty? } }",
        "div { start = [] element a { attribute b { \"x y\" }, tokens } }\ntokens = element c { empty }",
        "namespace x = \"\"\ndefault namespace = \"\"\nelement x:a { attribute b { \"x y\" }, element c { empty } }",
        "\u{feff}element a { attribute b { \"x y\" }, element c { empty } }",
        "datatypes d = \"http://www.w3.org/2001/\" ~ \"XMLSchema-datatypes\"\nelement a { attribute b { d:token \"x y\" }, element c { empty } }",
    ] {
        if s.contains("string =") {
            continue;
        }
        table(cx, Syn::Rnc, s, docs)?;
    }
    Ok(())
}
