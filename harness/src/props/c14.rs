//! C14: built-in datatypes, literal values, exceptions and lists.

use super::common::*;
use crate::ast::*;
use crate::doc::{self, DElem, DN};
use crate::dt::{self, Dt};
use crate::dtgen;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen;
use crate::sut::Syn;
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C14",
    tape_len: 700,
    quick: 250000,
    thorough: 6250000,
    run,
    fixed,
    rule: "distinct (patterns, attribute value, content) triples with a decided verdict",
    assumptions: &["values have the types string and token (the other types of the XML Schema library are not supported for values)"],
    known: &[],
    shrink_iters: 4000,
};

/// replaces some datatypes by ones of the whole library
fn widen(t: &mut Tape, p: &mut P) {
    match p {
        P::Data(d, e) => {
            if t.chance(1, 3) {
                *d = dtgen::any(t);
            }
            if let Some(e) = e {
                widen(t, e);
            }
        }
        P::Group(v) | P::Choice(v) => v.iter_mut().for_each(|p| widen(t, p)),
        P::Opt(p) | P::Star(p) | P::Plus(p) | P::List(p) => widen(t, p),
        _ => {}
    }
}

fn types<'a>(p: &'a P, out: &mut Vec<&'a Dt>) {
    match p {
        P::Data(d, e) => {
            out.push(d);
            if let Some(e) = e {
                types(e, out);
            }
        }
        P::Group(v) | P::Choice(v) => v.iter().for_each(|p| types(p, out)),
        P::Opt(p) | P::Star(p) | P::Plus(p) | P::List(p) => types(p, out),
        _ => {}
    }
}

const WS: &[&str] = &[" ", "\t", "\n", "  ", " \r\n ", "\r"];

fn near_literal(t: &mut Tape, s: &str) -> String {
    match t.below(14) {
        12 => s.replace(' ', "\u{a0}"),
        13 => s.replace(['\u{a0}', '\u{2003}'], " "),
        0 => format!("{}{s}", t.pick(WS)),
        1 => format!("{s}{}", t.pick(WS)),
        2 => format!("{}{s}{}", t.pick(WS), t.pick(WS)),
        3 => s.replace(' ', t.pick(WS)),
        4 => dt::collapse(s),
        5 => s.replace(' ', ""),
        6 => s.to_uppercase(),
        7 => format!("{s}{s}"),
        8 => {
            let mut c = s.to_string();
            c.pop();
            c
        }
        9 => format!("{s}\u{a0}"),
        _ => s.to_string(),
    }
}

/// a string in or near the language of the pattern
fn near(t: &mut Tape, p: &P, toks: &mut Vec<String>) {
    match p {
        P::Value(_, s) => toks.push(near_literal(t, s)),
        P::Data(d, e) => {
            let n = toks.len();
            if let Some(e) = e {
                if t.chance(1, 2) {
                    near(t, e, toks);
                }
            }
            if toks.len() == n {
                toks.push(dtgen::value(t, d));
            }
        }
        P::Choice(v) => {
            let i = t.below(v.len());
            near(t, &v[i], toks)
        }
        P::Group(v) => v.iter().for_each(|p| near(t, p, toks)),
        P::Opt(p) => {
            if t.chance(1, 2) {
                near(t, p, toks)
            }
        }
        P::Star(p) => (0..t.below(4)).for_each(|_| near(t, p, toks)),
        P::Plus(p) => (0..1 + t.below(3)).for_each(|_| near(t, p, toks)),
        P::List(p) => {
            let mut inner = vec![];
            near(t, p, &mut inner);
            match t.below(8) {
                0 => {
                    inner.pop();
                }
                1 => inner.push("x".into()),
                2 if inner.len() > 1 => {
                    let i = t.below(inner.len() - 1);
                    inner.swap(i, i + 1);
                }
                _ => {}
            }
            let sep = *t.pick(WS);
            let mut s = inner.join(sep);
            if t.chance(1, 4) {
                s = format!("{}{s}{}", t.pick(WS), t.pick(WS));
            }
            toks.push(s);
        }
        _ => {}
    }
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let mut ps = vec![];
    for _ in 0..2 {
        let mut p = if t.chance(1, 2) { schemagen::simple(t, true, 3) } else { P::List(Box::new(schemagen::list(t, true, 3))) };
        widen(t, &mut p);
        ps.push(p);
    }
    let (a, c) = (ps[0].clone(), ps[1].clone());
    let inner = P::Group(vec![P::Attr(Nc::local("v"), Box::new(a.clone())), c.clone()]);
    let sch = Sch::single(Body::Pat(P::Elem(Nc::local("a"), Box::new(inner))));
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    cx.note(show_files(&files));
    let schema = must_compile(&files, syn)?;
    let g = simplify(&sch);
    let mut ds = vec![];
    types(&a, &mut ds);
    types(&c, &mut ds);
    let ds: Vec<Dt> = ds.into_iter().cloned().collect();
    for _ in 0..6 {
        let mut s = [String::new(), String::new()];
        for (i, p) in [&a, &c].into_iter().enumerate() {
            let mut toks = vec![];
            near(t, p, &mut toks);
            s[i] = toks.join(" ");
        }
        let [v, w] = s;
        let odd = |s: &str| {
            !s.chars().all(|c| matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..))
                || ds.iter().any(|d| dtgen::debatable(d, s) || dt::tokens(s).iter().any(|x| dtgen::debatable(d, x)))
        };
        if odd(&v) || odd(&w) {
            cx.class("value on which editions disagree (left out)");
            continue;
        }
        let mut e = DElem::new("", "a");
        e.attrs.push((String::new(), "v".into(), v.clone()));
        if !w.is_empty() {
            e.kids.push(DN::Text(w.clone()));
        }
        let text = doc::canonical(&e);
        if judge(cx, &g, &e, &text, &schema, &files)?.is_some() {
            cx.nontrivial(&(&sch, &v, &w));
            let has = |f: &dyn Fn(&P) -> bool| {
                fn any(p: &P, f: &dyn Fn(&P) -> bool) -> bool {
                    f(p) || match p {
                        P::Data(_, Some(e)) => any(e, f),
                        P::Group(v) | P::Choice(v) => v.iter().any(|p| any(p, f)),
                        P::Opt(p) | P::Star(p) | P::Plus(p) | P::List(p) => any(p, f),
                        _ => false,
                    }
                }
                any(&a, f) || any(&c, f)
            };
            cx.class_if(has(&|p| matches!(p, P::List(_))), "list");
            cx.class_if(has(&|p| matches!(p, P::Data(_, Some(_)))), "exception");
            cx.class_if(has(&|p| matches!(p, P::Value(..))), "literal");
            cx.class_if(has(&|p| matches!(p, P::Choice(..))), "choice");
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let two = |cx: &mut Cx, p: &str, yes: &[&str], no: &[&str]| -> CaseResult {
        let rows: Vec<(String, bool)> = yes
            .iter()
            .map(|v| (v, true))
            .chain(no.iter().map(|v| (v, false)))
            .flat_map(|(v, b)| [(format!("<a v='{v}'/>"), b), (format!("<a>{v}</a>"), b)])
            .collect();
        let rows: Vec<(&str, bool)> = rows.iter().map(|(a, b)| (&a[..], *b)).collect();
        table(cx, Syn::Rnc, &format!("element a {{ attribute v {{ {p} }} | ({p}) }}"), &rows)
    };
    two(cx, "\"a b\"", &["a b", " a&#10;b ", "a  b"], &["ab", "a b c", "A b", "", "a&#160;b"])?;
    two(cx, "string \"a b\"", &["a b"], &["a  b", " a b", "a b ", "ab", ""])?;
    two(cx, "token - \"x\"", &["y", "", "x x", "X"], &["x", " x&#10;"])?;
    two(cx, "string - token \"x\"", &["y", "x x"], &["x", " x "])?;
    two(cx, "token - (\"x\" | \"y\" | token - \"z\")", &["z", " z "], &["x", "y", "w", ""])?;
    two(cx, "list { \"a\", \"b\"?, xsd:int* }", &["a", "a b", " a  1 2", "a b&#10;-3 "], &["", "b", "a b c", "1 a", "a b b"])?;
    two(cx, "list { empty }", &["", " ", "&#10;"], &["x"])?;
    two(cx, "list { (\"a\" | \"b\")+ } | \"c d\"", &["a", "b a b", "c  d"], &["", "c", "a c", "d c"])?;
    two(cx, "list { token, token }", &["a b", "x  y"], &["a", "a b c", ""])?;
    two(cx, "xsd:token \"a b\"", &["a b", " a  b"], &["ab"])?;
    two(cx, "xsd:string \" a\"", &[" a"], &["a", "  a"])
}
