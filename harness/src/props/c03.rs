//! C03: both syntaxes of one schema mean the same.

use super::common::*;
use crate::ast::*;
use crate::dtgen;
use crate::fault;
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::split;
use crate::sut::{self, Syn};
use crate::tape::Tape;
use crate::{doc, rnc, rng};

pub const PROP: Prop = Prop {
    id: "C03",
    tape_len: 1000,
    quick: 30000,
    thorough: 750000,
    run,
    fixed,
    rule: "distinct (schema printed in both syntaxes, document) pairs, and schemas with an injected fault printed in both syntaxes",
    assumptions: &["the two printers of the harness state the same schema; each is also checked against the reference matcher"],
    known: &[],
    shrink_iters: 3000,
};

/// replaces some datatypes with ones from the whole library
pub fn enrich(t: &mut Tape, p: &mut P, in_value: bool) {
    match p {
        P::Data(d, ex) => {
            if t.chance(1, 2) {
                *d = dtgen::any(t);
            }
            if let Some(e) = ex {
                enrich(t, e, true)
            }
        }
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => enrich(t, b, in_value),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().for_each(|x| enrich(t, x, in_value)),
        P::Grammar(v) => enrich_items(t, v),
        _ => {}
    }
}
pub fn enrich_items(t: &mut Tape, v: &mut [Item]) {
    for i in v {
        match i {
            Item::Def(_, _, p) => enrich(t, p, false),
            Item::Div(w) => enrich_items(t, w),
            _ => {}
        }
    }
}

fn items_types(v: &[Item], out: &mut Vec<crate::dt::Dt>) {
    for i in v {
        match i {
            Item::Def(_, _, p) => walk(p, &mut |q| {
                if let P::Data(d, _) = q {
                    out.push(d.clone())
                }
            }),
            Item::Div(w) => items_types(w, out),
            _ => {}
        }
    }
}
/// every attribute value and text, whole and in tokens
fn strings(d: &doc::DElem) -> Vec<String> {
    let mut v: Vec<String> = d.attrs.iter().map(|a| a.2.clone()).collect();
    let mut all = String::new();
    for k in &d.kids {
        match k {
            doc::DN::Text(s) => {
                v.push(s.clone());
                all.push_str(s);
            }
            doc::DN::Elem(e) => v.extend(strings(e)),
        }
    }
    v.push(all);
    let toks: Vec<String> = v.iter().flat_map(|s| crate::dt::tokens(s)).collect();
    v.extend(toks);
    v
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 1, wild: false, elems: 3, depth: 3, ..FULL },
        _ => FULL,
    };
    let (mut sch, names) = schemagen::schema(t, o);
    enrich_items(t, schemagen::gram_items(&mut sch));
    let g = simplify(&sch);
    let items = schemagen::gram_items(&mut sch);
    let mut types = vec![];
    items_types(items, &mut types);
    let n = t.below(4);
    schemagen::extract_defs(t, items, n, "d");
    if t.chance(1, 3) {
        schemagen::split_combine(t, items);
    }
    if t.chance(1, 5) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    let inh = if t.chance(1, 3) { split::split(t, &mut sch).0 } else { Default::default() };
    let fault = if t.chance(1, 4) { fault::inject(t, &mut sch) } else { None };
    let v = t.chance(1, 2);
    let cf = rnc::files_inherit(&sch, t, if v { rnc::DECLS } else { rnc::PLAIN }, &inh);
    let xf = rng::files_inherit(&sch, t, if v { rng::Vary { names: true, inherit: true, expand: true, implicit: true, ..rng::PLAIN } } else { rng::PLAIN }, &inh);
    let both: Vec<(String, String)> = cf.iter().chain(xf.iter()).cloned().collect();
    cx.note(show_files(&both));
    let c = sut::compile(cf, Syn::Rnc);
    let x = sut::compile(xf, Syn::Rng);
    if let Some(f) = fault {
        cx.eval();
        cx.class(&format!("fault: {}", f.name));
        cx.nontrivial(&(&sch, f.name));
        let (vc, vx) = (c.as_ref().err().map(sut::kind), x.as_ref().err().map(sut::kind));
        if vc.is_none() || vx.is_none() || vc != vx {
            return Err(format!(
                "{}: the compact form gives {}, the XML form {}\n{}",
                f.name,
                vc.unwrap_or("no error".into()),
                vx.unwrap_or("no error".into()),
                show_files(&both)
            ));
        }
        return Ok(());
    }
    let (c, x) = match (c, x) {
        (Ok(c), Ok(x)) => (c, x),
        (c, x) => {
            return Err(format!(
                "correct schema: compact form {:?}, XML form {:?}\n{}",
                c.err(),
                x.err(),
                show_files(&both)
            ));
        }
    };
    for _ in 0..4 {
        let (d, _) = near_doc(t, &g, &names, 14);
        let text = doc::canonical(&d);
        cx.eval();
        let (a, b) = (sut::validate(&c, &text), sut::validate(&x, &text));
        cx.class(if a.ok() { "document valid" } else { "document invalid" });
        if a.ok() != b.ok() {
            return Err(format!("compact form: {}; XML form: {}\n{}--- document\n{text}", a.short(), b.short(), show_files(&both)));
        }
        if let (sut::Verdict::Invalid(e), sut::Verdict::Invalid(f)) = (&a, &b) {
            if (e.index, e.span) != (f.index, f.span) {
                cx.class("same verdict, first error at another place");
            }
        }
        if types.iter().any(|ty| strings(&d).iter().any(|s| dtgen::debatable(ty, s))) {
            cx.class("value on which editions disagree (compared only with each other)");
        } else if let Some(want) = Matcher::valid(&g, &d) {
            if a.ok() != want {
                return Err(format!(
                    "both forms: {}; by the specification {}\n{}--- document\n{text}",
                    a.short(),
                    if want { "valid" } else { "invalid" },
                    show_files(&both)
                ));
            }
        } else {
            cx.class("oracle gave up (compared only with each other)");
        }
        cx.nontrivial(&(&sch, &d));
        cx.sample(|| format!("{}--- document\n{text}", show_files(&both)));
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let pairs: &[(&str, &str, &[(&str, bool)])] = &[
        (
            "element a { token { pattern = \"x\" } | \"y\" }",
            "",
            &[],
        ),
        (
            "element a { attribute b { token \"1 2\" }, string \" x \" }",
            "<element name='a' xmlns='http://relaxng.org/ns/structure/1.0' datatypeLibrary='http://www.w3.org/2001/XMLSchema-datatypes'><attribute name='b'><value> 1 2 </value></attribute><value type='string' datatypeLibrary=''> x </value></element>",
            &[("<a b=' 1  2'> x </a>", true), ("<a b='12'> x </a>", false), ("<a b='1 2'>x</a>", false)],
        ),
        (
            "element a { element * - b { empty }+ }",
            "<element name='a' xmlns='http://relaxng.org/ns/structure/1.0'><oneOrMore><element><anyName><except><name>b</name></except></anyName><empty/></element></oneOrMore></element>",
            &[("<a><c/></a>", true), ("<a><b/></a>", false), ("<a><b xmlns='u'/></a>", true)],
        ),
    ];
    for (c, x, docs) in pairs {
        if x.is_empty() {
            cx.eval();
            // parameters on built-in types are an error in either syntax
            if sut::compile_rnc(c).is_ok() {
                return Err(format!("accepted: {c}"));
            }
            continue;
        }
        table(cx, Syn::Rnc, c, docs)?;
        table(cx, Syn::Rng, x, docs)?;
    }
    Ok(())
}
