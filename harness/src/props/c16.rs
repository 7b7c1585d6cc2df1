//! C16: the first error points at the first construct after which the document can't be completed.

use super::common::*;
use crate::ast::{Arena, simplify};
use crate::doc::{self, DElem, DN, Ev, EvKind};
use crate::dt;
use crate::oracle::{Cut, Matcher};
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::sut::{self, Syn, Verdict};
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C16",
    tape_len: 700,
    quick: 60000,
    thorough: 1500000,
    run,
    fixed,
    rule: "distinct (schema, invalid document) pairs whose first dead construct the reference decided",
    assumptions: &[
        "every pattern of the schema has an instance, apart from alternatives which are notAllowed",
        "a text is judged as a whole, up to the next tag; attributes in the order in which they are written",
        "at most 9 children and 6 attributes per element",
    ],
    known: &[],
    shrink_iters: 3000,
};

/// adjacent text joined, empty text dropped
pub fn join_text(e: &mut DElem) {
    let mut kids: Vec<DN> = vec![];
    for k in e.kids.drain(..) {
        match (k, kids.last_mut()) {
            (DN::Text(s), _) if s.is_empty() => {}
            (DN::Text(s), Some(DN::Text(p))) => p.push_str(&s),
            (DN::Elem(mut c), _) => {
                join_text(&mut c);
                kids.push(DN::Elem(c));
            }
            (k, _) => kids.push(k),
        }
    }
    e.kids = kids;
}

pub fn node<'a>(e: &'a DElem, path: &[usize]) -> &'a DElem {
    match path.first() {
        None => e,
        Some(i) => match &e.kids[*i] {
            DN::Elem(c) => node(c, &path[1..]),
            _ => panic!("path to text"),
        },
    }
}

#[derive(Debug, Clone)]
pub enum Dead {
    /// the name of the element
    Name(Ev),
    Attr(Ev, usize),
    /// attributes are missing
    StartEnd(Ev),
    Text(Ev),
    End(Ev),
}
impl Dead {
    pub fn class(&self) -> &'static str {
        match self {
            Dead::Name(_) => "unexpected element",
            Dead::Attr(..) => "unexpected attribute or value",
            Dead::StartEnd(_) => "missing attribute",
            Dead::Text(_) => "unexpected text",
            Dead::End(_) => "missing content",
        }
    }
    /// where the error may point
    pub fn span(&self) -> (usize, usize) {
        match self {
            Dead::Name(e) => e.name,
            Dead::Attr(e, i) => e.attrs[*i],
            Dead::StartEnd(e) => (e.span.1 - 2, e.span.1),
            Dead::Text(e) | Dead::End(e) => e.span,
        }
    }
}

/// the first construct after which the document can't be completed (Some(None): there is none);
/// None: not decided
pub fn first_dead(g: &Arena, d: &DElem, evs: &[Ev]) -> Option<Option<Dead>> {
    let mut points: Vec<(Dead, Cut)> = vec![];
    for ev in evs {
        match ev.kind {
            EvKind::Start => {
                points.push((Dead::Name(ev.clone()), Cut::Name));
                let mut order: Vec<usize> = (0..ev.attrs.len()).collect();
                order.sort_by_key(|i| ev.attrs[*i].0);
                for n in 1..=order.len() {
                    points.push((Dead::Attr(ev.clone(), order[n - 1]), Cut::Attrs(order[..n].to_vec(), false)));
                }
                points.push((Dead::StartEnd(ev.clone()), Cut::Attrs(order, true)));
            }
            EvKind::Text => {
                let (last, parent) = ev.path.split_last().unwrap();
                let DN::Text(s) = &node(d, parent).kids[*last] else { panic!("no text") };
                if !dt::ws_only(s) {
                    points.push((Dead::Text(ev.clone()), Cut::All));
                }
            }
            EvKind::End => points.push((Dead::End(ev.clone()), Cut::All)),
        }
    }
    let path = |k: &Dead| match k {
        Dead::Name(e) | Dead::Attr(e, _) | Dead::StartEnd(e) | Dead::Text(e) | Dead::End(e) => e.path.clone(),
    };
    // once a prefix can't be completed, no longer one can
    let (mut lo, mut hi) = (0, points.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        let (k, cut) = &points[mid];
        if Matcher::viable(g, d, &path(k), cut)? {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    Some(points.get(lo).map(|p| p.0.clone()))
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(4) {
        0 => Opts { uris: 1, wild: false, data: false, elems: 3, ..FULL },
        1 => Opts { uris: 2, wild: false, not_allowed: false, ..FULL },
        2 => Opts { not_allowed: false, ..FULL },
        _ => FULL,
    };
    let (sch, names) = schemagen::schema(t, o);
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    let g = simplify(&sch);
    cx.note(show_files(&files));
    if !g.satisfiable() {
        cx.class("schema with a pattern without instance (excluded)");
        return Ok(());
    }
    let schema = must_compile(&files, syn)?;
    for _ in 0..4 {
        let (mut d, n) = near_doc(t, &g, &names, 14);
        for _ in 0..if n < 2 { t.below(3) } else { 0 } {
            doc::mutate(t, &mut d, &names);
        }
        join_text(&mut d);
        let style = if t.chance(1, 2) { doc::CANONICAL } else { doc::VARIED };
        let (text, evs) = doc::print(&d, t, style);
        cx.note(format!("{}--- document\n{text}", show_files(&files)));
        check(cx, &g, &d, &text, &evs, &schema, &show_files(&files))?;
    }
    Ok(())
}

fn check(cx: &mut Cx, g: &Arena, d: &DElem, text: &str, evs: &[Ev], schema: &sut::Schema, shown: &str) -> CaseResult {
    let (Some(dead), Some(valid)) = (first_dead(g, d, evs), Matcher::valid(g, d)) else {
        cx.class("oracle gave up (excluded)");
        return Ok(());
    };
    assert_eq!(dead.is_none(), valid, "the reference contradicts itself\n{shown}--- document\n{text}");
    cx.eval();
    let got = sut::validate(schema, text);
    let fail = |m: String| Err(format!("{m}, but the library says {}\n{shown}--- document\n{text}", got.short()));
    match (&dead, &got) {
        (None, Verdict::Valid) => cx.class("document valid"),
        (None, _) => return fail("the document is valid".into()),
        (Some(k), Verdict::Invalid(e)) => {
            let (lo, hi) = k.span();
            let ok = e.kind == "NotAllowed" && e.span.is_some_and(|(a, b)| lo <= a && b <= hi && a < b);
            let token = match k {
                Dead::Name(_) => e.token == "element-start",
                Dead::Attr(..) => e.token == "attribute",
                Dead::StartEnd(_) | Dead::End(_) => e.token == "element-end",
                Dead::Text(_) => e.token == "text" || e.token == "cdata",
            };
            if !ok || !token {
                return fail(format!("the document can't be completed after the {} at {lo}..{hi}", k.class()));
            }
            cx.class(k.class());
            cx.nontrivial(&(shown, text));
            cx.sample(|| format!("{shown}--- document ({} at {lo}..{hi})\n{text}", k.class()));
        }
        (Some(k), _) => return fail(format!("the document can't be completed after the {} at {:?}", k.class(), k.span())),
    }
    Ok(())
}

/// schema, document, text at which the first error points (its last occurrence)
const ROWS: &[(&str, &str, &str)] = &[
    ("element a { element b { empty }, element c { empty } }", "<a><c/><b/></a>", "c"),
    ("element a { element b { empty }, element c { empty } }", "<a><b/></a>", "</a>"),
    ("element a { attribute x { text }+, element c { empty } }", "<a><c/></a>", ">"),
    ("element a { attribute * { text }+, element c { empty } }", "<a ><c/></a>", ""),
    ("element a { attribute x { \"1\" } }", "<a x='2'/>", "x='2'"),
    ("element a { attribute x { \"1\" }, attribute y { text } }", "<a y='' z='' x='2'/>", "z=''"),
    ("element a { element b { empty }* }", "<a><b/>x<b/></a>", "x"),
    ("element a { xsd:int }", "<a>1<!-- -->2 x<b/></a>", "1"),
    ("element a { (element b { empty } | element b { element c { empty } }), element d { empty } }", "<a><b><c/></b><b/></a>", ""),
];

fn fixed(cx: &mut Cx) -> CaseResult {
    for (s, d, at) in ROWS {
        cx.eval();
        let schema = sut::compile_rnc(s).map_err(|e| format!("{s}: {e:?}"))?;
        let got = sut::validate(&schema, d);
        let Verdict::Invalid(e) = &got else { return Err(format!("{s}\n{d}\nis {}", got.short())) };
        if let (Some((a, b)), false) = (e.span, at.is_empty()) {
            if &d[a..b] != *at {
                return Err(format!("{s}\n{d}\nthe first error should point at {at:?}, got {:?}", &d[a..b]));
            }
        }
    }
    Ok(())
}
