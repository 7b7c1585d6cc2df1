//! C17: the help message of an unexpected element or end tag lists the elements which may come.

use super::c16::{Dead, first_dead, join_text, node};
use super::common::*;
use crate::ast::*;
use crate::doc::{self, DElem, DN, Names};
use crate::oracle::{Cut, Matcher};
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::sut::{self, Syn};
use crate::tape::Tape;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C17",
    tape_len: 900,
    quick: 25000,
    thorough: 625000,
    run,
    fixed,
    rule: "distinct (schema, document) pairs which fail at an element or end tag and whose allowed elements the reference decided",
    assumptions: &[
        "every pattern of the schema has an instance, apart from alternatives which are notAllowed",
        "for schemas with wildcards only: names which are listed may come, and something is listed exactly if some element may come",
    ],
    known: &[],
    shrink_iters: 3000,
};

/// names among the candidates which an element at the place may have
fn allowed(g: &Arena, d: &DElem, k: &Dead, names: &[(String, String)]) -> Option<BTreeSet<(String, String)>> {
    let mut out = BTreeSet::new();
    for (ns, l) in names {
        let ok = match k {
            Dead::Name(e) if e.path.is_empty() => {
                let r = DElem::new(ns, l);
                Matcher::viable(g, &r, &[], &Cut::Name)?
            }
            Dead::Name(e) => {
                let (last, parent) = e.path.split_last().unwrap();
                let mut d = d.clone();
                let mut p = &mut d;
                for i in parent {
                    let DN::Elem(c) = &mut p.kids[*i] else { panic!() };
                    p = c;
                }
                p.kids.truncate(*last);
                Matcher::viable(g, &d, parent, &Cut::Next(ns.clone(), l.clone()))?
            }
            Dead::End(e) => Matcher::viable(g, d, &e.path, &Cut::Next(ns.clone(), l.clone()))?,
            _ => unreachable!(),
        };
        if ok {
            out.insert((ns.clone(), l.clone()));
        }
    }
    Some(out)
}

/// items listed, and the number of further ones; None: the message has another form
fn parse_help(m: &str) -> Option<(Vec<String>, usize)> {
    if m == "Remove this" {
        return Some((vec![], 0));
    }
    let rest = m.strip_prefix("Expected Element ")?;
    let (list, more) = match rest.split_once(" .. or one of ") {
        None => (rest, 0),
        Some((l, n)) => (l, n.strip_suffix(" more")?.parse().ok()?),
    };
    Some((list.split(' ').map(|s| s.to_string()).collect(), more))
}

/// an expression over elements with distinct names
fn wide(t: &mut Tape, depth: usize, n: &mut usize) -> P {
    const L: &[&str] = &["b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"];
    if depth == 0 || *n >= L.len() - 1 || t.chance(1, 8) {
        let l = L[*n % L.len()];
        *n += 1;
        return P::Elem(Nc::local(l), Box::new(P::Empty));
    }
    let k = 2 + t.below(3);
    match t.below(8) {
        0 | 1 => P::Group((0..k).map(|_| wide(t, depth - 1, n)).collect()),
        2 | 3 => P::Choice((0..k).map(|_| wide(t, depth - 1, n)).collect()),
        4 => P::Inter((0..k).map(|_| wide(t, depth - 1, n)).collect()),
        5 => P::Opt(Box::new(wide(t, depth - 1, n))),
        6 => P::Star(Box::new(wide(t, depth - 1, n))),
        _ => P::Plus(Box::new(wide(t, depth - 1, n))),
    }
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.chance(1, 3) {
        let mut n = 0;
        let body = wide(t, 3, &mut n);
        let sch = Sch::single(Body::Pat(P::Elem(Nc::local("a"), Box::new(body))));
        let names = Names { elems: ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"].iter().map(|l| (String::new(), l.to_string())).collect(), attrs: vec![(String::new(), "x".into())], ..Names::default() };
        return case(t, cx, sch, names);
    }
    let o = match t.below(8) {
        0 | 1 => Opts { uris: 1, wild: false, data: false, elems: 8, attrs: false, ..FULL },
        2 | 3 => Opts { uris: 2, wild: false, not_allowed: false, elems: 7, ..FULL },
        4 | 5 => Opts { uris: 1, wild: false, data: false, elems: 6, ..FULL },
        6 => Opts { wild: false, ..FULL },
        _ => Opts { not_allowed: false, ..FULL },
    };
    let (sch, names) = schemagen::schema(t, o);
    case(t, cx, sch, names)
}

fn case(t: &mut Tape, cx: &mut Cx, sch: Sch, names: Names) -> CaseResult {
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let files = print_schema(&sch, syn);
    let g = simplify(&sch);
    cx.note(show_files(&files));
    if !g.satisfiable() {
        cx.class("schema with a pattern without instance (excluded)");
        return Ok(());
    }
    let schema = must_compile(&files, syn)?;
    for _ in 0..4 {
        let (mut d, n) = near_doc(t, &g, &names, 14);
        for _ in 0..if n < 2 { 1 + t.below(2) } else { 0 } {
            if t.chance(1, 2) {
                drop_or_insert(t, &mut d, &names.elems);
            } else {
                doc::mutate(t, &mut d, &names);
            }
        }
        join_text(&mut d);
        let style = if t.chance(1, 2) { doc::CANONICAL } else { doc::VARIED };
        let (text, evs) = doc::print(&d, t, style);
        cx.note(format!("{}--- document\n{text}", show_files(&files)));
        let dead = match first_dead(&g, &d, &evs) {
            None => {
                cx.class("oracle gave up (excluded)");
                continue;
            }
            Some(None) => {
                cx.class("document valid (excluded)");
                continue;
            }
            Some(Some(k)) => k,
        };
        if !matches!(dead, Dead::Name(_) | Dead::End(_)) {
            cx.class("error in attributes or text (excluded)");
            continue;
        }
        help(cx, &g, &d, &text, &dead, &schema, &show_files(&files))?;
    }
    Ok(())
}

/// removes, repeats or inserts an element somewhere
fn drop_or_insert(t: &mut Tape, d: &mut DElem, names: &[(String, String)]) {
    let mut p = d;
    loop {
        let at: Vec<usize> = p.kids.iter().enumerate().filter(|(_, k)| matches!(k, DN::Elem(_))).map(|(i, _)| i).collect();
        if at.is_empty() || t.chance(1, 3) {
            if p.kids.len() < 8 {
                let (n, l) = t.pick(names).clone();
                let i = t.below(p.kids.len() + 1);
                p.kids.insert(i, DN::Elem(Box::new(DElem::new(&n, &l))));
            }
            return;
        }
        let i = *t.pick(&at);
        match t.below(4) {
            0 => {
                p.kids.remove(i);
                return;
            }
            1 if p.kids.len() < 8 => {
                let k = p.kids[i].clone();
                p.kids.insert(i, k);
                return;
            }
            _ => {
                let DN::Elem(c) = &mut p.kids[i] else { unreachable!() };
                p = c;
            }
        }
    }
}

/// a name class as it is written in help messages
fn describe(nc: &Nc) -> String {
    let except = |e: &Option<Box<Nc>>| e.as_ref().map_or(String::new(), |e| format!("-{}", describe(e)));
    match nc {
        Nc::Name(_, l) => l.clone(),
        Nc::Ns(u, e) => format!("{u}:*{}", except(e)),
        Nc::Any(e) => format!("*{}", except(e)),
        Nc::Choice(a, b) => format!("{}|{}", describe(a), describe(b)),
    }
}

fn help(cx: &mut Cx, g: &Arena, d: &DElem, text: &str, dead: &Dead, schema: &sut::Schema, shown: &str) -> CaseResult {
    // names of the schema, and for wildcards one in each namespace which it does not mention
    let mut names = BTreeSet::new();
    let mut uris: BTreeSet<String> = ["".to_string(), "urn:not-mentioned".to_string()].into();
    let (mut wild, mut alts) = (false, false);
    for n in &g.nodes {
        if let N::Elem(nc, _) = n {
            let mut v = vec![];
            nc.names(&mut v);
            alts |= v.len() > 1;
            names.extend(v);
            let mut u = vec![];
            nc.uris(&mut u);
            uris.extend(u);
            wild |= nc.has_wildcard();
        }
    }
    let named: Vec<(String, String)> = names.into_iter().collect();
    let mut cands = named.clone();
    if wild {
        cands.extend(uris.into_iter().map(|u| (u, "not-mentioned".to_string())));
    }
    let Some(want) = allowed(g, d, dead, &cands) else {
        cx.class("oracle gave up (excluded)");
        return Ok(());
    };
    cx.eval();
    let locals: BTreeSet<&str> = want.iter().map(|(_, l)| &l[..]).collect();
    let Some(diag) = sut::first_diag(schema, text) else {
        return Err(format!("an invalid document is accepted\n{shown}--- document\n{text}"));
    };
    let (lo, hi) = dead.span();
    let fail = |m: String| Err(format!("{m}; allowed at {lo}..{hi} are the elements {want:?}, but the library says {:?}\n{shown}--- document\n{text}", diag.messages));
    if diag.err.kind != "NotAllowed" || !diag.err.span.is_some_and(|(a, b)| lo <= a && b <= hi) {
        return fail("the error is reported elsewhere".into());
    }
    let helps: Vec<&str> = diag.messages.iter().filter_map(|m| m.strip_prefix("help: ")).collect();
    let [h] = helps[..] else {
        return fail("expected one help message".into());
    };
    let Some((items, more)) = parse_help(h) else {
        return fail("unknown form of the help message".into());
    };
    if want.is_empty() != items.is_empty() {
        return fail("something is listed exactly if an element may come".into());
    }
    if items.len() > 4 || (more > 0 && items.len() != 4) {
        return fail("at most four elements are listed, followed by the number of others".into());
    }
    if wild {
        // the classes which are listed have a member that may come, and all that may come are members of them
        let mut covered = BTreeSet::new();
        for i in &items {
            let mut found = false;
            for n in &g.nodes {
                if let N::Elem(nc, _) = n
                    && describe(nc) == *i
                {
                    for w in want.iter().filter(|(u, l)| nc.contains(u, l)) {
                        covered.insert(w.clone());
                        found = true;
                    }
                }
            }
            if !found {
                return fail(format!("{i} can't come here"));
            }
        }
        if more == 0 && covered != want {
            return fail("not all elements which may come are listed".into());
        }
        let distinct: BTreeSet<&String> = items.iter().collect();
        if distinct.len() != items.len() {
            return fail("an element is listed twice".into());
        }
    } else {
        let mut listed = BTreeSet::new();
        for i in &items {
            for n in i.split('|') {
                if !locals.contains(n) {
                    return fail(format!("{n} can't come here"));
                }
                listed.insert(n);
            }
        }
        let distinct: BTreeSet<&String> = items.iter().collect();
        if distinct.len() != items.len() {
            return fail("an element is listed twice".into());
        }
        if more == 0 && listed != locals {
            return fail("not all elements which may come are listed".into());
        }
        if more > 0 && !alts && locals.len() != 4 + more {
            return fail("the number of elements which are not listed is wrong".into());
        }
    }
    cx.class(dead.class());
    cx.class(match want.len() {
        0 => "nothing allowed",
        1 => "one allowed",
        2..=4 => "two to four allowed",
        _ => "more than four allowed",
    });
    cx.class_if(wild, "schema with wildcards");
    cx.class_if(more > 0, "some not listed");
    cx.class_if(matches!(dead, Dead::End(e) if !node(d, &e.path).kids.is_empty()), "end tag after content");
    cx.nontrivial(&(shown, text));
    cx.sample(|| format!("{shown}--- document\n{text}\n--- help: {h}"));
    Ok(())
}

/// schema, document, help message
const ROWS: &[(&str, &str, &str)] = &[
    ("element a { element b { empty }?, element c { empty } }", "<a><d/></a>", "Expected Element b c"),
    ("element a { element b { empty }?, element c { empty } }", "<a><b/></a>", "Expected Element c"),
    ("element a { element b { empty }?, element c { empty } }", "<a><c/><c/></a>", "Remove this"),
    ("element a { element b { empty }* }", "<a><c/></a>", "Expected Element b"),
    ("element a { element b { empty } & element c { empty } & text }", "<a><c/>x</a>", "Expected Element b"),
    (
        "element a { element f { empty } | element b { empty } | element c { empty } | element d { empty } | element e { empty } | element b { text } }",
        "<a></a>",
        "Expected Element b c d e .. or one of 1 more",
    ),
    ("element a { text | element b { empty } }", "<a><c/></a>", "Expected Element b"),
    ("element a { element c { empty }+ | (text, element b { empty }) }", "<a>x</a>", "Expected Element b"),
    ("element a { empty } | element b { empty }", "<c/>", "Expected Element a b"),
    ("element a { element * - (b | c) { empty } }", "<a><b/></a>", "Expected Element *-b|c"),
    ("namespace p = \"urn:p\" element a { element p:* - p:b { empty } | element (x | y) { empty } }", "<a><b/></a>", "Expected Element urn:p:*-b x|y"),
];

fn fixed(cx: &mut Cx) -> CaseResult {
    for (s, d, want) in ROWS {
        cx.eval();
        let schema = sut::compile_rnc(s).map_err(|e| format!("{s}: {e:?}"))?;
        let Some(diag) = sut::first_diag(&schema, d) else { return Err(format!("{s}\n{d}\nis valid")) };
        let got: Vec<&str> = diag.messages.iter().filter_map(|m| m.strip_prefix("help: ")).collect();
        if got != [*want] {
            return Err(format!("{s}\n{d}\nexpected the help {want:?}, got {got:?}"));
        }
    }
    Ok(())
}
