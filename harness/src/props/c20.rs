//! C20: long and deep documents are handled like short ones.

use super::c18::{Scratch, rng};
use super::common::*;
use crate::ast::*;
use crate::budget;
use crate::doc;
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, Opts, FULL};
use crate::sut::{self, Schema, Syn, Verdict};
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C20",
    tape_len: 900,
    quick: 1600,
    thorough: 60000,
    run,
    fixed,
    rule: "distinct (schema, parts, size) with at least 100 repetitions, levels, tokens or chunks",
    assumptions: &[
        "up to 3000 parts per document (20000 in thorough runs, 120000 in the explicit cases)",
        "work is measured as allocations and allocated bytes, and as CPU time in the explicit cases",
    ],
    known: &[],
    shrink_iters: 400,
};

/// a pattern with the same language as X*
fn many(t: &mut Tape, x: &P, depth: usize) -> P {
    let star = |p: P| P::Star(Box::new(p));
    if depth == 0 {
        return match t.below(3) {
            0 => star(x.clone()),
            1 => P::Opt(Box::new(P::Plus(Box::new(x.clone())))),
            _ => star(P::Choice(vec![x.clone(), P::Group(vec![x.clone(), x.clone()])])),
        };
    }
    let a = many(t, x, depth - 1);
    match t.below(9) {
        0 => star(a),
        1 => P::Plus(Box::new(a)),
        2 => P::Opt(Box::new(a)),
        3 => P::Choice(vec![a, many(t, x, depth - 1)]),
        4 => P::Choice(vec![a, P::Group(vec![x.clone(), x.clone(), x.clone()])]),
        5 => P::Group(vec![a, many(t, x, depth - 1)]),
        6 => P::Group(vec![a, P::Opt(Box::new(x.clone()))]),
        7 => P::Group(vec![P::Choice(vec![P::Empty, x.clone()]), a]),
        _ => star(P::Choice(vec![P::Empty, P::Group(vec![x.clone(), a])])),
    }
}

fn cost(s: &Schema, d: &str) -> Result<(Verdict, u64, u64), String> {
    let b = budget::bytes();
    let (v, n) = budget::within(40_000 * (d.len() as u64 + 1100), || sut::validate(s, d));
    Ok((v, n, budget::bytes() - b))
}

/// the documents are alike except for their sizes n, 2n and 4n
fn linear(s: &Schema, what: &str, docs: [&str; 3]) -> CaseResult {
    let mut c = vec![];
    for d in docs {
        let (v, n, b) = cost(s, d)?;
        if !v.ok() {
            return Err(format!("a valid document of {what} is {}", v.short()));
        }
        c.push((n, b));
    }
    let check = |name: &str, a: [u64; 3], slack: u64| {
        // twice as many elements added take twice the work, or four times if it grows
        if a[2].saturating_sub(a[1]) > 3 * a[1].saturating_sub(a[0]) + slack {
            return Err(format!("{name} for {what}, twice and four times as many: {a:?}"));
        }
        Ok(())
    };
    check("allocations", [c[0].0, c[1].0, c[2].0], 2000)?;
    // tables grow by doubling, so bytes come in steps; growing work takes 16 times as many
    if c[2].1 > 10 * c[0].1 + 200_000 {
        return Err(format!("bytes allocated for {what}, and for four times as many: {} and {}", c[0].1, c[2].1));
    }
    Ok(())
}

fn judge_long(s: &Schema, doc: &str, want: bool, at: Option<(usize, usize)>, like: Option<&sut::ErrInfo>) -> CaseResult {
    match cost(s, doc)?.0 {
        Verdict::Valid if want => Ok(()),
        Verdict::Valid => Err("an invalid part of the document was not reported".into()),
        v if want => Err(format!("a document of valid parts is {}", v.short())),
        Verdict::Endless => Err("validation does not end".into()),
        Verdict::Invalid(e) => {
            let (lo, hi) = at.unwrap_or((0, doc.len()));
            if let Some((a, b)) = e.span {
                if a < lo || b > hi {
                    return Err(format!("the invalid part is at {lo}..{hi}, but the error is {e:?}"));
                }
            }
            if let Some(l) = like {
                let shift = |s: Option<(usize, usize)>| s.map(|(a, b)| (a.wrapping_sub(lo), b.wrapping_sub(lo)));
                if (e.kind, e.token, shift(e.span)) != (l.kind, l.token, l.span) {
                    return Err(format!("the error of a part on its own is {l:?} but at {lo} of the document it is {e:?}"));
                }
            }
            Ok(())
        }
    }
}

fn size(t: &mut Tape, cx: &Cx, max: usize) -> usize {
    let max = if cx.thorough { max * 6 } else { max };
    let mut hi = 4;
    while hi < max && !t.chance(1, 9) {
        hi *= 2;
    }
    t.range(hi / 2, hi.min(max))
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    match t.weighted(&[6, 5, 3, 2, 3, 2, 4]) {
        0 => wide(t, cx),
        1 => deep(t, cx),
        2 => tokens(t, cx),
        3 => chunks(t, cx),
        4 => particles(t, cx),
        5 => alternatives(t, cx),
        _ => unary(t, cx),
    }
}

struct Parts {
    items: Vec<Item>,
    good: Vec<String>,
    bad: Vec<String>,
}
fn parts(t: &mut Tape) -> Parts {
    let o = match t.below(3) {
        0 => Opts { uris: 1, elems: 2, depth: 2, ..FULL },
        1 => Opts { uris: 2, elems: 3, depth: 3, ..FULL },
        _ => FULL,
    };
    let (mut sch, names) = schemagen::schema(t, o);
    let g = simplify(&sch);
    let mut good = vec![];
    let mut bad = vec![];
    for _ in 0..5 {
        let (d, _) = near_doc(t, &g, &names, 6);
        let st = if t.chance(1, 3) { doc::Style { prolog: false, ..doc::VARIED } } else { doc::CANONICAL };
        let text = doc::print(&d, t, st).0.trim().to_string();
        match Matcher::valid(&g, &d) {
            Some(true) => good.push(text),
            Some(false) => bad.push(text),
            None => {}
        }
    }
    Parts { items: std::mem::take(schemagen::gram_items(&mut sch)), good, bad }
}
fn syntax(t: &mut Tape) -> Syn {
    if t.chance(1, 2) {
        Syn::Rng
    } else {
        Syn::Rnc
    }
}

/// `element zz { X* }` with many X
fn wide(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let p = parts(t);
    if p.good.is_empty() {
        cx.class("no valid part (excluded)");
        return Ok(());
    }
    let x = P::Grammar(p.items);
    let d = t.below(3);
    let w = many(t, &P::Ref("x".into()), d);
    let tail = t.chance(1, 4);
    let end = P::Elem(Nc::local("yy"), Box::new(P::Empty));
    let content = if tail { P::Group(vec![w, end]) } else { w };
    let sch = Sch::single(Body::Gram(vec![
        Item::Def("start".into(), Op::Assign, P::Elem(Nc::local("zz"), Box::new(content))),
        Item::Def("x".into(), Op::Assign, x),
    ]));
    let files = print_schema(&sch, syntax(t));
    let s = must_compile(&files, if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc })?;
    let n = size(t, cx, 3000);
    let cycle: Vec<usize> = (0..t.range(1, 24)).map(|_| t.below(p.good.len())).collect();
    let close = if tail { "<yy/></zz>" } else { "</zz>" };
    let sep = *t.pick(&["", "\n", " <!-- x -->"]);
    cx.note(format!(
        "{}--- parts\n{}\n--- repeated in the order {cycle:?}, {n} of them, separated by {sep:?}, after <zz> and before {close}; tail {tail}\n--- invalid parts\n{}",
        show_files(&files),
        p.good.join("\n"),
        p.bad.join("\n")
    ));
    let make = |n: usize, bad: Option<(usize, &str)>| {
        let mut s = "<zz>".to_string();
        let mut at = None;
        for i in 0..n {
            match bad {
                Some((k, b)) if k == i => {
                    at = Some((s.len(), s.len() + b.len()));
                    s.push_str(b);
                }
                _ => s.push_str(&p.good[cycle[i % cycle.len()]]),
            }
            s.push_str(sep);
        }
        s.push_str(close);
        (s, at)
    };
    cx.eval();
    judge_long(&s, &make(n, None).0, true, None, None)?;
    for b in p.bad.iter().take(2) {
        let alone = match sut::validate(&s, &format!("<zz>{b}{close}")) {
            Verdict::Invalid(mut e) => {
                e.span = e.span.map(|(a, b)| (a - 4, b - 4));
                e
            }
            v => return Err(format!("a document with the invalid part {b} alone is {}", v.short())),
        };
        let k = if t.chance(1, 3) { n - 1 } else { t.below(n) };
        let (d, at) = make(n, Some((k, b)));
        cx.eval();
        judge_long(&s, &d, false, at, Some(&alone))?;
        cx.class("wide: invalid part");
    }
    if tail {
        let (mut d, _) = make(n, None);
        let a = d.len() - close.len();
        d.replace_range(a.., "</zz>");
        cx.eval();
        judge_long(&s, &d, false, Some((a, d.len())), None)?;
    }
    let m = cycle.len() * (n / cycle.len()).clamp(60 / cycle.len() + 1, 200 / cycle.len() + 2);
    cx.eval();
    linear(&s, &format!("{m} parts"), [&make(m, None).0, &make(2 * m, None).0, &make(4 * m, None).0])?;
    cx.class("wide");
    if n >= 100 {
        cx.nontrivial(&("wide", &sch, &p.good, n));
    }
    cx.class_if(n >= 1000, "at least 1000 parts");
    cx.sample(|| cx_sample(&files, &make(n, None).0));
    Ok(())
}
fn cx_sample(files: &[(String, String)], d: &str) -> String {
    let mut k = d.len().min(300);
    while !d.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}--- document of {} bytes\n{}...", show_files(files), d.len(), &d[..k])
}

/// `r = element zz { X*, (r | X)?, X* }`, nested
fn deep(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let p = parts(t);
    if p.good.is_empty() {
        cx.class("no valid part (excluded)");
        return Ok(());
    }
    let x = P::Ref("x".into());
    let r = P::Ref("r".into());
    let opt = |p: &P| P::Opt(Box::new(p.clone()));
    // all allow at least X?, (r | X)?, X? and no more than X*, r?, X*
    let content = match t.below(9) {
        0 => P::Group(vec![opt(&x), P::Opt(Box::new(P::Choice(vec![r, x.clone()]))), opt(&x)]),
        1 => P::Group(vec![many(t, &x, 1), opt(&r), many(t, &x, 1)]),
        2 => P::Inter(vec![opt(&r), many(t, &x, 1)]),
        3 => P::Choice(vec![
            P::Group(vec![many(t, &x, 0), opt(&r), many(t, &x, 0)]),
            P::Group(vec![many(t, &x, 0), r, many(t, &x, 0)]),
        ]),
        4 => P::Choice(vec![P::Inter(vec![P::Star(Box::new(x.clone())), opt(&r)]), P::Group(vec![r, many(t, &x, 0)])]),
        5 => P::Choice(vec![
            many(t, &x, 1),
            P::Group(vec![many(t, &x, 0), r.clone(), many(t, &x, 0)]),
            P::Group(vec![opt(&x), r, P::Opt(Box::new(P::Plus(Box::new(x.clone()))))]),
        ]),
        6 => P::Group(vec![P::Opt(Box::new(P::Attr(Nc::local("q"), Box::new(P::Text)))), many(t, &x, 0), opt(&r), many(t, &x, 0)]),
        7 => P::Star(Box::new(P::Choice(vec![x.clone(), P::Group(vec![r, opt(&x)])]))),
        _ => P::Mixed(Box::new(P::Group(vec![many(t, &x, 1), opt(&r), many(t, &x, 1)]))),
    };
    let sch = Sch::single(Body::Gram(vec![
        Item::Def("start".into(), Op::Assign, P::Ref("r".into())),
        Item::Def("r".into(), Op::Assign, P::Elem(Nc::local("zz"), Box::new(content))),
        Item::Def("x".into(), Op::Assign, P::Grammar(p.items)),
    ]));
    let files = print_schema(&sch, syntax(t));
    let s = must_compile(&files, if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc })?;
    let n = size(t, cx, 1500);
    // what comes before and after the nested element, by level
    let cycle: Vec<(Option<usize>, Option<usize>)> = (0..t.range(1, 12))
        .map(|_| {
            let mut f = || if t.chance(1, 2) { Some(t.below(p.good.len())) } else { None };
            (f(), f())
        })
        .collect();
    cx.note(format!(
        "{}--- parts\n{}\n--- {n} levels with these before and after the nested element: {cycle:?}\n--- invalid parts\n{}",
        show_files(&files),
        p.good.join("\n"),
        p.bad.join("\n")
    ));
    let make = |n: usize, bad: Option<(usize, bool, &str)>| {
        let mut s = String::new();
        let mut at = None;
        for i in 0..n {
            s.push_str("<zz>");
            match bad {
                Some((k, false, b)) if k == i => {
                    at = Some((s.len(), s.len() + b.len()));
                    s.push_str(b);
                }
                _ => {
                    if let Some(g) = cycle[i % cycle.len()].0 {
                        s.push_str(&p.good[g])
                    }
                }
            }
        }
        for i in (0..n).rev() {
            match bad {
                Some((k, true, b)) if k == i => {
                    at = Some((s.len(), s.len() + b.len()));
                    s.push_str(b);
                }
                _ => {
                    if let Some(g) = cycle[i % cycle.len()].1 {
                        s.push_str(&p.good[g])
                    }
                }
            }
            s.push_str("</zz>");
        }
        (s, at)
    };
    cx.eval();
    judge_long(&s, &make(n, None).0, true, None, None)?;
    for b in p.bad.iter().take(2) {
        let alone = match sut::validate(&s, &format!("<zz>{b}</zz>")) {
            Verdict::Invalid(mut e) => {
                e.span = e.span.map(|(a, b)| (a - 4, b - 4));
                e
            }
            v => return Err(format!("a document with the invalid part {b} alone is {}", v.short())),
        };
        let k = if t.chance(1, 3) { n - 1 } else { t.below(n) };
        let (d, at) = make(n, Some((k, t.chance(1, 2), b)));
        cx.eval();
        judge_long(&s, &d, false, at, Some(&alone))?;
        cx.class("deep: invalid part");
    }
    let m = cycle.len() * (n / cycle.len()).clamp(60 / cycle.len() + 1, 200 / cycle.len() + 2);
    cx.eval();
    linear(&s, &format!("{m} levels"), [&make(m, None).0, &make(2 * m, None).0, &make(4 * m, None).0])?;
    cx.class("deep");
    if n >= 100 {
        cx.nontrivial(&("deep", &sch, &p.good, n));
    }
    cx.class_if(n >= 500, "at least 500 levels");
    cx.sample(|| cx_sample(&files, &make(n, None).0));
    Ok(())
}

/// `list { T* }` with many tokens
fn tokens(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let item = schemagen::list(t, true, 0);
    let item = if t.chance(1, 2) { P::Choice(vec![item, schemagen::list(t, true, 0)]) } else { item };
    let one = |p: P| Sch::single(Body::Pat(P::Elem(Nc::local("zz"), Box::new(p))));
    let g = simplify(&one(P::List(Box::new(item.clone()))));
    let mut good = vec![];
    let mut bad = vec![];
    for _ in 0..6 {
        let w = t.pick(&["x", "y", "10", "abc", "A", "é", "-1", "true", "0", "7", "a1", "b", "1.50", "true1", "a:b"]).to_string();
        let mut e = doc::DElem::new("", "zz");
        e.kids.push(doc::DN::Text(w.clone()));
        match Matcher::valid(&g, &e) {
            Some(true) => good.push(w),
            Some(false) => bad.push(w),
            None => {}
        }
    }
    if good.is_empty() {
        cx.class("no valid part (excluded)");
        return Ok(());
    }
    let d = t.below(3);
    let list = P::List(Box::new(many(t, &item, d)));
    let attr = t.chance(1, 2);
    let sch = one(if attr { P::Attr(Nc::local("q"), Box::new(list)) } else { list });
    let files = print_schema(&sch, syntax(t));
    let s = must_compile(&files, if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc })?;
    let n = size(t, cx, 3000);
    let cycle: Vec<usize> = (0..t.range(1, 24)).map(|_| t.below(good.len())).collect();
    let sep = *t.pick(&[" ", "\n", "  ", "&#x20;", "\t\r\n"]);
    cx.note(format!("{}--- {n} tokens, {good:?} in the order {cycle:?}, separated by {sep:?}; wrong ones {bad:?}", show_files(&files)));
    let make = |n: usize, bad: Option<(usize, &str)>| {
        let mut s = if attr { "<zz q=\"".to_string() } else { "<zz>".to_string() };
        for i in 0..n {
            if i > 0 {
                s.push_str(sep);
            }
            match bad {
                Some((k, b)) if k == i => s.push_str(b),
                _ => s.push_str(&good[cycle[i % cycle.len()]]),
            }
        }
        s.push_str(if attr { "\"/>" } else { "</zz>" });
        s
    };
    cx.eval();
    judge_long(&s, &make(n, None), true, None, None)?;
    for b in bad.iter().take(2) {
        let k = if t.chance(1, 3) { n - 1 } else { t.below(n) };
        cx.eval();
        judge_long(&s, &make(n, Some((k, b))), false, None, None)?;
    }
    let m = cycle.len() * (n / cycle.len()).clamp(60 / cycle.len() + 1, 200 / cycle.len() + 2);
    cx.eval();
    linear(&s, &format!("{m} tokens"), [&make(m, None), &make(2 * m, None), &make(4 * m, None)])?;
    cx.class("list of tokens");
    if n >= 100 {
        cx.nontrivial(&("tokens", &sch, &good, n));
    }
    cx.sample(|| cx_sample(&files, &make(n, None)));
    Ok(())
}

/// one long text in many pieces
fn chunks(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = size(t, cx, 3000);
    let mut content = String::new();
    let mut chars = 0;
    let mut plain = String::new();
    let cycle: Vec<(usize, usize)> = (0..t.range(1, 12)).map(|_| (t.below(9), t.range(0, 5))).collect();
    for i in 0..n {
        let (k, l) = cycle[i % cycle.len()];
        let word = &"abcdé"[..if l == 5 { 6 } else { l }];
        let (text, len, is) = match k {
            0 => (format!("<![CDATA[{word}]]>"), word.chars().count(), word),
            1 => (format!("<!--{word}-->"), 0, ""),
            2 => (format!("<?p {word}?>"), 0, ""),
            3 => ("&#xe9;".to_string(), 1, "é"),
            4 => ("&amp;".to_string(), 1, "&"),
            5 => ("&w;".to_string(), 3, "xyz"),
            _ => (word.to_string(), word.chars().count(), word),
        };
        content.push_str(&text);
        plain.push_str(is);
        chars += len;
    }
    let k = t.below(3);
    let schema = match k {
        0 => format!("element zz {{ xsd:string {{ length = \"{chars}\" }} }}"),
        1 => format!("element zz {{ string \"{plain}\" }}"),
        _ => format!("element zz {{ xsd:string {{ minLength = \"{chars}\" }} - string \"{plain}x\" }}"),
    };
    let files = vec![("main.rnc".to_string(), schema)];
    cx.note(format!("{}--- {n} pieces {cycle:?}", show_files(&files)));
    let s = must_compile(&files, Syn::Rnc)?;
    let make = |c: &str, e: &str| format!("<!DOCTYPE zz [<!ENTITY w \"xyz\">]>\n<zz>{c}{e}</zz>");
    cx.eval();
    judge_long(&s, &make(&content, ""), true, None, None)?;
    cx.eval();
    judge_long(&s, &make(&content, "x"), false, None, None)?;
    cx.class("text in pieces");
    if n >= 100 {
        cx.nontrivial(&("chunks", k, cycle, n));
    }
    // joining the pieces takes linear work
    let any = must_compile(&[("main.rnc".into(), "element zz { text }".into())], Syn::Rnc)?;
    cx.eval();
    linear(
        &any,
        &format!("{n} pieces of text"),
        [&make(&content, ""), &make(&content.repeat(2), ""), &make(&content.repeat(4), "")],
    )
}

/// many particles or attributes, each with its own cardinality
fn particles(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = t.range(2, 40);
    let kinds: Vec<(bool, usize)> = (0..n).map(|_| (t.chance(1, 3), t.below(4))).collect();
    let ordered = t.chance(1, 3);
    let leaf = |i: usize| {
        let (attr, card) = kinds[i];
        let nc = Nc::local(&format!("m{i}"));
        if attr {
            let a = P::Attr(nc, Box::new(P::Text));
            return if card % 2 == 0 { P::Opt(Box::new(a)) } else { a };
        }
        let e = Box::new(P::Elem(nc, Box::new(P::Empty)));
        match card {
            0 => P::Opt(e),
            1 => *e,
            2 => P::Star(e),
            _ => P::Plus(e),
        }
    };
    // a random tree of groups of the kind
    let mut nodes: Vec<P> = (0..n).map(leaf).collect();
    while nodes.len() > 1 && !t.chance(1, 12) {
        let k = t.range(2, 4).min(nodes.len());
        let i = t.below(nodes.len() - k + 1);
        let v: Vec<P> = nodes.drain(i..i + k).collect();
        nodes.insert(i, if ordered { P::Group(v) } else { P::Inter(v) });
    }
    let all = if nodes.len() == 1 {
        nodes.pop().unwrap()
    } else if ordered {
        P::Group(nodes)
    } else {
        P::Inter(nodes)
    };
    let sch = Sch::single(Body::Pat(P::Elem(Nc::local("zz"), Box::new(all))));
    let files = print_schema(&sch, syntax(t));
    cx.note(show_files(&files));
    let s = must_compile(&files, if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc })?;
    let reps = *t.pick(&[1, 2, 6, 30]);
    for round in 0..3 {
        let mut order = vec![];
        let mut attrs = vec![];
        let mut ok = true;
        let odd = if round > 0 { t.below(n) } else { n };
        for (i, (attr, card)) in kinds.iter().enumerate() {
            let c = match (attr, card) {
                (true, c) if c % 2 == 1 => 1,
                (true, _) => t.below(2),
                (false, 0) => t.below(2),
                (false, 1) => 1,
                (false, 2) => t.below(reps + 1),
                _ => 1 + t.below(reps),
            };
            let c = if i == odd { if t.chance(1, 2) { 0 } else { if *attr { c } else { c + 1 } } } else { c };
            ok &= match (attr, card) {
                (true, k) => k % 2 == 0 || c == 1,
                (false, 0) => c <= 1,
                (false, 1) => c == 1,
                (false, 2) => true,
                _ => c >= 1,
            };
            for _ in 0..c {
                if *attr {
                    attrs.push(i)
                } else {
                    order.push(i)
                }
            }
        }
        t.shuffle(&mut attrs);
        if !ordered {
            t.shuffle(&mut order);
        } else if order.len() > 1 && t.chance(1, 4) {
            let k = t.below(order.len() - 1);
            ok &= order[k] == order[k + 1];
            order.swap(k, k + 1);
        }
        let mut d = "<zz".to_string();
        attrs.iter().for_each(|i| d.push_str(&format!(" m{i}=\"v\"")));
        d.push('>');
        order.iter().for_each(|i| d.push_str(&format!("<m{i}/>")));
        d.push_str("</zz>");
        cx.note(format!("{}--- document\n{d}", show_files(&files)));
        cx.eval();
        judge_long(&s, &d, ok, None, None)?;
        cx.class(if ok { "particles: valid" } else { "particles: invalid" });
        if order.len() + attrs.len() >= 100 {
            cx.nontrivial(&("particles", &sch, &d));
        }
        cx.sample(|| cx_sample(&files, &d));
    }
    Ok(())
}

/// many alternatives which tell apart by name, attribute value or first child
fn alternatives(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = size(t, cx, 200).min(300);
    let how = t.below(4);
    let xsd = crate::dt::xsd("token");
    let val = |i: usize| P::Value(Some(xsd.clone()), i.to_string());
    let el = |n: &str, p: P| P::Elem(Nc::local(n), Box::new(p));
    let alts: Vec<P> = (0..n)
        .map(|i| match how {
            0 => el(&format!("m{i}"), val(i)),
            1 => el("m", P::Group(vec![P::Attr(Nc::local("k"), Box::new(val(i))), val(i)])),
            2 => el("m", P::Group(vec![el("k", val(i)), el(&format!("m{i}"), P::Empty)])),
            _ => el("m", P::Attr(Nc::local(&format!("k{i}")), Box::new(val(i)))),
        })
        .collect();
    let x = if n == 1 { alts[0].clone() } else { P::Choice(alts) };
    let sch = Sch::single(Body::Gram(vec![
        Item::Def("start".into(), Op::Assign, el("zz", P::Star(Box::new(P::Ref("x".into()))))),
        Item::Def("x".into(), Op::Assign, x),
    ]));
    let files = print_schema(&sch, syntax(t));
    cx.note(show_files(&files));
    let s = must_compile(&files, if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc })?;
    let part = |i: usize, j: usize| match how {
        0 => format!("<m{i}>{j}</m{i}>"),
        1 => format!("<m k=\" {i}\">{j} </m>"),
        2 => format!("<m><k>{i}</k><m{j}/></m>"),
        _ => format!("<m k{i}=\"{j}\"/>"),
    };
    for _ in 0..3 {
        let len = t.range(1, 40);
        let wrong = if t.chance(1, 2) { t.below(len) } else { len };
        let mut d = "<zz>".to_string();
        let mut at = None;
        for i in 0..len {
            let k = t.below(n);
            let lo = d.len();
            if i == wrong {
                let mut j = t.below(n);
                if j == k {
                    j = n;
                }
                d.push_str(&part(k, j));
                at = Some((lo, d.len()));
            } else {
                d.push_str(&part(k, k));
            }
        }
        d.push_str("</zz>");
        cx.note(format!("{}--- document\n{d}", show_files(&files)));
        cx.eval();
        judge_long(&s, &d, at.is_none(), at, None)?;
    }
    cx.class("many alternatives");
    if n >= 100 {
        cx.nontrivial(&("alternatives", how, n));
    }
    Ok(())
}

/// a pattern over one element with its numbers of elements, up to 127
fn ambiguous(t: &mut Tape, x: &P, depth: usize) -> (P, u128) {
    let sum = |a: u128, b: u128| (0..128).filter(|i| a >> i & 1 == 1).fold(0, |r, i| r | b << i);
    let plus = |a: u128| {
        let mut r = a;
        loop {
            let n = r | sum(r, a);
            if n == r {
                return r;
            }
            r = n;
        }
    };
    if depth == 0 || t.chance(1, 8) {
        return match t.below(4) {
            0 => (P::Empty, 1),
            1 => (P::Text, 1),
            _ => (x.clone(), 2),
        };
    }
    let (a, m) = ambiguous(t, x, depth - 1);
    match t.below(8) {
        0 => (P::Star(Box::new(a)), plus(m) | 1),
        1 => (P::Plus(Box::new(a)), plus(m)),
        2 => (P::Opt(Box::new(a)), m | 1),
        3 | 4 => {
            let (b, n) = ambiguous(t, x, depth - 1);
            (P::Choice(vec![a, b]), m | n)
        }
        7 => {
            let (b, n) = ambiguous(t, x, depth - 1);
            (P::Inter(vec![a, b]), sum(m, n))
        }
        _ => {
            let (b, n) = ambiguous(t, x, depth - 1);
            (P::Group(vec![a, b]), sum(m, n))
        }
    }
}

/// an element that contains itself, in ways that may match in many ways
fn unary(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let depth = t.range(2, 5);
    let (content, mut counts) = ambiguous(t, &P::Ref("r".into()), depth);
    let mut forms = vec![content];
    // several elements of the same name, whose contents may match the same
    while forms.len() < 4 && t.chance(1, 3) {
        let (content, n) = if t.chance(1, 3) { (forms[0].clone(), counts) } else { ambiguous(t, &P::Ref("r".into()), depth) };
        counts |= n;
        let other = P::Opt(Box::new(P::Elem(Nc::local(&format!("y{}", forms.len())), Box::new(P::Empty))));
        forms.push(match t.below(4) {
            0 => content,
            1 => P::Group(vec![other, content]),
            2 => P::Inter(vec![content, other]),
            _ => P::Group(vec![content, other]),
        });
    }
    cx.class_if(forms.len() > 1, "several elements of the same name");
    if counts & 1 == 0 {
        cx.class("no finite instance (excluded)");
        return Ok(());
    }
    let sch = Sch::single(Body::Gram(vec![
        Item::Def("start".into(), Op::Assign, P::Elem(Nc::local("rr"), Box::new(P::Star(Box::new(P::Ref("r".into())))))),
        Item::Def("r".into(), Op::Assign, {
            let mut v: Vec<P> = forms.into_iter().map(|p| P::Elem(Nc::local("zz"), Box::new(p))).collect();
            if v.len() == 1 { v.remove(0) } else { P::Choice(v) }
        }),
    ]));
    let files = print_schema(&sch, syntax(t));
    let s = must_compile(&files, if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc })?;
    let allowed: Vec<usize> = (0..9).filter(|i| counts >> i & 1 == 1).collect();
    let denied: Vec<usize> = (0..9).filter(|i| counts >> i & 1 == 0).collect();
    fn tree(t: &mut Tape, allowed: &[usize], depth: usize, out: &mut String) {
        let n = if depth == 0 { 0 } else { *t.pick(allowed) };
        out.push_str("<zz>");
        for _ in 0..n {
            let d = if t.chance(1, 2) { 0 } else { depth - 1 };
            tree(t, allowed, d, out);
        }
        out.push_str("</zz>");
    }
    let mut good = vec![];
    for _ in 0..t.range(1, 4) {
        let mut d = String::new();
        let k = t.range(0, 4);
        tree(t, &allowed, k, &mut d);
        good.push(d);
    }
    let body: String = good.concat();
    cx.note(format!("{}--- parts\n{}", show_files(&files), good.join("\n")));
    let make = |n: usize| format!("<rr>{}</rr>", body.repeat(n));
    let n = size(t, cx, 200);
    cx.eval();
    judge_long(&s, &make(n), true, None, None)?;
    if !denied.is_empty() {
        let k = t.below(n + 1);
        let bad = format!("<zz>{}</zz>", "<zz/>".repeat(*t.pick(&denied)));
        let d = format!("<rr>{}{bad}{}</rr>", body.repeat(k), body.repeat(n - k));
        let lo = 4 + body.len() * k;
        cx.eval();
        judge_long(&s, &d, false, Some((lo, lo + bad.len())), None)?;
    }
    let m = n.clamp(10, 40);
    cx.eval();
    linear(&s, &format!("{m} repetitions"), [&make(m), &make(2 * m), &make(4 * m)])?;
    // nested as deeply as possible: the first and the last child, with leaves between
    if allowed.iter().any(|i| *i > 0) {
        let shape: Vec<(usize, usize)> = (0..3)
            .map(|_| {
                let k = *t.pick(&allowed);
                let k = if k == 0 { *allowed.iter().find(|i| **i > 0).unwrap() } else { k };
                let before = t.below(k);
                (before, k - 1 - before)
            })
            .collect();
        let make = |n: usize| {
            let mut d = "<rr>".to_string();
            for i in 0..n {
                d.push_str("<zz>");
                d.push_str(&"<zz/>".repeat(shape[i % 3].0));
            }
            d.push_str("<zz/>");
            for i in (0..n).rev() {
                d.push_str(&"<zz/>".repeat(shape[i % 3].1));
                d.push_str("</zz>");
            }
            d.push_str("</rr>");
            d
        };
        let n = size(t, cx, 300);
        cx.note(format!("{}--- {n} levels with these numbers of elements before and after the nested one: {shape:?}", show_files(&files)));
        cx.eval();
        judge_long(&s, &make(n), true, None, None)?;
        let m = 3 * (n / 3).clamp(10, 30);
        cx.eval();
        linear(&s, &format!("{m} levels"), [&make(m), &make(2 * m), &make(4 * m)])?;
        cx.class("ambiguous and deep");
        if n >= 100 {
            cx.nontrivial(&("unary", &sch, &shape, n));
        }
    }
    cx.class("ambiguous");
    if n >= 100 {
        cx.nontrivial(&("unary", &sch, &good, n));
    }
    cx.sample(|| cx_sample(&files, &make(n)));
    Ok(())
}

unsafe extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}
/// CPU seconds used by this thread
fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

/// the command line tool, built without optimisation and run with the usual stack
fn as_installed(cx: &mut Cx) -> CaseResult {
    type Make = fn(usize, &str) -> String;
    // the second argument is put at the end of the innermost or last part; "" keeps it valid, and
    // "x" does not
    let cases: &[(&str, Make, usize, &str)] = &[
        ("element r { element a { empty }* }", |n, x| format!("<r>{}{x}</r>", "<a/>".repeat(n)), 60_000, "<b/>"),
        ("element r { (element a { empty } | element b { text })+, element c { empty }? }", |n, x| format!("<r>{}<c/>{x}</r>", "<a/><b>t</b>".repeat(n)), 30_000, "<b/>"),
        ("element r { mixed { element a { attribute * { text }* }* } }", |n, x| format!("<r>{}{x}</r>", "t<a x='1' y=''/>".repeat(n)), 20_000, "<b/>"),
        ("element r { list { xsd:int* } }", |n, x| format!("<r>{}{x}</r>", "1 \n".repeat(n)), 80_000, "x"),
        ("element r { attribute x { list { (\"a\", \"b\")+ } } }", |n, x| format!("<r x='{}{x}'/>", "a b ".repeat(n)), 40_000, "a"),
        ("element r { xsd:string { pattern = \"(x&z)*\" } }", |n, x| format!("<r>{}{x}</r>", "x<!--y-->&amp;<![CDATA[z]]>".repeat(n)), 30_000, "x"),
        ("element r { attribute x { xsd:token { minLength = \"6\" pattern = \"(a|b)*\" } } }", |n, x| format!("<r x='{}{x}'/>", "&#97;b".repeat(n)), 50_000, "c"),
        ("element r { text }", |n, x| format!("{}<r>{}{x}</r>{}", "<!--c-->\n<?p i?>\n".repeat(n), "<?p i?>".repeat(n), " <!--c-->".repeat(n)), 20_000, "<b/>"),
        ("r = element r { r?, element a { empty }? }\nstart = r", |n, x| format!("{}<a/>{x}{}", "<r>".repeat(n), "</r>".repeat(n)), 30_000, "<a/>"),
        ("r = element p:r { attribute p:k { text }?, ((r & text) | empty) }\nstart = r", |n, x| format!("<p:r xmlns:p='u'>{}{x}{}</p:r>", "<p:r p:k='v'>".repeat(n), "</p:r>".repeat(n)), 30_000, "<b/>"),
    ];
    for (schema, make, n, bad) in cases {
        let schema = format!("{}{schema}", if schema.contains("p:r") { "namespace p = \"u\"\n" } else { "" });
        cx.note(format!("{schema}\n--- {}\n--- {n} times", make(1, "")));
        cx.eval();
        let scratch = Scratch::new();
        scratch.write("s.rnc", schema.as_bytes());
        let args = |d: &str| ["validate", "s.rnc", d].map(String::from);
        for (k, name) in [(3, "small.xml"), (*n, "large.xml")] {
            for (x, want) in [("", Some(0)), (*bad, Some(2))] {
                scratch.write(name, make(k, x).as_bytes());
                let o = rng(&scratch.0, &args(name))?;
                if o.code != want {
                    let end: String = o.stderr.chars().take(300).collect();
                    return Err(format!("{k} times, with {x:?} at the end: exit code {:?} instead of {want:?}: {end}", o.code));
                }
            }
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    // CPU time for eight times the elements; growing work shows as a factor of 64
    let sibling = |a: &'static str, b: &'static str, c: &'static str| move |n: usize| format!("{a}{}{c}", b.repeat(n));
    let numbered = |n: usize| format!("<r>{}</r>", (0..n).map(|i| format!("<a x=\"{i}\" y{i}=\"\">t{i}</a>")).collect::<String>());
    type Make = Box<dyn Fn(usize) -> String>;
    let cases: Vec<(&str, Make, usize)> = vec![
        ("element r { element a { attribute x { xsd:int }, attribute * - x { text }, text }* }", Box::new(numbered), 1500),
        ("element r { element a { empty }* }", Box::new(sibling("<r>", "<a/>", "</r>")), 5000),
        ("start = r r = element r { attribute k { text }?, (text & r?) }", Box::new(|n: usize| format!("{}t{}", "<r k=''>".repeat(n), "</r>".repeat(n))), 8000),
        ("namespace p = 'u' start = r r = element p:r { attribute p:k { text }?, r? }", Box::new(|n: usize| format!("<p:r xmlns:p='u'>{}{}</p:r>", "<p:r p:k=''>".repeat(n), "</p:r>".repeat(n))), 8000),
        ("element r { (element a { empty }+, element b { text }?)* }", Box::new(sibling("<r>", "<a/><a/><b>x</b>", "</r>")), 2000),
        ("element r { (element a { empty }* & element b { text }*) }", Box::new(sibling("<r>", "<a/><a/><b>x</b>", "</r>")), 2000),
        ("element r { mixed { element a { empty }* } }", Box::new(sibling("<r>", "x<a/>y", "</r>")), 3000),
        ("element r { list { xsd:int* } }", Box::new(sibling("<r>", "1 ", "</r>")), 5000),
        ("element r { attribute x { list { (\"a\" | \"b\")* } } }", Box::new(sibling("<r x='", "a b ", "'/>")), 3000),
        ("element r { text }", Box::new(sibling("<r>", "x<!--y-->&amp;<![CDATA[z]]>", "</r>")), 3000),
        ("element r { xsd:string }", Box::new(sibling("<r>", "x<!--y-->&amp;<![CDATA[z]]>", "</r>")), 3000),
    ];
    for (schema, make, n) in &cases {
        let files = vec![("main.rnc".to_string(), schema.to_string())];
        cx.note(show_files(&files));
        let s = must_compile(&files, Syn::Rnc)?;
        cx.eval();
        let (small, large) = (make(*n), make(n * 8));
        let mut times = vec![];
        // slow machines may disturb a measurement, but not in the same direction every time
        loop {
            let t0 = cpu();
            judge_long(&s, &small, true, None, None)?;
            let t1 = cpu();
            judge_long(&s, &large, true, None, None)?;
            let t2 = cpu();
            let (a, b) = (t1 - t0, t2 - t1);
            if b <= a * 28.0 + 0.05 {
                break;
            }
            times.push((a, b));
            if times.len() == 5 {
                return Err(format!("CPU seconds for {n} and {} repetitions, tried 5 times: {times:.3?}", n * 8));
            }
        }
    }
    // an element that matches in very many ways
    let files = vec![(
        "main.rnc".to_string(),
        "start = e0\ne0 = element a | a { ((e0 | text | empty), (e0, text, text, empty), empty)*, ((empty, e0, element a | a { empty })*)+ }".to_string(),
    )];
    cx.note(show_files(&files));
    let s = must_compile(&files, Syn::Rnc)?;
    cx.eval();
    let make = |n: usize| format!("{}{}", "<a><a/>".repeat(n), "<a/></a>".repeat(n));
    linear(&s, "20 levels", [&make(20), &make(40), &make(80)])?;
    as_installed(cx)?;
    // tables of patterns get large
    for (schema, b, c) in [
        ("start = r\nr = element r { r?, element a { empty }? }", "", "<a/></r>"),
        ("start = r\nr = element r { (element a { empty } & r?)? }", "", "<a/></r>"),
        ("start = r\nr = element r { element a { empty }?, r?, element a { empty }? }", "<a/>", "</r>"),
    ] {
        let n = 70_000;
        let schema = format!("default namespace = \"u\"\n{schema}");
        let make = |n: usize| format!("{}{b}{}", "<r xmlns='u'>".repeat(n), c.repeat(n));
        let files = vec![("main.rnc".to_string(), schema.to_string())];
        cx.note(format!("{}--- {n} levels, starting {}", show_files(&files), &make(1)));
        let s = must_compile(&files, Syn::Rnc)?;
        cx.eval();
        let mut d = make(n);
        judge_long(&s, &d, true, None, None)?;
        let k = d.len();
        d.replace_range(k - 4..k, "<b/></r>");
        judge_long(&s, &d, false, None, None)?;
    }
    Ok(())
}
