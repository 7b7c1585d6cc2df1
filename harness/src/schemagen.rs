//! Generator of schemas that respect the restrictions of section 7 of the specification, and
//! meaning-preserving restructurings of them (definitions, grammars, files).

use crate::ast::*;
use crate::doc::Names;
use crate::dt::{self, Dt, ParamVal, Re};
use crate::tape::Tape;

pub const URIS: &[&str] = &["", "urn:a", "urn:b", "http://x.example/ns"];
pub const LOCALS: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h"];
pub const ATTR_LOCALS: &[&str] = &["x", "y", "z", "a"];

#[derive(Clone, Copy)]
pub struct Opts {
    /// number of namespaces to draw from (1 = none only)
    pub uris: usize,
    pub wild: bool,
    pub attrs: bool,
    pub data: bool,
    pub interleave: bool,
    pub depth: usize,
    pub elems: usize,
    pub not_allowed: bool,
    /// every element definition admits an instance, only plain names
    pub xsd: bool,
}
pub const FULL: Opts = Opts {
    uris: 3,
    wild: true,
    attrs: true,
    data: true,
    interleave: true,
    depth: 4,
    elems: 4,
    not_allowed: true,
    xsd: true,
};

#[derive(Clone)]
struct C {
    depth: usize,
    attrs: Vec<(String, String)>,
    attr_wild: bool,
    /// indexes of element definitions that may occur
    elems: Vec<usize>,
    /// a wildcard element that excludes all known names may occur
    elem_wild: bool,
    text: bool,
    /// data, value and list may occur
    simple: bool,
    /// inside oneOrMore: no attributes within group or interleave
    rep: bool,
    /// only attributes (and empty) may occur
    attr_only: bool,
    /// some ancestor in this element is an interleave
    inter: bool,
}

pub struct SchemaGen<'a, 'b> {
    t: &'a mut Tape<'b>,
    o: Opts,
    pub names: Names,
    elem_nc: Vec<Nc>,
    all_elem: Vec<(String, String)>,
    has_any: bool,
    size: i64,
}

fn alt(v: Vec<Nc>) -> Nc {
    let mut it = v.into_iter();
    let mut acc = it.next().expect("non-empty name class");
    for n in it {
        acc = Nc::Choice(Box::new(acc), Box::new(n));
    }
    acc
}

/// Returns a single-file schema (a grammar of element definitions e0..en, start first) and the
/// pool of names.
pub fn schema(t: &mut Tape, o: Opts) -> (Sch, Names) {
    let mut g = SchemaGen {
        t,
        o,
        names: Names::default(),
        elem_nc: vec![],
        all_elem: vec![],
        has_any: false,
        size: 40,
    };
    let items = g.grammar();
    let names = g.names.clone();
    (Sch::single(Body::Gram(items)), names)
}

impl SchemaGen<'_, '_> {
    fn uri(&mut self) -> String {
        let n = self.o.uris.min(URIS.len());
        URIS[self.t.below(n)].to_string()
    }
    fn grammar(&mut self) -> Vec<Item> {
        let n = 1 + self.t.below(self.o.elems);
        for i in 0..n {
            // names may repeat between definitions
            let locals = &LOCALS[..self.o.elems.clamp(5, LOCALS.len())];
            let l = locals[if self.t.chance(1, 5) { self.t.below(locals.len()) } else { i % locals.len() }];
            let u = self.uri();
            let mut nc = Nc::Name(u.clone(), l.to_string());
            if self.t.chance(1, 8) {
                let l2 = *self.t.pick(locals);
                let u2 = self.uri();
                nc = Nc::Choice(Box::new(nc), Box::new(Nc::Name(u2, l2.to_string())));
            }
            nc.names(&mut self.all_elem);
            self.elem_nc.push(nc);
        }
        let mut pool = self.all_elem.clone();
        for u in 0..self.o.uris.min(URIS.len()) {
            pool.push((URIS[u].to_string(), "w".into()));
            pool.push((URIS[u].to_string(), "a".into()));
        }
        pool.sort();
        pool.dedup();
        self.names.elems = pool;
        let mut ap: Vec<(String, String)> = ATTR_LOCALS.iter().map(|l| (String::new(), l.to_string())).collect();
        for u in 1..self.o.uris.min(URIS.len()) {
            ap.push((URIS[u].to_string(), "x".into()));
        }
        ap.push((XML_NS.to_string(), "lang".into()));
        self.names.attrs = ap;
        let mut items = vec![];
        // start: one or more of the elements
        let start = {
            let k = 1 + self.t.weighted(&[4, 2, 1]);
            let mut v: Vec<P> = (0..k.min(n)).map(|i| P::Ref(format!("e{i}"))).collect();
            if self.o.not_allowed && self.t.chance(1, 20) {
                v.push(P::NotAllowed);
            }
            if v.len() == 1 { v.pop().unwrap() } else { P::Choice(v) }
        };
        items.push(Item::Def("start".into(), Op::Assign, start));
        for i in 0..n {
            let body = self.element_content(i, n);
            let nc = self.elem_nc[i].clone();
            items.push(Item::Def(format!("e{i}"), Op::Assign, P::Elem(nc, Box::new(body))));
        }
        if self.has_any {
            items.push(Item::Def(
                "any".into(),
                Op::Assign,
                P::Elem(
                    Nc::Any(None),
                    Box::new(P::Star(Box::new(P::Choice(vec![
                        P::Attr(Nc::Any(None), Box::new(P::Text)),
                        P::Text,
                        P::Ref("any".into()),
                    ])))),
                ),
            ));
        }
        items
    }
    fn element_content(&mut self, _i: usize, n: usize) -> P {
        let c = C {
            depth: self.o.depth,
            attrs: if self.o.attrs { self.names.attrs.clone() } else { vec![] },
            attr_wild: self.o.attrs && self.o.wild,
            elems: (0..n).collect(),
            elem_wild: self.o.wild,
            text: true,
            simple: self.o.data,
            rep: false,
            attr_only: false,
            inter: false,
        };
        self.pat(c)
    }
    fn leaf(&mut self, c: &C) -> P {
        if c.attr_only {
            return self.attr_leaf(c);
        }
        let w = [
            if c.elems.is_empty() { 0 } else { 8 },
            3,                          // empty
            if c.text { 4 } else { 0 }, // text
            if c.simple { 6 } else { 0 },
            if c.attrs.is_empty() { 0 } else { 4 },
            if self.o.not_allowed { 1 } else { 0 },
            if c.elem_wild { 2 } else { 0 },
        ];
        match self.t.weighted(&w) {
            0 if !c.elems.is_empty() => {
                let i = *self.t.pick(&c.elems);
                if self.t.chance(1, 6) && self.size > 0 {
                    // inline element with its own content
                    let nc = self.elem_nc[i].clone();
                    self.size -= 1;
                    let n = self.elem_nc.len();
                    let mut inner = C {
                        depth: c.depth.saturating_sub(1),
                        attrs: if self.o.attrs { self.names.attrs.clone() } else { vec![] },
                        attr_wild: self.o.attrs && self.o.wild,
                        elems: (0..n).collect(),
                        elem_wild: self.o.wild,
                        text: true,
                        simple: self.o.data,
                        rep: false,
                        attr_only: false,
                        inter: false,
                    };
                    inner.depth = inner.depth.min(2);
                    let b = if c.depth == 0 { P::Empty } else { self.pat(inner) };
                    P::Elem(nc, Box::new(b))
                } else {
                    P::Ref(format!("e{i}"))
                }
            }
            2 if c.text => P::Text,
            3 if c.simple => self.simple(),
            4 if !c.attrs.is_empty() => self.attr_leaf(c),
            5 if self.o.not_allowed => P::NotAllowed,
            6 if c.elem_wild => self.wild_elem(c),
            _ => P::Empty,
        }
    }
    fn wild_elem(&mut self, c: &C) -> P {
        let nc = if c.inter {
            // must not overlap with any name another branch may use
            let ex: Vec<Nc> = self.all_elem.iter().map(|(n, l)| Nc::Name(n.clone(), l.clone())).collect();
            Nc::Any(Some(Box::new(alt(ex))))
        } else {
            self.wild_nc(true)
        };
        let body = match self.t.below(4) {
            0 => P::Empty,
            1 => P::Text,
            2 => {
                self.has_any = true;
                P::Star(Box::new(P::Ref("any".into())))
            }
            _ => P::Star(Box::new(P::Attr(Nc::Any(None), Box::new(P::Text)))),
        };
        P::Elem(nc, Box::new(body))
    }
    fn wild_nc(&mut self, elem: bool) -> Nc {
        let pool = if elem { self.names.elems.clone() } else { self.names.attrs.clone() };
        let k = self.t.below(6);
        let u = self.uri();
        match k {
            0 => Nc::Any(None),
            1 => Nc::Ns(u, None),
            2 => {
                let n = 1 + self.t.below(2);
                let mut v = vec![];
                for _ in 0..n {
                    let (a, b) = self.t.pick(&pool).clone();
                    v.push(Nc::Name(a, b));
                }
                if self.t.chance(1, 3) {
                    let u2 = self.uri();
                    let e = if self.t.chance(1, 3) {
                        let (a, b) = self.t.pick(&pool).clone();
                        Some(Box::new(Nc::Name(a, b)))
                    } else {
                        None
                    };
                    v.push(Nc::Ns(u2, e));
                }
                Nc::Any(Some(Box::new(alt(v))))
            }
            3 => {
                let l = *self.t.pick(LOCALS);
                let mut e = Nc::Name(u.clone(), l.to_string());
                if self.t.chance(1, 3) {
                    let (a, b) = self.t.pick(&pool).clone();
                    e = Nc::Choice(Box::new(e), Box::new(Nc::Name(a, b)));
                }
                Nc::Ns(u, Some(Box::new(e)))
            }
            4 => {
                let (a, b) = self.t.pick(&pool).clone();
                Nc::Choice(Box::new(Nc::Name(a, b)), Box::new(Nc::Ns(u, None)))
            }
            _ => {
                let u2 = self.uri();
                Nc::Choice(Box::new(Nc::Ns(u, None)), Box::new(Nc::Ns(u2, None)))
            }
        }
    }
    fn attr_leaf(&mut self, c: &C) -> P {
        if c.attrs.is_empty() {
            return P::Empty;
        }
        if c.attr_wild && self.t.chance(1, 6) {
            // within oneOrMore; excludes every name of the pool
            let alone = !c.inter && c.attrs.len() == self.names.attrs.len();
            let nc = if alone {
                self.wild_nc(false)
            } else {
                let ex: Vec<Nc> = self.names.attrs.iter().map(|(n, l)| Nc::Name(n.clone(), l.clone())).collect();
                Nc::Any(Some(Box::new(alt(ex))))
            };
            let has_wild = nc.has_wildcard();
            let b = self.attr_content();
            let a = P::Attr(nc, Box::new(b));
            return if has_wild {
                if self.t.chance(1, 2) { P::Plus(Box::new(a)) } else { P::Star(Box::new(a)) }
            } else {
                a
            };
        }
        let (ns, l) = self.t.pick(&c.attrs).clone();
        let mut nc = Nc::Name(ns, l);
        if self.t.chance(1, 8) {
            let (a, b) = self.t.pick(&c.attrs).clone();
            nc = Nc::Choice(Box::new(nc), Box::new(Nc::Name(a, b)));
        }
        let b = self.attr_content();
        P::Attr(nc, Box::new(b))
    }
    fn attr_content(&mut self) -> P {
        match self.t.weighted(&[5, 1, if self.o.data { 5 } else { 0 }, 1]) {
            0 => P::Text,
            1 => P::Empty,
            2 => self.simple(),
            _ => {
                if self.o.data {
                    let s = self.simple();
                    let e = if self.t.chance(1, 2) { P::Empty } else { P::Text };
                    P::Choice(vec![s, e])
                } else {
                    P::Text
                }
            }
        }
    }
    pub fn simple(&mut self) -> P {
        simple(self.t, self.o.xsd, 2)
    }
    fn split<T: Clone>(&mut self, v: &[T], n: usize) -> Vec<Vec<T>> {
        let mut out = vec![vec![]; n];
        for x in v {
            let i = self.t.below(n);
            out[i].push(x.clone());
        }
        out
    }
    fn pat(&mut self, c: C) -> P {
        self.size -= 1;
        if c.depth == 0 || self.size <= 0 {
            return self.leaf(&c);
        }
        let sub = |c: &C| C {
            depth: c.depth - 1,
            ..c.clone()
        };
        let w = [
            6,                                              // leaf
            8,                                              // group
            5,                                              // choice
            if self.o.interleave { 4 } else { 0 },          // interleave
            3,                                              // optional
            3,                                              // star
            2,                                              // plus
            if c.text && !c.attr_only { 2 } else { 0 },     // mixed
        ];
        match self.t.weighted(&w) {
            1 => {
                let n = 2 + self.t.weighted(&[4, 2, 1]);
                let attrs = if c.rep { vec![vec![]; n] } else { self.split(&c.attrs, n) };
                let wild = self.t.below(n);
                let simple_at = if c.simple && self.t.chance(1, 3) { Some(self.t.below(n)) } else { None };
                let mut v = vec![];
                for i in 0..n {
                    let mut s = sub(&c);
                    s.attrs = attrs[i].clone();
                    s.attr_wild = c.attr_wild && i == wild && !c.rep;
                    match simple_at {
                        Some(k) if k != i => {
                            s.attr_only = true;
                            s.simple = false;
                        }
                        Some(_) => {}
                        None => s.simple = false,
                    }
                    v.push(self.pat(s));
                }
                P::Group(v)
            }
            2 => {
                let n = 2 + self.t.weighted(&[4, 2, 1]);
                let v = (0..n).map(|_| self.pat(sub(&c))).collect();
                P::Choice(v)
            }
            3 => {
                let n = 2 + self.t.weighted(&[4, 1]);
                let attrs = if c.rep { vec![vec![]; n] } else { self.split(&c.attrs, n) };
                // branches must not share element names: group definitions by overlapping names
                let groups = self.name_groups(&c.elems);
                let parts = self.split(&groups, n);
                let text_at = self.t.below(n);
                let wild_at = self.t.below(n);
                let simple_at = if c.simple && self.t.chance(1, 4) { Some(self.t.below(n)) } else { None };
                let mut v = vec![];
                for i in 0..n {
                    let mut s = sub(&c);
                    s.inter = true;
                    s.attrs = attrs[i].clone();
                    s.attr_wild = c.attr_wild && i == wild_at && !c.rep;
                    s.elems = parts[i].iter().flatten().copied().collect();
                    s.elem_wild = c.elem_wild && i == wild_at;
                    s.text = c.text && i == text_at;
                    match simple_at {
                        Some(k) if k != i => {
                            s.attr_only = true;
                            s.simple = false;
                        }
                        Some(_) => {}
                        None => s.simple = false,
                    }
                    v.push(self.pat(s));
                }
                P::Inter(v)
            }
            4 => P::Opt(Box::new(self.pat(sub(&c)))),
            k @ (5 | 6) => {
                let mut s = sub(&c);
                s.rep = true;
                s.simple = false;
                // attributes inside oneOrMore: only directly or through choice; `rep` removes them
                // from groups and interleaves below
                let b = Box::new(self.pat(s));
                if k == 5 { P::Star(b) } else { P::Plus(b) }
            }
            7 if c.text && !c.attr_only => {
                let mut s = sub(&c);
                s.text = false;
                s.simple = false;
                s.inter = true;
                if c.rep {
                    s.attrs = vec![];
                    s.attr_wild = false;
                }
                if !c.rep && self.t.chance(1, 2) {
                    // a sequence
                    let n = 2 + self.t.below(2);
                    let attrs = self.split(&s.attrs.clone(), n);
                    let wild = s.attr_wild;
                    let v = attrs.into_iter().enumerate().map(|(i, a)| self.pat(C { attrs: a, attr_wild: wild && i == 0, ..s.clone() })).collect();
                    return P::Mixed(Box::new(P::Group(v)));
                }
                P::Mixed(Box::new(self.pat(s)))
            }
            _ => self.leaf(&c),
        }
    }
    fn name_groups(&self, elems: &[usize]) -> Vec<Vec<usize>> {
        let mut groups: Vec<Vec<usize>> = vec![];
        for &e in elems {
            let mut mine = vec![e];
            let mut rest = vec![];
            for g in groups {
                if g.iter().any(|&f| self.overlap(e, f)) {
                    mine.extend(g)
                } else {
                    rest.push(g)
                }
            }
            rest.push(mine);
            groups = rest;
        }
        groups
    }
    fn overlap(&self, a: usize, b: usize) -> bool {
        let (mut x, mut y) = (vec![], vec![]);
        self.elem_nc[a].names(&mut x);
        self.elem_nc[b].names(&mut y);
        x.iter().any(|n| y.contains(n))
    }
}

pub const WORDS: &[&str] = &["x", "y", "a b", "", "10", "abc", "A", "é", " x", "a<b", "it's", "x\ny", "q\"q", "x\u{a0}y", "\u{2003}"];
pub const TOKENS: &[&str] = &["x", "y", "10", "abc", "A", "é", "-1", "x\u{a0}y"];

pub fn value(t: &mut Tape, token: bool) -> P {
    let s = if token { t.pick(TOKENS).to_string() } else { t.pick(WORDS).to_string() };
    match t.below(5) {
        0 | 1 => P::Value(None, s),
        2 => P::Value(Some(dt::builtin("token")), s),
        3 => P::Value(Some(dt::builtin("string")), s),
        _ => P::Value(Some(dt::xsd(if t.chance(1, 2) { "string" } else { "token" })), s),
    }
}

/// data, value, list and choices of them
pub fn simple(t: &mut Tape, xsd: bool, depth: usize) -> P {
    match t.weighted(&[5, 5, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => value(t, false),
        1 => P::Data(datatype(t, xsd), None),
        2 => {
            let n = 2 + t.below(2);
            P::Choice((0..n).map(|_| simple(t, xsd, depth - 1)).collect())
        }
        3 => P::List(Box::new(list(t, xsd, 2))),
        _ => {
            let e = except(t, xsd, depth - 1);
            P::Data(datatype(t, xsd), Some(Box::new(e)))
        }
    }
}

pub fn except(t: &mut Tape, xsd: bool, depth: usize) -> P {
    match t.weighted(&[4, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
        1 => P::Data(datatype(t, xsd), None),
        2 => P::Choice((0..2 + t.below(2)).map(|_| except(t, xsd, depth - 1)).collect()),
        3 => {
            let e = except(t, xsd, depth - 1);
            P::Data(datatype(t, xsd), Some(Box::new(e)))
        }
        _ => value(t, false),
    }
}

/// content of a list: no text, elements, attributes, interleave or list
pub fn list(t: &mut Tape, xsd: bool, depth: usize) -> P {
    if depth == 0 {
        return if t.chance(1, 2) { P::Data(datatype(t, xsd), None) } else { value(t, true) };
    }
    match t.below(9) {
        0 => value(t, true),
        1 => P::Data(datatype(t, xsd), None),
        2 | 3 => P::Group((0..2 + t.below(2)).map(|_| list(t, xsd, depth - 1)).collect()),
        4 => P::Choice((0..2).map(|_| list(t, xsd, depth - 1)).collect()),
        5 => P::Star(Box::new(list(t, xsd, depth - 1))),
        6 => P::Plus(Box::new(list(t, xsd, depth - 1))),
        7 => P::Opt(Box::new(list(t, xsd, depth - 1))),
        _ => {
            if t.chance(1, 3) {
                P::Empty
            } else {
                let e = except(t, xsd, 0);
                P::Data(datatype(t, xsd), Some(Box::new(e)))
            }
        }
    }
}

/// a datatype from the part of the library whose semantics C01..C05 rely on
pub fn datatype(t: &mut Tape, xsd: bool) -> Dt {
    let k = t.below(if xsd { 9 } else { 2 });
    match k {
        0 => dt::builtin("token"),
        1 => dt::builtin("string"),
        2 => dt::xsd("int"),
        3 => {
            let mut d = dt::xsd("integer");
            let lo = t.below(3) as i64 - 1;
            d.params.push(("minInclusive".into(), ParamVal::Text(lo.to_string())));
            if t.chance(1, 2) {
                d.params.push(("maxInclusive".into(), ParamVal::Text((lo + 10).to_string())));
            }
            d
        }
        4 => dt::xsd("boolean"),
        5 => dt::xsd("NCName"),
        6 => {
            let mut d = dt::xsd("string");
            let n = t.below(4);
            d.params.push((if t.chance(1, 2) { "maxLength" } else { "minLength" }.into(), ParamVal::Text(n.to_string())));
            d
        }
        7 => {
            let mut d = dt::xsd("token");
            let r = Re::Seq(vec![
                Re::Rep(Box::new(Re::Class(crate::dt::Set::of(vec![('a', 'c')], false))), 1, None),
                Re::Rep(Box::new(Re::Digit), 0, Some(2)),
            ]);
            d.params.push(("pattern".into(), ParamVal::Pattern(r)));
            d
        }
        _ => dt::xsd("decimal"),
    }
}

// ------------------------------------------------------------------ restructuring

/// Moves random sub-patterns of the definitions into new definitions (the meaning is unchanged).
pub fn extract_defs(t: &mut Tape, items: &mut Vec<Item>, n: usize, prefix: &str) {
    for k in 0..n {
        // choose a definition and a sub-pattern in it
        let defs: Vec<usize> = items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Def(..))).map(|(i, _)| i).collect();
        if defs.is_empty() {
            return;
        }
        let d = *t.pick(&defs);
        let name = format!("{prefix}{k}");
        let Item::Def(_, _, p) = &mut items[d] else { continue };
        let total = count(p);
        let target = t.below(total);
        let mut i = target;
        let mut taken = None;
        replace_nth(p, &mut i, &mut |old| {
            taken = Some(old);
            P::Ref(name.clone())
        });
        if let Some(old) = taken {
            items.push(Item::Def(name, Op::Assign, old));
        }
    }
}

pub fn count(p: &P) -> usize {
    let mut n = 0;
    walk_shallow(p, &mut |_| n += 1);
    n
}
/// like walk, but does not enter nested grammars
pub fn walk_shallow(p: &P, f: &mut dyn FnMut(&P)) {
    f(p);
    match p {
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => walk_shallow(b, f),
        P::Data(_, Some(b)) => walk_shallow(b, f),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter().for_each(|x| walk_shallow(x, f)),
        _ => {}
    }
}
pub fn replace_nth(p: &mut P, i: &mut usize, f: &mut dyn FnMut(P) -> P) -> bool {
    if *i == 0 {
        let old = std::mem::replace(p, P::Empty);
        *p = f(old);
        return true;
    }
    *i -= 1;
    match p {
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => replace_nth(b, i, f),
        P::Data(_, Some(b)) => replace_nth(b, i, f),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().any(|x| replace_nth(x, i, f)),
        _ => false,
    }
}

/// Splits definitions whose body is a choice or interleave into combined ones, duplicates none.
pub fn split_combine(t: &mut Tape, items: &mut Vec<Item>) {
    let mut out = vec![];
    for it in std::mem::take(items) {
        match it {
            Item::Def(n, Op::Assign, P::Choice(v)) if v.len() > 1 && t.chance(1, 2) => {
                split_one(t, &mut out, n, v, Op::Choice, P::Choice)
            }
            Item::Def(n, Op::Assign, P::Inter(v)) if v.len() > 1 && t.chance(1, 2) => {
                split_one(t, &mut out, n, v, Op::Inter, P::Inter)
            }
            Item::Def(n, Op::Assign, p) if t.chance(1, 12) => {
                // a single combined definition means the same
                out.push(Item::Def(n, if t.chance(1, 2) { Op::Choice } else { Op::Inter }, p))
            }
            i => out.push(i),
        }
    }
    *items = out;
}
fn split_one(t: &mut Tape, out: &mut Vec<Item>, n: String, v: Vec<P>, op: Op, mk: fn(Vec<P>) -> P) {
    let with_assign = t.chance(1, 2);
    let mut parts: Vec<Vec<P>> = vec![];
    for p in v {
        if parts.is_empty() || t.chance(2, 3) {
            parts.push(vec![p])
        } else {
            parts.last_mut().unwrap().push(p)
        }
    }
    let assign_at = if with_assign { t.below(parts.len()) } else { usize::MAX };
    for (i, mut p) in parts.into_iter().enumerate() {
        let b = if p.len() == 1 { p.pop().unwrap() } else { mk(p) };
        out.push(Item::Def(n.clone(), if i == assign_at { Op::Assign } else { op }, b));
    }
}

/// random order and div nesting
pub fn shuffle_div(t: &mut Tape, items: &mut Vec<Item>) {
    t.shuffle(items);
    if t.chance(1, 3) && !items.is_empty() {
        let at = t.below(items.len());
        let n = 1 + t.below(items.len() - at);
        let mut inner: Vec<Item> = items.drain(at..at + n).collect();
        if t.chance(1, 4) {
            shuffle_div(t, &mut inner);
        }
        items.insert(at, Item::Div(inner));
    }
}

/// Wraps a random sub-pattern in a nested grammar: references become parent references, and some
/// of its own sub-patterns become local definitions that may reuse names of the outer grammar.
pub fn nest_grammar(t: &mut Tape, items: &mut [Item], outer_names: &[String]) {
    let defs: Vec<usize> = items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Def(..))).map(|(i, _)| i).collect();
    if defs.is_empty() {
        return;
    }
    let d = *t.pick(&defs);
    let Item::Def(_, _, p) = &mut items[d] else { return };
    let total = count(p);
    let mut i = t.below(total);
    // decisions are drawn before the closure borrows the tape
    let locals = t.below(3);
    let reuse = t.chance(1, 2);
    let names: Vec<String> = (0..locals)
        .map(|k| if reuse && !outer_names.is_empty() { t.pick(outer_names).clone() } else { format!("l{k}") })
        .filter(|n| n != "start")
        .collect();
    let picks: Vec<usize> = (0..locals).map(|_| t.below(1 << 20)).collect();
    let order = t.chance(1, 2);
    let alias = t.chance(1, 4);
    replace_nth(p, &mut i, &mut |mut old| {
        // grammars nested deeper keep their own parent references: skip sub-patterns that contain any
        let mut has_inner = false;
        walk_shallow(&old, &mut |q| has_inner |= matches!(q, P::Grammar(_) | P::Parent(_) | P::External(_)));
        if has_inner {
            return old;
        }
        to_parent(&mut old);
        let mut inner = vec![Item::Def("start".into(), Op::Assign, old)];
        let mut used: Vec<String> = vec![];
        for (k, n) in names.iter().enumerate() {
            if used.contains(n) {
                continue;
            }
            used.push(n.clone());
            let Item::Def(_, _, body) = &mut inner[0] else { unreachable!() };
            let c = count(body);
            let mut j = picks[k] % c;
            let mut taken = None;
            replace_nth(body, &mut j, &mut |o| {
                taken = Some(o);
                P::Ref(n.clone())
            });
            if let Some(o) = taken {
                inner.push(Item::Def(n.clone(), Op::Assign, o));
            }
        }
        if alias {
            // route one parent reference through a local alias
            let mut found = None;
            for it in inner.iter_mut() {
                if let Item::Def(_, _, b) = it {
                    alias_first(b, &mut found);
                }
            }
            if let Some(n) = found {
                inner.push(Item::Def("al".into(), Op::Assign, P::Parent(n)));
            }
        }
        if order {
            inner.reverse();
        }
        P::Grammar(inner)
    });
}
fn alias_first(p: &mut P, found: &mut Option<String>) {
    if found.is_some() {
        return;
    }
    match p {
        P::Parent(n) => {
            *found = Some(n.clone());
            *p = P::Ref("al".into());
        }
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => alias_first(b, found),
        P::Data(_, Some(b)) => alias_first(b, found),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().for_each(|x| alias_first(x, found)),
        _ => {}
    }
}
fn to_parent(p: &mut P) {
    match p {
        P::Ref(n) => *p = P::Parent(n.clone()),
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => to_parent(b),
        P::Data(_, Some(b)) => to_parent(b),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().for_each(to_parent),
        _ => {}
    }
}

pub fn gram_items(s: &mut Sch) -> &mut Vec<Item> {
    match &mut s.files[0].body {
        Body::Gram(v) => v,
        _ => panic!("not a grammar"),
    }
}
pub fn def_names(items: &[Item]) -> Vec<String> {
    let mut v = vec![];
    for i in items {
        match i {
            Item::Def(n, ..) => {
                if !v.contains(n) {
                    v.push(n.clone())
                }
            }
            Item::Div(x) => {
                for n in def_names(x) {
                    if !v.contains(&n) {
                        v.push(n)
                    }
                }
            }
            _ => {}
        }
    }
    v
}
