//! Declarative matcher for RELAX NG section 6: decides membership by trying every way of splitting
//! attributes and children, with memoisation. No derivatives, no streaming.

use crate::ast::{Arena, Id, N};
use crate::doc::{DElem, DN};
use crate::dt;
use std::collections::HashMap;

enum Child {
    Text(String),
    /// index into Matcher::elems
    Elem(usize),
    /// an element which has not been read to its end (index into Matcher::opens)
    Open(usize),
}

struct OpenElem {
    ns: String,
    local: String,
    /// what has been read of it, and whether its start tag is complete; None: only the name
    read: Option<(usize, bool)>,
}

/// How much of a document has been read, apart from everything before the named node.
#[derive(Clone, Debug)]
pub enum Cut {
    /// the name of the element
    Name,
    /// these attributes of the element, and whether that are all
    Attrs(Vec<usize>, bool),
    /// the whole of the element or text
    All,
    /// the content of the element, up to its end tag, and the name of another child
    Next(String, String),
}

struct Ctx {
    attrs: Vec<(String, String, String)>,
    kids: Vec<Child>,
}

struct ElemInfo {
    ns: String,
    local: String,
    /// alternative contexts: the content matches if any of them does
    ctxs: Vec<usize>,
}

pub struct Matcher<'a> {
    g: &'a Arena,
    elems: Vec<ElemInfo>,
    ctxs: Vec<Ctx>,
    memo: HashMap<(u32, u32, u32, u32), bool>,
    elem_memo: HashMap<(u32, u32), bool>,
    opens: Vec<OpenElem>,
    pre_memo: HashMap<(u32, u32, u32, u32, bool), bool>,
    pub steps: u64,
}

pub const STEP_LIMIT: u64 = 3_000_000;

impl<'a> Matcher<'a> {
    pub fn new(g: &'a Arena) -> Matcher<'a> {
        Matcher {
            g,
            elems: vec![],
            ctxs: vec![],
            memo: HashMap::new(),
            elem_memo: HashMap::new(),
            opens: vec![],
            pre_memo: HashMap::new(),
            steps: 0,
        }
    }
    fn add_elem(&mut self, e: &DElem) -> usize {
        // coalesce adjacent text
        let mut kids: Vec<Child> = vec![];
        let mut has_elem = false;
        for k in &e.kids {
            match k {
                DN::Text(t) => {
                    if t.is_empty() {
                        continue;
                    }
                    if let Some(Child::Text(p)) = kids.last_mut() {
                        p.push_str(t);
                    } else {
                        kids.push(Child::Text(t.clone()));
                    }
                }
                DN::Elem(c) => {
                    has_elem = true;
                    let i = self.add_elem(c);
                    kids.push(Child::Elem(i));
                }
            }
        }
        let attrs = e.attrs.clone();
        let mut ctxs = vec![];
        if has_elem {
            kids.retain(|k| !matches!(k, Child::Text(t) if dt::ws_only(t)));
            ctxs.push(Ctx { attrs, kids });
        } else if kids.is_empty() {
            ctxs.push(Ctx {
                attrs: attrs.clone(),
                kids: vec![],
            });
            ctxs.push(Ctx {
                attrs,
                kids: vec![Child::Text(String::new())],
            });
        } else {
            let ws = matches!(&kids[..], [Child::Text(t)] if dt::ws_only(t));
            if ws {
                ctxs.push(Ctx {
                    attrs: attrs.clone(),
                    kids: vec![],
                });
            }
            ctxs.push(Ctx { attrs, kids });
        }
        let mut ids = vec![];
        for c in ctxs {
            self.ctxs.push(c);
            ids.push(self.ctxs.len() - 1);
        }
        self.elems.push(ElemInfo {
            ns: e.ns.clone(),
            local: e.local.clone(),
            ctxs: ids,
        });
        self.elems.len() - 1
    }
    /// None: the search was too large to finish
    pub fn valid(g: &Arena, root: &DElem) -> Option<bool> {
        let mut m = Matcher::new(g);
        let r = m.add_elem(root);
        let v = m.start(g.start, r);
        if m.steps > STEP_LIMIT { None } else { Some(v) }
    }
    /// Whether a document of which only a part has been read can be completed to a valid one.
    /// Correct only if every pattern in the grammar has an instance (see `Arena::satisfiable`).
    pub fn viable(g: &Arena, root: &DElem, path: &[usize], cut: &Cut) -> Option<bool> {
        let mut m = Matcher::new(g);
        let kid = m.partial(root, path, cut);
        m.ctxs.push(Ctx { attrs: vec![], kids: vec![kid] });
        let c = m.ctxs.len() - 1;
        let v = m.pre(c, g.start, 0, 1, true);
        if m.steps > STEP_LIMIT { None } else { Some(v) }
    }
    fn partial(&mut self, e: &DElem, path: &[usize], cut: &Cut) -> Child {
        let open = |m: &mut Self, attrs, kids, closed| {
            m.ctxs.push(Ctx { attrs, kids });
            let c = m.ctxs.len() - 1;
            m.opens.push(OpenElem { ns: e.ns.clone(), local: e.local.clone(), read: Some((c, closed)) });
            Child::Open(m.opens.len() - 1)
        };
        let Some(&i) = path.first() else {
            return match cut {
                Cut::All => Child::Elem(self.add_elem(e)),
                Cut::Name => {
                    self.opens.push(OpenElem { ns: e.ns.clone(), local: e.local.clone(), read: None });
                    Child::Open(self.opens.len() - 1)
                }
                Cut::Attrs(which, closed) => {
                    let attrs = which.iter().map(|i| e.attrs[*i].clone()).collect();
                    open(self, attrs, vec![], *closed)
                }
                Cut::Next(ns, local) => {
                    let mut kids = self.kids_before(e, e.kids.len());
                    self.opens.push(OpenElem { ns: ns.clone(), local: local.clone(), read: None });
                    kids.push(Child::Open(self.opens.len() - 1));
                    open(self, e.attrs.clone(), kids, true)
                }
            };
        };
        let mut kids = self.kids_before(e, i);
        match &e.kids[i] {
            DN::Text(s) => kids.push(Child::Text(s.clone())),
            DN::Elem(c) => {
                let k = self.partial(c, &path[1..], cut);
                kids.push(k);
            }
        }
        open(self, e.attrs.clone(), kids, true)
    }
    /// children before an element or non-blank text; adjacent text is expected to be joined
    fn kids_before(&mut self, e: &DElem, n: usize) -> Vec<Child> {
        let mut kids = vec![];
        for k in &e.kids[..n] {
            match k {
                DN::Text(t) if dt::ws_only(t) => {}
                DN::Text(t) => kids.push(Child::Text(t.clone())),
                DN::Elem(c) => {
                    let i = self.add_elem(c);
                    kids.push(Child::Elem(i));
                }
            }
        }
        kids
    }
    /// whether the pattern matches the attributes and children together with some which follow
    /// (attributes may follow only if the start tag is not complete)
    fn pre(&mut self, c: usize, id: Id, a: u32, k: u32, closed: bool) -> bool {
        let (node, id) = self.g.get(id);
        self.steps += 1;
        if self.steps > STEP_LIMIT {
            return false;
        }
        let node = node.clone();
        match &node {
            N::Empty => return a == 0 && k == 0,
            N::NotAllowed => return false,
            N::Text => return a == 0 && bits(k).all(|i| matches!(self.ctxs[c].kids[i as usize], Child::Text(_))),
            _ => {}
        }
        let key = (c as u32, id as u32, a, k, closed);
        if let Some(v) = self.pre_memo.get(&key) {
            return *v;
        }
        let v = match node {
            N::Elem(nc, body) => {
                if a != 0 {
                    false
                } else if k == 0 {
                    true
                } else if k.count_ones() != 1 {
                    false
                } else if let Child::Open(o) = self.ctxs[c].kids[k.trailing_zeros() as usize] {
                    let (ok, read) = (nc.contains(&self.opens[o].ns, &self.opens[o].local), self.opens[o].read);
                    match read {
                        None => ok,
                        Some((c, closed)) => {
                            let (a, k) = (full(self.ctxs[c].attrs.len()), full(self.ctxs[c].kids.len()));
                            ok && self.pre(c, body, a, k, closed)
                        }
                    }
                } else {
                    self.m(c, id, a, k)
                }
            }
            N::Attr(..) => (!closed && a == 0 && k == 0) || self.m(c, id, a, k),
            N::Data(..) | N::Value(..) | N::Model(..) | N::List(_) => (a == 0 && k == 0) || self.m(c, id, a, k),
            N::Choice(x, y) => self.pre(c, x, a, k, closed) || self.pre(c, y, a, k, closed),
            N::Group(x, y) => self.split(c, a, k, |s, a1, k1, a2, k2| {
                (s.m(c, x, a1, k1) && s.pre(c, y, a2, k2, closed)) || (k2 == 0 && s.pre(c, x, a1, k1, closed) && s.pre(c, y, a2, 0, closed))
            }),
            N::Plus(x) => {
                self.pre(c, x, a, k, closed)
                    || self.split(c, a, k, |s, a1, k1, a2, k2| {
                        (a1 != 0 || k1 != 0)
                            && ((s.m(c, x, a1, k1) && s.pre(c, id, a2, k2, closed))
                                || (k2 == 0 && a2 != 0 && s.pre(c, x, a1, k1, closed) && s.pre(c, id, a2, 0, closed)))
                    })
            }
            N::Inter(x, y) => {
                let mut found = false;
                for a1 in submasks(a) {
                    for k1 in submasks(k) {
                        if self.pre(c, x, a1, k1, closed) && self.pre(c, y, a & !a1, k & !k1, closed) {
                            found = true;
                            break;
                        }
                    }
                    if found {
                        break;
                    }
                }
                found
            }
            N::Empty | N::Text | N::NotAllowed | N::Ref(_) => unreachable!(),
        };
        self.pre_memo.insert(key, v);
        v
    }
    fn start(&mut self, id: Id, root: usize) -> bool {
        self.ctxs.push(Ctx {
            attrs: vec![],
            kids: vec![Child::Elem(root)],
        });
        let c = self.ctxs.len() - 1;
        self.m(c, id, 0, 1)
    }
    fn content(&mut self, body: Id, elem: usize) -> bool {
        let key = (body as u32, elem as u32);
        if let Some(v) = self.elem_memo.get(&key) {
            return *v;
        }
        let ctxs = self.elems[elem].ctxs.clone();
        let mut ok = false;
        for c in ctxs {
            let a = full(self.ctxs[c].attrs.len());
            let k = full(self.ctxs[c].kids.len());
            if self.m(c, body, a, k) {
                ok = true;
                break;
            }
        }
        self.elem_memo.insert(key, ok);
        ok
    }
    /// weak match of a string (attribute value)
    fn string_weak(&mut self, body: Id, s: &str) -> bool {
        if dt::ws_only(s) {
            self.ctxs.push(Ctx {
                attrs: vec![],
                kids: vec![],
            });
            let c = self.ctxs.len() - 1;
            if self.m(c, body, 0, 0) {
                return true;
            }
        }
        self.string(body, s)
    }
    fn string(&mut self, body: Id, s: &str) -> bool {
        self.strings(body, vec![s.to_string()])
    }
    fn strings(&mut self, body: Id, v: Vec<String>) -> bool {
        let n = v.len();
        if n > 24 {
            self.steps = STEP_LIMIT + 1;
            return false;
        }
        self.ctxs.push(Ctx {
            attrs: vec![],
            kids: v.into_iter().map(Child::Text).collect(),
        });
        let c = self.ctxs.len() - 1;
        self.m(c, body, 0, full(n))
    }
    fn only_text(&self, c: usize, k: u32) -> Option<String> {
        if k.count_ones() != 1 {
            return None;
        }
        match &self.ctxs[c].kids[k.trailing_zeros() as usize] {
            Child::Text(t) => Some(t.clone()),
            _ => None,
        }
    }
    fn m(&mut self, c: usize, id: Id, a: u32, k: u32) -> bool {
        let (node, id) = self.g.get(id);
        self.steps += 1;
        if self.steps > STEP_LIMIT {
            return false;
        }
        match node {
            N::Empty => return a == 0 && k == 0,
            N::NotAllowed => return false,
            N::Text => {
                return a == 0
                    && bits(k).all(|i| matches!(self.ctxs[c].kids[i as usize], Child::Text(_)));
            }
            _ => {}
        }
        let key = (c as u32, id as u32, a, k);
        if let Some(v) = self.memo.get(&key) {
            return *v;
        }
        let v = match node.clone() {
            N::Elem(nc, body) => {
                if a != 0 || k.count_ones() != 1 {
                    false
                } else if let Child::Elem(e) = self.ctxs[c].kids[k.trailing_zeros() as usize] {
                    nc.contains(&self.elems[e].ns, &self.elems[e].local) && self.content(body, e)
                } else {
                    false
                }
            }
            N::Attr(nc, body) => {
                if k != 0 || a.count_ones() != 1 {
                    false
                } else {
                    let (ns, l, v) = self.ctxs[c].attrs[a.trailing_zeros() as usize].clone();
                    nc.contains(&ns, &l) && self.string_weak(body, &v)
                }
            }
            N::Choice(x, y) => self.m(c, x, a, k) || self.m(c, y, a, k),
            N::Group(x, y) => self.split(c, a, k, |s, a1, k1, a2, k2| {
                s.m(c, x, a1, k1) && s.m(c, y, a2, k2)
            }),
            N::Plus(x) => {
                self.m(c, x, a, k)
                    || self.split(c, a, k, |s, a1, k1, a2, k2| {
                        (a1 != 0 || k1 != 0)
                            && (a2 != 0 || k2 != 0)
                            && s.m(c, x, a1, k1)
                            && s.m(c, id, a2, k2)
                    })
            }
            N::Inter(x, y) => {
                let mut found = false;
                for a1 in submasks(a) {
                    for k1 in submasks(k) {
                        if self.m(c, x, a1, k1) && self.m(c, y, a & !a1, k & !k1) {
                            found = true;
                            break;
                        }
                    }
                    if found {
                        break;
                    }
                }
                found
            }
            N::List(x) => match self.only_text(c, k) {
                Some(t) if a == 0 => {
                    let toks = dt::tokens(&t);
                    self.strings(x, toks)
                }
                _ => false,
            },
            N::Data(d, ex) => match self.only_text(c, k) {
                Some(t) if a == 0 => {
                    dt::accepts(&d, &t) && !ex.is_some_and(|e| self.string(e, &t))
                }
                _ => false,
            },
            N::Model(d, ex) => match self.only_text(c, k) {
                Some(t) if a == 0 => d.accepts(&t) && !ex.is_some_and(|e| self.string(e, &t)),
                _ => false,
            },
            N::Value(d, lit) => match self.only_text(c, k) {
                Some(t) if a == 0 => dt::value_eq(&d, &lit, &t),
                _ => false,
            },
            N::Empty | N::Text | N::NotAllowed | N::Ref(_) => unreachable!(),
        };
        self.memo.insert(key, v);
        v
    }
    /// tries every split of the attributes into two sets and of the children into prefix/suffix
    fn split(&mut self, _c: usize, a: u32, k: u32, mut f: impl FnMut(&mut Self, u32, u32, u32, u32) -> bool) -> bool {
        let mut prefixes = vec![0u32];
        let mut acc = 0;
        for i in bits(k) {
            acc |= 1 << i;
            prefixes.push(acc);
        }
        for a1 in submasks(a) {
            for k1 in &prefixes {
                if f(self, a1, *k1, a & !a1, k & !*k1) {
                    return true;
                }
            }
        }
        false
    }
}

fn full(n: usize) -> u32 {
    assert!(n < 32, "too many items for the reference matcher");
    (1u32 << n) - 1
}
fn bits(m: u32) -> impl Iterator<Item = u32> {
    (0..32).filter(move |i| m & (1 << i) != 0)
}
fn submasks(m: u32) -> impl Iterator<Item = u32> {
    let mut next = Some(m);
    std::iter::from_fn(move || {
        let cur = next?;
        next = if cur == 0 { None } else { Some((cur - 1) & m) };
        Some(cur)
    })
}
