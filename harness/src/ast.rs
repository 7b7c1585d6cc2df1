//! Schema model used by the generators, with the reference simplification (spec section 4) into an
//! arena of binary patterns.

use crate::dt::Dt;
use std::collections::{BTreeMap, HashMap};

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XSD_LIB: &str = "http://www.w3.org/2001/XMLSchema-datatypes";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Nc {
    Name(String, String),
    Ns(String, Option<Box<Nc>>),
    Any(Option<Box<Nc>>),
    Choice(Box<Nc>, Box<Nc>),
}
impl Nc {
    pub fn local(l: &str) -> Nc {
        Nc::Name(String::new(), l.to_string())
    }
    pub fn contains(&self, ns: &str, local: &str) -> bool {
        match self {
            Nc::Name(n, l) => n == ns && l == local,
            Nc::Ns(n, e) => n == ns && !e.as_ref().is_some_and(|e| e.contains(ns, local)),
            Nc::Any(e) => !e.as_ref().is_some_and(|e| e.contains(ns, local)),
            Nc::Choice(a, b) => a.contains(ns, local) || b.contains(ns, local),
        }
    }
    pub fn uris(&self, out: &mut Vec<String>) {
        match self {
            Nc::Name(n, _) => out.push(n.clone()),
            Nc::Ns(n, e) => {
                out.push(n.clone());
                if let Some(e) = e {
                    e.uris(out)
                }
            }
            Nc::Any(e) => {
                if let Some(e) = e {
                    e.uris(out)
                }
            }
            Nc::Choice(a, b) => {
                a.uris(out);
                b.uris(out)
            }
        }
    }
    pub fn names(&self, out: &mut Vec<(String, String)>) {
        match self {
            Nc::Name(n, l) => out.push((n.clone(), l.clone())),
            Nc::Ns(_, e) | Nc::Any(e) => {
                if let Some(e) = e {
                    e.names(out)
                }
            }
            Nc::Choice(a, b) => {
                a.names(out);
                b.names(out)
            }
        }
    }
    pub fn has_wildcard(&self) -> bool {
        match self {
            Nc::Name(..) => false,
            Nc::Ns(..) | Nc::Any(_) => true,
            Nc::Choice(a, b) => a.has_wildcard() || b.has_wildcard(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Empty,
    Text,
    NotAllowed,
    Elem(Nc, Box<P>),
    Attr(Nc, Box<P>),
    Group(Vec<P>),
    Inter(Vec<P>),
    Choice(Vec<P>),
    Opt(Box<P>),
    Star(Box<P>),
    Plus(Box<P>),
    Mixed(Box<P>),
    List(Box<P>),
    Data(Dt, Option<Box<P>>),
    /// None: no explicit type
    Value(Option<Dt>, String),
    Ref(String),
    Parent(String),
    Grammar(Vec<Item>),
    /// path as written, namespace to inherit
    External(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Assign,
    Choice,
    Inter,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Def(String, Op, P),
    Div(Vec<Item>),
    /// path as written, overriding definitions (None: no braces)
    Include(String, Option<Vec<Item>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Pat(P),
    Gram(Vec<Item>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SFile {
    /// path without extension
    pub name: String,
    pub body: Body,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sch {
    /// files[0] is the main schema
    pub files: Vec<SFile>,
}

impl Sch {
    pub fn single(body: Body) -> Sch {
        Sch {
            files: vec![SFile {
                name: "main".into(),
                body,
            }],
        }
    }
}

/// calls f on every pattern of the tree, nested grammars included
pub fn walk(p: &P, f: &mut dyn FnMut(&P)) {
    f(p);
    match p {
        P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => {
            walk(b, f)
        }
        P::Data(_, Some(b)) => walk(b, f),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter().for_each(|x| walk(x, f)),
        P::Grammar(items) => walk_items(items, f),
        _ => {}
    }
}
pub fn walk_items(items: &[Item], f: &mut dyn FnMut(&P)) {
    for i in items {
        match i {
            Item::Def(_, _, p) => walk(p, f),
            Item::Div(v) => walk_items(v, f),
            Item::Include(_, Some(v)) => walk_items(v, f),
            Item::Include(_, None) => {}
        }
    }
}
pub fn walk_body(b: &Body, f: &mut dyn FnMut(&P)) {
    match b {
        Body::Pat(p) => walk(p, f),
        Body::Gram(v) => walk_items(v, f),
    }
}

/// calls f on the path of every include and external reference
pub fn walk_paths(b: &Body, f: &mut dyn FnMut(&str)) {
    fn items(v: &[Item], f: &mut dyn FnMut(&str)) {
        for i in v {
            match i {
                Item::Def(_, _, p) => pat(p, f),
                Item::Div(v) => items(v, f),
                Item::Include(path, over) => {
                    f(path);
                    if let Some(v) = over {
                        items(v, f)
                    }
                }
            }
        }
    }
    fn pat(p: &P, f: &mut dyn FnMut(&str)) {
        match p {
            P::External(path) => f(path),
            P::Grammar(v) => items(v, f),
            P::Elem(_, b) | P::Attr(_, b) | P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => pat(b, f),
            P::Data(_, Some(b)) => pat(b, f),
            P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter().for_each(|x| pat(x, f)),
            _ => {}
        }
    }
    match b {
        Body::Pat(p) => pat(p, f),
        Body::Gram(v) => items(v, f),
    }
}

// ------------------------------------------------------------------ reference simplification

pub type Id = usize;

#[derive(Clone, Debug)]
pub enum N {
    Empty,
    Text,
    NotAllowed,
    Elem(Nc, Id),
    Attr(Nc, Id),
    Group(Id, Id),
    Inter(Id, Id),
    Choice(Id, Id),
    Plus(Id),
    List(Id),
    Data(Dt, Option<Id>),
    Value(Dt, String),
    /// a datatype of the library under test (only in arenas made from compiled models)
    Model(Md, Option<Id>),
    Ref(Id),
}

#[derive(Clone, Debug)]
pub enum Md {
    Name(std::rc::Rc<relaxng_model::datatype::Datatypes>),
    Value(std::rc::Rc<relaxng_model::datatype::DatatypeValues>),
}
impl Md {
    pub fn accepts(&self, s: &str) -> bool {
        use relaxng_model::datatype::Datatype;
        let _g = crate::runner::InLibrary::enter();
        match self {
            Md::Name(d) => d.is_valid(s),
            Md::Value(d) => d.is_valid(s),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Arena {
    pub nodes: Vec<N>,
    pub start: Id,
}

struct Scope {
    parent: Option<usize>,
    defs: HashMap<String, Id>,
}

struct Simp<'a> {
    sch: &'a Sch,
    nodes: Vec<N>,
    scopes: Vec<Scope>,
}

/// The name under which a file is found: with the ending of its syntax, unless the name has one of
/// its own, which a `~` marks
pub fn file_name(name: &str, ext: &str) -> String {
    match name.strip_suffix('~') {
        Some(n) => n.to_string(),
        None => format!("{name}.{ext}"),
    }
}

pub fn join_path(base: &str, rel: &str) -> String {
    let mut parts: Vec<&str> = base.split('/').collect();
    parts.pop();
    if rel.starts_with('/') {
        parts = vec![""];
    }
    for seg in rel.split('/') {
        match seg {
            "." | "" => {}
            ".." => match parts.last() {
                Some(&"..") | None => parts.push(".."),
                Some(&"") => {}
                _ => {
                    parts.pop();
                }
            },
            s => parts.push(s),
        }
    }
    parts.join("/")
}

impl<'a> Simp<'a> {
    fn push(&mut self, n: N) -> Id {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    fn file(&self, path: &str) -> &'a SFile {
        self.sch
            .files
            .iter()
            .find(|f| f.name == path)
            .unwrap_or_else(|| panic!("no file {path}"))
    }
    /// all definitions of a grammar with includes resolved (spec 4.7): (name, op, pattern, file)
    fn collect(&self, items: &'a [Item], file: &'a str, out: &mut Vec<(String, Op, &'a P, &'a str)>) {
        for i in items {
            match i {
                Item::Def(n, op, p) => out.push((n.clone(), *op, p, file)),
                Item::Div(v) => self.collect(v, file, out),
                Item::Include(path, over) => {
                    let f = self.file(&join_path(file, path));
                    let Body::Gram(inner) = &f.body else {
                        panic!("include of a non-grammar")
                    };
                    let mut a = vec![];
                    self.collect(inner, &f.name, &mut a);
                    let mut o = vec![];
                    if let Some(over) = over {
                        self.collect(over, file, &mut o);
                    }
                    a.retain(|(n, ..)| !o.iter().any(|(m, ..)| m == n));
                    out.extend(a);
                    out.extend(o);
                }
            }
        }
    }
    fn grammar(&mut self, items: &'a [Item], file: &'a str, parent: Option<usize>) -> Id {
        let mut defs = vec![];
        self.collect(items, file, &mut defs);
        let sc = self.scopes.len();
        self.scopes.push(Scope {
            parent,
            defs: HashMap::new(),
        });
        let mut by_name: BTreeMap<String, Vec<(Op, &'a P, &'a str)>> = BTreeMap::new();
        for (n, op, p, f) in defs {
            by_name.entry(n).or_default().push((op, p, f));
        }
        for n in by_name.keys() {
            let id = self.push(N::NotAllowed);
            self.scopes[sc].defs.insert(n.clone(), id);
        }
        for (n, v) in by_name {
            let inter = v.iter().any(|(op, ..)| *op == Op::Inter);
            let mut acc = None;
            for (_, p, f) in v {
                let id = self.pat(p, sc, f);
                acc = Some(match acc {
                    None => id,
                    Some(a) if inter => self.push(N::Inter(a, id)),
                    Some(a) => self.push(N::Choice(a, id)),
                });
            }
            let slot = self.scopes[sc].defs[&n];
            self.nodes[slot] = N::Ref(acc.unwrap());
        }
        self.scopes[sc].defs["start"]
    }
    fn pat(&mut self, p: &'a P, sc: usize, file: &'a str) -> Id {
        let n = match p {
            P::Empty => N::Empty,
            P::Text => N::Text,
            P::NotAllowed => N::NotAllowed,
            P::Elem(nc, b) => N::Elem(nc.clone(), self.pat(b, sc, file)),
            P::Attr(nc, b) => N::Attr(nc.clone(), self.pat(b, sc, file)),
            P::Group(v) | P::Inter(v) | P::Choice(v) => {
                let mut it = v.iter();
                let mut acc = self.pat(it.next().unwrap(), sc, file);
                for x in it {
                    let b = self.pat(x, sc, file);
                    acc = self.push(match p {
                        P::Group(_) => N::Group(acc, b),
                        P::Inter(_) => N::Inter(acc, b),
                        _ => N::Choice(acc, b),
                    });
                }
                return acc;
            }
            P::Opt(b) => {
                let a = self.pat(b, sc, file);
                let e = self.push(N::Empty);
                N::Choice(a, e)
            }
            P::Star(b) => {
                let a = self.pat(b, sc, file);
                let pl = self.push(N::Plus(a));
                let e = self.push(N::Empty);
                N::Choice(pl, e)
            }
            P::Plus(b) => N::Plus(self.pat(b, sc, file)),
            P::Mixed(b) => {
                let a = self.pat(b, sc, file);
                let t = self.push(N::Text);
                N::Inter(a, t)
            }
            P::List(b) => N::List(self.pat(b, sc, file)),
            P::Data(d, e) => {
                let e = e.as_ref().map(|e| self.pat(e, sc, file));
                N::Data(d.clone(), e)
            }
            P::Value(d, s) => N::Value(d.clone().unwrap_or(crate::dt::builtin("token")), s.clone()),
            P::Ref(n) => N::Ref(*self.scopes[sc].defs.get(n).unwrap_or_else(|| panic!("undefined {n}"))),
            P::Parent(n) => {
                let ps = self.scopes[sc].parent.expect("parent");
                N::Ref(*self.scopes[ps].defs.get(n).unwrap_or_else(|| panic!("undefined parent {n}")))
            }
            P::Grammar(items) => return self.grammar(items, file, Some(sc)),
            P::External(path) => {
                let f = self.file(&join_path(file, path));
                return match &f.body {
                    Body::Pat(p) => self.pat(p, sc, &f.name),
                    Body::Gram(items) => self.grammar(items, &f.name, Some(sc)),
                };
            }
        };
        self.push(n)
    }
}

pub fn simplify(sch: &Sch) -> Arena {
    let mut s = Simp {
        sch,
        nodes: vec![],
        scopes: vec![],
    };
    let f = &sch.files[0];
    let start = match &f.body {
        Body::Gram(items) => s.grammar(items, &f.name, None),
        Body::Pat(p) => {
            s.scopes.push(Scope {
                parent: None,
                defs: HashMap::new(),
            });
            s.pat(p, 0, &f.name)
        }
    };
    Arena {
        nodes: s.nodes,
        start,
    }
}

impl Arena {
    /// follow references
    pub fn get(&self, mut id: Id) -> (&N, Id) {
        let mut n = 0;
        while let N::Ref(t) = &self.nodes[id] {
            id = *t;
            n += 1;
            if n > self.nodes.len() {
                panic!("unguarded reference cycle");
            }
        }
        (&self.nodes[id], id)
    }
    /// Whether every pattern which a document may reach has an instance. (An alternative which is
    /// plainly notAllowed does no harm.)
    pub fn satisfiable(&self) -> bool {
        // sat[i]: in element content or attribute values, in lists
        let mut sat = vec![(false, false); self.nodes.len()];
        let data: Vec<(bool, bool)> = self
            .nodes
            .iter()
            .map(|n| match n {
                N::Data(d, ex) => {
                    let ok: Vec<String> = crate::dt::candidates(d).into_iter().filter(|s| crate::dt::accepts(d, s) && !ex.is_some_and(|e| self.string_in(e, s))).collect();
                    (!ok.is_empty(), ok.iter().any(|s| !s.is_empty() && !s.contains(crate::dt::is_ws)))
                }
                N::Value(d, s) => {
                    // the value space of string keeps white space
                    let v = crate::dt::normalize(d, s);
                    (true, !v.is_empty() && !v.contains(crate::dt::is_ws))
                }
                _ => (false, false),
            })
            .collect();
        loop {
            let mut changed = false;
            for i in 0..self.nodes.len() {
                let v = match &self.nodes[i] {
                    N::Empty | N::Text => (true, true),
                    N::Data(..) | N::Value(..) | N::Model(..) => data[i],
                    N::NotAllowed => (false, false),
                    N::Elem(_, b) => (sat[*b].0, false),
                    N::Attr(_, b) => (sat[*b].0, false),
                    N::Group(a, b) | N::Inter(a, b) => (sat[*a].0 && sat[*b].0, sat[*a].1 && sat[*b].1),
                    N::Choice(a, b) => (sat[*a].0 || sat[*b].0, sat[*a].1 || sat[*b].1),
                    N::Plus(a) | N::Ref(a) => sat[*a],
                    N::List(a) => (sat[*a].1, false),
                };
                if v != sat[i] {
                    sat[i] = v;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        // what can be reached from the start
        let mut todo = vec![(self.start, false)];
        let mut seen = std::collections::HashSet::new();
        while let Some((i, list)) = todo.pop() {
            if !seen.insert((i, list)) {
                continue;
            }
            if !(if list { sat[i].1 } else { sat[i].0 }) {
                return false;
            }
            match &self.nodes[i] {
                N::Elem(_, b) | N::Attr(_, b) | N::Plus(b) | N::Ref(b) => todo.push((*b, list)),
                N::Group(a, b) | N::Inter(a, b) => todo.extend([(*a, list), (*b, list)]),
                N::Choice(a, b) => {
                    for x in [*a, *b] {
                        if !matches!(self.get(x).0, N::NotAllowed) {
                            todo.push((x, list));
                        }
                    }
                }
                N::List(b) => todo.push((*b, true)),
                _ => {}
            }
        }
        true
    }
    fn string_in(&self, e: Id, s: &str) -> bool {
        match &self.nodes[e] {
            N::Choice(a, b) => self.string_in(*a, s) || self.string_in(*b, s),
            N::Ref(a) => self.string_in(*a, s),
            N::Data(d, ex) => crate::dt::accepts(d, s) && !ex.is_some_and(|e| self.string_in(e, s)),
            N::Value(d, l) => crate::dt::value_eq(d, l, s),
            _ => false,
        }
    }
    /// minimal number of elements in an instance of each pattern (None: no instance exists)
    pub fn min_cost(&self) -> Vec<Option<u32>> {
        let mut c: Vec<Option<u32>> = vec![None; self.nodes.len()];
        loop {
            let mut changed = false;
            for i in 0..self.nodes.len() {
                let v = match &self.nodes[i] {
                    N::Empty | N::Text | N::Value(..) | N::Data(..) | N::Model(..) => Some(0),
                    N::NotAllowed => None,
                    N::Elem(_, b) => c[*b].map(|v| v.saturating_add(1)),
                    N::Attr(_, b) => c[*b],
                    N::Group(a, b) | N::Inter(a, b) => match (c[*a], c[*b]) {
                        (Some(x), Some(y)) => Some(x.saturating_add(y)),
                        _ => None,
                    },
                    N::Choice(a, b) => match (c[*a], c[*b]) {
                        (Some(x), Some(y)) => Some(x.min(y)),
                        (x, y) => x.or(y),
                    },
                    N::Plus(a) | N::Ref(a) => c[*a],
                    N::List(a) => c[*a],
                };
                if v != c[i] && (c[i].is_none() || v < c[i]) {
                    c[i] = v;
                    changed = true;
                }
            }
            if !changed {
                return c;
            }
        }
    }
}
