//! Instance documents: tree model, generation from a schema arena, mutation and printing.

use crate::ast::{Arena, Id, N, Nc, XML_NS};
use crate::dt;
use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DElem {
    pub ns: String,
    pub local: String,
    pub attrs: Vec<(String, String, String)>,
    pub kids: Vec<DN>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DN {
    Elem(Box<DElem>),
    Text(String),
}

impl DElem {
    pub fn new(ns: &str, local: &str) -> DElem {
        DElem {
            ns: ns.into(),
            local: local.into(),
            attrs: vec![],
            kids: vec![],
        }
    }
    pub fn count(&self) -> usize {
        1 + self
            .kids
            .iter()
            .map(|k| match k {
                DN::Elem(e) => e.count(),
                _ => 0,
            })
            .sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self
            .kids
            .iter()
            .map(|k| match k {
                DN::Elem(e) => e.depth(),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    }
    pub fn has_elem(&self) -> bool {
        self.kids.iter().any(|k| matches!(k, DN::Elem(_)))
    }
    fn nth<'a>(&'a mut self, n: &mut usize) -> Option<&'a mut DElem> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for k in &mut self.kids {
            if let DN::Elem(e) = k {
                if let Some(r) = e.nth(n) {
                    return Some(r);
                }
            }
        }
        None
    }
    /// the n-th element in document order
    pub fn pick_mut(&mut self, mut n: usize) -> &mut DElem {
        let c = self.count();
        n %= c;
        self.nth(&mut n).unwrap()
    }
}

/// every name used by the generators: the instance generator samples wildcards from here
#[derive(Clone, Debug, Default)]
pub struct Names {
    pub elems: Vec<(String, String)>,
    pub attrs: Vec<(String, String)>,
}

pub const MAX_KIDS: usize = 9;
pub const MAX_ATTRS: usize = 6;

pub struct DocGen<'a> {
    pub g: &'a Arena,
    pub cost: Vec<Option<u32>>,
    pub names: &'a Names,
    pub budget: i64,
}

type Content = (Vec<(String, String, String)>, Vec<DN>);

pub const TEXTS: &[&str] = &[
    "x", "", " ", "\n  ", "hello world", "a<b&c", "  x ", "7", "]]", "é√", "x y z", "\t", "\u{1F600}", "0", "\"q'",
    // not white space in XML
    "\u{a0}", "\u{85} ", " \u{2003}\n", "x\u{3000}y", "\u{2028}",
];

impl<'a> DocGen<'a> {
    pub fn new(g: &'a Arena, names: &'a Names, budget: i64) -> DocGen<'a> {
        DocGen {
            g,
            cost: g.min_cost(),
            names,
            budget,
        }
    }
    /// an instance of the start pattern, if the schema has any
    pub fn document(&mut self, t: &mut Tape) -> Option<DElem> {
        self.cost[self.g.start]?;
        let (_, kids) = self.content(t, self.g.start, 0);
        kids.into_iter().find_map(|k| match k {
            DN::Elem(e) => Some(*e),
            _ => None,
        })
    }
    fn name_from(&self, t: &mut Tape, nc: &Nc, pool: &[(String, String)]) -> Option<(String, String)> {
        let mut named = vec![];
        nc.names(&mut named);
        let mut c: Vec<&(String, String)> = named.iter().filter(|(n, l)| nc.contains(n, l)).collect();
        if nc.has_wildcard() || c.is_empty() {
            c.extend(pool.iter().filter(|(n, l)| nc.contains(n, l)));
        }
        if c.is_empty() {
            return None;
        }
        Some((*t.pick(&c)).clone())
    }
    fn content(&mut self, t: &mut Tape, id: Id, depth: usize) -> Content {
        let (n, _) = self.g.get(id);
        let tight = self.budget <= 0 || depth > 12;
        match n.clone() {
            N::Empty | N::NotAllowed | N::Ref(_) => (vec![], vec![]),
            N::Text => {
                let n = t.weighted(&[3, 4, 1]);
                (vec![], (0..n).map(|_| DN::Text(t.pick(TEXTS).to_string())).collect())
            }
            N::Elem(nc, b) => {
                self.budget -= 1;
                let Some((ns, local)) = self.name_from(t, &nc, &self.names.elems.clone()) else {
                    return (vec![], vec![]);
                };
                let (attrs, kids) = self.content(t, b, depth + 1);
                let mut e = DElem {
                    ns,
                    local,
                    attrs,
                    kids,
                };
                tidy(&mut e);
                (vec![], vec![DN::Elem(Box::new(e))])
            }
            N::Attr(nc, b) => {
                let Some((ns, local)) = self.name_from(t, &nc, &self.names.attrs.clone()) else {
                    return (vec![], vec![]);
                };
                let (_, k) = self.content(t, b, depth + 1);
                let v: String = k
                    .iter()
                    .map(|k| match k {
                        DN::Text(s) => s.as_str(),
                        _ => "",
                    })
                    .collect();
                (vec![(ns, local, v)], vec![])
            }
            N::Group(a, b) => {
                let (mut x, mut y) = self.content(t, a, depth);
                let (p, q) = self.content(t, b, depth);
                x.extend(p);
                y.extend(q);
                (x, y)
            }
            N::Inter(a, b) => {
                let (mut x, y) = self.content(t, a, depth);
                let (p, q) = self.content(t, b, depth);
                x.extend(p);
                let mut out = vec![];
                let (mut i, mut j) = (y.into_iter().peekable(), q.into_iter().peekable());
                while i.peek().is_some() || j.peek().is_some() {
                    let second = j.peek().is_some() && (i.peek().is_none() || t.chance(1, 2));
                    out.push(if second { j.next().unwrap() } else { i.next().unwrap() });
                }
                (x, out)
            }
            N::Choice(a, b) => {
                let pick = match (self.cost[a], self.cost[b]) {
                    (Some(x), Some(y)) => {
                        if tight {
                            if y < x { b } else { a }
                        } else if t.chance(1, 2) {
                            b
                        } else {
                            a
                        }
                    }
                    (None, Some(_)) => b,
                    _ => a,
                };
                self.content(t, pick, depth)
            }
            N::Plus(a) => {
                let n = if tight { 1 } else { 1 + t.weighted(&[4, 3, 2, 1]) };
                let mut out = (vec![], vec![]);
                for _ in 0..n {
                    let (x, y) = self.content(t, a, depth);
                    out.0.extend(x);
                    out.1.extend(y);
                }
                out
            }
            N::List(a) => {
                let mut toks = vec![];
                self.tokens(t, a, &mut toks, 0);
                let s = if toks.is_empty() {
                    t.pick(&["", " "]).to_string()
                } else if t.chance(1, 4) {
                    format!(" {} ", toks.join("\t \n"))
                } else {
                    toks.join(" ")
                };
                (vec![], vec![DN::Text(s)])
            }
            N::Data(..) | N::Value(..) | N::Model(..) => (vec![], vec![DN::Text(self.string(t, id))]),
        }
    }
    fn string(&mut self, t: &mut Tape, id: Id) -> String {
        match self.g.get(id).0.clone() {
            N::Value(d, lit) => {
                if t.chance(1, 4) && d.name != "string" {
                    format!(" {lit}\n")
                } else {
                    lit
                }
            }
            N::Data(d, _) => dt::sample(t, &d),
            _ => String::new(),
        }
    }
    fn tokens(&mut self, t: &mut Tape, id: Id, out: &mut Vec<String>, depth: usize) {
        if out.len() > 8 || depth > 20 {
            return;
        }
        match self.g.get(id).0.clone() {
            N::Value(_, s) => out.push(s),
            N::Data(..) => {
                let s = self.string(t, id);
                out.push(dt::tokens(&s).into_iter().next().unwrap_or("x".into()));
            }
            N::Group(a, b) | N::Inter(a, b) => {
                self.tokens(t, a, out, depth + 1);
                self.tokens(t, b, out, depth + 1);
            }
            N::Choice(a, b) => {
                let x = if self.cost[a].is_none() || (self.cost[b].is_some() && t.chance(1, 2)) { b } else { a };
                self.tokens(t, x, out, depth + 1)
            }
            N::Plus(a) => {
                for _ in 0..1 + t.weighted(&[3, 2, 1]) {
                    self.tokens(t, a, out, depth + 1)
                }
            }
            _ => {}
        }
    }
}

/// keeps an element within the bounds of the reference matcher and free of duplicate attributes
pub fn tidy(e: &mut DElem) {
    let mut seen: Vec<(String, String)> = vec![];
    e.attrs.retain(|(n, l, _)| {
        let k = (n.clone(), l.clone());
        if seen.contains(&k) {
            false
        } else {
            seen.push(k);
            true
        }
    });
    e.attrs.truncate(MAX_ATTRS);
    e.kids.truncate(MAX_KIDS);
}
fn tidy_all(e: &mut DElem) {
    tidy(e);
    for k in &mut e.kids {
        if let DN::Elem(c) = k {
            tidy_all(c)
        }
    }
}

/// one random edit
pub fn mutate(t: &mut Tape, root: &mut DElem, names: &Names) {
    let c = root.count();
    let target = t.below(c);
    let e = root.pick_mut(target);
    match t.below(18) {
        16 | 17 => {
            // change the order of the element children
            let at: Vec<usize> = (0..e.kids.len()).filter(|i| matches!(e.kids[*i], DN::Elem(_))).collect();
            if at.len() > 1 {
                let i = t.below(at.len() - 1);
                let j = i + 1 + t.below(at.len() - 1 - i);
                e.kids.swap(at[i], at[j]);
            }
        }
        0 => {
            if !e.kids.is_empty() {
                let i = t.below(e.kids.len());
                e.kids.remove(i);
            } else {
                e.kids.push(DN::Text("x".into()));
            }
        }
        1 => {
            if !e.kids.is_empty() {
                let i = t.below(e.kids.len());
                let k = e.kids[i].clone();
                let j = t.below(e.kids.len() + 1);
                e.kids.insert(j, k);
            }
        }
        2 => {
            if e.kids.len() > 1 {
                let i = t.below(e.kids.len());
                let j = t.below(e.kids.len());
                e.kids.swap(i, j);
            }
        }
        3 | 4 => {
            let (n, l) = t.pick(&names.elems).clone();
            e.ns = n;
            e.local = l;
        }
        5 => {
            let (n, l) = t.pick(&names.elems).clone();
            let j = t.below(e.kids.len() + 1);
            e.kids.insert(j, DN::Elem(Box::new(DElem::new(&n, &l))));
        }
        6 => {
            let j = t.below(e.kids.len() + 1);
            let s = t.pick(TEXTS).to_string();
            e.kids.insert(j, DN::Text(s));
        }
        7 | 8 => {
            let mut done = false;
            for k in &mut e.kids {
                if let DN::Text(s) = k {
                    edit_string(t, s);
                    done = true;
                    break;
                }
            }
            if !done {
                if let Some(a) = e.attrs.first_mut() {
                    edit_string(t, &mut a.2)
                } else {
                    e.kids.push(DN::Text("y".into()))
                }
            }
        }
        9 => {
            if !e.attrs.is_empty() {
                let i = t.below(e.attrs.len());
                e.attrs.remove(i);
            }
        }
        10 | 11 => {
            let (n, l) = t.pick(&names.attrs).clone();
            let v = t.pick(TEXTS).to_string();
            e.attrs.push((n, l, v));
        }
        12 => {
            if !e.attrs.is_empty() {
                let i = t.below(e.attrs.len());
                let (n, l) = t.pick(&names.attrs).clone();
                e.attrs[i].0 = n;
                e.attrs[i].1 = l;
            }
        }
        13 => {
            if !e.attrs.is_empty() {
                let i = t.below(e.attrs.len());
                edit_string(t, &mut e.attrs[i].2);
            }
        }
        14 => {
            // replace an element child by its children
            if let Some(i) = e.kids.iter().position(|k| matches!(k, DN::Elem(_))) {
                if let DN::Elem(c) = e.kids.remove(i) {
                    for (n, k) in c.kids.into_iter().enumerate() {
                        e.kids.insert(i + n, k);
                    }
                }
            }
        }
        _ => {
            // wrap the children
            let (n, l) = t.pick(&names.elems).clone();
            let mut w = DElem::new(&n, &l);
            w.kids = std::mem::take(&mut e.kids);
            e.kids.push(DN::Elem(Box::new(w)));
        }
    }
    tidy_all(root);
}

pub fn edit_string(t: &mut Tape, s: &mut String) {
    let chars: Vec<char> = s.chars().collect();
    match t.below(8) {
        7 => {
            let i = t.below(chars.len() + 1);
            let at = s.char_indices().nth(i).map_or(s.len(), |x| x.0);
            s.insert(at, *t.pick(&['\u{a0}', '\u{85}', '\u{2003}', '\u{3000}', '\u{feff}']));
        }
        0 => s.push('x'),
        1 => {
            if !chars.is_empty() {
                let i = t.below(chars.len());
                *s = chars.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect();
            }
        }
        2 => s.insert(0, ' '),
        3 => *s = s.to_uppercase(),
        4 => s.push_str(" 1"),
        5 => s.clear(),
        _ => *s = t.pick(TEXTS).to_string(),
    }
}

// ------------------------------------------------------------------------------------ printing

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EvKind {
    Start,
    Text,
    End,
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: EvKind,
    /// byte range of the tag or text
    pub span: (usize, usize),
    /// byte range of the qualified name (start tags)
    pub name: (usize, usize),
    /// byte range of each attribute, declarations excluded
    pub attrs: Vec<(usize, usize)>,
    pub path: Vec<usize>,
}

/// which rewrites the printer may choose (with an exhausted tape it always prints canonically)
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub lexical: bool,
    pub markup: bool,
    pub namespaces: bool,
    /// add white space next to element children
    pub space: bool,
    pub prolog: bool,
}
pub const CANONICAL: Style = Style {
    lexical: false,
    markup: false,
    namespaces: false,
    space: false,
    prolog: false,
};
pub const VARIED: Style = Style {
    lexical: true,
    markup: true,
    namespaces: true,
    space: true,
    prolog: true,
};

pub struct Printer<'a, 'b> {
    pub out: String,
    pub events: Vec<Ev>,
    t: &'a mut Tape<'b>,
    st: Style,
    scope: Vec<(String, String)>,
    counter: usize,
    entities: bool,
    /// the names and values of entities for parts of the text of this document
    parts: Vec<(String, Vec<char>)>,
    in_attr: bool,
}

const PREFIXES: &[&str] = &["p", "q", "ns1", "a", "x-y", "_z", "é"];

pub fn canonical(e: &DElem) -> String {
    let mut t = Tape::new(&[]);
    print(e, &mut t, CANONICAL).0
}

pub fn print(e: &DElem, t: &mut Tape, st: Style) -> (String, Vec<Ev>) {
    let entities = st.prolog && t.chance(1, 4);
    let mut p = Printer {
        out: String::new(),
        events: vec![],
        t,
        st,
        scope: vec![],
        counter: 0,
        entities,
        parts: vec![],
        in_attr: false,
    };
    p.prolog(e);
    p.elem(e, &mut vec![]);
    p.misc();
    (p.out, p.events)
}

/// the texts and values of a document which have characters
fn strings(e: &DElem, out: &mut Vec<Vec<char>>) {
    out.extend(e.attrs.iter().map(|a| a.2.chars().collect::<Vec<char>>()).filter(|v| !v.is_empty()));
    for k in &e.kids {
        match k {
            DN::Elem(e) => strings(e, out),
            DN::Text(s) if s.is_empty() => {}
            DN::Text(s) => out.push(s.chars().collect()),
        }
    }
}

impl Printer<'_, '_> {
    fn yes(&mut self, on: bool, num: usize, den: usize) -> bool {
        on && self.t.chance(num, den)
    }
    fn prolog(&mut self, e: &DElem) {
        if self.yes(self.st.prolog, 1, 4) {
            let d = *self.t.pick(&[
                "<?xml version=\"1.0\"?>",
                "<?xml version='1.0' encoding='UTF-8'?>",
                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n",
            ]);
            self.out.push_str(d);
        }
        self.misc();
        if self.entities {
            let q = if e.ns.is_empty() { e.local.clone() } else { "root".into() };
            self.subset(e, &q);
            self.misc();
        } else if self.yes(self.st.prolog, 1, 8) {
            let q = if e.ns.is_empty() { e.local.clone() } else { "root".into() };
            let d = format!("<!DOCTYPE {q}>");
            self.out.push_str(&d);
            self.misc();
        }
    }
    /// an internal subset; of several declarations of one entity the first binds
    fn subset(&mut self, e: &DElem, q: &str) {
        let mut decls: Vec<String> = vec![
            (*self.t.pick(&["<!ENTITY ent \"x\">", "<!ENTITY  ent 'x' >", "<!ENTITY\nent\t\"&#120;\">"])).into(),
            (*self.t.pick(&["<!ENTITY emp \"\">", "<!ENTITY emp ''>"])).into(),
            (*self.t.pick(&["<!ENTITY nest '&ent;'>", "<!ENTITY nest \"&ent;&emp;\">", "<!ENTITY nest '&emp;&ent;&emp;'>"])).into(),
            // to be used in attribute values
            (*self.t.pick(&["<!ENTITY spc '&#10;'>", "<!ENTITY spc \"&#x9;\">", "<!ENTITY spc '&#xD;'>", "<!ENTITY spc '&emp;&#13;'>", "<!ENTITY spc '&#32;'>", "<!ENTITY spc '\t'>", "<!ENTITY spc '\r\n'>", "<!ENTITY spc ' &emp;'>"])).into(),
            (*self.t.pick(&["<!ENTITY chr \"&#x79;\">", "<!ENTITY chr 'y'>", "<!ENTITY chr '&emp;&#121;'>"])).into(),
        ];
        if self.t.chance(1, 2) {
            let mut texts = vec![];
            strings(e, &mut texts);
            for _ in 0..self.t.range(1, 3) {
                if texts.is_empty() {
                    break;
                }
                let s = &texts[self.t.below(texts.len())];
                let from = self.t.below(s.len());
                let len = self.t.range(1, 10);
                let value: Vec<char> = s[from..].iter().take(len).take_while(|c| !"<>&%\"'\r\n\t".contains(**c)).copied().collect();
                if !value.is_empty() {
                    let name = self.entity(&value, 0, &mut decls);
                    self.parts.push((name, value));
                }
            }
        }
        self.t.shuffle(&mut decls);
        // declarations that do not bind come later
        for n in ["ent", "emp", "nest", "chr"] {
            if self.t.chance(1, 4) {
                let at = decls.iter().position(|d| d.split(|c: char| c.is_whitespace()).any(|w| w == n)).unwrap();
                let k = at + 1 + self.t.below(decls.len() - at);
                let v = *self.t.pick(&["other", "", "&ent;&ent;&chr;", "&undeclared;", "9"]);
                decls.insert(k, format!("<!ENTITY {n} \"{v}\">"));
            }
        }
        // and other declarations anywhere
        for _ in 0..self.t.below(4) {
            let d = *self.t.pick(&[
                "<!-- c -->",
                "<!-- <!ENTITY ent \"9\"> ]> -->",
                "<?pi <!ENTITY ent \"9\"> ?>",
                "<!ENTITY % ent \"9\">",
                "<!ENTITY %\tent '9'>",
                "<!ENTITY\n%\r\n nest\t\"9\">",
                "<!ENTITY  %  chr  \"&#x39;\" >",
                "<!ENTITY % pe '<!-- -->'>",
                "<!ENTITY Ent \"9\">",
                "<!ENTITY gt \"&#62;\">",
                "<!ENTITY quot '&#x22;'>",
                "<!ENTITY apos \"&#39;\">",
                "<!ENTITY ent.x \"9\">",
                "<!ELEMENT a ANY>",
                "<!ATTLIST a b CDATA #IMPLIED>",
                "<!NOTATION n SYSTEM \"n\">",
            ]);
            let k = self.t.below(decls.len() + 1);
            decls.insert(k, d.into());
        }
        let sep = *self.t.pick(&["", "\n", " "]);
        let d = format!("<!DOCTYPE {q} [{}]>", decls.join(sep));
        self.out.push_str(&d);
    }
    /// Declares an entity for the given characters, of which others may be part; the name of it.
    fn entity(&mut self, value: &[char], depth: usize, decls: &mut Vec<String>) -> String {
        let name = format!("{}{}", self.t.pick(&["e", "ent", "é.", "_-", "E", "lt", "x", "amp"]), decls.len());
        // takes the place in the list, and so the name
        decls.push(String::new());
        let at = decls.len() - 1;
        let mut body = String::new();
        let mut i = 0;
        while i < value.len() {
            let k = self.t.below(8);
            if depth < 9 && (k < 2 || (k == 2 && i == 0)) {
                let n = if i == 0 && k == 2 { value.len() } else { self.t.range(1, value.len() - i) };
                let inner = self.entity(&value[i..i + n], depth + 1, decls);
                body.push_str(&format!("&{inner};"));
                i += n;
                continue;
            }
            match k {
                3 => body.push_str(&format!("&#{};", value[i] as u32)),
                4 => body.push_str(&format!("&#x{:X};", value[i] as u32)),
                _ => body.push(value[i]),
            }
            i += 1;
        }
        let q = *self.t.pick(&['"', '\'']);
        decls[at] = format!("<!ENTITY {name} {q}{body}{q}>");
        name
    }
    /// the entity with which the given characters can start
    fn part(&mut self, rest: &[char]) -> Option<(String, usize)> {
        let k = self.parts.iter().position(|(_, v)| rest.starts_with(v))?;
        self.t.chance(1, 2).then(|| (self.parts[k].0.clone(), self.parts[k].1.len()))
    }
    fn misc(&mut self) {
        if self.yes(self.st.prolog, 1, 6) {
            let m = *self.t.pick(&["\n", "<!-- c <a> &b; -->", "<?pi some ?>", "  <!---->\n<?q?>"]);
            self.out.push_str(m);
        }
    }
    fn comment(&mut self) {
        let m = *self.t.pick(&["<!--c-->", "<!---->", "<?pi a=\"<b>\"?>", "<?t?>", "<!-- & < > é -->"]);
        self.out.push_str(m);
    }
    fn fresh_prefix(&mut self) -> String {
        if self.st.namespaces && self.t.chance(1, 2) {
            self.t.pick(PREFIXES).to_string()
        } else {
            self.counter += 1;
            format!("n{}", self.counter)
        }
    }
    fn lookup(scope: &[(String, String)], prefix: &str) -> String {
        scope
            .iter()
            .rev()
            .find(|(p, _)| p == prefix)
            .map(|(_, u)| u.clone())
            .unwrap_or_default()
    }
    fn prefixes_for(scope: &[(String, String)], uri: &str) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for (p, _) in scope.iter() {
            if Self::lookup(scope, p) == uri && !out.contains(p) {
                out.push(p.clone());
            }
        }
        out
    }
    fn ws(&mut self) {
        if self.yes(self.st.lexical, 1, 5) {
            let s = *self.t.pick(&[" ", "\n", "\t", "  "]);
            self.out.push_str(s);
        }
    }
    fn elem(&mut self, e: &DElem, path: &mut Vec<usize>) {
        let depth = self.scope.len();
        // decide declarations of this element
        let mut decls: Vec<(String, String)> = vec![];
        if self.yes(self.st.namespaces, 1, 8) {
            // irrelevant declaration
            let mut p = self.t.pick(PREFIXES).to_string();
            let mut u = self.t.pick(&["urn:unused", "urn:a", "urn:b", " urn:a", "urn:a ", "URN:A"]).to_string();
            if self.t.chance(1, 12) {
                p = "xml".into();
                u = XML_NS.into();
            }
            decls.push((p.clone(), u.clone()));
            self.scope.push((p, u));
        }
        let prefix = if e.ns.is_empty() {
            if !Self::lookup(&self.scope, "").is_empty() {
                decls.push((String::new(), String::new()));
                self.scope.push((String::new(), String::new()));
            }
            String::new()
        } else if e.ns == XML_NS {
            "xml".to_string()
        } else {
            let have = Self::prefixes_for(&self.scope, &e.ns);
            let redeclare = self.yes(self.st.namespaces, 1, 6);
            if !have.is_empty() && !redeclare {
                if self.st.namespaces { self.t.pick(&have).clone() } else { have[0].clone() }
            } else {
                let p = if self.yes(self.st.namespaces, 1, 2) && !decls.iter().any(|(p, _)| p.is_empty()) {
                    String::new()
                } else {
                    let mut p = self.fresh_prefix();
                    while decls.iter().any(|(q, _)| *q == p) {
                        self.counter += 1;
                        p = format!("n{}", self.counter);
                    }
                    p
                };
                decls.push((p.clone(), e.ns.clone()));
                self.scope.push((p.clone(), e.ns.clone()));
                p
            }
        };
        let mut attrs: Vec<(String, &str, &str)> = vec![];
        for (ns, l, v) in &e.attrs {
            let p = if ns.is_empty() {
                String::new()
            } else if ns == XML_NS {
                "xml".to_string()
            } else {
                let have: Vec<String> =
                    Self::prefixes_for(&self.scope, ns).into_iter().filter(|p| !p.is_empty()).collect();
                if have.is_empty() {
                    let mut p = self.fresh_prefix();
                    while decls.iter().any(|(q, _)| *q == p) || p == prefix {
                        self.counter += 1;
                        p = format!("n{}", self.counter);
                    }
                    // must not shadow a prefix already chosen for another attribute
                    while attrs.iter().any(|(q, ..)| *q == p) {
                        self.counter += 1;
                        p = format!("n{}", self.counter);
                    }
                    decls.push((p.clone(), ns.clone()));
                    self.scope.push((p.clone(), ns.clone()));
                    p
                } else if self.st.namespaces {
                    self.t.pick(&have).clone()
                } else {
                    have[0].clone()
                }
            };
            attrs.push((p, l, v));
        }
        let start = self.out.len();
        self.out.push('<');
        let nstart = self.out.len();
        let q = if prefix.is_empty() { e.local.clone() } else { format!("{prefix}:{}", e.local) };
        self.out.push_str(&q);
        let name = (nstart, self.out.len());
        // attributes and declarations in some order
        enum A<'x> {
            Decl(String, String),
            Attr(String, &'x str, &'x str, usize),
        }
        let mut all: Vec<A> = decls.iter().map(|(p, u)| A::Decl(p.clone(), u.clone())).collect();
        for (i, (p, l, v)) in attrs.iter().enumerate() {
            all.push(A::Attr(p.clone(), l, v, i));
        }
        if self.st.lexical && all.len() > 1 && self.t.chance(1, 2) {
            self.t.shuffle(&mut all);
        }
        let mut aspans = vec![(0, 0); attrs.len()];
        for a in &all {
            if self.yes(self.st.lexical, 1, 6) {
                let s = *self.t.pick(&["\n", "  ", "\t", " \n "]);
                self.out.push_str(s);
            } else {
                self.out.push(' ');
            }
            let s = self.out.len();
            match a {
                A::Decl(p, u) => {
                    let n = if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{p}") };
                    self.attr(&n, u, true);
                }
                A::Attr(p, l, v, i) => {
                    let n = if p.is_empty() { l.to_string() } else { format!("{p}:{l}") };
                    self.attr(&n, v, false);
                    aspans[*i] = (s, self.out.len());
                }
            }
        }
        self.ws();
        let empty = e.kids.iter().all(|k| matches!(k, DN::Text(s) if s.is_empty()));
        let self_close = empty && !self.yes(self.st.lexical, 1, 2);
        if self_close {
            let s = self.out.len();
            self.out.push_str("/>");
            let end = self.out.len();
            self.events.push(Ev {
                kind: EvKind::Start,
                span: (start, end),
                name,
                attrs: aspans,
                path: path.clone(),
            });
            self.events.push(Ev {
                kind: EvKind::End,
                span: (s, end),
                name,
                attrs: vec![],
                path: path.clone(),
            });
            self.scope.truncate(depth);
            return;
        }
        self.out.push('>');
        self.events.push(Ev {
            kind: EvKind::Start,
            span: (start, self.out.len()),
            name,
            attrs: aspans,
            path: path.clone(),
        });
        let has_elem = e.has_elem();
        for (i, k) in e.kids.iter().enumerate() {
            if self.yes(self.st.markup, 1, 8) {
                self.comment();
            }
            if has_elem && self.yes(self.st.space, 1, 6) && matches!(k, DN::Elem(_)) {
                let s = *self.t.pick(&["\n", " ", "\t\n "]);
                // only where the neighbours are elements or white space
                if i == 0 || matches!(&e.kids[i - 1], DN::Elem(_)) {
                    self.out.push_str(s);
                }
            }
            path.push(i);
            match k {
                DN::Elem(c) => self.elem(c, path),
                DN::Text(s) => {
                    let st = self.out.len();
                    self.text(s);
                    if !s.is_empty() {
                        self.events.push(Ev {
                            kind: EvKind::Text,
                            span: (st, self.out.len()),
                            name: (0, 0),
                            attrs: vec![],
                            path: path.clone(),
                        });
                    }
                }
            }
            path.pop();
        }
        if self.yes(self.st.markup, 1, 8) {
            self.comment();
        }
        let s = self.out.len();
        self.out.push_str("</");
        self.out.push_str(&q);
        self.ws();
        self.out.push('>');
        self.events.push(Ev {
            kind: EvKind::End,
            span: (s, self.out.len()),
            name,
            attrs: vec![],
            path: path.clone(),
        });
        self.scope.truncate(depth);
    }
    fn attr(&mut self, name: &str, v: &str, decl: bool) {
        self.out.push_str(name);
        if self.yes(self.st.lexical, 1, 10) {
            self.out.push_str(" = ");
        } else {
            self.out.push('=');
        }
        let q = if self.yes(self.st.lexical, 1, 3) { '\'' } else { '"' };
        self.out.push(q);
        self.in_attr = true;
        let chars: Vec<char> = v.chars().collect();
        let mut i = 0;
        while i < chars.len() {
            if let Some((name, n)) = self.part(&chars[i..]) {
                self.out.push_str(&format!("&{name};"));
                i += n;
                continue;
            }
            let c = chars[i];
            i += 1;
            match c {
                c if c == q => self.out.push_str(if q == '"' { "&quot;" } else { "&apos;" }),
                '<' => self.char_ref(c, "&lt;"),
                '&' => self.char_ref(c, "&amp;"),
                '\t' | '\n' | '\r' => self.char_ref(c, ""),
                ' ' if !decl && self.entities && self.t.chance(1, 8) => self.out.push_str("&spc;"),
                ' ' if !decl && self.yes(self.st.lexical, 1, 6) => {
                    // a literal tab or newline in an attribute value is normalised to a space
                    let s = *self.t.pick(&["\n", "\t", "&#32;", "\r\n"]);
                    self.out.push_str(s)
                }
                c => self.plain(c),
            }
        }
        if self.entities && self.t.chance(1, 4) {
            self.out.push_str("&emp;");
        }
        self.in_attr = false;
        self.out.push(q);
    }
    fn char_ref(&mut self, c: char, named: &str) {
        let k = if self.st.lexical { self.t.below(4) } else { 0 };
        match k {
            0 if !named.is_empty() => self.out.push_str(named),
            0 | 1 => self.out.push_str(&format!("&#{};", c as u32)),
            2 => self.out.push_str(&format!("&#x{:x};", c as u32)),
            _ => self.out.push_str(&format!("&#x{:04X};", c as u32)),
        }
    }
    fn plain(&mut self, c: char) {
        if self.entities && c == 'x' && self.t.chance(1, 3) {
            let s = *self.t.pick(&["&ent;", "&nest;"]);
            self.out.push_str(s);
        } else if self.entities && c == 'y' && self.t.chance(1, 3) {
            self.out.push_str("&chr;");
        } else if self.st.lexical && self.t.chance(1, 12) {
            self.char_ref(c, "");
        } else {
            self.out.push(c);
        }
    }
    fn text(&mut self, s: &str) {
        let chars: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < chars.len() {
            let rest: String = chars[i..].iter().collect();
            if self.yes(self.st.lexical, 1, 8) {
                // CDATA section over some of the rest
                let n = self.t.range(0, chars.len() - i);
                let chunk: String = chars[i..i + n].iter().collect();
                if !chunk.contains("]]>") && !chunk.contains('\r') {
                    self.out.push_str("<![CDATA[");
                    if chunk.contains('\n') && self.yes(self.st.lexical, 1, 3) {
                        // line ends are normalised
                        let eol = *self.t.pick(&["\r\n", "\r"]);
                        self.out.push_str(&chunk.replace('\n', eol));
                    } else {
                        self.out.push_str(&chunk);
                    }
                    self.out.push_str("]]>");
                    i += n;
                    if n > 0 {
                        continue;
                    }
                }
            }
            if self.yes(self.st.markup, 1, 10) {
                self.comment();
            }
            if self.entities && self.t.chance(1, 12) {
                self.out.push_str("&emp;");
            }
            if let Some((name, n)) = self.part(&chars[i..]) {
                self.out.push_str(&format!("&{name};"));
                i += n;
                continue;
            }
            let c = chars[i];
            match c {
                '<' => self.char_ref(c, "&lt;"),
                '&' => self.char_ref(c, "&amp;"),
                '>' => self.char_ref(c, "&gt;"),
                '\r' => self.char_ref(c, ""),
                '\n' if self.yes(self.st.lexical, 1, 8) => {
                    // line ends are normalised
                    let s = *self.t.pick(&["\r\n", "\n", "\r"]);
                    // what follows could be a line feed
                    let s = if s == "\r" && (i + 1 == chars.len() || chars[i + 1] == '\n') { "\r\n" } else { s };
                    self.out.push_str(s)
                }
                c => self.plain(c),
            }
            let _ = rest;
            i += 1;
        }
    }
}
