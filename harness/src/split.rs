//! Meaning-preserving division of a single-file schema into several files.

use crate::ast::*;
use crate::rnc::Inherit;
use crate::schemagen::{self, count, replace_nth, walk_shallow};
use crate::tape::Tape;

const DIRS: &[&str] = &["", "", "sub/", "sub/deep/", "other/"];

fn rel(from: &str, to: &str, t: &mut Tape) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let g: Vec<&str> = to.split('/').collect();
    let mut i = 0;
    while i + 1 < f.len() && i + 1 < g.len() && f[i] == g[i] {
        i += 1;
    }
    let mut s = String::new();
    if f.len() - 1 == i && !g[i].is_empty() && t.chance(1, 6) {
        s.push_str("./");
    }
    for _ in i..f.len() - 1 {
        s.push_str("../");
    }
    s.push_str(&g[i..].join("/"));
    s
}

fn flat(items: &[Item], out: &mut Vec<Item>) {
    for i in items {
        match i {
            Item::Div(v) => flat(v, out),
            i => out.push(i.clone()),
        }
    }
}

/// item lists of a body, with whether they may be searched for a place to divide
fn lists<'a>(v: &'a mut Vec<Item>, out: &mut Vec<*mut Vec<Item>>) {
    out.push(v as *mut _);
    for i in v {
        if let Item::Div(w) = i {
            lists(w, out)
        }
    }
}

/// the name of a file, which may differ from that of others only in case, in its ending or the lack of one
fn stem(t: &mut Tape, kind: &str, k: usize) -> String {
    match t.below(10) {
        0 => format!("main.x{k}~"),
        1 => format!("{kind}.{k}~"),
        2 => format!("main.{k}"),
        3 => format!("MAIN{}~", ".".repeat(k % 3 + 1).to_owned() + &k.to_string()),
        4 => format!("main-{k}~"),
        5 => format!("{kind}{k}.rnc"),
        _ => format!("{kind}{k}"),
    }
}

fn decoy(t: &mut Tape, names: &[String]) -> P {
    match t.below(7) {
        // a reference that is only in what is replaced
        5 => P::Elem(Nc::local("decoy"), Box::new(P::Ref("nowhere".into()))),
        // a definition that refers to itself, or to others, without an element between
        6 if !names.is_empty() => P::Opt(Box::new(P::Ref(t.pick(names).clone()))),
        0 => P::NotAllowed,
        1 => P::Text,
        2 => P::Elem(Nc::Any(None), Box::new(P::Text)),
        3 if !names.is_empty() => P::Elem(Nc::local("decoy"), Box::new(P::Opt(Box::new(P::Ref(t.pick(names).clone()))))),
        _ => P::Elem(Nc::local("decoy"), Box::new(P::Empty)),
    }
}

fn remove_defs(v: &mut Vec<Item>, name: &str, out: &mut Vec<Item>) {
    let mut keep = vec![];
    for i in std::mem::take(v) {
        match i {
            Item::Def(n, op, p) if n == name => out.push(Item::Def(n, op, p)),
            Item::Div(mut w) => {
                remove_defs(&mut w, name, out);
                keep.push(Item::Div(w));
            }
            i => keep.push(i),
        }
    }
    *v = keep;
}

/// Moves some items of one item list into a new file which is included in their place; some of the
/// moved definitions stay behind as overrides of decoys.
fn include(t: &mut Tape, sch: &mut Sch, k: usize, stats: &mut Stats) {
    let fi = if t.chance(1, 2) { 0 } else { t.below(sch.files.len()) };
    let from = sch.files[fi].name.clone();
    let Body::Gram(items) = &mut sch.files[fi].body else { return };
    let mut ls = vec![];
    lists(items, &mut ls);
    let li = if t.chance(3, 4) { 0 } else { t.below(ls.len()) };
    // the list is part of `items`, which is borrowed mutably here and not touched otherwise
    let list: &mut Vec<Item> = unsafe { &mut *ls[li] };
    if list.is_empty() {
        return;
    }
    let name = format!("{}{}{}", stats.root, t.pick(DIRS), stem(t, "inc", k));
    let mut moved = vec![];
    let mut kept = vec![];
    let all = t.chance(1, 4);
    for i in std::mem::take(list) {
        // a moved include would need its path adapted
        let has_path = {
            let mut f = false;
            walk_paths(&Body::Gram(vec![i.clone()]), &mut |_| f = true);
            f
        };
        if !has_path && (all || t.chance(1, 2)) {
            moved.push(i)
        } else {
            kept.push(i)
        }
    }
    let mut over: Option<Vec<Item>> = None;
    let all_names: Vec<String> = schemagen::def_names(&moved).into_iter().filter(|n| n != "start").collect();
    if t.chance(2, 3) {
        let mut o: Vec<Item> = vec![];
        let names: Vec<String> = schemagen::def_names(&moved);
        for n in names {
            if !t.chance(2, 5) {
                continue;
            }
            let mut real = vec![];
            remove_defs(&mut moved, &n, &mut real);
            if real.is_empty() {
                continue;
            }
            stats.overrides += 1;
            // the included file has other definitions of the name
            let d = decoy(t, &all_names);
            let op = match t.below(4) {
                0 => Op::Choice,
                1 => Op::Inter,
                _ => Op::Assign,
            };
            let at = t.below(moved.len() + 1);
            moved.insert(at, Item::Def(n.clone(), op, d));
            if t.chance(1, 3) {
                let op2 = if op == Op::Assign { if t.chance(1, 2) { Op::Choice } else { Op::Inter } } else { op };
                let d = decoy(t, &all_names);
                let at = t.below(moved.len() + 1);
                moved.insert(at, Item::Def(n.clone(), op2, d));
            }
            if t.chance(1, 6) {
                let mut d = Item::Div(real);
                while t.chance(1, 2) {
                    d = Item::Div(vec![d]);
                }
                o.push(d);
            } else {
                o.extend(real);
            }
        }
        // further definitions of the included grammar's names may not be added; an override block
        // may be empty
        over = Some(o);
    }
    stats.includes += 1;
    let mut inc = Item::Include(rel(&from, &name, t), over);
    if t.chance(1, 6) {
        inc = Item::Div(vec![inc]);
    }
    let at = t.below(kept.len() + 1);
    kept.insert(at, inc);
    *list = kept;
    sch.files.push(SFile {
        name,
        body: Body::Gram(moved),
    });
}

/// Replaces a sub-pattern by an external reference to (or a nested grammar that includes) a file.
fn external(t: &mut Tape, sch: &mut Sch, defs: &[Item], k: usize, stats: &mut Stats) {
    let fi = t.below(sch.files.len());
    let from = sch.files[fi].name.clone();
    let Body::Gram(items) = &mut sch.files[fi].body else { return };
    let mut ls = vec![];
    lists(items, &mut ls);
    let li = t.below(ls.len());
    let list: &mut Vec<Item> = unsafe { &mut *ls[li] };
    let idx: Vec<usize> = list.iter().enumerate().filter(|(_, i)| matches!(i, Item::Def(..))).map(|(i, _)| i).collect();
    if idx.is_empty() {
        return;
    }
    let d = *t.pick(&idx);
    let Item::Def(_, _, p) = &mut list[d] else { return };
    let mut target = t.below(count(p));
    let name = format!("{}{}{}", stats.root, t.pick(DIRS), stem(t, "ext", k));
    let path = rel(&from, &name, t);
    let form = t.below(3);
    let twice = t.chance(1, 6);
    let spin = t.chance(1, 2);
    let mut body = None;
    replace_nth(p, &mut target, &mut |old| {
        let (mut refs, mut bad) = (false, false);
        walk_shallow(&old, &mut |q| match q {
            P::Ref(n) if n == "nowhere" => bad = true,
            P::Ref(_) => refs = true,
            P::Parent(_) | P::Grammar(_) | P::External(_) => bad = true,
            _ => {}
        });
        if bad {
            return old;
        }
        let b = if refs || form == 0 {
            let mut v = vec![Item::Def("start".into(), Op::Assign, old)];
            if refs {
                v.extend(defs.iter().filter(|i| !matches!(i, Item::Def(n, ..) if n == "start")).cloned());
            }
            if spin {
                v.reverse();
            }
            Body::Gram(v)
        } else {
            Body::Pat(old)
        };
        let e = match &b {
            Body::Gram(_) if form == 1 => P::Grammar(vec![Item::Include(path.clone(), None)]),
            _ => P::External(path.clone()),
        };
        body = Some(b);
        if twice { P::Choice(vec![e.clone(), e]) } else { e }
    });
    if let Some(b) = body {
        stats.externals += 1;
        sch.files.push(SFile { name, body: b });
    }
}

#[derive(Default)]
pub struct Stats {
    pub includes: usize,
    pub overrides: usize,
    pub externals: usize,
    pub inherits: usize,
    /// directory of all files but the first one
    pub root: &'static str,
}

pub fn split(t: &mut Tape, sch: &mut Sch) -> (Inherit, Stats) {
    split_at(t, sch, "")
}

pub fn split_at(t: &mut Tape, sch: &mut Sch, root: &'static str) -> (Inherit, Stats) {
    let mut st = Stats { root, ..Stats::default() };
    let mut defs = vec![];
    if let Body::Gram(v) = &sch.files[0].body {
        flat(v, &mut defs);
    }
    // definitions copied into external files must be closed
    let mut open = false;
    walk_items(&defs, &mut |p| open |= matches!(p, P::Parent(_) | P::Grammar(_)));
    for k in 0..t.below(4) {
        if t.chance(1, 2) {
            if !open {
                external(t, sch, &defs, k, &mut st);
            }
        } else {
            include(t, sch, k, &mut st);
        }
    }
    if sch.files.len() == 1 {
        include(t, sch, 9, &mut st);
    }
    let mut inh = Inherit::new();
    if t.chance(1, 2) {
        for f in &sch.files[1..] {
            if matches!(f.body, Body::Pat(P::Attr(..))) || !t.chance(1, 2) {
                continue;
            }
            let mut u = crate::rnc::uris_of(&f.body);
            u.retain(|u| u != XML_NS);
            if u.is_empty() {
                u.push("urn:a".into());
            }
            inh.insert(f.name.clone(), t.pick(&u).clone());
            st.inherits += 1;
        }
    }
    (inh, st)
}
