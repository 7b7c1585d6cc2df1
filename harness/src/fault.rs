//! Injection of a single well-formedness fault into a correct schema, at the level of the syntax
//! tree (so that it can be printed in either syntax), with the error kind that names it.

use crate::ast::*;
use crate::dt::{self, ParamVal};
use crate::tape::Tape;

pub struct Fault {
    pub name: &'static str,
    pub expect: &'static str,
}

#[derive(Clone, Copy, Debug)]
struct Ctx {
    file: usize,
    /// nested grammars around
    depth: usize,
    in_attr: bool,
    in_except: bool,
    /// inside a grammar (false for a file that is a pattern)
    in_gram: bool,
    /// inside a definition called start of the main grammar
    in_start: bool,
    /// inside an element, below the definition
    in_elem: bool,
}

struct Found {
    pats: Vec<(*mut P, Ctx)>,
    lists: Vec<(*mut Vec<Item>, Ctx, bool)>,
    /// names overridden by some include: their original definitions do not count
    dead: Vec<String>,
}

fn scan(s: &mut Sch) -> Found {
    let mut f = Found { pats: vec![], lists: vec![], dead: vec![] };
    for file in &s.files {
        match &file.body {
            Body::Gram(v) => dead_items(v, &mut f.dead),
            Body::Pat(p) => dead_pat(p, &mut f.dead),
        }
    }
    for (i, file) in s.files.iter_mut().enumerate() {
        let c = Ctx { file: i, depth: 0, in_attr: false, in_except: false, in_gram: false, in_start: false, in_elem: false };
        match &mut file.body {
            Body::Gram(v) => list(v, Ctx { in_gram: true, ..c }, false, &mut f),
            Body::Pat(p) => pat(p, c, &mut f),
        }
    }
    f
}
fn dead_items(v: &[Item], out: &mut Vec<String>) {
    for i in v {
        match i {
            Item::Def(_, _, p) => dead_pat(p, out),
            Item::Div(w) => dead_items(w, out),
            Item::Include(_, over) => {
                if let Some(w) = over {
                    dead_items(w, out);
                    out.extend(crate::schemagen::def_names(w));
                }
            }
        }
    }
}
fn dead_pat(p: &P, out: &mut Vec<String>) {
    walk(p, &mut |q| {
        if let P::Grammar(v) = q {
            dead_items(v, out)
        }
    })
}
fn list(v: &mut Vec<Item>, c: Ctx, over: bool, f: &mut Found) {
    f.lists.push((v as *mut _, c, over));
    for i in v {
        match i {
            Item::Def(n, _, p) => {
                // the original of an overridden definition is not part of the schema
                if c.file > 0 && f.dead.contains(n) {
                    continue;
                }
                let start = n == "start" && c.file == 0 && c.depth == 0;
                let attr = c.in_attr && n == "start";
                pat(p, Ctx { in_start: start || c.in_start && n == "start", in_attr: attr, in_elem: false, ..c }, f)
            }
            Item::Div(w) => list(w, c, over, f),
            Item::Include(_, Some(w)) => list(w, c, true, f),
            Item::Include(_, None) => {}
        }
    }
}
fn pat(p: &mut P, c: Ctx, f: &mut Found) {
    f.pats.push((p as *mut _, c));
    match p {
        P::Elem(_, b) => pat(b, Ctx { in_elem: true, ..c }, f),
        P::Attr(_, b) => pat(b, Ctx { in_attr: true, ..c }, f),
        P::Opt(b) | P::Star(b) | P::Plus(b) | P::Mixed(b) | P::List(b) => pat(b, c, f),
        P::Data(_, Some(b)) => pat(b, Ctx { in_except: true, ..c }, f),
        P::Group(v) | P::Inter(v) | P::Choice(v) => v.iter_mut().for_each(|x| pat(x, c, f)),
        P::Grammar(v) => list(v, Ctx { depth: c.depth + 1, in_gram: true, ..c }, false, f),
        _ => {}
    }
}

/// adds a pattern beside the chosen one
fn beside(t: &mut Tape, p: *mut P, c: &Ctx, new: P) {
    // SAFETY: the pointer comes from a scan of the schema, which was not changed since
    let p = unsafe { &mut *p };
    let old = std::mem::replace(p, P::Empty);
    *p = if c.in_except {
        P::Choice(vec![old, new])
    } else {
        match t.below(6) {
            0 => P::Group(vec![old, new]),
            1 => P::Choice(vec![new, old]),
            2 => P::Choice(vec![old, P::Opt(Box::new(new))]),
            3 => P::Group(vec![P::Star(Box::new(new)), old]),
            4 => P::Inter(vec![old, new]),
            _ => P::Choice(vec![old, new]),
        }
    };
}
fn pick_pat(t: &mut Tape, f: &Found, ok: impl Fn(&Ctx) -> bool) -> Option<(*mut P, Ctx)> {
    let v: Vec<(*mut P, Ctx)> = f.pats.iter().filter(|(_, c)| ok(c)).cloned().collect();
    if v.is_empty() { None } else { Some(*t.pick(&v)) }
}
fn pick_list<'a>(t: &mut Tape, f: &Found, ok: impl Fn(&Ctx, bool, &[Item]) -> bool) -> Option<(&'a mut Vec<Item>, Ctx)> {
    let v: Vec<(*mut Vec<Item>, Ctx, bool)> =
        f.lists.iter().filter(|(l, c, o)| ok(c, *o, unsafe { &**l })).cloned().collect();
    if v.is_empty() {
        return None;
    }
    let (l, c, _) = *t.pick(&v);
    Some((unsafe { &mut *l }, c))
}
fn has_include(v: &[Item]) -> bool {
    v.iter().any(|i| match i {
        Item::Include(..) => true,
        Item::Div(w) => has_include(w),
        _ => false,
    })
}
fn rename_start(v: &mut [Item], to: &str) -> usize {
    let mut n = 0;
    for i in v {
        match i {
            Item::Def(x, ..) if x == "start" => {
                *x = to.to_string();
                n += 1
            }
            Item::Div(w) => n += rename_start(w, to),
            _ => {}
        }
    }
    n
}
fn insert(t: &mut Tape, v: &mut Vec<Item>, it: Item) {
    let i = t.below(v.len() + 1);
    v.insert(i, it);
}
fn small(t: &mut Tape) -> P {
    match t.below(4) {
        // (no element: the definition may be within an attribute)
        0 => P::Opt(Box::new(P::Text)),
        1 => P::NotAllowed,
        2 => P::Attr(Nc::local("flt"), Box::new(P::Text)),
        _ => P::Empty,
    }
}

pub const KINDS: usize = 20;

/// one random fault, or None if the schema offers no place for those tried
pub fn inject(t: &mut Tape, s: &mut Sch) -> Option<Fault> {
    let first = t.below(KINDS);
    for k in 0..KINDS {
        if let Some(f) = try_kind(t, s, (first + k) % KINDS) {
            return Some(f);
        }
    }
    None
}

fn try_kind(t: &mut Tape, s: &mut Sch, kind: usize) -> Option<Fault> {
    let f = scan(s);
    let fl = |name, expect| Some(Fault { name, expect });
    match kind {
        0 | 1 => {
            let (p, c) = pick_pat(t, &f, |c| c.in_gram)?;
            beside(t, p, &c, P::Ref("nosuch".into()));
            fl("undefined reference", "UndefinedReference")
        }
        2 => {
            let (p, c) = pick_pat(t, &f, |c| c.depth > 0)?;
            // in the outermost grammar there must not be such a name either
            beside(t, p, &c, P::Parent("nosuch".into()));
            fl("undefined parent reference", "UndefinedReference")
        }
        3 => {
            let (p, c) = pick_pat(t, &f, |c| c.file == 0 && c.depth == 0 && c.in_gram)?;
            beside(t, p, &c, P::Parent("start".into()));
            fl("parent reference without parent", "NoParentAvailable")
        }
        4 => {
            let (l, c) = pick_list(t, &f, |c, over, v| {
                !over && !has_include(v) && v.iter().any(|i| matches!(i, Item::Def(n, ..) if n == "start")) && (c.file == 0 || c.depth > 0)
            })?;
            // another part of the same grammar may be in a div, or the whole in another file
            if c.depth == 0 && s.files.len() > 1 {
                return None;
            }
            if c.depth == 0 {
                let Body::Gram(v) = &mut s.files[0].body else { return None };
                rename_start(v, "strt");
            } else {
                // only when no start is elsewhere in the grammar
                let n = rename_start(l, "strt");
                if n == 0 {
                    return None;
                }
                let left = grammars_without_start(s);
                if !left {
                    return fl_if(false, "", "");
                }
            }
            fl("missing start", "StartRuleNotDefined")
        }
        5 => {
            let dead = f.dead.clone();
            let (l, _) = pick_list(t, &f, |c, over, v| {
                !over && v.iter().any(|i| matches!(i, Item::Def(n, Op::Assign, _) if c.file == 0 || !dead.contains(n)))
            })?;
            let names: Vec<String> = l
                .iter()
                .filter_map(|i| match i {
                    Item::Def(n, Op::Assign, _) if !dead.contains(n) => Some(n.clone()),
                    _ => None,
                })
                .collect();
            if names.is_empty() {
                return None;
            }
            let n = t.pick(&names).clone();
            let b = small(t);
            let it = Item::Def(n, Op::Assign, b);
            let it = if t.chance(1, 4) { Item::Div(vec![it]) } else { it };
            insert(t, l, it);
            fl("duplicate definition", "DuplicateDefinition")
        }
        6 => {
            let dead = f.dead.clone();
            let (l, _) = pick_list(t, &f, |_, over, v| !over && v.iter().any(|i| matches!(i, Item::Def(n, ..) if !dead.contains(n))))?;
            let defs: Vec<(String, Op)> = l
                .iter()
                .filter_map(|i| match i {
                    Item::Def(n, o, _) if !dead.contains(n) => Some((n.clone(), *o)),
                    _ => None,
                })
                .collect();
            let (n, _) = t.pick(&defs).clone();
            let (a, b) = (small(t), small(t));
            let mut two = vec![Item::Def(n.clone(), Op::Choice, a), Item::Def(n.clone(), Op::Inter, b)];
            // leave out what is there already
            if let Some((_, o)) = defs.iter().find(|(m, o)| *m == n && *o != Op::Assign) {
                two.retain(|i| !matches!(i, Item::Def(_, p, _) if p == o));
            }
            for it in two {
                insert(t, l, it);
            }
            fl("mixed combination", "DefineRulesMixesChoiceAndInterleave")
        }
        7 | 8 => {
            // reachable: within the start pattern, above every element
            let (p, c) = pick_pat(t, &f, |c| c.in_start && !c.in_except && c.depth == 0 && c.file == 0)?;
            let k = t.below(4);
            beside(t, p, &c, P::Ref("rec0".into()));
            let Body::Gram(v) = &mut s.files[0].body else { return None };
            for i in 0..=k {
                let next = P::Ref(format!("rec{}", if i == k { if t.chance(1, 4) { t.below(k + 1) } else { 0 } } else { i + 1 }));
                let b = wrap_rec(t, next);
                if t.chance(1, 5) {
                    let b2 = P::Elem(Nc::local("rr"), Box::new(P::Opt(Box::new(P::Ref("rec0".into())))));
                    insert(t, v, Item::Def(format!("rec{i}"), Op::Choice, b2));
                    insert(t, v, Item::Def(format!("rec{i}"), Op::Choice, b));
                } else {
                    insert(t, v, Item::Def(format!("rec{i}"), Op::Assign, b));
                }
            }
            fl("unguarded recursion", "RecursiveReference")
        }
        9 => {
            let (p, c) = pick_pat(t, &f, |c| c.in_attr && !c.in_except)?;
            let b = small(t);
            let e = P::Elem(Nc::local("flt"), Box::new(b));
            let e = match t.below(4) {
                0 => P::Opt(Box::new(e)),
                1 => P::Grammar(vec![Item::Def("start".into(), Op::Assign, e)]),
                _ => e,
            };
            if c.file == 0 && t.chance(1, 3) {
                // in another file, or in one which that one needs
                let deep = t.chance(1, 3);
                beside(t, p, &c, P::External(if deep { "zo" } else { "za" }.into()));
                if deep {
                    let body = match t.below(3) {
                        0 => Body::Pat(P::Choice(vec![P::External("za".into()), P::Text])),
                        1 => Body::Gram(vec![Item::Def("start".into(), Op::Assign, P::External("za".into()))]),
                        _ => Body::Gram(vec![Item::Div(vec![Item::Include("za".into(), None)])]),
                    };
                    let included = matches!(&body, Body::Gram(v) if matches!(&v[0], Item::Div(_)));
                    s.files.push(SFile { name: "zo".into(), body });
                    if included {
                        s.files.push(SFile { name: "za".into(), body: Body::Gram(vec![Item::Def("start".into(), Op::Assign, e)]) });
                        return fl("element inside attribute", "ElementAsChildOfAttribute");
                    }
                }
                s.files.push(SFile { name: "za".into(), body: Body::Pat(e) });
            } else {
                beside(t, p, &c, e);
            }
            fl("element inside attribute", "ElementAsChildOfAttribute")
        }
        10 => {
            let (p, c) = pick_pat(t, &f, |_| true)?;
            let n = *t.pick(&["Integer", "foo", "QName", "string1", "gYear2", "datetime"]);
            beside(t, p, &c, P::Data(dt::xsd(n), None));
            fl("unknown datatype", "DatatypeError/Xsd/UnsupportedDatatype")
        }
        11 => {
            let (p, c) = pick_pat(t, &f, |_| true)?;
            let mut d = dt::builtin(if t.chance(1, 2) { "string" } else { "token" });
            let n = *t.pick(&["length", "pattern", "minLength", "foo"]);
            d.params.push((n.into(), ParamVal::Text("1".into())));
            beside(t, p, &c, P::Data(d, None));
            fl("parameter on built-in type", "DatatypeError/Relax/ParamNotAllowed")
        }
        12 => {
            let (p, c) = pick_pat(t, &f, |_| true)?;
            let (n, q) = *t.pick(&[
                ("int", "length"),
                ("string", "minInclusive"),
                ("boolean", "minLength"),
                ("decimal", "maxLength"),
                ("date", "length"),
                ("double", "totalDigits"),
                ("NCName", "foo"),
                ("string", "Length"),
            ]);
            let mut d = dt::xsd(n);
            d.params.push((q.into(), ParamVal::Text("1".into())));
            beside(t, p, &c, P::Data(d, None));
            fl("parameter the type does not have", "DatatypeError/Xsd/Facet/InvalidFacet")
        }
        13 => {
            if t.chance(1, 2) {
                let (l, _) = pick_list(t, &f, |_, over, _| !over)?;
                let over = if t.chance(1, 3) { Some(vec![]) } else { None };
                insert(t, l, Item::Include("sub/nofile".into(), over));
                fl("missing include", "Io")
            } else {
                let (p, c) = pick_pat(t, &f, |c| !c.in_except)?;
                beside(t, p, &c, P::External("nofile".into()));
                fl("missing external", "Io")
            }
        }
        14 => {
            let (l, _) = pick_list(t, &f, |c, over, _| !over && c.file == 0)?;
            insert(t, l, Item::Include("zpat".into(), None));
            let body = if t.chance(1, 3) {
                P::Choice(vec![P::Elem(Nc::local("flt"), Box::new(P::Text)), P::Empty])
            } else {
                P::Elem(Nc::local("flt"), Box::new(P::Text))
            };
            s.files.push(SFile { name: "zpat".into(), body: Body::Pat(body) });
            fl("included file is not a grammar", "IncludedFileMustBeGrammar")
        }
        15 => {
            // main includes z0 includes z1 ... includes one of them again
            let n = t.below(3);
            let (l, _) = pick_list(t, &f, |c, over, _| !over && c.file == 0)?;
            insert(t, l, Item::Include(if n == 0 { "main".into() } else { "z1".into() }, None));
            for i in 1..=n {
                let to = if i == n { if t.chance(1, 2) { "main".to_string() } else { format!("z{}", 1 + t.below(n)) } } else { format!("z{}", i + 1) };
                let mut body = vec![Item::Def(format!("zd{i}"), Op::Assign, P::Elem(Nc::local("z"), Box::new(P::Text)))];
                insert(t, &mut body, Item::Include(to, None));
                s.files.push(SFile { name: format!("z{i}"), body: Body::Gram(body) });
            }
            fl("recursive include", "RecursiveInclude")
        }
        16 => {
            let (p, c) = pick_pat(t, &f, |c| c.file == 0 && !c.in_except)?;
            if t.chance(1, 2) {
                beside(t, p, &c, P::External("main".into()));
            } else {
                beside(t, p, &c, P::External("zx".into()));
                let back = if t.chance(1, 2) { "main" } else { "zx" };
                s.files.push(SFile {
                    name: "zx".into(),
                    body: Body::Pat(P::Elem(Nc::local("zx"), Box::new(P::Opt(Box::new(P::External(back.into())))))),
                });
            }
            // within an attribute the element of the external file is the first fault
            if c.in_attr {
                return fl("recursive external in attribute", "RecursiveInclude|ElementAsChildOfAttribute");
            }
            fl("recursive external", "RecursiveInclude")
        }
        17 => {
            // an include with an overriding definition that the file does not have
            let (l, _) = pick_list(t, &f, |_, over, v| !over && v.iter().any(|i| matches!(i, Item::Include(..))))?;
            let mut incs: Vec<usize> = vec![];
            for (i, it) in l.iter().enumerate() {
                if matches!(it, Item::Include(..)) {
                    incs.push(i)
                }
            }
            let i = *t.pick(&incs);
            let b = small(t);
            if let Item::Include(_, over) = &mut l[i] {
                let v = over.get_or_insert_with(Vec::new);
                let op = *t.pick(&[Op::Assign, Op::Assign, Op::Choice]);
                insert(t, v, Item::Def("nosuchdef".into(), op, b));
            }
            fl("override without counterpart", "OverrideMissingFromInclude")
        }
        18 => {
            // recursion through an exception
            let (p, c) = pick_pat(t, &f, |c| c.depth == 0 && c.file == 0)?;
            let k = t.below(4);
            let first = P::Ref("exc0".into());
            let new = if c.in_except && t.chance(1, 2) {
                first
            } else {
                let d = P::Data(if t.chance(1, 2) { dt::builtin("token") } else { dt::xsd("int") }, Some(Box::new(in_exception(t, first))));
                if t.chance(1, 4) && !c.in_except { P::List(Box::new(d)) } else { d }
            };
            // the place must be reachable: the start pattern, or below an element of it
            if !c.in_start {
                return None;
            }
            beside(t, p, &c, new);
            let Body::Gram(v) = &mut s.files[0].body else { return None };
            for i in 0..=k {
                let next = P::Ref(format!("exc{}", if i == k { if t.chance(1, 4) { t.below(k + 1) } else { 0 } } else { i + 1 }));
                let b = in_exception(t, next);
                insert(t, v, Item::Def(format!("exc{i}"), Op::Assign, b));
            }
            fl("recursion through an exception", "RecursiveReference")
        }
        _ => {
            let n = if t.chance(1, 4) { "start".to_string() } else { "zdef".to_string() };
            let with_start = t.chance(1, 2);
            let (l, _) = pick_list(t, &f, |c, over, _| !over && c.file == 0)?;
            if n == "start" && with_start {
                return None;
            }
            // (an overriding start is a definition of the including grammar, too)
            let also = if n == "start" { "OverrideMissingFromInclude|DuplicateDefinition" } else { "OverrideMissingFromInclude" };
            let b = small(t);
            insert(t, l, Item::Include("zinc".into(), Some(vec![Item::Def(n, Op::Assign, b)])));
            s.files.push(SFile {
                name: "zinc".into(),
                body: Body::Gram(vec![Item::Def("zother".into(), Op::Assign, P::Text)]),
            });
            fl("override without counterpart", also)
        }
    }
}
fn fl_if(c: bool, name: &'static str, expect: &'static str) -> Option<Fault> {
    if c { Some(Fault { name, expect }) } else { None }
}
fn grammars_without_start(s: &Sch) -> bool {
    // some nested grammar has no start now
    let mut found = false;
    for f in &s.files {
        walk_body(&f.body, &mut |p| {
            if let P::Grammar(v) = p {
                if !has_include(v) && !crate::schemagen::def_names(v).iter().any(|n| n == "start") {
                    found = true
                }
            }
        });
    }
    found
}
fn in_exception(t: &mut Tape, r: P) -> P {
    match t.below(6) {
        0 => P::Choice(vec![P::Value(None, "x".into()), r]),
        1 => P::Choice(vec![r, P::Data(dt::xsd("int"), None)]),
        2 => P::Data(dt::builtin("string"), Some(Box::new(r))),
        _ => r,
    }
}
/// (no elements: the whole may be placed in an attribute)
fn wrap_rec(t: &mut Tape, r: P) -> P {
    let r = match t.below(10) {
        0 => P::Opt(Box::new(r)),
        7 => P::List(Box::new(r)),
        8 => P::Plus(Box::new(r)),
        9 => P::Grammar(vec![Item::Def("start".into(), Op::Assign, P::Parent(match r {
            P::Ref(n) => n,
            _ => return r,
        }))]),
        1 => P::Star(Box::new(r)),
        2 => P::Group(vec![P::Text, r]),
        3 => P::Choice(vec![P::Text, r]),
        4 => P::Mixed(Box::new(r)),
        5 => P::Inter(vec![r, P::Empty]),
        _ => r,
    };
    if t.chance(1, 6) { P::Attr(Nc::local("ra"), Box::new(r)) } else { r }
}
