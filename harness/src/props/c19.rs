//! C19: verdicts don't depend on what happened before or happens at the same time.

use super::common::*;
use crate::ast::*;
use crate::doc;
use crate::fault;
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx, InLibrary, Prop};
use crate::schemagen::{self, Opts, FULL};
use crate::split;
use crate::sut::{self, Comp, Schema, Syn};
use crate::tape::Tape;
use crate::{rnc, rng};
use relaxng_validator::Validator;
use xmlparser::Tokenizer;

pub const PROP: Prop = Prop {
    id: "C19",
    tape_len: 1600,
    quick: 30000,
    thorough: 750000,
    run,
    fixed,
    rule: "distinct histories (schemas, documents and operations) with at least two compilations by one compiler and two validations at the same time",
    assumptions: &["the files don't change while a compiler is in use", "one thread (the schemas can't be shared between threads)", "up to 80 operations"],
    known: &[],
    shrink_iters: 3000,
};

/// what is to be expected of a document
#[derive(Clone, Debug, PartialEq, Eq)]
enum Expect {
    Valid,
    /// number of steps before, kind, token, position
    Error(usize, String, String, Option<(usize, usize)>),
}
struct Main {
    file: String,
    /// Err: the kind of error
    ok: Result<(), String>,
    /// by document
    expect: Vec<Expect>,
}

fn fresh(s: &Schema, d: &str) -> Expect {
    match sut::validate(s, d) {
        sut::Verdict::Valid => Expect::Valid,
        sut::Verdict::Invalid(e) => Expect::Error(e.index, e.kind.into(), e.token.into(), e.span),
        sut::Verdict::Endless => Expect::Error(usize::MAX, "endless".into(), "".into(), None),
    }
}

struct Run<'a> {
    main: usize,
    doc: usize,
    v: Validator<'a>,
    steps: usize,
    done: bool,
}

fn part(t: &mut Tape, syn: Syn, dir: &str, faulty: bool, files: &mut Vec<(String, String)>) -> (Arena, doc::Names) {
    let o = match t.below(3) {
        0 => Opts { uris: 1, elems: 3, wild: false, ..FULL },
        1 => Opts { uris: 2, elems: 3, depth: 3, ..FULL },
        _ => FULL,
    };
    let (mut sch, names) = schemagen::schema(t, o);
    let g = simplify(&sch);
    let inh = if t.chance(1, 2) { split::split(t, &mut sch).0 } else { Default::default() };
    if faulty {
        fault::inject(t, &mut sch);
    }
    let fs = match syn {
        Syn::Rnc => rnc::files_inherit(&sch, t, rnc::PLAIN, &inh),
        Syn::Rng => rng::files_inherit(&sch, t, rng::PLAIN, &inh),
    };
    files.extend(fs.into_iter().map(|(n, x)| (format!("{dir}{n}"), x)));
    (g, names)
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let x = syn.ext();
    let mut files: Vec<(String, String)> = vec![];
    let (g, names) = part(t, syn, "", false, &mut files);
    let (g2, names2) = part(t, syn, "b/", false, &mut files);
    let mut mains = vec![format!("main.{x}"), format!("b/main.{x}")];
    part(t, syn, "c/", true, &mut files);
    mains.push(format!("c/main.{x}"));
    // several schemas that share files with these
    for i in 0..t.below(5) {
        let at = *t.pick(&["main", "b/main", "c/main"]);
        let n = format!("m{i}.{x}");
        let s = match (syn, t.below(5)) {
            (Syn::Rnc, 0) => format!("include \"{at}.rnc\""),
            (Syn::Rnc, 1) => format!("include \"{at}.rnc\" {{ start = element zz {{ text }} }}"),
            (Syn::Rnc, 2) => format!("default namespace = \"urn:a\"\nelement zz {{ external \"{at}.rnc\"*, text }}"),
            (Syn::Rnc, 3) => format!("include \"{at}.rnc\" {{ nosuch = empty }}"),
            (Syn::Rnc, _) => format!("start = element zz {{ grammar {{ include \"{at}.rnc\" {{ e0 = element a {{ text }} }} }} | text }}\ne0 = text {{"),
            (Syn::Rng, k) => {
                let g = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"";
                match k {
                    0 => format!("{g}><include href=\"{at}.rng\"/></grammar>"),
                    1 => format!("{g}><include href=\"{at}.rng\"><start><element name=\"zz\"><text/></element></start></include></grammar>"),
                    2 => format!("{g} ns=\"urn:a\"><start><element name=\"zz\"><zeroOrMore><externalRef href=\"{at}.rng\"/></zeroOrMore><text/></element></start></grammar>"),
                    3 => format!("{g}><include href=\"{at}.rng\"><define name=\"nosuch\"><empty/></define></include></grammar>"),
                    _ => format!("{g}><start><externalRef href=\"{at}.rng\"/></start><define name=\"e0\"><text></grammar>"),
                }
            }
        };
        files.push((n.clone(), s));
        mains.push(n);
    }
    let mut docs: Vec<String> = vec![];
    let mut oracle: Vec<(usize, usize, bool)> = vec![];
    for i in 0..t.range(2, 6) {
        let (gr, nm, m) = if t.chance(2, 3) { (&g, &names, 0) } else { (&g2, &names2, 1) };
        let (d, _) = near_doc(t, gr, nm, 12);
        let style = if t.chance(1, 2) { doc::VARIED } else { doc::CANONICAL };
        let mut text = doc::print(&d, t, style).0;
        if t.chance(1, 8) {
            let mut k = t.below(text.len() + 1);
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
        } else if let Some(ok) = Matcher::valid(gr, &d) {
            oracle.push((m, i, ok));
        }
        docs.push(text);
    }
    let mut shown = show_files(&files);
    for d in &docs {
        shown.push_str(&format!("--- document\n{d}\n"));
    }
    cx.note(shown.clone());
    // every schema and document on its own
    let mut table: Vec<Main> = vec![];
    for m in &mains {
        let (ok, expect) = match Comp::new(files.clone(), syn).compile(m) {
            Ok(s) => (Ok(()), docs.iter().map(|d| fresh(&s, d)).collect()),
            Err(e) => (Err(sut::kind(&e)), vec![]),
        };
        table.push(Main { file: m.clone(), ok, expect });
    }
    for (m, d, ok) in &oracle {
        cx.eval();
        if table[*m].ok.is_err() || (table[*m].expect[*d] == Expect::Valid) != *ok {
            return Err(format!("document {d} is {} by the specification, but the library says {:?} {:?}\n{shown}", if *ok { "valid" } else { "invalid" }, table[*m].ok, table[*m].expect.get(*d)));
        }
    }
    // the history
    let mut comps: Vec<Comp> = vec![];
    let mut compiled: Vec<usize> = vec![];
    let mut schemas: Vec<(usize, Schema)> = vec![];
    let mut runs: Vec<Run> = vec![];
    let mut log = String::new();
    let (mut most, mut reused, mut after_failure, mut verdicts) = (0, false, false, 0);
    let n = t.range(20, 80);
    for _ in 0..n {
        if comps.is_empty() || (comps.len() < 3 && t.chance(1, 12)) {
            comps.push(Comp::new(files.clone(), syn));
            compiled.push(0);
        }
        match t.weighted(&[4, 5, 8, 3, 1, 1, 1]) {
            0 => {
                let c = t.below(comps.len());
                let m = t.below(table.len());
                log.push_str(&format!("compiler {c} compiles {}\n", table[m].file));
                cx.note(format!("{shown}--- history\n{log}"));
                compiled[c] += 1;
                reused |= compiled[c] > 1;
                let got = comps[c].compile(&table[m].file);
                let kind = match &got {
                    Ok(_) => Ok(()),
                    Err(e) => Err(sut::kind(e)),
                };
                cx.eval();
                if kind != table[m].ok {
                    return Err(format!("compiling {} on its own gives {:?}, but here {kind:?}\n{shown}--- history\n{log}", table[m].file, table[m].ok));
                }
                match got {
                    Ok(s) => {
                        if schemas.len() > 5 {
                            let i = t.below(schemas.len());
                            schemas.swap_remove(i);
                        }
                        schemas.push((m, s));
                    }
                    Err(_) => after_failure = true,
                }
            }
            1 if !schemas.is_empty() => {
                let s = t.below(schemas.len());
                let d = t.below(docs.len());
                let m = schemas[s].0;
                log.push_str(&format!("start to validate document {d} against {}\n", table[m].file));
                let _g = InLibrary::enter();
                cx.note(format!("{shown}--- history\n{log}"));
                runs.push(Run { main: m, doc: d, v: Validator::new(schemas[s].1.clone(), Tokenizer::from(&docs[d][..])), steps: 0, done: false });
                most = most.max(runs.len());
            }
            k @ (2 | 3) if !runs.is_empty() => {
                let i = t.below(runs.len());
                let r = &mut runs[i];
                let mut n = if k == 3 { usize::MAX } else { t.range(1, 6) };
                log.push_str(&format!("go on with document {} against {}\n", r.doc, table[r.main].file));
                cx.note(format!("{shown}--- history\n{log}"));
                let _g = InLibrary::enter();
                while n > 0 {
                    n -= 1;
                    if r.done {
                        break;
                    }
                    let got = match r.v.validate_next() {
                        Some(Ok(())) => {
                            r.steps += 1;
                            if r.steps > sut::step_limit(&docs[r.doc]) {
                                return Err(format!("document {} never ends\n{shown}--- history\n{log}", r.doc));
                            }
                            continue;
                        }
                        None => Expect::Valid,
                        Some(Err(e)) => {
                            let e = sut::info(&e, r.steps);
                            Expect::Error(e.index, e.kind.into(), e.token.into(), e.span)
                        }
                    };
                    r.done = true;
                    verdicts += 1;
                    cx.eval();
                    let want = &table[r.main].expect[r.doc];
                    if got != *want {
                        return Err(format!("document {} against {} on its own gives {want:?}, but here {got:?}\n{shown}--- history\n{log}", r.doc, table[r.main].file));
                    }
                }
            }
            4 if !runs.is_empty() => {
                let i = t.below(runs.len());
                let r = runs.swap_remove(i);
                log.push_str(&format!("drop the validation of document {} against {}{}\n", r.doc, table[r.main].file, if r.done { "" } else { ", half-way" }));
            }
            5 if comps.len() > 1 => {
                let i = t.below(comps.len());
                comps.swap_remove(i);
                compiled.swap_remove(i);
                log.push_str(&format!("drop compiler {i}\n"));
            }
            6 if !schemas.is_empty() => {
                let i = t.below(schemas.len());
                schemas.swap_remove(i);
                log.push_str("drop a schema\n");
            }
            _ => {}
        }
    }
    cx.class_if(reused, "compiler used again");
    cx.class_if(after_failure, "failed compilation");
    cx.class_if(most > 1, "validations at the same time");
    cx.class_if(verdicts > 3, "more than three verdicts");
    if reused && most > 1 {
        cx.nontrivial(&(&shown, &log));
        cx.sample(|| format!("{shown}--- history\n{log}"));
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let files: Vec<(String, String)> = [
        ("a.rnc", "include \"inc.rnc\""),
        ("b.rnc", "include \"inc.rnc\" { e = element b { empty } }"),
        ("c.rnc", "include \"inc.rnc\" { nosuch = empty }"),
        ("d.rnc", "default namespace = \"urn:d\"\nstart = external \"pat.rnc\""),
        ("e.rnc", "start = external \"pat.rnc\""),
        ("f.rnc", "include \"inc.rnc\" { start = nosuch }"),
        ("g.rnc", "include \"inc.rnc\" { e = text } }"),
        ("inc.rnc", "start = element r { e* }\ne = element a { attribute x { xsd:int }? }"),
        ("pat.rnc", "element p { text }"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    let docs = ["<r><a/></r>", "<r><b/></r>", "<p>x</p>", "<p xmlns='urn:d'>x</p>", "<r><a x='1'/><a x='y'/></r>", "<r><a/>", "<r>"];
    let alone = |m: &str| -> Result<Vec<Expect>, String> {
        match Comp::new(files.clone(), Syn::Rnc).compile(m) {
            Ok(s) => Ok(docs.iter().map(|d| fresh(&s, d)).collect()),
            Err(e) => Err(sut::kind(&e)),
        }
    };
    let mains = ["a.rnc", "b.rnc", "c.rnc", "d.rnc", "e.rnc", "f.rnc", "g.rnc", "inc.rnc", "pat.rnc"];
    let want: Vec<_> = mains.iter().map(|m| alone(m)).collect();
    let valid = |m: usize| -> Vec<bool> { want[m].iter().flatten().map(|e| *e == Expect::Valid).collect() };
    let by_spec: &[(usize, &[usize])] = &[(0, &[0]), (1, &[1]), (3, &[3]), (4, &[2]), (7, &[0]), (8, &[2])];
    for (m, ok) in by_spec {
        let w: Vec<bool> = (0..docs.len()).map(|i| ok.contains(&i)).collect();
        if valid(*m) != w {
            return Err(format!("{}: {:?}", mains[*m], want[*m]));
        }
    }
    // all orders of three compilations
    for i in 0..mains.len() {
        for j in 0..mains.len() {
            for k in 0..mains.len() {
                let mut c = Comp::new(files.clone(), Syn::Rnc);
                let mut kept = vec![];
                for m in [i, j, k] {
                    cx.eval();
                    kept.push((m, c.compile(mains[m])));
                }
                drop(c);
                for (m, got) in kept {
                    let got = match got {
                        Ok(s) => Ok(docs.iter().map(|d| fresh(&s, d)).collect::<Vec<_>>()),
                        Err(e) => Err(sut::kind(&e)),
                    };
                    if got != want[m] {
                        return Err(format!("after compiling {:?}, {} gives\n{got:?}\ninstead of\n{:?}", [mains[i], mains[j], mains[k]], mains[m], want[m]));
                    }
                }
            }
        }
    }
    Ok(())
}
