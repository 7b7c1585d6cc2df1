//! C18: the exit code and standard error of `rng validate`.

use super::common::*;
use super::{c06, c08};
use crate::ast::*;
use crate::doc::{self, DocGen};
use crate::fault;
use crate::oracle::Matcher;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL};
use crate::split;
use crate::sut::Syn;
use crate::tape::Tape;
use crate::rnc;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C18",
    tape_len: 900,
    quick: 30000,
    thorough: 750000,
    run,
    fixed,
    rule: "distinct command lines (schema files and documents) of which at least one file was faulty, or with at least two documents",
    assumptions: &[
        "documents and schemas are in UTF-8 (files in another encoding count as unreadable)",
        "the command line is `rng validate SCHEMA DOCUMENT…`, with names that don't start with a dash",
        "a run takes less than 60 s",
    ],
    known: &[],
    shrink_iters: 400,
};

pub struct Scratch(pub PathBuf);
static COUNT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("rngverif-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn write(&self, name: &str, data: &[u8]) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn binary() -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    Path::new(&root).join("harness-cli/target/release/rng")
}

pub struct Outcome {
    /// None: ended by a signal
    pub code: Option<i32>,
    pub stderr: String,
}

const RLIMIT_AS: i32 = 9;
unsafe extern "C" {
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
}

pub fn rng(dir: &Path, args: &[String]) -> Result<Outcome, String> {
    // outside the directory of the files
    let err = dir.with_extension("stderr");
    let f = std::fs::File::create(&err).map_err(|e| e.to_string())?;
    let mut command = Command::new(binary());
    // a command which uses memory without bound is not to end other processes
    unsafe {
        command.pre_exec(|| {
            let most = [4u64 << 30; 2];
            setrlimit(RLIMIT_AS, &most);
            Ok(())
        });
    }
    let mut child = command
        .current_dir(dir)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::from(f))
        .spawn()
        .unwrap_or_else(|e| panic!("{}: {e}", binary().display()));
    let start = Instant::now();
    let mut pause = 200;
    let st = loop {
        if let Some(st) = child.try_wait().map_err(|e| e.to_string())? {
            break st;
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            let _ = std::fs::remove_file(&err);
            return Err("the command takes more than 60 s".into());
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(20_000);
    };
    let stderr = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).to_string();
    let _ = std::fs::remove_file(&err);
    Ok(Outcome { code: st.code(), stderr })
}

enum Doc {
    Text(String),
    Bytes(Vec<u8>),
    Missing,
    Directory,
    Dangling,
}
struct Arg {
    name: String,
    doc: Doc,
    good: bool,
    class: &'static str,
}

const STEMS: &[&str] = &["d", "doc", "a b", "é", "sub/x", "sub/deep/y", "x.rnc", "%20", "äöü ß", "d;e", "main", "d'q", "🦀"];

fn document(t: &mut Tape, g: &Arena, names: &doc::Names, i: usize) -> Option<Arg> {
    let name = format!("{}{i}{}", t.pick(STEMS), t.pick(&[".xml", ".xml", "", ".XML", ".rng"]));
    let arg = |doc, good, class| Some(Arg { name: name.clone(), doc, good, class });
    match t.weighted(&[8, 6, 3, 1, 1, 1, 1]) {
        0 => {
            let d = DocGen::new(g, names, 12).document(t)?;
            if Matcher::valid(g, &d)? {
                let (text, _) = doc::print(&d, t, doc::VARIED);
                arg(Doc::Text(text), true, "valid document")
            } else {
                None
            }
        }
        1 => {
            let (d, _) = near_doc(t, g, names, 12);
            let (text, _) = doc::print(&d, t, doc::VARIED);
            let ok = Matcher::valid(g, &d)?;
            arg(Doc::Text(text), ok, if ok { "valid document" } else { "invalid document" })
        }
        2 => {
            let (d, _) = near_doc(t, g, names, 12);
            let (text, evs) = doc::print(&d, t, doc::CANONICAL);
            let v = c08::faults(t, &text, &evs);
            if v.is_empty() {
                return None;
            }
            let i = t.below(v.len());
            arg(Doc::Text(v[i].1.clone()), false, "ill-formed document")
        }
        3 => arg(Doc::Missing, false, "missing document"),
        4 => arg(Doc::Directory, false, "directory as document"),
        5 => arg(Doc::Dangling, false, "dangling link"),
        _ => {
            let (d, _) = near_doc(t, g, names, 8);
            let mut b = doc::print(&d, t, doc::CANONICAL).0.into_bytes();
            let at = t.below(b.len() + 1);
            b.insert(at, *t.pick(&[0x80, 0xff, 0xc3, 0xed]));
            arg(Doc::Bytes(b), false, "document not in UTF-8")
        }
    }
}

/// whether the text names the file, as it is or with escapes
fn names_file(stderr: &str, name: &str) -> bool {
    stderr.contains(name) || stderr.contains(&format!("{name:?}"))
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let (mut sch, names) = schemagen::schema(t, FULL);
    let g = simplify(&sch);
    let inh = if t.chance(1, 3) { split::split(t, &mut sch).0 } else { Default::default() };
    let mode = t.below(12);
    let fault = if mode < 2 { fault::inject(t, &mut sch) } else { None };
    let v = if t.chance(1, 3) { rnc::ALL } else { rnc::PLAIN };
    let mut files = rnc::files_inherit(&sch, t, v, &inh);
    let mut schema_class = if fault.is_some() { "faulty schema" } else { "correct schema" };
    let mut no_place = false;
    let mut gone = None;
    let mut broken = None;
    match mode {
        2 => {
            let kind = c06::text_fault(t, &sch, &mut files, Syn::Rnc).1;
            // this error has no position
            no_place = kind == "DatatypePrefixAlreadyDefined";
            if kind != "" {
                schema_class = "faulty schema text";
            }
        }
        3 => {
            let i = t.below(files.len());
            if t.chance(1, 2) {
                gone = Some(i);
                schema_class = "missing schema file";
            } else {
                broken = Some(i);
                schema_class = "schema file not in UTF-8";
            }
        }
        _ => {}
    }
    let schema_ok = schema_class == "correct schema";
    // every file that is part of the schema is reachable from the main one
    let scratch = Scratch::new();
    let dir = scratch.0.join("w");
    std::fs::create_dir_all(&dir).unwrap();
    let prefix = *t.pick(&["", "", "./", "s/", "s/../"]);
    let at = |n: &str| format!("w/{}{n}", if prefix == "./" { "" } else { prefix });
    std::fs::create_dir_all(dir.join("s")).unwrap();
    for (i, (n, text)) in files.iter().enumerate() {
        if gone == Some(i) {
            continue;
        }
        let mut b = text.clone().into_bytes();
        if broken == Some(i) {
            b.insert(t.below(b.len() + 1), 0xff);
        }
        scratch.write(&at(n), &b);
    }
    let absolute = t.chance(1, 4);
    let path = |n: &str| if absolute { dir.join(n).to_string_lossy().to_string() } else { n.to_string() };
    let mut args = vec!["validate".to_string(), path(&format!("{prefix}main.rnc"))];
    let mut docs: Vec<Arg> = vec![];
    let good_only = t.chance(1, 3);
    for i in 0..t.weighted(&[1, 6, 4, 3, 2, 1, 1, 1]) {
        if let Some(a) = document(t, &g, &names, i) {
            if !good_only || a.good {
                docs.push(a);
            }
        }
    }
    // the same document again
    let mut order: Vec<usize> = (0..docs.len()).collect();
    if !docs.is_empty() && t.chance(1, 6) {
        order.push(t.below(docs.len()));
    }
    t.shuffle(&mut order);
    for d in &docs {
        let n = format!("w/{}", d.name);
        let p = scratch.0.join(&n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        match &d.doc {
            Doc::Text(s) => scratch.write(&n, s.as_bytes()),
            Doc::Bytes(b) => scratch.write(&n, b),
            Doc::Missing => {}
            Doc::Directory => std::fs::create_dir_all(p).unwrap(),
            Doc::Dangling => std::os::unix::fs::symlink("nowhere", p).unwrap(),
        }
    }
    args.extend(order.iter().map(|i| path(&docs[*i].name)));
    let mut shown = format!("rng {args:?}\n{schema_class}\n{}", show_files(&files));
    for i in &order {
        let d = &docs[*i];
        shown.push_str(&format!("--- {} ({})\n", d.name, d.class));
        match &d.doc {
            Doc::Text(s) => shown.push_str(&format!("{s}\n")),
            Doc::Bytes(b) => shown.push_str(&format!("{b:?}\n")),
            _ => {}
        }
    }
    cx.note(shown.clone());
    let bad = order.iter().map(|i| &docs[*i]).find(|d| !d.good);
    let expect = if !schema_ok { 1 } else if bad.is_some() { 2 } else { 0 };
    cx.eval();
    let got = rng(&dir, &args)?;
    let fail = |m: String| Err(format!("{m}\nstandard error:\n{}\n{shown}", got.stderr));
    if got.code != Some(expect) {
        return fail(format!("the exit code should be {expect}, but is {:?}", got.code));
    }
    match expect {
        1 => {
            let mut all: Vec<String> = files.iter().map(|f| f.0.rsplit('/').next().unwrap().to_string()).collect();
            all.push("nosuch".into());
            if !got.stderr.to_lowercase().contains("error") && !got.stderr.contains("Problem") || !no_place && !all.iter().any(|n| got.stderr.contains(n)) {
                return fail("standard error does not name a file of the schema".into());
            }
        }
        2 => {
            let name = &bad.unwrap().name;
            // what is said last is about this document
            let tail = got.stderr.rfind("Validating").map_or(&got.stderr[..], |i| &got.stderr[i..]);
            let told = |s: &str| (s.contains("error") || s.contains("Could not read")) && names_file(s, name);
            if !told(tail) {
                return fail(format!("standard error does not say what is wrong with {name}"));
            }
        }
        _ => {
            if got.stderr.contains("error: ") || got.stderr.contains("panicked") {
                return fail("standard error describes an error".into());
            }
        }
    }
    cx.class(&format!("exit code {expect}"));
    cx.class(schema_class);
    for i in &order {
        cx.class(docs[*i].class);
    }
    if expect > 0 || order.len() > 1 {
        cx.nontrivial(&shown);
        cx.sample(|| format!("exit code {expect}\n{shown}"));
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let s = Scratch::new();
    let dir = s.0.join("w");
    for (n, d) in [
        ("ok.rnc", "element a { text }"),
        ("bad.rnc", "element a { nosuch }"),
        ("syntax.rnc", "element a { "),
        ("inc.rnc", "include \"sub/inc.rnc\""),
        ("sub/inc.rnc", "start = external \"../ok.rnc\""),
        ("dangling.rnc", "include \"sub/missing.rnc\""),
        ("empty.rnc", ""),
        ("valid.xml", "<a>x</a>"),
        ("newline.xml", "<?xml version='1.0'?>\n<a>x</a>\n"),
        ("invalid.xml", "<b/>"),
        ("cut.xml", "<a>"),
        ("blank.xml", ""),
        ("late.xml", "<a>x</a><a/>"),
        ("multi\nline.xml", "<b/>"),
        ("big.xml", &format!("<a>{}</a>", "x &amp; <!-- c -->".repeat(20000))),
        ("bigbad.xml", &format!("<a>{}<b/></a>", "x &amp; <!-- c -->".repeat(20000))),
    ] {
        s.write(&format!("w/{n}"), d.as_bytes());
    }
    s.write("w/latin1.xml", b"<a>\xe9</a>");
    s.write("w/latin1.rnc", b"element a { text } # \xe9");
    let many: Vec<&str> = std::iter::repeat_n("valid.xml", 300).collect();
    let many_bad: Vec<&str> = many.iter().copied().chain(["invalid.xml"]).collect();
    let rows: &[(&str, &[&str], i32)] = &[
        ("ok.rnc", &[], 0),
        ("ok.rnc", &["valid.xml"], 0),
        ("ok.rnc", &["newline.xml", "valid.xml", "big.xml"], 0),
        ("ok.rnc", &["invalid.xml"], 2),
        ("ok.rnc", &["bigbad.xml"], 2),
        ("ok.rnc", &["valid.xml", "invalid.xml"], 2),
        ("ok.rnc", &["invalid.xml", "valid.xml"], 2),
        ("ok.rnc", &["valid.xml", "invalid.xml", "valid.xml"], 2),
        ("ok.rnc", &["cut.xml"], 2),
        ("ok.rnc", &["blank.xml"], 2),
        ("ok.rnc", &["late.xml"], 2),
        ("ok.rnc", &["valid.xml", "late.xml", "valid.xml"], 2),
        ("ok.rnc", &["nosuch.xml"], 2),
        ("ok.rnc", &["nosuch.xml", "valid.xml"], 2),
        ("ok.rnc", &["valid.xml", "sub"], 2),
        ("ok.rnc", &["latin1.xml"], 2),
        ("ok.rnc", &["multi\nline.xml"], 2),
        ("ok.rnc", &many, 0),
        ("ok.rnc", &many_bad, 2),
        ("inc.rnc", &["valid.xml"], 0),
        ("inc.rnc", &["invalid.xml"], 2),
        ("./sub/../inc.rnc", &["./sub/../valid.xml"], 0),
        ("sub/inc.rnc", &["valid.xml"], 0),
        ("bad.rnc", &[], 1),
        ("bad.rnc", &["valid.xml"], 1),
        ("bad.rnc", &["invalid.xml"], 1),
        ("bad.rnc", &["nosuch.xml"], 1),
        ("syntax.rnc", &["valid.xml"], 1),
        ("dangling.rnc", &["valid.xml"], 1),
        ("empty.rnc", &["valid.xml"], 1),
        ("latin1.rnc", &["valid.xml"], 1),
        ("nosuch.rnc", &["valid.xml"], 1),
        ("sub", &["valid.xml"], 1),
        ("valid.xml", &["valid.xml"], 1),
    ];
    for (schema, docs, code) in rows {
        cx.eval();
        let mut args = vec!["validate".to_string(), schema.to_string()];
        args.extend(docs.iter().map(|d| d.to_string()));
        args.truncate(400);
        cx.note(format!("rng {args:?}"));
        let got = rng(&dir, &args)?;
        let named = match code {
            1 => got.stderr.contains(schema.trim_start_matches("./").rsplit('/').next().unwrap()) || *schema == "dangling.rnc" && got.stderr.contains("missing.rnc"),
            2 => docs.iter().any(|d| names_file(&got.stderr, d)) && (got.stderr.contains("error") || got.stderr.contains("Could not read")),
            _ => !got.stderr.contains("error: "),
        };
        if got.code != Some(*code) || !named {
            args.truncate(8);
            return Err(format!("rng {args:?}: the exit code should be {code}, got {:?}; standard error:\n{}", got.code, got.stderr));
        }
    }
    Ok(())
}
