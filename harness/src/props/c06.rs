//! C06: ill-formed schemas are rejected with the error that names the fault.

use super::common::*;
use crate::ast::*;
use crate::fault;
use crate::runner::{CaseResult, Cx, Prop};
use crate::schemagen::{self, FULL, Opts};
use crate::split;
use crate::sut::{self, Syn};
use crate::tape::Tape;
use crate::{rnc, rng};

pub const PROP: Prop = Prop {
    id: "C06",
    tape_len: 700,
    quick: 400000,
    thorough: 10000000,
    run,
    fixed,
    rule: "distinct (schema, injected fault) pairs; every fifth schema stays correct and has to be accepted",
    assumptions: &["one fault per schema; recursion is injected where it is reachable from the start pattern; an element inside an attribute is written there, not referred to"],
    known: &[],
    shrink_iters: 3000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let o = match t.below(3) {
        0 => Opts { uris: 1, wild: false, data: false, elems: 2, depth: 2, ..FULL },
        1 => Opts { uris: 2, elems: 3, depth: 3, ..FULL },
        _ => FULL,
    };
    let (mut sch, _) = schemagen::schema(t, o);
    let items = schemagen::gram_items(&mut sch);
    let n = t.below(4);
    schemagen::extract_defs(t, items, n, "d");
    for _ in 0..t.below(3) {
        let outer = schemagen::def_names(items);
        schemagen::nest_grammar(t, items, &outer);
    }
    if t.chance(1, 3) {
        schemagen::split_combine(t, items);
    }
    if t.chance(1, 2) {
        schemagen::shuffle_div(t, items);
    }
    if t.chance(1, 16) {
        // a grammar with many definitions
        let n = 8 + t.below(60);
        for i in 0..n {
            let next = P::Ref(format!("bulk{}", (i + 1) % n));
            let b = if i % 7 == 0 { P::Elem(Nc::local("bulk"), Box::new(P::Opt(Box::new(next)))) } else { P::Opt(Box::new(next)) };
            let at = t.below(items.len() + 1);
            items.insert(at, Item::Def(format!("bulk{i}"), Op::Assign, b));
        }
    }
    let inh = if t.chance(1, 2) { split::split(t, &mut sch).0 } else { Default::default() };
    let syn = if t.chance(1, 2) { Syn::Rng } else { Syn::Rnc };
    let mode = t.below(10);
    let fault = if (2..8).contains(&mode) { fault::inject(t, &mut sch) } else { None };
    let vary = t.chance(1, 2);
    let mut files = match syn {
        Syn::Rnc => rnc::files_inherit(&sch, t, if vary { rnc::DECLS } else { rnc::PLAIN }, &inh),
        Syn::Rng => rng::files_inherit(&sch, t, if vary { rng::Vary { inherit: true, names: true, prefix: false, ..rng::PLAIN } } else { rng::PLAIN }, &inh),
    };
    let (name, expect) = match (&fault, mode) {
        (Some(f), _) => (f.name, f.expect),
        (None, 8 | 9) => text_fault(t, &sch, &mut files, syn),
        _ => ("none", ""),
    };
    cx.note(show_files(&files));
    cx.eval();
    cx.class(&format!("{}: {name}", syn.ext()));
    let got = sut::compile(files.clone(), syn);
    if expect.is_empty() {
        return match got {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("a correct schema was rejected with {}: {e:?}\n{}", sut::kind(&e), show_files(&files))),
        };
    }
    cx.nontrivial(&(&files, name));
    cx.sample(|| format!("{name}\n{}", show_files(&files)));
    match got {
        Ok(_) => Err(format!("{name}: the schema was accepted\n{}", show_files(&files))),
        Err(e) => {
            let k = sut::kind(&e);
            if expect.split('|').any(|x| x == k) {
                Ok(())
            } else {
                Err(format!("{name}: expected {expect}, got {k}: {e:?}\n{}", show_files(&files)))
            }
        }
    }
}

/// faults that depend on the syntax, written into one of the files that are grammars
pub fn text_fault(t: &mut Tape, sch: &Sch, files: &mut [(String, String)], syn: Syn) -> (&'static str, &'static str) {
    let grams: Vec<usize> = sch
        .files
        .iter()
        .enumerate()
        .filter(|(_, f)| matches!(f.body, Body::Gram(_)))
        .map(|(i, _)| i)
        .collect();
    let at = *t.pick(&grams);
    let text = &mut files[at].1;
    let k = t.below(14);
    match syn {
        Syn::Rnc => {
            let (add, r): (&str, (&str, &str)) = match k {
                0 => ("und = element nosuch:a { empty }", ("undefined prefix", "UndefinedNamespacePrefix")),
                1 => ("und = element und { attribute nosuch:a { text } }", ("undefined prefix", "UndefinedNamespacePrefix")),
                2 => ("und = element nosuch:* { empty }", ("undefined prefix", "UndefinedNamespacePrefix")),
                3 => ("und = element * - (und | nosuch:b) { empty }", ("undefined prefix", "UndefinedNamespacePrefix")),
                4 => ("und = element und { attribute * - nosuch:* { text }* }", ("undefined prefix", "UndefinedNamespacePrefix")),
                5 => ("und = element xml:* - (nosuch:a) { empty }", ("undefined prefix", "UndefinedNamespacePrefix")),
                6 => ("und = element und { nosuch:int }", ("undefined datatype prefix", "UndefinedDatatypePrefix")),
                7 => ("und = element und { xsd:int - nosuch:token \"1\" }", ("undefined datatype prefix", "UndefinedDatatypePrefix")),
                8 => ("und = element und { list { nosuch:token { length = \"1\" }+ } }", ("undefined datatype prefix", "UndefinedDatatypePrefix")),
                9 => ("und = element und { attribute x { nosuch:int } }", ("undefined datatype prefix", "UndefinedDatatypePrefix")),
                10 => ("und = element und { xsdd:int }", ("undefined datatype prefix", "UndefinedDatatypePrefix")),
                11 => {
                    *text = format!("datatypes unk = \"urn:unknown\"\n{text}\nund = element und {{ unk:int }}\n");
                    return ("unknown datatype library", "DatatypeError/UnsupportedDatatypeLibrary");
                }
                12 => {
                    *text = format!("datatypes unk = \"urn:unknown\"\n{text}\nund = element und {{ unk:token \"x\" }}\n");
                    return ("unknown datatype library", "DatatypeError/UnsupportedDatatypeLibrary");
                }
                _ => {
                    // to the same library, or another one
                    let (a, b) = *t.pick(&[(XSD_LIB, "urn:other"), (XSD_LIB, XSD_LIB), ("urn:other", XSD_LIB), ("urn:other", "urn:other"), (XSD_LIB, "")]);
                    *text = format!("datatypes dd = \"{a}\"\ndatatypes dd = \"{b}\"\n{text}\n");
                    return ("datatype prefix declared twice", "DatatypePrefixAlreadyDefined");
                }
            };
            // a file may end with a comment
            text.push_str(&format!("\n{add}\n"));
            r
        }
        Syn::Rng => {
            let (add, r): (&str, (&str, &str)) = match k {
                0 | 1 => ("<element name='nosuch:a'><empty/></element>", ("undefined prefix", "UndefinedNamespacePrefix|XmlParse")),
                2 | 3 => ("<element name='und'><attribute name='nosuch:a'/></element>", ("undefined prefix", "UndefinedNamespacePrefix|XmlParse")),
                4 | 5 => ("<element><name>nosuch:a</name><empty/></element>", ("undefined prefix", "UndefinedNamespacePrefix|XmlParse")),
                6 => ("<element><anyName><except><name>nosuch:a</name></except></anyName><empty/></element>", ("undefined prefix", "UndefinedNamespacePrefix|XmlParse")),
                7 => ("<element><choice><name>und</name><name>nosuch:a</name></choice><empty/></element>", ("undefined prefix", "UndefinedNamespacePrefix|XmlParse")),
                8 | 9 => ("<element name='und'><data type='int' datatypeLibrary='urn:unknown'/></element>", ("unknown datatype library", "DatatypeError/UnsupportedDatatypeLibrary")),
                10 => ("<element name='und' datatypeLibrary='urn:unknown'><value type='token'>x</value></element>", ("unknown datatype library", "DatatypeError/UnsupportedDatatypeLibrary")),
                11 => ("<element name='und'><data type='int' datatypeLibrary=''/></element>", ("unknown built-in type", "DatatypeError/Relax/DatataypeNameUnknown")),
                12 => ("<element name='und'><value type='strin' datatypeLibrary=''>x</value></element>", ("unknown built-in type", "DatatypeError/Relax/DatataypeNameUnknown")),
                _ => ("<element name='und'><data type='string' datatypeLibrary=''><param name='length'>1</param></data></element>", ("parameter on built-in type", "DatatypeError/Relax/ParamNotAllowed")),
            };
            if let Some(i) = text.rfind("</grammar>") {
                text.insert_str(i, &format!("<define name='und'>{add}</define>"));
                r
            } else {
                ("none", "")
            }
        }
    }
}

fn reject(cx: &mut Cx, files: &[(&str, &str)], want: &str) -> CaseResult {
    let files: Vec<(String, String)> = files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let syn = if files[0].0.ends_with("rng") { Syn::Rng } else { Syn::Rnc };
    cx.eval();
    cx.note(show_files(&files));
    match sut::compile(files.clone(), syn) {
        Ok(_) if want.is_empty() => Ok(()),
        Err(e) if sut::kind(&e) == want => Ok(()),
        Ok(_) => Err(format!("accepted, expected {want}\n{}", show_files(&files))),
        Err(e) => Err(format!("expected {want:?}, got {e:?}\n{}", show_files(&files))),
    }
}

fn fixed(cx: &mut Cx) -> CaseResult {
    let one: &[(&str, &str)] = &[
        ("start = foo", "UndefinedReference"),
        ("datatypes d = \"http://www.w3.org/2001/XMLSchema-datatypes\"\ndatatypes d = \"http://www.w3.org/2001/XMLSchema-datatypes\"\nstart = element a { d:int }", "DatatypePrefixAlreadyDefined"),
        ("start = element a { grammar { start = foo } }\nfoo = empty", "UndefinedReference"),
        ("start = element a { grammar { start = element b { foo2 } } }", "UndefinedReference"),
        ("foo = element c { empty }\nstart = element a { grammar { start = element b { empty }\n unused = foo } }", "UndefinedReference"),
        ("start = element a { grammar { foo = text\n start = element b { grammar { unused = foo\n start = text } } } }", "UndefinedReference"),
        ("start = element a { grammar { start = element b { empty }\n unused = foo } }\nfoo = element c { empty }", "UndefinedReference"),
        ("start = element a { grammar { start = element b { empty }\n unused = element c { attribute d { foo } } } }\nfoo = text", "UndefinedReference"),
        ("start = element a { empty }\nunused = element c { grammar { start = foo } }\nfoo = text", "UndefinedReference"),
        ("start = element a { empty }\nunused = element c { foo }", "UndefinedReference"),
        ("foo = element a { empty }", "StartRuleNotDefined"),
        ("start = element a { grammar { foo = empty } }", "StartRuleNotDefined"),
        ("start = a\na = b?\nb = a*", "RecursiveReference"),
        ("start = a\na = element x { a }", ""),
        ("start = element r { a }\na = attribute x { b }\nb = text | a", "RecursiveReference"),
        ("start = element r { a }\na = grammar { start = parent a }", "RecursiveReference"),
        ("start = element r { a }\na = list { b }\nb = a?", "RecursiveReference"),
        ("start = element r { a }\na = list { b* }\nb = mixed { a }", "RecursiveReference"),
        ("start = element r { a }\na = xsd:token - (list { b } | \"x\")\nb = a+", "RecursiveReference"),
        ("start = element r { attribute x { (text | element y { empty }) } }", "ElementAsChildOfAttribute"),
        ("start = element r { attribute x { grammar { start = element y { empty } } } }", "ElementAsChildOfAttribute"),
        ("start = element r { attribute x { grammar { start = text\n foo = element y { empty } } } }", ""),
        ("start = parent a", "NoParentAvailable"),
        ("element a { x:int }", "UndefinedDatatypePrefix"),
        ("element x:a { empty }", "UndefinedNamespacePrefix"),
        ("start = element a { empty }\nstart = element b { empty }", "DuplicateDefinition"),
        ("start = element a { x }\nx |= text\nx &= empty", "DefineRulesMixesChoiceAndInterleave"),
    ];
    for (s, w) in one {
        reject(cx, &[("main.rnc", s)], w)?;
    }
    reject(cx, &[("main.rnc", "include \"main.rnc\"")], "RecursiveInclude")?;
    reject(cx, &[("main.rnc", "include \"x.rnc\" { foo = empty }"), ("x.rnc", "start = element a { foo }\nfoo = undef")], "")?;
    reject(
        cx,
        &[
            ("main.rnc", "element a { attribute b { external \"y.rnc\" } }"),
            ("y.rnc", "include \"x.rnc\" { start = text }"),
            ("x.rnc", "start = element c { text }"),
        ],
        "",
    )?;
    reject(cx, &[("main.rnc", "include \"sub/x.rnc\""), ("sub/x.rnc", "include \"../main.rnc\"")], "RecursiveInclude")?;
    reject(cx, &[("main.rnc", "include \"x.rnc\" { foo = text }"), ("x.rnc", "start = element a { text }")], "OverrideMissingFromInclude")?;
    reject(cx, &[("main.rnc", "include \"x.rnc\""), ("x.rnc", "element a { text }")], "IncludedFileMustBeGrammar")?;
    reject(cx, &[("main.rnc", "include \"x.rnc\" { start = element p:a { text } }"), ("x.rnc", "namespace p = \"urn:p\"\nstart = element p:a { text }")], "UndefinedNamespacePrefix")?;
    reject(cx, &[("main.rnc", "include \"x.rnc\" { start = element a { p:int } }"), ("x.rnc", "datatypes p = \"http://www.w3.org/2001/XMLSchema-datatypes\"\nstart = element a { p:int }")], "UndefinedDatatypePrefix")?;
    reject(cx, &[("main.rnc", "namespace p = \"urn:p\"\ninclude \"x.rnc\""), ("x.rnc", "start = element p:a { text }")], "UndefinedNamespacePrefix")?;
    reject(cx, &[("main.rnc", "datatypes p = \"http://www.w3.org/2001/XMLSchema-datatypes\"\ninclude \"x.rnc\""), ("x.rnc", "start = element a { p:int }")], "UndefinedDatatypePrefix")?;
    reject(cx, &[("main.rnc", "element a { external \"x.rnc\" }"), ("x.rnc", "namespace p = \"urn:p\"\nelement b { element p:c { empty }, external \"y.rnc\" }"), ("y.rnc", "element p:d { empty }")], "UndefinedNamespacePrefix")
}
