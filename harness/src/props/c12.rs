//! C12: XSD string-like types obey length and pattern facets.

use super::common::*;
use crate::dtgen;
use crate::runner::{CaseResult, Cx, Prop};
use crate::sut::Syn;
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C12",
    tape_len: 300,
    quick: 350000,
    thorough: 8750000,
    run,
    fixed,
    rule: "distinct (datatype with facets, value, place) triples with a decided verdict",
    assumptions: &["patterns use the regular expressions of XML Schema without blocks (\\p{Is...}); category escapes are judged on the characters assigned in Unicode 15.0"],
    known: &[],
    shrink_iters: 4000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let d = dtgen::stringy(t);
    data_case(t, cx, d, 8)
}

fn xs(cx: &mut Cx, dt: &str, yes: &[&str], no: &[&str]) -> CaseResult {
    let rows: Vec<(String, bool)> = yes.iter().map(|v| (v, true)).chain(no.iter().map(|v| (v, false))).map(|(v, b)| (format!("<a v='{v}'>{v}</a>"), b)).collect();
    let rows: Vec<(&str, bool)> = rows.iter().map(|(a, b)| (&a[..], *b)).collect();
    table(cx, Syn::Rnc, &format!("element a {{ attribute v {{ {dt} }}, {dt} }}"), &rows)
}

/// every escape with the characters at the ends of the ranges of every category (all assigned
/// characters, if thorough)
fn escapes(cx: &mut Cx) -> CaseResult {
    use crate::dt::Esc;
    let mut all: Vec<Esc> = crate::dt::CATEGORIES.iter().flat_map(|n| [Esc::Cat(n, false), Esc::Cat(n, true)]).collect();
    all.extend("dDsSiIcCwW".chars().map(Esc::Multi));
    let mut chars: Vec<char> = vec!['\t', '\n', '\r'];
    for (a, b, _) in crate::ucd::CATS {
        let v: Vec<u32> = if cx.thorough { (*a..=*b).collect() } else { vec![*a, *b] };
        chars.extend(v.into_iter().filter_map(char::from_u32).filter(|c| *c >= ' ' && *c != '\u{FFFE}' && *c != '\u{FFFF}'));
    }
    chars.dedup();
    for e in all {
        for (form, neg) in [(e.print(), false), (format!("[{}]", e.print()), false), (format!("[^{}]", e.print()), true)] {
            if cx.thorough && form.starts_with('[') {
                continue;
            }
            let s = must_compile(&[("main.rnc".into(), format!("element a {{ xsd:string {{ pattern = '{form}' }} }}"))], Syn::Rnc)?;
            // all that match in one document, and some one by one
            let many = must_compile(&[("main.rnc".into(), format!("element a {{ element b {{ xsd:string {{ pattern = '{form}' }} }}* }}"))], Syn::Rnc)?;
            let mut doc = String::from("<a>");
            for c in chars.iter().filter(|c| e.has(**c) != neg) {
                doc.push_str(&format!("<b>&#{};</b>", *c as u32));
            }
            doc.push_str("</a>");
            cx.eval();
            let good = crate::sut::validate(&many, &doc).ok();
            let step = if good && !cx.thorough { 11 } else { 1 };
            for c in chars.iter().skip(form.len() % 7).step_by(step) {
                let doc = format!("<a>&#{};</a>", *c as u32);
                cx.eval();
                let got = crate::sut::validate(&s, &doc);
                if got.ok() != (e.has(*c) != neg) {
                    return Err(format!("pattern {form}: the library says {} for {doc} (category {})", got.short(), crate::dt::category(*c)));
                }
            }
            if !good {
                return Err(format!("pattern {form}: a document of characters that match is not valid"));
            }
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    escapes(cx)?;
    xs(cx, "xsd:string { length = \"3\" }", &["abc", "é√😀", "&#10;&#9;&#32;", "a b"], &["ab", "abcd", ""])?;
    xs(cx, "xsd:token { length = \"3\" }", &["abc", " abc ", "a  b", "a&#10;b"], &["a", "ab"])?;
    xs(cx, "xsd:normalizedString { minLength = \"2\" maxLength = \"3\" }", &["ab", " a ", "&#9;&#9;"], &["a", "abcd", " abc"])?;
    xs(cx, "xsd:string { pattern = \"a|bc\" }", &["a", "bc"], &["ac", "abc", "abx", "xa", "bca", ""])?;
    xs(cx, "xsd:string { pattern = \"a.c\" }", &["abc", "a.c"], &["ac", "abbc", "a&#10;c"])?;
    xs(cx, "xsd:token { pattern = \"[a-c]+\\d{0,2}\" pattern = \".{2}\" }", &["ab", "a1", " c9 "], &["a", "abc", "12", "a12"])?;
    xs(cx, "xsd:NMTOKENS { minLength = \"2\" maxLength = \"3\" }", &["a b", " 1  2&#10;3 "], &["a", "a b c d", "", "a &#60; b"])?;
    xs(cx, "xsd:NMTOKEN { maxLength = \"3\" }", &["a:b", " 1 ", "-"], &["abcd", "a b", ""])?;
    xs(cx, "xsd:NCName { minLength = \"2\" }", &["ab", "_x", "é1"], &["a", "1a", "a:b", "-a", "a b"])?;
    xs(cx, "xsd:string { pattern = \"^a$\" }", &["^a$"], &["a", ""])?;
    xs(cx, "xsd:string { pattern = \"[a-z-[aeiou]]+\" }", &["xyz", "b"], &["a", "bab", ""])?;
    xs(cx, "xsd:string { pattern = \"\\i\\c*\" }", &["a1", ":-", "é"], &["1", "-a", "a b"])?;
    xs(cx, "xsd:string { pattern = \"[\\p{Lu}\\-\\^]\" }", &["A", "-", "^", "É"], &["a", "u", "p", "{"])?;
    xs(cx, "xsd:string { pattern = \"[a&&b~~]\" }", &["a", "b", "&amp;", "~"], &["a&amp;&amp;b"])?;
    xs(cx, "xsd:string { pattern = \"[<-a]\\<?\" pattern = \"[<>a]*[^>]?\" }", &["&lt;", ">", "=", "A", "&lt;&lt;", "a"], &["b", "", ";"])?;
    xs(cx, "xsd:string { pattern = \"\\s\\S\\w\\W\" }", &[" ab-", "&#9;-+_", " &#160;$."], &["aaa.", " aa+", "&#160;a$."])?;
    xs(cx, "xsd:string { maxLength = \"0\" }", &[""], &["a", "&#32;&#32;x"])?;
    // lengths around the limits of machine integers
    for n in [127usize, 255, 256, 1024, 32767, 65535, 65536] {
        for (ty, item) in [("string", "é"), ("normalizedString", "a"), ("token", "b"), ("NMTOKEN", "-"), ("NCName", "_"), ("NMTOKENS", " x")] {
            let (less, same, more) = (item.repeat(n - 1), item.repeat(n), item.repeat(n + 1));
            let (less, same, more) = (&less[..], &same[..], &more[..]);
            xs(cx, &format!("xsd:{ty} {{ length = \"{n}\" }}"), &[same], &[less, more, item])?;
            xs(cx, &format!("xsd:{ty} {{ minLength = \"{n}\" }}"), &[same, more], &[less, item])?;
            xs(cx, &format!("xsd:{ty} {{ maxLength = \"{n}\" pattern = \"[^q]*\" }}"), &[same, less, item], &[more])?;
        }
    }
    Ok(())
}
