//! C11: XSD numeric types accept exactly their value range.

use super::common::*;
use crate::dtgen;
use crate::runner::{CaseResult, Cx, Prop};
use crate::sut::Syn;
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C11",
    tape_len: 300,
    quick: 400000,
    thorough: 10000000,
    run,
    fixed,
    rule: "distinct (datatype with facets, value, place) triples with a decided verdict",
    assumptions: &["a sign on values of unsigned types, and +INF, are left out (editions of XML Schema differ)"],
    known: &[],
    shrink_iters: 4000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let d = dtgen::numeric(t);
    data_case(t, cx, d, 8)
}

fn xs(cx: &mut Cx, dt: &str, yes: &[&str], no: &[&str]) -> CaseResult {
    let rows: Vec<(String, bool)> = yes.iter().map(|v| (v, true)).chain(no.iter().map(|v| (v, false))).map(|(v, b)| (format!("<a v='{v}'>{v}</a>"), b)).collect();
    let rows: Vec<(&str, bool)> = rows.iter().map(|(a, b)| (&a[..], *b)).collect();
    table(cx, Syn::Rnc, &format!("element a {{ attribute v {{ {dt} }}, {dt} }}"), &rows)
}

fn fixed(cx: &mut Cx) -> CaseResult {
    xs(cx, "xsd:short", &["32767", "-32768", "007", "+1", " 1 ", "0", "-0"], &["32768", "-32769", "1.0", "", "1 2", "--1", "+", "0x1", "1e1"])?;
    xs(cx, "xsd:int", &["2147483647", "-2147483648"], &["2147483648", "-2147483649", "99999999999999999999999999"])?;
    xs(cx, "xsd:long", &["9223372036854775807", "-9223372036854775808"], &["9223372036854775808", "-9223372036854775809"])?;
    xs(cx, "xsd:unsignedShort", &["0", "65535", "00065535"], &["65536", "70000"])?;
    xs(cx, "xsd:unsignedInt", &["0", "4294967295"], &["4294967296"])?;
    xs(cx, "xsd:unsignedLong", &["0", "18446744073709551615"], &["18446744073709551616"])?;
    xs(cx, "xsd:positiveInteger", &["1", "+1", "123456789012345678901234567890"], &["0", "-1", ""])?;
    xs(cx, "xsd:integer", &["123456789012345678901234567890", "-123456789012345678901234567890"], &["1.", ".", "a", "１"])?;
    xs(cx, "xsd:decimal", &["1", "1.", ".5", "-0.50", "+1.5", "123456789012345678901234567890.123456789012345678901234567890"], &[".", "1e1", "INF", "", "1,5", "1.5.5"])?;
    xs(cx, "xsd:double", &["1", "1.5e3", "-1E-3", ".5", "5.", "INF", "-INF", "NaN", "1e400"], &["inf", "nan", "e5", "1e", "Infinity", "1e1.5", "", "1 1"])?;
    xs(cx, "xsd:int { minInclusive = \"-1\" maxExclusive = \"5\" }", &["-1", "4", "04"], &["-2", "5"])?;
    xs(cx, "xsd:int { minExclusive = \"-1\" maxInclusive = \"5\" }", &["0", "5"], &["-1", "6"])?;
    xs(cx, "xsd:decimal { minExclusive = \"0.5\" maxInclusive = \"1.50\" }", &["0.500001", "1.5", "1.5000"], &["0.5", "0.50", "1.50001"])?;
    xs(cx, "xsd:decimal { totalDigits = \"3\" fractionDigits = \"1\" }", &["12.3", "123", "0012.30", "-12.3"], &["1234", "1.23", "123.4"])?;
    xs(cx, "xsd:double { minInclusive = \"1e1\" maxExclusive = \"2E1\" }", &["10", "1.0e1", "19.999"], &["9.9", "20", "INF", "NaN", "-INF"])?;
    xs(cx, "xsd:integer { pattern = \"[0-9]{2}\" maxInclusive = \"50\" }", &["10", " 50 ", "05"], &["5", "51", "050"])
}
