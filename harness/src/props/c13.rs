//! C13: XSD boolean, language, name, date and duration types.

use super::common::*;
use crate::dtgen;
use crate::runner::{CaseResult, Cx, Prop};
use crate::sut::Syn;
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C13",
    tape_len: 300,
    quick: 500000,
    thorough: 12500000,
    run,
    fixed,
    rule: "distinct (datatype with facets, value, place) triples with a decided verdict",
    assumptions: &["year 0000, 24:00:00, leap days before year 1, and anyURI values with brackets or unusual authorities are left out (editions differ)"],
    known: &[],
    shrink_iters: 4000,
};

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let d = dtgen::other(t);
    data_case(t, cx, d, 8)
}

fn xs(cx: &mut Cx, dt: &str, yes: &[&str], no: &[&str]) -> CaseResult {
    let rows: Vec<(String, bool)> = yes.iter().map(|v| (v, true)).chain(no.iter().map(|v| (v, false))).map(|(v, b)| (format!("<a v='{v}'>{v}</a>"), b)).collect();
    let rows: Vec<(&str, bool)> = rows.iter().map(|(a, b)| (&a[..], *b)).collect();
    table(cx, Syn::Rnc, &format!("element a {{ attribute v {{ {dt} }}, {dt} }}"), &rows)
}

fn fixed(cx: &mut Cx) -> CaseResult {
    xs(cx, "xsd:boolean", &["true", "false", "0", "1", " true "], &["TRUE", "yes", "", "01", "t rue"])?;
    xs(cx, "xsd:language", &["en", "en-GB", "x-klingon", "zh-Hans-1", "abcdefgh"], &["", "abcdefghi", "en-", "-en", "e1", "en_GB", "en-abcdefghi"])?;
    xs(cx, "xsd:ID", &["a", "_1", " x "], &["1", "a b", "", "a:b", "-a"])?;
    xs(cx, "xsd:IDREF", &["a", "_1"], &["1", "a b", "", "a:b"])?;
    xs(cx, "xsd:date", &["2024-02-29", "2000-02-29Z", "1999-12-31+14:00", "-0044-03-15", "12024-01-01", "0001-01-01-13:59"], &["2023-02-29", "1900-02-29", "2024-00-01", "2024-13-01", "2024-04-31", "24-01-01", "2024-1-1", "2024-01-01+14:01", "2024-01-01z", "012024-01-01", "2024-01-01T00:00:00", ""])?;
    xs(cx, "xsd:dateTime", &["2024-02-29T23:59:59", "1999-12-31T00:00:00.5Z", "2001-10-26T21:32:52.123456789012+02:00"], &["2024-02-29", "2024-02-30T00:00:00", "2024-01-01T25:00:00", "2024-01-01T00:60:00", "2024-01-01T00:00:61", "2024-01-01T00:00", "2024-01-01T00:00:00.", "2024-01-01t00:00:00"])?;
    xs(cx, "xsd:duration", &["P1Y", "-P1Y2M3DT4H5M6.7S", "PT1S", "P1D", "PT0.5S", " P1M "], &["P", "PT", "P1YT", "1Y", "P1S", "P1.5D", "P-1Y", "PT1.S", "P1M1Y", "p1y", ""])?;
    xs(cx, "xsd:anyURI", &["http://example.org/a?b=c#d", "a/b", "urn:x", "#f", "%20", "/a:b", "é c&lt;|}", ""], &["%zz", "%2", ":", "1:a", "a#b#c"])
}
