//! C23: the compact parser returns the schema that was written.
//!
//! Text and expected syntax tree are generated together, production by production, without regard
//! to whether the schema means anything.

use crate::dt;
use crate::runner::{CaseResult, Cx, InLibrary, Prop};
use crate::rnc::KEYWORDS;
use crate::tape::Tape;
use relaxng_syntax::compact;
use relaxng_syntax::types::*;

pub const PROP: Prop = Prop {
    id: "C23",
    tape_len: 900,
    quick: 800000,
    thorough: 20000000,
    run,
    fixed,
    rule: "distinct generated texts of at least 15 words, each with its tree or (a token deleted, repeated or exchanged) with no tree",
    assumptions: &[
        "annotations which are not part of the tree are only required to be skipped",
        "`\\x{..}` escapes only within literals",
        "white space between the items of a grammar, and between annotations",
        "the spans of the name `start`, of the outermost grammar and of initial annotations are not compared",
    ],
    known: &[],
    shrink_iters: 4000,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tok {
    Open,
    Close,
    /// `=` of declarations, parameters, annotations; an assignment method
    Assign,
    /// connector number k of a chain of n
    Connector(usize),
    Postfix,
    /// only name in its place, which has to be there
    Name,
    /// literal which has to be there
    Literal,
    /// name of a definition
    Defined,
    /// reference to a definition
    Ref,
    /// end of a pattern that an exception belongs to
    Except,
}

struct W<'a, 'b> {
    t: &'a mut Tape<'b>,
    out: String,
    toks: Vec<(Tok, usize, usize)>,
    budget: i32,
    kinds: u32,
}

const NAMES: &[&str] = &[
    "a", "b", "foo", "x-1", "é", "_", "elements", "text.1", "startx", "string1", "tokens", "list-", "inherited", "n\u{b7}", "\u{10400}", "A1", "emptyness", "externals",
    "mixed_", "notAllowed2", "div.", "parent-x", "attribute_", "grammars", "includes", "default1", "datatypes-", "namespaces", "stringent", "token_",
];

impl W<'_, '_> {
    fn w(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn tok(&mut self, k: Tok, s: &str) {
        self.budget -= 1;
        let a = self.out.len();
        self.out.push_str(s);
        self.toks.push((k, a, self.out.len()));
    }
    fn yes(&mut self, n: usize, d: usize) -> bool {
        self.t.chance(n, d)
    }
    fn seen(&mut self, k: u32) {
        self.kinds |= 1 << k;
    }
    fn sp(&mut self) {
        let s = if self.yes(1, 6) {
            *self.t.pick(&["\n", "\t", "  ", " # c { } \" '\n", "\r\n", "#\n", "\n\n# x\n # y\n ", "\n## doc ( [ \n"])
        } else {
            " "
        };
        self.w(s)
    }
    fn op(&mut self) {
        if self.yes(1, 3) {
            return;
        }
        self.sp()
    }
    fn no(&mut self) {
        if self.yes(1, 8) {
            self.sp()
        }
    }
    fn name_text(&mut self) -> String {
        match self.t.below(24) {
            23 => dt::edge_name(self.t, true),
            22 => {
                let k = *self.t.pick(KEYWORDS);
                dt::longer_name(self.t, k)
            }
            _ => self.t.pick(NAMES).to_string(),
        }
    }
    fn identifier(&mut self, k: Tok) -> Identifier {
        let a = self.out.len();
        let s = match self.t.below(8) {
            0 => {
                let s = self.t.pick(KEYWORDS).to_string();
                self.tok(k, &format!("\\{s}"));
                self.seen(0);
                s
            }
            1 => {
                let s = self.name_text();
                self.tok(k, &format!("\\{s}"));
                s
            }
            _ => {
                let s = self.name_text();
                self.tok(k, &s);
                s
            }
        };
        Identifier(a..self.out.len(), s)
    }
    fn identifier_or_keyword(&mut self, k: Tok) -> IdentifierOrKeyword {
        if self.yes(1, 6) {
            let a = self.out.len();
            let s = self.t.pick(KEYWORDS).to_string();
            self.tok(k, &s);
            self.seen(1);
            return IdentifierOrKeyword::Keyword(Keyword(a..self.out.len(), s));
        }
        IdentifierOrKeyword::Identifier(self.identifier(k))
    }
    /// reference to or name of a definition
    fn def_name(&mut self, k: Tok) -> Identifier {
        let mut i = self.identifier(k);
        if i.1 == "start" {
            i.1 = "\\start".into();
        }
        i
    }
    fn ncname(&mut self) -> NcName {
        let a = self.out.len();
        let s = if self.yes(1, 6) { self.t.pick(KEYWORDS).to_string() } else { self.name_text() };
        self.w(&s);
        NcName(a..self.out.len(), s)
    }
    fn qname(&mut self) -> QName {
        let p = self.ncname();
        self.w(":");
        let l = self.ncname();
        self.seen(2);
        QName(p, l)
    }
    fn name(&mut self) -> Name {
        if self.yes(1, 3) {
            let a = self.out.len();
            let q = self.qname();
            self.toks.push((Tok::Name, a, self.out.len()));
            Name::CName(q)
        } else {
            Name::Identifier(self.identifier_or_keyword(Tok::Name))
        }
    }
    fn segment(&mut self) -> LiteralSegment {
        let q = *self.t.pick(&["\"", "'", "\"\"\"", "'''"]);
        let c = q.chars().next().unwrap();
        let mut body = String::new();
        let mut text = String::new();
        for _ in 0..self.t.below(5) {
            let p = *self.t.pick(&["a", "urn:x", " ", "#", "{", "}", "[", "é", "\\", "~", "x", "\"", "'", "\n", "\\d+", "&amp;", "\u{10400}", "]"]);
            if self.yes(1, 6) {
                let ch = p.chars().next().unwrap();
                let hex = match self.t.below(3) {
                    0 => format!("{:x}", ch as u32),
                    1 => format!("{:X}", ch as u32),
                    _ => format!("{:06x}", ch as u32),
                };
                // a backslash before would not change what comes after
                let x = if self.yes(1, 4) { "xxx" } else { "x" };
                if text.ends_with('\\') {
                    continue;
                }
                text.push_str(&format!("\\{x}{{{hex}}}"));
                body.push(ch);
                self.seen(3);
                continue;
            }
            // what would end the literal, or begin an escape
            let ends = if q.len() == 1 { p.contains(c) || p == "\n" } else { p.contains(c) && (text.ends_with(c) || text.is_empty()) };
            if ends || (text.ends_with('\\') && p.starts_with(['x', '{'])) {
                continue;
            }
            text.push_str(p);
            body.push_str(p);
        }
        if q.len() == 3 && text.ends_with(c) {
            text.push('.');
            body.push('.');
        }
        self.w(&format!("{q}{text}{q}"));
        LiteralSegment { body }
    }
    fn literal(&mut self) -> Literal {
        let a = self.out.len();
        let mut v = vec![self.segment()];
        while self.yes(1, 6) && v.len() < 4 {
            self.no();
            self.w("~");
            self.no();
            v.push(self.segment());
            self.seen(4);
        }
        self.toks.push((Tok::Literal, a, self.out.len()));
        Literal(a..self.out.len(), v)
    }

    // ---------------------------------------------------------------- annotations
    fn attributes(&mut self) -> Vec<AnnotationAttribute> {
        let mut v = vec![];
        for _ in 0..self.t.weighted(&[4, 3, 1]) {
            if !v.is_empty() {
                self.sp();
            }
            let name = if self.yes(1, 2) {
                Name::CName(self.qname())
            } else {
                let i = self.identifier_or_keyword(Tok::Name);
                Name::Identifier(i)
            };
            self.op();
            self.tok(Tok::Assign, "=");
            self.op();
            let value = self.literal();
            v.push(AnnotationAttribute { span: name.span().start..value.0.end, name, value });
        }
        v
    }
    fn annotation_element(&mut self, keyword: bool, depth: usize) -> AnnotationElement {
        let name = if self.yes(1, 2) {
            Name::CName(self.qname())
        } else if keyword {
            let a = self.out.len();
            let r = Name::Identifier(self.identifier_or_keyword(Tok::Name));
            // its place may be taken by another name
            self.toks.retain(|t| t.1 < a);
            r
        } else {
            let a = self.out.len();
            let r = Name::Identifier(IdentifierOrKeyword::Identifier(self.identifier(Tok::Name)));
            self.toks.retain(|t| t.1 < a);
            r
        };
        self.op();
        self.tok(Tok::Open, "[");
        self.op();
        let attrs = self.attributes();
        let mut kids = vec![];
        for _ in 0..self.t.weighted(&[4, 2, 2]) {
            if !attrs.is_empty() || !kids.is_empty() {
                self.sp();
            }
            if depth > 0 && self.yes(1, 2) {
                kids.push(AnnotationElementOrLiteral::Element(self.annotation_element(true, depth - 1)));
            } else {
                let l = self.literal();
                self.toks.pop();
                kids.push(AnnotationElementOrLiteral::Literal(l));
            }
        }
        self.op();
        self.tok(Tok::Close, "]");
        AnnotationElement {
            span: name.span().start..self.out.len(),
            name,
            annotation_attributes: attrs,
            annotation_elements_or_literals: kids,
        }
    }
    fn initial(&mut self, chance: usize) -> Option<InitialAnnotation> {
        if !self.yes(1, chance) {
            return None;
        }
        self.seen(5);
        let a = self.out.len();
        self.tok(Tok::Open, "[");
        self.op();
        let attribute_annotations = self.attributes();
        let mut element_annotations = vec![];
        for _ in 0..self.t.weighted(&[4, 2, 1]) {
            if !attribute_annotations.is_empty() || !element_annotations.is_empty() {
                self.sp();
            }
            element_annotations.push(self.annotation_element(true, 1));
        }
        self.op();
        self.tok(Tok::Close, "]");
        let b = self.out.len();
        self.op();
        Some(InitialAnnotation { span: a..b, attribute_annotations, element_annotations })
    }
    fn follow(&mut self) {
        while self.yes(1, 24) {
            self.seen(6);
            self.op();
            self.w(">>");
            self.op();
            self.annotation_element(true, 1);
        }
    }

    // ---------------------------------------------------------------- name classes
    /// one name class without choice
    fn simple_nc(&mut self, depth: usize) -> NameClass {
        self.initial(20);
        let nc = match self.t.weighted(&[6, 2, 2, if depth > 0 { 1 } else { 0 }]) {
            0 => NameClass::Name(self.name()),
            1 => {
                let a = self.out.len();
                let p = self.ncname();
                self.w(":*");
                self.toks.push((Tok::Name, a, self.out.len()));
                self.seen(7);
                NameClass::NsName(NsName { name: NamespaceOrPrefix::Prefix(p), except: self.nc_except(depth) })
            }
            2 => {
                self.tok(Tok::Name, "*");
                self.seen(8);
                NameClass::AnyName(AnyName(self.nc_except(depth)))
            }
            _ => {
                self.tok(Tok::Open, "(");
                self.op();
                let n = self.nc(depth - 1);
                self.op();
                self.tok(Tok::Close, ")");
                NameClass::Paren(ParenName(Box::new(n)))
            }
        };
        self.follow();
        nc
    }
    fn nc_except(&mut self, depth: usize) -> Option<Box<NameClass>> {
        if depth == 0 || !self.yes(1, 3) {
            return None;
        }
        self.seen(9);
        self.op();
        self.w("-");
        self.op();
        // a choice has to be in parentheses, and so has another exception
        let n = if self.yes(1, 2) {
            NameClass::Name(self.name())
        } else {
            self.tok(Tok::Open, "(");
            self.op();
            let n = self.nc(depth - 1);
            self.op();
            self.tok(Tok::Close, ")");
            NameClass::Paren(ParenName(Box::new(n)))
        };
        Some(Box::new(n))
    }
    fn nc(&mut self, depth: usize) -> NameClass {
        let n = if depth > 0 { self.t.weighted(&[6, 2, 1]) } else { 0 };
        let mut v = vec![];
        for i in 0..=n {
            if i > 0 {
                self.op();
                self.w("|");
                self.op();
                self.seen(10);
            }
            // what comes behind an exception belongs to it in this parser, so this has to be in parentheses
            let d = if n > 0 { 0 } else { depth };
            v.push(self.simple_nc(d));
        }
        let last = v.pop().unwrap();
        v.into_iter().rfold(last, |r, l| NameClass::Alt(AltName(Box::new(l), Box::new(r))))
    }

    // ---------------------------------------------------------------- patterns
    fn braces(&mut self) -> Box<Pattern> {
        self.op();
        self.tok(Tok::Open, "{");
        self.op();
        let p = self.pattern(true);
        self.op();
        self.tok(Tok::Close, "}");
        Box::new(p)
    }
    fn data_name(&mut self) -> DatatypeName {
        match self.t.below(4) {
            0 => {
                self.w("string");
                DatatypeName::String
            }
            1 => {
                self.w("token");
                DatatypeName::Token
            }
            _ => DatatypeName::CName(self.qname()),
        }
    }
    /// except: whether there may be an exception
    fn primary(&mut self, except: bool) -> Pattern {
        self.budget -= 1;
        self.initial(16);
        let deep = self.budget > 0;
        let r = match self.t.weighted(&[3, 2, 2, 2, if deep { 5 } else { 0 }, if deep { 3 } else { 0 }, 3, 3, 1, if deep { 1 } else { 0 }, if deep { 1 } else { 0 }, if deep { 1 } else { 0 }, if deep { 2 } else { 0 }, 1]) {
            0 => Pattern::Identifier(self.def_name(Tok::Ref)),
            1 => {
                self.w("empty");
                Pattern::Empty
            }
            2 => {
                self.w("text");
                Pattern::Text
            }
            3 => {
                self.w("notAllowed");
                Pattern::NotAllowed
            }
            k @ (4 | 5) => {
                let a = self.out.len();
                self.w(if k == 4 { "element" } else { "attribute" });
                self.sp();
                let name_class = self.nc(2);
                let pattern = self.braces();
                let span = a..self.out.len();
                if k == 4 {
                    Pattern::Element(ElementPattern { span, name_class, pattern })
                } else {
                    Pattern::Attribute(AttributePattern { span, name_class, pattern })
                }
            }
            6 => {
                // [datatypeName] literal
                let n = if self.yes(1, 2) {
                    let n = self.data_name();
                    self.op();
                    Some(n)
                } else {
                    None
                };
                let l = self.literal();
                self.toks.pop();
                self.seen(11);
                Pattern::DatatypeValue(DatatypeValuePattern(n, l))
            }
            7 => {
                let n = self.data_name();
                let params = if self.yes(1, 3) {
                    self.op();
                    self.tok(Tok::Open, "{");
                    self.op();
                    let mut v = vec![];
                    for _ in 0..self.t.weighted(&[1, 3, 2]) {
                        if !v.is_empty() {
                            self.sp();
                        }
                        let a = self.out.len();
                        let anno = self.initial(8);
                        let name = self.identifier_or_keyword(Tok::Name);
                        self.op();
                        self.tok(Tok::Assign, "=");
                        self.op();
                        let l = self.literal();
                        v.push(Param(a..self.out.len(), anno, name, l));
                        self.seen(12);
                    }
                    self.op();
                    self.tok(Tok::Close, "}");
                    Some(v)
                } else {
                    None
                };
                let ex = if except && self.yes(1, 4) {
                    // "-" could be part of the name
                    if params.is_none() { self.sp() } else { self.op() }
                    self.w("-");
                    self.op();
                    let p = self.primary(false);
                    self.seen(13);
                    Some(Box::new(p))
                } else {
                    None
                };
                Pattern::DatatypeName(DatatypeNamePattern(n, params, ex))
            }
            8 => {
                self.w("parent");
                self.sp();
                self.seen(14);
                Pattern::Parent(self.def_name(Tok::Ref))
            }
            9 => {
                self.w("list");
                Pattern::List(ListPattern(self.braces()))
            }
            10 => {
                self.w("mixed");
                Pattern::Mixed(MixedPattern(self.braces()))
            }
            11 => {
                let a = self.out.len();
                self.w("grammar");
                self.op();
                self.tok(Tok::Open, "{");
                self.op();
                let n = self.t.weighted(&[1, 3, 2]);
                let content = self.content(n);
                self.op();
                self.tok(Tok::Close, "}");
                self.seen(15);
                Pattern::Grammar(GrammarPattern { span: a..self.out.len(), content })
            }
            12 => {
                self.tok(Tok::Open, "(");
                self.op();
                let p = self.pattern(true);
                self.op();
                self.tok(Tok::Close, ")");
                Pattern::Group(Box::new(p))
            }
            _ => {
                self.w("external");
                self.sp();
                let l = self.literal();
                let i = self.inherit();
                self.seen(16);
                Pattern::External(ExternalPattern(l, i))
            }
        };
        // the annotations behind an exception belong to what is excepted
        if !is_except(&r) {
            self.follow();
        }
        r
    }
    fn inherit(&mut self) -> Option<Inherit> {
        if !self.yes(1, 3) {
            return None;
        }
        self.sp();
        self.w("inherit");
        self.op();
        self.tok(Tok::Assign, "=");
        self.op();
        self.seen(17);
        let a = self.toks.len();
        let r = Inherit::Prefix(self.identifier_or_keyword(Tok::Name));
        self.toks.truncate(a);
        Some(r)
    }
    fn particle(&mut self) -> Pattern {
        let p = self.primary(false);
        if !self.yes(1, 4) {
            return p;
        }
        self.no();
        let k = self.t.below(3);
        self.tok(Tok::Postfix, ["?", "*", "+"][k]);
        self.follow();
        let p = Box::new(p);
        match k {
            0 => Pattern::Optional(p),
            1 => Pattern::ZeroOrMore(p),
            _ => Pattern::OneOrMore(p),
        }
    }
    fn pattern(&mut self, except: bool) -> Pattern {
        let n = if self.budget > 0 { self.t.weighted(&[6, 3, 2, 1]) } else { 0 };
        if n == 0 {
            if except && self.yes(1, 3) {
                let p = self.primary(true);
                if is_except(&p) {
                    let a = self.out.len();
                    self.toks.push((Tok::Except, a, a));
                }
                return p;
            }
            return self.particle();
        }
        let k = self.t.below(3);
        let mut v = vec![];
        for i in 0..=n {
            if i > 0 {
                self.op();
                self.tok(Tok::Connector(n), [",", "&", "|"][k]);
                self.op();
            }
            v.push(self.particle());
        }
        self.seen(18 + k as u32);
        let pair: fn(Box<Pattern>, Box<Pattern>) -> Pattern = match k {
            0 => Pattern::ListPair,
            1 => Pattern::InterleavePair,
            _ => Pattern::ChoicePair,
        };
        let last = v.pop().unwrap();
        v.into_iter().rfold(last, |r, l| pair(Box::new(l), Box::new(r)))
    }

    // ---------------------------------------------------------------- grammars
    fn define(&mut self) -> Define {
        let a = self.out.len();
        let name = if self.yes(1, 5) {
            self.tok(Tok::Defined, "start");
            Identifier(a..a, "start".into())
        } else {
            self.def_name(Tok::Defined)
        };
        self.op();
        let k = self.t.weighted(&[3, 1, 1]);
        self.tok(Tok::Assign, ["=", "|=", "&="][k]);
        self.op();
        let m = match k {
            0 => AssignMethod::Assign,
            1 => AssignMethod::Choice,
            _ => AssignMethod::Interleave,
        };
        self.seen(21 + k as u32);
        let p = self.pattern(true);
        Define(a..self.out.len(), name, m, p)
    }
    fn content(&mut self, n: usize) -> Vec<GrammarContent> {
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.sp();
            }
            self.initial(12);
            v.push(match self.t.weighted(&[8, if self.budget > 0 { 2 } else { 0 }, 2, 1]) {
                0 => GrammarContent::Define(self.define()),
                1 => {
                    self.w("div");
                    self.op();
                    self.tok(Tok::Open, "{");
                    self.op();
                    let n = self.t.weighted(&[1, 3, 2]);
                    let c = self.content(n);
                    self.op();
                    self.tok(Tok::Close, "}");
                    self.seen(24);
                    GrammarContent::Div(c)
                }
                2 => {
                    self.w("include");
                    self.sp();
                    let l = self.literal();
                    let inh = self.inherit();
                    let c = if self.yes(1, 2) {
                        self.op();
                        self.tok(Tok::Open, "{");
                        self.op();
                        let n = self.t.weighted(&[1, 3, 2]);
                        let c = self.include_content(n);
                        self.op();
                        self.tok(Tok::Close, "}");
                        Some(c)
                    } else {
                        None
                    };
                    self.seen(25);
                    GrammarContent::Include(Include(l, inh, c))
                }
                _ => {
                    self.seen(26);
                    GrammarContent::Annotation(self.annotation_element(false, 2))
                }
            });
        }
        v
    }
    fn include_content(&mut self, n: usize) -> Vec<IncludeContent> {
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.sp();
            }
            self.initial(12);
            v.push(match self.t.weighted(&[8, if self.budget > 0 { 2 } else { 0 }, 1]) {
                0 => IncludeContent::Define(self.define()),
                1 => {
                    self.w("div");
                    self.op();
                    self.tok(Tok::Open, "{");
                    self.op();
                    let n = self.t.weighted(&[1, 3, 2]);
                    let c = self.include_content(n);
                    self.op();
                    self.tok(Tok::Close, "}");
                    IncludeContent::Div(c)
                }
                _ => IncludeContent::Annotation(self.annotation_element(false, 1)),
            });
        }
        v
    }
    fn uri(&mut self) -> NamespaceUriLiteral {
        if self.yes(1, 6) {
            self.w("inherit");
            NamespaceUriLiteral::Inherit
        } else {
            let l = self.literal();
            self.toks.pop();
            NamespaceUriLiteral::Uri(l)
        }
    }
    fn schema(&mut self) -> Schema {
        if self.yes(1, 24) {
            self.w("\u{feff}");
        }
        if self.yes(1, 6) {
            self.sp();
        }
        let mut decls = vec![];
        for _ in 0..self.t.weighted(&[4, 2, 2, 1]) {
            let d = match self.t.below(3) {
                0 => {
                    self.w("namespace");
                    self.sp();
                    let prefix = self.identifier_or_keyword(Tok::Name).to_string();
                    self.op();
                    self.tok(Tok::Assign, "=");
                    self.op();
                    Decl::Namespace(NamespaceDeclaration { prefix, uri: self.uri() })
                }
                1 => {
                    self.w("default");
                    self.sp();
                    self.w("namespace");
                    let prefix = if self.yes(1, 2) {
                        self.sp();
                        let a = self.toks.len();
                        let p = self.identifier_or_keyword(Tok::Name).to_string();
                        self.toks.truncate(a);
                        Some(p)
                    } else {
                        None
                    };
                    self.op();
                    self.tok(Tok::Assign, "=");
                    self.op();
                    Decl::DefaultNamespace(DefaultNamespaceDeclaration { prefix, uri: self.uri() })
                }
                _ => {
                    self.w("datatypes");
                    self.sp();
                    let prefix = self.identifier_or_keyword(Tok::Name).to_string();
                    self.op();
                    self.tok(Tok::Assign, "=");
                    self.op();
                    Decl::Datatypes(DatatypesDeclaration { prefix, uri: self.literal() })
                }
            };
            decls.push(d);
            self.seen(27);
            self.sp();
        }
        let pattern_or_grammar = if self.yes(1, 3) {
            PatternOrGrammar::Pattern(self.pattern(true))
        } else {
            let n = self.t.below(5);
            PatternOrGrammar::Grammar(GrammarPattern { span: 0..0, content: self.content(n) })
        };
        match self.t.below(6) {
            0 => self.w("\n"),
            1 => self.w("\n# end\n"),
            2 => self.w(" # end"),
            _ => {}
        }
        Schema { decls, pattern_or_grammar }
    }
}

fn is_except(p: &Pattern) -> bool {
    matches!(p, Pattern::DatatypeName(DatatypeNamePattern(_, _, Some(_))))
}

// ------------------------------------------------------------------ spans that are not compared

fn forget(s: &mut Schema) {
    match &mut s.pattern_or_grammar {
        PatternOrGrammar::Pattern(p) => forget_pattern(p),
        PatternOrGrammar::Grammar(g) => {
            g.span = 0..0;
            g.content.iter_mut().for_each(forget_content)
        }
    }
}
fn forget_define(d: &mut Define) {
    if d.1.1 == "start" {
        d.1.0 = 0..0;
    }
    forget_pattern(&mut d.3)
}
fn forget_content(c: &mut GrammarContent) {
    fn inc(c: &mut IncludeContent) {
        match c {
            IncludeContent::Define(d) => forget_define(d),
            IncludeContent::Div(v) => v.iter_mut().for_each(inc),
            IncludeContent::Annotation(_) => {}
        }
    }
    match c {
        GrammarContent::Define(d) => forget_define(d),
        GrammarContent::Div(v) => v.iter_mut().for_each(forget_content),
        GrammarContent::Include(i) => {
            if let Some(v) = &mut i.2 {
                v.iter_mut().for_each(inc)
            }
        }
        GrammarContent::Annotation(_) => {}
    }
}
fn forget_pattern(p: &mut Pattern) {
    match p {
        Pattern::Element(e) => forget_pattern(&mut e.pattern),
        Pattern::Attribute(e) => forget_pattern(&mut e.pattern),
        Pattern::List(e) => forget_pattern(&mut e.0),
        Pattern::Mixed(e) => forget_pattern(&mut e.0),
        Pattern::Grammar(g) => g.content.iter_mut().for_each(forget_content),
        Pattern::Group(p) | Pattern::Optional(p) | Pattern::ZeroOrMore(p) | Pattern::OneOrMore(p) => forget_pattern(p),
        Pattern::ListPair(a, b) | Pattern::InterleavePair(a, b) | Pattern::ChoicePair(a, b) => {
            forget_pattern(a);
            forget_pattern(b)
        }
        Pattern::DatatypeName(d) => {
            for p in d.1.iter_mut().flatten() {
                if let Some(a) = &mut p.1 {
                    a.span = 0..0;
                }
            }
            if let Some(e) = &mut d.2 {
                forget_pattern(e)
            }
        }
        _ => {}
    }
}

pub fn parse(text: &str) -> Result<Schema, String> {
    let _g = InLibrary::enter();
    compact::schema(compact::Span::new(text)).map_err(|e| {
        let mut s = format!("{e:?}");
        if s.len() > 200 {
            let mut n = 200;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
        }
        s
    })
}

pub fn same(text: &str, mut want: Schema) -> CaseResult {
    let mut got = parse(text).map_err(|e| format!("a schema is rejected: {e}"))?;
    forget(&mut got);
    forget(&mut want);
    if got != want {
        let (a, b) = (format!("{want:#?}"), format!("{got:#?}"));
        let (a, b): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
        let k = (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]).unwrap_or(a.len().min(b.len()));
        let lo = k.saturating_sub(4);
        return Err(format!(
            "the tree is not what was written:\n--- written\n{}\n--- returned\n{}",
            a[lo..(k + 6).min(a.len())].join("\n"),
            b[lo..(k + 6).min(b.len())].join("\n")
        ));
    }
    Ok(())
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let budget = t.range(4, 60) as i32;
    let mut w = W { t, out: String::new(), toks: vec![], budget, kinds: 0 };
    let want = w.schema();
    let (text, toks, kinds) = (w.out, w.toks, w.kinds);
    cx.note(text.clone());
    cx.eval();
    same(&text, want)?;
    let parts = text.split_whitespace().count();
    let big = toks.len() >= 12 && parts >= 15;
    if big {
        cx.nontrivial(&text);
    }
    for (i, n) in [
        "quoted keyword", "keyword as name", "prefixed name", "escape", "concatenation", "initial annotation", "following annotation", "ns:*", "*", "name exception", "name choice",
        "value", "parameter", "data exception", "parent", "nested grammar", "external", "inherit", "group", "interleave", "choice", "=", "|=", "&=", "div", "include", "annotation element",
        "declaration",
    ]
    .iter()
    .enumerate()
    {
        cx.class_if(kinds >> i & 1 == 1, n);
    }
    cx.sample(|| text.clone());
    if toks.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let (k, a, b) = *t.pick(&toks);
        let old = &text[a..b];
        let (new, what): (String, &str) = match k {
            Tok::Open | Tok::Close => {
                let other: Vec<&str> = match k {
                    Tok::Open => vec!["{", "(", "["],
                    _ => vec!["}", ")", "]"],
                };
                match t.below(3) {
                    0 => (" ".into(), "bracket deleted"),
                    1 => (format!("{old}{old}"), "bracket repeated"),
                    _ => {
                        let o = *t.pick(&other);
                        if o == old {
                            continue;
                        }
                        (o.to_string(), "bracket exchanged")
                    }
                }
            }
            Tok::Assign => {
                if t.chance(1, 2) {
                    (" : ".into(), "assignment exchanged")
                } else {
                    (format!("{old}{old}"), "assignment repeated")
                }
            }
            Tok::Connector(n) => {
                if n > 1 && t.chance(2, 3) {
                    let o = *t.pick(&[",", "&", "|"]);
                    if o == old {
                        continue;
                    }
                    (o.to_string(), "operators mixed")
                } else {
                    (format!("{old} {old}"), "operator repeated")
                }
            }
            Tok::Postfix => (format!("{old} {}", t.pick(&["?", "*", "+"])), "repetition repeated"),
            Tok::Name => (" ".into(), "name deleted"),
            Tok::Literal => (t.pick(&["zz", "text", "[]", "~ 'a'"]).to_string(), "literal exchanged"),
            Tok::Defined | Tok::Ref => {
                let w = *t.pick(&["default", "datatypes", "div", "mixed", "namespace", "list"]);
                (w.to_string(), if k == Tok::Ref { "keyword for reference" } else { "keyword for definition" })
            }
            Tok::Except => (t.pick(&["?", "*", "+", ", text", "| text", "& text"]).to_string(), "operator behind exception"),
        };
        let bad = format!("{}{new}{}", &text[..a], &text[b..]);
        cx.note(format!("{bad}\n---- made by: {what} at {a}..{b} ({old:?}), from\n{text}"));
        cx.eval();
        cx.class(what);
        if parse(&bad).is_ok() {
            return Err(format!("a text which is not a schema is accepted ({what})"));
        }
        if big {
            cx.nontrivial(&bad);
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    for bad in [
        "element",
        "element a",
        "element a {",
        "element a { }",
        "element a { text",
        "element a { text } }",
        "a, b | c",
        "(a, b & c)",
        "a**",
        "a +?",
        "xsd:int - \"1\" | a",
        "start",
        "start =",
        "a = b c = ",
        "text = a",
        "grammar { start = a",
        "include",
        "\"abc",
        "'abc\n'",
        "\"\\x{110000}\"",
        "\"\\x{zz}\"",
        "namespace = \"x\" a",
        "default namespace a",
        "datatypes d = inherit a",
        "parent",
        "external a",
        "a = b [",
        "[ a ] b",
        "a ]",
        "list { }",
        "( )",
        "a:",
        ":a",
        "\\",
        "* ",
    ] {
        cx.note(bad.to_string());
        cx.eval();
        if parse(bad).is_ok() {
            return Err("a text which is not a schema is accepted".into());
        }
    }
    let id = |a: usize, s: &str| Pattern::Identifier(Identifier(a..a + s.len(), s.into()));
    let pat = |p: Pattern| Schema { decls: vec![], pattern_or_grammar: PatternOrGrammar::Pattern(p) };
    for (text, want) in [
        ("a", pat(id(0, "a"))),
        ("strings", pat(id(0, "strings"))),
        ("token.x", pat(id(0, "token.x"))),
        ("\\text", pat(Pattern::Identifier(Identifier(0..5, "text".into())))),
        ("\\start", pat(Pattern::Identifier(Identifier(0..6, "\\start".into())))),
        ("'\\x{41}b' ~ '\\x'", pat(Pattern::DatatypeValue(DatatypeValuePattern(None, Literal(0..16, vec![LiteralSegment { body: "Ab".into() }, LiteralSegment { body: "\\x".into() }]))))),
        ("\u{feff}(a)", pat(Pattern::Group(Box::new(id(4, "a"))))),
        ("", Schema { decls: vec![], pattern_or_grammar: PatternOrGrammar::Grammar(GrammarPattern { span: 0..0, content: vec![] }) }),
    ] {
        cx.note(text.to_string());
        cx.eval();
        same(text, want)?;
    }
    Ok(())
}
