//! C25: the compact syntax parser accepts what the grammar of the compact syntax allows, and
//! returns it, wherever tokens are written without anything between them.
//!
//! A sequence of tokens is generated production by production, edited, written with varying
//! separators, and judged by a reader of the grammar which also builds the tree to be returned.

use super::c23;
use crate::dt;
use crate::runner::{CaseResult, Cx, Prop};
use crate::tape::Tape;
use relaxng_syntax::types::*;
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C25",
    tape_len: 700,
    quick: 700000,
    thorough: 14000000,
    run,
    fixed,
    rule: "distinct texts of at least 12 tokens, of which the grammar decides whether they are schemas",
    assumptions: &[
        "escapes occur in literals only, `##` comments are comments (both documented by the parser)",
        "not judged: exceptions combined with `|` or nested without parentheses, an exception as an operand but the first, unprefixed attributes in initial annotations, \
         annotation elements behind an initial annotation, repeated attributes in annotations",
        "the spans of the name `start`, of the outermost grammar and of initial annotations are not compared",
    ],
    known: &[],
    shrink_iters: 4000,
};

const KEYWORDS: &[&str] = &[
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start", "string", "text",
    "token",
];
const WORDS: &[&str] = &[
    "a", "b", "c", "foo", "_", "é", "a-b", "a.1", "a-", "名", "z0", "xsd", "inheritfoo", "inherit-x", "emptyx", "textual", "startx", "elements", "list-a", "tokens", "stringy", "string.a",
    "divide", "parents", "includes", "external.x", "defaults", "grammars", "notallowed", "Start", "namespaces", "datatype", "x\u{b7}", "\u{10000}b",
];
const BAD: &[&str] = &[
    ";", ":", "a:", ":a", "a:b:c", "@", "\\", "\\1", "\\ a", "!", "<", ">", "1a", "1", "/", ".", "%", "$", "^", "`", "×", "÷a", "·", "\u{a0}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{3000}",
    "a\u{a0}b", "a: b", "a :b", "a: *", "a :*", "\"a\nb\"", "'a\rb'", "\"a\r\nb\"", "\"\\x{110000}\"", "\"\\x{zz}\"", "'\\x{}'", "'\\x{+41}'", "\"\\x{d800}\"", "'a\\x{1}'",
    "\"\\xx{0}\"", "'\\x{fffe}'", "\"a\u{1}\"", "'\u{ffff}'", "\"\"\"\u{c}\"\"\"", "'''a\u{0}'''", "=>", "\\a:b", "a:\\b", "\\*", "a\u{1}", "-1", "// c", "'\\x{-41}'", "'\\x{ 41}'", "\"\\x{4_1}\"",
];
const SYMS: &[&str] = &["?", "*", "+", ",", "&", "|", "(", ")", "{", "}", "[", "]", "=", "|=", "&=", "-", "~", ">>"];
const BODIES: &[&str] = &["", "a", "x y", "1", "http://www.w3.org/2001/XMLSchema-datatypes", "urn:x", "é#", "{[(", "\u{10000}", "a.rnc", "\t"];

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),
    Quoted(String),
    CName(String, String),
    Ns(String),
    /// as written, and its value
    Lit(String, String),
    Sym(&'static str),
    Bad(String),
}

impl T {
    fn text(&self) -> String {
        match self {
            T::Word(s) | T::Bad(s) => s.clone(),
            T::Quoted(s) => format!("\\{s}"),
            T::CName(a, b) => format!("{a}:{b}"),
            T::Ns(a) => format!("{a}:*"),
            T::Lit(a, _) => a.clone(),
            T::Sym(s) => s.to_string(),
        }
    }
    fn keyword(&self) -> Option<&str> {
        match self {
            T::Word(s) if KEYWORDS.contains(&s.as_str()) => Some(s),
            _ => None,
        }
    }
    fn identifier(&self) -> bool {
        matches!(self, T::Word(_) | T::Quoted(_)) && self.keyword().is_none()
    }
}

// ------------------------------------------------------------------ generator

struct G<'a, 'b> {
    t: &'a mut Tape<'b>,
    out: Vec<T>,
    budget: i32,
}

impl G<'_, '_> {
    fn s(&mut self, s: &'static str) {
        self.out.push(T::Sym(s))
    }
    fn k(&mut self, s: &str) {
        self.out.push(T::Word(s.into()))
    }
    fn word(&mut self) -> String {
        match self.t.below(4) {
            0 if self.t.chance(1, 4) => dt::edge_name(self.t, true),
            1 if self.t.chance(1, 4) => {
                let k = *self.t.pick(KEYWORDS);
                dt::longer_name(self.t, k)
            }
            0 | 1 => self.t.pick(&WORDS[..4]).to_string(),
            2 => self.t.pick(WORDS).to_string(),
            _ => self.t.pick(KEYWORDS).to_string(),
        }
    }
    fn id(&mut self) {
        let w = self.word();
        let quote = KEYWORDS.contains(&w.as_str()) || self.t.chance(1, 8);
        self.out.push(if quote { T::Quoted(w) } else { T::Word(w) })
    }
    fn id_or_keyword(&mut self) {
        let w = self.word();
        let quote = self.t.chance(1, 8);
        self.out.push(if quote { T::Quoted(w) } else { T::Word(w) })
    }
    fn cname(&mut self) {
        let (a, b) = (self.word(), self.word());
        self.out.push(T::CName(a, b))
    }
    fn lit_token(&mut self) -> T {
        let q = *self.t.pick(&["\"", "'"]);
        let triple = self.t.chance(1, 4);
        let mut raw = String::new();
        let mut body = String::new();
        for _ in 0..self.t.range(1, 2) {
            match self.t.below(if triple { 8 } else { 6 }) {
                0..=3 => {
                    let b = *self.t.pick(BODIES);
                    raw.push_str(b);
                    body.push_str(b)
                }
                4 => {
                    let (r, b) = *self.t.pick(&[("\\x{41}", "A"), ("\\xx{e9}", "é"), ("\\x{000A}", "\n"), ("\\x{9}", "\t"), ("\\", "\\"), ("\\x", "\\x"), ("\\x{1F600}", "\u{1F600}"), ("\\y{41}", "\\y{41}"), ("\\x{20}", " "), ("\\x{d}", "\r")]);
                    // an escape is not made out of two pieces
                    raw.push_str(r);
                    body.push_str(b);
                    if r.starts_with("\\") && !r.ends_with('}') {
                        raw.push('.');
                        body.push('.');
                    }
                }
                5 => {
                    let other = if q == "'" { "\"" } else { "'" };
                    raw.push_str(other);
                    body.push_str(other)
                }
                6 => {
                    let (r, b) = *self.t.pick(&[("\n", "\n"), ("\r\n", "\n"), ("\r", "\n"), ("\n\n", "\n\n"), ("\n\r", "\n\n")]);
                    raw.push_str(r);
                    raw.push('.');
                    body.push_str(b);
                    body.push('.')
                }
                _ => {
                    raw.push_str(q);
                    raw.push('.');
                    body.push_str(q);
                    body.push('.')
                }
            }
        }
        let n = if triple { 3 } else { 1 };
        T::Lit(format!("{}{raw}{}", q.repeat(n), q.repeat(n)), body)
    }
    fn lit(&mut self) {
        let l = self.lit_token();
        self.out.push(l);
        while self.t.chance(1, 6) {
            self.s("~");
            let l = self.lit_token();
            self.out.push(l);
        }
    }
    fn schema(&mut self) {
        for _ in 0..self.t.below(4) {
            self.decl()
        }
        if self.t.chance(1, 2) {
            for _ in 0..self.t.below(5) {
                self.member(false)
            }
        } else {
            self.pattern()
        }
    }
    fn decl(&mut self) {
        match self.t.below(3) {
            0 => {
                self.k("namespace");
                self.id_or_keyword()
            }
            1 => {
                self.k("default");
                self.k("namespace");
                if self.t.chance(1, 2) {
                    self.id_or_keyword()
                }
            }
            _ => {
                self.k("datatypes");
                self.id_or_keyword();
                self.s("=");
                return self.lit();
            }
        }
        self.s("=");
        if self.t.chance(1, 3) { self.k("inherit") } else { self.lit() }
    }
    fn member(&mut self, included: bool) {
        self.budget -= 1;
        let start = self.out.len();
        self.lead();
        let annotated = self.out.len() > start;
        match self.t.below(8) {
            0 | 1 => {
                self.id();
                self.assign()
            }
            2 => {
                self.k("start");
                self.assign()
            }
            3 if self.budget > 0 => {
                self.k("div");
                self.s("{");
                for _ in 0..self.t.below(4) {
                    self.member(included)
                }
                self.s("}")
            }
            4 | 5 if !included && self.budget > 0 => {
                self.k("include");
                self.lit();
                self.inherit();
                if self.t.chance(1, 2) {
                    self.s("{");
                    for _ in 0..self.t.below(4) {
                        self.member(true)
                    }
                    self.s("}")
                }
            }
            6 if !annotated => {
                if self.t.chance(1, 2) { self.id() } else { self.cname() }
                self.brackets()
            }
            _ => {
                self.id();
                self.assign()
            }
        }
    }
    fn assign(&mut self) {
        let s = *self.t.pick(&["=", "|=", "&="]);
        self.s(s);
        self.pattern()
    }
    fn inherit(&mut self) {
        if self.t.chance(1, 3) {
            self.k("inherit");
            self.s("=");
            self.id_or_keyword()
        }
    }
    fn lead(&mut self) {
        if !self.t.chance(1, 6) {
            return;
        }
        self.s("[");
        for _ in 0..self.t.below(3) {
            self.cname();
            self.s("=");
            self.lit()
        }
        for _ in 0..self.t.below(3) {
            self.element()
        }
        self.s("]")
    }
    fn element(&mut self) {
        if self.t.chance(1, 2) { self.cname() } else { self.id_or_keyword() }
        self.brackets()
    }
    fn brackets(&mut self) {
        self.budget -= 1;
        self.s("[");
        for _ in 0..self.t.below(3) {
            if self.t.chance(1, 2) { self.cname() } else { self.id_or_keyword() }
            self.s("=");
            self.lit()
        }
        for _ in 0..self.t.below(3) {
            if self.budget > 0 && self.t.chance(1, 2) { self.element() } else { self.lit() }
        }
        self.s("]")
    }
    fn follow(&mut self) {
        while self.t.chance(1, 14) {
            self.s(">>");
            self.element()
        }
    }
    fn pattern(&mut self) {
        let n = if self.budget <= 0 { 1 } else { [1, 1, 2, 3][self.t.below(4)] };
        let op = *self.t.pick(&[",", "&", "|"]);
        for i in 0..n {
            if i > 0 {
                self.s(op)
            }
            let except = self.primary(n == 1);
            if !except && self.t.chance(1, 4) {
                let r = *self.t.pick(&["?", "*", "+"]);
                self.s(r);
                self.follow()
            }
        }
    }
    fn braces(&mut self) {
        self.s("{");
        self.pattern();
        self.s("}")
    }
    /// whether it has an exception
    fn primary(&mut self, may_except: bool) -> bool {
        self.budget -= 1;
        self.lead();
        let mut except = false;
        match self.t.below(if self.budget > 0 { 17 } else { 8 }) {
            0 => self.id(),
            1 => self.k("empty"),
            2 => self.k("text"),
            3 => self.lit(),
            4 => {
                self.datatype();
                self.lit()
            }
            5 => self.datatype(),
            6 => {
                self.k("parent");
                self.id()
            }
            7 => self.k("notAllowed"),
            8 => {
                self.k("external");
                self.lit();
                self.inherit()
            }
            9 => {
                self.k("grammar");
                self.s("{");
                for _ in 0..self.t.below(4) {
                    self.member(false)
                }
                self.s("}")
            }
            10 => {
                self.s("(");
                self.pattern();
                self.s(")")
            }
            11 => {
                let k = *self.t.pick(&["list", "mixed"]);
                self.k(k);
                self.braces()
            }
            12 | 13 => {
                self.datatype();
                if self.t.chance(2, 3) {
                    self.s("{");
                    for _ in 0..self.t.below(4) {
                        self.lead();
                        self.id_or_keyword();
                        self.s("=");
                        self.lit()
                    }
                    self.s("}")
                }
                if may_except && self.t.chance(1, 2) {
                    self.s("-");
                    self.primary(false);
                    except = true
                }
            }
            _ => {
                let k = *self.t.pick(&["element", "attribute"]);
                self.k(k);
                self.name_class();
                self.braces()
            }
        }
        self.follow();
        except
    }
    fn datatype(&mut self) {
        match self.t.below(3) {
            0 => self.cname(),
            1 => self.k("string"),
            _ => self.k("token"),
        }
    }
    fn name_class(&mut self) {
        self.budget -= 1;
        let n = if self.budget <= 0 { 1 } else { [1, 1, 1, 2, 3][self.t.below(5)] };
        for i in 0..n {
            if i > 0 {
                self.s("|")
            }
            self.simple_name_class(n == 1)
        }
    }
    fn simple_name_class(&mut self, may_except: bool) {
        self.budget -= 1;
        self.lead();
        match self.t.below(if self.budget > 0 { 7 } else { 4 }) {
            0 | 1 => self.id_or_keyword(),
            2 | 3 => self.cname(),
            4 => {
                self.s("(");
                self.name_class();
                self.s(")")
            }
            n => {
                if n == 5 {
                    self.s("*")
                } else {
                    let w = self.word();
                    self.out.push(T::Ns(w))
                }
                if may_except && self.t.chance(1, 2) {
                    self.s("-");
                    self.simple_name_class(false)
                }
            }
        }
        self.follow()
    }
    fn any_token(&mut self) -> T {
        match self.t.below(9) {
            0..=2 => T::Sym(self.t.pick(SYMS)),
            3 => T::Word(self.t.pick(WORDS).to_string()),
            4 => T::Word(self.t.pick(KEYWORDS).to_string()),
            5 => T::Quoted(self.word()),
            6 => T::CName(self.word(), self.word()),
            7 => {
                if self.t.chance(1, 3) {
                    T::Ns(self.word())
                } else {
                    self.lit_token()
                }
            }
            _ if self.t.chance(1, 8) => T::Bad(dt::edge_name(self.t, false)),
            _ => T::Bad(self.t.pick(BAD).to_string()),
        }
    }
    fn edit(&mut self) {
        let n = self.out.len();
        let i = self.t.below(n + 1);
        match self.t.below(8) {
            0 => {
                if i < n {
                    self.out.remove(i);
                }
            }
            1 => {
                let x = self.any_token();
                self.out.insert(i, x)
            }
            2 | 3 => {
                if i < n {
                    self.out[i] = self.any_token()
                }
            }
            4 => {
                if i + 1 < n {
                    self.out.swap(i, i + 1)
                }
            }
            5 => {
                // a slice repeated elsewhere
                let j = (i + self.t.range(1, 8)).min(n);
                let s: Vec<T> = self.out[i..j].to_vec();
                let at = self.t.below(n + 1);
                self.out.splice(at..at, s);
            }
            6 => {
                let j = (i + self.t.range(1, 6)).min(n);
                self.out.drain(i..j);
            }
            _ => {
                // a bracket or operator exchanged for one alike
                let alike: &[&[&'static str]] = &[&["{", "(", "["], &["}", ")", "]"], &[",", "&", "|", "~", "-"], &["=", "|=", "&="], &["?", "*", "+"]];
                let places: Vec<usize> = (0..n).filter(|i| matches!(&self.out[*i], T::Sym(s) if alike.iter().any(|a| a.contains(s)))).collect();
                if !places.is_empty() {
                    let p = *self.t.pick(&places);
                    if let T::Sym(s) = self.out[p] {
                        let set = alike.iter().find(|a| a.contains(&s)).unwrap();
                        self.out[p] = T::Sym(self.t.pick(set))
                    }
                }
            }
        }
    }
}

/// whether something has to stand between two tokens
fn apart(a: &T, b: &T) -> bool {
    let name_end = matches!(a, T::Word(_) | T::Quoted(_) | T::CName(..));
    match (a, b) {
        (T::Bad(_), _) | (_, T::Bad(_)) => true,
        (_, T::Word(_) | T::CName(..) | T::Ns(_) | T::Sym("-")) if name_end => true,
        (T::Sym("|" | "&"), T::Sym("=")) => true,
        (T::Lit(x, _), T::Lit(y, _)) => x[..1] == y[..1] && [x, y].iter().any(|s| s.len() == 2 || s.starts_with("\"\"\"") || s.starts_with("'''")),
        _ => false,
    }
}

fn print(toks: &[T], t: &mut Tape) -> (String, Vec<Range<usize>>) {
    let mode = t.below(4);
    let mut out = String::new();
    let mut at = vec![];
    if t.chance(1, 20) {
        out.push('\u{feff}')
    }
    for (i, x) in toks.iter().enumerate() {
        let need = i > 0 && apart(&toks[i - 1], x);
        let sep = match mode {
            0 => "",
            1 => " ",
            2 if t.chance(3, 4) => "",
            _ => *t.pick(&[" ", "\n", "\t", "\r\n", "# c\n", "\r", "#\r", " # element {\"\r\n", "  ", "\n#c\n#d\n "]),
        };
        let sep = if sep.is_empty() && need { " " } else { sep };
        // a comment at the end of a `##` would be one for documentation
        out.push_str(sep);
        let start = out.len();
        out.push_str(&x.text());
        at.push(start..out.len());
    }
    if mode == 3 {
        out.push_str(t.pick(&["", " ", "\n", "# c", "#", "\r\n"]))
    }
    (out, at)
}

// ------------------------------------------------------------------ reader of the grammar

struct Bad;
type R<X> = Result<X, Bad>;

struct Reader<'a> {
    toks: &'a [T],
    at: &'a [Range<usize>],
    i: usize,
    unsure: bool,
}

impl Reader<'_> {
    fn peek(&self) -> Option<&T> {
        self.toks.get(self.i)
    }
    fn nth(&self, n: usize) -> Option<&T> {
        self.toks.get(self.i + n)
    }
    fn is(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Sym(x)) if *x == s)
    }
    fn is_kw(&self, s: &str) -> bool {
        self.peek().and_then(|t| t.keyword()) == Some(s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        self.i += y as usize;
        y
    }
    fn eat_kw(&mut self, s: &str) -> bool {
        let y = self.is_kw(s);
        self.i += y as usize;
        y
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.eat(s) { Ok(()) } else { Err(Bad) }
    }
    fn start(&self) -> usize {
        self.at.get(self.i).map_or(0, |r| r.start)
    }
    fn end(&self) -> usize {
        self.at[self.i - 1].end
    }
    fn identifier(&mut self) -> R<Identifier> {
        match self.peek() {
            Some(t) if t.identifier() => {
                let (T::Word(s) | T::Quoted(s)) = t else { unreachable!() };
                let id = Identifier(self.at[self.i].clone(), s.clone());
                self.i += 1;
                Ok(id)
            }
            _ => Err(Bad),
        }
    }
    fn definition_name(&mut self) -> R<Identifier> {
        let Identifier(r, s) = self.identifier()?;
        Ok(Identifier(r, if s == "start" { "\\start".into() } else { s }))
    }
    fn identifier_or_keyword(&mut self) -> R<IdentifierOrKeyword> {
        if let Some(k) = self.peek().and_then(|t| t.keyword()) {
            let k = Keyword(self.at[self.i].clone(), k.to_string());
            self.i += 1;
            return Ok(IdentifierOrKeyword::Keyword(k));
        }
        Ok(IdentifierOrKeyword::Identifier(self.identifier()?))
    }
    fn literal(&mut self) -> R<Literal> {
        let start = self.start();
        let mut v = vec![];
        loop {
            match self.peek() {
                Some(T::Lit(_, body)) => v.push(LiteralSegment { body: body.clone() }),
                _ => return Err(Bad),
            }
            self.i += 1;
            if !self.eat("~") {
                return Ok(Literal(start..self.end(), v));
            }
        }
    }
    fn nc(&self, k: usize, from: usize, s: &str) -> NcName {
        let a = self.at[k].start + from;
        NcName(a..a + s.len(), s.to_string())
    }
    fn schema(&mut self) -> R<Schema> {
        if self.toks.iter().any(|t| matches!(t, T::Bad(_))) {
            return Err(Bad);
        }
        let mut decls = vec![];
        loop {
            if self.eat_kw("namespace") {
                let prefix = self.identifier_or_keyword()?.to_string();
                self.need("=")?;
                decls.push(Decl::Namespace(NamespaceDeclaration { prefix, uri: self.uri()? }))
            } else if self.eat_kw("default") {
                if !self.eat_kw("namespace") {
                    return Err(Bad);
                }
                let prefix = if self.is("=") { None } else { Some(self.identifier_or_keyword()?.to_string()) };
                self.need("=")?;
                decls.push(Decl::DefaultNamespace(DefaultNamespaceDeclaration { prefix, uri: self.uri()? }))
            } else if self.eat_kw("datatypes") {
                let prefix = self.identifier_or_keyword()?.to_string();
                self.need("=")?;
                decls.push(Decl::Datatypes(DatatypesDeclaration { prefix, uri: self.literal()? }))
            } else {
                break;
            }
        }
        let pattern_or_grammar = if self.at_member() {
            PatternOrGrammar::Grammar(GrammarPattern { span: 0..0, content: self.members()? })
        } else {
            PatternOrGrammar::Pattern(self.pattern()?)
        };
        if self.i < self.toks.len() {
            return Err(Bad);
        }
        Ok(Schema { decls, pattern_or_grammar })
    }
    fn uri(&mut self) -> R<NamespaceUriLiteral> {
        if self.eat_kw("inherit") {
            return Ok(NamespaceUriLiteral::Inherit);
        }
        Ok(NamespaceUriLiteral::Uri(self.literal()?))
    }
    /// whether grammar content, or nothing, is next
    fn at_member(&self) -> bool {
        let mut n = 0;
        if self.is("[") {
            let mut depth = 0;
            loop {
                match self.nth(n) {
                    Some(T::Sym("[")) => depth += 1,
                    Some(T::Sym("]")) => depth -= 1,
                    None => return true,
                    _ => {}
                }
                n += 1;
                if depth == 0 {
                    break;
                }
            }
        }
        let Some(t) = self.nth(n) else { return true };
        let next = self.nth(n + 1);
        matches!(t.keyword(), Some("start" | "div" | "include"))
            || t.identifier() && matches!(next, Some(T::Sym("=" | "|=" | "&=" | "[")))
            || matches!(t, T::CName(..)) && matches!(next, Some(T::Sym("[")))
    }
    fn members(&mut self) -> R<Vec<GrammarContent>> {
        let mut v = vec![];
        while self.peek().is_some() && !self.is("}") {
            let annotated = self.is("[");
            self.lead()?;
            v.push(if self.eat_kw("div") {
                self.need("{")?;
                let m = self.members()?;
                self.need("}")?;
                GrammarContent::Div(m)
            } else if self.eat_kw("include") {
                let href = self.literal()?;
                let inherit = self.inherit()?;
                let mut content = None;
                if self.eat("{") {
                    content = Some(self.included()?);
                    self.need("}")?;
                }
                GrammarContent::Include(Include(href, inherit, content))
            } else if let Some(a) = self.annotation(annotated)? {
                GrammarContent::Annotation(a)
            } else {
                GrammarContent::Define(self.define()?)
            })
        }
        Ok(v)
    }
    fn included(&mut self) -> R<Vec<IncludeContent>> {
        let mut v = vec![];
        while self.peek().is_some() && !self.is("}") {
            let annotated = self.is("[");
            self.lead()?;
            v.push(if self.eat_kw("div") {
                self.need("{")?;
                let m = self.included()?;
                self.need("}")?;
                IncludeContent::Div(m)
            } else if let Some(a) = self.annotation(annotated)? {
                IncludeContent::Annotation(a)
            } else {
                IncludeContent::Define(self.define()?)
            })
        }
        Ok(v)
    }
    fn annotation(&mut self, annotated: bool) -> R<Option<AnnotationElement>> {
        match (self.peek(), self.nth(1)) {
            (Some(t), Some(T::Sym("["))) if t.identifier() || matches!(t, T::CName(..)) => {
                self.unsure |= annotated;
                Ok(Some(self.annotation_element()?))
            }
            _ => Ok(None),
        }
    }
    fn define(&mut self) -> R<Define> {
        let start = self.start();
        let name = if self.eat_kw("start") { Identifier(0..0, "start".into()) } else { self.definition_name()? };
        let method = match self.peek() {
            Some(T::Sym("=")) => AssignMethod::Assign,
            Some(T::Sym("|=")) => AssignMethod::Choice,
            Some(T::Sym("&=")) => AssignMethod::Interleave,
            _ => return Err(Bad),
        };
        self.i += 1;
        let p = self.pattern()?;
        Ok(Define(start..self.end(), name, method, p))
    }
    fn inherit(&mut self) -> R<Option<Inherit>> {
        if !self.eat_kw("inherit") {
            return Ok(None);
        }
        self.need("=")?;
        Ok(Some(Inherit::Prefix(self.identifier_or_keyword()?)))
    }
    fn name(&mut self) -> R<Name> {
        if let Some(T::CName(a, b)) = self.peek() {
            let q = QName(self.nc(self.i, 0, a), self.nc(self.i, a.len() + 1, b));
            self.i += 1;
            return Ok(Name::CName(q));
        }
        Ok(Name::Identifier(self.identifier_or_keyword()?))
    }
    fn attributes(&mut self, initial: bool) -> R<Vec<AnnotationAttribute>> {
        let mut v: Vec<AnnotationAttribute> = vec![];
        while matches!(self.nth(1), Some(T::Sym("="))) {
            let name = self.name()?;
            self.need("=")?;
            let value = self.literal()?;
            let text = |n: &Name| match n {
                Name::CName(q) => format!("{}:{}", q.0.1, q.1.1),
                Name::Identifier(i) => i.to_string(),
                _ => String::new(),
            };
            self.unsure |= v.iter().any(|a| text(&a.name) == text(&name)) || initial && matches!(name, Name::Identifier(_));
            v.push(AnnotationAttribute { span: name.span().start..value.0.end, name, value })
        }
        Ok(v)
    }
    fn lead(&mut self) -> R<Option<InitialAnnotation>> {
        let start = self.start();
        if !self.eat("[") {
            return Ok(None);
        }
        let attribute_annotations = self.attributes(true)?;
        let mut element_annotations = vec![];
        while !self.eat("]") {
            element_annotations.push(self.annotation_element()?)
        }
        Ok(Some(InitialAnnotation { span: start..self.end(), attribute_annotations, element_annotations }))
    }
    fn annotation_element(&mut self) -> R<AnnotationElement> {
        let name = self.name()?;
        self.need("[")?;
        let annotation_attributes = self.attributes(false)?;
        let mut content = vec![];
        while !self.eat("]") {
            content.push(match self.peek() {
                Some(T::Lit(..)) => AnnotationElementOrLiteral::Literal(self.literal()?),
                _ => AnnotationElementOrLiteral::Element(self.annotation_element()?),
            })
        }
        Ok(AnnotationElement { span: name.span().start..self.end(), name, annotation_attributes, annotation_elements_or_literals: content })
    }
    fn follow(&mut self) -> R<()> {
        while self.eat(">>") {
            self.annotation_element()?;
        }
        Ok(())
    }
    fn pattern(&mut self) -> R<Pattern> {
        let first = self.particle()?;
        let pair: fn(Box<Pattern>, Box<Pattern>) -> Pattern = match self.peek() {
            Some(T::Sym(",")) => Pattern::ListPair,
            Some(T::Sym("&")) => Pattern::InterleavePair,
            Some(T::Sym("|")) => Pattern::ChoicePair,
            _ => return Ok(first),
        };
        if is_except(&first) {
            return Err(Bad);
        }
        let op = self.toks[self.i].clone();
        let mut v = vec![first];
        while self.peek() == Some(&op) {
            self.i += 1;
            let p = self.particle()?;
            self.unsure |= is_except(&p);
            v.push(p)
        }
        let last = v.pop().unwrap();
        Ok(v.into_iter().rfold(last, |r, l| pair(Box::new(l), Box::new(r))))
    }
    fn particle(&mut self) -> R<Pattern> {
        let p = self.primary()?;
        let except = is_except(&p);
        let wrap: fn(Box<Pattern>) -> Pattern = match self.peek() {
            Some(T::Sym("?")) => Pattern::Optional,
            Some(T::Sym("*")) => Pattern::ZeroOrMore,
            Some(T::Sym("+")) => Pattern::OneOrMore,
            _ => return Ok(p),
        };
        if except {
            return Err(Bad);
        }
        self.i += 1;
        self.follow()?;
        Ok(wrap(Box::new(p)))
    }
    fn braces(&mut self) -> R<Box<Pattern>> {
        self.need("{")?;
        let p = self.pattern()?;
        self.need("}")?;
        Ok(Box::new(p))
    }
    fn primary(&mut self) -> R<Pattern> {
        self.lead()?;
        let p = self.bare()?;
        self.follow()?;
        Ok(p)
    }
    fn bare(&mut self) -> R<Pattern> {
        let start = self.start();
        let k = self.peek().and_then(|t| t.keyword()).map(|s| s.to_string());
        if let Some(k) = k {
            self.i += 1;
            return Ok(match k.as_str() {
                "element" => {
                    let name_class = self.name_class()?;
                    let pattern = self.braces()?;
                    Pattern::Element(ElementPattern { span: start..self.end(), name_class, pattern })
                }
                "attribute" => {
                    let name_class = self.name_class()?;
                    let pattern = self.braces()?;
                    Pattern::Attribute(AttributePattern { span: start..self.end(), name_class, pattern })
                }
                "list" => Pattern::List(ListPattern(self.braces()?)),
                "mixed" => Pattern::Mixed(MixedPattern(self.braces()?)),
                "parent" => Pattern::Parent(self.definition_name()?),
                "empty" => Pattern::Empty,
                "text" => Pattern::Text,
                "notAllowed" => Pattern::NotAllowed,
                "external" => {
                    let l = self.literal()?;
                    Pattern::External(ExternalPattern(l, self.inherit()?))
                }
                "grammar" => {
                    self.need("{")?;
                    let content = self.members()?;
                    self.need("}")?;
                    Pattern::Grammar(GrammarPattern { span: start..self.end(), content })
                }
                "string" => self.data(DatatypeName::String)?,
                "token" => self.data(DatatypeName::Token)?,
                _ => return Err(Bad),
            });
        }
        match self.peek() {
            Some(T::CName(a, b)) => {
                let q = QName(self.nc(self.i, 0, a), self.nc(self.i, a.len() + 1, b));
                self.i += 1;
                self.data(DatatypeName::CName(q))
            }
            Some(T::Lit(..)) => Ok(Pattern::DatatypeValue(DatatypeValuePattern(None, self.literal()?))),
            Some(T::Sym("(")) => {
                self.i += 1;
                let p = self.pattern()?;
                self.need(")")?;
                Ok(Pattern::Group(Box::new(p)))
            }
            _ => Ok(Pattern::Identifier(self.definition_name()?)),
        }
    }
    fn data(&mut self, name: DatatypeName) -> R<Pattern> {
        if matches!(self.peek(), Some(T::Lit(..))) {
            return Ok(Pattern::DatatypeValue(DatatypeValuePattern(Some(name), self.literal()?)));
        }
        let mut params = None;
        if self.eat("{") {
            let mut v = vec![];
            while !self.eat("}") {
                let start = self.start();
                let lead = self.lead()?;
                let id = self.identifier_or_keyword()?;
                self.need("=")?;
                let l = self.literal()?;
                v.push(Param(start..self.end(), lead, id, l))
            }
            params = Some(v)
        }
        let mut except = None;
        if self.eat("-") {
            let p = self.primary()?;
            self.unsure |= is_except(&p);
            except = Some(Box::new(p))
        }
        Ok(Pattern::DatatypeName(DatatypeNamePattern(name, params, except)))
    }
    fn name_class(&mut self) -> R<NameClass> {
        let (first, except) = self.simple_name_class()?;
        let mut v = vec![first];
        let mut any = except;
        while self.eat("|") {
            let (n, except) = self.simple_name_class()?;
            any |= except;
            v.push(n)
        }
        self.unsure |= any && v.len() > 1;
        let last = v.pop().unwrap();
        Ok(v.into_iter().rfold(last, |r, l| NameClass::Alt(AltName(Box::new(l), Box::new(r)))))
    }
    /// and whether it has an exception
    fn simple_name_class(&mut self) -> R<(NameClass, bool)> {
        self.lead()?;
        let mut except = None;
        let n = match self.peek() {
            Some(T::Sym("(")) => {
                self.i += 1;
                let n = self.name_class()?;
                self.need(")")?;
                NameClass::Paren(ParenName(Box::new(n)))
            }
            Some(T::Sym("*")) => {
                self.i += 1;
                except = self.name_except()?;
                NameClass::AnyName(AnyName(None))
            }
            Some(T::Ns(p)) => {
                let name = NamespaceOrPrefix::Prefix(self.nc(self.i, 0, p));
                self.i += 1;
                except = self.name_except()?;
                NameClass::NsName(NsName { name, except: None })
            }
            _ => NameClass::Name(self.name()?),
        };
        let has = except.is_some();
        let n = match n {
            NameClass::AnyName(_) => NameClass::AnyName(AnyName(except)),
            NameClass::NsName(n) => NameClass::NsName(NsName { name: n.name, except }),
            n => n,
        };
        self.follow()?;
        Ok((n, has))
    }
    fn name_except(&mut self) -> R<Option<Box<NameClass>>> {
        if !self.eat("-") {
            return Ok(None);
        }
        let (n, nested) = self.simple_name_class()?;
        self.unsure |= nested;
        Ok(Some(Box::new(n)))
    }
}

fn is_except(p: &Pattern) -> bool {
    matches!(p, Pattern::DatatypeName(DatatypeNamePattern(_, _, Some(_))))
}

// ------------------------------------------------------------------ check

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let budget = t.range(2, 30) as i32;
    let mut g = G { t, out: vec![], budget };
    g.schema();
    let edits = [0, 0, 1, 1, 2][g.t.below(5)];
    for _ in 0..edits {
        g.edit()
    }
    let toks = g.out;
    for _ in 0..2 {
        let (text, at) = print(&toks, t);
        cx.note(text.clone());
        let mut r = Reader { toks: &toks, at: &at, i: 0, unsure: false };
        let want = r.schema();
        let unsure = r.unsure && !toks.iter().any(|t| matches!(t, T::Bad(_)));
        if unsure {
            let _ = c23::parse(&text);
            cx.class("not judged");
            return Ok(());
        }
        cx.eval();
        match want {
            Ok(want) => {
                cx.class(if edits == 0 { "schema" } else { "schema after edits" });
                c23::same(&text, want)?
            }
            Err(Bad) => {
                cx.class("not a schema");
                if c23::parse(&text).is_ok() {
                    return Err("a text which is not a schema is accepted".into());
                }
            }
        }
        if toks.len() >= 12 {
            cx.nontrivial(&text);
            cx.class_if(at.windows(2).any(|w| w[0].end == w[1].start), "tokens which touch");
            cx.class_if(text.contains('\r'), "carriage return");
            cx.class_if(text.contains('#'), "comment");
            cx.sample(|| text.clone());
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    for good in [
        "a=(b)c=d",
        "start=(a)a=element b{empty}",
        "start=xsd:int{minLength=\"1\"maxLength=\"2\"}",
        "start=external\"a\"b=external'c'inherit=d",
        "parent\\start",
        "include\"a\"include'b'inherit=b{a=(b)\\start=(c)}",
        "namespace\\a=\"b\"namespace b=\"b\"default namespace\\c=\"\"datatypes\\d=\"e\"element*{text}",
        "[a:b=\"1\"c:d=\"2\"e[\"f\"\"g\"h[]i[]]j[]]element a{text}",
        "div{a=(b)div{}div{}}x[]y[]",
        "grammar{a=(b)div{}start=(a)}",
        "default namespace=inherit\\a=b",
        "element\\a{attribute\\b{text}}",
        "a>>b[]>>c[]",
        "# c\ra",
        "a#",
    ] {
        cx.note(good.to_string());
        cx.eval();
        c23::parse(good).map_err(|e| format!("a schema is rejected: {e}"))?;
    }
    for bad in [
        "namespace a = inheritfoo = empty",
        "default namespace = inheritstart = a",
        "namespacea = \"b\" a",
        "defaultnamespace = \"b\" a",
        "datatypesa = \"b\" a",
        "external \"a\" inherita = b",
        "\"a\rb\"",
        "'a\r\nb'",
        "'\\x{+41}'",
        "'\\x{1}'",
        "'\\x{0}'",
        "'\\x{FFFE}'",
        "\"a\u{1}b\"",
        "\"\"\"\u{c}\"\"\"",
        "a\u{c}",
        "a\u{a0}",
        "parent a b",
        "div{}a",
        "x[]a",
    ] {
        cx.note(bad.to_string());
        cx.eval();
        if c23::parse(bad).is_ok() {
            return Err("a text which is not a schema is accepted".into());
        }
    }
    let value = |n: usize, s: &str| Schema {
        decls: vec![],
        pattern_or_grammar: PatternOrGrammar::Pattern(Pattern::DatatypeValue(DatatypeValuePattern(None, Literal(0..n, vec![LiteralSegment { body: s.into() }])))),
    };
    for (text, body) in [("'''a\r\nb'''", "a\nb"), ("\"\"\"\r\r\n\n\"\"\"", "\n\n\n"), ("'a\\x{D}\\x{A}b'", "a\r\nb"), ("'''\"'\\x{9}\n'''", "\"'\t\n")] {
        cx.note(text.to_string());
        cx.eval();
        c23::same(text, value(text.len(), body))?;
    }
    Ok(())
}
