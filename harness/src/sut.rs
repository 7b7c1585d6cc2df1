//! The code under test behind a small interface.

use crate::runner::InLibrary;
use relaxng_model::model::DefineRule;
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use relaxng_validator::{Validator, ValidatorError};
use std::cell::RefCell;
use std::path::{Component, Path, PathBuf};
use std::rc::Rc;
use xmlparser::{Token, Tokenizer};

pub struct MemFs(pub Vec<(String, String)>);

pub fn normalise(p: &Path) -> String {
    let mut out: Vec<String> = vec![];
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => match out.last().map(|s| &s[..]) {
                // nothing is above the root
                Some("") => {}
                Some("..") | None => out.push("..".into()),
                _ => {
                    out.pop();
                }
            },
            Component::Normal(s) => out.push(s.to_string_lossy().to_string()),
            Component::RootDir => out.push(String::new()),
            Component::Prefix(_) => {}
        }
    }
    out.join("/")
}

impl Files for MemFs {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let n = normalise(name);
        self.0.iter().find(|(p, _)| *p == n).map(|(_, t)| t.clone()).ok_or_else(|| {
            RelaxError::Io(name.to_path_buf(), std::io::Error::from(std::io::ErrorKind::NotFound))
        })
    }
}

pub type Schema = Rc<RefCell<Option<DefineRule>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Syn {
    Rnc,
    Rng,
}
impl Syn {
    pub fn ext(self) -> &'static str {
        match self {
            Syn::Rnc => "rnc",
            Syn::Rng => "rng",
        }
    }
}

pub struct Comp {
    pub c: Compiler<MemFs>,
}
impl Comp {
    pub fn new(files: Vec<(String, String)>, syn: Syn) -> Comp {
        Comp {
            c: Compiler::new(
                MemFs(files),
                match syn {
                    Syn::Rnc => Syntax::Compact,
                    Syn::Rng => Syntax::Xml,
                },
            ),
        }
    }
    pub fn compile(&mut self, main: &str) -> Result<Schema, RelaxError> {
        let _g = InLibrary::enter();
        self.c.compile(&PathBuf::from(main))
    }
}

pub fn compile(files: Vec<(String, String)>, syn: Syn) -> Result<Schema, RelaxError> {
    Comp::new(files, syn).compile(&format!("main.{}", syn.ext()))
}
pub fn compile_rnc(text: &str) -> Result<Schema, RelaxError> {
    compile(vec![("main.rnc".into(), text.into())], Syn::Rnc)
}
pub fn compile_rng(text: &str) -> Result<Schema, RelaxError> {
    compile(vec![("main.rng".into(), text.into())], Syn::Rng)
}

/// name of the innermost error variant
pub fn variant(e: &RelaxError) -> String {
    match e {
        RelaxError::IncludeError(_, e) => variant(e),
        e => {
            let s = format!("{e:?}");
            s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
        }
    }
}
/// name of the innermost error variant, with the kind of datatype errors
pub fn kind(e: &RelaxError) -> String {
    use relaxng_model::datatype::{self, relax, xsd};
    match innermost(e) {
        RelaxError::DatatypeError(d) => {
            let s = match d {
                datatype::Errors::UnsupportedDatatypeLibrary { .. } => "UnsupportedDatatypeLibrary",
                datatype::Errors::Relax(relax::Error::ParamNotAllowed { .. }) => "Relax/ParamNotAllowed",
                datatype::Errors::Relax(relax::Error::DatataypeNameUnknown { .. }) => "Relax/DatataypeNameUnknown",
                datatype::Errors::Xsd(xsd::XsdDatatypeError::Facet { facet, .. }) => match facet {
                    xsd::FacetError::ConflictingFacet(_) => "Xsd/Facet/ConflictingFacet",
                    xsd::FacetError::InvalidInt(..) => "Xsd/Facet/InvalidInt",
                    xsd::FacetError::InvalidFloat(..) => "Xsd/Facet/InvalidFloat",
                    xsd::FacetError::InvalidPattern(..) => "Xsd/Facet/InvalidPattern",
                    xsd::FacetError::InvalidFacet(..) => "Xsd/Facet/InvalidFacet",
                },
                datatype::Errors::Xsd(xsd::XsdDatatypeError::UnsupportedDatatype { .. }) => "Xsd/UnsupportedDatatype",
                datatype::Errors::Xsd(xsd::XsdDatatypeError::InvalidValueOfType { .. }) => "Xsd/InvalidValueOfType",
            };
            format!("DatatypeError/{s}")
        }
        e => variant(e),
    }
}
pub fn innermost(e: &RelaxError) -> &RelaxError {
    match e {
        RelaxError::IncludeError(_, e) => innermost(e),
        e => e,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrInfo {
    /// number of validate_next calls that succeeded before
    pub index: usize,
    pub kind: &'static str,
    /// token kind for NotAllowed
    pub token: &'static str,
    /// source range of the construct the error names (for Xml errors: none)
    pub span: Option<(usize, usize)>,
    pub debug: String,
}

pub enum Step {
    Ok,
    Err(ErrInfo),
    End,
}

pub fn info(e: &ValidatorError, index: usize) -> ErrInfo {
    let mut token = "";
    let (kind, span) = match e {
        ValidatorError::Xml(_) => ("Xml", None),
        ValidatorError::NotAllowed(tok) => {
            let (n, s) = match tok {
                Token::Declaration { span, .. } => ("declaration", span),
                Token::ProcessingInstruction { span, .. } => ("pi", span),
                Token::Comment { span, .. } => ("comment", span),
                Token::DtdStart { span, .. } => ("dtd", span),
                Token::EmptyDtd { span, .. } => ("dtd", span),
                Token::EntityDeclaration { span, .. } => ("entity", span),
                Token::DtdEnd { span, .. } => ("dtd", span),
                Token::ElementStart { span, .. } => ("element-start", span),
                Token::Attribute { span, .. } => ("attribute", span),
                Token::ElementEnd { span, .. } => ("element-end", span),
                Token::Cdata { span, .. } => ("cdata", span),
                Token::Text { text } => ("text", text),
            };
            token = n;
            ("NotAllowed", Some((s.start(), s.end())))
        }
        ValidatorError::UndefinedNamespacePrefix { prefix } => {
            ("UndefinedNamespacePrefix", Some((prefix.start(), prefix.end())))
        }
        ValidatorError::UndefinedEntity { span, .. } => ("UndefinedEntity", Some((span.start, span.end))),
        ValidatorError::InvalidOrUnclosedEntity { span } => {
            ("InvalidOrUnclosedEntity", Some((span.start, span.end)))
        }
        #[allow(unreachable_patterns)]
        _ => ("Other", None),
    };
    ErrInfo {
        index,
        kind,
        token,
        span,
        debug: format!("{e:?}"),
    }
}

/// upper bound on validate_next calls for a document
pub fn step_limit(doc: &str) -> usize {
    doc.len() + 16
}

/// Outcome of validating until the first error.
pub enum Verdict {
    Valid,
    Invalid(ErrInfo),
    /// more steps than the document has bytes
    Endless,
}
impl Verdict {
    pub fn ok(&self) -> bool {
        matches!(self, Verdict::Valid)
    }
    pub fn short(&self) -> String {
        match self {
            Verdict::Valid => "valid".into(),
            Verdict::Invalid(e) => format!("invalid ({} {} at step {} span {:?})", e.kind, e.token, e.index, e.span),
            Verdict::Endless => "never ends".into(),
        }
    }
}

pub fn validate(s: &Schema, doc: &str) -> Verdict {
    let _g = InLibrary::enter();
    let mut v = Validator::new(s.clone(), Tokenizer::from(doc));
    let limit = step_limit(doc);
    for i in 0..limit {
        match v.validate_next() {
            None => return Verdict::Valid,
            Some(Ok(())) => {}
            Some(Err(e)) => return Verdict::Invalid(info(&e, i)),
        }
    }
    Verdict::Endless
}

pub struct Diag {
    pub err: ErrInfo,
    pub rendered: String,
    pub messages: Vec<String>,
    /// (low, high) offsets of the labels
    pub spans: Vec<(usize, usize)>,
}

/// first error with its diagnostic
pub fn first_diag(s: &Schema, doc: &str) -> Option<Diag> {
    let _g = InLibrary::enter();
    let mut v = Validator::new(s.clone(), Tokenizer::from(doc));
    for i in 0..step_limit(doc) {
        match v.validate_next() {
            None => return None,
            Some(Ok(())) => {}
            Some(Err(e)) => return Some(diag_of(&v, &e, i, doc)),
        }
    }
    None
}

pub fn diag_of(v: &Validator, e: &ValidatorError, i: usize, doc: &str) -> Diag {
    let (map, d) = v.diagnostic("doc.xml".into(), doc.into(), e);
    let mut spans = vec![];
    // positions in a fresh code map with the same single file are comparable
    let mut mine = codemap::CodeMap::new();
    let base = mine.add_file("doc.xml".into(), doc.into()).span.low();
    for x in &d {
        for s in &x.spans {
            spans.push(((s.span.low() - base) as usize, (s.span.high() - base) as usize));
        }
    }
    let mut buf = vec![];
    {
        let mut em = codemap_diagnostic::Emitter::vec(&mut buf, Some(&map));
        em.emit(&d[..]);
    }
    Diag {
        err: info(e, i),
        rendered: String::from_utf8_lossy(&buf).to_string(),
        messages: d.iter().map(|x| format!("{}: {}", match x.level {
            codemap_diagnostic::Level::Error => "error",
            codemap_diagnostic::Level::Help => "help",
            _ => "other",
        }, x.message)).collect(),
        spans,
    }
}
