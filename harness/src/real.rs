//! The code under test, behind uniform types: every public parser, tokens, positions and errors.

use crate::shape::{sp, Shape};
use lalrpop_util::ParseError as LErr;
use oracle::gen::GTok;
use oracle::lexref::{self, T};
use oracle::tree::{Pos, Tree};
use scilla_parser::ast::converting::AstConverting;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::ast::TraversalResult;
use scilla_parser::parser::lexer::{self, Lexer, SourcePosition, Token};
use scilla_parser::parser::parser as P;
use std::any::Any;
use std::cmp::Ordering;

pub type Item<'a> = Result<(SourcePosition, Token<&'a str>, SourcePosition), lexer::ParseError>;
pub type Items<'a> = Box<dyn Iterator<Item = Item<'a>> + 'a>;

macro_rules! simple_tokens {
    ($($v:ident $s:expr;)*) => {
        fn fixed_token(s: &str) -> Token<&str> {
            match s { $($s => Token::$v,)* _ => panic!("no token {}", s) }
        }
        fn fixed_text(t: &Token<&str>) -> Option<&'static str> {
            match t { $(Token::$v => Some($s),)* _ => None }
        }
    };
}
simple_tokens! {
    Plus "+"; Asterisk "*"; Semicolon ";"; Colon ":"; Dot "."; Pipe "|"; OpenBracket "["; CloseBracket "]"; OpenParen "("; CloseParen ")";
    OpenBrace "{"; CloseBrace "}"; Comma ","; DoubleArrow "=>"; Arrow "->"; Equals "="; Ampersand "&"; LeftArrow "<-"; ColonEquals ":="; At "@";
    Minus "-"; Underscore "_"; Forall "forall"; Builtin "builtin"; Library "library"; Import "import"; Let "let"; In "in"; Match "match"; With "with";
    End "end"; Fun "fun"; Tfun "tfun"; Contract "contract"; Transition "transition"; Send "send"; Event "event"; EventType "Event"; Field "field";
    Accept "accept"; Exists "exists"; Delete "delete"; Throw "throw"; Map "Map"; ScillaVersion "scilla_version"; Type "type"; Of "of"; As "as";
    Procedure "procedure"; Emp "Emp"; ByStr "ByStr";
}

pub fn to_token(t: T, text: &str) -> Token<&str> {
    match t {
        lexref::BYSTRN => Token::ByStrWithSize(text),
        lexref::NUMBER => Token::Number(text),
        lexref::HEX => Token::HexNumber(text),
        lexref::STRING => Token::StringLiteral(text),
        lexref::ID => Token::Identifier(text),
        lexref::SPID => Token::SpecialIdentifier(text),
        lexref::CID => Token::CustomIdentifier(text),
        lexref::TID => Token::TemplateIdentifier(text),
        lexref::UNKNOWN => Token::Unknown,
        _ => fixed_token(lexref::TERMS[t as usize]),
    }
}

/// Terminal and carried text of a token; None for tokens the grammar has no terminal for.
pub fn from_token<'a>(t: &Token<&'a str>) -> Option<(T, Option<&'a str>)> {
    Some(match t {
        Token::ByStrWithSize(s) => (lexref::BYSTRN, Some(*s)),
        Token::Number(s) => (lexref::NUMBER, Some(*s)),
        Token::HexNumber(s) => (lexref::HEX, Some(*s)),
        Token::StringLiteral(s) => (lexref::STRING, Some(*s)),
        Token::Identifier(s) => (lexref::ID, Some(*s)),
        Token::SpecialIdentifier(s) => (lexref::SPID, Some(*s)),
        Token::CustomIdentifier(s) => (lexref::CID, Some(*s)),
        Token::TemplateIdentifier(s) => (lexref::TID, Some(*s)),
        Token::Unknown => (lexref::UNKNOWN, None),
        other => (lexref::term(fixed_text(other)?), None),
    })
}

pub fn to_sp(p: Pos) -> SourcePosition {
    SourcePosition { position: p.byte, line: p.line, column: p.col }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EKind {
    Invalid,
    Eof,
    Token,
    Extra,
    User,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PErr {
    pub kind: EKind,
    pub start: Pos,
    pub end: Pos,
    pub token: Option<T>,
    /// As printed by the parser.
    pub expected: Vec<String>,
}

fn perr(e: LErr<SourcePosition, Token<&str>, lexer::ParseError>) -> PErr {
    match e {
        LErr::InvalidToken { location } => PErr { kind: EKind::Invalid, start: sp(&location), end: sp(&location), token: None, expected: vec![] },
        LErr::UnrecognizedEof { location, expected } => PErr { kind: EKind::Eof, start: sp(&location), end: sp(&location), token: None, expected },
        LErr::UnrecognizedToken { token: (a, t, b), expected } => {
            PErr { kind: EKind::Token, start: sp(&a), end: sp(&b), token: from_token(&t).map(|x| x.0), expected }
        }
        LErr::ExtraToken { token: (a, t, b) } => PErr { kind: EKind::Extra, start: sp(&a), end: sp(&b), token: from_token(&t).map(|x| x.0), expected: vec![] },
        LErr::User { .. } => PErr { kind: EKind::User, start: Pos { byte: 0, line: 0, col: 0 }, end: Pos { byte: 0, line: 0, col: 0 }, token: None, expected: vec![] },
    }
}

/// The terminal a parser's "expected" entry stands for.
pub fn expected_term(s: &str) -> Option<T> {
    Some(match s {
        "r#\"ByStr[0-9]+\"#" => lexref::BYSTRN,
        "r#\"[+-]?[0-9]+\"#" => lexref::NUMBER,
        "r#\"0(x|X)([a-fA-F0-9][a-fA-F0-9])*\"#" => lexref::HEX,
        "r#\"\\\"(?:\\\\\\\\.|[^\\\"])*\\\"\"#" => lexref::STRING,
        "r#\"[a-z][a-zA-Z0-9_]*\"#" => lexref::ID,
        "r#\"[_][a-zA-Z0-9_]*\"#" => lexref::SPID,
        "r#\"[A-Z][a-zA-Z0-9_]*\"#" => lexref::CID,
        "r#\"['][A-Z][a-zA-Z0-9_]*\"#" => lexref::TID,
        _ => {
            let w = s.strip_prefix('"')?.strip_suffix('"')?;
            lexref::TERMS[..lexref::FIRST_CLASS].iter().position(|x| *x == w)? as T
        }
    })
}

/// A syntax tree produced by some parser.
pub trait Parsed {
    fn forest(&self) -> Vec<Tree>;
    fn walk(&self, c: &mut dyn AstConverting) -> Result<TraversalResult, String>;
    fn debug(&self) -> String;
    fn printed(&self) -> Option<String> {
        None
    }
    fn as_any(&self) -> &dyn Any;
    /// Whether the two are equal, and how they are ordered; None for nodes of different types.
    fn compare(&self, other: &dyn Parsed) -> Option<(bool, Option<Ordering>)>;
    fn duplicate(&self) -> Box<dyn Parsed>;
}

impl<N: Shape + AstVisitor + std::fmt::Debug + PartialEq + PartialOrd + Clone + 'static> Parsed for N {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn compare(&self, other: &dyn Parsed) -> Option<(bool, Option<Ordering>)> {
        let o = other.as_any().downcast_ref::<N>()?;
        Some((self == o, self.partial_cmp(o)))
    }
    fn duplicate(&self) -> Box<dyn Parsed> {
        Box::new(self.clone())
    }
    fn forest(&self) -> Vec<Tree> {
        vec![self.shape()]
    }
    fn walk(&self, c: &mut dyn AstConverting) -> Result<TraversalResult, String> {
        self.visit(c)
    }
    fn debug(&self) -> String {
        format!("{:?}", self)
    }
    fn printed(&self) -> Option<String> {
        Shape::printed(self)
    }
}

/// The one parser that returns a list of nodes.
struct Fields(Vec<WithMetaData<NodeAddressTypeField>>);
impl Parsed for Fields {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn compare(&self, other: &dyn Parsed) -> Option<(bool, Option<Ordering>)> {
        let o = other.as_any().downcast_ref::<Fields>()?;
        Some((self.0 == o.0, self.0.partial_cmp(&o.0)))
    }
    fn duplicate(&self) -> Box<dyn Parsed> {
        Box::new(Fields(self.0.clone()))
    }
    fn forest(&self) -> Vec<Tree> {
        self.0.iter().map(|x| x.shape()).collect()
    }
    fn walk(&self, c: &mut dyn AstConverting) -> Result<TraversalResult, String> {
        for x in &self.0 {
            x.visit(c)?;
        }
        Ok(TraversalResult::Continue)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
}

trait IntoParsed {
    fn boxed(self) -> Box<dyn Parsed>;
}
impl<N: Shape + AstVisitor + std::fmt::Debug + PartialEq + PartialOrd + Clone + 'static> IntoParsed for N {
    fn boxed(self) -> Box<dyn Parsed> {
        Box::new(self)
    }
}
impl IntoParsed for Vec<WithMetaData<NodeAddressTypeField>> {
    fn boxed(self) -> Box<dyn Parsed> {
        Box::new(Fields(self))
    }
}

pub type Out = Result<Box<dyn Parsed>, PErr>;
pub type Reusable = Box<dyn for<'a> Fn(Items<'a>) -> Out>;

macro_rules! parsers {
    ($($name:ident $p:ident;)*) => {
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
        /// A parser value that can be used repeatedly.
        pub fn reusable(name: &str) -> Reusable {
            match name {
                $(stringify!($name) => {
                    let p = P::$p::new();
                    Box::new(move |items: Items<'_>| -> Out {
                        let mut errors = vec![];
                        match p.parse(&mut errors, items) {
                            Ok(n) => Ok(n.boxed()),
                            Err(e) => Err(perr(e)),
                        }
                    })
                })*
                _ => panic!("no parser {}", name),
            }
        }
    };
}
parsers! {
    ByteString ByteStringParser; TypeNameIdentifier TypeNameIdentifierParser; ImportedName ImportedNameParser; ImportDeclarations ImportDeclarationsParser;
    MetaIdentifier MetaIdentifierParser; VariableIdentifier VariableIdentifierParser; BuiltinArguments BuiltinArgumentsParser; RemainingTypes RemainingTypesParser;
    FunctionSignature FunctionSignatureParser; ScillaType ScillaTypeParser; TypeArgument TypeArgumentParser; AddressType AddressTypeParser;
    AddressTypeFieldList AddressTypeFieldListParser; NextAddressTypeField NextAddressTypeFieldParser; AddressTypeField AddressTypeFieldParser;
    TypeMapKey TypeMapKeyParser; TypeMapValue TypeMapValueParser; TypeMapValueArguments TypeMapValueArgumentsParser;
    TypeMapValueAllowingTypeArguments TypeMapValueAllowingTypeArgumentsParser; Program ProgramParser; LibraryDefinition LibraryDefinitionParser;
    LibrarySingleDefinition LibrarySingleDefinitionParser; TypedIdentifier TypedIdentifierParser; TypeAnnotation TypeAnnotationParser;
    TypeAlternativeClause TypeAlternativeClauseParser; ContractTypeArguments ContractTypeArgumentsParser; FullExpression FullExpressionParser;
    PatternMatchExpressionClause PatternMatchExpressionClauseParser; Pattern PatternParser; ArgumentPattern ArgumentPatternParser;
    NextMessageEntry NextMessageEntryParser; MessageEntry MessageEntryParser; AtomicExpression AtomicExpressionParser; ValueLiteral ValueLiteralParser;
    Statement StatementParser; NextStatement NextStatementParser; StatementBlock StatementBlockParser; BlockchainFetchArguments BlockchainFetchArgumentsParser;
    ComponentId ComponentIdParser; PatternMatchClause PatternMatchClauseParser; RemoteFetchStatement RemoteFetchStatementParser; MapAccess MapAccessParser;
    ParameterPair ParameterPairParser; NextParameterPair NextParameterPairParser; ComponentParameters ComponentParametersParser;
    ComponentDefinition ComponentDefinitionParser; TransitionDefinition TransitionDefinitionParser; ProcedureDefinition ProcedureDefinitionParser;
    ComponentBody ComponentBodyParser; ContractDefinition ContractDefinitionParser; ContractField ContractFieldParser; WithConstraint WithConstraintParser;
}

pub fn parse_items(name: &str, items: Items<'_>) -> Out {
    reusable(name)(items)
}

/// Feeds a token sequence with the given positions to a parser.
pub fn parse_tokens(name: &str, toks: &[GTok], pos: &[(Pos, Pos)]) -> Out {
    let v: Vec<Item> = toks.iter().zip(pos).map(|(t, p)| Ok((to_sp(p.0), to_token(t.t, &t.text), to_sp(p.1)))).collect();
    parse_items(name, Box::new(v.into_iter()))
}

/// Lexes and parses a text.
pub fn parse_text(name: &str, text: &str) -> Out {
    parse_items(name, Box::new(Lexer::new(text)))
}

/// A token stream that is longer than any text allows is cut off, and reported as such.
pub fn lex_all(text: &str) -> Result<Vec<(SourcePosition, Token<&str>, SourcePosition)>, String> {
    let mut out = vec![];
    for x in Lexer::new(text) {
        match x {
            Ok(t) => out.push(t),
            Err(e) => return Err(format!("the lexer returns an error: {:?}", e)),
        }
        if out.len() > text.len() + 1 {
            return Err(format!("more than {} tokens from {} bytes", text.len() + 1, text.len()));
        }
    }
    Ok(out)
}
