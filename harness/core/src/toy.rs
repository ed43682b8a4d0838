//! A small language for driving the lexer, tree and parser contracts.
use oak_core::language::{ElementRole, ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum T {
    Ws,
    Nl,
    Id,
    Call,
    Num,
    Str,
    LineC,
    BlockC,
    Op,
    Err,
    Eof,
}
impl TokenType for T {
    const END_OF_STREAM: Self = T::Eof;
    type Role = UniversalTokenRole;
    fn role(&self) -> Self::Role {
        match self {
            T::Ws | T::Nl => UniversalTokenRole::Whitespace,
            T::LineC | T::BlockC => UniversalTokenRole::Comment,
            T::Err => UniversalTokenRole::Error,
            T::Eof => UniversalTokenRole::Eof,
            T::Id => UniversalTokenRole::Name,
            _ => UniversalTokenRole::None,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum E {
    Tok(T),
    Root,
    List,
    Item,
    Expr,
    Bin,
    Pre,
    Post,
    Error,
}
impl From<T> for E {
    fn from(t: T) -> E {
        E::Tok(t)
    }
}
impl ElementType for E {
    type Role = UniversalElementRole;
    fn role(&self) -> Self::Role {
        match self {
            E::Root => UniversalElementRole::Root,
            E::Error => UniversalElementRole::Error,
            _ => UniversalElementRole::None,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = ();
}
#[allow(dead_code)]
fn _roles<R: ElementRole>(_: R) {}
