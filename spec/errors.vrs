// ---- errors ------------------------------------------------------------------------------------------
pub struct IoError { pub k: u8 }
pub struct PathBuf { pub k: u8 }
pub trait IntoS: Sized { spec fn it(&self) -> Seq<char>; fn into_v(self) -> (r: String) ensures r@ == self.it(); }
impl IntoS for String { open spec fn it(&self) -> Seq<char> { self@ } fn into_v(self) -> (r: String) { self } }
impl<'a> IntoS for &'a str { open spec fn it(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into_v(self) -> (r: String) { unimplemented!() } }
//@gsub /std::io::Error/ => IoError
//@gsub /std::path::PathBuf/ => PathBuf
//@gsub /impl Into<String>/ => impl IntoS
//@gsub /crate::source::SourceId/ => SourceId
//@gsub /\}\.into\(\)\s*\}$/ => }.into_e() }
//@gsub /\.into\(\)/ => .into_v()
//@src projects/oak-core/src/errors/mod.rs
//@item OakErrorKind
//@item OakError
impl OakErrorKind { pub fn into_e(self) -> (r: OakError) ensures r.k() == self { OakError::from(self) } }
/// Where an error happened, if it says so.
pub open spec fn place_of(k: OakErrorKind) -> Option<usize> {
    match k {
        OakErrorKind::SyntaxError { offset, .. } => Some(offset), OakErrorKind::UnexpectedCharacter { offset, .. } => Some(offset), OakErrorKind::UnexpectedToken { offset, .. } => Some(offset), OakErrorKind::UnexpectedEof { offset, .. } => Some(offset),
        OakErrorKind::ExpectedToken { offset, .. } => Some(offset), OakErrorKind::ExpectedName { offset, .. } => Some(offset), OakErrorKind::TrailingCommaNotAllowed { offset, .. } => Some(offset), _ => None,
    }
}
/// The source an error says it happened in; the outer None: it has no room for one.
pub open spec fn file_of(k: OakErrorKind) -> Option<Option<SourceId>> {
    match k {
        OakErrorKind::SyntaxError { source_id, .. } => Some(source_id), OakErrorKind::UnexpectedCharacter { source_id, .. } => Some(source_id), OakErrorKind::UnexpectedToken { source_id, .. } => Some(source_id), OakErrorKind::UnexpectedEof { source_id, .. } => Some(source_id),
        OakErrorKind::ExpectedToken { source_id, .. } => Some(source_id), OakErrorKind::ExpectedName { source_id, .. } => Some(source_id), OakErrorKind::TrailingCommaNotAllowed { source_id, .. } => Some(source_id), OakErrorKind::IoError { source_id, .. } => Some(source_id), _ => None,
    }
}
/// The same error, but for the source it says it happened in.
pub open spec fn but_file(a: OakErrorKind, b: OakErrorKind) -> bool {
    match a {
        OakErrorKind::SyntaxError { message, offset, .. } => b is SyntaxError && b->SyntaxError_message == message && b->SyntaxError_offset == offset,
        OakErrorKind::UnexpectedCharacter { character, offset, .. } => b is UnexpectedCharacter && b->UnexpectedCharacter_character == character && b->UnexpectedCharacter_offset == offset,
        OakErrorKind::UnexpectedToken { token, offset, .. } => b is UnexpectedToken && b->UnexpectedToken_token == token && b->UnexpectedToken_offset == offset,
        OakErrorKind::UnexpectedEof { offset, .. } => b is UnexpectedEof && b->UnexpectedEof_offset == offset,
        OakErrorKind::ExpectedToken { expected, offset, .. } => b is ExpectedToken && b->ExpectedToken_expected == expected && b->ExpectedToken_offset == offset,
        OakErrorKind::ExpectedName { name_kind, offset, .. } => b is ExpectedName && b->ExpectedName_name_kind == name_kind && b->ExpectedName_offset == offset,
        OakErrorKind::TrailingCommaNotAllowed { offset, .. } => b is TrailingCommaNotAllowed && b->TrailingCommaNotAllowed_offset == offset,
        OakErrorKind::IoError { error, .. } => b is IoError && b->IoError_error == error,
        _ => a == b,
    }
}
impl OakError {
    pub closed spec fn k(&self) -> OakErrorKind { *self.kind }
//@src projects/oak-core/src/errors/from_std.rs
//@fn From for OakError::from -> r
    ensures r.k() == kind,
//@end
//@src projects/oak-core/src/errors/mod.rs
//@fn OakError::kind -> r
    ensures *r == self.k(),
//@end
//@fn OakError::syntax_error -> r
    ensures r.k() is SyntaxError, r.k()->SyntaxError_message@ == message.it(), place_of(r.k()) == Some(offset), file_of(r.k()) == Some(source_id),
//@end
//@fn OakError::unexpected_character -> r
    ensures r.k() == (OakErrorKind::UnexpectedCharacter { character, offset, source_id }),
//@end
//@fn OakError::unexpected_token -> r
    ensures r.k() is UnexpectedToken, r.k()->UnexpectedToken_token@ == token.it(), place_of(r.k()) == Some(offset), file_of(r.k()) == Some(source_id),
//@end
//@fn OakError::unexpected_eof -> r
    ensures r.k() == (OakErrorKind::UnexpectedEof { offset, source_id }),
//@end
//@fn OakError::expected_token -> r
    ensures r.k() is ExpectedToken, r.k()->ExpectedToken_expected@ == expected.it(), place_of(r.k()) == Some(offset), file_of(r.k()) == Some(source_id),
//@end
//@fn OakError::expected_name -> r
    ensures r.k() is ExpectedName, r.k()->ExpectedName_name_kind@ == name_kind.it(), place_of(r.k()) == Some(offset), file_of(r.k()) == Some(source_id),
//@end
//@fn OakError::trailing_comma_not_allowed -> r
    ensures r.k() == (OakErrorKind::TrailingCommaNotAllowed { offset, source_id }),
//@end
//@fn OakError::with_source_id -> r
//@sub /\(mut self,([^{]*)\{/ => (self,\1{ let mut me = self;
//@sub /match self\.kind\.as_mut\(\)/ => match *me.kind
//@sub /source_id: u, / => source_id: ref mut u, 
//@sub /self\s*\}$/ => me }
    ensures but_file(r.k(), self.k()), file_of(self.k()) is Some ==> file_of(r.k()) == Some(Some(source_id)),
//@end
}
