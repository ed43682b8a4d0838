pub enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
impl<'a> Cow<'a, str> { pub open spec fn tx(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> Disp for Cow<'a, str> { open spec fn ds(&self) -> Seq<char> { self.tx() } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
