use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::vec::*;
verus! {
//@include doc_layout.vrs
// ---- building documents ------------------------------------------------------------------------------
pub trait IntoCow<'a>: Sized { spec fn ct(&self) -> Seq<char>; fn into_cow(self) -> (r: Cow<'a, str>) ensures r.tx() == self.ct(); }
impl<'a> IntoCow<'a> for &'a str { open spec fn ct(&self) -> Seq<char> { (*self)@ } fn into_cow(self) -> (r: Cow<'a, str>) { Cow::Borrowed(self) } }
impl<'a> IntoCow<'a> for String { open spec fn ct(&self) -> Seq<char> { self@ } fn into_cow(self) -> (r: Cow<'a, str>) { Cow::Owned(self) } }
impl<'a> Document<'a> {
    /// The derived `Clone` (assumed).
    #[verifier::external_body] pub fn clone_v(&self) -> (r: Document<'a>) ensures r == *self { unimplemented!() }
}
/// The documents, with the separator between each two.
pub open spec fn joined<'a>(d: Seq<Document<'a>>, sep: Document<'a>) -> Seq<Document<'a>> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else if d.len() == 1 { d } else { joined(d.drop_last(), sep).push(sep).push(d.last()) }
}
pub open spec fn is_text(d: Document, t: Seq<char>) -> bool { d is Text && d->Text_0.tx() == t }
/// `" ".repeat(n)`, as a text (assumed: std).
#[verifier::external_body] pub fn spaces(n: usize) -> (r: Cow<'static, str>) ensures r.tx() == times(seq![' '], n as nat) { Cow::Owned(" ".repeat(n)) }
pub fn fixed(s: &'static str) -> (r: Cow<'static, str>) ensures r.tx() == s@ { Cow::Borrowed(s) }
//@gsub /S: Into<Cow<'a, str>>/ => S: IntoCow<'a>
//@gsub /text\.into\(\)/ => text.into_cow()
//@gsub /Document::Text\((self|s|self\.as_str\(\))\.into\(\)\)/ => Document::Text(\1.into_cow())
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /" "\.repeat\((\w+) as usize\)\.into\(\)/ => spaces(\1 as usize)
//@gsub /("\\t")\.into\(\)/ => fixed(\1)
//@src projects/oak-pretty-print/src/document/mod.rs
impl<'a> Document<'a> {
//@fn Document::render -> r
    requires room(*self, 0, 0, config),
    ensures r@ == finished(laid(*self, false, 0, St { out: seq![], col: 0 }, config).out, config),
//@end
//@fn Document::text -> r
    ensures is_text(r, text.ct()),
//@end
//@fn Document::concat -> r
    ensures r == Document::Concat(docs),
//@end
//@fn Document::group -> r
    ensures r == Document::Group(Box::new(doc)),
//@end
//@fn Document::indent -> r
    ensures r == Document::Indent(Box::new(doc)),
//@end
//@fn Document::join -> r
    ensures r is Concat, r->Concat_0@ == joined(docs@, separator),
//@sub /join<I>\(docs: I,/ => join(docs: Vec<Document<'a>>,
//@sub /-> Self\s*where\s*I: IntoIterator<Item = Document<'a>>,/ => -> Self
//@sub /for \((\w+), (\w+)\) in docs\.into_iter\(\)\.enumerate\(\) \{/ => let mut left = docs; let total = left.len(); let mut next = 0usize; while left.len() > 0 { let \1 = next; let \2 = left.remove(0); next = next + 1;
//@loop 1
    invariant 0 <= next <= docs@.len(), total == docs@.len(), left@ == docs@.skip(next as int), result@ == joined(docs@.take(next as int), separator),
    decreases left@.len(),
//@loopstart 1
    proof { assert(docs@.take(next + 1).drop_last() =~= docs@.take(next as int)); assert(docs@.take(next + 1).last() == docs@[next as int]); assert(docs@.skip(next as int)[0] == docs@[next as int]);
        if next == 0 { assert(joined(docs@.take(0), separator) =~= Seq::empty()); } else { assert(joined(docs@.take(next as int), separator).len() > 0); } }
//@loopend 1
    proof { assert(left@ =~= docs@.skip(next as int)); assert(result@ =~= joined(docs@.take(next as int), separator)); }
//@afterloop 1
    proof { assert(docs@.take(next as int) =~= docs@); }
//@before /let mut result/
    proof { assert(docs@.skip(0) =~= docs@); assert(docs@.take(0) =~= Seq::empty()); }
//@end
//@fn From for Document::from -> r
    ensures r == Document::Text(s),
//@end
}
//@src projects/oak-pretty-print/src/to_doc.rs
impl<'a> Document<'a> {
//@fn AsDocument for Document::as_document -> r
    ensures r == *self,
//@sub /Document<'_>/ => Document<'a>
//@end
}
/// What turns into a document, and which.
pub trait AsDocument { spec fn doc(&self, d: Document) -> bool; fn as_document(&self) -> (r: Document<'_>) ensures self.doc(r); }
impl AsDocument for String { open spec fn doc(&self, d: Document) -> bool { is_text(d, self@) }
//@fn AsDocument for String::as_document -> r
//@end
}
impl AsDocument for str { open spec fn doc(&self, d: Document) -> bool { is_text(d, self@) }
//@fn AsDocument for str::as_document -> r
//@end
}
impl<T: AsDocument> AsDocument for Option<T> { open spec fn doc(&self, d: Document) -> bool { match self { Some(t) => t.doc(d), None => d is Nil } }
//@fn AsDocument for Option::as_document -> r
//@end
}
impl<T: AsDocument> AsDocument for Vec<T> { open spec fn doc(&self, d: Document) -> bool { d is Concat && d->Concat_0@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> self@[i].doc(#[trigger] d->Concat_0@[i]) }
//@fn AsDocument for Vec::as_document -> r
//@sub /self\.iter\(\)\.map\(\|(\w+)\| (\w+)\.as_document\(\)\)\.collect\(\)/ => docs_of(self)
//@end
}
/// `iter().map(as_document).collect()`.
fn docs_of<'a, T: AsDocument>(v: &'a Vec<T>) -> (r: Vec<Document<'a>>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> v@[i].doc(#[trigger] r@[i]) {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> v@[j].doc(#[trigger] r@[j]) decreases v@.len() - i { r.push(v[i].as_document()); i = i + 1; }
    r
}
// ---- configurations ----------------------------------------------------------------------------------
//@gsub /LineEnding::default\(\)/ => LineEnding::default_v()
//@gsub /IndentStyle::default\(\)/ => IndentStyle::default_v()
//@gsub /Self::default\(\)/ => Self::default_v()
//@gsub /fn default\(\)/ => fn default_v()
//@gsub /\(mut me, (.*?)\) -> \(?(?:r: )?Self\)? ?\{/ => (self, \1) -> Self { let mut me = self;
//@src projects/oak-pretty-print/src/config/mod.rs
impl Clone for IndentStyle { fn clone(&self) -> Self { *self } }
impl Copy for IndentStyle {}
impl LineEnding {
//@fn Default for LineEnding::default -> r
    ensures r == LineEnding::Auto,
//@end
}
impl IndentStyle {
//@fn Default for IndentStyle::default -> r
    ensures r == IndentStyle::Spaces(4),
//@end
    /// The text of one level, and the columns it counts for.
    pub open spec fn level(&self) -> Seq<char> { match self { IndentStyle::Spaces(n) => times(seq![' '], *n as nat), IndentStyle::Tabs => seq!['\t'] } }
    pub open spec fn columns(&self) -> nat { match self { IndentStyle::Spaces(n) => *n as nat, IndentStyle::Tabs => 4 } }
}
impl FormatConfig {
    pub open spec fn styled(&self, s: IndentStyle) -> bool { self.indent_style == s && self.indent_text.tx() == s.level() && self.indent_size == s.columns() }
//@fn Default for FormatConfig::default -> r
    ensures r.styled(IndentStyle::Spaces(4)), r.line_ending is Auto, r.max_width == 100, r.insert_final_newline, r.trim_trailing_whitespace, r.preserve_blank_lines, r.max_blank_lines == 2, r.format_comments, !r.format_strings,
//@before /let \(indent_text/
    proof { reveal_strlit("\t"); assert("\t"@ =~= seq!['\t']); }
//@end
//@fn FormatConfig::new -> r
    ensures r.styled(IndentStyle::Spaces(4)), r.line_ending is Auto, r.max_width == 100,
//@end
//@fn FormatConfig::with_indent_style -> r
    ensures r.styled(style), r == (FormatConfig { indent_style: r.indent_style, indent_text: r.indent_text, indent_size: r.indent_size, ..self }),
//@body
    proof { reveal_strlit("\t"); assert("\t"@ =~= seq!['\t']); }
//@sub /\bself\b/ => me
//@end
//@fn FormatConfig::with_line_ending -> r
    ensures r == (FormatConfig { line_ending: ending, ..self }),
//@sub /\bself\b/ => me
//@end
//@fn FormatConfig::with_max_width -> r
    ensures r == (FormatConfig { max_width: length, ..self }),
//@sub /\bself\b/ => me
//@end
}
}
fn main() {}
