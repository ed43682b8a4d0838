// ---- strings (assumed: std) --------------------------------------------------------------------
/// Length of a text in bytes.
pub uninterp spec fn blen(s: Seq<char>) -> nat;
pub enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
impl<'a> Cow<'a, str> {
    pub open spec fn tx(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    pub fn as_str_v(&self) -> (r: &str) ensures r@ == self.tx() { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == blen(self.tx()) { self.as_str_v().len() }
}
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
/// The text without the blanks at its end.
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s.last()) { trimmed(s.drop_last()) } else { s } }
pub trait Tail { spec fn ts(&self) -> Seq<char>;
    fn ends_with_v(&self, c: char) -> (r: bool) ensures r == (self.ts().len() > 0 && self.ts().last() == c);
    fn pop_v(&mut self) -> (r: Option<char>) ensures final(self).ts() == (if old(self).ts().len() == 0 { old(self).ts() } else { old(self).ts().drop_last() });
    fn trim_blank(&self) -> (r: String) ensures r@ == trimmed(self.ts());
    fn is_empty_v(&self) -> (r: bool) ensures r == (self.ts().len() == 0); }
impl Tail for String { open spec fn ts(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn ends_with_v(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn pop_v(&mut self) -> (r: Option<char>) { self.pop() }
    #[verifier::external_body] fn trim_blank(&self) -> (r: String) { self.trim_end_matches([' ', '\t']).to_string() }
    #[verifier::external_body] fn is_empty_v(&self) -> (r: bool) { self.is_empty() } }
//@gsub /\.ends_with\('/ => .ends_with_v('
//@gsub /\.output\.pop\(\)/ => .output.pop_v()
//@gsub /\.output\.is_empty\(\)/ => .output.is_empty_v()
//@gsub /\.trim_end_matches\(\[' ', '\\t'\]\)\.to_string\(\)/ => .trim_blank()
//@gsub /\.push_str\(s\)/ => .push_str(s.as_str_v())
//@gsub /\.push_str\(&self\.config\.indent_text\)/ => .push_str(self.config.indent_text.as_str_v())
//@src projects/oak-pretty-print/src/config/mod.rs
//@item IndentStyle
//@item LineEnding
//@item FormatConfig
impl FormatConfig {
    pub open spec fn nl(&self) -> Seq<char> { if self.line_ending is Windows { seq!['\r', '\n'] } else { seq!['\n'] } }
//@fn FormatConfig::line_ending_string -> r
    ensures r@ == self.nl(),
//@body
    proof { reveal_strlit("\n"); reveal_strlit("\r\n"); assert("\n"@ =~= seq!['\n']); assert("\r\n"@ =~= seq!['\r', '\n']); }
//@sub /#\[cfg\(windows\)\]\s*return "\\r\\n";\s*#\[cfg\(not\(windows\)\)\]\s*return "\\n";/ => return "\n";
//@end
}
//@src projects/oak-pretty-print/src/document/mod.rs
//@item Document
// ---- the layout a document asks for ------------------------------------------------------------
/// Columns a document takes when laid out flat.
pub open spec fn flat_width(d: Document) -> nat decreases d, 0nat {
    match d { Document::Text(s) => blen(s.tx()), Document::Line | Document::SoftLineSpace => 1, Document::Group(x) | Document::Indent(x) => flat_width(*x), Document::Concat(v) => flat_widths(v, v@.len()), _ => 0 }
}
pub open spec fn flat_widths(v: Vec<Document>, k: nat) -> nat decreases v, k { if k == 0 || k > v@.len() { 0 } else { flat_widths(v, (k - 1) as nat) + flat_width(v@[k - 1]) } }
/// It contains a hard break.
pub open spec fn hard(d: Document) -> bool decreases d, 0nat {
    match d { Document::HardLine => true, Document::Group(x) | Document::Indent(x) => hard(*x), Document::Concat(v) => hards(v, v@.len()), _ => false }
}
pub open spec fn hards(v: Vec<Document>, k: nat) -> bool decreases v, k { if k == 0 || k > v@.len() { false } else { hards(v, (k - 1) as nat) || hard(v@[k - 1]) } }
/// Nesting of indents.
pub open spec fn depth(d: Document) -> nat decreases d, 0nat {
    match d { Document::Indent(x) => depth(*x) + 1, Document::Group(x) => depth(*x), Document::Concat(v) => depths(v, v@.len()), _ => 0 }
}
pub open spec fn depths(v: Vec<Document>, k: nat) -> nat decreases v, k { if k == 0 || k > v@.len() { 0 } else { let a = depths(v, (k - 1) as nat); let b = depth(v@[k - 1]); if a < b { b } else { a } } }
/// The literal text of a document.
pub open spec fn texts(d: Document) -> Seq<char> decreases d, 0nat {
    match d { Document::Text(s) => s.tx(), Document::Group(x) | Document::Indent(x) => texts(*x), Document::Concat(v) => textss(v, v@.len()), _ => seq![] }
}
pub open spec fn textss(v: Vec<Document>, k: nat) -> Seq<char> decreases v, k { if k == 0 || k > v@.len() { seq![] } else { textss(v, (k - 1) as nat) + texts(v@[k - 1]) } }
/// What is written when no break of the document becomes a line ending.
pub open spec fn flat(d: Document) -> Seq<char> decreases d, 0nat {
    match d { Document::Text(s) => s.tx(), Document::Line | Document::SoftLineSpace => seq![' '], Document::Group(x) | Document::Indent(x) => flat(*x), Document::Concat(v) => flats(v, v@.len()), _ => seq![] }
}
pub open spec fn flats(v: Vec<Document>, k: nat) -> Seq<char> decreases v, k { if k == 0 || k > v@.len() { seq![] } else { flats(v, (k - 1) as nat) + flat(v@[k - 1]) } }
/// Output so far and current column.
pub ghost struct St { pub out: Seq<char>, pub col: int }
pub open spec fn times(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { times(s, (n - 1) as nat) + s } }
/// A line break at indentation level l.
pub open spec fn broke(s: St, l: nat, c: FormatConfig) -> St { St { out: (if c.trim_trailing_whitespace { trimmed(s.out) } else { s.out }) + c.nl() + times(c.indent_text.tx(), l), col: l * c.indent_size } }
/// Whether a group holding d, begun at column col, has to be broken.
pub open spec fn breaks(d: Document, col: int, c: FormatConfig) -> bool { hard(d) || col + flat_width(d) > c.max_width }
/// The layout of a document: b tells whether the closest enclosing group is broken, l counts the enclosing indents.
pub open spec fn laid(d: Document, b: bool, l: nat, s: St, c: FormatConfig) -> St decreases d, 0nat {
    match d {
        Document::Nil => s,
        Document::Text(t) => St { out: s.out + t.tx(), col: s.col + blen(t.tx()) },
        Document::Concat(v) => laids(v, v@.len(), b, l, s, c),
        Document::Group(x) => laid(*x, breaks(*x, s.col, c), l, s, c),
        Document::Indent(x) => laid(*x, b, l + 1, s, c),
        Document::Line | Document::SoftLineSpace => if b { broke(s, l, c) } else { St { out: s.out + seq![' '], col: s.col + 1 } },
        Document::SoftLine => if b { broke(s, l, c) } else { s },
        Document::HardLine => broke(s, l, c),
    }
}
pub open spec fn laids(v: Vec<Document>, k: nat, b: bool, l: nat, s: St, c: FormatConfig) -> St decreases v, k { if k == 0 || k > v@.len() { s } else { laid(v@[k - 1], b, l, laids(v, (k - 1) as nat, b, l, s, c), c) } }
/// The finished text.
pub open spec fn finished(o: Seq<char>, c: FormatConfig) -> Seq<char> {
    let t = if c.trim_trailing_whitespace { trimmed(o) } else { o };
    if c.insert_final_newline && t.len() > 0 && t.last() != '\n' { t + c.nl() } else { t }
}
// ---- what follows for every document -----------------------------------------------------------
/// A group that has no hard break and fits is written flat, whatever groups it contains.
pub proof fn lemma_fits(d: Document, l: nat, s: St, c: FormatConfig)
    requires !hard(d), s.col + flat_width(d) <= c.max_width,
    ensures laid(d, false, l, s, c) == (St { out: s.out + flat(d), col: s.col + flat_width(d) }),
    decreases d, 0nat,
{
    match d {
        Document::Concat(v) => { lemma_fits_all(v, v@.len(), l, s, c); }
        Document::Group(x) => { lemma_fits(*x, l, s, c); }
        Document::Indent(x) => { lemma_fits(*x, l + 1, s, c); }
        _ => { assert(s.out + seq![] =~= s.out); }
    }
}
pub proof fn lemma_fits_all(v: Vec<Document>, k: nat, l: nat, s: St, c: FormatConfig)
    requires k <= v@.len(), !hards(v, k), s.col + flat_widths(v, k) <= c.max_width,
    ensures laids(v, k, false, l, s, c) == (St { out: s.out + flats(v, k), col: s.col + flat_widths(v, k) }),
    decreases v, k,
{
    if k == 0 { assert(s.out + seq![] =~= s.out); } else {
        lemma_fits_all(v, (k - 1) as nat, l, s, c);
        let s1 = laids(v, (k - 1) as nat, false, l, s, c);
        lemma_fits(v@[k - 1], l, s1, c);
        assert((s.out + flats(v, (k - 1) as nat)) + flat(v@[k - 1]) =~= s.out + (flats(v, (k - 1) as nat) + flat(v@[k - 1])));
    }
}
pub proof fn theorem_group_fits(d: Document, b: bool, l: nat, s: St, c: FormatConfig)
    requires d is Group, !hard(*d->Group_0), s.col + flat_width(*d->Group_0) <= c.max_width,
    ensures laid(d, b, l, s, c).out == s.out + flat(d),
{ lemma_fits(*d->Group_0, l, s, c); }
/// Characters other than blanks and line endings.
pub open spec fn ink(s: Seq<char>) -> Seq<char> { s.filter(|c: char| !(blank(c) || c == '\n' || c == '\r')) }
pub open spec fn no_ink(s: Seq<char>) -> bool { ink(s).len() == 0 }
pub proof fn lemma_ink_add(a: Seq<char>, b: Seq<char>) ensures ink(a + b) == ink(a) + ink(b) { Seq::filter_distributes_over_add(a, b, |c: char| !(blank(c) || c == '\n' || c == '\r')); }
pub proof fn lemma_ink_trim(s: Seq<char>) ensures ink(trimmed(s)) == ink(s) decreases s.len() {
    reveal(Seq::filter);
    if s.len() > 0 && blank(s.last()) { lemma_ink_trim(s.drop_last()); }
}
pub proof fn lemma_ink_times(s: Seq<char>, n: nat) requires no_ink(s) ensures no_ink(times(s, n)) decreases n { reveal(Seq::filter); if n > 0 { lemma_ink_times(s, (n - 1) as nat); lemma_ink_add(times(s, (n - 1) as nat), s); } }
pub proof fn lemma_ink_broke(s: St, l: nat, c: FormatConfig)
    requires no_ink(c.indent_text.tx()),
    ensures ink(broke(s, l, c).out) == ink(s.out),
{
    reveal(Seq::filter);
    let t = if c.trim_trailing_whitespace { trimmed(s.out) } else { s.out };
    lemma_ink_trim(s.out); lemma_ink_times(c.indent_text.tx(), l);
    lemma_ink_add(t, c.nl()); lemma_ink_add(t + c.nl(), times(c.indent_text.tx(), l));
    assert(no_ink(c.nl())) by { reveal_with_fuel(Seq::filter, 4); assert(seq!['\r', '\n'].drop_last() =~= seq!['\r']); assert(seq!['\r'].drop_last() =~= Seq::<char>::empty()); assert(seq!['\n'].drop_last() =~= Seq::<char>::empty()); }
    assert(ink(t) + ink(c.nl()) + ink(times(c.indent_text.tx(), l)) =~= ink(t));
}
/// Whatever is broken, trimmed or indented: the literal texts are written once each and in order.
pub proof fn theorem_text(d: Document, b: bool, l: nat, s: St, c: FormatConfig)
    requires no_ink(c.indent_text.tx()),
    ensures ink(laid(d, b, l, s, c).out) == ink(s.out) + ink(texts(d)),
    decreases d, 0nat,
{
    assert(ink(seq![]) =~= seq![]) by { reveal(Seq::filter); }
    assert(ink(s.out) + seq![] =~= ink(s.out));
    assert(ink(seq![' ']) =~= seq![]) by { reveal_with_fuel(Seq::filter, 3); assert(seq![' '].drop_last() =~= Seq::<char>::empty()); }
    lemma_ink_broke(s, l, c); lemma_ink_add(s.out, seq![' ']);
    match d {
        Document::Text(t) => { lemma_ink_add(s.out, t.tx()); }
        Document::Concat(v) => { theorem_texts(v, v@.len(), b, l, s, c); }
        Document::Group(x) => { theorem_text(*x, breaks(*x, s.col, c), l, s, c); }
        Document::Indent(x) => { theorem_text(*x, b, l + 1, s, c); }
        _ => { }
    }
}
pub proof fn theorem_texts(v: Vec<Document>, k: nat, b: bool, l: nat, s: St, c: FormatConfig)
    requires no_ink(c.indent_text.tx()), k <= v@.len(),
    ensures ink(laids(v, k, b, l, s, c).out) == ink(s.out) + ink(textss(v, k)),
    decreases v, k,
{
    assert(ink(seq![]) =~= seq![]) by { reveal(Seq::filter); }
    if k == 0 { assert(ink(s.out) + seq![] =~= ink(s.out)); } else {
        let j = (k - 1) as nat; theorem_texts(v, j, b, l, s, c);
        theorem_text(v@[k - 1], b, l, laids(v, j, b, l, s, c), c);
        lemma_ink_add(textss(v, j), texts(v@[k - 1]));
        assert(ink(s.out) + ink(textss(v, j)) + ink(texts(v@[k - 1])) =~= ink(s.out) + (ink(textss(v, j)) + ink(texts(v@[k - 1]))));
    }
}
pub proof fn theorem_finished(o: Seq<char>, c: FormatConfig) ensures ink(finished(o, c)) == ink(o) {
    lemma_ink_trim(o); let t = if c.trim_trailing_whitespace { trimmed(o) } else { o }; lemma_ink_add(t, c.nl());
    assert(no_ink(c.nl())) by { reveal_with_fuel(Seq::filter, 4); assert(seq!['\r', '\n'].drop_last() =~= seq!['\r']); assert(seq!['\r'].drop_last() =~= Seq::<char>::empty()); assert(seq!['\n'].drop_last() =~= Seq::<char>::empty()); }
    assert(ink(t) + ink(c.nl()) =~= ink(t));
}
/// Columns stay below this bound (no overflow of machine arithmetic).
pub open spec fn room(d: Document, l: nat, col: int, c: FormatConfig) -> bool { col + flat_width(d) <= usize::MAX && (l + depth(d)) * c.indent_size + flat_width(d) <= usize::MAX && l + depth(d) <= usize::MAX }
pub open spec fn upto(d: Document, l: nat, col: int, c: FormatConfig) -> int { let w = (l + depth(d)) * c.indent_size; (if w < col { col } else { w as int }) + flat_width(d) }
pub open spec fn upto_all(v: Vec<Document>, k: nat, l: nat, col: int, c: FormatConfig) -> int { let w = (l + depths(v, v@.len())) * c.indent_size; (if w < col { col } else { w as int }) + flat_widths(v, k) }
pub proof fn lemma_parts(v: Vec<Document>, k: nat, i: int)
    requires 0 <= i < k <= v@.len(),
    ensures flat_widths(v, i as nat) + flat_width(v@[i]) <= flat_widths(v, k), depth(v@[i]) <= depths(v, k), i + 1 < k ==> flat_widths(v, (i + 1) as nat) <= flat_widths(v, k),
    decreases k,
{ if i < k - 1 { lemma_parts(v, (k - 1) as nat, i); } }
pub proof fn lemma_hards(v: Vec<Document>, k: nat, n: nat) requires k <= n <= v@.len(), hards(v, k) ensures hards(v, n) decreases n { if n > k { lemma_hards(v, k, (n - 1) as nat); } }
pub proof fn lemma_mul(a: nat, b: nat, n: nat) requires a <= b ensures a * n <= b * n { assert(a * n <= b * n) by (nonlinear_arith) requires a <= b; }
//@src projects/oak-pretty-print/src/document/printer.rs
//@item Printer
impl Printer {
    pub open spec fn st(&self) -> St { St { out: self.output@, col: self.column as int } }
//@fn Printer::new -> r
    ensures r.config == config, r.st() == (St { out: seq![], col: 0 }), r.indent_level == 0,
//@body
//@end
//@fn Printer::print -> r
    requires room(*doc, self.indent_level as nat, self.column as int, self.config),
    ensures r@ == finished(laid(*doc, false, self.indent_level as nat, self.st(), self.config).out, self.config),
//@sub /\bself\b/ => this
//@sub /mut this/ => self
//@body
    let mut this = self;
//@end
//@fn Printer::finalize
    ensures final(self).output@ == finished(old(self).output@, old(self).config), final(self).config == old(self).config,
//@end
//@fn Printer::render
    requires room(*doc, old(self).indent_level as nat, old(self).column as int, old(self).config),
    ensures final(self).config == old(self).config, final(self).indent_level == old(self).indent_level,
        final(self).st() == laid(*doc, is_broken, old(self).indent_level as nat, old(self).st(), old(self).config),
        final(self).column <= upto(*doc, old(self).indent_level as nat, old(self).column as int, old(self).config),
    decreases doc,
//@iter 1 it
//@loop 1
    invariant
        *doc == Document::Concat(*docs), it.seq().len() == docs@.len(), forall|i: int| 0 <= i < docs@.len() ==> *#[trigger] it.seq()[i] == docs@[i],
        self.config == old(self).config, self.indent_level == old(self).indent_level,
        room(*doc, old(self).indent_level as nat, old(self).column as int, old(self).config),
        self.st() == laids(*docs, it.index@ as nat, is_broken, old(self).indent_level as nat, old(self).st(), old(self).config),
        self.column <= upto_all(*docs, it.index@ as nat, old(self).indent_level as nat, old(self).column as int, old(self).config),
//@loopstart 1
    proof {
        let i = it.index@ as int; assert(*d == docs@[i]); lemma_parts(*docs, docs@.len(), i); axiom_vec_index_decreases(*docs, i);
        lemma_mul((self.indent_level as nat + depth(*d)), (self.indent_level as nat + depths(*docs, docs@.len())), self.config.indent_size as nat);
        assert(docs@[i] == docs[i]);
    }
//@body
    proof { assert(self.output@.push(' ') =~= self.output@ + seq![' ']); lemma_mul(old(self).indent_level as nat, old(self).indent_level as nat + depth(*doc), old(self).config.indent_size as nat); }
//@end
//@fn Printer::newline
    requires old(self).indent_level * old(self).config.indent_size <= usize::MAX,
    ensures final(self).config == old(self).config, final(self).indent_level == old(self).indent_level, final(self).st() == broke(old(self).st(), old(self).indent_level as nat, old(self).config),
//@loop 1
    invariant self.config == old(self).config, self.indent_level == old(self).indent_level, trimmed(self.output@) == trimmed(old(self).output@), 
    ensures self.output@ == trimmed(old(self).output@), 
    decreases self.output@.len(),
//@end
//@fn Printer::write_indent
    ensures final(self).config == old(self).config, final(self).indent_level == old(self).indent_level, final(self).column == old(self).column, final(self).output@ == old(self).output@ + times(old(self).config.indent_text.tx(), old(self).indent_level as nat),
//@iter 1 it
//@loop 1
    invariant self.config == old(self).config, self.indent_level == old(self).indent_level, self.column == old(self).column, self.output@ == old(self).output@ + times(old(self).config.indent_text.tx(), it.index@ as nat),
//@loopend 1
    proof { let t = self.config.indent_text.tx(); assert(old(self).output@ + times(t, it.index@ as nat) + t =~= old(self).output@ + (times(t, it.index@ as nat) + t)); }
//@body
    assert(self.output@ + Seq::<char>::empty() =~= self.output@);
//@end
//@fn Printer::will_break -> r
    requires self.column + flat_width(*doc) <= usize::MAX,
    ensures r == breaks(*doc, self.column as int, self.config),
//@end
//@fn Printer::check_width -> r
    requires *old(width) + flat_width(*doc) <= usize::MAX,
    ensures r == breaks(*doc, *old(width) as int, self.config), !r ==> *final(width) == *old(width) + flat_width(*doc),
    decreases doc,
//@iter 1 it
//@loop 1
    invariant
        *doc == Document::Concat(*docs), it.seq().len() == docs@.len(), forall|i: int| 0 <= i < docs@.len() ==> *#[trigger] it.seq()[i] == docs@[i],
        *width == *old(width) + flat_widths(*docs, it.index@ as nat), *old(width) + flat_width(*doc) <= usize::MAX,
        !hards(*docs, it.index@ as nat), *width <= self.config.max_width,
//@loopstart 1
    proof { let i = it.index@ as int; assert(*d == docs@[i]); lemma_parts(*docs, docs@.len(), i); axiom_vec_index_decreases(*docs, i); assert(docs@[i] == docs[i]);
        if hard(*d) { assert(hards(*docs, (i + 1) as nat)); lemma_hards(*docs, (i + 1) as nat, docs@.len()); } }
//@end
}
