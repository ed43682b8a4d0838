// ---- the lexer state -------------------------------------------------------------------------
/// `==` on token kinds is equality (`same` stands for it).
pub trait TokenType: Copy + Sized { const END_OF_STREAM: Self; fn same(self, o: Self) -> (r: bool) ensures r == (self == o); }
//@gsub /self\.kind == K::END_OF_STREAM/ => self.kind.same(K::END_OF_STREAM)
//@gsub /self\.tokens\.last\(\)\.is_none_or\(\|t\| ((?:[^()]|\(\))*)\)/ => (match last_token(&self.tokens) { None => true, Some(t) => \1 })
//@gsub /(\w+)\.last\(\)\.map\(\|t\| t\.span\.end\)\.unwrap_or\(0\)/ => (match last_token(&\1) { None => 0, Some(t) => t.span.end })
pub trait Language { type TokenType: TokenType; }
/// Diagnostics are only stored and passed on.
pub struct OakError { pub e: u64 }
//@src projects/oak-core/src/lexer/mod.rs
#[derive(Clone, Copy)]
#[verifier::allow(autoderive_clone_without_spec)]
//@item Token
impl<K> Token<K> {
//@fn Token::length -> r
    requires self.span.start <= self.span.end,
    ensures r == self.span.end - self.span.start,
//@end
}
impl<K: TokenType> Token<K> {
    /// The empty token that marks the end of the input.
    pub open spec fn end_tok(&self) -> bool { self.kind == K::END_OF_STREAM && self.span.start == self.span.end }
//@fn Token::is_end -> r
    ensures r == self.end_tok(),
//@end
}
pub fn last_token<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some == (v@.len() > 0), r is Some ==> *r->0 == v@.last() { if v.len() == 0 { None } else { Some(&v[v.len() - 1]) } }
//@item LexerState
impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
    pub open spec fn t(&self) -> Seq<u8> { self.cursor.t() }
    pub open spec fn pos(&self) -> int { self.cursor.offset as int }
    /// The position is a character boundary inside the text.
    pub open spec fn inv(&self) -> bool { self.cursor.winv() && cb(self.t(), self.pos()) }
    pub open spec fn same(&self, o: &Self) -> bool { self.cursor.same(&o.cursor) && self.errors == o.errors }
    /// Only the position may differ.
    pub open spec fn moved(&self, o: &Self) -> bool { self.same(o) && self.tokens == o.tokens }
    /// One token was added, from the old position to e, and the position is e.
    pub open spec fn took(&self, o: &Self, kind: L::TokenType, e: int) -> bool { self.inv() && self.same(o) && self.pos() == e && o.pos() <= e <= self.t().len() && self.tokens@ == o.tokens@.push(Token { kind, span: Range { start: o.cursor.offset, end: e as usize } }) }
    /// Nothing was consumed or added.
    pub open spec fn kept(&self, o: &Self) -> bool { self.inv() && self.moved(o) && self.pos() == o.pos() }
//@fn LexerState::new -> r
    requires source.inv(),
    ensures r.inv(), r.cursor.source == source, r.t() == source.text(), r.pos() == 0, r.tokens@ == Seq::<Token<L::TokenType>>::empty(), r.errors@ == Seq::<OakError>::empty(),
//@body
    proof { source.lemma_inv(); }
//@end
//@fn LexerState::rest -> r
    requires old(self).inv(),
    ensures final(self).kept(old(self)), final(self).cursor.here(), r.spec_bytes() == final(self).t().subrange(final(self).pos(), final(self).cursor.chunk.e()),
//@end
//@fn LexerState::fully_reused -> r
    requires self.inv(),
    ensures r == (self.pos() >= self.t().len()),
//@end
//@fn LexerState::get_position -> r
    ensures r == self.pos(),
//@end
//@fn LexerState::not_at_end -> r
    requires self.cursor.winv(),
    ensures r == (self.pos() < self.t().len()),
//@end
//@fn LexerState::peek -> r
    requires old(self).inv(),
    ensures final(self).kept(old(self)), r == peek(old(self).t(), old(self).pos()),
//@end
//@fn LexerState::peek_next -> r
    requires old(self).inv(),
    ensures final(self).kept(old(self)), old(self).pos() < old(self).t().len() ==> r == peek(old(self).t(), old(self).pos() + charlen(char_at(old(self).t(), old(self).pos()))), old(self).pos() >= old(self).t().len() ==> r is None,
//@end
//@fn LexerState::peek_next_n -> r
    requires old(self).inv(), old(self).pos() + n <= usize::MAX, old(self).pos() + n >= old(self).t().len() || cb(old(self).t(), old(self).pos() + n),
    ensures final(self).kept(old(self)), r == peek(old(self).t(), old(self).pos() + n),
//@end
//@fn LexerState::advance
    requires old(self).cursor.winv(), old(self).pos() + len <= usize::MAX, old(self).pos() + len >= old(self).t().len() || cb(old(self).t(), old(self).pos() + len),
    ensures final(self).inv(), final(self).moved(old(self)), final(self).pos() == (if old(self).pos() + len <= old(self).t().len() { old(self).pos() + len } else { old(self).t().len() as int }),
//@end
//@fn LexerState::get_length -> r
    requires self.inv(),
    ensures r == self.t().len(),
//@end
//@fn LexerState::get_char_at -> r
    requires self.inv(), offset >= self.t().len() || cb(self.t(), offset as int),
    ensures r == peek(self.t(), offset as int),
//@end
//@fn LexerState::peek_byte -> r
    requires old(self).cursor.winv(),
    ensures final(self).cursor.winv(), final(self).moved(old(self)), final(self).pos() == old(self).pos(), r == (if old(self).pos() < old(self).t().len() { Some(old(self).t()[old(self).pos()]) } else { None }),
//@end
//@fn LexerState::advance_byte -> r
    requires old(self).cursor.winv(),
    ensures final(self).cursor.winv(), final(self).moved(old(self)), r == (if old(self).pos() < old(self).t().len() { Some(old(self).t()[old(self).pos()]) } else { None }), final(self).pos() == old(self).pos() + (if r is Some { 1int } else { 0 }),
//@end
//@fn LexerState::take_while_byte -> r
    requires old(self).inv(), forall|x: u8| #[trigger] call_requires(pred, (x,)),
    ensures final(self).cursor.winv(), final(self).moved(old(self)), r.start == old(self).pos(), r.end == final(self).pos(), r.start <= r.end,
        forall|k: int| r.start <= k < r.end ==> call_ensures(pred, (#[trigger] old(self).t()[k],), true), r.end < old(self).t().len() ==> call_ensures(pred, (old(self).t()[r.end as int],), false),
//@end
//@fn LexerState::skip_ascii_whitespace -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).moved(old(self)), r.start == old(self).pos(), r.end == final(self).pos(), run_end(old(self).t(), r.start as int, r.end as int, |x: u8| is_ws(x)),
//@body
    proof { lemma_runs(self.t(), self.pos()); }
//@end
//@fn LexerState::skip_ascii_digits -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).moved(old(self)), r.start == old(self).pos(), r.end == final(self).pos(), run_end(old(self).t(), r.start as int, r.end as int, |x: u8| is_digit(x)),
//@body
    proof { lemma_runs(self.t(), self.pos()); }
//@end
//@fn LexerState::skip_ascii_ident_continue -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).moved(old(self)), r.start == old(self).pos(), r.end == final(self).pos(), run_end(old(self).t(), r.start as int, r.end as int, |x: u8| is_ident(x)),
//@body
    proof { lemma_runs(self.t(), self.pos()); }
//@end
//@fn LexerState::skip_until -> r
    requires old(self).cursor.winv(), !cont(target),
    ensures final(self).inv(), final(self).moved(old(self)), r.start == old(self).pos(), r.end == final(self).pos(), run_end(old(self).t(), r.start as int, r.end as int, |x: u8| x != target), forall|k: int| r.start <= k < r.end ==> #[trigger] old(self).t()[k] != target,
//@end
//@fn LexerState::starts_with -> r
    requires old(self).inv(),
    ensures final(self).kept(old(self)), r == is_prefix(pattern.spec_bytes(), old(self).t().skip(old(self).pos())),
//@end
//@fn LexerState::consume_if_starts_with -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).moved(old(self)), r == is_prefix(pattern.spec_bytes(), old(self).t().skip(old(self).pos())),
        final(self).pos() == old(self).pos() + (if r { pattern.spec_bytes().len() as int } else { 0 }),
//@end
//@fn LexerState::set_position -> r
    requires old(self).cursor.winv(), offset >= old(self).t().len() || cb(old(self).t(), offset as int),
    ensures final(self).inv(), final(self).moved(old(self)), r == old(self).pos(), final(self).pos() == (if offset <= final(self).t().len() { offset as int } else { final(self).t().len() as int }),
//@end
//@fn LexerState::source -> r
    ensures r == self.cursor.source,
//@end
//@fn LexerState::get_text_in -> r
    requires self.inv(), range.start <= range.end <= self.t().len(), cb(self.t(), range.start as int), cb(self.t(), range.end as int),
    ensures r.bytes() == self.t().subrange(range.start as int, range.end as int),
//@end
//@fn LexerState::get_text_from -> r
    requires self.inv(), offset >= self.t().len() || cb(self.t(), offset as int),
    ensures r.bytes() == if offset <= self.t().len() { self.t().skip(offset as int) } else { Seq::empty() },
//@end
//@fn LexerState::add_error
//@sub /error: impl Into<OakError>/ => error: E
//@sub /fn add_error\(/ => fn add_error<E: Into<OakError>>(
    requires call_requires(<E as Into<OakError>>::into, (error,)),
    ensures *final(self) == (LexerState::<'s, S, L> { errors: final(self).errors, ..*old(self) }), exists|e: OakError| call_ensures(<E as Into<OakError>>::into, (error,), e) && final(self).errors@ == #[trigger] old(self).errors@.push(e),
//@end
//@fn LexerState::rest_bytes -> r
    requires old(self).inv(),
    ensures final(self).kept(old(self)), final(self).cursor.here(), r@ == final(self).t().subrange(final(self).pos(), final(self).cursor.chunk.e()),
//@end
//@fn LexerState::get_tokens -> r
    ensures r@ == self.tokens@,
//@end
//@fn LexerState::tokens -> r
    ensures r@ == self.tokens@,
//@end
//@fn LexerState::add_token
    ensures *final(self) == (LexerState::<'s, S, L> { tokens: final(self).tokens, ..*old(self) }), final(self).tokens@ == old(self).tokens@.push(Token { kind, span: Range { start, end } }),
//@end
//@fn LexerState::add_eof
    requires old(self).inv(),
    ensures ({ let o = old(self); let k = o.tokens@; if k.len() > 0 && k.last().end_tok() && k.last().span.end == o.pos() { *final(self) == *o } else { final(self).took(o, L::TokenType::END_OF_STREAM, o.pos()) } }),
//@end
//@fn LexerState::current -> r
    requires old(self).inv(),
    ensures final(self).kept(old(self)), r == peek(old(self).t(), old(self).pos()),
//@end
//@fn LexerState::bump -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).moved(old(self)), r == peek(old(self).t(), old(self).pos()), final(self).pos() == old(self).pos() + (if r is Some { charlen(r->0) } else { 0 }),
//@body
    proof { if self.pos() < self.t().len() { lemma_step(self.t(), self.pos()); } }
//@end
//@fn LexerState::advance_with -> r
    requires old(self).inv(), token.span.start == old(self).pos(), token.span.start <= token.span.end, cb(old(self).t(), token.span.end as int),
    ensures final(self).took(old(self), token.kind, token.span.end as int), r == final(self).pos(),
//@end
//@fn LexerState::take_while -> r
    requires old(self).inv(), forall|x: char| #[trigger] call_requires(pred, (x,)),
    ensures final(self).inv(), final(self).moved(old(self)), r.start == old(self).pos(), r.end == final(self).pos(), taken(old(self).t(), r.start as int, r.end as int, |c: char, b: bool| call_ensures(pred, (c,), b)),
        forall|k: int| r.start <= k < r.end && #[trigger] cb(old(self).t(), k) ==> call_ensures(pred, (char_at(old(self).t(), k),), true), r.end < old(self).t().len() ==> call_ensures(pred, (char_at(old(self).t(), r.end as int),), false),
//@body
    let ghost t = self.t(); let ghost p = |c: char, b: bool| call_ensures(pred, (c,), b); let ghost old_self = *self;
//@loop 1
    invariant self.inv(), self.moved(&old_self), old_self == *old(self), self.t() == t, start == old(self).pos(), start <= self.pos(), forall|x: char| #[trigger] call_requires(pred, (x,)), p == (|c: char, b: bool| call_ensures(pred, (c,), b)),
        forall|k: int| start <= k < self.pos() && cb(t, k) ==> #[trigger] p(char_at(t, k), true),
    ensures self.pos() < t.len() ==> p(char_at(t, self.pos()), false) && call_ensures(pred, (char_at(t, self.pos()),), false),
    decreases t.len() - self.pos(),
//@loopstart 1
    proof { if self.pos() < t.len() { lemma_step(t, self.pos()); } }
//@afterloop 1
    proof { assert forall|k: int| start <= k < self.pos() && #[trigger] cb(t, k) implies p(char_at(t, k), true) by { } }
//@end
//@fn LexerState::advance_if_dead_lock
    requires old(self).inv(),
    ensures final(self).inv(), final(self).moved(old(self)), old(self).pos() != safe_point ==> final(self).pos() == old(self).pos(),
        old(self).pos() == safe_point && old(self).pos() < old(self).t().len() ==> final(self).pos() == old(self).pos() + charlen(char_at(old(self).t(), old(self).pos())), old(self).pos() >= old(self).t().len() ==> final(self).pos() == old(self).pos(),
//@body
    proof { if self.pos() < self.t().len() { lemma_step(self.t(), self.pos()); } }
//@end
}
