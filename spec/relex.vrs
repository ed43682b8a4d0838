// ---- incremental relexing ---------------------------------------------------------------------
//@src projects/oak-core/src/errors/mod.rs
//@item OakDiagnostics
pub type Tokens<L> = Arc<[Token<<L as Language>::TokenType>]>;
pub type LexOutput<L> = OakDiagnostics<Tokens<L>>;
/// Two outputs say the same.
pub open spec fn says<L: Language>(o: LexOutput<L>, p: LexOutput<L>) -> bool { o.diagnostics@ == p.diagnostics@ && match o.result { Ok(t) => p.result is Ok && t@ == p.result->Ok_0@, Err(e) => p.result == Err::<Tokens<L>, OakError>(e) } }
/// The derived `Clone` of a lexer's output.
#[verifier::external_body]
pub fn clone_out<L: Language>(o: &LexOutput<L>) -> (r: LexOutput<L>) ensures says::<L>(r, *o) { unimplemented!() }
/// `Vec<T> -> Arc<[T]>`.
#[verifier::external_body]
pub fn into_arc<T>(v: Vec<T>) -> (r: Arc<[T]>) ensures r@ == v@ { v.into() }
/// The tokens of an output: none if the lexer failed.
pub open spec fn out_toks<L: Language>(o: LexOutput<L>) -> Seq<Token<L::TokenType>> { match o.result { Ok(t) => t@, Err(_) => Seq::empty() } }
/// A cache holds the tokens of one earlier document (assumed of the cache: it is a trait of the caller; proved for the parse session in P13).
pub trait LexerCache<L: Language> {
    spec fn toks(&self) -> Seq<Token<L::TokenType>>;
    fn set_lex_output(&mut self, output: LexOutput<L>) ensures final(self).toks() == out_toks::<L>(output);
    fn get_token(&self, index: usize) -> (r: Option<Token<L::TokenType>>) ensures r == (if index < self.toks().len() { Some(self.toks()[index as int]) } else { None });
    fn count_tokens(&self) -> (r: usize) ensures r == self.toks().len();
    fn has_tokens(&self) -> (r: bool) ensures r == (self.toks().len() > 0);
    fn get_tokens(&self) -> (r: Option<&[Token<L::TokenType>]>) ensures r is Some ==> r->0@ == self.toks();
}
/// Tokens in document order; only the last one may mark the end.
#[verifier::opaque]
pub open spec fn in_order<K: TokenType>(c: Seq<Token<K>>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).span.start <= c[i].span.end
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).span.end <= (#[trigger] c[j]).span.start
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> !(#[trigger] c[i]).end_tok()
}
pub open spec fn early<K: TokenType>(t: Token<K>, from: int) -> bool { t.span.end <= from && !t.end_tok() }
pub proof fn lemma_early<K: TokenType>(c: Seq<Token<K>>, from: int)
    requires in_order(c),
    ensures forall|i: int, j: int| 0 <= i < j < c.len() && #[trigger] early(c[j], from) ==> #[trigger] early(c[i], from),
{ reveal(in_order); }
#[verifier::opaque]
pub open spec fn ends_cb<K>(c: Seq<Token<K>>, t: Seq<u8>, from: int) -> bool { forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]).span.end <= from && c[i].span.end <= t.len() ==> cb(t, c[i].span.end as int) }
pub proof fn lemma_ends_cb<K>(c: Seq<Token<K>>, t: Seq<u8>, from: int, k: int)
    requires ends_cb(c, t, from), valid_utf8(t), 0 <= k <= c.len(), k > 0 ==> c[k - 1].span.end <= from && c[k - 1].span.end <= t.len(),
    ensures end_of(c.take(k)) <= t.len(), cb(t, end_of(c.take(k))), 0 <= end_of(c.take(k)),
{ reveal(ends_cb); lemma_ends(Seq::empty()); }
pub open spec fn end_of<K>(c: Seq<Token<K>>) -> int { if c.len() > 0 { c.last().span.end as int } else { 0 } }
/// Keeping the first k cached tokens is justified for a text of length n that agrees with the old one up to `from`:
/// either the document is the same, or one more token also ends before the first difference.
pub open spec fn keeps<K: TokenType>(c: Seq<Token<K>>, n: int, from: int, k: int) -> bool {
    0 <= k <= c.len() && (k == 0 || (k == c.len() && from >= n && c.last().span.end == n) || (k < c.len() && c[k].span.end <= from && !c[k].end_tok()))
}
/// `slice::partition_point`.
#[verifier::external_body]
pub fn partition_v<T, F: Fn(&T) -> bool>(s: &[T], pred: F) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] call_requires(pred, (&s@[i],)),
        forall|i: int, j: int, b: bool| #![trigger call_ensures(pred, (&s@[j],), true), call_ensures(pred, (&s@[i],), b)] 0 <= i < j < s@.len() && call_ensures(pred, (&s@[j],), true) && call_ensures(pred, (&s@[i],), b) ==> b,
    ensures r <= s@.len(), forall|i: int| #![trigger s@[i]] 0 <= i < r ==> call_ensures(pred, (&s@[i],), true), forall|i: int| #![trigger s@[i]] r <= i < s@.len() ==> call_ensures(pred, (&s@[i],), false),
{ s.partition_point(|x| pred(x)) }
pub fn extend_v<T: Copy>(v: &mut Vec<T>, s: &[T], n: usize)
    requires n <= s@.len(),
    ensures final(v)@ == old(v)@ + s@.take(n as int),
{
    let mut i = 0;
    while i < n invariant i <= n <= s@.len(), v@ == old(v)@ + s@.take(i as int) decreases n - i { v.push(s[i]); i += 1; proof { assert(s@.take(i as int) =~= s@.take(i - 1).push(s@[i - 1])); assert(v@ =~= old(v)@ + s@.take(i as int)); } }
    proof { assert(v@ =~= old(v)@ + s@.take(n as int)); }
}
//@gsub /(\w+)\.extend_from_slice\(&(\w+)\[\.\.(\w+)\]\)/ => extend_v(&mut \1, \2, \3)
//@gsub /(\w+)\.extend_from_slice\((\w+)\)/ => extend_v(&mut \1, \2, \2.len())
//@gsub /(\w+)\.partition_point\(\|t\| ((?:[^()]|\(\))*)\)/ => partition_v(\1, |t: &Token<L::TokenType>| -> (b: bool) ensures b == early(*t, relex_from as int) { \2 })
//@src projects/oak-core/src/lexer/mod.rs
impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
//@fn LexerState::new_with_cache -> r
    requires source.inv(), in_order(cache.toks()), ends_cb(cache.toks(), source.text(), relex_from as int),
    ensures r.inv(), r.cursor.source == source, r.t() == source.text(), r.errors@ == Seq::<OakError>::empty(),
        exists|k: int| #[trigger] keeps(cache.toks(), source.text().len() as int, relex_from as int, k) && r.tokens@ == cache.toks().take(k) && r.pos() == end_of(cache.toks().take(k)),
//@body
    let ghost c = cache.toks(); let ghost t = source.text(); let ghost from = relex_from as int;
    proof { source.lemma_inv(); assert(c.take(0) =~= Seq::<Token<L::TokenType>>::empty()); assert(c.take(c.len() as int) =~= c); assert(keeps(c, t.len() as int, from, 0)); }
//@after /let relex_from = [^;]*;/
    proof { lemma_early(c, relex_from as int); if c.len() > 0 && c.last().span.end == t.len() && from >= t.len() { lemma_ends_cb(c, t, from, c.len() as int); assert(keeps(c, t.len() as int, from, c.len() as int)); } }
//@after /let end = [^;]*;/
    proof { assert(tokens@ =~= c.take(c.len() as int)); }
//@after /let keep = idx[^;]*;/
    proof { assert(keep < idx || keep == 0); if keep > 0 { assert(early(cached@[keep as int], relex_from as int)); assert(early(cached@[keep - 1], relex_from as int)); } }
//@before /let stable_offset/
    proof { let k = reused_tokens@.len() as int; assert(reused_tokens@ =~= c.take(k)); if k > 0 { assert(early(c[k], relex_from as int)); assert(early(c[k - 1], relex_from as int)); } lemma_ends_cb(c, t, from, k); assert(keeps(c, t.len() as int, from, k)); }
//@loop 1
    invariant c == cache.toks(), count == c.len(), tokens@ == c.take(i as int),
//@loopend 1
    proof { assert(c.take(i + 1) =~= c.take(i as int).push(c[i as int])); }
//@loop 2
    invariant_except_break reused_tokens@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] early(c[j], relex_from as int),
    invariant c == cache.toks(), count == c.len(), i <= count, reused_tokens@ == c.take(reused_tokens@.len() as int), 
    ensures reused_tokens@.len() <= c.len(), reused_tokens@ == c.take(reused_tokens@.len() as int), forall|j: int| 0 <= j < reused_tokens@.len() ==> #[trigger] early(c[j], relex_from as int),
//@loopend 2
    proof { assert(c.take(i + 1) =~= c.take(i as int).push(c[i as int])); }
//@end
}
// ---- why this is enough -----------------------------------------------------------------------
/// What a lexer does at a position: the kind and the end of the token that starts there.
pub type Step<K> = spec_fn(Seq<u8>, int) -> (K, int);
pub open spec fn start_of<K>(c: Seq<Token<K>>, i: int) -> int { if i == 0 { 0 } else { c[i - 1].span.end as int } }
#[verifier::opaque]
pub open spec fn lexed_at<K>(f: Step<K>, t: Seq<u8>, c: Seq<Token<K>>, i: int) -> bool {
    let o = start_of(c, i); c[i].span.start == o && f(t, o) == (c[i].kind, c[i].span.end as int) && o < c[i].span.end <= t.len()
}
/// c is the run of the lexer over t from the start (the end-of-input token set aside).
pub open spec fn lexed<K>(f: Step<K>, t: Seq<u8>, c: Seq<Token<K>>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] lexed_at(f, t, c, i) }
/// A token depends on nothing after the end of the token that follows it.
#[verifier::opaque]
pub open spec fn local_at<K>(f: Step<K>, t: Seq<u8>, u: Seq<u8>, o: int) -> bool {
    let e = f(t, o).1; let e2 = f(t, e).1; (0 <= o < e < e2 <= t.len() && e2 <= u.len() && t.take(e2) == u.take(e2)) ==> f(u, o) == f(t, o)
}
pub open spec fn looks_ahead_one<K>(f: Step<K>) -> bool { forall|t: Seq<u8>, u: Seq<u8>, o: int| #[trigger] local_at(f, t, u, o) }
/// The reused tokens are those a run over the new text from the start begins with.
pub proof fn lemma_relex<K: TokenType>(f: Step<K>, t: Seq<u8>, u: Seq<u8>, c: Seq<Token<K>>, from: int, k: int)
    requires looks_ahead_one(f), lexed(f, t, c), keeps(c, u.len() as int, from, k), c.len() > 0 ==> c.last().span.end == t.len(),
        0 <= from, forall|i: int| 0 <= i < from && i < t.len() && i < u.len() ==> #[trigger] t[i] == u[i], from <= t.len() || t == u, k > 0 ==> from <= u.len() || u.len() == c.last().span.end,
    ensures lexed(f, u, c.take(k)), k == c.len() ==> u == t || k == 0,
{
    if k == c.len() && k > 0 {
        if from >= u.len() && c.last().span.end == u.len() { assert(t =~= u); assert(c.take(k) =~= c); }
    } else {
        assert forall|i: int| 0 <= i < k implies #[trigger] lexed_at(f, u, c.take(k), i) by {
            reveal(lexed_at); reveal(local_at);
            let o = start_of(c, i);
            assert(lexed_at(f, t, c, i)); assert(lexed_at(f, t, c, i + 1));
            lemma_tok_ends(f, t, c, i + 1, k);
            let e2 = c[i + 1].span.end as int;
            assert(e2 <= u.len());
            assert(t.take(e2) =~= u.take(e2));
            assert(local_at(f, t, u, o));
            assert(start_of(c.take(k), i) == o);
        }
    }
}
pub proof fn lemma_tok_ends<K>(f: Step<K>, t: Seq<u8>, c: Seq<Token<K>>, i: int, k: int)
    requires lexed(f, t, c), 0 <= i <= k < c.len(),
    ensures c[i].span.end <= c[k].span.end,
    decreases k - i,
{ if i < k { lemma_tok_ends(f, t, c, i + 1, k); assert(lexed_at(f, t, c, i + 1)); reveal(lexed_at); } }
impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
//@fn LexerState::finish -> r
//@sub /self\.tokens\.into\(\)/ => into_arc(self.tokens)
    ensures r.diagnostics@ == self.errors@, match result { Ok(_) => r.result is Ok && r.result->Ok_0@ == self.tokens@, Err(e) => r.result == Err::<Tokens<L>, OakError>(e) },
//@end
//@fn LexerState::finish_with_cache -> r
//@sub /out\.clone\(\)/ => clone_out::<L>(&out)
//@sub /cache: &mut impl LexerCache<L>/ => cache: &mut C
//@sub /fn finish_with_cache\(/ => fn finish_with_cache<C: LexerCache<L>>(
    ensures r.diagnostics@ == self.errors@, match result { Ok(_) => r.result is Ok && r.result->Ok_0@ == self.tokens@, Err(e) => r.result == Err::<Tokens<L>, OakError>(e) },
        final(cache).toks() == out_toks::<L>(r),
//@end
}
