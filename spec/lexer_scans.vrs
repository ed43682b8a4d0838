//@gsub /self\.escape\.map_or\((\w+), \|c\| (c\.\w+\(\))\)/ => (match self.escape { Some(c) => \2, None => \1 })
//@gsub /self\.quotes\.contains\(&c\)/ => chars_contain(self.quotes, c)
//@src projects/oak-core/src/lexer/mod.rs
impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
//@fn LexerState::scan_ascii_identifier -> r
    requires old(self).inv(),
    ensures r == (old(self).pos() < old(self).t().len() && (is_alpha(old(self).t()[old(self).pos()]) || old(self).t()[old(self).pos()] == 95)),
        !r ==> final(self).kept(old(self)),
        r ==> final(self).took(old(self), kind, final(self).pos()) && run_end(old(self).t(), old(self).pos(), final(self).pos(), |x: u8| is_ident(x)),
//@body
    proof { if self.pos() < self.t().len() && self.t()[self.pos()] < 0x80 { lemma_ascii_next(self.t(), self.pos()); } }
//@end
//@fn LexerState::scan_line_comment -> r
    requires old(self).inv(),
    ensures r == pre(old(self).t(), old(self).pos(), prefix.spec_bytes()), !r ==> final(self).kept(old(self)),
        r ==> final(self).took(old(self), kind, final(self).pos()) && line_tail(old(self).t(), old(self).pos() + prefix.spec_bytes().len(), final(self).pos()),
//@end
//@fn LexerState::scan_block_comment -> r
    requires old(self).inv(), end_seq.spec_bytes().len() > 0,
    ensures r == pre(old(self).t(), old(self).pos(), start_seq.spec_bytes()), !r ==> final(self).kept(old(self)),
        r ==> final(self).took(old(self), kind, final(self).pos()) && closed(old(self).t(), old(self).pos() + start_seq.spec_bytes().len(), end_seq.spec_bytes(), final(self).pos()),
//@body
    let ghost t = self.t(); let ghost os = *self; let ghost p = end_seq.spec_bytes(); let ghost a = self.pos() + start_seq.spec_bytes().len();
    proof { lemma_str_valid(end_seq); lemma_first_not_cont(p); lemma_pre_cb(t, self.pos(), start_seq); lemma_none_first(t, a, p); }
//@loop 1
    invariant self.cursor.winv(), self.moved(&os), os == *old(self), os.inv(), self.t() == t, a <= self.pos() <= t.len(), a == os.pos() + start_seq.spec_bytes().len(), p == end_seq.spec_bytes(), p.len() > 0, !cont(p[0]), valid_utf8(p), start == os.pos(), none_before(t, a, self.pos(), p), a >= 0,
        pre(t, os.pos(), start_seq.spec_bytes()),
    ensures self.pos() == t.len(),
    decreases t.len() - self.pos(),
//@afterloop 1
    proof { lemma_none_at(t, a, self.cursor.offset, p); }
//@loopstart 1
    let ghost x = self.pos();
//@after /self\.skip_until\(end_seq\.as_bytes\(\)\[0\]\);/
    proof { lemma_skip_to(t, x, self.pos(), p); lemma_join(t, a, x, self.pos(), p); lemma_none_at(t, a, self.cursor.offset, p); }
//@end
}
//@src projects/oak-core/src/lexer/scan_comment.rs
//@item CommentConfig
impl CommentConfig {
//@fn CommentConfig::scan -> r
    requires old(state).inv(), old(state).t().len() <= i32::MAX,
    ensures ({ let t = old(state).t(); let o = old(state).pos(); let lm = self.line_marker.spec_bytes(); let bs = self.block_start.spec_bytes(); let be = self.block_end.spec_bytes();
        if lm.len() > 0 && pre(t, o, lm) { r && final(state).took(old(state), line_kind, final(state).pos()) && line_tail(t, o + lm.len(), final(state).pos()) }
        else if bs.len() > 0 && pre(t, o, bs) { r && final(state).took(old(state), block_kind, block_end(t, o + bs.len(), bs, be, self.nested_blocks, 1)) }
        else { !r && final(state).kept(old(state)) } }),
//@sub /\|(\w+)\| (\1 [!=]= b'[^']+')/ => |\1: u8| -> (q: bool) ensures q == (\2) { \2 }
//@body
    let ghost t = state.t(); let ghost os = *state; let ghost bs = self.block_start.spec_bytes(); let ghost be = self.block_end.spec_bytes(); let ghost nb = self.nested_blocks;
    proof { lemma_pre_cb(t, state.pos(), self.line_marker); lemma_pre_cb(t, state.pos(), self.block_start); }
//@loop 1
    invariant state.inv(), state.moved(&os), os == *old(state), state.t() == t, t.len() <= i32::MAX, valid_utf8(t), bs == self.block_start.spec_bytes(), be == self.block_end.spec_bytes(), nb == self.nested_blocks, start == os.pos(),
        0 <= depth <= state.pos(), start <= state.pos() <= t.len(), block_end(t, state.pos(), bs, be, nb, depth as int) == block_end(t, start + bs.len(), bs, be, nb, 1), bs.len() > 0,
    decreases t.len() - state.pos(), depth,
//@loopstart 1
    proof { lemma_block_step(t, state.pos(), self.block_start, self.block_end, nb, depth as int); }
//@afterloop 1
    proof { lemma_block_step(t, state.pos(), self.block_start, self.block_end, nb, depth as int); }
//@end
}
//@fn starts_with_line_comment -> r
    ensures r == is_prefix(seq![47u8, 47u8], bytes@),
//@sub /bytes\.starts_with\(b"\/\/"\)/ => bytes_start(bytes, &[47u8, 47u8])
//@end
//@fn starts_with_block_comment -> r
    ensures r == is_prefix(seq![47u8, 42u8], bytes@),
//@sub /bytes\.starts_with\(b"\/\*"\)/ => bytes_start(bytes, &[47u8, 42u8])
//@end
//@src projects/oak-core/src/lexer/scan_identifier.rs
//@fn is_ascii_ident_start -> r
    ensures r == (is_alpha(b) || b == 95),
//@end
//@fn is_ascii_ident_continue -> r
    ensures r == is_ident(b),
//@end
//@src projects/oak-core/src/lexer/scan_number.rs
//@fn count_ascii_digit_prefix -> r
    requires bytes@.len() <= isize::MAX,
    ensures run_end(bytes@, 0, r as int, |x: u8| is_digit(x)),
//@end
//@fn count_ascii_hexdigit_prefix -> r
    requires bytes@.len() <= isize::MAX,
    ensures run_end(bytes@, 0, r as int, |x: u8| is_hex(x)),
//@end
//@src projects/oak-core/src/lexer/scan_white_space.rs
//@item WhitespaceConfig
impl WhitespaceConfig {
//@fn WhitespaceConfig::scan -> r
    requires old(state).inv(),
    ensures ({ let t = old(state).t(); let o = old(state).pos(); let e = final(state).pos();
        &&& r == (e > o) && (r ==> final(state).took(old(state), kind, e)) && (!r ==> final(state).kept(old(state)))
        &&& self.unicode_whitespace ==> uni_ws_run(t, o, e)
        &&& !self.unicode_whitespace ==> run_end(t, o, e, |x: u8| is_ws(x)) }),
//@sub /\|(\w+)\| \1\.is_whitespace\(\)/ => |\1: char| -> (b: bool) ensures b == is_unicode_ws(\1) { unicode_ws(\1) }
//@end
}
//@fn count_space_tab_prefix -> r
    requires bytes@.len() <= isize::MAX,
    ensures run_end(bytes@, 0, r as int, |x: u8| x == 32 || x == 9),
//@end
//@src projects/oak-core/src/lexer/scan_string.rs
//@fn find_first_of_4 -> r
    requires bytes@.len() <= isize::MAX,
    ensures first4(bytes@, a, b, c, d, r),
//@body
    proof { reveal(first4); }
//@end
//@item StringConfig
impl StringConfig {
//@fn StringConfig::scan -> r
    requires old(state).inv(), self.escape is Some ==> !self.quotes@.contains(self.escape->0),
    ensures ({ let t = old(state).t(); let o = old(state).pos();
        if o < t.len() && self.quotes@.contains(char_at(t, o)) { let q = char_at(t, o); r && final(state).took(old(state), kind, str_end(t, o + charlen(q), q, self.escape)) }
        else { !r && final(state).kept(old(state)) } }),
//@sub /let quote = match state\.current\(\) \{/ => let first = state.current(); let quote = match first {
//@sub /Some\((\w+)\) if (self\.quotes\.contains\([^)]*\)) => \1,/ => Some(\1) => { if !\2 { return false; } \1 }
//@sub /self\.escape\.map\(\|c\| c as u8\)\.unwrap_or\(q_byte\)/ => (match self.escape { Some(c) => c as u8, None => q_byte })
//@body
    let ghost t = state.t(); let ghost os = *state; let ghost esc = self.escape;
    proof { if state.pos() < t.len() { lemma_step(t, state.pos()); lemma_charlen(char_at(t, state.pos())); } }
//@loop 1
    invariant state.inv(), state.moved(&os), os == *old(state), state.t() == t, valid_utf8(t), t.len() <= isize::MAX, start == os.pos(), quote == char_at(t, os.pos()), os.pos() < t.len(), self.quotes@.contains(quote), esc == self.escape, (quote as int) < 0x80, esc is Some ==> (esc->0 as int) < 0x80 && esc->0 != quote, q_byte as int == quote as int, e_byte as int == (match esc { Some(c) => c as int, None => quote as int }),
        start <= state.pos(), str_end(t, state.pos(), quote, esc) == str_end(t, start + charlen(quote), quote, esc),
    ensures state.pos() == t.len(),
    decreases t.len() - state.pos(),
//@loopstart 1
    let ghost o = state.pos();
    proof { lemma_str_step(t, o, quote, esc); }
//@after /let bytes = rest\.as_bytes\(\);/
    proof { assert(bytes@ == t.subrange(o, o + bytes@.len())); lemma_first4(t, o, o + bytes@.len(), quote, esc, q_byte, e_byte); }
//@after /state\.advance\(pos\);/
    proof { lemma_str_step(t, state.pos(), quote, esc); assert(found == q_byte ==> char_at(t, state.pos()) == quote); assert(found != q_byte ==> Some(char_at(t, state.pos())) == esc);  }
//@loop 2
    invariant state.inv(), state.moved(&os), os == *old(state), state.t() == t, valid_utf8(t), t.len() <= isize::MAX, start == os.pos(), quote == char_at(t, os.pos()), os.pos() < t.len(), self.quotes@.contains(quote), esc == self.escape, 
        start <= state.pos(), str_end(t, state.pos(), quote, esc) == str_end(t, start + charlen(quote), quote, esc),
    ensures state.pos() == t.len(),
    decreases t.len() - state.pos(),
//@loopstart 2
    proof { lemma_str_step(t, state.pos(), quote, esc); }
//@afterloop 1
    proof { lemma_str_step(t, state.pos(), quote, esc); }
//@afterloop 2
    proof { lemma_str_step(t, state.pos(), quote, esc); }
//@end
}
