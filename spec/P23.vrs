#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include text_out.vrs
//@fmt
// ---- strings (assumed) -------------------------------------------------------------------------------
/// Byte offset of the k-th character.
pub open spec fn byte_at(s: Seq<char>, k: int) -> int { vstd::utf8::encode_utf8(s.take(k)).len() as int }
pub type Lines = Seq<Seq<char>>;
/// `s.insert(at, c)`: panics unless `at` is where a character starts, or the end.
#[verifier::external_body] pub fn insert_at(v: &mut Vec<String>, i: usize, at: usize, c: char)
    requires i < old(v)@.len(), exists|k: int| 0 <= k <= old(v)@[i as int]@.len() && at == #[trigger] byte_at(old(v)@[i as int]@, k),
    ensures forall|k: int| 0 <= k <= old(v)@[i as int]@.len() && at == #[trigger] byte_at(old(v)@[i as int]@, k) ==> views(final(v)@) == views(old(v)@).update(i as int, old(v)@[i as int]@.insert(k, c)),
{ v[i].insert(at, c) }
/// `s.remove(at)`: panics unless a character starts at `at`.
#[verifier::external_body] pub fn remove_at(v: &mut Vec<String>, i: usize, at: usize)
    requires i < old(v)@.len(), exists|k: int| 0 <= k < old(v)@[i as int]@.len() && at == #[trigger] byte_at(old(v)@[i as int]@, k),
    ensures forall|k: int| 0 <= k < old(v)@[i as int]@.len() && at == #[trigger] byte_at(old(v)@[i as int]@, k) ==> views(final(v)@) == views(old(v)@).update(i as int, old(v)@[i as int]@.remove(k)),
{ v[i].remove(at); }
#[verifier::external_body] pub fn push_at(v: &mut Vec<String>, i: usize, s: &String)
    requires i < old(v)@.len(), ensures views(final(v)@) == views(old(v)@).update(i as int, old(v)@[i as int]@ + s@),
{ v[i].push_str(s) }
/// No text is longer than `isize::MAX` bytes.
#[verifier::external_body] pub fn count_v(s: &str) -> (r: usize) ensures r == s@.len(), r <= isize::MAX { s.chars().count() }
#[verifier::external_body] pub proof fn axiom_short(s: &String) ensures s@.len() <= isize::MAX {}
#[verifier::external_body] pub fn nth_offset(s: &String, n: usize) -> (r: usize) ensures r == byte_at(s@, if n < s@.len() { n as int } else { s@.len() as int }) { s.char_indices().nth(n).map_or(s.len(), |(i, _)| i) }
#[verifier::external_body] pub fn str_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
#[verifier::external_body] pub fn empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
// ---- the terminal (assumed) --------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub enum KeyCode { Char(char), Enter, Backspace, Left, Right, Other(u8) }
#[derive(Clone, Copy)]
pub struct KeyModifiers { pub ctrl: bool }
impl KeyModifiers { pub fn has_ctrl(&self) -> (r: bool) ensures r == self.ctrl { self.ctrl } }
#[derive(Clone, Copy)]
pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers }
#[derive(Clone, Copy)]
pub enum Event { Key(KeyEvent), Other(u8) }
/// A terminal: any events may come, in any order; any operation may fail.
pub struct Term { pub k: u8 }
pub open spec fn same_input(a: Term, b: Term) -> bool { a.keys() == b.keys() && a.seen() == b.seen() && a.raw() == b.raw() }
impl Term {
    /// The events read so far, and what the line of the cursor was (text, column) when each was waited for.
    pub uninterp spec fn keys(&self) -> Seq<Event>;
    pub uninterp spec fn seen(&self) -> Seq<(Seq<char>, int)>;
    /// The line of the cursor and its column, as sent.
    pub uninterp spec fn line(&self) -> Seq<char>;
    pub uninterp spec fn col(&self) -> int;
    /// All that was sent has arrived.
    pub uninterp spec fn flushed(&self) -> bool;
    pub uninterp spec fn raw(&self) -> bool;
    #[verifier::external_body] pub fn set_raw(&mut self, on: bool) -> (r: Result<(), ReplError>) ensures final(self).keys() == old(self).keys(), final(self).seen() == old(self).seen(), r is Ok ==> final(self).raw() == on { unimplemented!() }
    #[verifier::external_body] pub fn go(&mut self, n: u16) -> (r: Result<(), ReplError>) ensures same_input(*final(self), *old(self)), r is Ok ==> final(self).line() == old(self).line() && final(self).col() == n { unimplemented!() }
    #[verifier::external_body] pub fn clear_line(&mut self) -> (r: Result<(), ReplError>) ensures same_input(*final(self), *old(self)), r is Ok ==> final(self).line() == Seq::<char>::empty() && final(self).col() == old(self).col() { unimplemented!() }
    #[verifier::external_body] pub fn write_text(&mut self, s: &str) -> (r: Result<(), ReplError>) ensures same_input(*final(self), *old(self)), r is Ok && old(self).line().len() == 0 && old(self).col() == 0 ==> final(self).line() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), ReplError>) ensures same_input(*final(self), *old(self)), r is Ok ==> final(self).flushed() && final(self).line() == old(self).line() && final(self).col() == old(self).col() { unimplemented!() }
    /// Any other output.
    #[verifier::external_body] pub fn other(&mut self) ensures same_input(*final(self), *old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn read(&mut self) -> (r: Result<Event, ReplError>)
        requires old(self).raw(), old(self).flushed(),
        ensures final(self).raw() == old(self).raw(), r is Ok ==> final(self).keys() == old(self).keys().push(r->Ok_0) && final(self).seen() == old(self).seen().push((old(self).line(), old(self).col())), r is Err ==> same_input(*final(self), *old(self)) { unimplemented!() }
}
pub struct ReplError { pub k: u8 }
pub struct HighlightResult { pub k: u8 }
pub struct OakHighlighter { pub k: u8 }
impl OakHighlighter { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }
pub struct AnsiExporter;
/// What P18 is about.
pub uninterp spec fn ansi(h: HighlightResult) -> Seq<char>;
impl AnsiExporter { #[verifier::external_body] pub fn export(&self, h: &HighlightResult) -> (r: String) ensures r@ == ansi(*h) { unimplemented!() } }
pub trait Same: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl Same for String { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
// ---- the line buffer ---------------------------------------------------------------------------------
//@gsub /self\.lines\[self\.current_line\]\.insert\(([^,()]+), (\w+)\)/ => insert_at(&mut self.lines, self.current_line, \1, \2)
//@gsub /self\.lines\[self\.current_line\]\.remove\(([^,()]+)\)/ => remove_at(&mut self.lines, self.current_line, \1)
//@gsub /self\.lines\[self\.current_line\]\.push_str\(&(\w+)\)/ => push_at(&mut self.lines, self.current_line, &\1)
//@gsub /((?:\w+\.)?lines\[[\w.]+\])\.chars\(\)\.count\(\)/ => count_v(\1.as_str())
//@gsub /(\w+)\.chars\(\)\.count\(\)/ => count_v(\1)
//@gsub /(\w+)\.char_indices\(\)\.nth\(([\w.]+)\)\.map_or\(\1\.len\(\), \|\((\w+), _\)\| \3\)/ => nth_offset(\1, \2)
//@gsub /\.join\(/ => .join_v(
//@gsub /(\w+\.lines\[\d+\])\.is_empty\(\)/ => str_empty(\1.as_str())
//@gsub /String::new\(\)/ => empty_string()
//@gsub /\.clone\(\)/ => .clone_v()
//@src projects/oak-repl/src/lib.rs
//@item LineBuffer
//@item HandleResult
/// A text being typed: its lines, the line of the cursor, how many characters stand before the cursor.
pub struct Buf { pub lines: Lines, pub line: int, pub pos: int }
pub open spec fn blank() -> Buf { Buf { lines: seq![Seq::empty()], line: 0, pos: 0 } }
pub open spec fn put(b: Buf, c: char) -> Buf { Buf { lines: b.lines.update(b.line, b.lines[b.line].insert(b.pos, c)), line: b.line, pos: b.pos + 1 } }
/// Without the character before the cursor; at the start of a line, the line joins the one before.
pub open spec fn back(b: Buf) -> Buf {
    if b.pos > 0 { Buf { lines: b.lines.update(b.line, b.lines[b.line].remove(b.pos - 1)), line: b.line, pos: b.pos - 1 } }
    else if b.line > 0 { Buf { lines: b.lines.remove(b.line).update(b.line - 1, b.lines[b.line - 1] + b.lines[b.line]), line: b.line - 1, pos: b.lines[b.line - 1].len() as int } }
    else { b }
}
pub open spec fn whole(b: Buf) -> Seq<char> { joined(b.lines, "\n"@) }
/// The cursor is in the last line.
pub open spec fn last_line(b: Buf) -> bool { b.line == b.lines.len() - 1 }
pub open spec fn empty(b: Buf) -> bool { b.lines.len() == 1 && b.lines[0].len() == 0 }
impl LineBuffer {
    pub open spec fn inv(&self) -> bool { self.current_line < self.lines@.len() && self.cursor_pos <= self.lines@[self.current_line as int]@.len() }
    pub open spec fn buf(&self) -> Buf { Buf { lines: views(self.lines@), line: self.current_line as int, pos: self.cursor_pos as int } }
//@fn LineBuffer::new -> r
    ensures r.inv(), r.buf() == blank(),
//@sub /Self \{ lines: vec!\[String::new\(\)\], current_line: 0, cursor_pos: 0 \}/ => let r = Self { lines: vec![String::new()], current_line: 0, cursor_pos: 0 }; proof { assert(views(r.lines@) =~= blank().lines); } r
//@end
//@fn LineBuffer::cursor_offset -> r
    requires self.inv(),
    ensures r == byte_at(self.lines@[self.current_line as int]@, self.cursor_pos as int),
//@end
//@fn LineBuffer::insert
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buf() == put(old(self).buf(), ch),
//@before /self\.cursor_pos \+= 1/
    proof {
        let i = self.current_line as int;
        assert(views(old(self).lines@)[i] == old(self).lines@[i]@);
        assert(views(self.lines@)[i] == old(self).lines@[i]@.insert(self.cursor_pos as int, ch));
        assert(self.lines@.len() == views(self.lines@).len());
        axiom_short(&self.lines@[i]);
        assert(views(self.lines@) =~= put(old(self).buf(), ch).lines);
    }
//@end
//@fn LineBuffer::backspace -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buf() == back(old(self).buf()), r == (old(self).cursor_pos > 0 || old(self).current_line > 0),
//@body
    let ghost i = self.current_line as int;
    proof { assert(views(self.lines@)[i] == self.lines@[i]@); if i > 0 { assert(views(self.lines@)[i - 1] == self.lines@[i - 1]@); } }
//@before /true/1
    proof { assert(self.lines@.len() == views(self.lines@).len()); assert(views(self.lines@)[i] == self.lines@[i]@); }
//@before /true/2
    proof { let v = old(self).lines@; assert(self.lines@.len() == views(self.lines@).len());
        assert(views(v.remove(i)) =~= views(v).remove(i));
        assert(views(self.lines@) =~= back(old(self).buf()).lines);
        assert(views(self.lines@)[i - 1] == self.lines@[i - 1]@); }
//@end
//@fn LineBuffer::full_text -> r
    ensures r@ == whole(self.buf()),
//@end
//@fn LineBuffer::clear
    ensures final(self).inv(), final(self).buf() == blank(),
//@sub /self\.cursor_pos = 0;/ => self.cursor_pos = 0; proof { assert(views(self.lines@) =~= blank().lines); }
//@end
//@fn LineBuffer::is_empty -> r
    ensures r == empty(self.buf()),
//@body
    proof { if self.lines@.len() > 0 { assert(views(self.lines@)[0] == self.lines@[0]@); } }
//@end
}
// ---- a session ---------------------------------------------------------------------------------------
/// A language: what is complete, and when to stop, may depend on everything handled before.
pub trait ReplHandler: Sized {
    /// The texts handled so far.
    spec fn log(&self) -> Lines;
    spec fn complete(log: Lines, code: Seq<char>) -> bool;
    spec fn exits(log: Lines) -> bool;
    spec fn indent(log: Lines, code: Seq<char>) -> nat;
    spec fn prompted(log: Lines, more: bool) -> Seq<char>;
    spec fn marked(log: Lines, line: Seq<char>) -> Option<HighlightResult>;
    fn highlight(&self, code: &str) -> (r: Option<HighlightResult>) ensures r == Self::marked(self.log(), code@);
    fn prompt(&self, is_continuation: bool) -> (r: &str) ensures r@ == Self::prompted(self.log(), is_continuation);
    fn is_complete(&self, code: &str) -> (r: bool) ensures r == Self::complete(self.log(), code@);
    fn handle_line(&mut self, line: &str) -> (r: Result<HandleResult, ReplError>) ensures final(self).log() == old(self).log().push(line@), Self::exits(final(self).log()) <==> (r is Ok && r->Ok_0 is Exit);
    fn get_indent(&self, code: &str) -> (r: usize) ensures r == Self::indent(self.log(), code@);
}
/// `more`: a line was opened since the text was last begun.
pub struct St { pub buf: Buf, pub log: Lines, pub more: bool, pub done: bool }
pub open spec fn spaces(b: Buf, n: nat) -> Buf decreases n { if n == 0 { b } else { put(spaces(b, (n - 1) as nat), ' ') } }
/// A fresh last line.
pub open spec fn fresh(b: Buf) -> Buf { Buf { lines: b.lines.push(Seq::empty()), line: b.line + 1, pos: 0 } }
/// What one event does.
pub open spec fn step<H: ReplHandler>(s: St, e: Event) -> St {
    match e {
        Event::Other(_) => s,
        Event::Key(k) => match k.code {
            KeyCode::Char(c) => if c == 'c' && k.modifiers.ctrl { St { buf: blank(), more: false, ..s } } else if c == 'd' && k.modifiers.ctrl { if empty(s.buf) { St { done: true, ..s } } else { s } } else { St { buf: put(s.buf, c), ..s } },
            KeyCode::Enter => { let code = whole(s.buf);
                if H::complete(s.log, code) { let log = s.log.push(code); if H::exits(log) { St { log, done: true, ..s } } else { St { buf: blank(), log, more: false, ..s } } }
                else { St { buf: spaces(fresh(s.buf), H::indent(s.log, code)), more: true, ..s } } }
            KeyCode::Backspace => St { buf: back(s.buf), ..s },
            KeyCode::Left => if s.buf.pos > 0 { St { buf: Buf { pos: s.buf.pos - 1, ..s.buf }, ..s } } else { s },
            KeyCode::Right => if s.buf.pos < s.buf.lines[s.buf.line].len() { St { buf: Buf { pos: s.buf.pos + 1, ..s.buf }, ..s } } else { s },
            KeyCode::Other(_) => s,
        },
    }
}
/// What a sequence of events comes to.
pub open spec fn after<H: ReplHandler>(keys: Seq<Event>, log: Lines) -> St decreases keys.len() { if keys.len() == 0 { St { buf: blank(), log, more: false, done: false } } else { step::<H>(after::<H>(keys.drop_last(), log), keys.last()) } }
proof fn lemma_after<H: ReplHandler>(keys: Seq<Event>, e: Event, log: Lines) ensures after::<H>(keys.push(e), log) == step::<H>(after::<H>(keys, log), e) { assert(keys.push(e).drop_last() =~= keys); }
/// The line of the screen while a key is waited for: the prompt, then the line of the cursor, as the handler marks it.
pub open spec fn screen<H: ReplHandler>(s: St) -> Seq<char> { H::prompted(s.log, s.more) + (match H::marked(s.log, s.buf.lines[s.buf.line]) { Some(h) => ansi(h), None => s.buf.lines[s.buf.line] }) }
pub open spec fn column<H: ReplHandler>(s: St) -> int { H::prompted(s.log, s.more).len() + s.buf.pos }
pub open spec fn shows<H: ReplHandler>(s: St, at: (Seq<char>, int)) -> bool { at.0 == screen::<H>(s) && (column::<H>(s) <= u16::MAX ==> at.1 == column::<H>(s)) }
/// Whenever a key was waited for, the screen showed what the keys before came to.
pub open spec fn all_shown<H: ReplHandler>(keys: Seq<Event>, seen: Seq<(Seq<char>, int)>, log: Lines) -> bool { seen.len() == keys.len() && forall|i: int| 0 <= i < keys.len() ==> shows::<H>(after::<H>(keys.take(i), log), #[trigger] seen[i]) }
proof fn lemma_shown<H: ReplHandler>(keys: Seq<Event>, seen: Seq<(Seq<char>, int)>, e: Event, at: (Seq<char>, int), log: Lines)
    requires all_shown::<H>(keys, seen, log), shows::<H>(after::<H>(keys, log), at), ensures all_shown::<H>(keys.push(e), seen.push(at), log)
{ assert(keys.push(e).take(keys.len() as int) =~= keys); assert forall|i: int| 0 <= i < keys.push(e).len() implies shows::<H>(after::<H>(keys.push(e).take(i), log), #[trigger] seen.push(at)[i]) by { if i < keys.len() { assert(keys.push(e).take(i) =~= keys.take(i)); assert(seen.push(at)[i] == seen[i]); } } }
/// Characters typed one after the other are the text.
pub proof fn theorem_typed<H: ReplHandler>(keys: Seq<Event>, text: Seq<char>, log: Lines)
    requires keys.len() == text.len(), forall|i: int| 0 <= i < keys.len() ==> keys[i] == Event::Key(KeyEvent { code: KeyCode::Char(#[trigger] text[i]), modifiers: KeyModifiers { ctrl: false } }),
    ensures after::<H>(keys, log) == (St { buf: Buf { lines: seq![text], line: 0, pos: text.len() as int }, log, more: false, done: false }), whole(after::<H>(keys, log).buf) == text,
    decreases keys.len(),
{
    let n = keys.len() - 1;
    if n >= 0 {
        theorem_typed::<H>(keys.drop_last(), text.drop_last(), log);
        assert(keys.last() == Event::Key(KeyEvent { code: KeyCode::Char(text[n]), modifiers: KeyModifiers { ctrl: false } }));
        assert(text.drop_last().insert(n, text[n]) =~= text);
        assert(seq![text.drop_last()].update(0, text) =~= seq![text]);
    } else { assert(text =~= Seq::empty()); assert(seq![text] =~= blank().lines); }
}
pub struct OakRepl<H: ReplHandler> { pub handler: H }
impl<H: ReplHandler> OakRepl<H> {
//@fn OakRepl::new -> r
    ensures r.handler == handler,
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn OakRepl::run -> r
    requires old(term).keys().len() == 0, old(term).seen().len() == 0,
    // the texts handled are those the keys compose, each once, in order
    ensures r is Ok ==> after::<H>(final(term).keys(), old(self).handler.log()).done && final(self).handler.log() == after::<H>(final(term).keys(), old(self).handler.log()).log,
    // what was shown whenever a key was waited for
    all_shown::<H>(final(term).keys(), final(term).seen(), old(self).handler.log()),
    // the terminal is left as it was found
    r is Ok ==> !final(term).raw(),
//@sub /pub fn run\(&mut self\)/ => pub fn run(&mut self, term: &mut Term)
//@sub /let mut stdout = io::stdout\(\);/ => 
//@sub /execute!\(stdout, MoveToColumn\((\w+)\), Clear\(ClearType::CurrentLine\)\)\?;/ => term.go(\1)?; term.clear_line()?;
//@sub /execute!\(stdout, MoveToColumn\((\w+)\)\)\?;/ => term.go(\1)?;
//@sub /write!\(stdout, (.*?)\)\?;/ => { let drawn = format!(\1); term.write_text(drawn.as_str())?; }
//@sub /stdout\.flush\(\)\?;/ => term.flush()?;
//@sub /terminal::enable_raw_mode\(\)\?;/ => term.set_raw(true)?;
//@sub /terminal::disable_raw_mode\(\)\?;/ => term.set_raw(false)?;
//@sub /match self\.handler\.handle_line\(/ => assert(!term.raw()); match self.handler.handle_line(
//@sub /if let Event::Key\((\w+)\) = event::read\(\)\? \{/ => proof { assert(column::<H>(now) <= u16::MAX ==> term.col() == column::<H>(now)); lemma_shown::<H>(keys0, term.seen(), Event::Other(0), (term.line(), term.col()), log0); } let ghost at = (term.line(), term.col()); let ghost seen0 = term.seen(); let event = term.read()?; proof { lemma_shown::<H>(keys0, seen0, event, at, log0); was = now; now = step::<H>(now, event); lemma_after::<H>(keys0, event, log0); } if let Event::Key(\1) = event {
//@sub /Err\((\w+)\) => eprintln!\(.*?\),/ => Err(_) => term.other(),
//@sub /e?println!\(.*?\);/ => term.other();
//@sub /\.modifiers\.contains\(KeyModifiers::CONTROL\)/ => .modifiers.has_ctrl()
//@sub /for _ in 0\.\.(\w+)/ => for k in 0..\1
//@loop 1
    invariant_except_break now == after::<H>(term.keys(), log0), !now.done, term.raw(), is_continuation == now.more,
    invariant all_shown::<H>(term.keys(), term.seen(), log0), log0 == old(self).handler.log(), line_buf.inv(), last_line(line_buf.buf()), line_buf.buf() == now.buf, self.handler.log() == now.log,
    ensures after::<H>(term.keys(), log0).done, after::<H>(term.keys(), log0).log == self.handler.log(), log0 == old(self).handler.log(),
//@body
    let ghost log0 = self.handler.log();
    let ghost mut now = St { buf: blank(), log: log0, more: false, done: false };
    let ghost mut was = now;
//@loopstart 1
    let ghost keys0 = term.keys();
    proof { axiom_short(&line_buf.lines@[line_buf.current_line as int]); assert(views(line_buf.lines@)[line_buf.current_line as int] == line_buf.lines@[line_buf.current_line as int]@); }
//@loop 2
    invariant line_buf.inv(), last_line(line_buf.buf()), line_buf.buf() == spaces(fresh(was.buf), k as nat),
//@before /line_buf\.current_line \+= 1;/
    proof { assert(line_buf.lines@.len() == views(line_buf.lines@).len()); assert(line_buf.lines.len() <= usize::MAX); }
//@after /line_buf\.cursor_pos = 0;/
    proof { assert(views(line_buf.lines@) =~= fresh(was.buf).lines); }
//@end
}
}
fn main() {}
