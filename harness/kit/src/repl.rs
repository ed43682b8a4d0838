//! P23: the line buffer of the REPL is the text its keys compose, and complete texts are handled, each once.
use crate::common::*;
use oak_highlight::{AnsiExporter, Exporter, HighlightResult, HighlightSegment, HighlightStyle, highlighter::HighlightSpan};
use oak_repl::{HandleResult, LineBuffer, OakRepl, ReplError, ReplHandler};
use std::{
    cell::{Cell, RefCell},
    io::Write,
};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Key {
    Ch(char),
    Enter,
    Back,
    Left,
    Right,
    Up,
    Break, // Ctrl-C
    End,   // Ctrl-D
}
impl Key {
    fn bytes(self) -> Vec<u8> {
        match self {
            Key::Ch(c) => c.to_string().into_bytes(),
            Key::Enter => vec![13],
            Key::Back => vec![127],
            Key::Left => b"\x1b[D".to_vec(),
            Key::Right => b"\x1b[C".to_vec(),
            Key::Up => b"\x1b[A".to_vec(),
            Key::Break => vec![3],
            Key::End => vec![4],
        }
    }
}
/// Lines of characters, the line of the cursor (the last one), the characters before it.
#[derive(Debug, Clone, PartialEq)]
struct Model {
    lines: Vec<Vec<char>>,
    pos: usize,
}
impl Model {
    fn new() -> Model {
        Model { lines: vec![vec![]], pos: 0 }
    }
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
    }
    fn put(&mut self, c: char) {
        self.lines.last_mut().unwrap().insert(self.pos, c);
        self.pos += 1;
    }
    fn back(&mut self) -> bool {
        if self.pos > 0 {
            self.pos -= 1;
            self.lines.last_mut().unwrap().remove(self.pos);
        }
        else if self.lines.len() > 1 {
            let l = self.lines.pop().unwrap();
            self.pos = self.lines.last().unwrap().len();
            self.lines.last_mut().unwrap().extend(l);
        }
        else {
            return false;
        }
        true
    }
    fn empty(&self) -> bool {
        self.lines.len() == 1 && self.lines[0].is_empty()
    }
}
// the language: brackets are closed and no backslash ends the text; `q` alone leaves; `!` fails
fn depth(code: &str) -> i32 {
    code.chars().map(|c| if c == '(' { 1 } else if c == ')' { -1 } else { 0 }).sum()
}
fn complete(code: &str) -> bool {
    depth(code) <= 0 && !code.ends_with('\\')
}
fn indent(code: &str) -> usize {
    (depth(code).max(0) * 2) as usize
}
/// Two handlers: one that waits for brackets to be closed, one that waits for `;` whatever else there is.
fn complete_by(rule: u8, code: &str) -> bool {
    if rule == 0 { complete(code) } else { code.ends_with(';') }
}
fn indent_by(rule: u8, code: &str) -> usize {
    if rule == 0 { indent(code) } else { code.matches('{').count() + code.ends_with('\n') as usize }
}
/// How a line is marked.
fn marked(rule: u8, line: &str) -> Option<HighlightResult<'_>> {
    let style = HighlightStyle { bold: true, ..Default::default() };
    (rule == 1 && line.contains('{')).then(|| HighlightResult { segments: vec![HighlightSegment { span: HighlightSpan { start: 0, end: line.len() }, style, text: line.into() }], source: line.into() })
}
const PROMPTS: [&str; 2] = ["é> ", "...日 "];
/// What is handled, and what is shown (a line and a column) while each key is waited for.
fn expect(rule: u8, keys: &[Key]) -> (Vec<String>, Vec<(String, usize)>) {
    let mut m = Model::new();
    let mut log = vec![];
    let mut shown = vec![];
    let mut more = false;
    for k in keys {
        let line: String = m.lines.last().unwrap().iter().collect();
        let prompt = PROMPTS[more as usize];
        shown.push((format!("{prompt}{}", marked(rule, &line).map_or(line.clone(), |h| AnsiExporter.export(&h))), prompt.chars().count() + m.pos));
        match k {
            Key::Ch(c) => m.put(*c),
            Key::Back => {
                m.back();
            }
            Key::Left => m.pos = m.pos.saturating_sub(1),
            Key::Right => m.pos = (m.pos + 1).min(m.lines.last().unwrap().len()),
            Key::Up => {}
            Key::Break => {
                m = Model::new();
                more = false
            }
            Key::End => {
                if m.empty() {
                    return (log, shown);
                }
            }
            Key::Enter => {
                let t = m.text();
                if complete_by(rule, &t) {
                    m = Model::new();
                    more = false;
                    log.push(t.clone());
                    if t.trim() == "q" {
                        return (log, shown);
                    }
                }
                else {
                    m.lines.push(vec![]);
                    m.pos = 0;
                    more = true;
                    (0..indent_by(rule, &t)).for_each(|_| m.put(' '));
                }
            }
        }
    }
    unreachable!()
}
/// Types the keys, one for each prompt.
struct H<'a> {
    rule: u8,
    keys: &'a [Key],
    at: Cell<usize>,
    log: &'a RefCell<Vec<String>>,
    master: i32,
}
impl ReplHandler for H<'_> {
    fn highlight<'b>(&self, code: &'b str) -> Option<HighlightResult<'b>> {
        marked(self.rule, code)
    }
    fn prompt(&self, more: bool) -> &str {
        let i = self.at.replace(self.at.get() + 1);
        let Some(k) = self.keys.get(i) else {
            assert!(i < 4 * self.keys.len() + 10, "still reading after all {} keys", self.keys.len());
            return PROMPTS[0];
        };
        let b = k.bytes();
        unsafe {
            assert_eq!(libc::write(self.master, b.as_ptr() as *const _, b.len()), b.len() as isize);
        }
        PROMPTS[more as usize]
    }
    fn is_complete(&self, code: &str) -> bool {
        complete_by(self.rule, code)
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> {
        assert!(line_mode(), "the terminal is raw while a text is handled");
        self.log.borrow_mut().push(line.to_string());
        if line.contains('!') {
            return Err(ReplError::from("no"));
        }
        Ok(if line.trim() == "q" { HandleResult::Exit } else { HandleResult::Continue })
    }
    fn get_indent(&self, code: &str) -> usize {
        indent_by(self.rule, code)
    }
}
/// A terminal of our own in place of standard input.
fn terminal() -> Option<i32> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY);
        if m < 0 || libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
            return None;
        }
        let name = libc::ptsname(m);
        if name.is_null() {
            return None;
        }
        let s = libc::open(name, libc::O_RDWR | libc::O_NOCTTY);
        if s < 0 || libc::dup2(s, 0) < 0 {
            return None;
        }
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(0, &mut t);
        t.c_lflag &= !(libc::ECHO | libc::ISIG);
        libc::tcsetattr(0, libc::TCSANOW, &t);
        Some(m)
    }
}
/// The terminal hands on whole lines.
fn line_mode() -> bool {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(0, &mut t);
        t.c_lflag & libc::ICANON != 0
    }
}
/// Standard output goes to a file in memory, and error nowhere, while this lives.
struct Quiet(i32, i32, i32);
impl Quiet {
    fn new() -> Quiet {
        let _ = std::io::stdout().flush();
        unsafe {
            let q = Quiet(libc::dup(1), libc::dup(2), libc::memfd_create(c"out".as_ptr(), 0));
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(if q.2 >= 0 { q.2 } else { n }, 1);
            libc::dup2(n, 2);
            libc::close(n);
            q
        }
    }
    fn written(&self) -> String {
        if self.2 < 0 {
            return String::new();
        }
        let _ = std::io::stdout().flush();
        let mut v = vec![];
        unsafe {
            let n = libc::lseek(self.2, 0, libc::SEEK_END).max(0) as usize;
            v.resize(n, 0);
            libc::pread(self.2, v.as_mut_ptr() as *mut _, n, 0);
        }
        String::from_utf8_lossy(&v).into_owned()
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.0, 1);
            libc::dup2(self.1, 2);
            libc::close(self.0);
            libc::close(self.1);
            libc::close(self.2);
        }
    }
}
/// What the line of the cursor is, and where in it the cursor was last set, after each piece of output.
fn frames(out: &str) -> Vec<(String, usize)> {
    let (mut line, mut col) = (String::new(), 0);
    let mut v = vec![];
    let mut rest = out;
    while !rest.is_empty() {
        let n = match rest.strip_prefix("\x1b[") {
            Some(t) => {
                let n = t.find(|c: char| c.is_ascii_alphabetic()).unwrap_or(t.len() - 1) + 3;
                let arg = &rest[2..n - 1];
                match &rest[n - 1..n] {
                    "G" => col = arg.parse::<usize>().unwrap_or(1) - 1,
                    "K" => line.clear(),
                    "m" => line += &rest[..n],
                    _ => {}
                }
                n
            }
            None => {
                let n = rest.char_indices().skip(1).find(|(_, c)| *c == '\x1b').map_or(rest.len(), |(i, _)| i);
                let n = rest.find('\n').map_or(n, |i| n.min(i + 1));
                if line.is_empty() && col != 0 {
                    line.push('?')
                }
                line += &rest[..n];
                if line.ends_with('\n') {
                    line.clear();
                    col = usize::MAX
                }
                n
            }
        };
        rest = &rest[n..];
        v.push((line.clone(), col));
    }
    v
}
fn session(rule: u8, master: i32, keys: &[Key]) -> Result<(), String> {
    let mut keys = keys.to_vec();
    keys.extend([Key::Break, Key::End]);
    let (want, shown) = expect(rule, &keys);
    let log = RefCell::new(vec![]);
    let q = Quiet::new();
    let mut repl = OakRepl::new(H { rule, keys: &keys, at: Cell::new(0), log: &log, master });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| repl.run()));
    let out = q.written();
    drop(q);
    let got = log.borrow().clone();
    match r {
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return Err(format!("panic: {m}"));
        }
        Ok(r) => ck!(r.is_ok(), "the session ends with {r:?}"),
    }
    ckeq!(got, want, "texts handled");
    ck!(line_mode(), "the terminal is left raw");
    if out.is_empty() {
        // no file to write to
        return Ok(());
    }
    let mut all = frames(&out).into_iter();
    for (i, w) in shown.iter().enumerate() {
        ck!(all.any(|f| f == *w), "while key {i} was waited for, the screen did not show {w:?}, output {out:?}");
    }
    Ok(())
}
const CHARS: &[char] = &['a', 'b', '(', ')', ' ', 'é', '日', '🦀', '\\', '!', 'q', 'c', 'd', '\u{301}'];
fn keys(r: &mut Rng, n: usize) -> Vec<Key> {
    let mut v = vec![];
    while v.len() < n {
        match r.below(20) {
            0..=9 => v.push(Key::Ch(*r.pick(CHARS))),
            10 | 11 => v.push(Key::Enter),
            12 | 13 => v.push(Key::Back),
            14 => (0..r.range(1, 6)).for_each(|_| v.push(Key::Left)),
            15 => v.push(Key::Left),
            16 => (0..r.range(1, 4)).for_each(|_| v.push(Key::Right)),
            17 => v.push(Key::Up),
            18 => (0..r.range(2, 9)).for_each(|_| v.push(Key::Back)),
            _ => v.push(*r.pick(&[Key::Break, Key::End, Key::Ch('('), Key::Ch('\\'), Key::End])),
        }
    }
    v
}
fn buffer(ops: &[Option<char>]) -> Result<(), String> {
    let mut b = LineBuffer::new();
    let mut m = Model::new();
    for (i, o) in ops.iter().enumerate() {
        match o {
            Some('\u{0}') => {
                b.clear();
                m = Model::new();
            }
            Some(c) => {
                b.insert(*c);
                m.put(*c);
            }
            None => ckeq!(b.backspace(), m.back(), "backspace, step {i}"),
        }
        ckeq!(b.full_text(), m.text(), "text after step {i}");
        ckeq!(b.is_empty(), m.empty(), "is_empty after step {i}");
    }
    Ok(())
}
pub fn p23(c: &mut Ctx) {
    c.family("buffer");
    let al = ['a', 'é', '🦀'];
    for n in 0..=6usize {
        for mut x in 0..4usize.pow(n as u32) {
            let ops: Vec<Option<char>> = (0..n)
                .map(|_| {
                    let k = x % 4;
                    x /= 4;
                    al.get(k).copied()
                })
                .collect();
            c.case(|| format!("{ops:?}"), || buffer(&ops));
        }
    }
    let mut r = c.rng("buffer");
    for _ in 0..c.n(2000, 30000) {
        let n = r.range(1, 60);
        let ops: Vec<Option<char>> = (0..n).map(|_| if r.chance(1, 3) { None } else { Some(*r.pick(&['a', ' ', 'é', '日', '🦀', '\n', '\u{301}', '\u{0}'])) }).collect();
        c.case(|| format!("{ops:?}"), || buffer(&ops));
    }
    let Some(master) = terminal() else { return };
    c.family("sessions, exhaustive");
    let ks = [Key::Ch('é'), Key::Ch('('), Key::Left, Key::Right, Key::Back, Key::Enter];
    let top = if c.thorough { 5 } else { 4 };
    for n in 0..=top {
        for mut x in 0..ks.len().pow(n as u32) {
            let v: Vec<Key> = (0..n)
                .map(|_| {
                    let k = x % ks.len();
                    x /= ks.len();
                    ks[k]
                })
                // what was typed is handled
                .chain([Key::Enter, Key::Ch(')'), Key::Enter])
                .collect();
            c.case(|| format!("{v:?}"), || session(0, master, &v));
        }
    }
    let ks = [Key::Ch('é'), Key::Ch('{'), Key::Enter, Key::Back, Key::End, Key::Left, Key::Break];
    for n in 0..=top {
        for mut x in 0..ks.len().pow(n as u32) {
            let v: Vec<Key> = (0..n)
                .map(|_| {
                    let k = x % ks.len();
                    x /= ks.len();
                    ks[k]
                })
                .chain([Key::Ch(';'), Key::Enter])
                .collect();
            c.case(|| format!("waiting for `;`, {v:?}"), || session(1, master, &v));
        }
    }
    c.family("sessions, random");
    let mut r = c.rng("sessions");
    for _ in 0..c.n(1500, 20000) {
        let n = r.range(1, 50);
        let v = keys(&mut r, n);
        c.case(|| format!("{v:?}"), || session(0, master, &v));
        let n = r.range(1, 30);
        let v: Vec<Key> = keys(&mut r, n).into_iter().map(|k| match k {
            Key::Ch('(') => Key::Ch('{'),
            Key::Ch(')') => Key::Ch(';'),
            Key::Ch('a' | 'b') => Key::Enter,
            k => k,
        }).collect();
        c.case(|| format!("waiting for `;`, {v:?}"), || session(1, master, &v));
    }
    c.family("sessions, long");
    for _ in 0..c.n(15, 120) {
        let n = r.range(300, 1500);
        let mut v = keys(&mut r, n);
        if r.chance(1, 2) {
            // few pauses: long lines
            v.retain(|k| !matches!(k, Key::Break | Key::End) && (*k != Key::Enter || r.chance(1, 6)));
        }
        c.case(|| format!("{} keys: {v:?}", v.len()), || session(0, master, &v));
    }
}
