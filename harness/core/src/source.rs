//! P01 source views, P02 edits, P03 byte scanners, P04 cursor.
use crate::common::*;
use crate::{ck, ckeq};
use core::range::Range;
use oak_core::source::*;
use std::borrow::Cow;

pub const ALPHA: &[char] = &['a', ' ', '\n', 'é', '漢', '😀', '"', '*', '/', '0'];

/// A rope whose chunks are exactly `pieces` (each piece appended by its own edit).
pub fn rope_of(pieces: &[&str]) -> RopeBuffer {
    let mut r = RopeBuffer::new("");
    let mut at = 0;
    for p in pieces {
        r.apply_edits(&[TextEdit { span: Range { start: at, end: at }, text: Cow::Owned(p.to_string()) }]);
        at += p.len();
    }
    r
}
pub fn chunked_of(pieces: &[&str]) -> ChunkedBuffer {
    let mut r = ChunkedBuffer::new();
    for p in pieces {
        r.push_str(p);
    }
    r
}
/// Cuts `t` at the character boundaries selected by `cuts`.
pub fn split_at_all<'a>(t: &'a str, cuts: &[usize]) -> Vec<&'a str> {
    let mut v = vec![];
    let mut last = 0;
    for &c in cuts {
        if c > last && c < t.len() {
            v.push(&t[last..c]);
            last = c;
        }
    }
    if last < t.len() {
        v.push(&t[last..]);
    }
    v
}
pub fn random_pieces<'a>(t: &'a str, rng: &mut Rng) -> Vec<&'a str> {
    let b = boundaries(t);
    let p = rng.range(0, 4);
    let cuts: Vec<usize> = b.iter().copied().filter(|_| rng.chance(p, 4)).collect();
    split_at_all(t, &cuts)
}

/// The contract of every source representation, executed: the view is the flat text.
pub fn check_view<S: Source + ?Sized>(s: &S, flat: &str, label: &str, ranges: &[(usize, usize)], offs: &[usize], pats: &[&str]) -> Result<(), String> {
    let len = flat.len();
    ckeq!(s.length(), len, "{label}: length");
    ckeq!(s.is_empty(), flat.is_empty(), "{label}: is_empty");
    for &o in offs {
        let c = s.chunk_at(o);
        if o >= len {
            ck!(c.text.is_empty() && c.start == len, "{label}: chunk_at({o}) past the end must be empty at {len}, got {:?}", c);
            ckeq!(s.get_char_at(o), None, "{label}: get_char_at({o})");
            ckeq!(s.get_text_from(o).as_ref(), "", "{label}: get_text_from({o})");
            continue;
        }
        ck!(c.start <= o && o < c.end() && c.end() <= len, "{label}: chunk_at({o}) = {}..{} does not contain the offset", c.start, c.end());
        ck!(flat.get(c.start..c.end()) == Some(c.text), "{label}: chunk_at({o}) text {:?} is not text[{}..{}]", c.text, c.start, c.end());
        ckeq!(c.slice_from(o), &flat[o..c.end()], "{label}: chunk_at({o}).slice_from({o})");
        ckeq!(s.get_char_at(o), flat[o..].chars().next(), "{label}: get_char_at({o})");
        ckeq!(s.get_text_from(o).as_ref(), &flat[o..], "{label}: get_text_from({o})");
        for p in pats {
            ckeq!(s.find_str_from(o, p), flat[o..].find(p).map(|i| i + o), "{label}: find_str_from({o}, {p:?})");
            if let Some(ch) = p.chars().next() {
                ckeq!(s.find_char_from(o, ch), flat[o..].find(ch).map(|i| i + o), "{label}: find_char_from({o}, {ch:?})");
            }
        }
    }
    for &(a, b) in ranges {
        ckeq!(s.get_text_in(Range { start: a, end: b }).as_ref(), &flat[a..b], "{label}: get_text_in({a}..{b})");
    }
    Ok(())
}

pub fn check_all_views(flat: &str, pieces: &[&str], ranges: &[(usize, usize)], offs: &[usize], pats: &[&str]) -> Result<(), String> {
    check_view(flat, flat, "str", ranges, offs, pats)?;
    let st = SourceText::new(flat);
    check_view(&st, flat, "flat", ranges, offs, pats)?;
    ckeq!(st.text(), flat, "flat: text");
    ckeq!(st.len(), flat.len(), "flat: len");
    let r = RopeBuffer::new(flat);
    check_view(&r, flat, "rope", ranges, offs, pats)?;
    check_view(&r.snapshot(), flat, "rope snapshot", ranges, offs, pats)?;
    let r = rope_of(pieces);
    check_view(&r, flat, "rope(pieces)", ranges, offs, pats)?;
    let snap = r.snapshot();
    check_view(&snap, flat, "rope(pieces) snapshot", ranges, offs, pats)?;
    let wrapped = Wrap(&snap);
    let dynamic: &dyn Source2 = &wrapped;
    dynamic.check(flat, ranges, offs, pats)?;
    let c = chunked_of(pieces);
    check_view(&c, flat, "chunked", ranges, offs, pats)?;
    check_view(&c.snapshot(), flat, "chunked snapshot", ranges, offs, pats)?;
    Ok(())
}
trait Source2 {
    fn check(&self, flat: &str, ranges: &[(usize, usize)], offs: &[usize], pats: &[&str]) -> Result<(), String>;
}
struct Wrap<'a, S: Source + ?Sized>(&'a S);
impl<'a, S: Source + ?Sized> Source2 for Wrap<'a, S> {
    fn check(&self, flat: &str, ranges: &[(usize, usize)], offs: &[usize], pats: &[&str]) -> Result<(), String> {
        check_view(&self.0, flat, "reference", ranges, offs, pats)
    }
}

fn all_ranges(t: &str) -> Vec<(usize, usize)> {
    let b = boundaries(t);
    let mut v = vec![];
    for (i, &x) in b.iter().enumerate() {
        for &y in &b[i..] {
            v.push((x, y));
        }
    }
    v
}
fn boundary_offsets(t: &str) -> Vec<usize> {
    let mut v = boundaries(t);
    v.push(t.len() + 1);
    v.push(t.len() + 5000);
    v
}

/// Long texts whose 4096-byte marks fall at every phase of multi-byte characters.
pub fn long_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    let target = *rng.pick(&[4090usize, 4095, 4096, 4097, 4100, 8190, 8192, 8195, 9000, 12290]);
    let wide = *rng.pick(&['é', '漢', '😀']);
    while s.len() < target {
        let near = s.len() % 4096;
        if near > 4080 || near < 16 {
            if rng.chance(1, 3) { s.push('a') } else { s.push(wide) }
        }
        else {
            s.push(*rng.pick(&['b', 'c', '\n', 'x']));
        }
    }
    if rng.chance(1, 2) {
        s.push_str("tail é");
    }
    s
}
pub fn long_probes(t: &str, rng: &mut Rng) -> (Vec<(usize, usize)>, Vec<usize>) {
    let b = boundaries(t);
    let near: Vec<usize> = b.iter().copied().filter(|&o| { let m = o % 4096; m < 6 || m > 4089 || o + 6 > t.len() }).collect();
    let mut offs = near.clone();
    for _ in 0..6 {
        offs.push(*rng.pick(&b));
    }
    offs.push(t.len());
    offs.push(t.len() + 3);
    let mut ranges = vec![(0, t.len())];
    for _ in 0..60 {
        let (x, y) = (*rng.pick(&near), *rng.pick(&near));
        ranges.push((x.min(y), x.max(y)));
        let (x, y) = (*rng.pick(&b), *rng.pick(&b));
        ranges.push((x.min(y), x.max(y)));
    }
    (ranges, offs)
}

pub fn p01(c: &mut Ctx) {
    // Every text of up to 4 characters over a mixed-width alphabet, cut everywhere.
    c.family("small-exhaustive");
    let small = ['a', 'é', '漢', '😀', '\n'];
    for t in all_texts(&small, if c.thorough { 5 } else { 4 }) {
        let pieces: Vec<&str> = split_at_all(&t, &boundaries(&t));
        let (r, o) = (all_ranges(&t), boundary_offsets(&t));
        c.case(|| format!("text {t:?} one chunk per character"), || check_all_views(&t, &pieces, &r, &o, &["a", "é", "aé", "漢a", "a漢", "éa\n", "😀", "zz"]));
    }
    c.family("random-pieces");
    let mut rng = c.rng("p01");
    for _ in 0..c.n(4000, 60000) {
        let t = rng.text(ALPHA, 24);
        let pieces = random_pieces(&t, &mut rng);
        let (r, o) = (all_ranges(&t), boundary_offsets(&t));
        let p1 = rng.text(ALPHA, 4);
        let b = boundaries(&t);
        let (x, y) = (*rng.pick(&b), *rng.pick(&b));
        let p2 = t[x.min(y)..x.max(y)].to_string();
        c.case(|| format!("text {t:?} pieces {pieces:?} patterns {p1:?} {p2:?}"), || check_all_views(&t, &pieces, &r, &o, &[&p1, &p2]));
    }
    c.family("long");
    for _ in 0..c.n(60, 1200) {
        let t = long_text(&mut rng);
        let b = boundaries(&t);
        let k = rng.range(0, 3);
        let mut cuts: Vec<usize> = (0..k).map(|_| *rng.pick(&b)).collect();
        cuts.sort();
        let pieces = split_at_all(&t, &cuts);
        let (r, o) = long_probes(&t, &mut rng);
        c.case(|| format!("long text of {} bytes, cuts {cuts:?}", t.len()), || check_all_views(&t, &pieces, &r, &o, &["tail", "ab", "é"]));
    }
    // A snapshot is unaffected by later edits of the buffer it came from.
    c.family("snapshot-isolation");
    for _ in 0..c.n(1500, 20000) {
        let t = rng.text(ALPHA, 16);
        let pieces = random_pieces(&t, &mut rng);
        let b = boundaries(&t);
        let (x, y) = (*rng.pick(&b), *rng.pick(&b));
        let (x, y) = (x.min(y), x.max(y));
        let ins = rng.text(ALPHA, 5);
        c.case(
            || format!("text {t:?} pieces {pieces:?} then replace {x}..{y} by {ins:?}"),
            || {
                let (r, o) = (all_ranges(&t), boundary_offsets(&t));
                let mut rope = rope_of(&pieces);
                let snap = rope.snapshot();
                rope.apply_edits(&[TextEdit { span: Range { start: x, end: y }, text: ins.clone().into() }]);
                check_view(&snap, &t, "rope snapshot after edit", &r, &o, &[])?;
                let mut ch = chunked_of(&pieces);
                let snap = ch.snapshot();
                ch.push_str(&ins);
                check_view(&snap, &t, "chunked snapshot after push", &r, &o, &[])?;
                let t2 = format!("{t}{ins}");
                check_view(&ch, &t2, "chunked after push", &all_ranges(&t2), &boundary_offsets(&t2), &[])
            },
        );
    }
}

// ---------------------------------------------------------------- P02
type E = (usize, usize, String);
fn spec_apply(t: &str, sorted: &[E]) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (s, e, x) in sorted {
        out.push_str(&t[at..*s]);
        out.push_str(x);
        at = *e;
    }
    out.push_str(&t[at..]);
    out
}
fn random_edits(t: &str, rng: &mut Rng, max: usize) -> Vec<E> {
    let b = boundaries(t);
    let n = rng.range(1, max);
    let mut pts: Vec<usize> = (0..2 * n).map(|_| *rng.pick(&b)).collect();
    pts.sort();
    let mut v: Vec<E> = pts.chunks(2).map(|p| (p[0], if rng.chance(1, 3) { p[0] } else { p[1] }, rng.text(ALPHA, 5))).collect();
    // Keep the batch well-formed: disjoint, and only insertions may share a start with a later edit.
    v.dedup_by(|b, a| b.0 < a.1);
    v
}
/// Permutes a batch without changing the relative order of edits that start at the same place.
fn shuffle(v: &[E], rng: &mut Rng) -> Vec<E> {
    let mut idx: Vec<usize> = (0..v.len()).collect();
    for i in (1..idx.len()).rev() {
        idx.swap(i, rng.below(i + 1));
    }
    let mut out = vec![];
    // stable within equal starts
    let mut done = vec![false; v.len()];
    for i in idx {
        let j = (0..v.len()).find(|&j| !done[j] && v[j].0 == v[i].0).unwrap();
        done[j] = true;
        out.push(v[j].clone());
    }
    out
}
fn to_edits(v: &[E]) -> Vec<TextEdit> {
    v.iter().map(|(s, e, x)| TextEdit { span: Range { start: *s, end: *e }, text: Cow::Owned(x.clone()) }).collect()
}
fn check_edit_result(t: &str, new: &str, sorted: &[E], aff: Range<usize>, label: &str) -> Result<(), String> {
    let want = spec_apply(t, sorted);
    ckeq!(new, want.as_str(), "{label}: text after edits");
    if sorted.is_empty() {
        return Ok(());
    }
    // The affected range is exactly from the first edit to the end of the last replacement, in new coordinates.
    let mut delta = 0isize;
    let mut hi = 0usize;
    for (s, e, x) in sorted {
        let end = (*s as isize + delta) as usize + x.len();
        hi = hi.max(end);
        delta += x.len() as isize - (e - s) as isize;
    }
    ckeq!(aff.start, sorted[0].0, "{label}: affected range start");
    ckeq!(aff.end, hi, "{label}: affected range end");
    // Outside of it nothing differs.
    ck!(new.as_bytes()[..aff.start] == t.as_bytes()[..aff.start], "{label}: text before the affected range changed");
    let old_hi = sorted.last().unwrap().1;
    ck!(new.as_bytes()[hi..] == t.as_bytes()[old_hi..], "{label}: text after the affected range changed");
    Ok(())
}
fn edit_case(t: &str, pieces: &[&str], batches: &[(Vec<E>, Vec<E>)]) -> Result<(), String> {
    // batches: (sorted, as submitted), each relative to the text left by the previous batch
    let mut flat = SourceText::new(t);
    let mut rope = rope_of(pieces);
    let mut rope2 = RopeBuffer::new(t);
    let mut cur = t.to_string();
    for (k, (sorted, sub)) in batches.iter().enumerate() {
        let e = to_edits(sub);
        let a = flat.apply_edits_range(&e);
        check_edit_result(&cur, flat.text(), sorted, a, &format!("flat, batch {k}"))?;
        let a = rope.apply_edits_range(&e);
        let txt = rope.get_text_in(Range { start: 0, end: rope.length() }).to_string();
        check_edit_result(&cur, &txt, sorted, a, &format!("rope(pieces), batch {k}"))?;
        let mut flat2 = SourceText::new(cur.clone());
        let a2 = flat2.apply_edits(&e);
        ck!(sorted.is_empty() || a2 == sorted[0].0, "flat, batch {k}: apply_edits returned {a2}");
        ckeq!(flat2.text(), flat.text(), "flat, batch {k}: apply_edits");
        let a2 = rope2.apply_edits(&e);
        ck!(sorted.is_empty() || a2 == sorted[0].0, "rope, batch {k}: apply_edits returned {a2}");
        cur = spec_apply(&cur, sorted);
        let (r, o) = if cur.len() < 64 { (all_ranges(&cur), boundary_offsets(&cur)) } else { long_probes(&cur, &mut Rng::new(k as u64)) };
        check_view(&rope, &cur, &format!("rope(pieces) after batch {k}"), &r, &o, &[])?;
        check_view(&rope2, &cur, &format!("rope after batch {k}"), &r, &o, &[])?;
        check_view(&flat, &cur, &format!("flat after batch {k}"), &r, &o, &[])?;
    }
    Ok(())
}
pub fn p02(c: &mut Ctx) {
    c.family("single-edit-exhaustive");
    for t in all_texts(&['a', 'é', '😀'], 3) {
        for (x, y) in all_ranges(&t) {
            for ins in ["", "b", "漢", "bé"] {
                for cut in [true, false] {
                    let pieces: Vec<&str> = if cut { split_at_all(&t, &boundaries(&t)) } else { vec![&t] };
                    let e = vec![(x, y, ins.to_string())];
                    c.case(|| format!("text {t:?} pieces {pieces:?} replace {x}..{y} by {ins:?}"), || edit_case(&t, &pieces, &[(e.clone(), e.clone())]));
                }
            }
        }
    }
    c.family("two-edits-exhaustive");
    for t in ["", "a", "éa", "aéa", "abcd"] {
        let rs = all_ranges(t);
        for &(a, b) in &rs {
            for &(x, y) in &rs {
                if b > x || (a == x && b == y && a != b) {
                    continue;
                }
                for (i1, i2) in [("", ""), ("X", ""), ("", "Y"), ("X", "YZ"), ("é", "Y"), ("XXX", "Y")] {
                    let v = vec![(a, b, i1.to_string()), (x, y, i2.to_string())];
                    let mut orders = vec![v.clone()];
                    if a != x {
                        orders.push(vec![v[1].clone(), v[0].clone()]);
                    }
                    for sub in orders {
                        let pieces = split_at_all(t, &boundaries(t));
                        c.case(|| format!("text {t:?} edits {sub:?}"), || edit_case(t, &pieces, &[(v.clone(), sub.clone())]));
                    }
                }
            }
        }
    }
    c.family("batches");
    let mut rng = c.rng("p02");
    for _ in 0..c.n(6000, 100000) {
        let t = rng.text(ALPHA, 14);
        let pieces = random_pieces(&t, &mut rng);
        let mut batches = vec![];
        let mut cur = t.clone();
        for _ in 0..rng.range(1, 4) {
            let sorted = if rng.chance(1, 12) { vec![] } else { random_edits(&cur, &mut rng, 4) };
            let sub = shuffle(&sorted, &mut rng);
            cur = spec_apply(&cur, &sorted);
            batches.push((sorted, sub));
        }
        c.case(|| format!("text {t:?} pieces {pieces:?} batches {:?}", batches.iter().map(|b| &b.1).collect::<Vec<_>>()), || edit_case(&t, &pieces, &batches));
    }
    c.family("long");
    for _ in 0..c.n(80, 1500) {
        let t = long_text(&mut rng);
        let mut batches = vec![];
        let mut cur = t.clone();
        for _ in 0..2 {
            let mut sorted = random_edits(&cur, &mut rng, 3);
            if rng.chance(1, 2) {
                let i = rng.below(sorted.len());
                sorted[i].2 = long_text(&mut rng);
            }
            let sub = shuffle(&sorted, &mut rng);
            cur = spec_apply(&cur, &sorted);
            batches.push((sorted, sub));
        }
        c.case(
            || format!("long text of {} bytes, batches {:?}", t.len(), batches.iter().map(|b| b.1.iter().map(|e| (e.0, e.1, e.2.len())).collect::<Vec<_>>()).collect::<Vec<_>>()),
            || edit_case(&t, &[&t], &batches),
        );
    }
    // An empty batch changes nothing and affects nothing.
    c.family("empty-batch");
    for t in ["", "a", "héllo"] {
        c.case(
            || format!("text {t:?}, no edits"),
            || {
                let mut f = SourceText::new(t);
                let a = f.apply_edits_range(&[]);
                ck!(a.start == a.end && f.text() == t, "flat: empty batch gave {a:?} / {:?}", f.text());
                let mut r = RopeBuffer::new(t);
                let a = r.apply_edits_range(&[]);
                ck!(a.start == a.end && r.length() == t.len(), "rope: empty batch gave {a:?}");
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- P03
fn spec_skip(t: &[u8], f: impl Fn(u8) -> bool) -> usize {
    t.iter().position(|&b| !f(b)).unwrap_or(t.len())
}
fn scan_all(t: &[u8], a: u8, b: u8, c: u8, d: u8) -> Result<(), String> {
    ckeq!(SimdScanner::find_byte(t, a), t.iter().position(|&x| x == a), "find_byte({a})");
    ckeq!(SimdScanner::skip_byte(t, a), spec_skip(t, |x| x == a), "skip_byte({a})");
    ckeq!(SimdScanner::skip_two_bytes(t, a, b), spec_skip(t, |x| x == a || x == b), "skip_two_bytes({a},{b})");
    ckeq!(SimdScanner::skip_ascii_whitespace(t), spec_skip(t, |x| matches!(x, b' ' | b'\t' | b'\n' | b'\r')), "skip_ascii_whitespace");
    ckeq!(SimdScanner::skip_ascii_digits(t), spec_skip(t, |x| (48..=57).contains(&x)), "skip_ascii_digits");
    ckeq!(
        SimdScanner::skip_ascii_ident_continue(t),
        spec_skip(t, |x| (48..=57).contains(&x) || (65..=90).contains(&x) || (97..=122).contains(&x) || x == 95),
        "skip_ascii_ident_continue"
    );
    ckeq!(SimdScanner::skip_ascii_hexdigits(t), spec_skip(t, |x| (48..=57).contains(&x) || (65..=70).contains(&x) || (97..=102).contains(&x)), "skip_ascii_hexdigits");
    ckeq!(SimdScanner::find_first_of_4(t, a, b, c, d), t.iter().position(|&x| x == a || x == b || x == c || x == d), "find_first_of_4({a},{b},{c},{d})");
    ckeq!(SimdScanner::skip_until(t, a), t.iter().position(|&x| x == a).unwrap_or(t.len()), "skip_until({a})");
    Ok(())
}
pub fn p03(c: &mut Ctx) {
    // One odd byte (every value) at every position of runs of every class, all lengths around the lane width.
    c.family("one-odd-byte");
    let fills: &[u8] = &[b' ', b'\t', b'\r', b'\n', b'0', b'9', b'a', b'f', b'g', b'z', b'A', b'F', b'G', b'Z', b'_', b'"', 0, 255];
    let lens: Vec<usize> = if c.thorough { (0..=100).collect() } else { vec![0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 70] };
    for &fill in fills {
        for &len in &lens {
            for pos in 0..len.max(1) {
                if len > 3 && !c.thorough && ![0, 1, 30, 31, 32, 33, 62, 63, 64, 65].contains(&pos) && pos + 1 != len {
                    continue;
                }
                c.case(
                    || format!("{len} bytes of {fill}, one odd byte (0..=255) at {pos}"),
                    || {
                        for odd in 0..=255u8 {
                            let mut t = vec![fill; len];
                            if pos < len {
                                t[pos] = odd;
                            }
                            scan_all(&t, fill, odd, fill.wrapping_add(1), odd.wrapping_sub(1)).map_err(|e| format!("odd={odd}: {e}"))?;
                            scan_all(&t, odd, fill, b'*', b'/').map_err(|e| format!("odd={odd} (swapped): {e}"))?;
                            scan_all(&t, 1, 2, 3, odd).map_err(|e| format!("odd={odd} (fourth): {e}"))?;
                            scan_all(&t, 1, 2, odd, 4).map_err(|e| format!("odd={odd} (third): {e}"))?;
                            scan_all(&t, 1, odd, 3, 4).map_err(|e| format!("odd={odd} (second): {e}"))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    c.family("random");
    let mut rng = c.rng("p03");
    let classes: &[&[u8]] = &[b" \t\n\r", b"0123456789", b"abcxyzABCXYZ019_", b"0123456789abcdefABCDEF", b"\"\\*/"];
    for _ in 0..c.n(150000, 2500000) {
        let class = *rng.pick(classes);
        let cap = *rng.pick(&[40, 70, 140, 260]);
        let len = rng.below(cap);
        let noise = rng.range(0, 3);
        let t: Vec<u8> = (0..len).map(|_| if rng.chance(noise, 60) { rng.next() as u8 } else { *rng.pick(class) }).collect();
        let k: Vec<u8> = (0..4).map(|_| if rng.chance(1, 3) { rng.next() as u8 } else { *rng.pick(class) }).collect();
        c.case(|| format!("bytes {t:?} needles {k:?}"), || scan_all(&t, k[0], k[1], k[2], k[3]));
    }
}

// ---------------------------------------------------------------- P04
#[derive(Clone, Debug)]
pub enum Op {
    SetPos(usize),
    AdvChar,
    AdvByteAscii,
    AdvBytesChars(usize),
    Peek,
    PeekNext,
    PeekNextN(usize),
    PeekByte,
    SkipWs,
    SkipDigits,
    SkipIdent,
    SkipUntil(u8),
    TakeWhile(Vec<char>),
    TakeWhileByte(Vec<u8>),
    StartsWith(String),
    Consume(String),
    FindStr(String),
    Rest,
    ChunkEnd,
    PastEnd,
}
fn run_cursor<S: Source + ?Sized>(s: &S, flat: &str, start: usize, ops: &[Op], label: &str) -> Result<(), String> {
    let mut c = SourceCursor::new_at(s, start);
    let len = flat.len();
    let mut pos = start.min(len);
    for (k, op) in ops.iter().enumerate() {
        let l = format!("{label}: step {k} {op:?} at {pos}");
        let rest = &flat[pos..];
        match op {
            Op::SetPos(p) => {
                ckeq!(c.set_position(*p), pos, "{l}: previous position");
                pos = (*p).min(len);
            }
            Op::PastEnd => {
                c.set_position(len + 7);
                pos = len;
            }
            Op::AdvChar => {
                let ch = rest.chars().next();
                ckeq!(c.advance_char(), ch, "{l}");
                pos += ch.map_or(0, |x| x.len_utf8());
            }
            Op::AdvByteAscii => {
                if rest.chars().next().map_or(true, |x| x.is_ascii()) {
                    ckeq!(c.advance_byte(), rest.bytes().next(), "{l}");
                    pos = (pos + 1).min(len);
                }
            }
            Op::AdvBytesChars(n) => {
                let d: usize = rest.chars().take(*n).map(|x| x.len_utf8()).sum();
                // asking for more than is left stops at the end
                let d = if d == rest.len() { d + *n } else { d };
                pos = (pos + d).min(len);
                ckeq!(c.advance_bytes(d), pos, "{l}");
            }
            Op::Peek => ckeq!(c.peek_char(), rest.chars().next(), "{l}"),
            Op::PeekNext => ckeq!(c.peek_next_char(), rest.chars().nth(1), "{l}"),
            Op::PeekNextN(n) => {
                let d: usize = rest.chars().take(*n).map(|x| x.len_utf8()).sum();
                ckeq!(c.peek_next_n(d), rest[d..].chars().next(), "{l} ({d} bytes)");
                ckeq!(c.peek_next_n(rest.len() + *n), None, "{l} past the end");
            }
            Op::PeekByte => ckeq!(c.peek_byte(), rest.bytes().next(), "{l}"),
            Op::SkipWs | Op::SkipDigits | Op::SkipIdent | Op::SkipUntil(_) => {
                let (got, n) = match op {
                    Op::SkipWs => (c.skip_ascii_whitespace(), spec_skip(rest.as_bytes(), |x| matches!(x, b' ' | b'\t' | b'\n' | b'\r'))),
                    Op::SkipDigits => (c.skip_ascii_digits(), spec_skip(rest.as_bytes(), |x| x.is_ascii_digit())),
                    Op::SkipIdent => (c.skip_ascii_ident_continue(), spec_skip(rest.as_bytes(), |x| x.is_ascii_alphanumeric() || x == b'_')),
                    Op::SkipUntil(t) => (c.skip_until(*t), spec_skip(rest.as_bytes(), |x| x != *t)),
                    _ => unreachable!(),
                };
                ck!(got.start == pos && got.end == pos + n, "{l}: got {}..{}, contract requires {}..{}", got.start, got.end, pos, pos + n);
                pos += n;
            }
            Op::TakeWhile(set) => {
                let mut seen = vec![];
                let got = c.take_while(|x| {
                    seen.push(x);
                    set.contains(&x)
                });
                let n: usize = rest.chars().take_while(|x| set.contains(x)).map(|x| x.len_utf8()).sum();
                ck!(got.start == pos && got.end == pos + n, "{l}: got {}..{}, contract requires {}..{}", got.start, got.end, pos, pos + n);
                let want: Vec<char> = rest[..n].chars().chain(rest[n..].chars().next()).collect();
                ckeq!(seen, want, "{l}: characters shown to the predicate");
                pos += n;
            }
            Op::TakeWhileByte(set) => {
                let got = c.take_while_byte(|x| set.contains(&x));
                let n = spec_skip(rest.as_bytes(), |x| set.contains(&x));
                ck!(got.start == pos && got.end == pos + n, "{l}: got {}..{}, contract requires {}..{}", got.start, got.end, pos, pos + n);
                pos += n;
            }
            Op::StartsWith(p) => ckeq!(c.starts_with(p), rest.starts_with(p.as_str()), "{l}"),
            Op::Consume(p) => {
                let y = rest.starts_with(p.as_str());
                ckeq!(c.consume_if_starts_with(p), y, "{l}");
                if y {
                    pos += p.len();
                }
            }
            Op::FindStr(p) => {
                ckeq!(c.find_str(p), rest.find(p.as_str()).map(|i| i + pos), "{l}");
                // Where the search leaves the cursor is not part of the contract.
                c.set_position(pos);
            }
            Op::Rest => {
                let r = c.rest().to_string();
                ck!(rest.starts_with(&r) && (!r.is_empty() || rest.is_empty()), "{l}: rest {r:?} is not a non-empty prefix of {rest:?}");
            }
            Op::ChunkEnd => {
                let e = c.chunk_end();
                ck!(e <= len && (e > pos || pos == len) && flat.is_char_boundary(e), "{l}: chunk_end {e}");
            }
        }
        ckeq!(c.position(), pos, "{l}: position");
    }
    Ok(())
}
pub fn random_op(t: &str, rng: &mut Rng) -> Op {
    let b = boundaries(t);
    match rng.below(24) {
        0 | 1 => Op::SetPos(*rng.pick(&b)),
        2 | 3 => Op::AdvChar,
        4 => Op::AdvByteAscii,
        5 => Op::AdvBytesChars(rng.below(5)),
        6 => Op::Peek,
        7 => Op::PeekNext,
        8 => Op::PeekNextN(rng.below(5)),
        9 => Op::PeekByte,
        10 => Op::SkipWs,
        11 => Op::SkipDigits,
        12 => Op::SkipIdent,
        13 => Op::SkipUntil(*rng.pick(b"a \n*/\"0z")),
        14 | 15 => {
            let n = rng.below(6);
            Op::TakeWhile((0..n).map(|_| *rng.pick(ALPHA)).collect())
        }
        16 => Op::TakeWhileByte(if rng.chance(1, 2) { b"a \n0".to_vec() } else { (0..=127u8).filter(|x| *x != b'/').chain(128..=255).collect() }),
        17 | 18 => Op::StartsWith(sub_or_random(t, rng)),
        19 => Op::Consume(sub_or_random(t, rng)),
        20 | 21 => Op::FindStr(sub_or_random(t, rng)),
        22 => Op::Rest,
        _ => {
            if rng.chance(1, 3) { Op::PastEnd } else { Op::ChunkEnd }
        }
    }
}
fn sub_or_random(t: &str, rng: &mut Rng) -> String {
    let b = boundaries(t);
    if rng.chance(2, 3) {
        let i = rng.below(b.len());
        let j = (i + rng.below(6)).min(b.len() - 1);
        t[b[i]..b[j]].to_string()
    }
    else {
        rng.text(ALPHA, 3)
    }
}
fn cursor_everywhere(t: &str, pieces: &[&str], start: usize, ops: &[Op]) -> Result<(), String> {
    run_cursor(t, t, start, ops, "str")?;
    run_cursor(&SourceText::new(t), t, start, ops, "flat")?;
    run_cursor(&chunked_of(pieces), t, start, ops, "chunked")?;
    run_cursor(&rope_of(pieces), t, start, ops, "rope")?;
    run_cursor(&rope_of(pieces).snapshot(), t, start, ops, "rope snapshot")
}
pub fn p04(c: &mut Ctx) {
    c.family("single-op-exhaustive");
    let small = ['a', 'é', '*', '/'];
    for t in all_texts(&small, if c.thorough { 5 } else { 4 }) {
        let b = boundaries(&t);
        let mut ops: Vec<Op> = vec![Op::Peek, Op::PeekNext, Op::PeekNextN(1), Op::PeekByte, Op::AdvChar, Op::AdvByteAscii, Op::SkipIdent, Op::SkipUntil(b'/'), Op::Rest, Op::ChunkEnd, Op::PastEnd];
        ops.push(Op::TakeWhile(vec!['a', 'é']));
        ops.push(Op::TakeWhileByte(vec![b'a', b'*', 0xC3, 0xA9]));
        for p in ["", "a", "é", "*/", "aé", "é*", "aa", "a*/", "é*/", "éaé"] {
            ops.push(Op::StartsWith(p.into()));
            ops.push(Op::FindStr(p.into()));
            ops.push(Op::Consume(p.into()));
        }
        for mask in 0..(1usize << b.len().saturating_sub(2).min(4)) {
            let cuts: Vec<usize> = b.iter().skip(1).enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
            let pieces = split_at_all(&t, &cuts);
            c.case(
                || format!("text {t:?} pieces {pieces:?}, every single operation from every position"),
                || {
                    for &st in &b {
                        for op in &ops {
                            run_cursor(&chunked_of(&pieces), &t, st, &[op.clone()], "chunked").map_err(|e| format!("start {st}: {e}"))?;
                        }
                    }
                    cursor_everywhere(&t, &pieces, 0, &ops)
                },
            );
        }
    }
    c.family("op-sequences");
    let mut rng = c.rng("p04");
    for _ in 0..c.n(30000, 600000) {
        let t = rng.text(ALPHA, 20);
        let pieces = random_pieces(&t, &mut rng);
        let n = rng.range(1, 14);
        let ops: Vec<Op> = (0..n).map(|_| random_op(&t, &mut rng)).collect();
        let start = if rng.chance(1, 2) { 0 } else { *rng.pick(&boundaries(&t)) };
        c.case(|| format!("text {t:?} pieces {pieces:?} from {start}: {ops:?}"), || cursor_everywhere(&t, &pieces, start, &ops));
    }
    c.family("long");
    for _ in 0..c.n(150, 3000) {
        let t = long_text(&mut rng);
        let b = boundaries(&t);
        let mut cuts: Vec<usize> = (0..rng.range(0, 3)).map(|_| *rng.pick(&b)).collect();
        cuts.sort();
        let pieces = split_at_all(&t, &cuts);
        let mut ops = vec![];
        for _ in 0..rng.range(2, 8) {
            let near: usize = 4096 * rng.range(0, 2) + 4080 + rng.below(20);
            let p = b.iter().copied().find(|&x| x >= near).unwrap_or(0);
            ops.push(Op::SetPos(p));
            ops.push(random_op(&t, &mut rng));
            ops.push(Op::TakeWhile(vec!['a', 'b', 'c', 'é', '漢', '😀']));
        }
        c.case(|| format!("long text of {} bytes, cuts {cuts:?}: {ops:?}", t.len()), || cursor_everywhere(&t, &pieces, 0, &ops));
    }
}
