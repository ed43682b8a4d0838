//! P05: line map conversions against a scalar oracle.
use crate::common::*;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceText, TextEdit};
use oak_vfs::LineMap;

/// The position of boundary `o`: line feeds before it, UTF-16 units since the last of them.
fn pos(t: &str, o: usize) -> (u32, u32) {
    let b = &t[..o];
    let l = b.matches('\n').count() as u32;
    let s = b.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (l, b[s..].encode_utf16().count() as u32)
}
fn check<S: Source + ?Sized>(src: &S, t: &str, what: &str) -> Result<(), String> {
    let m = LineMap::from_source(src);
    let starts: Vec<usize> = std::iter::once(0).chain(t.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect();
    ckeq!(m.line_count(), starts.len(), "{what} line_count");
    for l in 0..starts.len() + 2 {
        ckeq!(m.line_start(l as u32), starts.get(l).copied(), "{what} line_start({l})");
        ckeq!(m.line_end(l as u32), starts.get(l).map(|_| *starts.get(l + 1).unwrap_or(&t.len())), "{what} line_end({l})");
    }
    for o in boundaries(t) {
        let p = m.offset_to_line_col_utf16(src, o);
        ckeq!(p, pos(t, o), "{what} position of {o}");
        ckeq!(m.line_col_utf16_to_offset(src, p.0, p.1), o, "{what} offset of the position of {o}");
    }
    ckeq!(m.offset_to_line_col_utf16(src, t.len() + 3), pos(t, t.len()), "{what} position past the end");
    for l in 0..starts.len() + 2 {
        let (a, e) = (starts.get(l).copied().unwrap_or(t.len()), if l < starts.len() { *starts.get(l + 1).unwrap_or(&t.len()) } else { t.len() });
        let width = t[a..e].encode_utf16().count() as u32;
        for c in 0..=width.min(12) + 2 {
            let c = if c > width.min(12) { width - width.min(12) + c } else { c };
            let o = m.line_col_utf16_to_offset(src, l as u32, c);
            // the first character boundary of the line at or after column c, or its end
            let want = (a..e).filter(|&i| t.is_char_boundary(i) && t[a..i].encode_utf16().count() as u32 >= c).next().unwrap_or(e);
            ckeq!(o, want, "{what} offset of line {l} column {c}");
        }
        ckeq!(m.line_col_utf16_to_offset(src, l as u32, u32::MAX), e, "{what} offset of line {l} column MAX");
    }
    Ok(())
}
fn everywhere(t: &str, cuts: &[usize]) -> Result<(), String> {
    check(t, t, "str")?;
    check(&SourceText::new(t), t, "text")?;
    let mut c = ChunkedBuffer::new();
    let mut last = 0;
    for &k in cuts.iter().chain([t.len()].iter()) {
        if k > last && k <= t.len() && t.is_char_boundary(k) {
            c.push_str(&t[last..k]);
            last = k;
        }
    }
    check(&c, t, "chunked")?;
    check(&c.snapshot(), t, "chunked snapshot")?;
    // a rope whose chunks come from edits at the cuts
    let mut r = RopeBuffer::new(t);
    for &k in cuts {
        if k <= t.len() && t.is_char_boundary(k) {
            r.apply_edits(&[TextEdit { span: (k..k).into(), text: "\n".into() }]);
            r.apply_edits(&[TextEdit { span: (k..k + 1).into(), text: "".into() }]);
        }
    }
    check(&r, t, "rope")
}
pub fn p05(c: &mut Ctx) {
    c.family("exhaustive");
    for t in all_texts(&['a', '\n', '\r', 'é', '𝄞'], if c.thorough { 6 } else { 5 }) {
        let cuts = vec![1, 2, t.len() / 2, t.len().saturating_sub(1)];
        c.case(|| format!("{t:?}"), || everywhere(&t, &cuts));
    }
    c.family("random");
    let mut r = c.rng("random");
    for _ in 0..c.n(3000, 60000) {
        let mut t = r.text(&['a', 'b', ' ', '\n', '\n', '\r', 'é', '中', '𝄞', '\u{fffd}', '\u{10000}'], 40);
        if r.chance(1, 40) {
            t = t.repeat(1 + r.below(300));
            t.truncate(boundaries(&t).into_iter().filter(|x| *x < 9000).last().unwrap_or(0));
        }
        let n = r.below(5);
        let cuts: Vec<usize> = { let mut v: Vec<usize> = (0..n).map(|_| r.below(t.len() + 1)).collect(); v.sort(); v };
        if t.len() > 400 {
            c.case(|| format!("{t:?} cut at {cuts:?}"), || big(&t, &cuts, &mut r.clone()));
            continue;
        }
        c.case(|| format!("{t:?} cut at {cuts:?}"), || everywhere(&t, &cuts));
    }
}
/// Long texts: sampled positions only.
fn big(t: &str, cuts: &[usize], r: &mut Rng) -> Result<(), String> {
    let mut cb = ChunkedBuffer::new();
    let mut last = 0;
    for &k in cuts.iter().chain([t.len()].iter()) {
        if k > last && t.is_char_boundary(k) {
            cb.push_str(&t[last..k]);
            last = k;
        }
    }
    let rope = RopeBuffer::new(t);
    let st = SourceText::new(t);
    let bs = boundaries(t);
    for src in [&cb as &dyn Source, &rope, &st] {
        let m = LineMap::from_source(src);
        ckeq!(m.line_count(), t.matches('\n').count() + 1, "line_count");
        for _ in 0..40 {
            let o = *r.pick(&bs);
            let p = m.offset_to_line_col_utf16(src, o);
            ckeq!(p, pos(t, o), "position of {o}");
            ckeq!(m.line_col_utf16_to_offset(src, p.0, p.1), o, "offset of the position of {o}");
        }
    }
    Ok(())
}
