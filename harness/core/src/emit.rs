//! P21: the source buffer keeps pieces apart.
use crate::common::*;
use oak_core::source::{SourceBuffer, ToSource};

struct Pieces(Vec<String>);
impl ToSource for Pieces {
    fn to_source(&self, b: &mut SourceBuffer) {
        for p in &self.0 {
            b.push(p)
        }
    }
}
fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn expected(ps: &[String]) -> String {
    let mut o = String::new();
    for p in ps {
        if let (Some(a), Some(b)) = (o.chars().last(), p.chars().next()) {
            if word(a) && word(b) {
                o.push(' ')
            }
        }
        o.push_str(p);
    }
    o
}
fn check(ps: &[String]) -> Result<(), String> {
    let want = expected(ps);
    let mut b = SourceBuffer::new();
    for (i, p) in ps.iter().enumerate() {
        b.push(p);
        ckeq!(b.to_string(), expected(&ps[..=i]), "text after {} pieces", i + 1);
        if i % 2 == 1 {
            b = b.clone();
        }
    }
    ckeq!(String::from(b.clone()), want, "String::from");
    ckeq!(b.finish(), want, "finish");
    ckeq!(Pieces(ps.to_vec()).to_source_string(), want, "to_source_string");
    let mut d = SourceBuffer::default();
    Pieces(ps.to_vec()).to_source(&mut d);
    ckeq!(d.finish(), want, "to_source into a default buffer");
    Ok(())
}
pub fn p21(c: &mut Ctx) {
    let pool = ["", "a", "_", "1", " ", "+", "é", "中", "٣", "𝄞", "a+", "+a", "a b", "\n", "́", "-1", "ab", "²"];
    c.family("exhaustive");
    for n in 0..=3usize {
        for k in 0..pool.len().pow(n as u32) {
            let ps: Vec<String> = (0..n).map(|i| pool[k / pool.len().pow(i as u32) % pool.len()].to_string()).collect();
            c.case(|| format!("{ps:?}"), || check(&ps));
        }
    }
    c.family("random");
    let mut r = c.rng("p21");
    for _ in 0..c.n(20000, 400000) {
        let n = r.below(12);
        let ps: Vec<String> = (0..n)
            .map(|_| if r.chance(1, 8) { char::from_u32((r.next() % 0x11000) as u32).map(|c| c.to_string()).unwrap_or_default() } else if r.chance(1, 4) { r.text(&['a', '_', '9', '+', ' ', 'é', '𝄞'], 6) } else { r.pick(&pool).to_string() })
            .collect();
        c.case(|| format!("{ps:?}"), || check(&ps));
    }
    c.family("long");
    for _ in 0..c.n(60, 1000) {
        let n = r.range(50, 600);
        let ps: Vec<String> = (0..n).map(|_| if r.chance(1, 30) { r.text(&['a', '_', '9', '+', ' ', 'é', '𝄞', '\n'], 5000) } else { r.pick(&pool).to_string() }).collect();
        c.case(|| format!("{} pieces: {ps:?}", ps.len()), || check(&ps));
    }
}
