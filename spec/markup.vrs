pub mod html_model {
use vstd::prelude::*;
// ---- HTML text ---------------------------------------------------------------------------------
/// How a character is written in HTML text.
pub open spec fn esc(c: char) -> Seq<char> {
    if c == '&' { seq!['&', 'a', 'm', 'p', ';'] } else if c == '<' { seq!['&', 'l', 't', ';'] } else if c == '>' { seq!['&', 'g', 't', ';'] } else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] } else if c == '\'' { seq!['&', '#', '3', '9', ';'] } else { seq![c] }
}
pub open spec fn escs(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { escs(s.drop_last()) + esc(s.last()) } }
/// Characters that can open or close markup.
pub open spec fn markup(c: char) -> bool { c == '<' || c == '>' || c == '"' || c == '\'' }
/// A reader of HTML: tags are dropped,
pub open spec fn untag(s: Seq<char>, inside: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if inside { untag(s.skip(1), s[0] != '>') } else if s[0] == '<' { untag(s.skip(1), true) } else { seq![s[0]] + untag(s.skip(1), false) }
}
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
/// and character references are resolved.
pub open spec fn unesc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if begins(s, esc('&')) { seq!['&'] + unesc(s.skip(5)) }
    else if begins(s, esc('<')) { seq!['<'] + unesc(s.skip(4)) }
    else if begins(s, esc('>')) { seq!['>'] + unesc(s.skip(4)) }
    else if begins(s, esc('"')) { seq!['"'] + unesc(s.skip(6)) }
    else if begins(s, esc('\'')) { seq!['\''] + unesc(s.skip(5)) }
    else { seq![s[0]] + unesc(s.skip(1)) }
}
pub open spec fn read_html(s: Seq<char>) -> Seq<char> { unesc(untag(s, false)) }
pub proof fn lemma_untag_text(x: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < x.len() ==> x[i] != '<',
    ensures untag(x + b, false) == x + untag(b, false),
    decreases x.len(),
{
    if x.len() == 0 { assert(x + b =~= b); assert(x + untag(b, false) =~= untag(b, false)); }
    else { let y = x.skip(1); assert((x + b).skip(1) =~= y + b); lemma_untag_text(y, b); assert(seq![x[0]] + (y + untag(b, false)) =~= x + untag(b, false)); }
}
pub proof fn lemma_untag_in(x: Seq<char>, b: Seq<char>)
    requires x.len() > 0, x.last() == '>', forall|i: int| 0 <= i < x.len() - 1 ==> x[i] != '>',
    ensures untag(x + b, true) == untag(b, false),
    decreases x.len(),
{ let y = x.skip(1); assert((x + b).skip(1) =~= y + b); if x.len() == 1 { assert(y + b =~= b); } else { assert(y.last() == x.last()); lemma_untag_in(y, b); } }
/// A tag is passed over.
pub proof fn lemma_untag_tag(x: Seq<char>, b: Seq<char>)
    requires x.len() > 1, x[0] == '<', x.last() == '>', forall|i: int| 0 <= i < x.len() - 1 ==> x[i] != '>',
    ensures untag(x + b, false) == untag(b, false),
{ let y = x.skip(1); assert((x + b).skip(1) =~= y + b); assert(y.last() == x.last()); lemma_untag_in(y, b); }
pub proof fn lemma_unesc(c: char, b: Seq<char>)
    ensures unesc(esc(c) + b) == seq![c] + unesc(b),
{
    let s = esc(c) + b; let n = esc(c).len() as int;
    assert(s.skip(n) =~= b); assert(s[0] == esc(c)[0]); assert(s.take(n) =~= esc(c));
    if c != '&' && begins(s, esc('&')) { assert(s.take(5)[0] == '&'); assert(s.take(5)[1] == 'a'); assert(s[1] == s.take(5)[1]); assert(s[0] == s.take(5)[0]); assert(false); }
    if c != '<' && begins(s, esc('<')) { assert(s[0] == s.take(4)[0]); assert(s[1] == s.take(4)[1]); assert(false); }
    if c != '>' && begins(s, esc('>')) { assert(s[0] == s.take(4)[0]); assert(s[1] == s.take(4)[1]); assert(false); }
    if c != '"' && begins(s, esc('"')) { assert(s[0] == s.take(6)[0]); assert(s[1] == s.take(6)[1]); assert(false); }
    if c != '\'' && begins(s, esc('\'')) { assert(s[0] == s.take(5)[0]); assert(s[1] == s.take(5)[1]); assert(false); }
}
/// Written and read back, text is as it was; it holds no character that opens or closes markup.
pub proof fn lemma_escs(x: Seq<char>, b: Seq<char>)
    ensures unesc(escs(x) + b) == x + unesc(b), forall|i: int| 0 <= i < escs(x).len() ==> !markup(#[trigger] escs(x)[i]),
    decreases x.len(),
{
    if x.len() == 0 { assert(escs(x) + b =~= b); assert(x + unesc(b) =~= unesc(b)); }
    else {
        let y = x.drop_last(); let c = x.last();
        assert(escs(x) + b =~= escs(y) + (esc(c) + b));
        lemma_escs(y, esc(c) + b); lemma_unesc(c, b);
        assert(y + (seq![c] + unesc(b)) =~= x + unesc(b));
        assert forall|i: int| 0 <= i < escs(x).len() implies !markup(#[trigger] escs(x)[i]) by { if i < escs(y).len() { assert(escs(x)[i] == escs(y)[i]); } else { assert(escs(x)[i] == esc(c)[i - escs(y).len()]); } }
    }
}
pub proof fn lemma_read_text(x: Seq<char>, b: Seq<char>)
    ensures read_html(escs(x) + b) == x + read_html(b), read_html(escs(x)) == x,
{
    lemma_escs(x, seq![]); lemma_untag_text(escs(x), b); lemma_untag_text(escs(x), seq![]); lemma_escs(x, untag(b, false));
    assert(escs(x) + Seq::<char>::empty() =~= escs(x)); assert(x + Seq::<char>::empty() =~= x);
}
pub proof fn lemma_read_tag(x: Seq<char>, b: Seq<char>)
    requires x.len() > 1, x[0] == '<', x.last() == '>', forall|i: int| 0 <= i < x.len() - 1 ==> x[i] != '>',
    ensures read_html(x + b) == read_html(b),
{ lemma_untag_tag(x, b); }
pub proof fn lemma_escs_push(x: Seq<char>, i: int)
    requires 0 <= i < x.len(),
    ensures escs(x.take(i + 1)) == escs(x.take(i)) + esc(x[i]),
{ assert(x.take(i + 1).drop_last() =~= x.take(i)); }
}
use html_model::*;
