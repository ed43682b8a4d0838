#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include text_model.vrs
use text_model::{cb, get_ok, str_slice};
//@include text_out.vrs
//@include cow_out.vrs
// ---- the language pieces used here (assumed) -----------------------------------------------------
pub trait TokenRole: Sized {
    spec fn own_name(&self) -> Seq<char>;
    spec fn universal_name(&self) -> Seq<char>;
    fn name(&self) -> (r: &str) ensures r@ == self.own_name();
    fn universal(&self) -> (r: UniversalTokenRole) ensures token_role_name(r) == self.universal_name();
}
pub trait ElementRole: Sized {
    spec fn own_name(&self) -> Seq<char>;
    spec fn universal_name(&self) -> Seq<char>;
    fn name(&self) -> (r: &str) ensures r@ == self.own_name();
    fn universal(&self) -> (r: UniversalElementRole) ensures element_role_name(r) == self.universal_name();
}
pub struct UniversalTokenRole { pub k: u8 }
pub struct UniversalElementRole { pub k: u8 }
impl Clone for UniversalTokenRole { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for UniversalTokenRole {}
impl Clone for UniversalElementRole { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for UniversalElementRole {}
pub uninterp spec fn token_role_name(r: UniversalTokenRole) -> Seq<char>;
pub uninterp spec fn element_role_name(r: UniversalElementRole) -> Seq<char>;
impl TokenRole for UniversalTokenRole {
    open spec fn own_name(&self) -> Seq<char> { token_role_name(*self) }
    open spec fn universal_name(&self) -> Seq<char> { token_role_name(*self) }
    #[verifier::external_body] fn name(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn universal(&self) -> (r: UniversalTokenRole) { unimplemented!() }
}
impl ElementRole for UniversalElementRole {
    open spec fn own_name(&self) -> Seq<char> { element_role_name(*self) }
    open spec fn universal_name(&self) -> Seq<char> { element_role_name(*self) }
    #[verifier::external_body] fn name(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn universal(&self) -> (r: UniversalElementRole) { unimplemented!() }
}
pub trait TokenType: Copy { type Role: TokenRole; spec fn rl(&self) -> Self::Role; fn role(&self) -> (r: Self::Role) ensures r == self.rl(); }
pub trait Language: Sized { type TokenType: TokenType; type ElementType: Copy; }
//@src projects/oak-core/src/language/mod.rs
//@item LanguageCategory
impl Clone for LanguageCategory { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for LanguageCategory {}
/// `L::NAME` and `L::CATEGORY`.
pub uninterp spec fn name_of<L: Language>() -> Seq<char>;
pub uninterp spec fn category_of<L: Language>() -> LanguageCategory;
#[verifier::external_body] pub fn lang_name<L: Language>() -> (r: &'static str) ensures r@ == name_of::<L>() { unimplemented!() }
#[verifier::external_body] pub fn lang_category<L: Language>() -> (r: LanguageCategory) ensures r == category_of::<L>() { unimplemented!() }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
//@import tree_red.vrs
//@gsubclear
// ---- strings and tables (assumed) ----------------------------------------------------------------
/// `HashMap<String, _>`: a finite map of texts.
pub struct HashMap<K, V> { pub k: K, pub v: V }
impl<V> HashMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r is Some == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() }
}
/// The last place of c in s.
pub open spec fn last_at(s: Seq<char>, c: char) -> Option<int> decreases s.len() { if s.len() == 0 { None } else if s.last() == c { Some(s.len() - 1) } else { last_at(s.drop_last(), c) } }
pub open spec fn count_of(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count_of(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
/// Byte offset of the k-th character.
pub open spec fn byte_at(s: Seq<char>, k: int) -> int { vstd::utf8::encode_utf8(s.take(k)).len() as int }
#[verifier::external_body] pub fn rfind_v(s: &str, c: char) -> (r: Option<usize>) ensures r is Some == (last_at(s@, c) is Some), r is Some ==> r->0 == byte_at(s@, last_at(s@, c)->0) { s.rfind(c) }
#[verifier::external_body] pub fn str_to<'a>(s: &'a str, pos: usize) -> (r: &'a str) requires exists|k: int| 0 <= k <= s@.len() && pos == byte_at(s@, k) ensures forall|k: int| 0 <= k <= s@.len() && pos == #[trigger] byte_at(s@, k) ==> r@ == s@.take(k) { &s[..pos] }
#[verifier::external_body] pub fn split_count(s: &str, c: char) -> (r: usize) ensures r == count_of(s@, c) + 1 { s.split(c).count() }
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn str_len(a: &str) -> (r: usize) ensures r == a.spec_bytes().len() { a.len() }
#[verifier::external_body] pub fn str_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
proof fn lemma_last_at(s: Seq<char>, c: char)
    ensures last_at(s, c) is Some ==> 0 <= last_at(s, c)->0 < s.len() && count_of(s.take(last_at(s, c)->0), c) + 1 == count_of(s, c), last_at(s, c) is None ==> count_of(s, c) == 0, count_of(s, c) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { if s.last() == c { assert(s.take(s.len() - 1) =~= s.drop_last()); } else { lemma_last_at(s.drop_last(), c); } lemma_last_at(s.drop_last(), c); if last_at(s, c) is Some && s.last() != c { assert(s.take(last_at(s, c)->0) =~= s.drop_last().take(last_at(s, c)->0)); } } }
// ---- which style a scope has -----------------------------------------------------------------------
//@fmt
//@gsub /\.to_string\(\)/ => .to_string_v()
//@gsub /oak_core::language::LanguageCategory/ => LanguageCategory
//@gsub /oak_core::(Universal\w+)/ => \1
//@gsub /use oak_core::\w+;/ => 
//@src projects/oak-highlight/src/highlighter/mod.rs
//@item HighlightStyle
//@item HighlightTheme
//@item HighlightSpan
//@item HighlightSegment
//@item HighlightResult
impl Clone for HighlightStyle { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Styles = Map<Seq<char>, HighlightStyle>;
pub open spec fn plain_style() -> HighlightStyle { HighlightStyle { color: None, background_color: None, bold: false, italic: false, underline: false } }
/// What a theme shows where nothing matches.
pub open spec fn fallback(m: Styles) -> HighlightStyle { if m.contains_key("none"@) { m["none"@] } else { plain_style() } }
/// The scope without its last segment.
pub open spec fn parent(s: Seq<char>) -> Option<Seq<char>> { match last_at(s, '.') { None => None, Some(k) => Some(s.take(k)) } }
/// The longest scope among s, its parent, its parent's parent ... that the theme names.
pub open spec fn named(m: Styles, s: Seq<char>) -> Option<Seq<char>> decreases s.len() via named_d {
    if s.len() == 0 { None } else if m.contains_key(s) { Some(s) } else { match parent(s) { None => None, Some(p) => named(m, p) } }
}
#[via_fn] proof fn named_d(m: Styles, s: Seq<char>) { lemma_last_at(s, '.'); }
/// How specific a scope is: its number of segments.
pub open spec fn segments(s: Seq<char>) -> nat { count_of(s, '.') + 1 }
/// The most specific scope named for any of v, the first of them if several are equally specific.
pub open spec fn best(m: Styles, v: Seq<Seq<char>>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { None } else {
        let p = best(m, v.drop_last());
        match named(m, v.last()) { None => p, Some(s) => if p is None || segments(s) > segments(p->0) { Some(s) } else { p } }
    }
}
pub open spec fn style_of(m: Styles, s: Seq<char>) -> HighlightStyle { match named(m, s) { Some(x) => m[x], None => fallback(m) } }
pub open spec fn best_style_of(m: Styles, v: Seq<Seq<char>>) -> HighlightStyle { match best(m, v) { Some(x) => m[x], None => fallback(m) } }
proof fn lemma_named(m: Styles, s: Seq<char>) ensures named(m, s) is Some ==> m.contains_key(named(m, s)->0) decreases s.len() { lemma_last_at(s, '.'); if s.len() > 0 && !m.contains_key(s) && parent(s) is Some { lemma_named(m, parent(s)->0); } }
#[verifier::external_body] pub fn or_default(o: Option<&HighlightStyle>) -> (r: HighlightStyle) ensures r == (match o { Some(s) => *s, None => plain_style() }) { unimplemented!() }
impl HighlightStyle {
//@fn Default for HighlightStyle::default -> r
    ensures r == plain_style(),
//@end
}
impl HighlightTheme {
//@fn HighlightTheme::resolve_style -> r
    ensures r == style_of(self.styles@, scope@),
//@sub /self\.styles\.get\("none"\)\.cloned\(\)\.unwrap_or_default\(\)/ => or_default(self.styles.get("none"))
//@sub /current_scope\.is_empty\(\)/ => str_empty(current_scope)
//@sub /current_scope\.rfind\('\.'\)/ => rfind_v(current_scope, '.')
//@sub /&current_scope\[\.\.pos\]/ => str_to(current_scope, pos)
//@loop 1
    invariant_except_break named(self.styles@, scope@) == named(self.styles@, current_scope@),
    ensures named(self.styles@, scope@) is None,
    decreases current_scope@.len(),
//@loopstart 1
    proof { lemma_last_at(current_scope@, '.'); }
//@end
//@fn HighlightTheme::resolve_styles -> r
    requires forall|i: int| 0 <= i < scopes@.len() ==> segments((#[trigger] scopes@[i])@) < 0x7fff_ffff,
    ensures r == best_style_of(self.styles@, views(scopes@)),
//@sub /best_style\.unwrap_or_else\(\|\| self\.styles\.get\("none"\)\.cloned\(\)\.unwrap_or_default\(\)\)/ => match best_style { Some(s) => s, None => or_default(self.styles.get("none")) }
//@sub /let mut best_style = None;/ => let mut best_style: Option<HighlightStyle> = None; let ghost mut top: Option<Seq<char>> = None;
//@sub /best_style = Some\(style\.clone\(\)\)/ => best_style = Some(style.clone()); proof { top = Some(current_scope@); }
//@sub /let mut best_depth = -1;/ => let mut best_depth: i32 = -1;
//@sub /for scope in scopes \{/ => for i in 0..scopes.len() { let scope = &scopes[i];
//@sub /current_scope\.is_empty\(\)/ => str_empty(current_scope)
//@sub /current_scope\.rfind\('\.'\)/ => rfind_v(current_scope, '.')
//@sub /&current_scope\[\.\.pos\]/ => str_to(current_scope, pos)
//@sub /current_scope\.split\('\.'\)\.count\(\)/ => split_count(current_scope, '.')
//@loop 1
    invariant top == best(self.styles@, views(scopes@.take(i as int))), best_style is Some == top is Some, best_style is Some ==> best_style->0 == self.styles@[top->0] && best_depth == segments(top->0), best_style is None ==> best_depth == -1,
        forall|i: int| 0 <= i < scopes@.len() ==> segments((#[trigger] scopes@[i])@) < 0x7fff_ffff,
//@body
    proof { assert(views(scopes@.take(0)) =~= Seq::empty()); }
//@loopstart 1
    proof { lemma_named(self.styles@, scopes@[i as int]@); assert(scopes@.take(i + 1).drop_last() =~= scopes@.take(i as int)); assert(views(scopes@.take(i + 1)) =~= views(scopes@.take(i as int)).push(scopes@[i as int]@)); assert(views(scopes@.take(i + 1)).drop_last() =~= views(scopes@.take(i as int))); }
//@loop 2
    invariant_except_break
        top == best(self.styles@, views(scopes@.take(i as int))), best_style is Some == top is Some, best_style is Some ==> best_style->0 == self.styles@[top->0] && best_depth == segments(top->0), best_style is None ==> best_depth == -1,
        named(self.styles@, scope@) == named(self.styles@, current_scope@), depth == segments(current_scope@), depth < 0x7fff_ffff,
    invariant named(self.styles@, scope@) is Some ==> self.styles@.contains_key(named(self.styles@, scope@)->0), views(scopes@.take(i + 1)).len() == i + 1, views(scopes@.take(i + 1)).last() == scope@, views(scopes@.take(i + 1)).drop_last() == views(scopes@.take(i as int)), 0 <= i < scopes@.len(),
    ensures
        top == best(self.styles@, views(scopes@.take(i + 1))), best_style is Some == top is Some, best_style is Some ==> best_style->0 == self.styles@[top->0] && best_depth == segments(top->0), best_style is None ==> best_depth == -1,
    decreases current_scope@.len(),
//@loopstart 2
    proof { lemma_last_at(current_scope@, '.'); }
//@afterloop 1
    proof { assert(scopes@.take(scopes@.len() as int) =~= scopes@); }
//@end
//@fn HighlightTheme::get_token_style -> r
    ensures r == style_of(self.styles@, role.own_name()),
//@end
//@fn HighlightTheme::get_element_style -> r
    ensures r == style_of(self.styles@, role.own_name()),
//@end
}
// ---- the scopes of a token -------------------------------------------------------------------------
pub open spec fn dotted(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + "."@ + b }
pub open spec fn prefix_of(c: LanguageCategory) -> Seq<char> { match c { LanguageCategory::Markup => "markup"@, LanguageCategory::Config => "config"@, LanguageCategory::Dsl => "dsl"@, _ => "source"@ } }
pub open spec fn scopes_of(own: Seq<char>, universal: Seq<char>, lang: Seq<char>, c: LanguageCategory) -> Seq<Seq<char>> {
    seq![dotted(own, lang)] + (if own != universal { seq![own] } else { seq![] }) + seq![dotted(prefix_of(c), universal), universal, dotted(prefix_of(c), lang)]
}
//@fn get_token_scopes -> r
    ensures views(r@) == scopes_of(role.own_name(), role.universal_name(), language@, category),
//@sub /specific_name != universal_name/ => !str_eq(specific_name, universal_name)
//@sub /let mut scopes = Vec::with_capacity\(5\);/ => let mut scopes: Vec<String> = Vec::new();
//@before /scopes\s*\}$/
    proof { reveal_strlit("."); assert(views(scopes@) =~= scopes_of(role.own_name(), role.universal_name(), language@, category)); }
//@end
//@fn get_element_scopes -> r
    ensures views(r@) == scopes_of(role.own_name(), role.universal_name(), language@, category),
//@sub /specific_name != universal_name/ => !str_eq(specific_name, universal_name)
//@sub /let mut scopes = Vec::with_capacity\(5\);/ => let mut scopes: Vec<String> = Vec::new();
//@before /scopes\s*\}$/
    proof { reveal_strlit("."); assert(views(scopes@) =~= scopes_of(role.own_name(), role.universal_name(), language@, category)); }
//@end

// ---- one segment per token, in order ---------------------------------------------------------------
/// The scopes of a token of this language.
pub open spec fn token_scopes<L: Language>(k: L::TokenType) -> Seq<Seq<char>> { scopes_of(k.rl().own_name(), k.rl().universal_name(), name_of::<L>(), category_of::<L>()) }
/// Fewer than 2^31 segments in any scope.
pub open spec fn scopes_ok<L: Language>() -> bool { forall|k: L::TokenType, i: int| 0 <= i < token_scopes::<L>(k).len() ==> segments(#[trigger] token_scopes::<L>(k)[i]) < 0x7fff_ffff }
/// A leaf lies on characters of the text.
pub open spec fn fits<L: Language>(x: At<L>, src: Seq<u8>) -> bool { get_ok(src, x.from, x.from + x.leaf.length) }
pub open spec fn all_fit<L: Language>(v: Seq<At<L>>, src: Seq<u8>) -> bool { forall|x: At<L>| #[trigger] v.contains(x) ==> fits(x, src) }
pub open spec fn text_bytes(s: HighlightSegment) -> Seq<u8> { vstd::utf8::encode_utf8(s.text.tx()) }
/// The segment shows a token of this kind lying from a to b: its place, the text there, the style of its scopes.
pub open spec fn shows_at<L: Language>(s: HighlightSegment, k: L::TokenType, a: int, b: int, m: Styles, src: Seq<u8>) -> bool {
    s.span.start == a && s.span.end == b && text_bytes(s) == src.subrange(a, b) && s.style == best_style_of(m, token_scopes::<L>(k))
}
pub open spec fn shows<L: Language>(s: HighlightSegment, x: At<L>, m: Styles, src: Seq<u8>) -> bool { shows_at::<L>(s, x.leaf.kind, x.from, x.from + x.leaf.length, m, src) }
pub open spec fn shows_all<L: Language>(v: Seq<HighlightSegment>, w: Seq<At<L>>, m: Styles, src: Seq<u8>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> shows(#[trigger] v[i], w[i], m, src) }
proof fn lemma_shows_add<L: Language>(a: Seq<HighlightSegment>, x: Seq<At<L>>, b: Seq<HighlightSegment>, y: Seq<At<L>>, m: Styles, src: Seq<u8>)
    requires shows_all(a, x, m, src), shows_all(b, y, m, src), ensures shows_all(a + b, x + y, m, src),
{ assert forall|i: int| 0 <= i < (a + b).len() implies shows(#[trigger] (a + b)[i], (x + y)[i], m, src) by { if i < a.len() { assert((a + b)[i] == a[i]); assert((x + y)[i] == x[i]); } else { assert((a + b)[i] == b[i - a.len()]); assert((x + y)[i] == y[i - a.len()]); } } }
/// All the text the segments show.
pub open spec fn shown(v: Seq<HighlightSegment>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { shown(v.drop_last()) + text_bytes(v.last()) } }
/// Segments that show leaves lying next to each other from a to b spell the text from a to b.
pub proof fn lemma_spell<L: Language>(v: Seq<HighlightSegment>, w: Seq<At<L>>, m: Styles, src: Seq<u8>, a: int, b: int)
    requires shows_all(v, w, m, src), tile(w, a, b), 0 <= a <= b <= src.len(),
    ensures shown(v) == src.subrange(a, b),
    decreases v.len(),
{
    if v.len() == 0 { assert(src.subrange(a, b) =~= seq![]); } else {
        let n = v.len() - 1; let x = w.last();
        assert(shows(v[n], w[n], m, src));
        assert forall|i: int| 0 <= i < n implies #[trigger] w.drop_last()[i] == w[i] by {}
        assert forall|i: int| 0 <= i < n implies shows(#[trigger] v.drop_last()[i], w.drop_last()[i], m, src) by { assert(v.drop_last()[i] == v[i]); }
        if n > 0 { assert(w[n - 1].from + w[n - 1].leaf.length == w[n - 1 + 1].from); lemma_from(w, n, a); } else { }
        assert(tile(w.drop_last(), a, x.from)) by { if n > 0 { assert forall|i: int| #![trigger w.drop_last()[i]] 0 <= i < n - 1 implies w.drop_last()[i].from + w.drop_last()[i].leaf.length == w.drop_last()[i + 1].from by { assert(w[i].from + w[i].leaf.length == w[i + 1].from); } } }
        lemma_spell(v.drop_last(), w.drop_last(), m, src, a, x.from);
        assert(src.subrange(a, x.from) + src.subrange(x.from, b) =~= src.subrange(a, b));
    }
}
proof fn lemma_from<L: Language>(w: Seq<At<L>>, i: int, a: int)
    requires w.len() > 0, w[0].from == a, forall|i: int| #![trigger w[i]] 0 <= i < w.len() - 1 ==> w[i].from + w[i].leaf.length == w[i + 1].from, 0 <= i < w.len(),
    ensures w[i].from >= a, decreases i,
{ if i > 0 { lemma_from(w, i - 1, a); assert(w[i - 1].from + w[i - 1].leaf.length == w[i - 1 + 1].from); } }
/// The segments of a whole tree lie next to each other and spell the whole text.
pub proof fn theorem_segments<L: Language>(v: Seq<HighlightSegment>, n: RedNode<L>, m: Styles, src: Seq<u8>)
    requires wf(*n.green), n.offset == 0, n.green.text_len == src.len(), shows_all(v, all(n), m, src),
    ensures shown(v) == src, v.len() > 0 ==> v[0].span.start == 0 && v.last().span.end == src.len(), forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).span.end == v[i + 1].span.start,
{
    theorem_tile(*n.green, n.green.children@.len() as int, 0);
    let w = all(n);
    lemma_spell(v, w, m, src, 0, src.len() as int);
    assert(src.subrange(0, src.len() as int) =~= src);
    assert forall|i: int| 0 <= i < v.len() - 1 implies (#[trigger] v[i]).span.end == v[i + 1].span.start by { assert(shows(v[i], w[i], m, src)); assert(shows(v[i + 1], w[i + 1], m, src)); assert(w[i].from + w[i].leaf.length == w[i + 1].from); }
    if v.len() > 0 { assert(shows(v[0], w[0], m, src)); assert(shows(v[v.len() - 1], w[v.len() - 1], m, src)); }
}
proof fn lemma_child<L: Language>(n: RedNode<L>, k: int, child: RedTree<L>, src: Seq<u8>)
    requires wf(*n.green), ok(n), 0 <= k < n.green.children@.len(), placed(child, n.green.children@[k], n.offset + before(n.green.children@, k)), all_fit(all(n), src),
    ensures child is Node ==> wf(*child->Node_0.green) && ok(child->Node_0) && (decreases_to!(*n.green => *child->Node_0.green)) && all_fit(all(child->Node_0), src) && all(child->Node_0) == leaves_tree(n.green.children@[k], n.offset + before(n.green.children@, k)),
        child is Leaf ==> child->Leaf_0.span.start <= child->Leaf_0.span.end && get_ok(src, child->Leaf_0.span.start as int, child->Leaf_0.span.end as int),
{
    lemma_hit(n, child);
    if child is Node { assert forall|x: At<L>| #[trigger] all(child->Node_0).contains(x) implies fits(x, src) by { assert(all(n).contains(x)); } }
    else { let x = choose|x: At<L>| #[trigger] all(n).contains(x) && x.from == child->Leaf_0.span.start && x.from + x.leaf.length == child->Leaf_0.span.end && x.leaf.kind == child->Leaf_0.kind; assert(fits(x, src)); }
}
//@item HighlightVisitor
impl<'a, 't> HighlightVisitor<'a, 't> {
//@fn Visitor for HighlightVisitor::visit_node
    requires wf(*node.green), ok(node), scopes_ok::<L>(), all_fit(all(node), old(self).source.spec_bytes()),
    ensures final(self).theme == old(self).theme, final(self).source == old(self).source,
        final(self).segments@.len() >= old(self).segments@.len(), final(self).segments@.take(old(self).segments@.len() as int) == old(self).segments@,
        shows_all(final(self).segments@.skip(old(self).segments@.len() as int), all(node), old(self).theme.styles@, old(self).source.spec_bytes()),
    decreases *node.green,
//@sub /fn visit_node\(/ => fn visit_node<'tree, L: Language>(
//@sub /<Self as Visitor<L>>::visit_node\(self, n\)/ => self.visit_node(n)
//@sub /<Self as Visitor<L>>::visit_token\(self, t\)/ => self.visit_token(t)
//@sub /for child in node\.children\(\) \{/ => let mut it = node.children(); let ghost first = self.segments@; let ghost src = self.source.spec_bytes(); let ghost m = self.theme.styles@; loop { let child = match it.next() { Some(child) => child, None => break };
//@loop 1
    invariant_except_break
        shows_all(self.segments@.skip(first.len() as int), leaves(*node.green, it.index as int, node.offset as int), m, src),
    invariant it.inv(), it.node == Some(node), wf(*node.green), ok(node), scopes_ok::<L>(), all_fit(all(node), src), self.theme == old(self).theme, self.source == old(self).source, src == self.source.spec_bytes(), m == self.theme.styles@,
        self.segments@.len() >= first.len(), self.segments@.take(first.len() as int) == first, first == old(self).segments@,
    ensures shows_all(self.segments@.skip(first.len() as int), all(node), m, src),
    decreases it.left(),
//@body
    proof { assert(self.segments@.take(self.segments@.len() as int) =~= self.segments@); assert(self.segments@.skip(self.segments@.len() as int) =~= Seq::empty()); }
//@before /match child \{/
    let ghost done = self.segments@;
    proof { lemma_child(node, it.index as int - 1, child, src); }
//@loopend 1
    proof {
        let k = it.index as int - 1; let c = node.green.children@[k];
        let extra = self.segments@.skip(done.len() as int);
        if child is Leaf { assert(self.segments@.take(done.len() as int) =~= done); assert(extra =~= seq![self.segments@.last()]); assert(shows(extra[0], leaves_tree(c, node.offset + before(node.green.children@, k))[0], m, src)); }
        assert(shows_all(extra, leaves_tree(c, node.offset + before(node.green.children@, k)), m, src));
        lemma_shows_add(done.skip(first.len() as int), leaves(*node.green, k, node.offset as int), extra, leaves_tree(c, node.offset + before(node.green.children@, k)), m, src);
        assert(self.segments@.skip(first.len() as int) =~= done.skip(first.len() as int) + extra) by { assert forall|i: int| 0 <= i < done.len() implies #[trigger] self.segments@[i] == done[i] by { assert(self.segments@.take(done.len() as int)[i] == done[i]); } }
        assert(self.segments@.take(first.len() as int) =~= first) by { assert forall|i: int| 0 <= i < first.len() implies #[trigger] self.segments@[i] == first[i] by { assert(self.segments@.take(done.len() as int)[i] == done[i]); assert(done.take(first.len() as int)[i] == first[i]); } }
    }
//@end
//@fn Visitor for HighlightVisitor::visit_token
    requires scopes_ok::<L>(), token.span.start <= token.span.end, get_ok(old(self).source.spec_bytes(), token.span.start as int, token.span.end as int),
    ensures final(self).theme == old(self).theme, final(self).source == old(self).source, final(self).segments@.len() == old(self).segments@.len() + 1, final(self).segments@.drop_last() == old(self).segments@,
        shows_at::<L>(final(self).segments@.last(), token.kind, token.span.start as int, token.span.end as int, old(self).theme.styles@, old(self).source.spec_bytes()),
//@sub /fn visit_token\(/ => fn visit_token<L: Language>(
//@sub /&self\.source\[([^\[\]]+?)\.\.([^\[\]]+?)\]/ => str_slice(self.source, \1, \2)
//@before /let style =/
    proof { assert forall|i: int| 0 <= i < scopes@.len() implies segments((#[trigger] scopes@[i])@) < 0x7fff_ffff by { assert(views(scopes@)[i] == scopes@[i]@); assert(token_scopes::<L>(token.kind)[i] == scopes@[i]@); } }
//@before /self\.segments\.push/
    proof { text_model::lemma_str_valid(text); }
//@sub /L::NAME/ => lang_name::<L>()
//@sub /L::CATEGORY/ => lang_category::<L>()
//@end
}
// ---- highlighting a text ---------------------------------------------------------------------------
pub struct OakError { pub k: u8 }
pub type ParseResult<T> = Result<T, OakError>;
/// The predefined themes.
pub struct Theme { pub k: u8 }
pub uninterp spec fn theme_of(t: Theme) -> Styles;
impl Theme { #[verifier::external_body] pub fn get_theme(&self) -> (r: HighlightTheme) ensures r.styles@ == theme_of(*self) { unimplemented!() } }
/// `SourceText::new(source.to_string())`.
pub struct SourceText { pub t: String }
#[verifier::external_body] pub fn source_text(s: &str) -> (r: SourceText) ensures r.t@ == s@ { unimplemented!() }
pub struct TextEdit { pub k: u8 }
#[verifier::reject_recursive_types(L)]
pub struct ParseSession<L: Language> { pub l: core::marker::PhantomData<L> }
impl<L: Language> ParseSession<L> { #[verifier::external_body] pub fn new(n: usize) -> (r: Self) { unimplemented!() } }
#[verifier::reject_recursive_types(L)]
pub struct ParseOutput<'a, L: Language> { pub result: Result<&'a GreenNode<'a, L>, OakError>, pub k: u8 }
pub trait Lexer<L: Language> {}
/// A parser whose trees are as long as the text and whose tokens lie on characters of it (`lossless`).
pub trait Parser<L: Language>: Sized {
    spec fn tree(&self, text: Seq<char>) -> Result<GreenNode<'static, L>, OakError>;
    fn parse<'a>(&self, text: &'a SourceText, edits: &[TextEdit], cache: &'a mut ParseSession<L>) -> (r: ParseOutput<'a, L>)
        ensures match r.result { Ok(n) => self.tree(text.t@) == Result::<GreenNode<L>, OakError>::Ok(*n), Err(e) => self.tree(text.t@) == Result::<GreenNode<L>, OakError>::Err(e) };
}
pub open spec fn root<L: Language>(n: GreenNode<L>) -> RedNode<L> { RedNode { green: &n, offset: 0 } }
/// The tree of this text is well formed, as long as the text, and its tokens lie on characters.
pub open spec fn lossless<L: Language, P: Parser<L>>(p: P, text: &str) -> bool {
    p.tree(text@) is Ok ==> wf(p.tree(text@)->Ok_0) && p.tree(text@)->Ok_0.text_len == text.spec_bytes().len() && all_fit(all(root(p.tree(text@)->Ok_0)), text.spec_bytes())
}
pub struct OakHighlighter { pub theme: HighlightTheme }
impl OakHighlighter {
//@gsub /oak_core::errors::ParseResult/ => ParseResult
//@gsub /crate::themes::Theme/ => Theme
//@fn OakHighlighter::highlight -> r
    ensures r is Ok, r->Ok_0.segments@.len() == 1, r->Ok_0.source.tx() == source@,
        r->Ok_0.segments@[0].span.start == 0, r->Ok_0.segments@[0].span.end == source.spec_bytes().len(), r->Ok_0.segments@[0].text.tx() == source@, r->Ok_0.segments@[0].style == style_of(theme_of(theme), "none"@),
//@sub /Range \{ start: 0, end: source\.len\(\) \}\.into\(\)/ => HighlightSpan::from(RangeU { start: 0, end: str_len(source) })
//@end
//@fn OakHighlighter::highlight_with_language -> r
    requires scopes_ok::<L>(), lossless::<L, P>(*parser, source),
    ensures r is Err <==> parser.tree(source@) is Err, r is Err ==> r->Err_0 == parser.tree(source@)->Err_0,
        // each leaf of the tree once, in order, with its text and its style
        r is Ok ==> r->Ok_0.source.tx() == source@ && shows_all(r->Ok_0.segments@, all(root(parser.tree(source@)->Ok_0)), theme_of(theme), source.spec_bytes()),
        // ... which is the whole text
        r is Ok ==> shown(r->Ok_0.segments@) == source.spec_bytes(),
//@sub /L: Language \+ Send \+ Sync \+ 'static,/ => L: Language,
//@sub /P: oak_core::parser::Parser<L>,/ => P: Parser<L>,
//@sub /LX: oak_core::Lexer<L>,/ => LX: Lexer<L>,
//@sub /L::ElementType: From<L::TokenType>,/ => 
//@sub /oak_core::source::SourceText::new\(source\.to_string\(\)\)/ => source_text(source)
//@sub /oak_core::parser::session::ParseSession/ => ParseSession
//@sub /let root_node = parse_result\.result\.map_err\(\|e\| e\)\?;/ => let root_node = match parse_result.result { Ok(n) => n, Err(e) => return Err(e) };
//@sub /<HighlightVisitor<'a, '_> as Visitor<L>>::visit_node\(&mut visitor, red_root\)/ => visitor.visit_node(red_root)
//@before /Ok\(HighlightResult/
    proof {
        assert(visitor.segments@.skip(0) =~= visitor.segments@);
        theorem_segments(visitor.segments@, red_root, theme_config.styles@, source.spec_bytes());
    }
//@end
}
impl HighlightSpan {
//@gsub /Range<usize>/ => RangeU
//@fn From for HighlightSpan::from -> r
    ensures r.start == range.start, r.end == range.end,
//@end
}
}
fn main() {}
