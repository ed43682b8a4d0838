//! P17: highlighted segments are the tokens of the tree, in order, each with the style of its most specific scope.
use crate::common::*;
use core::range::Range;
use oak_core::{
    ElementType, Language, LexOutput, Lexer, OakDiagnostics, OakError, Parser, TokenRole, TokenType, UniversalElementRole, UniversalTokenRole,
    language::{ElementRole, LanguageCategory},
    lexer::{LexerCache, Token},
    memory::arena::SyntaxArena,
    parser::{ParseCache, ParseOutput, ParserState, parse_with_lexer},
    source::{Source, SourceText, TextEdit},
    tree::{GreenNode, RedNode},
    visitor::Visitor,
};
use oak_highlight::{
    OakHighlighter,
    highlighter::{HighlightSegment, HighlightStyle, HighlightTheme, HighlightVisitor, ScopeProvider},
    themes::Theme,
};
use std::collections::HashMap;

/// Names with any number of segments, some of them empty.
const NAMES: &[&str] = &["keyword", "keyword.control", "keyword.control.flow.loop", "string.quoted", "variable.other", "x", "x.y", "a.b.c.d.e.f", ".x", "x.", "", "none", "source", "constant.numeric"];
const UNI: &[UniversalTokenRole] =
    &[UniversalTokenRole::Keyword, UniversalTokenRole::Name, UniversalTokenRole::Literal, UniversalTokenRole::Escape, UniversalTokenRole::Operator, UniversalTokenRole::Punctuation, UniversalTokenRole::Comment, UniversalTokenRole::Whitespace, UniversalTokenRole::Error, UniversalTokenRole::None, UniversalTokenRole::Eof];
fn uni_name(u: UniversalTokenRole) -> &'static str {
    match u {
        UniversalTokenRole::Keyword => "keyword",
        UniversalTokenRole::Name => "variable.other",
        UniversalTokenRole::Literal => "constant",
        UniversalTokenRole::Escape => "constant.character.escape",
        UniversalTokenRole::Operator => "keyword.operator",
        UniversalTokenRole::Punctuation => "punctuation",
        UniversalTokenRole::Comment => "comment",
        UniversalTokenRole::Whitespace => "punctuation.whitespace",
        UniversalTokenRole::Error => "invalid",
        UniversalTokenRole::None => "none",
        UniversalTokenRole::Eof => "punctuation.eof",
    }
}
/// The kind of a token: a character class; its names follow from it.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct K(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct R(u8);
impl R {
    fn own(&self) -> &'static str {
        // every third kind bears its universal name
        if self.0 % 3 == 0 { uni_name(self.uni()) } else { NAMES[self.0 as usize % NAMES.len()] }
    }
    fn uni(&self) -> UniversalTokenRole {
        UNI[self.0 as usize * 7 % UNI.len()]
    }
}
impl TokenRole for R {
    fn universal(&self) -> UniversalTokenRole {
        self.uni()
    }
    fn name(&self) -> &str {
        self.own()
    }
}
const EOF: K = K(255);
impl TokenType for K {
    const END_OF_STREAM: Self = EOF;
    type Role = R;
    fn role(&self) -> R {
        R(self.0)
    }
    fn is_ignored(&self) -> bool {
        self.0 == 0
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum N {
    Tok(K),
    Root,
    Group,
    Wrap,
}
impl From<K> for N {
    fn from(k: K) -> N {
        N::Tok(k)
    }
}
impl ElementType for N {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        if *self == N::Root { UniversalElementRole::Root } else { UniversalElementRole::None }
    }
}
macro_rules! lang {
    ($t:ident, $n:literal, $c:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $t;
        impl Language for $t {
            const NAME: &'static str = $n;
            const CATEGORY: LanguageCategory = $c;
            type TokenType = K;
            type ElementType = N;
            type TypedRoot = ();
        }
    };
}
lang!(Prog, "prog", LanguageCategory::Programming);
lang!(Mark, "md.x", LanguageCategory::Markup);
lang!(Conf, "conf", LanguageCategory::Config);
lang!(Dsl, "d", LanguageCategory::Dsl);
lang!(Sheet, "css", LanguageCategory::StyleSheet);
lang!(Other, "", LanguageCategory::Other);
trait Lang: Language<TokenType = K, ElementType = N> + Copy + std::fmt::Debug + 'static {}
impl<T: Language<TokenType = K, ElementType = N> + Copy + std::fmt::Debug + 'static> Lang for T {}
fn prefix(c: LanguageCategory) -> &'static str {
    match c {
        LanguageCategory::Markup => "markup",
        LanguageCategory::Config => "config",
        LanguageCategory::Dsl => "dsl",
        _ => "source",
    }
}
/// Runs of letters, digits and blanks; every other character by itself.
fn lex<L: Lang>(s: &str) -> LexOutput<L> {
    let class = |c: char| match c {
        ' ' => 0u8,
        'a'..='z' => 1 + (c as u8 - b'a') % 20,
        '0'..='9' => 30 + (c as u8 - b'0'),
        c => 40 + (c as u32 % 60) as u8,
    };
    let mut v: Vec<Token<K>> = vec![];
    let it: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 0;
    while i < it.len() {
        let k = class(it[i].1);
        let mut j = i + 1;
        while j < it.len() && class(it[j].1) == k && k < 40 {
            j += 1;
        }
        let end = it.get(j).map_or(s.len(), |x| x.0);
        v.push(Token { kind: K(k), span: Range { start: it[i].0, end } });
        i = j;
    }
    v.push(Token { kind: EOF, span: Range { start: s.len(), end: s.len() } });
    OakDiagnostics { result: Ok(v.into()), diagnostics: vec![] }
}
/// Brackets make nodes, and so do every second word and empty pairs of bars.
fn nest<'a, L: Lang, S: Source + ?Sized>(st: &mut ParserState<'a, L, S>, depth: usize) {
    let open = K(40 + ('(' as u32 % 60) as u8);
    let close = K(40 + (')' as u32 % 60) as u8);
    let mut n = 0;
    while st.not_at_end() && !st.at(EOF) {
        let c = st.checkpoint();
        if st.at(open) {
            st.bump();
            nest(st, depth + 1);
            st.finish_at(c, N::Group);
        }
        else if st.at(close) && depth > 0 {
            st.bump();
            return;
        }
        else {
            st.bump();
            n += 1;
            if n % 2 == 0 {
                st.finish_at(c, N::Wrap);
                let c = st.checkpoint();
                st.finish_at(c, N::Wrap); // an empty node
            }
        }
    }
}
struct Lx;
impl<L: Lang> Lexer<L> for Lx {
    fn lex<'a, S: Source + ?Sized>(&self, text: &'a S, _: &[TextEdit], _: &'a mut impl LexerCache<L>) -> LexOutput<L> {
        lex::<L>(&text.get_text_in(Range { start: 0, end: text.length() }))
    }
}
struct Ps {
    fail: bool,
}
fn root<'a, L: Lang, S: Source + ?Sized>(st: &mut ParserState<'a, L, S>) -> &'a GreenNode<'a, L> {
    nest(st, 0);
    if st.not_at_end() {
        st.bump()
    }
    st.finish_at((0, 0), N::Root)
}
impl<L: Lang + Send + Sync> Parser<L> for Ps {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<L>) -> ParseOutput<'a, L> {
        parse_with_lexer(&Lx, text, edits, cache, |st| if self.fail { Err(OakError::custom_error("no".to_string())) } else { Ok(root(st)) })
    }
}
// ---- what is asked for ------------------------------------------------------------------------------
/// The longest leading part of the scope, cut at dots, that the theme names; and its number of segments.
fn named(t: &HighlightTheme, scope: &str) -> Option<(HighlightStyle, usize)> {
    let cuts: Vec<usize> = scope.match_indices('.').map(|x| x.0).chain([scope.len()]).collect();
    cuts.iter().enumerate().rev().map(|(i, c)| (&scope[..*c], i + 1)).find_map(|(p, n)| if p.is_empty() { None } else { t.styles.get(p).map(|s| (s.clone(), n)) })
}
fn fallback(t: &HighlightTheme) -> HighlightStyle {
    t.styles.get("none").cloned().unwrap_or(HighlightStyle { color: None, background_color: None, bold: false, italic: false, underline: false })
}
fn best(t: &HighlightTheme, scopes: &[String]) -> HighlightStyle {
    let mut at: Option<(HighlightStyle, usize)> = None;
    for s in scopes {
        if let Some(x) = named(t, s) {
            if at.as_ref().is_none_or(|a| x.1 > a.1) {
                at = Some(x)
            }
        }
    }
    at.map_or_else(|| fallback(t), |x| x.0)
}
fn scopes(own: &str, uni: &str, lang: &str, c: LanguageCategory) -> Vec<String> {
    let mut v = vec![format!("{own}.{lang}")];
    if own != uni {
        v.push(own.to_string())
    }
    v.extend([format!("{}.{uni}", prefix(c)), uni.to_string(), format!("{}.{lang}", prefix(c))]);
    v
}
fn want<L: Lang>(text: &str, t: &HighlightTheme) -> Vec<(usize, usize, HighlightStyle)> {
    lex::<L>(text).result.unwrap().iter().map(|k| (k.span.start, k.span.end, best(t, &scopes(k.kind.role().own(), uni_name(k.kind.role().uni()), L::NAME, L::CATEGORY)))).collect()
}
fn compare(got: &[HighlightSegment<'_>], want: &[(usize, usize, HighlightStyle)], text: &str) -> Result<(), String> {
    // tokens without text may be shown or not
    let got: Vec<_> = got.iter().filter(|s| s.span.start < s.span.end).collect();
    let want: Vec<_> = want.iter().filter(|s| s.0 < s.1).collect();
    ckeq!(got.iter().map(|s| (s.span.start, s.span.end)).collect::<Vec<_>>(), want.iter().map(|s| (s.0, s.1)).collect::<Vec<_>>(), "places of the segments");
    for (g, w) in got.iter().zip(&want) {
        ckeq!(g.text.as_ref(), &text[w.0..w.1], "text of {}..{}", w.0, w.1);
        ckeq!(g.style, w.2, "style of {}..{}", w.0, w.1);
    }
    ckeq!(got.iter().map(|s| s.text.as_ref()).collect::<String>(), text, "text of all segments");
    Ok(())
}
fn visit<L: Lang>(text: &str, theme: &HighlightTheme) -> Result<(), String> {
    let arena = SyntaxArena::new(16);
    let src = SourceText::new(text.to_string());
    let mut st = ParserState::<L, _>::new(&arena, lex::<L>(text), &src, 16);
    let g = root(&mut st);
    let mut v = HighlightVisitor { theme, segments: vec![], source: text };
    Visitor::<L>::visit_node(&mut v, RedNode::new(g, 0));
    compare(&v.segments, &want::<L>(text, theme), text)
}
fn whole<L: Lang + Send + Sync>(text: &str, theme: Theme) -> Result<(), String> {
    let h = OakHighlighter::new();
    let r = h.highlight_with_language::<L, _, _>(text, theme, &Ps { fail: false }, &Lx).map_err(|e| e.to_string())?;
    ckeq!(r.source.as_ref(), text, "source of the result");
    compare(&r.segments, &want::<L>(text, &theme.get_theme()), text)?;
    ck!(h.highlight_with_language::<L, _, _>(text, theme, &Ps { fail: true }, &Lx).is_err(), "a parser error is reported");
    let r = h.highlight(text, "none", theme).map_err(|e| e.to_string())?;
    ckeq!(r.segments.iter().map(|s| s.text.as_ref()).collect::<String>(), text, "text without a language");
    ck!(r.segments.iter().all(|s| s.style == fallback(&theme.get_theme())), "style without a language");
    let mut at = 0;
    for s in &r.segments {
        ckeq!((s.span.start, s.span.end), (at, at + s.text.len()), "place without a language");
        at += s.text.len();
    }
    Ok(())
}
fn style(n: u64) -> HighlightStyle {
    HighlightStyle { color: Some(format!("#{n:06x}")), background_color: if n % 3 == 0 { Some("#fff".into()) } else { None }, bold: n % 2 == 0, italic: n % 5 == 0, underline: n % 7 == 0 }
}
fn theme(r: &mut Rng, pool: &[String]) -> HighlightTheme {
    let mut styles = HashMap::new();
    let n = *r.pick(&[0, 1, 2, 3, 5, 8, 15]);
    for _ in 0..n {
        let k = r.pick(pool);
        let cuts: Vec<usize> = k.match_indices('.').map(|x| x.0).chain([k.len()]).collect();
        let c = *r.pick(&cuts);
        styles.insert(k[..c].to_string(), style(r.next() % 0x1000000));
    }
    if r.chance(1, 2) {
        styles.insert("none".to_string(), style(r.next() % 0x1000000));
    }
    if r.chance(1, 8) {
        styles.insert(String::new(), style(9));
    }
    HighlightTheme { name: "t".into(), styles }
}
pub fn p17(c: &mut Ctx) {
    let mut pool: Vec<String> = vec![];
    for k in 0..=255u8 {
        for (l, g) in [("prog", LanguageCategory::Programming), ("md.x", LanguageCategory::Markup), ("conf", LanguageCategory::Config), ("d", LanguageCategory::Dsl), ("css", LanguageCategory::StyleSheet), ("", LanguageCategory::Other)] {
            pool.extend(scopes(R(k).own(), uni_name(R(k).uni()), l, g));
        }
    }
    pool.sort();
    pool.dedup();
    c.family("scopes");
    let mut r = c.rng("scopes");
    for _ in 0..c.n(4000, 100000) {
        let t = theme(&mut r, &pool);
        let v: Vec<String> = (0..r.below(6))
            .map(|_| match r.below(4) {
                0 => (0..r.below(6)).map(|_| *r.pick(&["keyword", "x", "y", "", "none", "."])).collect::<Vec<_>>().join("."),
                _ => r.pick(&pool).clone(),
            })
            .collect();
        c.case(
            || format!("theme {:?} scopes {v:?}", t.styles.keys().collect::<Vec<_>>()),
            || {
                ckeq!(t.resolve_styles(&v), best(&t, &v), "resolve_styles");
                for s in &v {
                    ckeq!(t.resolve_style(s), named(&t, s).map_or_else(|| fallback(&t), |x| x.0), "resolve_style({s:?})");
                }
                Ok(())
            },
        );
    }
    c.family("roles");
    let mut r = c.rng("roles");
    for _ in 0..c.n(200, 2000) {
        let t = theme(&mut r, &pool);
        c.case(
            || format!("theme {:?}", t.styles.keys().collect::<Vec<_>>()),
            || {
                for u in UNI {
                    ckeq!(u.name(), uni_name(*u), "name of {u:?}");
                    ckeq!(t.get_token_style(*u), named(&t, uni_name(*u)).map_or_else(|| fallback(&t), |x| x.0), "style of {u:?}");
                    for g in [LanguageCategory::Programming, LanguageCategory::Markup, LanguageCategory::Config, LanguageCategory::Dsl, LanguageCategory::StyleSheet, LanguageCategory::Modeling, LanguageCategory::Other] {
                        ckeq!(u.scopes("l.x", g), scopes(uni_name(*u), uni_name(*u), "l.x", g), "scopes of {u:?} in {g:?}");
                    }
                }
                for e in [UniversalElementRole::Root, UniversalElementRole::None, UniversalElementRole::Error, UniversalElementRole::Definition, UniversalElementRole::Documentation] {
                    ckeq!(t.get_element_style(e), named(&t, e.name()).map_or_else(|| fallback(&t), |x| x.0), "style of {e:?}");
                    ckeq!(e.scopes("l", LanguageCategory::Dsl), scopes(e.name(), e.name(), "l", LanguageCategory::Dsl), "scopes of {e:?}");
                }
                Ok(())
            },
        );
    }
    c.family("trees");
    let alphabet: Vec<char> = "aabcdefghijklmnop  012  ()(),;+.\n\"é€😀\u{0}".chars().collect();
    let mut r = c.rng("trees");
    for i in 0..c.n(4000, 60000) {
        let max = *r.pick(&[4, 12, 40]);
        let text = if i % 500 == 499 { "(".repeat(120) + &r.text(&alphabet, 40) } else { r.text(&alphabet, max) };
        let t = theme(&mut r, &pool);
        let which = r.below(6);
        c.case(
            || format!("language {which} text {text:?} theme {:?}", t.styles.keys().collect::<Vec<_>>()),
            || match which {
                0 => visit::<Prog>(&text, &t),
                1 => visit::<Mark>(&text, &t),
                2 => visit::<Conf>(&text, &t),
                3 => visit::<Dsl>(&text, &t),
                4 => visit::<Sheet>(&text, &t),
                _ => visit::<Other>(&text, &t),
            },
        );
    }
    c.family("long");
    let mut r = c.rng("long");
    for i in 0..c.n(30, 300) {
        let text = (0..if i % 2 == 0 { 0 } else { r.below(250) }).map(|_| '(').collect::<String>() + &r.text(&alphabet, 5000);
        let t = theme(&mut r, &pool);
        c.case(|| format!("text {text:?} theme {:?}", t.styles.keys().collect::<Vec<_>>()), || if i % 3 == 0 { visit::<Mark>(&text, &t) } else { visit::<Prog>(&text, &t) });
    }
    c.family("highlighter");
    let mut r = c.rng("highlighter");
    for _ in 0..c.n(600, 6000) {
        let text = r.text(&alphabet, 30);
        let t = *r.pick(&[Theme::OneDarkPro, Theme::OneLight, Theme::Default]);
        let which = r.below(3);
        c.case(
            || format!("highlight_with_language {which} text {text:?} theme {t:?}"),
            || match which {
                0 => whole::<Prog>(&text, t),
                1 => whole::<Mark>(&text, t),
                _ => whole::<Conf>(&text, t),
            },
        );
    }
}
