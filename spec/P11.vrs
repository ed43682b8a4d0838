use vstd::prelude::*;
verus! {
// ---- the language and std pieces used here (assumed) ---------------------------------------------
pub trait TokenType: Copy { spec fn trivia(&self) -> bool; fn is_ignored(&self) -> (r: bool) ensures r == self.trivia(); fn same(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
pub trait Language: Sized { type TokenType: TokenType; type ElementType: Copy; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
/// Reuse of an older tree: the subject of P12.
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct IncrementalContext<'a, L: Language> { p: &'a L }
//@import parser_state.vrs
//@src projects/oak-core/src/parser/pratt.rs
//@gsub /where\s*L: Language,\s*S: Source \+ \?Sized,(.*?)L::ElementType: From<L::TokenType>,/ => where L: Language, S: Source + ?Sized,\1
//@gsub /F: FnMut\(&mut ParserState<'a, L, S>, u8\) -> &'a GreenNode<'a, L>,/ => F: Operand<'a, L, S>,
//@gsub /mut parse_expr: F/ => parse_expr: F
//@gsub /parse_expr\(state/ => parse_expr.call(state
//@item Associativity
//@item OperatorInfo
impl OperatorInfo {
//@fn OperatorInfo::left -> r
    ensures r.precedence == precedence, r.associativity is Left,
//@end
//@fn OperatorInfo::right -> r
    ensures r.precedence == precedence, r.associativity is Right,
//@end
//@fn OperatorInfo::none -> r
    ensures r.precedence == precedence, r.associativity is None,
//@end
}
// ---- what operator grammars mean -----------------------------------------------------------------
/// An operator as its table describes it, and the kind of the nodes made for it.
pub struct Op<L: Language> { pub prec: u8, pub assoc: Associativity, pub kind: L::ElementType }
/// The operator tables of a grammar, and what it takes for an operand without operators.
pub trait Table<L: Language> {
    spec fn pre(k: L::TokenType) -> Option<Op<L>>;
    spec fn inf(k: L::TokenType) -> Option<Op<L>>;
    spec fn post(k: L::TokenType) -> Option<Op<L>>;
    spec fn atom(n: GreenNode<L>) -> bool;
}
/// How tight an operator must bind to belong into the right operand.
pub open spec fn next<L: Language>(o: Op<L>) -> int { match o.assoc { Associativity::Right => o.prec as int, _ => o.prec + 1 } }
/// An expression, grouped.
pub enum Ex<L: Language> { Atom, Pre(L::TokenType, Box<Ex<L>>), Bin(L::TokenType, Box<Ex<L>>, Box<Ex<L>>), Post(L::TokenType, Box<Ex<L>>) }
/// An operator and what no grammar sees behind it.
pub open spec fn sign<L: Language>(m: Seq<GreenTree<L>>, op: L::TokenType) -> bool { let s = spell(m); s.len() > 0 && s[0].kind == op && forall|i: int| #![trigger s[i]] 0 < i < s.len() ==> s[i].kind.trivia() }
/// The node has the shape of the expression: operands and operator in order and nothing else.
pub open spec fn shows<L: Language, G: Table<L>>(e: Ex<L>, n: GreenNode<L>) -> bool decreases e {
    let c = n.children@;
    match e {
        Ex::Atom => G::atom(n),
        Ex::Pre(op, a) => G::pre(op) is Some && n.kind == G::pre(op)->0.kind && c.len() >= 1 && c.last() is Node && sign(c.drop_last(), op) && shows::<L, G>(*a, *c.last()->Node_0),
        Ex::Bin(op, l, r) => G::inf(op) is Some && n.kind == G::inf(op)->0.kind && c.len() >= 2 && c[0] is Node && c.last() is Node && sign(c.subrange(1, c.len() - 1), op) && shows::<L, G>(*l, *c[0]->Node_0) && shows::<L, G>(*r, *c.last()->Node_0),
        Ex::Post(op, a) => G::post(op) is Some && n.kind == G::post(op)->0.kind && c.len() >= 1 && c[0] is Node && sign(c.skip(1), op) && shows::<L, G>(*a, *c[0]->Node_0),
    }
}
/// An operator of precedence p behind the expression takes all of it: none inside would have taken that operator into its right operand.
pub open spec fn closed<L: Language, G: Table<L>>(e: Ex<L>, p: int) -> bool decreases e {
    match e {
        Ex::Pre(op, a) => p < G::pre(op)->0.prec && closed::<L, G>(*a, p),
        Ex::Bin(op, l, r) => p < next(G::inf(op)->0) && closed::<L, G>(*r, p),
        _ => true,
    }
}
/// Grouped as the tables say, with no operator on its left edge looser than min.
pub open spec fn grouped<L: Language, G: Table<L>>(e: Ex<L>, min: int) -> bool decreases e {
    match e {
        Ex::Atom => true,
        Ex::Pre(op, a) => grouped::<L, G>(*a, G::pre(op)->0.prec as int),
        Ex::Bin(op, l, r) => { let o = G::inf(op)->0; min <= o.prec && grouped::<L, G>(*l, min) && closed::<L, G>(*l, o.prec as int) && grouped::<L, G>(*r, next(o)) }
        Ex::Post(op, a) => { let o = G::post(op)->0; min <= o.prec && grouped::<L, G>(*a, min) && closed::<L, G>(*a, o.prec as int) }
    }
}
/// Token k does not carry on an expression that takes operators from min up.
pub open spec fn stops<L: Language, G: Table<L>>(k: Option<L::TokenType>, min: int) -> bool { k is Some ==> (G::inf(k->0) is Some ==> G::inf(k->0)->0.prec < min) && (G::post(k->0) is Some ==> G::post(k->0)->0.prec < min) }
/// Nor does it carry on any of its right operands.
pub open spec fn sealed<L: Language, G: Table<L>>(e: Ex<L>, k: Option<L::TokenType>) -> bool decreases e {
    match e {
        Ex::Pre(op, a) => stops::<L, G>(k, G::pre(op)->0.prec as int) && sealed::<L, G>(*a, k),
        Ex::Bin(op, l, r) => stops::<L, G>(k, next(G::inf(op)->0)) && sealed::<L, G>(*r, k),
        _ => true,
    }
}
/// The node is an expression, grouped as the tables say, that was ended by token k.
#[verifier::opaque]
pub open spec fn expr<L: Language, G: Table<L>>(n: GreenNode<L>, min: int, k: Option<L::TokenType>) -> bool { exists|e: Ex<L>| #[trigger] shows::<L, G>(e, n) && grouped::<L, G>(e, min) && sealed::<L, G>(e, k) }
/// The same, and made of a prefix operator or no operator.
#[verifier::opaque]
pub open spec fn first<L: Language, G: Table<L>>(n: GreenNode<L>, k: Option<L::TokenType>) -> bool { exists|e: Ex<L>| #[trigger] shows::<L, G>(e, n) && (e is Atom || e is Pre) && grouped::<L, G>(e, 0) && sealed::<L, G>(e, k) }
proof fn first_is_expr<L: Language, G: Table<L>>(n: GreenNode<L>, min: int, k: Option<L::TokenType>) requires first::<L, G>(n, k) ensures expr::<L, G>(n, min, k) { reveal(first); reveal(expr); let e = choose|e: Ex<L>| #[trigger] shows::<L, G>(e, n) && (e is Atom || e is Pre) && grouped::<L, G>(e, 0) && sealed::<L, G>(e, k); assert(grouped::<L, G>(e, min)); }
proof fn sealed_closed<L: Language, G: Table<L>>(e: Ex<L>, k: L::TokenType, p: int) requires sealed::<L, G>(e, Some(k)), (G::inf(k) is Some && p == G::inf(k)->0.prec) || (G::post(k) is Some && p == G::post(k)->0.prec) ensures closed::<L, G>(e, p) decreases e {
    match e { Ex::Pre(op, a) => { sealed_closed::<L, G>(*a, k, p); } Ex::Bin(op, l, r) => { sealed_closed::<L, G>(*r, k, p); } _ => {} }
}
impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
    /// Where operator parsing starts and ends.
    pub open spec fn fit(&self) -> bool { self.inv() && self.rest() && self.at_i() <= self.t().len() }
    /// One more tree, n.
    pub open spec fn put(&self, o: &Self, n: &'a GreenNode<'a, L>) -> bool { self.fit() && self.t() == o.t() && self.kids() =~= o.kids().push(GreenTree::Node(n)) && o.at_i() <= self.at_i() }
    /// The last tree, left, became part of the tree n.
    pub open spec fn wrapped(&self, o: &Self, n: &'a GreenNode<'a, L>) -> bool { self.fit() && self.t() == o.t() && o.kids().len() > 0 && self.kids() =~= o.kids().drop_last().push(GreenTree::Node(n)) && o.at_i() < self.at_i() }
    /// What lies in the tree behind the first k trees once the current token, op, was expected.
    proof fn sign_made(&self, o: &Self, op: L::TokenType) requires o.inv(), o.cur() == Some(op), self.kept(o), self.behind(o), o.at_i() < self.at_i() <= o.t().len(), self.gap(o.at_i() + 1, self.at_i()) ensures sign(self.kids().skip(o.kids().len() as int), op), self.kids() =~= o.kids() + self.kids().skip(o.kids().len() as int) {
        let n = o.kids().len() as int; let m = self.kids().skip(n);
        assert(self.kids() =~= o.kids() + m); spell_add(o.kids(), m);
        let ts = toks::<L>(self.t(), o.at_i(), self.at_i());
        assert(spell(m) =~= ts) by { let a = spell(o.kids()); assert((a + spell(m)).skip(a.len() as int) =~= spell(m)); assert((a + ts).skip(a.len() as int) =~= ts); }
        assert forall|i: int| #![trigger spell(m)[i]] 0 < i < spell(m).len() implies spell(m)[i].kind.trivia() by { assert(self.t()[o.at_i() + i].kind.trivia()); }
    }
}
/// The operand of an operator: what the closure given to the helpers does.
pub trait Operand<'a, L: Language, S: Source + ?Sized>: Sized {
    type G: Table<L>;
    fn call(&self, st: &mut ParserState<'a, L, S>, min: u8) -> (r: &'a GreenNode<'a, L>)
        requires old(st).fit(),
        ensures final(st).put(old(st), r), expr::<L, Self::G>(*r, min as int, final(st).cur()), stops::<L, Self::G>(final(st).cur(), min as int);
}
//@fn binary -> r
    requires old(state).fit(), old(state).kids().len() > 0, old(state).kids().last() == GreenTree::Node(left), old(state).cur() == Some(op_kind),
        <F::G as Table<L>>::inf(op_kind) == Some(Op::<L> { prec: op_precedence, assoc: assoc, kind: result_kind }), op_precedence < 255,
        expr::<L, F::G>(*left, 0, Some(op_kind)),
    ensures final(state).wrapped(old(state), r),
        forall|min: int| min <= op_precedence && #[trigger] expr::<L, F::G>(*left, min, Some(op_kind)) ==> expr::<L, F::G>(*r, min, final(state).cur()),
//@sub /state\.expect\(op_kind\)\.ok\(\);/ => let ghost s0 = *state; state.expect(op_kind).ok(); let ghost s1 = *state; proof { s1.sign_made(&s0, op_kind); }
//@before /state\.finish_at/
    let ghost s2 = *state;
    proof {
        let k = s2.cur(); let n = s0.kids().len() as int; let c = s2.kids().skip(n - 1); let m = s1.kids().skip(n);
        assert(c[0] == GreenTree::Node(left)); assert(c.last() == GreenTree::Node(_right)); assert(c.subrange(1, c.len() - 1) =~= m);
        assert forall|min: int, node: GreenNode<'a, L>| min <= op_precedence && #[trigger] expr::<L, F::G>(*left, min, Some(op_kind)) && node.kind == result_kind && #[trigger] node.children@ == c implies expr::<L, F::G>(node, min, k) by {
            reveal(expr);
            let l = choose|e: Ex<L>| #[trigger] shows::<L, F::G>(e, *left) && grouped::<L, F::G>(e, min) && sealed::<L, F::G>(e, Some(op_kind));
            let r = choose|e: Ex<L>| #[trigger] shows::<L, F::G>(e, *_right) && grouped::<L, F::G>(e, next_prec as int) && sealed::<L, F::G>(e, k);
            sealed_closed::<L, F::G>(l, op_kind, op_precedence as int);
            let e = Ex::Bin(op_kind, Box::new(l), Box::new(r));
            assert(shows::<L, F::G>(e, node)); assert(grouped::<L, F::G>(e, min)); assert(sealed::<L, F::G>(e, k));
        }
    }
//@end
//@fn unary -> r
    requires old(state).fit(), old(state).cur() == Some(op_kind), <F::G as Table<L>>::pre(op_kind) is Some, <F::G as Table<L>>::pre(op_kind)->0.prec == op_precedence, <F::G as Table<L>>::pre(op_kind)->0.kind == result_kind,
    ensures final(state).put(old(state), r), old(state).at_i() < final(state).at_i(), first::<L, F::G>(*r, final(state).cur()),
//@sub /state\.expect\(op_kind\)\.ok\(\);/ => let ghost s0 = *state; state.expect(op_kind).ok(); let ghost s1 = *state; proof { s1.sign_made(&s0, op_kind); }
//@sub /state\.finish_at\(cp, result_kind\)/ => let ghost s2 = *state; let r = state.finish_at(cp, result_kind); proof { let k = s2.cur(); let n = s0.kids().len() as int; let c = s2.kids().skip(n); assert(c.last() == GreenTree::Node(_right)); assert(c.drop_last() =~= s1.kids().skip(n)); reveal(expr); reveal(first); let a = choose|e: Ex<L>| #[trigger] shows::<L, F::G>(e, *_right) && grouped::<L, F::G>(e, op_precedence as int) && sealed::<L, F::G>(e, k); let e = Ex::Pre(op_kind, Box::new(a)); assert(shows::<L, F::G>(e, *r)); assert(grouped::<L, F::G>(e, 0)); assert(sealed::<L, F::G>(e, k)); } r
//@end
//@fn postfix -> r
//@sub /postfix<'a, L, S>/ => postfix<'a, L, S, G>
//@sub /op_kind: L::TokenType, result_kind: L::ElementType\)/ => op_kind: L::TokenType, result_kind: L::ElementType, Ghost(prec): Ghost<u8>)
//@sub /where\s*L: Language,\s*S: Source \+ \?Sized,\s*L::ElementType: From<L::TokenType>,/ => where L: Language, S: Source + ?Sized, G: Table<L>,
    requires old(state).fit(), old(state).kids().len() > 0, old(state).kids().last() == GreenTree::Node(left), old(state).cur() == Some(op_kind), G::post(op_kind) is Some, G::post(op_kind)->0.prec == prec, G::post(op_kind)->0.kind == result_kind,
    ensures final(state).wrapped(old(state), r),
        forall|min: int| min <= prec && #[trigger] expr::<L, G>(*left, min, Some(op_kind)) ==> expr::<L, G>(*r, min, final(state).cur()),
//@sub /state\.expect\(op_kind\)\.ok\(\);/ => let ghost s0 = *state; state.expect(op_kind).ok(); let ghost s1 = *state; proof { s1.sign_made(&s0, op_kind); }
//@before /state\.finish_at/
    proof {
        let k = s1.cur(); let n = s0.kids().len() as int; let c = s1.kids().skip(n - 1);
        assert(c[0] == GreenTree::Node(left)); assert(c.skip(1) =~= s1.kids().skip(n));
        assert forall|min: int, node: GreenNode<'a, L>| min <= prec && #[trigger] expr::<L, G>(*left, min, Some(op_kind)) && node.kind == result_kind && #[trigger] node.children@ == c implies expr::<L, G>(node, min, k) by {
            reveal(expr);
            let l = choose|e: Ex<L>| #[trigger] shows::<L, G>(e, *left) && grouped::<L, G>(e, min) && sealed::<L, G>(e, Some(op_kind));
            sealed_closed::<L, G>(l, op_kind, prec as int);
            let e = Ex::Post(op_kind, Box::new(l));
            assert(shows::<L, G>(e, node)); assert(grouped::<L, G>(e, min)); assert(sealed::<L, G>(e, k));
        }
    }
//@end
proof fn atom_first<L: Language, G: Table<L>>(n: GreenNode<L>, k: Option<L::TokenType>) requires G::atom(n) ensures first::<L, G>(n, k) { reveal(first); let e = Ex::<L>::Atom; assert(shows::<L, G>(e, n)); assert(grouped::<L, G>(e, 0) && sealed::<L, G>(e, k)); }
/// A grammar: its tables, and functions that follow them.
pub trait Pratt<L: Language>: Sized {
    type G: Table<L>;
    fn primary<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, L, S>) -> (r: &'a GreenNode<'a, L>)
        requires old(state).fit(),
        ensures final(state).put(old(state), r), Self::G::atom(*r);
//@fn trait Pratt::prefix -> r
//@sub /self\.primary\(state\)/ => let r = self.primary(state); proof { atom_first::<L, Self::G>(*r, state.cur()); } r
    requires old(state).fit(),
    ensures final(state).put(old(state), r), first::<L, Self::G>(*r, final(state).cur()),
//@end
    fn infix<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, L, S>, left: &'a GreenNode<'a, L>, min_precedence: u8) -> (r: Option<&'a GreenNode<'a, L>>)
        requires old(state).fit(), old(state).kids().len() > 0, old(state).kids().last() == GreenTree::Node(left), expr::<L, Self::G>(*left, min_precedence as int, old(state).cur()),
        ensures
            r is None ==> final(state).still(old(state)) && final(state).fit() && stops::<L, Self::G>(final(state).cur(), min_precedence as int),
            r is Some ==> final(state).wrapped(old(state), r->0) && expr::<L, Self::G>(*r->0, min_precedence as int, final(state).cur());
}
#[verifier::reject_recursive_types(L)]
//@item PrattParser
impl<L: Language, T: Pratt<L>> PrattParser<L, T> {
//@fn PrattParser::new -> r
    ensures r.spec == spec,
//@end
//@fn PrattParser::parse_expr -> r
    requires old(state).fit(),
    ensures final(state).put(old(state), r), expr::<L, T::G>(*r, min_precedence as int, final(state).cur()), stops::<L, T::G>(final(state).cur(), min_precedence as int),
//@end
//@fn PrattParser::parse -> r
    requires old(state).fit(),
    ensures final(state).put(old(state), r), expr::<L, T::G>(*r, min_precedence as int, final(state).cur()), stops::<L, T::G>(final(state).cur(), min_precedence as int),
//@before /while let/
    proof { first_is_expr::<L, T::G>(*left, min_precedence as int, state.cur()); }
//@loop 1
    invariant_except_break true,
    invariant state.put(old(state), left), expr::<L, T::G>(*left, min_precedence as int, state.cur()),
    ensures state.put(old(state), left), expr::<L, T::G>(*left, min_precedence as int, state.cur()), stops::<L, T::G>(state.cur(), min_precedence as int),
    decreases state.t().len() - state.at_i(),
//@end
}
// ---- the contracts compose: a grammar written the way the documentation shows meets them ----------
/// Tables that can be asked.
pub trait Look<L: Language>: Table<L> {
    fn get_pre(k: L::TokenType) -> (r: Option<Op<L>>) ensures r == Self::pre(k);
    fn get_inf(k: L::TokenType) -> (r: Option<Op<L>>) ensures r == Self::inf(k), r is Some ==> r->0.prec < 255;
    fn get_post(k: L::TokenType) -> (r: Option<Op<L>>) ensures r == Self::post(k);
    /// No operator is both.
    proof fn apart(k: L::TokenType) ensures Self::inf(k) is None || Self::post(k) is None;
}
/// Operands without operators.
pub trait Primary<'a, L: Language, S: Source + ?Sized, G: Table<L>>: Sized {
    fn call(&self, st: &mut ParserState<'a, L, S>) -> (r: &'a GreenNode<'a, L>) requires old(st).fit(), ensures final(st).put(old(st), r), G::atom(*r);
}
pub fn table_prefix<'a, L: Language, S: Source + ?Sized, G: Look<L>, A: Primary<'a, L, S, G>, F: Operand<'a, L, S, G = G>>(state: &mut ParserState<'a, L, S>, atom: A, f: F) -> (r: &'a GreenNode<'a, L>)
    requires old(state).fit(),
    ensures final(state).put(old(state), r), first::<L, G>(*r, final(state).cur()),
{
    if let Some(k) = state.peek_kind() { if let Some(o) = G::get_pre(k) { return unary(state, k, o.prec, o.kind, f); } }
    let r = atom.call(state);
    proof { atom_first::<L, G>(*r, state.cur()); }
    r
}
pub fn table_infix<'a, L: Language, S: Source + ?Sized, G: Look<L>, F: Operand<'a, L, S, G = G>>(state: &mut ParserState<'a, L, S>, left: &'a GreenNode<'a, L>, min_precedence: u8, f: F) -> (r: Option<&'a GreenNode<'a, L>>)
    requires old(state).fit(), old(state).kids().len() > 0, old(state).kids().last() == GreenTree::Node(left), expr::<L, G>(*left, min_precedence as int, old(state).cur()),
    ensures
        r is None ==> final(state).still(old(state)) && final(state).fit() && stops::<L, G>(final(state).cur(), min_precedence as int),
        r is Some ==> final(state).wrapped(old(state), r->0) && expr::<L, G>(*r->0, min_precedence as int, final(state).cur()),
{
    let k = match state.peek_kind() { Some(k) => k, None => { return None; } };
    proof { G::apart(k); }
    if let Some(o) = G::get_post(k) { if o.prec < min_precedence { return None; } return Some(postfix::<L, S, G>(state, left, k, o.kind, Ghost(o.prec))); }
    let o = match G::get_inf(k) { Some(o) => o, None => { return None; } };
    if o.prec < min_precedence { return None; }
    proof { loosen::<L, G>(*left, min_precedence as int, Some(k)); }
    Some(binary(state, left, k, o.prec, o.assoc, o.kind, f))
}
proof fn loosen<L: Language, G: Table<L>>(n: GreenNode<L>, min: int, k: Option<L::TokenType>) requires expr::<L, G>(n, min, k), min >= 0 ensures expr::<L, G>(n, 0, k) {
    reveal(expr); let e = choose|e: Ex<L>| #[trigger] shows::<L, G>(e, n) && grouped::<L, G>(e, min) && sealed::<L, G>(e, k); loosen_ex::<L, G>(e, min); assert(grouped::<L, G>(e, 0));
}
proof fn loosen_ex<L: Language, G: Table<L>>(e: Ex<L>, min: int) requires grouped::<L, G>(e, min), min >= 0 ensures grouped::<L, G>(e, 0) decreases e { match e { Ex::Bin(op, l, r) => { loosen_ex::<L, G>(*l, min); } Ex::Post(op, a) => { loosen_ex::<L, G>(*a, min); } _ => {} } }
// ---- what grouping says about neighbouring operators ---------------------------------------------
/// An operator on the right edge of an expression: not shut in behind another operator to its right.
pub open spec fn edge<L: Language>(e: Ex<L>, k: int) -> Option<Ex<L>> decreases e { match e { Ex::Bin(_, _, r) => if k == 0 { Some(e) } else { edge(*r, k - 1) }, Ex::Pre(_, a) => if k == 0 { Some(e) } else { edge(*a, k - 1) }, _ => None } }
/// In a left operand every operator that could have taken the next one binds tighter, or as tight if it is not right-associative.
pub proof fn theorem_left_operand<L: Language, G: Table<L>>(op: L::TokenType, l: Ex<L>, r: Ex<L>, min: int, k: int)
    requires grouped::<L, G>(Ex::Bin(op, Box::new(l), Box::new(r)), min), k >= 0, edge(l, k) is Some,
    ensures match edge(l, k)->0 { Ex::Bin(q, _, _) => { let (p, o) = (G::inf(op)->0, G::inf(q)->0); o.prec > p.prec || (o.prec == p.prec && !(o.assoc is Right)) } Ex::Pre(q, _) => G::pre(q)->0.prec > G::inf(op)->0.prec, _ => true },
{ edge_closed::<L, G>(l, G::inf(op)->0.prec as int, k); }
proof fn edge_closed<L: Language, G: Table<L>>(e: Ex<L>, p: int, k: int) requires closed::<L, G>(e, p), k >= 0, edge(e, k) is Some ensures match edge(e, k)->0 { Ex::Bin(q, _, _) => p < next(G::inf(q)->0), Ex::Pre(q, _) => p < G::pre(q)->0.prec, _ => true } decreases e { match e { Ex::Bin(_, _, r) => { if k > 0 { edge_closed::<L, G>(*r, p, k - 1); } } Ex::Pre(_, a) => { if k > 0 { edge_closed::<L, G>(*a, p, k - 1); } } _ => {} } }
/// The infix and postfix operators on the left edge of an expression.
pub open spec fn head<L: Language>(e: Ex<L>, k: int) -> Option<Ex<L>> decreases e { match e { Ex::Bin(_, l, _) => if k == 0 { Some(e) } else { head(*l, k - 1) }, Ex::Post(_, a) => if k == 0 { Some(e) } else { head(*a, k - 1) }, _ => None } }
/// In a right operand every operator binds tighter than the operator in front, or as tight if that is right-associative.
pub proof fn theorem_right_operand<L: Language, G: Table<L>>(op: L::TokenType, l: Ex<L>, r: Ex<L>, min: int, k: int)
    requires grouped::<L, G>(Ex::Bin(op, Box::new(l), Box::new(r)), min), k >= 0, head(r, k) is Some,
    ensures ({ let p = G::inf(op)->0; let q = match head(r, k)->0 { Ex::Bin(q, _, _) => G::inf(q)->0, Ex::Post(q, _) => G::post(q)->0, _ => p }; q.prec > p.prec || (q.prec == p.prec && p.assoc is Right) }),
{ head_at_least::<L, G>(r, next(G::inf(op)->0), k); }
proof fn head_at_least<L: Language, G: Table<L>>(e: Ex<L>, min: int, k: int) requires grouped::<L, G>(e, min), k >= 0, head(e, k) is Some ensures match head(e, k)->0 { Ex::Bin(q, _, _) => G::inf(q)->0.prec >= min, Ex::Post(q, _) => G::post(q)->0.prec >= min, _ => false } decreases e { match e { Ex::Bin(_, l, _) => { if k > 0 { head_at_least::<L, G>(*l, min, k - 1); } } Ex::Post(_, a) => { if k > 0 { head_at_least::<L, G>(*a, min, k - 1); } } _ => {} } }
}
fn main() {}
