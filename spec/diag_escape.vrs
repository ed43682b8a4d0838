/// HTML escaping of the diagnostics emitter.
//@gsub /\.replace\(/ => .replace_v(
//@src projects/oak-diagnostic/src/lib.rs
//@fn html_escape -> r
    ensures r@ == escs(s@),
//@body
    proof { lits(); lemma_chain(s@); }
//@end
