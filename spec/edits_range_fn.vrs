//@sub /\(0\.\.edits\.len\(\)\)\.collect\(\)/ => idx_collect(edits.len())
//@sub /order\.sort_by_key\(\|&i\| edits\[i\]\.span\.start\)/ => sort_by_start(&mut order, edits)
//@sub /for &i in &order \{/ => for k in 0..order.len() { let i = order[k];
//@sub /for &i in order\.iter\(\)\.rev\(\) \{/ => let mut k = order.len(); while k > 0 { k = k - 1; let i = order[k];
//@body
    let ghost gt = self.text(); let ghost ge = es(edits@);
    proof { self.lemma_inv(); assert(edits@.len() == edits.len()); lemma_no_more(gt, ge); if edits@.len() == 0 { reveal(edited); } }
//@loop 1
    invariant
        is_order(edits@, order@), order@ == the_order(edits@), ge == es(edits@), batch_ok(gt, ge), ge.len() == edits@.len(), order@.len() == edits@.len(), edits@.len() == edits.len(), gt.len() <= isize::MAX,
        old_len == gt.len(), edits@.len() > 0,
        reparse_from == (if k == 0 { old_len as int } else { ge[0].start }),
        reparse_to == (if k == 0 { 0 } else { new_start(ge, k - 1) + ge[k - 1].text.len() }),
        0 < k < ge.len() ==> delta == new_start(ge, k as int) - ge[k as int].start, k == 0 ==> delta == 0,
//@loopstart 1
    proof { lemma_round(gt, edits@, order@, k as int); if k > 0 { lemma_round(gt, edits@, order@, k - 1); } }
