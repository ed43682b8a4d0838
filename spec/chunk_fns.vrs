//@fn chunkify -> r
    requires text.spec_bytes().len() <= isize::MAX,
    ensures flat(r@) == text.spec_bytes(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).spec_bytes().len() > 0,
//@loop 1
    invariant
        text.spec_bytes().len() <= isize::MAX, start <= text.spec_bytes().len(), cb(text.spec_bytes(), start as int),
        flat(out@) =~= text.spec_bytes().take(start as int),
        forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).spec_bytes().len() > 0,
    decreases text.spec_bytes().len() - start,
//@loop 2
    invariant start <= end <= text.spec_bytes().len(),
    decreases end,
//@after /out\.push\([^;]*;/
    proof { assert(out@.drop_last() =~= old_out@); assert(flat(out@) =~= text.spec_bytes().take(end as int)); }
//@before /out\.push\(/
    let ghost old_out = out;
//@end
//@fn text_in_chunks -> r
    requires wf(chunks@, starts@, len),
    ensures
        range.start >= range.end || range.start >= len ==> r.bytes() == Seq::<u8>::empty(),
        ({ let e = if range.end <= len { range.end } else { len };
           range.start < e && cb(flat(chunks@), range.start as int) && cb(flat(chunks@), e as int) ==> r.bytes() == flat(chunks@).subrange(range.start as int, e as int) }),
//@sub /for \(i, c\) in chunks\.iter\(\)\.enumerate\(\)\.skip\((.*?)\)\.take\((.*?)\) \{/ => for i in (\1)..vmin((\1) + (\2), chunks.len()) { let c = &chunks[i];
//@body
    let ghost gc = chunks@; let ghost gf = flat(chunks@);
    let ghost ok = cb(gf, range.start as int) && cb(gf, if range.end <= len { range.end } else { len } as int);
    proof { lemma_empty_str(); lemma_sorted(gc, starts@, len); assert(chunks@.len() == chunks.len()); }
//@before /if start_idx == end_idx/
    proof { lemma_locate(gc, starts@, len, start as int, end as int, start_idx as int, end_idx as int); }
//@loop 1
    invariant
        gc == chunks@, gf == flat(gc), wf(gc, starts@, len), 
        start_idx < end_idx < gc.len(),
        ok ==> located(gc, start as int, end as int, start_idx as int, end_idx as int),
        ok ==> encode_utf8(buf@) == gf.subrange(start as int, upto(gc, start as int, end as int, start_idx as int, end_idx as int, i as int)),
//@loopstart 1
    let ghost b0 = buf@;
    proof { if ok { lemma_seg(gc, start as int, end as int, start_idx as int, end_idx as int, i as int); } }
//@after /buf\.push_str\(seg\);/
    proof {
        encode_utf8_concat(b0, seg@); lemma_str_valid(seg);
        if ok {
            let u = upto(gc, start as int, end as int, start_idx as int, end_idx as int, i as int);
            let v = upto(gc, start as int, end as int, start_idx as int, end_idx as int, i + 1);
            assert(gf.subrange(start as int, u) + gf.subrange(u, v) =~= gf.subrange(start as int, v));
        }
    }
//@end
