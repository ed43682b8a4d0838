impl Source for str {
    open spec fn text(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn inv(&self) -> bool { self.spec_bytes().len() <= isize::MAX }
    open spec fn seam_at(&self, o: int) -> bool { true }
    proof fn lemma_inv(&self) { lemma_str_valid(self); }
//@fn Source for str::length
//@end
//@fn Source for str::chunk_at -> r
//@body
    proof { lemma_empty_str(); assert(self.spec_bytes().skip(offset as int) =~= self.spec_bytes().subrange(offset as int, self.spec_bytes().len() as int)); assert(self.spec_bytes().subrange(self.spec_bytes().len() as int, self.spec_bytes().len() as int) =~= Seq::<u8>::empty()); }
//@end
//@fn Source for str::get_text_in -> r
//@body
    proof { lemma_empty_str(); }
//@end
}
//@src projects/oak-core/src/source/text.rs
//@item SourceText
impl Source for SourceText {
    open spec fn text(&self) -> Seq<u8> { self.raw.spec_bytes() }
    open spec fn inv(&self) -> bool { self.raw.spec_bytes().len() <= isize::MAX }
    open spec fn seam_at(&self, o: int) -> bool { true }
    proof fn lemma_inv(&self) { lemma_str_valid(&*self.raw); }
//@fn Source for SourceText::length
//@end
//@fn Source for SourceText::chunk_at -> r
//@body
    proof { lemma_empty_str(); assert(self.raw.spec_bytes().skip(offset as int) =~= self.raw.spec_bytes().subrange(offset as int, self.raw.spec_bytes().len() as int)); assert(self.raw.spec_bytes().subrange(self.raw.spec_bytes().len() as int, self.raw.spec_bytes().len() as int) =~= Seq::<u8>::empty()); }
//@end
//@fn Source for SourceText::get_text_in -> r
//@body
    proof { lemma_empty_str(); }
//@end
}
