//@include impl_text.vrs
//@include impl_rope.vrs
//@include impl_streaming.vrs
