//@include text_model.vrs
//@include rope.vrs
pub type SourceId = u32;
//@gsub /\.get\(/ => .get_v(
//@gsub /\.binary_search\(/ => .binary_search_v(
//@gsub /Arc::<str>::from\((\w+)\.to_string\(\)\)/ => arc_str(\1)
//@gsub /\.map\(Cow::Borrowed\)/ => .map(|x| -> (q: Cow<'_, str>) ensures q == Cow::<'_, str>::Borrowed(x) { Cow::Borrowed(x) })
//@gsub /&(\w+)\[([^\[\]]+?)\.\.([^\[\]]+?)\]/ => str_slice(\1, \2, \3)
//@gsub /&(\w+)\[([^\[\]]+?)\.\.\]/ => str_slice_from(\1, \2)
//@gsub /([\w.]+)\.is_char_boundary\(/ => is_cb(\1, 
