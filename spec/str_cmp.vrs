// ---- comparing strings (assumed: alloc)
pub assume_specification[<String as PartialEq<str>>::eq](a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification<'b>[<String as PartialEq<&'b str>>::eq](a: &String, b: &&str) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification[<str as PartialEq<String>>::eq](a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification<'b>[<&'b str as PartialEq<String>>::eq](a: &&'b str, b: &String) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification[<String as PartialEq<str>>::ne](a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification<'b>[<String as PartialEq<&'b str>>::ne](a: &String, b: &&str) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification[<str as PartialEq<String>>::ne](a: &str, b: &String) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification<'b>[<&'b str as PartialEq<String>>::ne](a: &&'b str, b: &String) -> (r: bool) ensures r == (a@ != b@);
