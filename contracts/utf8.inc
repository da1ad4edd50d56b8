// ---------------------------------------------------------------- trusted: UTF-8 conversions of std
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r is Ok ==> r->Ok_0@ == decode_utf8(v@) && encode_utf8(r->Ok_0@) == v@;
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub assume_specification<'a>[ std::str::from_utf8 ](v: &'a [u8]) -> (r: Result<&'a str, std::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@) && encode_utf8(r->Ok_0@) == v@;
