// ToString of texts
pub trait Words { spec fn w(&self) -> Seq<char>; fn words(&self) -> (r: String) ensures r@ == self.w(); }
impl Words for String { open spec fn w(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn words(&self) -> (r: String) { self.clone() } }
impl Words for str { open spec fn w(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn words(&self) -> (r: String) { self.to_string() } }
impl<'a, T: Words + ?Sized> Words for &'a T { open spec fn w(&self) -> Seq<char> { (**self).w() }
    fn words(&self) -> (r: String) { (**self).words() } }
