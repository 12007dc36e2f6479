/// the bytes of a buffer
#[verifier::external_body]
pub struct Buffer { p: usize }
impl Buffer {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, range: std::ops::Range<usize>) -> (r: Buffer) requires range.start <= range.end <= self@.len() ensures r@ == self@.subrange(range.start as int, range.end as int) { unimplemented!() }
}
