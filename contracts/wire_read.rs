// ---- reading messages
/// what the bytes of a message say; zeros after a flatbuffer are not read
pub uninterp spec fn meaning(m: Seq<u8>) -> Kind;
pub axiom fn axiom_meaning(k: Kind) ensures meaning(encoded(k)) == k, meaning(framed(encoded(k))) == k, encoded(k).len() <= i32::MAX;
pub axiom fn axiom_le32_inj(a: int, b: int) requires 0 <= a <= u32::MAX, 0 <= b <= u32::MAX, le32(a) == le32(b) ensures a == b;
pub mod io { pub enum ErrorKind { UnexpectedEof, Other } }
pub struct IoErr { pub kind: io::ErrorKind }
impl IoErr {
    pub fn kind(&self) -> (r: &io::ErrorKind) ensures *r == self.kind { &self.kind }
    pub fn into(self) -> VErr { VErr }
}
#[verifier::external_body]
pub struct BytesMut { p: usize }
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, x: u8) ensures final(self)@.len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: usize) ensures final(self)@.len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32_le(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures le32(r as int) == old(self)@.take(4), final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut) ensures r@ == old(self)@, final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: BytesMut) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn take_all(&mut self) -> (r: BytesMut) ensures r@ == old(self)@, final(self)@.len() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { p: usize }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn get_u32_le(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures le32(r as int) == old(self)@.take(4), final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn buffer_from(b: Bytes) -> (r: Buffer) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub struct In { p: usize }
impl In {
    /// the bytes that are still to come
    pub uninterp spec fn left(&self) -> Seq<u8>;
    /// the source reported something other than its end
    pub uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    pub fn read_into(&mut self, b: BytesMut) -> (r: Result<BytesMut, IoErr>)
        ensures match r {
            Ok(x) => b@.len() <= old(self).left().len() && x@ == old(self).left().take(b@.len() as int) && final(self).left() == old(self).left().skip(b@.len() as int) && final(self).failed() == old(self).failed(),
            Err(e) => if e.kind is UnexpectedEof { old(self).left().len() < b@.len() && final(self).failed() == old(self).failed() } else { final(self).failed() } },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exactly(&mut self, b: BytesMut) -> (r: VortexResult<BytesMut>)
        ensures match r {
            Ok(x) => b@.len() <= old(self).left().len() && x@ == old(self).left().take(b@.len() as int) && final(self).left() == old(self).left().skip(b@.len() as int) && final(self).failed() == old(self).failed(),
            Err(_) => final(self).failed() || old(self).left().len() < b@.len() },
    { unimplemented!() }
}
pub mod fb {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Buffer { pub offset: u64, pub padding: u16 }
    impl Buffer {
        pub fn offset(&self) -> (r: u64) ensures r == self.offset { self.offset }
        pub fn padding(&self) -> (r: u16) ensures r == self.padding { self.padding }
    }
    #[verifier::external_body]
    pub struct Batch { p: usize }
    impl Batch {
        pub uninterp spec fn of(&self) -> Array;
        pub uninterp spec fn sbuffers(&self) -> Seq<Buffer>;
        pub uninterp spec fn size(&self) -> int;
        #[verifier::external_body]
        pub fn buffer_size(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
        #[verifier::external_body]
        pub fn length(&self) -> (r: u64) ensures r == self.of().slen() { unimplemented!() }
        #[verifier::external_body]
        pub fn entries(&self) -> (r: Vec<Buffer>) ensures r@ == self.sbuffers() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Page { p: usize }
    impl Page {
        pub uninterp spec fn of(&self) -> Seq<u8>;
        /* proved: batch_header */
        #[verifier::external_body]
        pub fn buffer_size(&self) -> (r: u32) ensures r == self.of().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn padding(&self) -> (r: u16) ensures r == up(self.of().len() as int) - self.of().len() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Schema { p: usize }
    impl Schema {
        pub uninterp spec fn of(&self) -> DType;
        #[verifier::external_body]
        pub fn dtype(&self) -> (r: Option<DType>) ensures r == Some(self.of()) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Message { p: usize }
    impl Message {
        pub uninterp spec fn kind(&self) -> Kind;
        #[verifier::external_body] /* proved: batch_header */
        pub fn header_as_batch(&self) -> (r: Option<Batch>)
            ensures match (self.kind(), r) { (Kind::Batch(a), Some(b)) => b.of() == a && describes(b.sbuffers(), b.size(), bufs(a@)) && bufs(a@).len() <= u32::MAX && b.size() <= u32::MAX * 0x1_0000, (Kind::Batch(a), None) => false, (_, Some(b)) => false, (_, None) => true }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn header_as_page(&self) -> (r: Option<Page>) ensures match (self.kind(), r) { (Kind::Page(b), Some(p)) => p.of() == b, (Kind::Page(b), None) => false, (_, Some(b)) => false, (_, None) => true } { unimplemented!() }
        #[verifier::external_body]
        pub fn header_as_schema(&self) -> (r: Option<Schema>) ensures match (self.kind(), r) { (Kind::Schema(d), Some(p)) => p.of() == d, (Kind::Schema(d), None) => false, (_, Some(b)) => false, (_, None) => true } { unimplemented!() }
    }
}
pub open spec fn describes(es: Seq<fb::Buffer>, size: int, bs: Seq<Seq<u8>>) -> bool {
    es.len() == bs.len() && size == off(bs, bs.len() as int)
        && forall|k: int| 0 <= k < bs.len() ==> (#[trigger] es[k]).offset == off(bs, k) && es[k].padding == up(bs[k].len() as int) - bs[k].len()
}
#[verifier::external_body]
pub fn root_of_bytes(m: &Bytes) -> (r: fb::Message) ensures r.kind() == meaning(m@) { unimplemented!() }
#[verifier::external_body]
pub fn root_of_buffer(m: &Buffer) -> (r: fb::Message) ensures r.kind() == meaning(m@) { unimplemented!() }
#[verifier::external_body]
pub fn root_of(m: &BytesMut) -> (r: fb::Message) ensures r.kind() == meaning(m@) { unimplemented!() }
#[verifier::external_body]
pub fn check_root(m: &BytesMut) -> (r: VortexResult<()>) ensures (exists|k: Kind| m@ == #[trigger] framed(encoded(k))) ==> r is Ok { unimplemented!() }
pub open spec fn offsets_of(es: Seq<fb::Buffer>) -> Seq<u64> { es.map_values(|e: fb::Buffer| e.offset) }
#[verifier::external_body]
pub fn iter_offsets(es: &Vec<fb::Buffer>) -> (r: Vec<u64>) ensures r@ == offsets_of(es@) { unimplemented!() }
pub open spec fn contents(v: Seq<Buffer>) -> Seq<Seq<u8>> { v.map_values(|b: Buffer| b@) }
