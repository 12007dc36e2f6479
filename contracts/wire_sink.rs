pub const ALIGNMENT: usize = 64;
pub trait IoBuf: Sized {
    spec fn data(&self) -> Seq<u8>;
    fn bytes_init(&self) -> (r: usize) ensures r == self.data().len();
}
/// bytes handed to a sink
#[verifier::external_body]
pub struct Raw { p: Vec<u8> }
impl Raw {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_inner(self) -> Vec<u8> { unimplemented!() }
}
impl IoBuf for Raw {
    open spec fn data(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn bytes_init(&self) -> (r: usize) { unimplemented!() }
}
impl IoBuf for Buffer {
    open spec fn data(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn bytes_init(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn some_zeros(n: usize) -> (r: Raw) requires n <= 512 ensures r@ == zeros(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn le_bytes(n: u32) -> (r: Raw) ensures r@ == le32(n as int), r@.len() == 4 { unimplemented!() }
#[verifier::external_body]
pub fn part(v: Vec<u8>, a: usize, b: usize) -> (r: Raw) requires a <= b <= v.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub struct Sink { p: usize }
impl Sink {
    /// what was written
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all<B: IoBuf>(&mut self, b: B) -> (r: VortexResult<B>) ensures r matches Ok(x) ==> x == b && final(self)@ == old(self)@ + b.data() && final(self)@.len() <= u64::MAX { unimplemented!() }
}
pub enum IPCMessage<'a> { Schema(IPCSchema<'a>), Batch(IPCBatch<'a>), Page(IPCPage<'a>) }
pub struct IPCSchema<'a>(pub &'a DType);
pub struct IPCBatch<'a>(pub &'a Array);
pub struct IPCPage<'a>(pub &'a Buffer);
impl<'a> IPCMessage<'a> {
    pub open spec fn kind(&self) -> Kind { match self { IPCMessage::Schema(d) => Kind::Schema(*d.0), IPCMessage::Batch(a) => Kind::Batch(*a.0), IPCMessage::Page(b) => Kind::Page(b.0@) } }
    /// a builder puts the message at the end of its buffer; a flatbuffer has fewer than 2 GiB
    #[verifier::external_body]
    pub fn build(self) -> (r: (Vec<u8>, usize))
        ensures r.1 <= r.0.len(), r.0@.subrange(r.1 as int, r.0.len() as int) == encoded(self.kind()), encoded(self.kind()).len() <= i32::MAX,
    { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BufRef { p: usize }
impl BufRef { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
impl IoBuf for BufRef {
    open spec fn data(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn bytes_init(&self) -> (r: usize) { unimplemented!() }
}
/// the buffers of the nodes a traversal delivers
#[verifier::external_body] /* proved: traversal */
pub fn iter_buffers(a: &Array) -> (r: Vec<BufRef>) ensures r.len() == bufs(a@).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == bufs(a@)[i] { unimplemented!() }
impl Array {
    #[verifier::external_body] /* proved: buffer_offsets */
    pub fn all_buffer_offsets(&self, alignment: usize) -> (r: Vec<u64>)
        requires alignment == 64, off(bufs(self@), bufs(self@).len() as int) <= u32::MAX * 0x1_0000,
        ensures r.len() == bufs(self@).len() + 1, forall|k: int| 0 <= k < r.len() ==> #[trigger] r@[k] == off(bufs(self@), k),
    { unimplemented!() }
}
