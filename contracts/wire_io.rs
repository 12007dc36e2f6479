/// a message on the wire: its length, its bytes, and zeros up to the next multiple of 64
pub uninterp spec fn le32(n: int) -> Seq<u8>;
pub axiom fn axiom_le32(n: int) ensures le32(n).len() == 4;
pub open spec fn framed(b: Seq<u8>) -> Seq<u8> { b + zeros(up(4 + b.len() as int) - 4 - b.len() as int) }
pub open spec fn frame(b: Seq<u8>) -> Seq<u8> { le32(framed(b).len() as int) + framed(b) }
pub enum Kind { Schema(DType), Batch(Array), Page(Seq<u8>) }
pub uninterp spec fn encoded(k: Kind) -> Seq<u8>;
pub open spec fn batch_bytes(a: Array) -> Seq<u8> { frame(encoded(Kind::Batch(a))) + wire(bufs(a@), bufs(a@).len() as int) }
pub open spec fn page_bytes(b: Seq<u8>) -> Seq<u8> { frame(encoded(Kind::Page(b))) + b + zeros(up(b.len() as int) - b.len() as int) }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DType { p: usize }
