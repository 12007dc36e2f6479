use core::ops::Range;
/// a reader of chunks one after the other in a file: where each starts, in rows and in bytes, and where the last ends
pub struct Reader { pub dtype: Box<DType>, pub byte_offsets: Array, pub row_offsets: Array, pub read: Source }
#[verifier::external_body] pub struct Source { p: usize }
#[verifier::external_body] pub struct Bytes { p: usize }
#[verifier::external_body] pub struct ChunkStream { p: usize }
#[verifier::external_body] pub struct TakenRows { p: usize }
impl Bytes { pub uninterp spec fn rows(&self) -> Seq<Elem>; }
impl ChunkStream { pub uninterp spec fn rows(&self) -> Seq<Elem>; }
/// the rows a stream of batches delivers
impl TakenRows { pub uninterp spec fn out(&self) -> Seq<Elem>; }
impl Source {
    /// the rows of the chunks of the file
    pub uninterp spec fn content(&self) -> Seq<Elem>;
    /// the bytes from b0 to b1 are a whole number of chunks, which hold these rows
    pub uninterp spec fn holds(&self, b0: int, b1: int, rows: Seq<Elem>) -> bool;
    #[verifier::external_body]
    pub fn read_bytes(&self, at: u64, len: usize) -> (r: VortexResult<Bytes>)
        ensures r matches Ok(b) ==> forall|rows: Seq<Elem>| #[trigger] self.holds(at as int, at + len, rows) ==> b.rows() == rows,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn open_stream(b: Bytes) -> (r: VortexResult<ChunkStream>) ensures r matches Ok(s) ==> s.rows() == b.rows() { unimplemented!() }
#[verifier::external_body] /* proved: take_rows_stream */
pub fn take_rows_of(s: ChunkStream, ix: Array) -> (r: VortexResult<TakenRows>)
    requires sorted_ints(ix.ints()), all_nat(ix.ints()), ix@.len() == ix.ints().len(),
    ensures r matches Ok(t) ==> (all_in(ix.ints(), s.rows().len() as int) ==> t.out() == gather(s.rows(), ix.ints())),
{ unimplemented!() }
/// a stream is read to its end
#[verifier::external_body]
pub fn drain(t: TakenRows) -> (r: VortexResult<Vec<Array>>) ensures r matches Ok(v) ==> flat(v@) == t.out() { unimplemented!() }
#[verifier::external_body]
pub fn u32_array(v: Vec<u32>) -> (r: Array) ensures r@.len() == v.len(), r.ints() == v@.map_values(|x: u32| x as int) { unimplemented!() }
#[verifier::external_body]
pub fn u64_at(a: &Array, i: usize) -> (r: u64) requires i < a.ints().len(), 0 <= a.ints()[i as int] <= u64::MAX ensures r == a.ints()[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn chunked_of(chunks: Vec<Array>, dtype: DType) -> (r: VortexResult<Array>) ensures r matches Ok(a) ==> a@ == flat(chunks@) { unimplemented!() }
impl Reader {
    pub open spec fn o(&self) -> Seq<int> { self.row_offsets.ints() }
    pub open spec fn inv(&self) -> bool {
        let (o, b) = (self.row_offsets.ints(), self.byte_offsets.ints());
        &&& o.len() == b.len() && o.len() > 0 && o.len() <= u32::MAX && self.row_offsets@.len() == o.len() && self.byte_offsets@.len() == o.len()
        &&& sorted_ints(o) && sorted_ints(b) && all_nat(o) && all_nat(b) && o[0] == 0 && o[o.len() - 1] == self.read.content().len() && o[o.len() - 1] <= u64::MAX && b[o.len() - 1] <= u64::MAX
        &&& forall|s: int, t: int| 0 <= s <= t < o.len() ==> #[trigger] self.read.holds(b[s], b[t], self.read.content().subrange(o[s], o[t]))
    }
}
/// the indices from position p on, of which each lies in rows lo..hi
pub open spec fn all_between(ix: Seq<int>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < ix.len() ==> lo <= #[trigger] ix[i] < hi }
/// taking the rows lo..hi of a list, relative to lo, is taking them from the list
pub proof fn lemma_shift(s: Seq<Elem>, ix: Seq<int>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len(), all_between(ix, lo, hi),
    ensures all_in(shifted(ix, lo), hi - lo), gather(s.subrange(lo, hi), shifted(ix, lo)) =~= gather(s, ix),
{}
