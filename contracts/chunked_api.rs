
impl ChunkedArray {
#[verifier::external_body] /* proved: chunked_core */
pub fn chunk(&self, idx: usize) -> (r: VortexResult<Array>)
    requires self.inv(),
    ensures r matches Ok(a) ==> idx < self.parts().len() && a == self.parts()[idx as int], idx >= self.parts().len() ==> r is Err,
{ unimplemented!() }
#[verifier::external_body] /* proved: chunked_core */
pub fn find_chunk_idx(&self, index: usize) -> (r: (usize, usize))
    requires self.inv(), index <= self@.len(),
    ensures located(self.offs(), index as int, r.0 as int, r.1 as int),
{ unimplemented!() }
#[verifier::external_body] /* proved: chunked_core */
pub fn try_new(chunks: Vec<Array>, dtype: DType) -> (r: VortexResult<ChunkedArray>)
    requires flat(chunks@).len() <= usize::MAX, chunks.len() < usize::MAX,
    ensures r matches Ok(c) ==> c.inv() && c.parts() == chunks@ && c.sdtype() == dtype,
{ unimplemented!() }
}
/// the chunks in order
#[verifier::external_body]
pub fn iter_chunks(a: &ChunkedArray) -> (r: Vec<Array>) requires a.inv() ensures r@ == a.parts() { unimplemented!() }
/// gathering in two steps
pub proof fn lemma_gather_push(s: Seq<Elem>, ix: Seq<int>, i: int) ensures gather(s, ix.push(i)) =~= gather(s, ix).push(s[i]) {}
pub proof fn lemma_gather_concat(s: Seq<Elem>, a: Seq<int>, b: Seq<int>) ensures gather(s, a + b) =~= gather(s, a) + gather(s, b) {}
