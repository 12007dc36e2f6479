impl CompressionTree {
    #[verifier::external_body] /* proved: compressor */
    pub fn new(compressor: CompressorRef, children: Vec<Option<CompressionTree>>) -> (r: CompressionTree)
        ensures r.compressor == compressor, r.children == children { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn new_with_metadata(compressor: CompressorRef, children: Vec<Option<CompressionTree>>, metadata: Meta) -> (r: CompressionTree)
        ensures r.compressor == compressor, r.children == children { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn flat(compressor: CompressorRef) -> (r: CompressionTree)
        ensures r.compressor == compressor, r.children.len() == 0 { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn into_parts(self) -> (r: (CompressorRef, Vec<Option<CompressionTree>>, Option<Meta>)) ensures r.0 == self.compressor, r.1 == self.children, r.2 == self.metadata { unimplemented!() }
}
impl CompressedArray {
    #[verifier::external_body] /* proved: compressor */
    pub fn new(array: Array, path: Option<CompressionTree>) -> (r: CompressedArray) ensures r.array == array, r.path == path { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn uncompressed(array: Array) -> (r: CompressedArray) ensures r.array == array, r.path is None { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn into_parts(self) -> (r: (Array, Option<CompressionTree>)) ensures r.0 == self.array, r.1 == self.path { unimplemented!() }
}
#[verifier::external_body]
pub struct SamplingCompressor { p: usize }
#[verifier::external_body]
pub struct CompSet { p: usize }
pub struct CompressConfig { pub target_block_bytesize: usize, pub target_block_size: usize }
pub uninterp spec fn child_of(l: Option<CompressionTree>, i: nat) -> Option<CompressionTree>;
/// `like.as_ref().and_then(|l| l.child(i))`
#[verifier::external_body] /* proved: compressor */
pub fn like_child(like: &Option<CompressionTree>, idx: usize) -> (r: Option<&CompressionTree>)
    requires like matches Some(t) ==> idx < t.children.len(),
    ensures r matches Some(c) ==> like matches Some(t) && t.children@[idx as int] == Some(*c),
{ unimplemented!() }
impl SamplingCompressor {
    pub uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SamplingCompressor) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn named<L>(&self, name: L) -> (r: SamplingCompressor) requires self.inv() ensures r.inv() { unimplemented!() }
    #[verifier::external_body]
    pub fn auxiliary<L>(&self, name: L) -> (r: SamplingCompressor) requires self.inv() ensures r.inv() { unimplemented!() }
    #[verifier::external_body]
    pub fn excluding(&self, compressor: CompressorRef) -> (r: SamplingCompressor) requires self.inv() ensures r.inv() { unimplemented!() }
    #[verifier::external_body]
    pub fn including(&self, compressor: CompressorRef) -> (r: SamplingCompressor) requires self.inv() ensures r.inv() { unimplemented!() }
    #[verifier::external_body]
    pub fn options(&self) -> &CompressConfig { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn compress(&self, arr: &Array, like: Option<&CompressionTree>) -> (r: VortexResult<CompressedArray>)
        requires self.inv(), like matches Some(l) ==> l.wf(),
        ensures r matches Ok(x) ==> same_data(*arr, x),
    { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn compress_array(&self, array: &Array) -> (r: VortexResult<CompressedArray>)
        requires self.inv(),
        ensures r matches Ok(x) ==> same_data(*array, x),
    { unimplemented!() }
    #[verifier::external_body] /* proved: compressor */
    pub fn compress_validity(&self, validity: Validity) -> (r: VortexResult<Validity>)
        requires self.inv()
        ensures r matches Ok(v) ==> v.vdata() == validity.vdata()
    { unimplemented!() }
}
