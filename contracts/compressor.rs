/// what an array decodes to: its values, nulls, length and type
#[verifier::external_body]
pub struct Data { p: usize }
#[verifier::external_body]
pub struct DType { p: usize }
impl DType { #[verifier::external_body] pub fn clone(&self) -> (r: DType) ensures r == *self { unimplemented!() } }
pub uninterp spec fn data_len(d: Data) -> nat;
pub uninterp spec fn data_dtype(d: Data) -> DType;
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub struct EncId { pub id: u16 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Array { p: usize }
impl Array {
    pub uninterp spec fn data(&self) -> Data;
    pub uninterp spec fn enc(&self) -> EncId;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == data_len(self.data()), r < usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (data_len(self.data()) == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == data_dtype(self.data()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_encoding(&self, id: EncId) -> (r: bool) ensures r == (self.enc() == id) { unimplemented!() }
    #[verifier::external_body]
    pub fn nbytes(&self) -> usize { unimplemented!() }
    pub fn into_array(self) -> (r: Array) ensures r == self { self }
    pub fn as_ref(&self) -> (r: &Array) ensures *r == *self { self }
}
#[verifier::external_body]
pub fn enc_id(a: &Array) -> (r: EncId) ensures r == a.enc() { unimplemented!() }
#[verifier::external_body]
pub fn check_validity_unchanged(arr: &Array, compressed: &Array) requires compressed.data() == arr.data() { }
#[verifier::external_body]
pub fn check_dtype_unchanged(arr: &Array, compressed: &Array) requires compressed.data() == arr.data() { }
#[verifier::external_body]
pub fn slice(a: &Array, start: usize, stop: usize) -> VortexResult<Array> requires start <= stop <= data_len(a.data()) { unimplemented!() }
#[verifier::external_body]
pub struct Label { p: usize }
#[verifier::external_body]
pub fn vformat() -> Label { unimplemented!() }
#[verifier::external_body]
pub struct Vdata { p: usize }
#[verifier::external_body]
pub struct ValidityArr { p: usize }
pub enum Validity { NonNullable, AllValid, AllInvalid, Array(Array) }
/// which rows a validity marks as valid
pub uninterp spec fn mask_of(d: Data) -> Vdata;
pub uninterp spec fn konst_mask(k: int) -> Vdata;
impl Validity {
    pub open spec fn vdata(&self) -> Vdata { match self { Validity::NonNullable => konst_mask(0), Validity::AllValid => konst_mask(1), Validity::AllInvalid => konst_mask(2), Validity::Array(a) => mask_of(a.data()) } }
}
#[verifier::external_body]
pub struct Meta { p: usize }
impl Meta { #[verifier::external_body] pub fn clone(&self) -> (r: Meta) ensures r == *self { unimplemented!() } }
/// a compressor behind `&dyn EncodingCompressor`
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CompressorRef { p: usize }
/// the trait object a concrete compressor turns into
pub uninterp spec fn sdyn<T>(t: T) -> CompressorRef;
#[verifier::external_body]
pub fn dyn_ref<T>(t: &T) -> (r: CompressorRef) ensures r == sdyn(*t) { unimplemented!() }
/// what `can_compress` promises about the array it is shown
pub uninterp spec fn accepts(c: CompressorRef, a: Array) -> bool;
/// how many children the trees built by a compressor have (at least)
pub uninterp spec fn arity(c: CompressorRef) -> nat;
impl CompressionTree {
    pub uninterp spec fn wf(&self) -> bool;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: CompressionTree) ensures r == *self { unimplemented!() }
}
pub open spec fn opt_wf(t: Option<CompressionTree>) -> bool { t matches Some(t) ==> t.wf() }
/// a tree is well formed when it and all its descendants have the children their compressor looks at
#[verifier::external_body]
pub broadcast proof fn axiom_wf(t: CompressionTree)
    ensures #[trigger] t.wf() <==> t.children.len() >= arity(t.compressor) && forall|i: int| 0 <= i < t.children.len() ==> opt_wf(#[trigger] t.children@[i])
{ }
/// the tree a compressor is asked to follow was built by that compressor
pub open spec fn like_ok(c: CompressorRef, t: Option<CompressionTree>) -> bool { t matches Some(t) ==> t.wf() && t.compressor == c }
/// what every compressor promises: the result holds the same data, and says who made it
pub open spec fn made_by(c: CompressorRef, a: Array, r: CompressedArray) -> bool { r.array.data() == a.data() && like_ok(c, r.path) }
/// what compressing by search promises
pub open spec fn same_data(a: Array, r: CompressedArray) -> bool { r.array.data() == a.data() && opt_wf(r.path) }
impl CompressorRef {
    #[verifier::external_body]
    pub fn can_compress(&self, array: &Array) -> (r: Option<CompressorRef>) ensures r matches Some(c) ==> c == *self && accepts(*self, *array) { unimplemented!() }
    #[verifier::external_body]
    pub fn compress(&self, array: &Array, like: Option<CompressionTree>, ctx: SamplingCompressor) -> (r: VortexResult<CompressedArray>)
        requires accepts(*self, *array), like_ok(*self, like), ctx.inv()
        ensures r matches Ok(x) ==> made_by(*self, *array, x)
    { unimplemented!() }
}
