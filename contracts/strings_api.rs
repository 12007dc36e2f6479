// ---- the parts a string array is made of, as seen by the code under contract: offsets, bytes, and what is there
/// any of the integer types, as the number it stands for
pub trait NativePType: Copy {
    spec fn val(self) -> int;
    spec fn most() -> int;
    proof fn lemma_most(self) ensures self.val() <= Self::most();
    fn to_usize(&self) -> (r: Option<usize>) ensures r == (if 0 <= self.val() <= usize::MAX { Some(self.val() as usize) } else { None::<usize> });
    fn of(n: usize) -> (r: Option<Self>) ensures n <= Self::most() ==> r is Some && r.unwrap().val() == n, n > Self::most() ==> r is None;
    fn idx(self) -> (r: usize) requires 0 <= self.val() <= usize::MAX ensures r == self.val();
    fn zero() -> (r: Self) ensures r.val() == 0;
    fn plus(self, n: usize) -> (r: Self) requires self.val() >= 0, self.val() + n <= Self::most() ensures r.val() == self.val() + n;
    fn minus(self, o: Self) -> (r: Self) requires 0 <= o.val() <= self.val() ensures r.val() == self.val() - o.val();
}
pub open spec fn vals<O: NativePType>(s: Seq<O>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].val()) }
/// offsets cut n bytes into offs.len() - 1 pieces
pub open spec fn offs_ok(offs: Seq<int>, n: int) -> bool {
    &&& offs.len() >= 1
    &&& forall|i: int| 0 <= i < offs.len() ==> 0 <= #[trigger] offs[i] <= n
    &&& forall|i: int, j: int| 0 <= i <= j < offs.len() ==> offs[i] <= offs[j]
}
pub type Row = Option<Seq<u8>>;
/// the strings
pub open spec fn rows(offs: Seq<int>, data: Seq<u8>, ok: Seq<bool>) -> Seq<Row> {
    Seq::new(ok.len(), |i: int| if ok[i] { Some(data.subrange(offs[i], offs[i + 1])) } else { None::<Seq<u8>> })
}
pub open spec fn trues(n: nat) -> Seq<bool> { Seq::new(n, |i: int| true) }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DType { p: usize }
impl DType {
    pub uninterp spec fn nullable(&self) -> bool;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DType) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nullable(&self) -> (r: bool) ensures r == self.nullable() { unimplemented!() }
}
#[verifier::external_body]
pub struct Array { p: usize }
impl Array {
    pub uninterp spec fn bools(&self) -> Seq<bool>;
    pub uninterp spec fn ints(&self) -> Seq<int>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn strings(&self) -> Seq<Row>;
    pub uninterp spec fn sdtype(&self) -> DType;
}
pub enum Validity { NonNullable, AllValid, AllInvalid, Array(Array) }
impl Validity {
    pub open spec fn ok(&self, i: int) -> bool { match self { Validity::NonNullable => true, Validity::AllValid => true, Validity::AllInvalid => false, Validity::Array(a) => a.bools()[i] } }
    pub open spec fn oks(&self, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| self.ok(i)) }
    pub open spec fn fits(&self, n: int) -> bool { self matches Validity::Array(a) ==> a.bools().len() == n }
    #[verifier::external_body]
    pub fn is_valid(&self, i: usize) -> (r: bool) requires self matches Validity::Array(a) ==> i < a.bools().len() ensures r == self.ok(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_logical(&self, n: usize) -> (r: LogicalValidity) requires self.fits(n as int) ensures r@ == self.oks(n as int), self is NonNullable || self is AllValid ==> r.certain() { unimplemented!() }
}
#[verifier::external_body]
pub struct LogicalValidity { p: usize }
impl LogicalValidity {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    /// known without looking that everything is there
    pub uninterp spec fn certain(&self) -> bool;
    #[verifier::external_body]
    pub fn to_null_buffer(&self) -> (r: VortexResult<Option<NullBuffer>>)
        ensures r matches Ok(b) ==> match b { Some(m) => m@ == self@, None => self@ == trues(self@.len()) }, self.certain() ==> (r matches Ok(b) && b is None) { unimplemented!() }
}
#[verifier::external_body]
pub struct NullBuffer { p: usize }
impl NullBuffer {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn is_valid(&self, i: usize) -> (r: bool) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, start: usize, len: usize) -> (r: NullBuffer) requires start + len <= self@.len() ensures r@ == self@.subrange(start as int, start + len) { unimplemented!() }
    #[verifier::external_body]
    pub fn null_count(&self) -> (r: usize) ensures r == 0 <==> self@ == trues(self@.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bools(&self) -> (r: Vec<bool>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn validity_from(b: NullBuffer) -> (r: Validity) ensures r.fits(b@.len() as int), r.oks(b@.len() as int) == b@, !(r is NonNullable) { unimplemented!() }
#[verifier::external_body]
pub struct NullBufferBuilder { p: usize }
impl NullBufferBuilder {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn new(capacity: usize) -> (r: NullBufferBuilder) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn append_non_null(&mut self) ensures final(self)@ == old(self)@.push(true) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_null(&mut self) ensures final(self)@ == old(self)@.push(false) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_n_non_nulls(&mut self, n: usize) ensures final(self)@ == old(self)@ + trues(n as nat) { unimplemented!() }
    /// no buffer when no null was appended
    #[verifier::external_body]
    pub fn finish(self) -> (r: Option<NullBuffer>) ensures match r { Some(m) => m@ == self@, None => self@ == trues(self@.len()) }, self@ == trues(self@.len()) ==> r is None { unimplemented!() }
}
#[verifier::external_body]
pub struct PrimitiveArray { p: usize }
impl PrimitiveArray {
    pub uninterp spec fn ints(&self) -> Seq<int>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from<O: NativePType>(v: Vec<O>) -> (r: PrimitiveArray) ensures r.ints() == vals(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(v: Vec<u8>, validity: Validity) -> (r: PrimitiveArray) ensures r.bytes() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_array(self) -> (r: Array) ensures r.ints() == self.ints(), r.bytes() == self.bytes() { unimplemented!() }
    /// the values as numbers of a type that is theirs
    #[verifier::external_body]
    pub fn slice_of<O: NativePType>(&self) -> (r: &[O]) ensures vals(r@) == self.ints() { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
/// the contract the array layer has for strings: what is put in is what is there
#[verifier::external_body]
pub struct VarBinArray { p: usize }
impl VarBinArray {
    pub uninterp spec fn soffsets(&self) -> Seq<int>;
    pub uninterp spec fn sbytes(&self) -> Seq<u8>;
    pub uninterp spec fn svalidity(&self) -> Validity;
    pub uninterp spec fn sdtype(&self) -> DType;
    pub open spec fn count(&self) -> int { self.soffsets().len() - 1 }
    pub open spec fn view(&self) -> Seq<Row> { rows(self.soffsets(), self.sbytes(), self.svalidity().oks(self.count())) }
    pub open spec fn inv(&self) -> bool { offs_ok(self.soffsets(), self.sbytes().len() as int) && self.svalidity().fits(self.count()) && self.sdtype().nullable() == !(self.svalidity() is NonNullable) }
    #[verifier::external_body]
    pub fn try_new(offsets: Array, bytes: Array, dtype: DType, validity: Validity) -> (r: VortexResult<VarBinArray>)
        requires dtype.nullable() == !(validity is NonNullable), offs_ok(offsets.ints(), bytes.bytes().len() as int), validity.fits(offsets.ints().len() - 1),
        ensures r is Ok && ({ let x = r.unwrap(); x.soffsets() == offsets.ints() && x.sbytes() == bytes.bytes() && x.svalidity() == validity && x.sdtype() == dtype }), { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.sdtype() { unimplemented!() }
    #[verifier::external_body]
    pub fn validity(&self) -> (r: Validity) ensures r == self.svalidity() { unimplemented!() }
    #[verifier::external_body]
    pub fn offsets_prim(&self) -> (r: VortexResult<PrimitiveArray>) ensures r matches Ok(x) ==> x.ints() == self.soffsets() { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_prim(&self) -> (r: VortexResult<PrimitiveArray>) ensures r matches Ok(x) ==> x.bytes() == self.sbytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_array(self) -> (r: Array) ensures r.strings() == self@, r.sdtype() == self.sdtype() { unimplemented!() }
}
