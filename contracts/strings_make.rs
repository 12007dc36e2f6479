impl NativePType for u32 {
    open spec fn val(self) -> int { self as int }
    open spec fn most() -> int { u32::MAX as int }
    proof fn lemma_most(self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn of(n: usize) -> (r: Option<Self>) { if n <= 0xffff_ffff { Some(n as u32) } else { None } }
    fn idx(self) -> (r: usize) { self as usize }
    fn zero() -> (r: Self) { 0 }
    fn plus(self, n: usize) -> (r: Self) { (self as usize + n) as u32 }
    fn minus(self, o: Self) -> (r: Self) { self - o }
}

impl NativePType for u64 {
    open spec fn val(self) -> int { self as int }
    open spec fn most() -> int { u64::MAX as int }
    proof fn lemma_most(self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn of(n: usize) -> (r: Option<Self>) { Some(n as u64) }
    fn idx(self) -> (r: usize) { self as usize }
    fn zero() -> (r: Self) { 0 }
    fn plus(self, n: usize) -> (r: Self) { (self as usize + n) as u64 }
    fn minus(self, o: Self) -> (r: Self) { self - o }
}
/// the strings to encode, in order
#[verifier::external_body]
pub struct Strings { p: usize }
impl Strings {
    pub uninterp spec fn view(&self) -> Seq<Row>;
}
pub open spec fn got(o: Option<&[u8]>) -> Row { match o { Some(v) => Some(v@), None => None } }
#[verifier::external_body]
pub fn iter_strings(s: &Strings) -> (r: Vec<Option<&[u8]>>) ensures r.len() == s@.len(), forall|i: int| 0 <= i < r.len() ==> got(#[trigger] r@[i]) == s@[i] { unimplemented!() }
pub open spec fn width(r: Row) -> int { match r { Some(v) => v.len() as int, None => 0 } }
pub open spec fn size(s: Seq<Row>, k: int) -> int decreases k { if k <= 0 { 0 } else { size(s, k - 1) + width(s[k - 1]) } }
pub proof fn lemma_size(s: Seq<Row>, a: int, b: int) requires 0 <= a <= b ensures 0 <= size(s, a) <= size(s, b) decreases b { if a < b { lemma_size(s, a, b - 1); } else if a > 0 { lemma_size(s, a - 1, a - 1); } }

pub open spec fn total_len(s: Seq<&[u8]>, k: int) -> int decreases k { if k <= 0 { 0 } else { total_len(s, k - 1) + s[k - 1]@.len() } }
pub proof fn lemma_total_len(s: Seq<&[u8]>, a: int, b: int) requires 0 <= a <= b ensures 0 <= total_len(s, a) <= total_len(s, b) decreases b { if a < b { lemma_total_len(s, a, b - 1); } else if a > 0 { lemma_total_len(s, a - 1, a - 1); } }
pub open spec fn all_some(s: Seq<&[u8]>) -> Seq<Row> { Seq::new(s.len(), |i: int| Some(s[i]@)) }
#[verifier::external_body]
pub fn any_len() -> (r: usize) ensures r < usize::MAX { unimplemented!() }
/// strings none of which is null
#[verifier::external_body]
pub struct Present { p: usize }
impl Present { pub uninterp spec fn view(&self) -> Seq<&[u8]>; }
#[verifier::external_body]
pub fn iter_present(s: &Present) -> (r: Vec<&[u8]>) ensures r@ == s@ { unimplemented!() }
impl Validity {
    #[verifier::external_body] /* proved: validity */
    pub fn slice(&self, start: usize, stop: usize) -> (r: VortexResult<Validity>)
        ensures r matches Ok(v) ==> (v is NonNullable) == (*self is NonNullable) && forall|n: int| #[trigger] self.fits(n) && start <= stop <= n ==> v.fits(stop - start) && v.oks(stop - start) == self.oks(n).subrange(start as int, stop as int) { unimplemented!() }
}
/// the contract of slice on the parts (see the slicing checks)
#[verifier::external_body]
pub fn slice_ints(a: Array, start: usize, stop: usize) -> (r: VortexResult<Array>) requires start <= stop ensures r matches Ok(x) ==> x.ints() == a.ints().subrange(start as int, stop as int) { unimplemented!() }
#[verifier::external_body]
pub fn slice(a: Array, start: usize, stop: usize) -> (r: VortexResult<Array>) requires start <= stop <= a.bytes().len() ensures r matches Ok(x) ==> x.bytes() == a.bytes().subrange(start as int, stop as int) { unimplemented!() }
#[verifier::external_body]
pub fn prim_of(a: Array) -> (r: VortexResult<PrimitiveArray>) ensures r matches Ok(x) ==> x.bytes() == a.bytes() { unimplemented!() }
impl PrimitiveArray { #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() } }
impl VarBinArray {
    #[verifier::external_body]
    pub fn offsets(&self) -> (r: Array) ensures r.ints() == self.soffsets() { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: Array) ensures r.bytes() == self.sbytes() { unimplemented!() }
    /// the offset as a number, whatever array holds it
    #[verifier::external_body]
    pub fn offset_at(&self, i: usize) -> (r: usize) requires 0 <= i < self.soffsets().len(), 0 <= self.soffsets()[i as int] <= usize::MAX ensures r == self.soffsets()[i as int] { unimplemented!() }
}
