/// a native value: a member of the total order
pub trait NativePType: Copy {
    spec fn val(self) -> Val;
    fn is_eq(self, o: Self) -> (r: bool) ensures r == (ord(self.val(), o.val()) == 0);
    fn compare(self, o: Self) -> (r: Ordering) ensures (r is Less) == (ord(self.val(), o.val()) < 0), (r is Equal) == (ord(self.val(), o.val()) == 0), (r is Greater) == (ord(self.val(), o.val()) > 0);
}
pub fn is_gt(o: Ordering) -> (r: bool) ensures r == (o is Greater) { match o { Ordering::Greater => true, _ => false } }
pub fn is_lt(o: Ordering) -> (r: bool) ensures r == (o is Less) { match o { Ordering::Less => true, _ => false } }
pub fn is_ge(o: Ordering) -> (r: bool) ensures r == !(o is Less) { match o { Ordering::Less => false, _ => true } }
pub fn is_le(o: Ordering) -> (r: bool) ensures r == !(o is Greater) { match o { Ordering::Greater => false, _ => true } }
/// 64-bit blocks of bits
pub open spec fn bit(w: u64, j: int) -> bool { (w >> (j as u64)) & 1 == 1 }
pub proof fn lemma_bit_set(w: u64, b: bool, k: u64, q: u64)
    requires k < 64, forall|j: int| k <= j < 64 ==> !#[trigger] bit(w, j), q == w | ((b as u64) << k)
    ensures forall|j: int| 0 <= j < k ==> #[trigger] bit(q, j) == bit(w, j), bit(q, k as int) == b, forall|j: int| k < j < 64 ==> !#[trigger] bit(q, j)
{
    let c = b as u64;
    assert(c == 0 || c == 1);
    assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(q, j) == (if j == k { b } else { bit(w, j) }) by {
        let i = j as u64;
        assert(((w | (c << k)) >> i) & 1 == (((w >> i) & 1) | (((c << k) >> i) & 1))) by (bit_vector);
        assert(i < 64 && k < 64 && (c == 0 || c == 1) ==> ((c << k) >> i) & 1 == (if i == k { c } else { 0 })) by (bit_vector);
        let x = w >> i;
        assert((x & 1 == 0 || x & 1 == 1) && (0u64 | 0u64 == 0) && (0u64 | 1u64 == 1) && (1u64 | 0u64 == 1)) by (bit_vector);
        if j == k { assert(!bit(w, j)); }
    }
}
#[verifier::external_body]
pub struct MutableBuffer { p: usize }
impl MutableBuffer {
    pub uninterp spec fn words(&self) -> Seq<u64>;
    /// in bytes
    pub uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: MutableBuffer) ensures r.words() == Seq::<u64>::empty(), r.room() >= n { unimplemented!() }
    /// the caller answers for the room
    #[verifier::external_body]
    pub fn push_unchecked(&mut self, w: u64) requires 8 * (old(self).words().len() + 1) <= old(self).room() ensures final(self).words() == old(self).words().push(w), final(self).room() == old(self).room() { unimplemented!() }
}
pub fn ceil(a: usize, b: usize) -> (r: usize) requires b > 0, a + b <= usize::MAX ensures r as int == (a + b - 1) / (b as int) { (a + b - 1) / b }
#[verifier::external_body]
pub struct BooleanBuffer { p: usize }
impl BooleanBuffer {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn new_unset(n: usize) -> (r: BooleanBuffer) ensures r@ == Seq::new(n as nat, |i: int| false) { unimplemented!() }
    #[verifier::external_body]
    pub fn of_words(b: MutableBuffer, offset: usize, n: usize) -> (r: BooleanBuffer) requires offset == 0, n <= 64 * b.words().len() ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == bit(b.words()[i / 64], i % 64) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_bool<F: Fn(usize) -> bool>(n: usize, f: F) -> (r: BooleanBuffer) requires forall|i: usize| i < n ==> f.requires((i,)) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> f.ensures((i as usize,), #[trigger] r@[i]) { unimplemented!() }
}
pub fn at<T: Copy>(s: &[T], i: usize) -> (r: T) requires i < s@.len() ensures r == s@[i as int] { s[i] }
#[verifier::external_body]
pub struct Validity { p: usize }
impl Validity {
    pub uninterp spec fn ok(&self, i: int) -> bool;
    #[verifier::external_body] /* proved: validity_and */
    pub fn and(self, o: Validity) -> (r: VortexResult<Validity>) ensures r matches Ok(v) ==> forall|i: int| #[trigger] v.ok(i) == (self.ok(i) && o.ok(i)) { unimplemented!() }
    #[verifier::external_body] /* proved: validity */
    pub fn into_nullable(self) -> (r: Validity) ensures forall|i: int| #[trigger] r.ok(i) == self.ok(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn all_invalid() -> (r: Validity) ensures forall|i: int| !#[trigger] r.ok(i) { unimplemented!() }
}
#[verifier::external_body]
pub struct BoolArray { p: usize }
impl BoolArray {
    pub uninterp spec fn view(&self) -> Seq<Option<bool>>;
    #[verifier::external_body]
    pub fn try_new(b: BooleanBuffer, v: Validity) -> (r: VortexResult<BoolArray>) ensures r matches Ok(a) ==> a@ == Seq::new(b@.len(), |i: int| if v.ok(i) { Some(b@[i]) } else { None::<bool> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_array(self) -> (r: Array) ensures r.bools() == self@ { unimplemented!() }
}
/// a plain column of numbers
#[verifier::external_body]
pub struct PrimitiveArray { p: usize }
impl PrimitiveArray {
    pub uninterp spec fn cells(&self) -> Cells;
    pub uninterp spec fn tag(&self) -> int;
    #[verifier::external_body]
    pub fn validity(&self) -> (r: Validity) ensures forall|i: int| 0 <= i < self.cells().len() ==> #[trigger] r.ok(i) == (self.cells()[i] is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.cells().len(), self.cells().len() <= 0xffff_ffff_ffff_ff00 { unimplemented!() }
    #[verifier::external_body]
    pub fn maybe_null_slice<T: NativePType>(&self) -> (r: &[T]) ensures r@.len() == self.cells().len(), r@.len() <= 0xffff_ffff_ffff_ff00, forall|i: int| 0 <= i < r@.len() && self.cells()[i] is Some ==> self.cells()[i]->0 == #[trigger] r@[i].val() { unimplemented!() }
}
