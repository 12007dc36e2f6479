pub fn sure<T>(r: VortexResult<T>) -> (x: T) requires r is Ok ensures x == r->Ok_0 { match r { Ok(x) => x, Err(_) => vpanic() } }
pub fn turn<T>(r: VortexResult<Option<T>>) -> (x: Option<VortexResult<T>>) ensures x == (match r { Ok(None) => None, Ok(Some(v)) => Some(Ok::<T, VErr>(v)), Err(e) => Some(Err::<T, VErr>(e)) }) { match r { Ok(None) => None, Ok(Some(v)) => Some(Ok(v)), Err(e) => Some(Err(e)) } }
/// an element of an array of integers, converted to usize
#[verifier::external_body] /* proved: reads and scalar */
pub fn number_at(a: Array, i: usize) -> (r: usize) requires i < a.n(), 0 <= a.int(i as int) <= usize::MAX ensures r == a.int(i as int) { unimplemented!() }
/// PrimitiveArray::from
pub type PrimitiveArray = Prim;
impl Prim {
    #[verifier::external_body]
    pub fn from(v: Vec<u64>) -> (r: Self) ensures r.a.n() == v@.len(), r.a.w().int() && !r.a.w().nullable() && idx_type(r.a.w()), forall|k: int| 0 <= k < v@.len() ==> #[trigger] r.a.int(k) == v@[k] { unimplemented!() }
    pub fn into_array(self) -> (r: Array) ensures r == self.a { self.a }
}
impl AsArr for Prim { open spec fn it(self) -> Array { self.a } fn as_ref(&self) -> Array { self.a } }
impl SparseArray {
    pub open spec fn ordered(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self.indices.n() ==> #[trigger] self.indices.int(i) < #[trigger] self.indices.int(j) }
    pub proof fn lemma_order(&self) requires self.inv() ensures self.ordered() {}
    pub proof fn lemma_ends(&self, kk: int) requires self.inv(), 0 <= kk < self.indices.n() ensures self.indices.int(0) <= self.indices.int(kk) <= self.indices.int(self.indices.n() - 1) { let n = self.indices.n() - 1; if kk > 0 { assert(self.indices.int(0) < self.indices.int(kk)); } if kk < n { assert(self.indices.int(kk) < self.indices.int(n)); } }
    /// a search for an index that is there finds it
    pub proof fn lemma_one(&self, kk: int) requires self.inv(), 0 <= kk < self.indices.n() ensures forall|p: int| #[trigger] placed(p, self.indices, self.indices.int(kk), SearchSortedSide::Left) ==> p == kk
    { assert forall|p: int| #[trigger] placed(p, self.indices, self.indices.int(kk), SearchSortedSide::Left) implies p == kk by { if p < kk { assert(self.indices.int(p) < self.indices.int(kk)); } } }
    pub proof fn lemma_bounds(&self) requires self.inv() ensures forall|k: int| 0 <= k < self.indices.n() ==> self.off <= #[trigger] self.indices.int(k) < self.off + self.len
    { assert forall|k: int| 0 <= k < self.indices.n() implies self.off <= #[trigger] self.indices.int(k) < self.off + self.len by { if k > 0 { assert(self.indices.int(0) < self.indices.int(k)); } if k < self.indices.n() - 1 { assert(self.indices.int(k) < self.indices.int(self.indices.n() - 1)); } } }
}
pub open spec fn nums(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] as int) }
