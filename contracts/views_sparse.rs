#[verifier::external_body]
pub struct ScalarValue { p: usize }
impl Clone for ScalarValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: ScalarValue) ensures r == *self { unimplemented!() }
}
impl ScalarValue { pub uninterp spec fn v(&self) -> SV; pub uninterp spec fn of(&self, w: DType) -> bool; }
pub uninterp spec fn idx(w: DType) -> bool;
pub open spec fn idx_type(w: DType) -> bool { idx(w) && w.int() }
pub struct SparseArray { pub indices: Array, pub values: Array, pub fill: ScalarValue, pub off: usize, pub len: usize }
impl SparseArray {
    pub open spec fn n(&self) -> int { self.len as int }
    pub open spec fn w(&self) -> DType { self.values.w() }
    pub open spec fn has(&self, i: int, k: int) -> bool { 0 <= k < self.indices.n() && self.indices.int(k) == i + self.off }
    /// the patch at a position, or else the fill value
    pub open spec fn at(&self, i: int) -> SV { if exists|k: int| self.has(i, k) { self.values.cells()[choose|k: int| self.has(i, k)] } else { self.fill.v() } }
    pub open spec fn made(indices: Array, values: Array, len: usize, off: usize, fill: ScalarValue) -> bool {
        &&& idx_type(indices.w()) && fill.of(values.w()) && indices.n() == values.n()
        &&& indices.n() > 0 ==> off <= indices.int(indices.n() - 1) < off + len
    }
    pub open spec fn inv(&self) -> bool {
        &&& Self::made(self.indices, self.values, self.len, self.off, self.fill) && rising(self.indices) && self.off + self.len <= usize::MAX
        &&& self.indices.n() > 0 ==> self.off <= self.indices.int(0)
    }
    pub proof fn lemma_has(&self, i: int, k: int) requires self.inv(), self.has(i, k) ensures self.at(i) == self.values.cells()[k] { let j = choose|j: int| self.has(i, j); assert(self.has(i, j)); if j < k { assert(self.indices.int(j) < self.indices.int(k)); } if k < j { assert(self.indices.int(k) < self.indices.int(j)); } }
