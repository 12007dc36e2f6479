use std::cmp::Ordering;
pub open spec fn starts(o: Seq<int>, parts: Seq<Array>) -> bool {
    &&& o.len() == parts.len() + 1
    &&& o[0] == 0
    &&& forall|k: int| 0 <= k < parts.len() ==> #[trigger] o[k + 1] == o[k] + parts[k]@.len()
}
pub proof fn lemma_starts(o: Seq<int>, parts: Seq<Array>, k: int)
    requires starts(o, parts), 0 <= k <= parts.len(),
    ensures o[k] == flat(parts.take(k)).len(), forall|i: int, j: int| 0 <= i <= j < o.len() ==> o[i] <= o[j],
    decreases k
{
    if k == 0 { assert(parts.take(0) =~= Seq::<Array>::empty()); }
    else { lemma_starts(o, parts, k - 1); assert(parts.take(k).drop_last() =~= parts.take(k - 1)); assert(parts.take(k).last() == parts[k - 1]); assert(o[(k - 1) + 1] == o[k - 1] + parts[k - 1]@.len()); }
    lemma_mono(o, parts);
}
pub proof fn lemma_mono(o: Seq<int>, parts: Seq<Array>)
    requires starts(o, parts),
    ensures forall|i: int, j: int| 0 <= i <= j < o.len() ==> o[i] <= o[j],
{
    assert forall|i: int, j: int| 0 <= i <= j < o.len() implies o[i] <= o[j] by { lemma_mono1(o, parts, i, j); }
}
pub proof fn lemma_mono1(o: Seq<int>, parts: Seq<Array>, i: int, j: int)
    requires starts(o, parts), 0 <= i <= j < o.len(), ensures o[i] <= o[j], decreases j - i
{ if i < j { lemma_mono1(o, parts, i, j - 1); assert(o[(j - 1) + 1] == o[j - 1] + parts[j - 1]@.len()); } }
#[verifier::external_body]
pub struct ChunkedArray { p: usize }
impl ChunkedArray {
    pub uninterp spec fn offs(&self) -> Seq<int>;
    pub uninterp spec fn parts(&self) -> Seq<Array>;
    pub uninterp spec fn sdtype(&self) -> DType;
    pub open spec fn view(&self) -> Seq<Elem> { flat(self.parts()) }
    /// the data invariant: established by every constructor, relied on by every reader
    pub open spec fn inv(&self) -> bool { starts(self.offs(), self.parts()) && flat(self.parts()).len() <= usize::MAX && self.parts().len() < usize::MAX && forall|k: int| 0 <= k < self.parts().len() ==> (#[trigger] self.parts()[k]).sdtype() == self.sdtype() }
    pub proof fn lemma_inv(&self) requires self.inv()
        ensures self.offs().len() == self.parts().len() + 1, self.offs()[0] == 0, self.offs()[self.parts().len() as int] == self@.len(), forall|i: int, j: int| 0 <= i <= j < self.offs().len() ==> self.offs()[i] <= self.offs()[j], forall|i: int| 0 <= i < self.offs().len() ==> 0 <= #[trigger] self.offs()[i] <= self@.len(),
            forall|k: int| 0 <= k < self.parts().len() ==> self.offs()[k + 1] == self.offs()[k] + (#[trigger] self.parts()[k])@.len(),
    {
        lemma_starts(self.offs(), self.parts(), self.parts().len() as int); assert(self.parts().take(self.parts().len() as int) =~= self.parts());
        assert forall|k: int| 0 <= k < self.parts().len() implies self.offs()[k + 1] == self.offs()[k] + (#[trigger] self.parts()[k])@.len() by { assert(self.offs()[k + 1] == self.offs()[k] + self.parts()[k]@.len()); }
    }
    /// chunks a..b hold the rows offs[a]..offs[b]
    pub proof fn lemma_range(&self, a: int, b: int)
        requires self.inv(), 0 <= a <= b <= self.parts().len(),
        ensures flat(self.parts().subrange(a, b)) == self@.subrange(self.offs()[a], self.offs()[b]), flat(self.parts().subrange(a, b)).len() == self.offs()[b] - self.offs()[a],
        decreases b - a
    {
        self.lemma_inv();
        let p = self.parts();
        lemma_starts(self.offs(), p, a); lemma_starts(self.offs(), p, b);
        lemma_flat_take(p, b);
        lemma_flat_take(p.take(b), a);
        assert(p.take(b).take(a) =~= p.take(a)); assert(p.take(b).skip(a) =~= p.subrange(a, b));
        assert(flat(p) == flat(p.take(b)) + flat(p.skip(b)));
        assert(flat(p.take(b)) == flat(p.take(a)) + flat(p.subrange(a, b)));
        assert(flat(p.subrange(a, b)) =~= self@.subrange(self.offs()[a], self.offs()[b]));
    }
    /// chunk c holds the rows offs[c]..offs[c + 1]
    pub proof fn lemma_chunk(&self, c: int)
        requires self.inv(), 0 <= c < self.parts().len(),
        ensures self.parts()[c]@ == self@.subrange(self.offs()[c], self.offs()[c + 1]), self.parts()[c]@.len() == self.offs()[c + 1] - self.offs()[c],
    {
        self.lemma_inv(); self.lemma_range(c, c + 1); lemma_flat_one(self.parts()[c]); assert(self.parts().subrange(c, c + 1) =~= seq![self.parts()[c]]);
    }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.inv() ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn nchunks(&self) -> (r: usize) requires self.inv() ensures r == self.parts().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.sdtype() { unimplemented!() }
    #[verifier::external_body]
    pub fn chunk_offsets(&self) -> (r: Array) requires self.inv() ensures r.ints() == self.offs() { unimplemented!() }
    #[verifier::external_body]
    pub fn child(&self, i: usize, len: usize) -> (r: VortexResult<Array>)
        requires self.inv(), 1 <= i <= self.parts().len(), len == self.parts()[i - 1]@.len(),
        ensures r matches Ok(a) ==> a == self.parts()[i - 1] { unimplemented!() }
    #[verifier::external_body]
    pub fn into_array(self) -> (r: Array) requires self.inv() ensures r@ == self@, r.sdtype() == self.sdtype() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ChunkedArray) ensures r == *self { unimplemented!() }
}
/// the constructor all encodings share; what a chunked array promises is demanded here
#[verifier::external_body]
pub fn try_from_parts(dtype: DType, length: usize, nchunks: usize, children: Vec<Array>) -> (r: VortexResult<ChunkedArray>)
    requires
        children.len() > 0, nchunks == children.len() - 1,
        starts(children@[0].ints(), children@.skip(1)), length == flat(children@.skip(1)).len(),
        forall|k: int| 1 <= k < children.len() ==> (#[trigger] children@[k]).sdtype() == dtype,
    ensures r matches Ok(c) ==> c.inv() && c.parts() == children@.skip(1) && c.sdtype() == dtype,
{ unimplemented!() }
/// what the search of sorted u64 values promises (proved in unit search_sorted)
#[verifier::external_body]
pub fn search_u64(o: &Array, value: usize, side: SearchSortedSide) -> (r: SearchResult)
    requires forall|i: int, j: int| 0 <= i <= j < o.ints().len() ==> o.ints()[i] <= o.ints()[j],
    ensures insertion(r, o.ints(), value as int, side),
{ unimplemented!() }
pub open spec fn insertion(r: SearchResult, o: Seq<int>, value: int, side: SearchSortedSide) -> bool {
    let p = match r { SearchResult::Found(i) => i as int, SearchResult::NotFound(i) => i as int };
    &&& 0 <= p <= o.len()
    &&& side is Left ==> (forall|j: int| 0 <= j < p ==> #[trigger] o[j] < value) && (forall|j: int| p <= j < o.len() ==> #[trigger] o[j] >= value)
    &&& side is Right ==> (forall|j: int| 0 <= j < p ==> #[trigger] o[j] <= value) && (forall|j: int| p <= j < o.len() ==> #[trigger] o[j] > value)
}
/// chunk c holds row `index` at position k
pub open spec fn located(o: Seq<int>, index: int, c: int, k: int) -> bool {
    &&& 0 <= c && c < o.len()
    &&& k == index - o[c] && k >= 0
    &&& o.len() > 1 ==> c + 1 < o.len() && (index < o[c + 1] || (index == o[o.len() - 1] && c == o.len() - 2))
}
