/// p separates what is below v from the rest
pub open spec fn bounds(ix: Seq<int>, v: int, p: int) -> bool { 0 <= p <= ix.len() && (forall|j: int| 0 <= j < p ==> #[trigger] ix[j] < v) && (forall|j: int| p <= j < ix.len() ==> #[trigger] ix[j] >= v) }
pub proof fn lemma_bounds(ix: Seq<int>, v: int, p: int, q: int) requires bounds(ix, v, p), bounds(ix, v, q) ensures p == q { if p < q { assert(ix[p] < v); } if q < p { assert(ix[q] < v); } }
pub proof fn lemma_bounds_le(ix: Seq<int>, v: int, w: int, p: int, q: int) requires bounds(ix, v, p), bounds(ix, w, q), v <= w ensures p <= q { if q < p { assert(ix[q] < v); } }
pub open spec fn all_nat(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0 }
pub open spec fn shifted(s: Seq<int>, d: int) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] - d) }
/// x - s for every x
#[verifier::external_body]
pub fn subtract_u64(a: &Array, s: u64) -> (r: VortexResult<Array>)
    requires forall|i: int| 0 <= i < a.ints().len() ==> #[trigger] a.ints()[i] >= s,
    ensures r matches Ok(x) ==> x@.len() == a@.len() && x.ints() == shifted(a.ints(), s as int),
{ unimplemented!() }
