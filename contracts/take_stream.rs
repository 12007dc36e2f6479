/// the stream the rows are taken from
#[verifier::external_body] pub struct BatchSource { p: usize }
pub trait ArrayStream {}
impl ArrayStream for BatchSource {}
impl BatchSource { pub uninterp spec fn rem(&self) -> Seq<Elem>; }
#[verifier::external_body]
pub fn poll_batch(s: &mut BatchSource, cx: &mut Cx) -> (r: VortexResult<Poll<Option<Array>>>)
    ensures r matches Ok(Poll::Ready(Some(b))) ==> old(s).rem() == b@ + final(s).rem(),
        r matches Ok(Poll::Ready(None)) ==> old(s).rem().len() == 0 && final(s).rem() == old(s).rem(),
        r matches Ok(Poll::Pending) ==> old(s).rem() == final(s).rem(),
{ unimplemented!() }
#[verifier::external_body]
pub fn is_sorted(a: &Array) -> (r: bool) ensures r ==> sorted_ints(a.ints()) { unimplemented!() }
#[verifier::external_body]
pub fn has_nulls(a: &Array) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn int_array(a: &Array) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn signed_array(a: &Array) -> (r: bool) ensures !r ==> all_nat(a.ints()) { unimplemented!() }
#[verifier::external_body]
pub fn min_negative(a: &Array) -> (r: bool) ensures !r ==> all_nat(a.ints()) { unimplemented!() }
#[verifier::external_body]
pub fn as_u64(a: &Array) -> (r: VortexResult<Array>) ensures r matches Ok(x) ==> x@.len() == a@.len() && x.ints() == a.ints() { unimplemented!() }
pub fn some_result(r: VortexResult<Array>) -> (o: Option<VortexResult<Array>>) ensures o == Some(r) { Some(r) }
pub open spec fn all_below(s: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n }
/// where x would be put into a sorted list
pub open spec fn at(ix: Seq<int>, x: int) -> int { choose|p: int| bounds(ix, x, p) }
pub proof fn lemma_at(ix: Seq<int>, x: int, p: int) requires bounds(ix, x, p) ensures at(ix, x) == p { lemma_bounds(ix, x, p, at(ix, x)); }

/// the rows of the indices beyond row x, of which rem is what follows row x
pub open spec fn later(ix: Seq<int>, x: int, rem: Seq<Elem>) -> Seq<Elem> { gather(rem, shifted(ix.subrange(at(ix, x), ix.len() as int), x)) }
pub proof fn lemma_batch(ix: Seq<int>, off: int, b: Seq<Elem>, rem: Seq<Elem>, l: int, r: int)
    requires bounds(ix, off, l), bounds(ix, off + b.len(), r), l <= r,
    ensures at(ix, off) == l, at(ix, off + b.len()) == r,
        all_below(ix, off + (b + rem).len()) ==> later(ix, off, b + rem) == gather(b, shifted(ix.subrange(l, r), off)) + later(ix, off + b.len(), rem),
        l == r ==> all_below(ix, off + (b + rem).len()) ==> later(ix, off, b + rem) == later(ix, off + b.len(), rem),
{
    lemma_at(ix, off, l); lemma_at(ix, off + b.len(), r);
    if all_below(ix, off + (b + rem).len()) {
        let (x, y, z) = (later(ix, off, b + rem), gather(b, shifted(ix.subrange(l, r), off)), later(ix, off + b.len(), rem));
        assert(x.len() == ix.len() - l && y.len() == r - l && z.len() == ix.len() - r);
        assert forall|i: int| 0 <= i < x.len() implies x[i] == (y + z)[i] by {
            let v = ix[l + i];
            assert(ix.subrange(l, ix.len() as int)[i] == v);
            assert(off <= v < off + (b + rem).len());
            if i < r - l { assert(ix.subrange(l, r)[i] == v); assert(v < off + b.len()); }
            else { assert(ix.subrange(r, ix.len() as int)[i - (r - l)] == v); assert(v >= off + b.len()); }
        }
        assert(x =~= y + z);
        if l == r { assert(y.len() == 0); assert(y + z =~= z); }
    }
}
/// at the end, no index is left exactly when none lies beyond the end
pub proof fn lemma_ends(ix: Seq<int>, x: int) ensures bounds(ix, x, ix.len() as int) ==> at(ix, x) == ix.len() && all_below(ix, x) { if bounds(ix, x, ix.len() as int) { lemma_at(ix, x, ix.len() as int); } }
