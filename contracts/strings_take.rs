/// the strings at the positions asked for
pub open spec fn pick(s: Seq<Row>, ix: Seq<int>) -> Seq<Row> { Seq::new(ix.len(), |i: int| s[ix[i]]) }
pub open spec fn within(ix: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < n }
/// how many bytes they have
pub open spec fn total(offs: Seq<int>, ix: Seq<int>) -> int decreases ix.len() { if ix.len() == 0 { 0 } else { total(offs, ix.drop_last()) + offs[ix.last() + 1] - offs[ix.last()] } }
pub proof fn lemma_total_step(offs: Seq<int>, ix: Seq<int>, k: int)
    requires 0 <= k < ix.len() ensures total(offs, ix.take(k + 1)) == total(offs, ix.take(k)) + offs[ix[k] + 1] - offs[ix[k]]
{ assert(ix.take(k + 1).drop_last() =~= ix.take(k)); }
pub proof fn lemma_total_le(offs: Seq<int>, n: int, ix: Seq<int>, k: int)
    requires 0 <= k <= ix.len(), offs_ok(offs, n), within(ix, offs.len() - 1) ensures 0 <= total(offs, ix.take(k)) <= total(offs, ix) decreases ix.len() - k, k
{
    if k == ix.len() { assert(ix.take(k) =~= ix); lemma_total_nonneg(offs, n, ix); }
    else { lemma_total_step(offs, ix, k); assert(0 <= ix[k]); assert(offs[ix[k]] <= offs[ix[k] + 1]); lemma_total_le(offs, n, ix, k + 1); assert(within(ix.take(k), offs.len() - 1)); lemma_total_nonneg(offs, n, ix.take(k)); }
}
pub proof fn lemma_total_nonneg(offs: Seq<int>, n: int, ix: Seq<int>)
    requires offs_ok(offs, n), within(ix, offs.len() - 1) ensures 0 <= total(offs, ix) decreases ix.len()
{ if ix.len() > 0 { assert(0 <= ix.last() < offs.len() - 1) by { assert(ix[ix.len() - 1] == ix.last()); } assert(offs[ix.last()] <= offs[ix.last() + 1]); assert(within(ix.drop_last(), offs.len() - 1)) by { assert forall|i: int| 0 <= i < ix.len() - 1 implies 0 <= #[trigger] ix.drop_last()[i] < offs.len() - 1 by { assert(ix.drop_last()[i] == ix[i]); } } lemma_total_nonneg(offs, n, ix.drop_last()); } }
