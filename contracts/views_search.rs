/// a search in integers that are in order
impl SearchResult {
    pub open spec fn place(self) -> int { match self { SearchResult::Found(i) => i as int, SearchResult::NotFound(i) => i as int } }
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_index(self) -> (r: usize) ensures r == self.place() { unimplemented!() }
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_found(self) -> (r: Option<usize>) ensures r == (match self { SearchResult::Found(i) => Some(i), SearchResult::NotFound(_) => None }) { unimplemented!() }
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_ends_index(self, len: usize) -> (r: usize) requires len > 0 ensures r == (if self.place() == len { self.place() - 1 } else { self.place() }) { unimplemented!() }
}
pub open spec fn rising(a: Array) -> bool {
    &&& forall|i: int| 0 <= i < a.n() ==> 0 <= #[trigger] a.int(i) <= usize::MAX
    &&& forall|i: int, j: int| 0 <= i < j < a.n() ==> #[trigger] a.int(i) < #[trigger] a.int(j)
}
pub open spec fn placed(p: int, a: Array, v: int, side: SearchSortedSide) -> bool {
    &&& 0 <= p <= a.n()
    &&& side is Left ==> (forall|j: int| 0 <= j < p ==> #[trigger] a.int(j) < v) && (forall|j: int| p <= j < a.n() ==> #[trigger] a.int(j) >= v)
    &&& side is Right ==> (forall|j: int| 0 <= j < p ==> #[trigger] a.int(j) <= v) && (forall|j: int| p <= j < a.n() ==> #[trigger] a.int(j) > v)
}
#[verifier::external_body] /* proved: search_sorted */
pub fn search_sorted(a: &Array, v: usize, side: SearchSortedSide) -> (r: VortexResult<SearchResult>) requires rising(*a)
    ensures r matches Ok(x) && placed(x.place(), *a, v as int, side) && (side is Left ==> (x is Found <==> x.place() < a.n() && a.int(x.place()) == v)) { unimplemented!() }
/// the run a position lies in
pub open spec fn run_of(ends: Array, p: int, k: int) -> bool { 0 <= k < ends.n() && (k > 0 ==> ends.int(k - 1) <= p) && p < ends.int(k) }
pub open spec fn run(ends: Array, p: int) -> int { choose|k: int| run_of(ends, p, k) }
pub open spec fn reach(ends: Array, p: int, k: int) -> bool { 0 <= k < ends.n() && (k > 0 ==> ends.int(k - 1) <= p) && (p < ends.int(k) || k == ends.n() - 1) }
pub proof fn lemma_run(ends: Array, p: int, k: int, j: int) requires rising(ends), run_of(ends, p, k), run_of(ends, p, j) ensures k == j { if k < j { if k < j - 1 { assert(ends.int(k) < ends.int(j - 1)); } } if j < k { if j < k - 1 { assert(ends.int(j) < ends.int(k - 1)); } } }
/// every position before the last end lies in one
pub proof fn lemma_some_run(ends: Array, p: int, k: int) requires rising(ends), 0 <= k < ends.n(), 0 <= p < ends.int(k) ensures run_of(ends, p, run(ends, p)), run(ends, p) <= k decreases k
{ if k > 0 && p < ends.int(k - 1) { lemma_some_run(ends, p, k - 1); } else { assert(run_of(ends, p, k)); lemma_run(ends, p, k, run(ends, p)); } }
/// a stretch of the runs: the same runs, counted from its first
pub proof fn lemma_part_run(ends: Array, part: Array, b: int, e: int, p: int)
    requires rising(ends), rising(part), 0 <= b < e <= ends.n(), part.cells() == ends.cells().subrange(b, e), 0 <= p, b > 0 ==> ends.int(b - 1) <= p, p < ends.int(e - 1),
    ensures run(part, p) == run(ends, p) - b, b <= run(ends, p) < e, run_of(ends, p, run(ends, p)),
{
    lemma_some_run(ends, p, e - 1); let k = run(ends, p);
    if k < b { if k < b - 1 { assert(ends.int(k) < ends.int(b - 1)); } }
    assert(part.int(k - b) == ends.int(k)); if k > b { assert(part.int(k - b - 1) == ends.int(k - 1)); }
    assert(run_of(part, p, k - b)); lemma_run(part, p, k - b, run(part, p));
}
/// a length is a machine integer
#[verifier::external_body]
pub proof fn sized(a: Array) ensures a.n() <= usize::MAX {}
pub open spec fn stretch(ends: Array, q: Array, b: int, e: int, lo: int, hi: int) -> bool {
    rising(q) && q.n() == e - b && q.int(0) == ends.int(b) && q.int(q.n() - 1) == ends.int(e - 1) && forall|p: int| lo <= p < hi ==> (#[trigger] run(q, p)) == run(ends, p) - b && b <= run(ends, p) < e
}
pub proof fn lemma_stretch(ends: Array, q: Array, b: int, e: int, lo: int, hi: int)
    requires rising(ends), 0 <= b < e <= ends.n(), 0 <= lo, b > 0 ==> ends.int(b - 1) <= lo, hi <= ends.int(e - 1), q.cells() == ends.cells().subrange(b, e),
    ensures stretch(ends, q, b, e, lo, hi),
{
    assert forall|k: int| 0 <= k < e - b implies #[trigger] q.int(k) == ends.int(b + k) by {}
    assert(rising(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.n() implies #[trigger] q.int(i) < #[trigger] q.int(j) by { assert(ends.int(b + i) < ends.int(b + j)); } assert forall|i: int| 0 <= i < q.n() implies 0 <= #[trigger] q.int(i) <= usize::MAX by { assert(ends.int(b + i) >= 0); } }
    assert(q.int(0) == ends.int(b + 0)); assert(q.int(e - b - 1) == ends.int(b + (e - b - 1)));
    assert forall|p: int| lo <= p < hi implies (#[trigger] run(q, p)) == run(ends, p) - b && b <= run(ends, p) < e by { lemma_part_run(ends, q, b, e, p); }
}
pub proof fn lemma_runs(ends: Array, b: int, e: int, lo: int, hi: int)
    requires rising(ends), 0 <= lo <= hi, reach(ends, lo, b), reach(ends, hi, e - 1), hi <= ends.int(ends.n() - 1),
    ensures 0 <= b < e <= ends.n() <= usize::MAX, ends.int(e - 1) >= hi, forall|q: Array| (#[trigger] q.cells()) == ends.cells().subrange(b, e) ==> stretch(ends, q, b, e, lo, hi),
{
    sized(ends);
    if e - 1 < b { if e - 1 < b - 1 { assert(ends.int(e - 1) < ends.int(b - 1)); } }
    assert forall|q: Array| (#[trigger] q.cells()) == ends.cells().subrange(b, e) implies stretch(ends, q, b, e, lo, hi) by { lemma_stretch(ends, q, b, e, lo, hi); }
}
