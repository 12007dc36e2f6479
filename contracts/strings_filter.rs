pub fn dropped<T: Copy>(v: Vec<T>, n: usize) -> (r: Vec<T>) requires n <= v.len() ensures r@ == v@.subrange(n as int, v.len() as int) {
    let mut r = Vec::new(); let mut k = n; while k < v.len() invariant n <= k <= v.len(), r@ == v@.subrange(n as int, k as int) decreases v.len() - k { r.push(v[k]); k = k + 1; } r
}
/// the rows of the first k that the mask selects
pub open spec fn kept(s: Seq<Row>, m: Seq<bool>, k: int) -> Seq<Row> decreases k {
    if k <= 0 { Seq::empty() } else if m[k - 1] { kept(s, m, k - 1).push(s[k - 1]) } else { kept(s, m, k - 1) }
}
pub proof fn lemma_kept_skip(s: Seq<Row>, m: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= m.len(), forall|i: int| a <= i < b ==> !m[i], ensures kept(s, m, b) == kept(s, m, a), decreases b - a
{ if a < b { lemma_kept_skip(s, m, a, b - 1); } }
pub proof fn lemma_kept_run(s: Seq<Row>, m: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= m.len(), m.len() == s.len(), forall|i: int| a <= i < b ==> m[i], ensures kept(s, m, b) =~= kept(s, m, a) + s.subrange(a, b), decreases b - a
{ if a < b { lemma_kept_run(s, m, a, b - 1); assert(s.subrange(a, b) =~= s.subrange(a, b - 1).push(s[b - 1])); } }
/// a boolean array: its bits, the runs of those set, and their positions (the contract of BoolArrayTrait)
#[verifier::external_body]
pub struct Pred { p: usize }
impl Pred {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn true_count(&self) -> (r: usize) ensures r <= self@.len() { unimplemented!() }
}
impl Array {
    #[verifier::external_body]
    pub fn as_bool_array(&self) -> (r: Option<Pred>) ensures r matches Some(p) ==> p@ == self.bools() { unimplemented!() }
}
pub open spec fn runs_of(s: Seq<(usize, usize)>, m: Seq<bool>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> upto(s, k) <= (#[trigger] s[k]).0 < s[k].1 <= m.len()
    &&& forall|k: int, i: int| 0 <= k < s.len() && s[k].0 <= i < s[k].1 ==> #[trigger] hit(s, m, k, i)
    &&& forall|k: int, i: int| 0 <= k < s.len() && upto(s, k) <= i < s[k].0 ==> !#[trigger] hit(s, m, k, i)
    &&& forall|i: int| upto(s, s.len() as int) <= i < m.len() ==> !m[i]
}
pub open spec fn hit(s: Seq<(usize, usize)>, m: Seq<bool>, k: int, i: int) -> bool { m[i] }
pub open spec fn upto(s: Seq<(usize, usize)>, k: int) -> int { if k <= 0 { 0 } else { s[k - 1].1 as int } }
#[verifier::external_body]
pub fn iter_slices(p: &Pred) -> (r: Vec<(usize, usize)>) ensures runs_of(r@, p@) { unimplemented!() }
pub open spec fn past(s: Seq<usize>, k: int) -> int { if k <= 0 { 0 } else { s[k - 1] + 1 } }
pub open spec fn gap(s: Seq<usize>, m: Seq<bool>, k: int, i: int) -> bool { m[i] }
pub open spec fn set_bits(s: Seq<usize>, m: Seq<bool>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> past(s, k) <= #[trigger] s[k] < m.len() && m[s[k] as int]
    &&& forall|k: int, i: int| 0 <= k < s.len() && past(s, k) <= i < s[k] ==> !#[trigger] gap(s, m, k, i)
    &&& forall|i: int| past(s, s.len() as int) <= i < m.len() ==> !m[i]
}
#[verifier::external_body]
pub fn iter_indices(p: &Pred) -> (r: Vec<usize>) ensures set_bits(r@, p@) { unimplemented!() }
pub fn iter_nulls(b: &NullBuffer) -> (r: Vec<bool>) ensures r@ == b@ { b.to_bools() }
pub proof fn lemma_run(s: Seq<(usize, usize)>, m: Seq<bool>, all: Seq<Row>, k: int)
    requires runs_of(s, m), 0 <= k < s.len(), all.len() == m.len(),
    ensures 0 <= upto(s, k) <= s[k].0 < s[k].1 <= m.len(), upto(s, k + 1) == s[k].1, kept(all, m, s[k].1 as int) == kept(all, m, upto(s, k)) + all.subrange(s[k].0 as int, s[k].1 as int),
{
    if k > 0 { assert(s[k - 1].1 <= m.len()); }
    assert forall|i: int| upto(s, k) <= i < s[k].0 implies !m[i] by { assert(!hit(s, m, k, i)); }
    assert forall|i: int| s[k].0 <= i < s[k].1 implies m[i] by { assert(hit(s, m, k, i)); }
    lemma_kept_skip(all, m, upto(s, k), s[k].0 as int); lemma_kept_run(all, m, s[k].0 as int, s[k].1 as int);
}
pub proof fn lemma_tail(s: Seq<(usize, usize)>, m: Seq<bool>, all: Seq<Row>)
    requires runs_of(s, m), all.len() == m.len(), ensures kept(all, m, m.len() as int) == kept(all, m, upto(s, s.len() as int)),
{ if s.len() > 0 { assert(s[s.len() - 1].1 <= m.len()); } lemma_kept_skip(all, m, upto(s, s.len() as int), m.len() as int); }
pub proof fn lemma_bit(s: Seq<usize>, m: Seq<bool>, all: Seq<Row>, k: int)
    requires set_bits(s, m), 0 <= k < s.len(), all.len() == m.len(),
    ensures 0 <= past(s, k) <= s[k] < m.len(), past(s, k + 1) == s[k] + 1, kept(all, m, s[k] + 1) == kept(all, m, past(s, k)).push(all[s[k] as int]),
{
    if k > 0 { assert(s[k - 1] < m.len()); }
    assert forall|i: int| past(s, k) <= i < s[k] implies !m[i] by { assert(!gap(s, m, k, i)); }
    lemma_kept_skip(all, m, past(s, k), s[k] as int);
}
pub proof fn lemma_bit_tail(s: Seq<usize>, m: Seq<bool>, all: Seq<Row>)
    requires set_bits(s, m), all.len() == m.len(), ensures kept(all, m, m.len() as int) == kept(all, m, past(s, s.len() as int)),
{ if s.len() > 0 { assert(s[s.len() - 1] < m.len()); } lemma_kept_skip(all, m, past(s, s.len() as int), m.len() as int); }
