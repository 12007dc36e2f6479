/// a value of the element type, known by its rank
#[derive(Clone, Copy)]
pub struct Val { u: u8 }
impl Val {
    pub uninterp spec fn rank(&self) -> int;
    #[verifier::external_body]
    pub fn compare(self, o: Val) -> (r: Ordering)
        ensures r == (if self.rank() < o.rank() { Ordering::Less } else if self.rank() == o.rank() { Ordering::Equal } else { Ordering::Greater }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_eq(self, o: Val) -> (r: bool) ensures r == (self.rank() == o.rank()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == rank_is_nan(self.rank()) { unimplemented!() }
    #[verifier::external_body]
    pub fn bit_width(self) -> (r: u32) ensures r == bit_width_of(self.rank()), 0 <= r <= type_bits() { unimplemented!() }
    #[verifier::external_body]
    pub fn trailing_zeros(self) -> (r: u32) ensures r == trailing_zeros_of(self.rank()), 0 <= r <= type_bits() { unimplemented!() }
}
#[verifier::external_body]
pub fn t_bytes() -> (r: usize) ensures r * 8 == type_bits(), r <= 8 { unimplemented!() }
#[verifier::external_body]
pub fn t_bits() -> (r: usize) ensures r == type_bits(), r <= 64 { unimplemented!() }
pub fn or_zero(x: Option<usize>) -> (r: usize) ensures r == (if x is Some { x->0 } else { 0 }) { match x { Some(v) => v, None => 0 } }
pub trait ToScalar: Sized {
    spec fn is_scalar(self, s: Scalar) -> bool;
    fn to_scalar(self) -> (r: Scalar) ensures self.is_scalar(r);
}
impl ToScalar for bool {
    open spec fn is_scalar(self, s: Scalar) -> bool { s.bool() == Some(self) && s.ord() == Some(if self { 1int } else { 0int }) }
    #[verifier::external_body]
    fn to_scalar(self) -> (r: Scalar) { unimplemented!() }
}
impl ToScalar for usize {
    open spec fn is_scalar(self, s: Scalar) -> bool { s.num() == Some(self) }
    #[verifier::external_body]
    fn to_scalar(self) -> (r: Scalar) { unimplemented!() }
}
impl ToScalar for Val {
    open spec fn is_scalar(self, s: Scalar) -> bool { s.ord() == Some(self.rank()) }
    #[verifier::external_body]
    fn to_scalar(self) -> (r: Scalar) { unimplemented!() }
}
impl ToScalar for Vec<usize> {
    open spec fn is_scalar(self, s: Scalar) -> bool { s.freq() == Some(self@.map_values(|x: usize| x as u64)) }
    #[verifier::external_body]
    fn to_scalar(self) -> (r: Scalar) { unimplemented!() }
}
impl ToScalar for Vec<u64> {
    open spec fn is_scalar(self, s: Scalar) -> bool { s.freq() == Some(self@) }
    #[verifier::external_body]
    fn to_scalar(self) -> (r: Scalar) { unimplemented!() }
}
pub struct StatsSet { pub values: SMap }
impl View for StatsSet { type V = SV; open spec fn view(&self) -> SV { self.values@ } }

pub open spec fn some(x: int) -> Option<int> { Some(x) }
pub proof fn lemma_push(d: Data, x: Option<int>) ensures d.push(x).drop_last() == d, d.push(x).last() == x, d.push(x).len() == d.len() + 1 { assert(d.push(x).drop_last() =~= d); }
pub proof fn lemma_count_push(d: Data, x: Option<int>, p: spec_fn(Option<int>) -> bool) ensures count(d.push(x), p) == count(d, p) + if p(x) { 1nat } else { 0nat } { lemma_push(d, x); }
pub proof fn lemma_runs_push(d: Data, x: Option<int>)
    ensures runs(d.push(x)) == runs(d) + (if x is None || x == last_value(d) { 0nat } else { 1nat }), last_value(d.push(x)) == if x is Some { x } else { last_value(d) } { lemma_push(d, x); }
/// the last value is one of the values, and in a sorted array the greatest
pub proof fn lemma_last_value(d: Data)
    ensures last_value(d) is Some ==> exists|i: int| 0 <= i < d.len() && #[trigger] d[i] == last_value(d) && forall|j: int| i < j < d.len() ==> (#[trigger] d[j]) is None,
        last_value(d) is None <==> all_null(d), decreases d.len(),
{
    if d.len() > 0 {
        let p = d.drop_last();
        lemma_last_value(p);
        if d.last() is Some { assert(d[d.len() - 1] == last_value(d)); }
        else {
            if last_value(p) is Some {
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == last_value(p) && forall|j: int| i < j < p.len() ==> (#[trigger] p[j]) is None;
                assert(d[i] == last_value(d));
                assert forall|j: int| i < j < d.len() implies (#[trigger] d[j]) is None by { if j < p.len() { assert(p[j] is None); } }
            }
            if all_null(p) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is None by { if i < p.len() { assert(p[i] is None); } } }
            if all_null(d) { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is None by { assert(d[i] is None); } }
        }
    }
}
pub open spec fn max_of(d: Data, m: int) -> bool { holds_value(d, m) && above_all(d, m) }
pub open spec fn min_of(d: Data, m: int) -> bool { holds_value(d, m) && below_all(d, m) }
/// order of a longer array: the new value against the last one
pub proof fn lemma_sorted_push(d: Data, x: int)
    requires last_value(d) is Some,
    ensures sorted(d.push(Some(x))) == (sorted(d) && last_value(d)->0 <= x), strict(d.push(Some(x))) == (strict(d) && last_value(d)->0 < x), strict(d) ==> sorted(d),
{
    let e = d.push(Some(x));
    lemma_last_value(d);
    let l = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == last_value(d) && forall|j: int| i < j < d.len() ==> (#[trigger] d[j]) is None;
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by {}
    assert(e[d.len() as int] == some(x));
    if sorted(e) {
        assert forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]) is Some && (#[trigger] d[j]) is Some implies d[i]->0 <= d[j]->0 by { assert(e[i] == d[i] && e[j] == d[j]); }
        assert(e[l]->0 <= e[d.len() as int]->0);
    }
    if strict(e) {
        assert forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]) is Some && (#[trigger] d[j]) is Some implies d[i]->0 < d[j]->0 by { assert(e[i] == d[i] && e[j] == d[j]); }
        assert(e[l]->0 < e[d.len() as int]->0);
    }
    assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some implies i <= l by {}
    if sorted(d) && last_value(d)->0 <= x {
        assert forall|i: int, j: int| 0 <= i < j < e.len() && (#[trigger] e[i]) is Some && (#[trigger] e[j]) is Some implies e[i]->0 <= e[j]->0 by { assert(e[i] == d[i]); if i < l { assert(d[i]->0 <= d[l]->0); } if j < d.len() { assert(e[j] == d[j]); } }
    }
    if strict(d) && last_value(d)->0 < x {
        assert forall|i: int, j: int| 0 <= i < j < e.len() && (#[trigger] e[i]) is Some && (#[trigger] e[j]) is Some implies e[i]->0 < e[j]->0 by { assert(e[i] == d[i]); if i < l { assert(d[i]->0 < d[l]->0); } if j < d.len() { assert(e[j] == d[j]); } }
    }
}
pub proof fn lemma_null_push(d: Data)
    ensures sorted(d.push(None)) == sorted(d), strict(d.push(None)) == strict(d), forall|m: int| #[trigger] min_of(d, m) ==> min_of(d.push(None), m), forall|m: int| #[trigger] max_of(d, m) ==> max_of(d.push(None), m),
        has_nan(d.push(None)) == has_nan(d),
{
    let e = d.push(None);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by {}
    if sorted(e) { assert forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]) is Some && (#[trigger] d[j]) is Some implies d[i]->0 <= d[j]->0 by { assert(e[i] == d[i] && e[j] == d[j]); } }
    if strict(e) { assert forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]) is Some && (#[trigger] d[j]) is Some implies d[i]->0 < d[j]->0 by { assert(e[i] == d[i] && e[j] == d[j]); } }
    assert forall|m: int| #[trigger] min_of(d, m) implies min_of(e, m) by { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(m); assert(e[i] == Some(m)); }
    assert forall|m: int| #[trigger] max_of(d, m) implies max_of(e, m) by { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(m); assert(e[i] == Some(m)); }
    if has_nan(d) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some && rank_is_nan(d[i]->0); assert(e[i] == d[i]); }
}
pub proof fn lemma_value_push(d: Data, x: int)
    ensures forall|m: int| #[trigger] min_of(d, m) ==> min_of(d.push(Some(x)), if x < m { x } else { m }), forall|m: int| #[trigger] max_of(d, m) ==> max_of(d.push(Some(x)), if x > m { x } else { m }),
        has_nan(d.push(Some(x))) == (has_nan(d) || rank_is_nan(x)),
{
    let e = d.push(Some(x));
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] e[i] == d[i] by {}
    assert(e[d.len() as int] == some(x));
    assert forall|m: int| #[trigger] min_of(d, m) implies min_of(e, if x < m { x } else { m }) by { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(m); assert(e[i] == Some(m)); }
    assert forall|m: int| #[trigger] max_of(d, m) implies max_of(e, if x > m { x } else { m }) by { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(m); assert(e[i] == Some(m)); }
    if has_nan(d) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some && rank_is_nan(d[i]->0); assert(e[i] == d[i]); }
}
/// a frequency table of the first elements
pub open spec fn freqs(f: Seq<usize>, d: Data, widths: bool) -> bool {
    f.len() == type_bits() + 1 && forall|w: int| 0 <= w < f.len() ==> #[trigger] f[w] == count(d, if widths { p_width(w) } else { p_zeros(w) })
}
pub open spec fn slot(x: Option<int>, widths: bool) -> int { match x { None => if widths { 0 } else { type_bits() as int }, Some(v) => if widths { bit_width_of(v) } else { trailing_zeros_of(v) } } }
pub proof fn lemma_freqs_push(f: Seq<usize>, g: Seq<usize>, d: Data, x: Option<int>, widths: bool)
    requires freqs(f, d, widths), 0 <= slot(x, widths) < f.len(), g.len() == f.len(), forall|w: int| 0 <= w < f.len() ==> #[trigger] g[w] == f[w] + if w == slot(x, widths) { 1int } else { 0int },
    ensures freqs(g, d.push(x), widths),
{
    assert forall|w: int| 0 <= w < g.len() implies #[trigger] g[w] == count(d.push(x), if widths { p_width(w) } else { p_zeros(w) }) by { lemma_count_push(d, x, if widths { p_width(w) } else { p_zeros(w) }); assert(f[w] == count(d, if widths { p_width(w) } else { p_zeros(w) })); }
}
pub proof fn lemma_freq_le(f: Seq<usize>, d: Data, widths: bool) requires freqs(f, d, widths) ensures forall|w: int| 0 <= w < f.len() ==> #[trigger] f[w] <= d.len()
{ assert forall|w: int| 0 <= w < f.len() implies #[trigger] f[w] <= d.len() by { lemma_count_le(d, if widths { p_width(w) } else { p_zeros(w) }); } }
pub proof fn lemma_runs_le(d: Data) ensures runs(d) <= d.len() decreases d.len() { if d.len() > 0 { lemma_runs_le(d.drop_last()); } }
pub proof fn lemma_no_nulls(d: Data) ensures count(d, p_null()) == 0 <==> no_null(d), count(d, p_null()) == d.len() <==> all_null(d) decreases d.len() {
    if d.len() > 0 {
        let p = d.drop_last();
        lemma_no_nulls(p); lemma_count_le(p, p_null());
        if no_null(p) && d.last() is Some { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Some by { if i < p.len() { assert(p[i] is Some); } } }
        if all_null(p) && d.last() is None { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is None by { if i < p.len() { assert(p[i] is None); } } }
        if no_null(d) { assert(d[d.len() - 1] is Some); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is Some by { assert(d[i] is Some); } }
        if all_null(d) { assert(d[d.len() - 1] is None); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is None by { assert(d[i] is None); } }
    }
}
/// one value everywhere
pub proof fn lemma_constant_bounds(d: Data, lo: int, hi: int)
    requires min_of(d, lo), max_of(d, hi),
    ensures constant(d) == (lo == hi && no_null(d)), !all_null(d),
{
    let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(lo);
    let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == Some(hi);
    if constant(d) { assert(d[i] == d[j]); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]) is Some by { assert(d[k] == d[i]); } }
    if lo == hi && no_null(d) { assert forall|a: int, b: int| 0 <= a < d.len() && 0 <= b < d.len() implies #[trigger] d[a] == #[trigger] d[b] by { assert(d[a] is Some && d[b] is Some); } }
    assert(d[i] is Some);
}
pub open spec fn knows(m: SV, d: Data) -> bool { holds(m, d) && (d.len() > 0 || m.dom() =~= Set::empty()) }
pub open spec fn nulls(n: nat) -> Data { Seq::new(n, |i: int| None) }
pub proof fn lemma_cat_count(d: Data, n: nat, p: spec_fn(Option<int>) -> bool)
    ensures count(nulls(n) + d, p) == count(d, p) + if p(None) { n } else { 0 }
    decreases n, d.len(),
{
    if d.len() > 0 {
        lemma_cat_count(d.drop_last(), n, p);
        assert((nulls(n) + d).drop_last() =~= nulls(n) + d.drop_last());
        assert((nulls(n) + d).last() == d.last());
    } else {
        assert(nulls(n) + d =~= nulls(n));
        if n > 0 {
            lemma_cat_count(d, (n - 1) as nat, p);
            assert(nulls((n - 1) as nat) + d =~= nulls((n - 1) as nat));
            assert(nulls(n).drop_last() =~= nulls((n - 1) as nat));
            assert(nulls(n).last() is None);
        } else { assert(nulls(n) =~= d); }
    }
}
pub proof fn lemma_cat_runs(d: Data, n: nat)
    ensures runs(nulls(n) + d) == runs(d), last_value(nulls(n) + d) == last_value(d),
    decreases n, d.len(),
{
    if d.len() > 0 {
        lemma_cat_runs(d.drop_last(), n);
        assert((nulls(n) + d).drop_last() =~= nulls(n) + d.drop_last());
        assert((nulls(n) + d).last() == d.last());
    } else {
        assert(nulls(n) + d =~= nulls(n));
        if n > 0 {
            lemma_cat_runs(d, (n - 1) as nat);
            assert(nulls((n - 1) as nat) + d =~= nulls((n - 1) as nat));
            assert(nulls(n).drop_last() =~= nulls((n - 1) as nat));
            assert(nulls(n).last() is None);
        } else { assert(nulls(n) =~= d); }
    }
}
pub proof fn lemma_cat_nulls(d: Data, n: nat)
    ensures count(nulls(n) + d, p_null()) == n + count(d, p_null()), runs(nulls(n) + d) == runs(d), last_value(nulls(n) + d) == last_value(d),
        forall|w: int| #[trigger] count(nulls(n) + d, p_width(w)) == count(d, p_width(w)) + if w == 0 { n } else { 0 },
        forall|w: int| #[trigger] count(nulls(n) + d, p_zeros(w)) == count(d, p_zeros(w)) + if w == type_bits() { n } else { 0 },
{
    lemma_cat_runs(d, n); lemma_cat_count(d, n, p_null());
    assert forall|w: int| #[trigger] count(nulls(n) + d, p_width(w)) == count(d, p_width(w)) + if w == 0 { n } else { 0 } by { lemma_cat_count(d, n, p_width(w)); }
    assert forall|w: int| #[trigger] count(nulls(n) + d, p_zeros(w)) == count(d, p_zeros(w)) + if w == type_bits() { n } else { 0 } by { lemma_cat_count(d, n, p_zeros(w)); }
}
pub struct BooleanBuffer { u: u8 }
impl View for BooleanBuffer { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
#[verifier::external_body]
pub fn iter_bits(b: &BooleanBuffer) -> (r: Vec<bool>) ensures r@ == b@ { unimplemented!() }
pub enum DType { Null, Bool(Nullability), Primitive(PType, Nullability), Other }
pub enum Nullability { NonNullable, Nullable }
pub struct PType { u: u8 }
impl PType {
    #[verifier::external_body]
    pub fn byte_width(&self) -> (r: usize) ensures r * 8 == type_bits(), r <= 8 { unimplemented!() }
}
