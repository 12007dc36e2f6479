/// The values of an array as their ranks in the order of the type; None is a null.
pub type Data = Seq<Option<int>>;
pub uninterp spec fn bit_width_of(x: int) -> int;
pub uninterp spec fn trailing_zeros_of(x: int) -> int;
/// the number of bits of the type, the last slot of the frequency tables
pub uninterp spec fn type_bits() -> nat;
pub uninterp spec fn rank_is_nan(x: int) -> bool;

pub open spec fn all_null(d: Data) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) is None }
pub open spec fn no_null(d: Data) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) is Some }
pub open spec fn holds_value(d: Data, m: int) -> bool { exists|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(m) }
pub open spec fn below_all(d: Data, m: int) -> bool { forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some ==> m <= d[i]->0 }
pub open spec fn above_all(d: Data, m: int) -> bool { forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some ==> d[i]->0 <= m }
pub open spec fn constant(d: Data) -> bool { forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() ==> #[trigger] d[i] == #[trigger] d[j] }
pub open spec fn has_nan(d: Data) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some && rank_is_nan(d[i]->0) }
pub open spec fn sorted(d: Data) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]) is Some && (#[trigger] d[j]) is Some ==> d[i]->0 <= d[j]->0 }
pub open spec fn strict(d: Data) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]) is Some && (#[trigger] d[j]) is Some ==> d[i]->0 < d[j]->0 }
pub open spec fn last_value(d: Data) -> Option<int> decreases d.len() {
    if d.len() == 0 { None } else if d.last() is Some { d.last() } else { last_value(d.drop_last()) }
}
/// the number of runs of equal values, nulls left out
pub open spec fn runs(d: Data) -> nat decreases d.len() {
    if d.len() == 0 { 0 } else { runs(d.drop_last()) + if d.last() is None || d.last() == last_value(d.drop_last()) { 0nat } else { 1nat } }
}
pub open spec fn count(d: Data, p: spec_fn(Option<int>) -> bool) -> nat decreases d.len() {
    if d.len() == 0 { 0 } else { count(d.drop_last(), p) + if p(d.last()) { 1nat } else { 0nat } }
}
pub open spec fn p_null() -> spec_fn(Option<int>) -> bool { |x: Option<int>| x is None }
pub open spec fn p_true() -> spec_fn(Option<int>) -> bool { |x: Option<int>| x == Some(1int) }
/// a null counts as a zero
pub open spec fn p_width(w: int) -> spec_fn(Option<int>) -> bool { |x: Option<int>| match x { None => w == 0, Some(v) => bit_width_of(v) == w } }
pub open spec fn p_zeros(w: int) -> spec_fn(Option<int>) -> bool { |x: Option<int>| match x { None => w == type_bits(), Some(v) => trailing_zeros_of(v) == w } }
pub open spec fn freq_true(f: Option<Seq<u64>>, d: Data, widths: bool) -> bool {
    f is Some && f->0.len() == type_bits() + 1
    && forall|w: int| 0 <= w < f->0.len() ==> #[trigger] f->0[w] == count(d, if widths { p_width(w) } else { p_zeros(w) })
}
pub open spec fn stat_true(s: Stat, v: Scalar, d: Data) -> bool {
    match s {
        Stat::Min => match v.ord() { None => all_null(d), Some(m) => holds_value(d, m) && below_all(d, m) },
        Stat::Max => match v.ord() { None => all_null(d), Some(m) => holds_value(d, m) && above_all(d, m) },
        Stat::NullCount => v.num() is Some && v.num()->0 == count(d, p_null()),
        Stat::TrueCount => v.num() is Some && v.num()->0 == count(d, p_true()),
        Stat::IsConstant => match v.bool() { None => false, Some(true) => constant(d), Some(false) => !constant(d) || has_nan(d) },
        Stat::IsSorted => v.bool() == Some(sorted(d)),
        Stat::IsStrictSorted => v.bool() is Some && (no_null(d) ==> v.bool() == Some(strict(d))),
        Stat::RunCount => v.num() is Some && v.num()->0 >= runs(d),
        Stat::BitWidthFreq => freq_true(v.freq(), d, true),
        Stat::TrailingZeroFreq => freq_true(v.freq(), d, false),
    }
}
pub type SV = Map<Stat, Scalar>;
pub open spec fn holds_for(m: SV, d: Data, s: Stat) -> bool { m.dom().contains(s) ==> stat_true(s, m[s], d) }
/// every reported statistic is true of the data
pub open spec fn holds(m: SV, d: Data) -> bool { forall|s: Stat| #[trigger] holds_for(m, d, s) }

pub struct Scalar { u: u8 }
impl Scalar {
    /// the rank of the value among those of its type; None is a null
    pub uninterp spec fn ord(&self) -> Option<int>;
    pub uninterp spec fn bool(&self) -> Option<bool>;
    pub uninterp spec fn num(&self) -> Option<usize>;
    pub uninterp spec fn freq(&self) -> Option<Seq<u64>>;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self.ord() is None) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_valid(&self) -> (r: bool) ensures r == (self.ord() is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Scalar) ensures r == *self { unimplemented!() }
}
/// scalars of one type compare by rank, nulls last
pub open spec fn sc_less(a: Scalar, b: Scalar) -> bool { match (a.ord(), b.ord()) { (Some(x), Some(y)) => x < y, (Some(_), None) => true, _ => false } }
#[verifier::external_body]
pub fn sc_lt(a: &Scalar, b: &Scalar) -> (r: bool) ensures r == sc_less(*a, *b) { unimplemented!() }
#[verifier::external_body]
pub fn sc_le(a: &Scalar, b: &Scalar) -> (r: bool) ensures r == !sc_less(*b, *a) { unimplemented!() }
#[derive(Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }
#[verifier::external_body]
pub fn sc_cmp_is(a: &Scalar, b: &Scalar, o: Ordering) -> (r: bool)
    ensures r == match o { Ordering::Less => sc_less(*a, *b), Ordering::Equal => a.ord() == b.ord(), Ordering::Greater => sc_less(*b, *a) } { unimplemented!() }
#[verifier::external_body]
pub fn sc_b(b: bool) -> (r: Scalar) ensures r.bool() == Some(b), r.ord() == Some(if b { 1int } else { 0int }) { unimplemented!() }
#[verifier::external_body]
pub fn sc_n(n: usize) -> (r: Scalar) ensures r.num() == Some(n) { unimplemented!() }
#[verifier::external_body]
pub fn sc_f(f: Vec<u64>) -> (r: Scalar) ensures r.freq() == Some(f@) { unimplemented!() }
#[verifier::external_body]
pub fn as_usize(s: &Scalar) -> (r: usize) requires s.num() is Some ensures s.num() == Some(r) { unimplemented!() }
#[verifier::external_body]
pub fn as_freq(s: &Scalar) -> (r: Vec<u64>) requires s.freq() is Some ensures s.freq() == Some(r@) { unimplemented!() }

pub struct SMap { u: u8 }
impl View for SMap { type V = SV; uninterp spec fn view(&self) -> SV; }
#[verifier::external_body]
pub fn map_new() -> (r: SMap) ensures r@ == Map::<Stat, Scalar>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn map_has(m: &SMap, k: &Stat) -> (r: bool) ensures r == m@.dom().contains(*k) { unimplemented!() }
#[verifier::external_body]
pub fn map_get<'a>(m: &'a SMap, k: &Stat) -> (r: Option<&'a Scalar>) ensures r is Some <==> m@.dom().contains(*k), r is Some ==> *r->0 == m@[*k] { unimplemented!() }
#[verifier::external_body]
pub fn map_at<'a>(m: &'a SMap, k: &Stat) -> (r: &'a Scalar) requires m@.dom().contains(*k) ensures *r == m@[*k] { unimplemented!() }
#[verifier::external_body]
pub fn map_insert(m: &mut SMap, k: Stat, v: Scalar) ensures final(m)@ == old(m)@.insert(k, v) { unimplemented!() }
#[verifier::external_body]
pub fn map_remove(m: &mut SMap, k: &Stat) ensures final(m)@ == old(m)@.remove(*k) { unimplemented!() }

pub open spec fn is_bool_stat(s: Stat) -> bool { s is IsConstant || s is IsSorted || s is IsStrictSorted }
pub open spec fn is_num_stat(s: Stat) -> bool { s is RunCount || s is TrueCount || s is NullCount }
pub open spec fn is_freq_stat(s: Stat) -> bool { s is BitWidthFreq || s is TrailingZeroFreq }
pub open spec fn typed_at(m: SV, s: Stat) -> bool {
    m.dom().contains(s) ==> (is_bool_stat(s) ==> m[s].bool() is Some) && (is_num_stat(s) ==> m[s].num() is Some) && (is_freq_stat(s) ==> m[s].freq() is Some)
}
/// every statistic is stored as a scalar of its own kind
pub open spec fn typed(m: SV) -> bool { forall|s: Stat| #[trigger] typed_at(m, s) }
pub proof fn lemma_count_le(d: Data, p: spec_fn(Option<int>) -> bool) ensures count(d, p) <= d.len() decreases d.len() { if d.len() > 0 { lemma_count_le(d.drop_last(), p); } }
