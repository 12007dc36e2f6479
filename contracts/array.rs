// ---- contracts of the array layer, as seen by its callers. An array is the sequence of its elements; an element is a
// value or null, and two elements are equal when they are the same value (bit for bit) or both null.
pub struct Elem(pub int);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DType { p: usize }
impl DType {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DType) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Array { p: usize }
impl Array {
    pub uninterp spec fn view(&self) -> Seq<Elem>;
    pub uninterp spec fn sdtype(&self) -> DType;
    /// the bits of a non-null boolean array
    pub uninterp spec fn bools(&self) -> Seq<bool>;
    /// the numbers of a non-null integer array
    pub uninterp spec fn ints(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.sdtype() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Array) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn dtype_ne(a: &DType, b: &DType) -> (r: bool) ensures r == (*a != *b) { unimplemented!() }
pub open spec fn to_ints(v: Seq<u64>) -> Seq<int> { v.map_values(|x: u64| x as int) }
#[verifier::external_body]
pub fn u64_array(v: Vec<u64>) -> (r: Array) ensures r@.len() == v.len(), r.ints() == to_ints(v@) { unimplemented!() }
/// the integer at a position of a non-null integer array
#[verifier::external_body]
pub fn usize_at(o: &Array, i: usize) -> (r: usize)
    requires i < o.ints().len(), 0 <= o.ints()[i as int] <= usize::MAX, ensures r == o.ints()[i as int] { unimplemented!() }
pub fn append_all(v: &mut Vec<Array>, w: Vec<Array>) ensures final(v)@ == old(v)@ + w@, flat(final(v)@) == flat(old(v)@) + flat(w@) { proof { lemma_flat_concat(v@, w@); } let mut w = w; v.append(&mut w); }
#[verifier::external_body]
pub fn slice(a: &Array, start: usize, stop: usize) -> (r: VortexResult<Array>)
    requires start <= stop <= a@.len(),
    ensures r matches Ok(x) ==> x@ == a@.subrange(start as int, stop as int) && x.sdtype() == a.sdtype()
        && (a.ints().len() == a@.len() ==> x.ints() == a.ints().subrange(start as int, stop as int))
        && (a.bools().len() == a@.len() ==> x.bools() == a.bools().subrange(start as int, stop as int)),
{ unimplemented!() }
/// what gathering positions from a sequence means
pub open spec fn gather(s: Seq<Elem>, ix: Seq<int>) -> Seq<Elem> { Seq::new(ix.len(), |i: int| s[ix[i]]) }
pub open spec fn all_in(ix: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < n }
#[verifier::external_body]
pub fn take(a: &Array, ix: &Array) -> (r: VortexResult<Array>)
    requires all_in(ix.ints(), a@.len() as int),
    ensures r matches Ok(x) ==> x@ == gather(a@, ix.ints()) && x.sdtype() == a.sdtype()
        && (a.ints().len() == a@.len() ==> x.ints() == Seq::new(ix.ints().len(), |i: int| a.ints()[ix.ints()[i]]))
        && (a.bools().len() == a@.len() ==> x.bools() == Seq::new(ix.ints().len(), |i: int| a.bools()[ix.ints()[i]])),
{ unimplemented!() }
/// the elements whose mask bit is set, in order
pub open spec fn keep<T>(s: Seq<T>, m: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let r = keep(s.drop_last(), m.drop_last()); if m.last() { r.push(s.last()) } else { r } }
}
pub proof fn lemma_keep_concat<T>(a: Seq<T>, b: Seq<T>, ma: Seq<bool>, mb: Seq<bool>)
    requires a.len() == ma.len(), b.len() == mb.len(),
    ensures keep(a + b, ma + mb) =~= keep(a, ma) + keep(b, mb), decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(ma + mb =~= ma); }
    else { lemma_keep_concat(a, b.drop_last(), ma, mb.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((ma + mb).drop_last() =~= ma + mb.drop_last()); }
}
pub proof fn lemma_keep_all<T>(s: Seq<T>, m: Seq<bool>, v: bool)
    requires s.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> m[i] == v,
    ensures keep(s, m) =~= (if v { s } else { Seq::empty() }), decreases s.len()
{ if s.len() > 0 { lemma_keep_all(s.drop_last(), m.drop_last(), v); } }
#[verifier::external_body]
pub fn filter(a: &Array, m: Array) -> (r: VortexResult<Array>)
    requires m.bools().len() == a@.len(),
    ensures r matches Ok(x) ==> x@ == keep(a@, m.bools()) && x.sdtype() == a.sdtype() && (a.bools().len() == a@.len() ==> x.bools() == keep(a.bools(), m.bools())),
{ unimplemented!() }
/// the values of a non-null unsigned integer array
#[verifier::external_body]
pub fn u64_values(a: &Array) -> (r: VortexResult<Vec<u64>>)
    ensures r matches Ok(v) ==> to_ints(v@) == a.ints(), { unimplemented!() }
pub fn iter_u64(v: &Vec<u64>) -> (r: &Vec<u64>) ensures r == v { v }
pub fn clone_u64(v: &Vec<u64>) -> (r: Vec<u64>) ensures r@ == v@ {
    let mut r = Vec::new(); let mut k = 0; while k < v.len() invariant k <= v.len(), r@ =~= v@.take(k as int) decreases v.len() - k { r.push(v[k]); k = k + 1; } assert(v@.take(v.len() as int) =~= v@); r }
/// all parts one after the other
pub open spec fn flat(parts: Seq<Array>) -> Seq<Elem> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() } else { flat(parts.drop_last()) + parts.last()@ }
}
pub proof fn lemma_flat_push(parts: Seq<Array>, a: Array) ensures flat(parts.push(a)) == flat(parts) + a@ {
    assert(parts.push(a).drop_last() =~= parts);
}
pub proof fn lemma_flat_concat(a: Seq<Array>, b: Seq<Array>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); }
    else { lemma_flat_concat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(flat(a) + flat(b) =~= (flat(a) + flat(b.drop_last())) + b.last()@); }
}
pub proof fn lemma_flat_one(a: Array) ensures flat(seq![a]) == a@ { reveal_with_fuel(flat, 2); assert(seq![a].drop_last().len() == 0); assert(flat(seq![a]) =~= a@); }
pub proof fn lemma_flat_take(parts: Seq<Array>, k: int)
    requires 0 <= k <= parts.len(),
    ensures flat(parts) == flat(parts.take(k)) + flat(parts.skip(k)), flat(parts.take(k)).len() <= flat(parts).len(),
{ assert(parts.take(k) + parts.skip(k) =~= parts); lemma_flat_concat(parts.take(k), parts.skip(k)); }
