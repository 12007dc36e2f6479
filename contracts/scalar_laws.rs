pub proof fn lemma_equal(p: PValue, q: PValue) ensures order(p, q) == Some(Ordering::Equal) <==> p == q
{ match p { PValue::F16(a) => if let PValue::F16(b) = q { assert(key(p) == key(q) ==> a.bits == b.bits); }, PValue::F32(a) => if let PValue::F32(b) = q { assert(key(p) == key(q) ==> a.bits == b.bits); }, PValue::F64(a) => if let PValue::F64(b) = q { assert(key(p) == key(q) ==> a.bits == b.bits); }, _ => {} } }
/// a total order on the values of one type, which agrees with equality
pub proof fn lemma_total_order(p: PValue, q: PValue, s: PValue)
    requires ptype_of(p) == ptype_of(q), ptype_of(q) == ptype_of(s),
    ensures order(p, q) is Some, order(p, q) == Some(Ordering::Less) <==> order(q, p) == Some(Ordering::Greater),
        order(p, q) == Some(Ordering::Less) && order(q, s) == Some(Ordering::Less) ==> order(p, s) == Some(Ordering::Less),
        order(p, q) == Some(Ordering::Equal) <==> p == q,
{ lemma_equal(p, q); }
/// integers are ordered as numbers
pub proof fn lemma_numeric_order(p: PValue, q: PValue) requires ptype_of(p) == ptype_of(q), !is_float(ptype_of(p)) ensures order(p, q) == Some(cmp3(int_of(p), int_of(q))) {}
/// a value of a type reads back from it as itself; an integer conversion keeps the number
pub proof fn lemma_read_own(p: PValue) ensures read_as(p, ptype_of(p)) == Some(p) {}
pub proof fn lemma_convert_exact(p: PValue, t: PType) requires !is_float(t), !is_float(ptype_of(p)) ensures convert(p, t) matches Some(q) ==> ptype_of(q) == t && int_of(q) == int_of(p), convert(p, t) is Some <==> lo(t) <= int_of(p) <= hi(t) {}
/// converted out and back is unchanged
pub proof fn lemma_convert_back(p: PValue, t: PType) requires !is_float(t), !is_float(ptype_of(p)), convert(p, t) is Some ensures convert(convert(p, t)->0, ptype_of(p)) == Some(p) {}
pub fn is_equal(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Equal)) { match o { Some(Ordering::Equal) => true, _ => false } }
#[verifier::external_body]
pub fn same_ptype(a: &PType, b: &PType) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// num_traits::NumCast to usize, on a 64-bit target
#[verifier::external_body]
pub fn num_cast_usize<A: Num>(a: A) -> (r: Option<usize>) requires !is_float(A::pt()) ensures match r { Some(x) => int_of(a.pv()) == x as int, None => !(0 <= int_of(a.pv()) <= usize::MAX) } { unimplemented!() }
/// core::mem::transmute between numbers of one width keeps the bits
#[verifier::external_body]
pub fn transmuted<A: Num, B: Num>(a: A) -> (r: B) requires width(A::pt()) == width(B::pt()) ensures bits(r.pv()) == bits(a.pv()) { unimplemented!() }
