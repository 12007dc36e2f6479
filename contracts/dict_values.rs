pub trait NativePType: Copy {
    /// the bytes of a value: what makes it itself
    spec fn bits(self) -> Seq<u8>;
    fn zero() -> (r: Self);
    fn to_le_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.bits();
}
#[verifier::external_body]
pub fn same_bytes(a: Vec<u8>, b: Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub const NULL_CODE: u64 = 0;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PrimitiveArray<T> { p: usize, q: core::marker::PhantomData<T> }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DType { p: usize }
impl DType {
    pub uninterp spec fn nullable(&self) -> bool;
    #[verifier::external_body]
    pub fn is_nullable(&self) -> (r: bool) ensures r == self.nullable() { unimplemented!() }
}
#[verifier::external_body]
pub struct Array { p: usize }
impl Array { pub uninterp spec fn bools(&self) -> Seq<bool>; }
pub enum Validity { NonNullable, AllValid, AllInvalid, Array(Array) }
impl Validity { pub open spec fn ok(&self, i: int) -> bool { match self { Validity::NonNullable => true, Validity::AllValid => true, Validity::AllInvalid => false, Validity::Array(a) => a.bools()[i] } } }
impl<T> PrimitiveArray<T> {
    pub uninterp spec fn view(&self) -> Seq<Option<T>>;
    pub uninterp spec fn sdtype(&self) -> DType;
    pub open spec fn nullable(&self) -> bool { self.sdtype().nullable() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.sdtype() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: Vec<T>) -> (r: Self) ensures r@ == Seq::new(v@.len(), |i: int| Some(v@[i])), !r.nullable() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>, validity: Validity) -> (r: Self)
        requires validity matches Validity::Array(a) ==> a.bools().len() == v@.len(),
        ensures r@ == Seq::new(v@.len(), |i: int| if validity.ok(i) { Some(v@[i]) } else { None }), r.nullable() == !(validity is NonNullable) { unimplemented!() }
}
pub open spec fn got<T>(o: Option<&T>) -> Option<T> { match o { Some(v) => Some(*v), None => None } }
#[verifier::external_body]
pub fn iter_values<T>(s: &PrimitiveArray<T>) -> (r: Vec<Option<&T>>) ensures r.len() == s@.len(), forall|i: int| 0 <= i < r.len() ==> got(#[trigger] r@[i]) == s@[i] { unimplemented!() }
#[verifier::external_body]
pub fn validity_of(v: Vec<bool>) -> (r: Validity) ensures r is Array, r->Array_0.bools() == v@ { unimplemented!() }
pub struct Held { pub c: u64 }
impl Held { #[verifier::external_body] pub fn get(&self) -> (r: &u64) ensures *r == self.c { unimplemented!() } }
pub struct Spot<T> { pub k: T }
pub enum Entry<T> { Occupied(Held), Vacant(Spot<Value<T>>) }
/// a hash map: what it finds was put in under a key equal to the one asked for, in the sense of Value::eq (proved above it: the same bytes)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Lookup<T> { p: usize, q: core::marker::PhantomData<T> }
impl<T: NativePType> Lookup<T> {
    pub uninterp spec fn has(&self, k: Value<T>, c: u64) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: Value<T>, c: u64| !r.has(k, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&self, k: Value<T>) -> (r: Entry<T>)
        ensures match r { Entry::Occupied(e) => exists|j: Value<T>| #[trigger] self.has(j, e.c) && j.0.bits() == k.0.bits(), Entry::Vacant(s) => s.k == k },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, at: Spot<Value<T>>, c: u64)
        ensures forall|j: Value<T>, d: u64| final(self).has(j, d) == (old(self).has(j, d) || j == at.k && d == c),
    { unimplemented!() }
}
/// code c stands for r among the values, the first being null if base is 1
pub open spec fn stands<T: NativePType>(v: Seq<T>, base: int, c: int, r: Option<T>) -> bool {
    match r { None => base == 1 && c == 0, Some(x) => base <= c < v.len() && v[c].bits() == x.bits() }
}
pub open spec fn same<T: NativePType>(a: Option<T>, b: Option<T>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.bits() == y.bits(), _ => false } }
