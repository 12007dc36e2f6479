impl NativePType for u32 {
    open spec fn val(self) -> int { self as int }
    open spec fn most() -> int { u32::MAX as int }
    proof fn lemma_most(self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn of(n: usize) -> (r: Option<Self>) { if n <= 0xffff_ffff { Some(n as u32) } else { None } }
    fn idx(self) -> (r: usize) { self as usize }
    fn zero() -> (r: Self) { 0 }
    fn plus(self, n: usize) -> (r: Self) { (self as usize + n) as u32 }
    fn minus(self, o: Self) -> (r: Self) { self - o }
}

impl NativePType for u64 {
    open spec fn val(self) -> int { self as int }
    open spec fn most() -> int { u64::MAX as int }
    proof fn lemma_most(self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn of(n: usize) -> (r: Option<Self>) { Some(n as u64) }
    fn idx(self) -> (r: usize) { self as usize }
    fn zero() -> (r: Self) { 0 }
    fn plus(self, n: usize) -> (r: Self) { (self as usize + n) as u64 }
    fn minus(self, o: Self) -> (r: Self) { self - o }
}
pub fn expect_made(r: VortexResult<VarBinArray>) -> (v: VarBinArray) requires r is Ok ensures v == r.unwrap() { r.unwrap() }
impl PrimitiveArray { #[verifier::external_body] pub fn from_u8(v: Vec<u8>) -> (r: PrimitiveArray) ensures r.bytes() == v@ { unimplemented!() } }
#[verifier::external_body]
pub fn any_hint() -> (r: (usize, Option<usize>)) { unimplemented!() }
/// the strings to encode, in order
#[verifier::external_body]
pub struct Strings { p: usize }
impl Strings {
    pub uninterp spec fn view(&self) -> Seq<Row>;
}
pub open spec fn got(o: Option<&[u8]>) -> Row { match o { Some(v) => Some(v@), None => None } }
#[verifier::external_body]
pub fn iter_strings(s: &Strings) -> (r: Vec<Option<&[u8]>>) ensures r.len() == s@.len(), forall|i: int| 0 <= i < r.len() ==> got(#[trigger] r@[i]) == s@[i] { unimplemented!() }
pub open spec fn width(r: Row) -> int { match r { Some(v) => v.len() as int, None => 0 } }
pub open spec fn size(s: Seq<Row>, k: int) -> int decreases k { if k <= 0 { 0 } else { size(s, k - 1) + width(s[k - 1]) } }
pub proof fn lemma_size(s: Seq<Row>, a: int, b: int) requires 0 <= a <= b ensures 0 <= size(s, a) <= size(s, b) decreases b { if a < b { lemma_size(s, a, b - 1); } else if a > 0 { lemma_size(s, a - 1, a - 1); } }
#[verifier::external_body]
pub struct Hasher { p: usize }
impl Hasher {
    #[verifier::external_body]
    pub fn new() -> (r: Hasher) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_one(&self, b: &[u8]) -> (r: u64) { unimplemented!() }
}
#[verifier::external_body]
pub struct Token { p: usize }
pub struct Key { pub k: u64 }
impl Key { #[verifier::external_body] pub fn into_key(self) -> (r: &'static u64) ensures *r == self.k { unimplemented!() } }
pub enum RawEntryMut { Occupied(Key), Vacant(Token) }
/// a hash table of codes: what it finds was put in and is what was asked for
#[verifier::external_body]
pub struct Lookup { p: usize }
impl Lookup {
    pub uninterp spec fn has(&self, k: u64) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Lookup) ensures forall|k: u64| !r.has(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&u64) -> bool>(&self, hash: u64, f: F) -> (r: RawEntryMut)
        requires forall|k: u64| self.has(k) ==> f.requires((&k,)),
        ensures r matches RawEntryMut::Occupied(e) ==> self.has(e.k) && f.ensures((&e.k,), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add<F: Fn(&u64) -> u64>(&mut self, at: Token, hash: u64, k: u64, f: F)
        requires forall|k: u64| old(self).has(k) ==> f.requires((&k,)),
        ensures forall|j: u64| final(self).has(j) == (old(self).has(j) || j == k),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn same_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn validity_of(v: Vec<bool>) -> (r: Validity) ensures r.fits(v@.len() as int), r.oks(v@.len() as int) == v@, !(r is NonNullable) { unimplemented!() }
/// code c stands for r among the strings cut out by offs, with the first one null if base is 1
pub open spec fn stands(offs: Seq<int>, data: Seq<u8>, base: int, c: int, r: Row) -> bool {
    match r { None => base == 1 && c == 0, Some(v) => base <= c < offs.len() - 1 && data.subrange(offs[c], offs[c + 1]) == v }
}
pub proof fn lemma_stands_push(offs: Seq<int>, data: Seq<u8>, base: int, c: int, r: Row, v: Seq<u8>)
    requires offs_ok(offs, data.len() as int), stands(offs, data, base, c, r), 0 <= base <= 1,
    ensures stands(offs.push((data.len() + v.len()) as int), data + v, base, c, r),
{
    if r is Some { assert(0 <= offs[c] <= offs[c + 1] <= data.len()); assert((data + v).subrange(offs[c], offs[c + 1]) =~= data.subrange(offs[c], offs[c + 1])); }
}
