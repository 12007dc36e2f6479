pub struct Prim { pub a: Array }
impl Prim {
    pub fn as_ref(&self) -> (r: &Array) ensures *r == self.a { &self.a }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.a.n() { unimplemented!() }
}
macro_rules! ints { ($($f:ident $t:ty),*) => { verus! { impl Prim { $(
    #[verifier::external_body]
    pub fn $f(&self) -> (r: &[$t]) ensures r@.len() == self.a.n(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]) as int == self.a.int(k) { unimplemented!() }
)* } } } }
ints! { ints_u8 u8, ints_u16 u16, ints_u32 u32, ints_u64 u64, ints_i8 i8, ints_i16 i16, ints_i32 i32, ints_i64 i64 }
#[verifier::external_body] /* proved elsewhere: decoding */
pub fn to_prim(a: &Array) -> (r: VortexResult<Prim>) requires a.w().int() ensures r matches Ok(p) && p.a.cells() == a.cells() && p.a.w() == a.w() && p.a.picks() =~= a.picks() && (forall|k: int| #[trigger] p.a.int(k) == a.int(k)) && (forall|n: int| a.asks(n) ==> #[trigger] p.a.asks(n)) { unimplemented!() }
