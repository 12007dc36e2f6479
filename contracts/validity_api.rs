// ---- bit buffers and boolean arrays
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BooleanBuffer { p: usize }
impl BooleanBuffer {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn new_unset(n: usize) -> (r: BooleanBuffer) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> !#[trigger] r@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count_set_bits(&self) -> (r: usize) ensures r <= self@.len(), r == self@.len() <==> all_eq(self@, true), r == 0 <==> all_eq(self@, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn bitand(&self, o: &BooleanBuffer) -> (r: BooleanBuffer) requires self@.len() == o@.len() ensures r@ == both(self@, o@) { unimplemented!() }
}
pub open spec fn all_eq(s: Seq<bool>, v: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == v }
pub open spec fn both(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] && b[i]) }
#[verifier::external_body]
pub fn band(a: &BooleanBuffer, b: &BooleanBuffer) -> (r: BooleanBuffer) requires a@.len() == b@.len() ensures r@ == both(a@, b@) { unimplemented!() }
/// the boolean array of a bit buffer, without nulls
#[verifier::external_body]
pub fn bits_array(b: BooleanBuffer) -> (r: Array) ensures r.bools() == b@, r@.len() == b@.len() { unimplemented!() }
#[verifier::external_body]
pub fn bool_values(v: Vec<bool>) -> (r: Array) ensures r.bools() == v@, r@.len() == v@.len() { unimplemented!() }
/// the bits of a boolean array
#[verifier::external_body]
pub fn array_bits(a: &Array) -> (r: VortexResult<BooleanBuffer>) requires a.bools().len() == a@.len() ensures r matches Ok(b) ==> b@ == a.bools() { unimplemented!() }
/// the bit at a position
#[verifier::external_body]
pub fn bit_at(a: &Array, i: usize) -> (r: bool) requires i < a.bools().len(), a.bools().len() == a@.len() ensures r == a.bools()[i as int] { unimplemented!() }
/// the least and greatest bit, when the encoding can tell
#[verifier::external_body]
pub fn min_bit(a: &Array) -> (r: Option<bool>) ensures r == Some(true) ==> all_eq(a.bools(), true) { unimplemented!() }
#[verifier::external_body]
pub fn max_bit(a: &Array) -> (r: Option<bool>) ensures r == Some(false) ==> all_eq(a.bools(), false) { unimplemented!() }
/// the number of set bits
#[verifier::external_body]
pub fn set_bits(a: &Array) -> (r: Option<usize>) ensures r matches Some(n) ==> (n == a@.len() ==> all_eq(a.bools(), true)) && (n == 0 ==> all_eq(a.bools(), false)) { unimplemented!() }
#[verifier::external_body]
pub fn is_bool_array(a: &Array) -> (r: bool) ensures r ==> a.bools().len() == a@.len() { unimplemented!() }
