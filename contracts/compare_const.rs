#[verifier::external_body]
pub struct Scalar { p: usize }
impl Scalar {
    pub uninterp spec fn cell(&self) -> Option<Val>;
    pub uninterp spec fn truth(&self) -> Option<bool>;
    pub uninterp spec fn dt(&self) -> DType;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self.cell() is None) { unimplemented!() }
    #[verifier::external_body]
    pub fn null_bool() -> (r: Scalar) ensures r.truth() is None, r.dt().boolean() { unimplemented!() }
    #[verifier::external_body]
    pub fn null(d: DType) -> (r: Scalar) ensures r.cell() is None, r.truth() is None, r.dt() == d { unimplemented!() }
    #[verifier::external_body]
    pub fn bool(b: bool, n: Nullability) -> (r: Scalar) ensures r.truth() == Some(b), r.dt().boolean() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: VortexResult<Option<bool>>) ensures r matches Ok(b) ==> b == self.truth() { unimplemented!() }
}
pub enum Nullability { NonNullable, Nullable }
/// scalar values and scalars, compared (P20)
#[verifier::external_body] pub fn same_value(a: &Scalar, b: &Scalar) -> (r: bool) requires a.dt().base() == b.dt().base(), a.cell() is Some, b.cell() is Some ensures r == (ord(a.cell()->0, b.cell()->0) == 0) { unimplemented!() }
#[verifier::external_body] pub fn above(a: &Scalar, b: &Scalar) -> (r: bool) requires a.dt().base() == b.dt().base(), a.cell() is Some, b.cell() is Some ensures r == (ord(a.cell()->0, b.cell()->0) > 0) { unimplemented!() }
#[verifier::external_body] pub fn below(a: &Scalar, b: &Scalar) -> (r: bool) requires a.dt().base() == b.dt().base(), a.cell() is Some, b.cell() is Some ensures r == (ord(a.cell()->0, b.cell()->0) < 0) { unimplemented!() }
