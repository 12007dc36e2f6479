#[verifier::external_body]
pub struct BoolArray { p: usize }
impl BoolArray {
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    pub uninterp spec fn valid(&self) -> Validity;
    pub uninterp spec fn as_array(&self) -> Array;
    pub open spec fn inv(&self) -> bool { self.valid().fits(self.bits().len() as int) && (self.valid() is NonNullable ==> self.as_array().bools() == self.bits()) }
    #[verifier::external_body]
    pub fn validity(&self) -> (r: Validity) ensures r == self.valid() { unimplemented!() }
    #[verifier::external_body]
    pub fn boolean_buffer(&self) -> (r: BooleanBuffer) ensures r@ == self.bits() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_array(self) -> (r: Array) ensures r == self.as_array() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bits().len() { unimplemented!() }
}
