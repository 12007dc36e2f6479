#[derive(Clone, Copy)] pub struct Array { u: u8 }
impl Array {
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Array) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bool(self) -> (r: VortexResult<BoolBuf>) ensures r is Ok, r->Ok_0@ == self.bits() { unimplemented!() }
}
pub struct BoolBuf { u: u8 }
impl View for BoolBuf { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl BoolBuf { #[verifier::external_body] pub fn boolean_buffer(&self) -> (r: BooleanBuffer) ensures r@ == self@ { unimplemented!() } }
pub enum LogicalValidity { AllValid(usize), AllInvalid(usize), Array(Array) }
/// what a logical validity says of each element (proved of the real functions in unit validity)
pub open spec fn says(l: LogicalValidity, valid: Seq<bool>) -> bool {
    match l { LogicalValidity::AllValid(n) => n == valid.len() && valid == Seq::new(valid.len(), |i: int| true), LogicalValidity::AllInvalid(n) => n == valid.len() && valid == Seq::new(valid.len(), |i: int| false), LogicalValidity::Array(a) => a.bits() == valid }
}
