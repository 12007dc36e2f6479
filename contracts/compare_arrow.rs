#[verifier::external_body]
pub struct Arrow { p: usize }
impl Arrow { pub uninterp spec fn cells(&self) -> Cells; pub fn as_ref(&self) -> (r: &Arrow) ensures r == self { self } }
#[verifier::external_body]
pub struct Flags { p: usize }
impl Flags { pub uninterp spec fn view(&self) -> Seq<Option<bool>>; }
pub open spec fn flags(op: Operator, a: Cells, b: Cells) -> Seq<Option<bool>> { Seq::new(a.len(), |i: int| cmp1(op, a[i], b[i])) }
#[verifier::external_body]
pub fn arrow_of(a: Array) -> (r: VortexResult<Arrow>) ensures r matches Ok(o) ==> o.cells() == a.cells() { unimplemented!() }
#[verifier::external_body]
pub fn array_of_flags(f: &Flags) -> (r: Array) ensures r.bools() == f@, r.cells().len() == f@.len(), r.dt().boolean() { unimplemented!() }
pub mod cmp {
    use super::*;
    #[verifier::external_body] pub fn eq(a: &Arrow, b: &Arrow) -> (r: VortexResult<Flags>) ensures r matches Ok(f) ==> f@ == flags(Operator::Eq, a.cells(), b.cells()) { unimplemented!() }
    #[verifier::external_body] pub fn neq(a: &Arrow, b: &Arrow) -> (r: VortexResult<Flags>) ensures r matches Ok(f) ==> f@ == flags(Operator::NotEq, a.cells(), b.cells()) { unimplemented!() }
    #[verifier::external_body] pub fn gt(a: &Arrow, b: &Arrow) -> (r: VortexResult<Flags>) ensures r matches Ok(f) ==> f@ == flags(Operator::Gt, a.cells(), b.cells()) { unimplemented!() }
    #[verifier::external_body] pub fn gt_eq(a: &Arrow, b: &Arrow) -> (r: VortexResult<Flags>) ensures r matches Ok(f) ==> f@ == flags(Operator::Gte, a.cells(), b.cells()) { unimplemented!() }
    #[verifier::external_body] pub fn lt(a: &Arrow, b: &Arrow) -> (r: VortexResult<Flags>) ensures r matches Ok(f) ==> f@ == flags(Operator::Lt, a.cells(), b.cells()) { unimplemented!() }
    #[verifier::external_body] pub fn lt_eq(a: &Arrow, b: &Arrow) -> (r: VortexResult<Flags>) ensures r matches Ok(f) ==> f@ == flags(Operator::Lte, a.cells(), b.cells()) { unimplemented!() }
}
