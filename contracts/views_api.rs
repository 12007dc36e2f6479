/// one decoded element
#[verifier::external_body]
pub struct Raw { p: usize }
pub enum SV { Null, Is(Raw) }
/// a data type
#[verifier::external_body]
pub struct DType { p: usize }
impl Clone for DType {
    #[verifier::external_body]
    fn clone(&self) -> (r: DType) ensures r == *self { unimplemented!() }
}
impl DType {
    pub uninterp spec fn nullable(&self) -> bool;
    pub uninterp spec fn int(&self) -> bool;
    #[verifier::external_body] /* proved: dtype */
    pub fn is_nullable(&self) -> (r: bool) ensures r == self.nullable() { unimplemented!() }
    #[verifier::external_body] /* proved: dtype */
    pub fn is_int(&self) -> (r: bool) ensures r == self.int() { unimplemented!() }
}
/// an array, as its readers see it: its type and its decoded elements
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Array { p: usize }
pub uninterp spec fn int_of(v: SV) -> int;
pub uninterp spec fn truth(v: SV) -> bool;
impl Array {
    pub uninterp spec fn w(&self) -> DType;
    pub uninterp spec fn cells(&self) -> Seq<SV>;
    /// laid out as a sparse or as a plain string array, which the three operations keep
    pub uninterp spec fn sparse(&self) -> bool;
    pub uninterp spec fn varbin(&self) -> bool;
    pub open spec fn n(&self) -> int { self.cells().len() as int }
    pub open spec fn int(&self, i: int) -> int { int_of(self.cells()[i]) }
    /// the positions an array of indices asks for
    pub open spec fn picks(&self) -> Seq<int> { Seq::new(self.cells().len(), |k: int| self.int(k)) }
    pub open spec fn asks(&self, n: int) -> bool { self.w().int() && !self.w().nullable() && forall|k: int| 0 <= k < self.n() ==> 0 <= #[trigger] self.int(k) < n }
    /// the rows a predicate is true of
    pub open spec fn mask(&self) -> Seq<bool> { Seq::new(self.cells().len(), |k: int| truth(self.cells()[k])) }
    pub open spec fn masks(&self, n: int) -> bool { self.n() == n && self.w() == bool_type() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.w() { unimplemented!() }
}
pub uninterp spec fn bool_type() -> DType;
/// the rows where the mask is set, in order
pub open spec fn sel(m: Seq<bool>) -> Seq<int> decreases m.len() { if m.len() == 0 { Seq::empty() } else { let r = sel(m.drop_last()); if m.last() { r.push(m.len() - 1) } else { r } } }
pub open spec fn picked(c: Seq<SV>, p: Seq<int>) -> Seq<SV> { Seq::new(p.len(), |k: int| c[p[k]]) }
pub proof fn lemma_sel(m: Seq<bool>)
    ensures sel(m).len() <= m.len(), forall|k: int| 0 <= k < sel(m).len() ==> 0 <= #[trigger] sel(m)[k] < m.len() && m[sel(m)[k]],
    decreases m.len(),
{ if m.len() > 0 { lemma_sel(m.drop_last()); } }
/// the operation gave an array of these elements
pub open spec fn gives(r: VortexResult<Array>, w: DType, c: Seq<SV>) -> bool { r matches Ok(a) && a.w() == w && a.cells() =~= c }
pub open spec fn like(r: VortexResult<Array>, a: Array) -> bool { r matches Ok(b) && (a.sparse() ==> b.sparse()) && (a.varbin() ==> b.varbin()) }
pub trait AsArr: Sized { spec fn it(self) -> Array; fn as_ref(&self) -> (r: Array) ensures r == (*self).it(); }
impl AsArr for Array { open spec fn it(self) -> Array { self } fn as_ref(&self) -> Array { *self } }
impl<'a> AsArr for &'a Array { open spec fn it(self) -> Array { *self } fn as_ref(&self) -> Array { **self } }
#[verifier::external_body] /* proved: views_dispatch over views_* */
pub fn slice<A: AsArr>(a: A, start: usize, stop: usize) -> (r: VortexResult<Array>)
    ensures if start <= stop && stop <= a.it().n() { gives(r, a.it().w(), a.it().cells().subrange(start as int, stop as int)) && like(r, a.it()) } else { r is Err } { unimplemented!() }
#[verifier::external_body] /* proved: views_dispatch over views_* */
pub fn take<A: AsArr, B: AsArr>(a: A, indices: B) -> (r: VortexResult<Array>)
    requires indices.it().asks(a.it().n()),
    ensures gives(r, a.it().w(), picked(a.it().cells(), indices.it().picks())) && like(r, a.it()) { unimplemented!() }
#[verifier::external_body] /* proved: views_dispatch over views_* */
pub fn filter<A: AsArr, B: AsArr>(a: A, mask: B) -> (r: VortexResult<Array>)
    requires mask.it().masks(a.it().n()),
    ensures gives(r, a.it().w(), picked(a.it().cells(), sel(mask.it().mask()))) && like(r, a.it()) { unimplemented!() }
pub fn flip<T>(o: Option<VortexResult<T>>) -> (r: VortexResult<Option<T>>) ensures match o { None => r matches Ok(x) && x is None, Some(Ok(x)) => r matches Ok(y) && y == Some(x), Some(Err(_)) => r is Err }
{ match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
/// which elements are there
pub enum Validity { NonNullable, AllValid, AllInvalid, Array(Array) }
impl Clone for Validity {
    #[verifier::external_body]
    fn clone(&self) -> (r: Validity) ensures r == *self { unimplemented!() }
}
impl Validity {
    pub open spec fn ok(&self, i: int) -> bool { match *self { Validity::NonNullable | Validity::AllValid => true, Validity::AllInvalid => false, Validity::Array(a) => truth(a.cells()[i]) } }
    pub open spec fn covers(&self, n: int) -> bool { match *self { Validity::Array(a) => a.n() == n && a.w() == bool_type(), _ => true } }
    pub open spec fn nullable(&self) -> bool { !(*self is NonNullable) }
}
pub open spec fn cell(ok: bool, v: SV) -> SV { if ok { v } else { SV::Null } }
/// the element of an optional child
pub open spec fn part(a: Option<Array>, i: int) -> SV { match a { Some(x) => x.cells()[i], None => SV::Null } }
pub open spec fn part_n(a: Option<Array>, n: int) -> bool { a matches Some(x) ==> x.n() == n }
pub open spec fn part_w(a: Option<Array>) -> Option<DType> { match a { Some(x) => Some(x.w()), None => None } }
