impl<'a> PrimitiveScalar<'a> {
    pub open spec fn inv(&self) -> bool { wire(*self.dtype) is Prim && fbp(self.ptype) == wire(*self.dtype)->Prim_0 && (self.pvalue matches Some(p) ==> ptype_of(p) == self.ptype) }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn of_scalar(value: &'a Scalar) -> (r: VortexResult<Self>)
        ensures match (value.v(), value.w()) { (SV::Null, W::Prim(t, _)) => r matches Ok(s) && s.inv() && *s.dtype == value.dtype && s.pvalue is None, (SV::Prim(p), W::Prim(t, _)) => match read_fb(p, t) { Some(q) => r matches Ok(s) && s.inv() && *s.dtype == value.dtype && s.pvalue == Some(q), None => r is Err }, _ => r is Err } { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn ptype(&self) -> (r: PType) ensures r == self.ptype { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn typed_value<T: Nat>(&self) -> (r: Option<T>) requires self.inv(), self.ptype == T::pt() ensures (match r { Some(x) => Some(x.pv()), None => None }) == self.pvalue { unimplemented!() }
}
impl DType {
    #[verifier::external_body] /* proved: scalar_values */
    pub fn nullability(&self) -> (r: Nullability) ensures nb(r) == null_ok(wire(*self)) { unimplemented!() }
}
impl ScalarValue {
    #[verifier::external_body] /* proved: scalar_values */
    pub fn is_null(&self) -> (r: bool) ensures r == (sv(*self) is Null) { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_values */
    pub fn as_pvalue(&self) -> (r: VortexResult<Option<PValue>>) ensures match sv(*self) { SV::Null => r == VortexResult::<Option<PValue>>::Ok(None), SV::Prim(b) => r == VortexResult::<Option<PValue>>::Ok(Some(b)), _ => r is Err } { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_values */
    pub fn as_buffer(&self) -> (r: VortexResult<Option<Bytes>>) ensures match sv(*self) { SV::Null => r matches Ok(o) && o is None, SV::Bin(b) => r matches Ok(o) && o is Some && o->0@ == b, _ => r is Err } { unimplemented!() }
}
impl Scalar {
    pub open spec fn w(&self) -> W { wire(self.dtype) }
    pub open spec fn v(&self) -> SV { sv(self.value) }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn new(dtype: DType, value: ScalarValue) -> (r: Self) ensures r.dtype == dtype, r.v() == physical(sv(value), wire(dtype)) { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.dtype { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn value(&self) -> (r: &ScalarValue) ensures *r == self.value { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn into_value(self) -> (r: ScalarValue) ensures r == self.value { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn is_null(&self) -> (r: bool) ensures r == (self.v() is Null) { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn null(dtype: DType) -> (r: Self) requires null_ok(wire(dtype)) ensures r.dtype == dtype, r.v() is Null { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn cast(&self, dtype: &DType) -> (r: VortexResult<Self>)
        requires scoped(wire(*dtype)), sized(self.v(), self.w()),
        ensures match casted(self.v(), self.w(), wire(*dtype)) { Some(x) => r matches Ok(s) && s.v() == x && s.w() == wire(*dtype), None => r is Err } { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn bool(value: bool, nullability: Nullability) -> (r: Self) ensures r.w() == W::Bool(nb(nullability)), r.v() == SV::Bool(value) { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_cast */
    pub fn primitive<T: Nat>(value: T, nullability: Nullability) -> (r: Self) ensures r.w() == W::Prim(fbp(T::pt()), nb(nullability)), r.v() == SV::Prim(value.pv()) { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_views */
    pub fn of_fields(dtype: DType, children: Vec<ScalarValue>) -> (r: Self) ensures r.dtype == dtype, r.value == ScalarValue::List(children) { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_views */
    pub fn extension(ext_dtype: ExtDType, storage: Self) -> (r: Self) ensures r.dtype is Extension, r.dtype->Extension_0 == ext_dtype, nb(r.dtype->Extension_1) == null_ok(storage.w()), r.value == storage.value { unimplemented!() }
    #[verifier::external_body] /* proved: scalar_views */
    pub fn reinterpret_cast(&self, ptype: PType) -> (r: Self)
        requires self.w() is Prim, self.v() is Null || (self.v() is Prim && fbp(ptype_of(self.v()->Prim_0)) == self.w()->Prim_0),
            forall|t: PType| fbp(t) == self.w()->Prim_0 ==> width(t) == width(ptype) && (is_float(ptype) && is_float(t) ==> t == ptype),
        ensures r.w() == W::Prim(fbp(ptype), null_ok(self.w())), match self.v() { SV::Prim(p) => r.v() is Prim && ptype_of(r.v()->Prim_0) == ptype && bits(r.v()->Prim_0) == bits(p), _ => r.v() is Null } { unimplemented!() }
}
impl SearchResult {
    pub open spec fn place(self) -> int { match self { SearchResult::Found(i) => i as int, SearchResult::NotFound(i) => i as int } }
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_found(self) -> (r: Option<usize>) ensures r == (match self { SearchResult::Found(i) => Some(i), SearchResult::NotFound(_) => None }) { unimplemented!() }
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_ends_index(self, len: usize) -> (r: usize)
        requires len > 0,
        ensures r == (if self.place() == len { self.place() - 1 } else { self.place() }),
    { unimplemented!() }
}
/// an array, as its readers see it: its type and its decoded elements
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Array { p: usize }
impl Array {
    pub uninterp spec fn w(&self) -> W;
    pub uninterp spec fn cells(&self) -> Seq<SV>;
    pub open spec fn int(&self, i: int) -> int { int_of(self.cells()[i]->Prim_0) }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.cells().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures wire(*r) == self.w() { unimplemented!() }
    #[verifier::external_body] /* proved for each encoding: reads_* */
    pub fn is_valid(&self, i: usize) -> (r: bool) requires i < self.cells().len() ensures r == !(self.cells()[i as int] is Null) { unimplemented!() }
}
/// every element of an array is of its type
#[verifier::external_body]
pub proof fn typed(a: Array) ensures forall|i: int| 0 <= i < a.cells().len() ==> #[trigger] fits(a.cells()[i], a.w()) { unimplemented!() }
/// what reading one element gives
pub open spec fn reads(r: VortexResult<Scalar>, v: SV, w: W) -> bool { r matches Ok(s) && s.v() == v && s.w() == w }
#[verifier::external_body] /* proved: reads_dispatch over reads_* */
pub fn scalar_at(a: &Array, i: usize) -> (r: VortexResult<Scalar>) ensures if i < a.cells().len() { reads(r, a.cells()[i as int], a.w()) } else { r is Err } { unimplemented!() }
#[verifier::external_body] /* proved: reads_dispatch over reads_* */
pub fn scalar_at_unchecked(a: &Array, i: usize) -> (r: Scalar) requires i < a.cells().len(), !(a.cells()[i as int] is Null) ensures r.v() == a.cells()[i as int], r.w() == a.w() { unimplemented!() }
/// non-null integers in order
pub open spec fn ordered(a: Array) -> bool {
    &&& forall|i: int| 0 <= i < a.cells().len() ==> #[trigger] a.cells()[i] is Prim && !is_float(ptype_of(a.cells()[i]->Prim_0)) && 0 <= a.int(i) <= usize::MAX
    &&& forall|i: int, j: int| 0 <= i < j < a.cells().len() ==> #[trigger] a.int(i) <= #[trigger] a.int(j)
}
pub open spec fn placed(r: SearchResult, a: Array, v: int, side: SearchSortedSide) -> bool {
    let p = r.place();
    &&& 0 <= p <= a.cells().len()
    &&& side is Left ==> (forall|j: int| 0 <= j < p ==> #[trigger] a.int(j) < v) && (forall|j: int| p <= j < a.cells().len() ==> #[trigger] a.int(j) >= v) && (r is Found <==> p < a.cells().len() && a.int(p) == v)
    &&& side is Right ==> (forall|j: int| 0 <= j < p ==> #[trigger] a.int(j) <= v) && (forall|j: int| p <= j < a.cells().len() ==> #[trigger] a.int(j) > v)
}
#[verifier::external_body] /* proved: search_sorted */
pub fn search_sorted(a: &Array, v: usize, side: SearchSortedSide) -> (r: VortexResult<SearchResult>) requires ordered(*a) ensures r matches Ok(x) && placed(x, *a, v as int, side) { unimplemented!() }
pub fn sure<T>(r: VortexResult<T>) -> (x: T) requires r is Ok ensures r == VortexResult::<T>::Ok(x) { match r { Ok(x) => x, Err(_) => vpanic() } }
/// which elements are there
#[verifier::external_body]
pub struct Validity { p: usize }
impl Validity {
    pub uninterp spec fn ok(&self, i: int) -> bool;
    pub uninterp spec fn covers(&self, n: int) -> bool;
    #[verifier::external_body] /* proved: validity */
    pub fn is_valid(&self, i: usize) -> (r: bool) requires exists|n: int| #[trigger] self.covers(n) && i < n ensures r == self.ok(i as int) { unimplemented!() }
}
pub open spec fn cell(ok: bool, v: SV) -> SV { if ok { v } else { SV::Null } }
pub fn of_prim<T: Nat>(s: &ScalarValue) -> (r: VortexResult<T>) ensures match sv(*s) { SV::Prim(p) => (match r { Ok(x) => Some(x.pv()), Err(_) => None }) == read_as(p, T::pt()), _ => r is Err }
{ match s { ScalarValue::Primitive(p) => T::from_pv(*p), _ => Err(VErr) } }
#[verifier::external_body] /* proved: scalar_pvalue */
pub fn value_to_usize(v: &ScalarValue) -> (r: VortexResult<usize>) ensures sv(*v) matches SV::Prim(p) && !is_float(ptype_of(p)) && 0 <= int_of(p) <= usize::MAX ==> r == VortexResult::<usize>::Ok(int_of(sv(*v)->Prim_0) as usize) { unimplemented!() }
