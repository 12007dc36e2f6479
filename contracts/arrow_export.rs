// ---- building arrow arrays, as the arrow crates' documentation gives it
pub open spec fn nfits(nulls: Option<NullBuffer>, n: nat) -> bool { nulls matches Some(b) ==> b@.len() == n }
pub open spec fn nview(nulls: Option<NullBuffer>) -> Option<Seq<bool>> { match nulls { Some(b) => Some(b@), None => None } }
/// an array, its null buffer kept or, when nothing is null, left out
pub open spec fn built(a: A, dt: DataType, len: nat, nulls: Option<NullBuffer>, data: AData) -> bool { a.dt == dt && a.len == len && mask(a.nulls, len) == mask(nview(nulls), len) && a.data == data }
pub trait IntoRef: Sized { spec fn a(&self) -> A; fn into_ref(self) -> (r: ArrowRef) ensures r@ == self.a(); }
impl<T> IntoRef for ArrowPrimitiveArray<T> { open spec fn a(&self) -> A { self@ }
    #[verifier::external_body]
    fn into_ref(self) -> (r: ArrowRef) { unimplemented!() } }
impl<T> IntoRef for GenericByteViewArray<T> { open spec fn a(&self) -> A { self@ }
    #[verifier::external_body]
    fn into_ref(self) -> (r: ArrowRef) { unimplemented!() } }
impl IntoRef for ArrowBooleanArray { open spec fn a(&self) -> A { self@ }
    #[verifier::external_body]
    fn into_ref(self) -> (r: ArrowRef) { unimplemented!() } }
impl IntoRef for ArrowStructArray { open spec fn a(&self) -> A { self@ }
    #[verifier::external_body]
    fn into_ref(self) -> (r: ArrowRef) { unimplemented!() } }
impl IntoRef for ArrowNullArray { open spec fn a(&self) -> A { self@ }
    #[verifier::external_body]
    fn into_ref(self) -> (r: ArrowRef) { unimplemented!() } }
impl ArrowNullArray {
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures built(r@, DataType::Null, n as nat, None, AData::Null) { unimplemented!() } }
impl ArrowBooleanArray {
    #[verifier::external_body]
    pub fn new(values: BooleanBuffer, nulls: Option<NullBuffer>) -> (r: Self) requires nfits(nulls, values@.len()) ensures built(r@, DataType::Boolean, values@.len(), nulls, AData::Bools(values@)) { unimplemented!() } }
pub trait Number: Sized { spec fn p() -> PType; }
impl Number for i32 { open spec fn p() -> PType { PType::I32 } }
impl Number for i64 { open spec fn p() -> PType { PType::I64 } }
/// `len` values from the one at `offset`
#[verifier::external_body]
pub fn scalars<T>(p: PType, b: Buffer, offset: usize, len: usize) -> (r: ScalarBuffer<T>) requires (offset + len) * width(p) <= b@.len() ensures r@ == b@.subrange(offset * width(p), (offset + len) * width(p)) { unimplemented!() }
pub fn scalars_of<T: Number>(b: Buffer, offset: usize, len: usize, Ghost(p): Ghost<PType>, q: PType) -> (r: ScalarBuffer<T>) requires p == q, p == T::p(), (offset + len) * width(p) <= b@.len() ensures r@ == b@.subrange(offset * width(p), (offset + len) * width(p)) { scalars(q, b, offset, len) }
impl<T: ArrowPrimitiveType> ArrowPrimitiveArray<T> {
    #[verifier::external_body]
    pub fn new<U>(values: ScalarBuffer<U>, nulls: Option<NullBuffer>) -> (r: Self)
        requires exists|n: nat| #[trigger] bytes_fit(T::p(), values@, n) && nfits(nulls, n)
        ensures T::of(r@.dt), r@.dt matches DataType::Timestamp(_, z) ==> z is None, forall|n: nat| #[trigger] bytes_fit(T::p(), values@, n) ==> built(r@, r@.dt, n, nulls, AData::Prim(values@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_timezone_opt(self, z: Option<Str>) -> (r: Self) requires self@.dt is Timestamp
        ensures r@ == (A { dt: r@.dt, len: self@.len, nulls: self@.nulls, data: self@.data }), r@.dt is Timestamp, r@.dt->Timestamp_0 == self@.dt->Timestamp_0, r@.dt->Timestamp_1 is Some == z is Some, z matches Some(t) ==> r@.dt->Timestamp_1->0@ == t@ { unimplemented!() }
}
impl<T: ByteViewType> GenericByteViewArray<T> {
    #[verifier::external_body]
    pub fn new_unchecked(views: ScalarBuffer<u128>, data: Vec<Buffer>, nulls: Option<NullBuffer>) -> (r: Self) requires views@.len() % 16 == 0, nfits(nulls, views@.len() / 16)
        ensures built(r@, T::dt(), views@.len() / 16, nulls, AData::Views(views@, bufs(data@))) { unimplemented!() } }
impl<T> ScalarBuffer<T> {
    #[verifier::external_body]
    pub fn from(b: Buffer) -> (r: Self) ensures r@ == b@ { unimplemented!() } }
/// the names of a struct's fields, the arrays in them
pub open spec fn arrays(d: Seq<ArrowRef>) -> Seq<A> { Seq::new(d.len(), |i: int| d[i]@) }
impl ArrowStructArray {
    #[verifier::external_body]
    pub fn try_new(fields: Vec<Arc<AField>>, columns: Vec<ArrowRef>, nulls: Option<NullBuffer>) -> (r: VortexResult<Self>)
        ensures r matches Ok(a) ==> fields@.len() == columns@.len() && nfits(nulls, a@.len) && a@.dt is Struct && a@.dt->Struct_0@.len() == fields@.len() && (forall|i: int| 0 <= i < fields@.len() ==> #[trigger] a@.dt->Struct_0@[i] == *fields@[i]) && built(a@, a@.dt, if columns@.len() == 0 { 0 } else { columns@[0]@.len }, nulls, AData::Rec(arrays(columns@))) && forall|i: int| 0 <= i < columns@.len() ==> (#[trigger] columns@[i])@.len == columns@[0]@.len && columns@[i]@.dt == fields@[i].data_type { unimplemented!() }
    #[verifier::external_body]
    pub fn new_empty_fields(len: usize, nulls: Option<NullBuffer>) -> (r: Self) requires nfits(nulls, len as nat)
        ensures r@.dt is Struct, r@.dt->Struct_0@.len() == 0, built(r@, r@.dt, len as nat, nulls, AData::Rec(Seq::empty())) { unimplemented!() } }
#[verifier::external_body]
pub fn same_dt(t: &DataType) -> (r: DataType) ensures r == *t { unimplemented!() }
// ---- vortex columns in their canonical form
/// the canonical form of a column: its values may be laid out in another way (text with offsets as text with views)
pub uninterp spec fn canon(c: Col) -> Col;
pub open spec fn keeps(c: Col) -> bool { canon(c).w == c.w && canon(c).len == c.len }
pub open spec fn temporal_id(c: Col) -> bool { c.w matches W::Ext(Some(i), _, _) && (i == id_time() || i == id_date() || i == id_stamp()) }
/// a column as the constructors of the canonical encodings leave it
pub open spec fn solid(c: Col) -> bool {
    &&& c.valid.len() == c.len
    &&& match c.data {
        Data::Null => c.w == W::Null && c.valid == Seq::new(c.len, |i: int| false),
        Data::Bools(b) => c.w is Bool && b.len() == c.len,
        Data::Prim(p, b) => bytes_fit(p, b, c.len) && (c.w == W::Prim(fbp(p), wn(c.w)) || c.w is Ext),
        Data::Views(v, d) => (c.w is Utf8 || c.w is Binary) && v.len() == c.len * 16,
        Data::Rec(d) => c.w is Struct && c.w->Struct_0 is Some && c.w->Struct_1 is Some && c.w->Struct_0->0.len() == d.len() && c.w->Struct_1->0.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len == c.len && d[i].w == c.w->Struct_1->0[i],
        Data::Text(..) => c.w is Utf8 || c.w is Binary,
    }
}
/// an arrow array holds what a column holds
pub open spec fn holds(a: A, c: Col) -> bool decreases a, 0nat via holds_dec {
    &&& logical(a.dt, wn(c.w)) == c.w && a.len == c.len && known(a.dt)
    &&& c.valid == (if a.dt is Null { Seq::new(a.len, |i: int| false) } else { mask(a.nulls, a.len) })
    &&& match (a.data, c.data) {
        (AData::Null, Data::Null) => true, (AData::Bools(b), Data::Bools(d)) => b == d, (AData::Prim(b), Data::Prim(p, d)) => p == stored(a.dt) && b == d, (AData::Views(v, b), Data::Views(w, d)) => v == w && b == d,
        (AData::Rec(s), Data::Rec(d)) => s.len() == d.len() && holdss(s, d, s.len()), _ => false }
}
pub open spec fn holdss(s: Seq<A>, d: Seq<Col>, n: nat) -> bool decreases s, n via holdss_dec { n == 0 || n > s.len() || (holdss(s, d, (n - 1) as nat) && holds(s[n - 1], canon(d[n - 1]))) }
#[via_fn]
proof fn holds_dec(a: A, c: Col) {}
#[via_fn]
proof fn holdss_dec(s: Seq<A>, d: Seq<Col>, n: nat) { broadcast use vstd::seq::axiom_seq_index_decreases; if n > 0 && n <= s.len() { assert(decreases_to!(s => s[n - 1])); } }
pub proof fn lemma_holdss(s: Seq<A>, d: Seq<Col>, n: nat) requires n <= s.len() ensures holdss(s, d, n) == (forall|i: int| 0 <= i < n ==> holds(#[trigger] s[i], canon(d[i]))) decreases n
{ if n > 0 { lemma_holdss(s, d, (n - 1) as nat); } }
/// the columns that arrow has a type for: dates and times in the unit and of the width that arrow gives them
pub open spec fn width_of(m: M) -> PType { match m { M::Date(u) => if u is D { PType::I32 } else { PType::I64 }, M::Time(u) => if u is S || u is Ms { PType::I32 } else { PType::I64 }, M::Stamp(..) => PType::I64 } }
pub open spec fn temporal_as(c: Col, m: M) -> bool { units_ok(m) && tz_ok(m) && c.w == W::Ext(Some(id_of(m)), Some(bytes(m)), wn(c.w)) && (c.data matches Data::Prim(p, _) && p == width_of(m)) }
/// a struct array with the names of a column's fields, its columns and its rows, holds it
pub proof fn lemma_holds_struct(a: A, c: Col)
    requires solid(c), c.data is Rec, a.dt is Struct, a.data is Rec, a.len == c.len, c.valid == mask(a.nulls, a.len), a.data->Rec_0.len() == c.data->Rec_0.len(), a.dt->Struct_0@.len() == a.data->Rec_0.len(),
        forall|i: int| 0 <= i < a.data->Rec_0.len() ==> holds(#[trigger] a.data->Rec_0[i], canon(c.data->Rec_0[i])) && a.dt->Struct_0@[i].name@ == c.w->Struct_0->0[i] && a.dt->Struct_0@[i].data_type == a.data->Rec_0[i].dt && a.dt->Struct_0@[i].nullable == wn(c.w->Struct_1->0[i]) && keeps(c.data->Rec_0[i]),
    ensures holds(a, c),
{
    let f = a.dt->Struct_0; let s = a.data->Rec_0; let d = c.data->Rec_0;
    lemma_holdss(s, d, s.len()); lemma_logicals(f, f@.len()); lemma_known(f, f@.len());
    assert(fnames(f@) =~= c.w->Struct_0->0) by { assert forall|i: int| 0 <= i < f@.len() implies fnames(f@)[i] == c.w->Struct_0->0[i] by { assert(holds(s[i], canon(d[i]))); } }
    assert(logicals(f, f@.len()) =~= c.w->Struct_1->0) by { assert forall|i: int| 0 <= i < f@.len() implies logicals(f, f@.len())[i] == c.w->Struct_1->0[i] by { assert(holds(s[i], canon(d[i]))); } }
    assert forall|i: int| 0 <= i < f@.len() implies known((#[trigger] f@[i]).data_type) by { assert(holds(s[i], canon(d[i]))); }
}
pub type ArrayRef = ArrowRef;
pub type Fields = Vec<Arc<AField>>;
pub proof fn lemma_nl() ensures forall|d: DType| #![trigger nl(d)] #![trigger wire(d)] nl(d) == wn(wire(d)) {}
pub fn is_u8(p: PType) -> (r: bool) ensures r == (p is U8) { matches!(p, PType::U8) }
pub open spec fn bufs(d: Seq<Buffer>) -> Seq<Seq<u8>> { Seq::new(d.len(), |i: int| d[i]@) }
