@include dtype_api.rs
@include dtype_fb_types.rs
@source vortex-dtype/src/nullability.rs
@item Nullability
#[derive(Copy, Clone)]
@drop Default
@source vortex-dtype/src/ptype.rs
@item PType
#[derive(Copy, Clone)]
@source vortex-dtype/src/extension.rs
@item ExtID
@subst Arc<str> => Str
@item ExtMetadata
@subst Arc<[u8]> => Bytes
@item ExtDType
@source vortex-dtype/src/field.rs
@item Field
@subst String => Str
@source vortex-dtype/src/dtype.rs
@item DType
@item StructDType
@subst FieldNames => Vec<Str>
@subst Arc<[DType]> => Vec<DType>
@source vortex-datetime-dtype/src/unit.rs
@item TimeUnit
#[derive(Copy, Clone)]
@variants TimeUnit
@source vortex-datetime-dtype/src/temporal.rs
@item TemporalMetadata
@subst String => Str
@include dtype_spec.rs
@include arrow_meta.rs
@include arrow_types.rs
@text
use DType::*;
impl StructDType {
    pub fn new(names: Vec<Str>, dtypes: Vec<DType>) -> (r: Self) ensures r.names == names, r.dtypes == dtypes { StructDType { names, dtypes } }
    pub fn names(&self) -> (r: &Vec<Str>) ensures *r == self.names { &self.names }
    pub fn dtypes(&self) -> (r: &Vec<DType>) ensures *r == self.dtypes { &self.dtypes }
}
impl ExtDType {
    pub fn new(id: ExtID, metadata: Option<ExtMetadata>) -> (r: Self) ensures r.id == id, r.metadata == metadata { ExtDType { id, metadata } }
    pub fn id(&self) -> (r: &ExtID) ensures *r == self.id { &self.id }
}
// the identifiers
#[verifier::external_body]
pub fn timestamp_id() -> (r: ExtID) ensures r.0@ == id_stamp() { unimplemented!() }
#[verifier::external_body]
pub fn time_id() -> (r: ExtID) ensures r.0@ == id_time() { unimplemented!() }
#[verifier::external_body]
pub fn date_id() -> (r: ExtID) ensures r.0@ == id_date() { unimplemented!() }
#[verifier::external_body] /* proved: arrow_metadata */
pub fn ext_metadata(value: TemporalMetadata) -> (r: ExtMetadata) requires tz_ok(md(value)) ensures r.0@ == bytes(md(value)) { unimplemented!() }
#[verifier::external_body] /* proved: arrow_metadata */
pub fn temporal_metadata(ext_dtype: &ExtDType) -> (r: VortexResult<TemporalMetadata>)
    requires exists|m: M| says(*ext_dtype, m) && tz_ok(m),
    ensures r is Ok, forall|m: M| #[trigger] says(*ext_dtype, m) && tz_ok(m) ==> md(r->Ok_0) == m,
{ unimplemented!() }
#[verifier::external_body]
pub fn is_temporal_ext_type(id: &ExtID) -> (r: bool) ensures r == (id.0@ == id_time() || id.0@ == id_date() || id.0@ == id_stamp()) { unimplemented!() }
pub fn nullability_of(b: bool) -> (r: Nullability) ensures nb(r) == b { if b { Nullability::Nullable } else { Nullability::NonNullable } }
pub fn same_tz(z: &Option<Str>) -> (r: Option<Str>) ensures r is Some == z is Some, z matches Some(t) ==> r->0@ == t@ { match z { Some(t) => Some(t.clone()), None => None } }
#[verifier::external_body]
pub fn sure<T>(r: VortexResult<T>) -> (t: T) requires r is Ok ensures t == r->Ok_0 { unimplemented!() }
/* proved: dtype */
#[verifier::external_body]
pub fn is_nullable(d: &DType) -> (r: bool) ensures r == nl(*d) { unimplemented!() }
