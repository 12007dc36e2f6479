// the arrow crates' types, as their documentation gives them
pub enum ArrowTimeUnit { Second, Millisecond, Microsecond, Nanosecond }
pub enum DataType {
    Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Float16, Float32, Float64,
    Timestamp(ArrowTimeUnit, Option<Str>), Date32, Date64, Time32(ArrowTimeUnit), Time64(ArrowTimeUnit), Duration(ArrowTimeUnit), Interval(u8),
    Binary, FixedSizeBinary(i32), LargeBinary, BinaryView, Utf8, LargeUtf8, Utf8View,
    List(Box<AField>), LargeList(Box<AField>), Struct(Vec<AField>), Other(u8),
}
pub struct AField { pub name: Str, pub data_type: DataType, pub nullable: bool }
impl AField {
    pub fn new(name: Str, data_type: DataType, nullable: bool) -> (r: AField) ensures r.name == name, r.data_type == data_type, r.nullable == nullable { AField { name, data_type, nullable } }
    pub fn name(&self) -> (r: &Str) ensures *r == self.name { &self.name }
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self.data_type { &self.data_type }
    pub fn is_nullable(&self) -> (r: bool) ensures r == self.nullable { self.nullable }
    pub fn as_ref(&self) -> (r: &AField) ensures *r == *self { self }
}
pub struct Schema { pub fields: Vec<AField> }
impl Schema { pub fn fields(&self) -> (r: &Vec<AField>) ensures *r == self.fields { &self.fields } }
pub struct SchemaBuilder { pub fields: Vec<AField> }
impl SchemaBuilder {
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.fields@.len() == 0 { SchemaBuilder { fields: Vec::new() } }
    pub fn push(&mut self, f: AField) ensures final(self).fields@ == old(self).fields@.push(f) { self.fields.push(f); }
    pub fn finish(self) -> (r: Schema) ensures r.fields@ == self.fields@ { Schema { fields: self.fields } }
}
impl DataType {
    pub fn is_temporal(&self) -> (r: bool) ensures r == temporal(*self) || *self is Duration || *self is Interval { matches!(self, DataType::Date32 | DataType::Date64 | DataType::Timestamp(..) | DataType::Time32(_) | DataType::Time64(_) | DataType::Duration(_) | DataType::Interval(_)) }
}
pub open spec fn temporal(t: DataType) -> bool { t is Date32 || t is Date64 || t is Timestamp || t is Time32 || t is Time64 }
pub open spec fn tu(u: ArrowTimeUnit) -> TimeUnit { match u { ArrowTimeUnit::Second => TimeUnit::S, ArrowTimeUnit::Millisecond => TimeUnit::Ms, ArrowTimeUnit::Microsecond => TimeUnit::Us, ArrowTimeUnit::Nanosecond => TimeUnit::Ns } }
/// what an Arrow type says of time
pub open spec fn am(t: DataType) -> M {
    match t { DataType::Timestamp(u, None) => M::Stamp(tu(u), None), DataType::Timestamp(u, Some(z)) => M::Stamp(tu(u), Some(z@)), DataType::Time32(u) | DataType::Time64(u) => M::Time(tu(u)), DataType::Date32 => M::Date(TimeUnit::D), _ => M::Date(TimeUnit::Ms) }
}
/// the units a type of that kind can have
pub open spec fn units_ok(m: M) -> bool { match m { M::Date(u) => u is D || u is Ms, M::Time(u) => !(u is D), M::Stamp(u, _) => !(u is D) } }
pub open spec fn num(t: DataType) -> Option<PType> {
    match t { DataType::Int8 => Some(PType::I8), DataType::Int16 => Some(PType::I16), DataType::Int32 => Some(PType::I32), DataType::Int64 => Some(PType::I64), DataType::UInt8 => Some(PType::U8), DataType::UInt16 => Some(PType::U16), DataType::UInt32 => Some(PType::U32), DataType::UInt64 => Some(PType::U64), DataType::Float16 => Some(PType::F16), DataType::Float32 => Some(PType::F32), DataType::Float64 => Some(PType::F64), _ => None }
}
/// the types that have a logical type
pub open spec fn known(t: DataType) -> bool decreases t, 0nat via known_dec {
    num(t) is Some || t is Null || t is Boolean || t is Utf8 || t is LargeUtf8 || t is Utf8View || t is Binary || t is LargeBinary || t is BinaryView || (temporal(t) && tz_ok(am(t)))
    || (match t { DataType::List(e) => known(e.data_type), DataType::LargeList(e) => known(e.data_type), DataType::Struct(f) => all_known(f, f@.len()), _ => false })
}
pub open spec fn all_known(v: Vec<AField>, n: nat) -> bool decreases v, n via all_known_dec { n == 0 || n > v@.len() || (all_known(v, (n - 1) as nat) && known(v[n - 1].data_type)) }
#[via_fn]
proof fn known_dec(t: DataType) {}
#[via_fn]
proof fn all_known_dec(v: Vec<AField>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
/// the logical type of an Arrow type, as it is written down (see `wire`)
pub open spec fn logical(t: DataType, n: bool) -> W decreases t, 0nat via logical_dec {
    match t {
        DataType::Null => W::Null, DataType::Boolean => W::Bool(n), DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View => W::Utf8(n), DataType::Binary | DataType::LargeBinary | DataType::BinaryView => W::Binary(n),
        DataType::List(e) => W::List(Some(Box::new(logical(e.data_type, e.nullable))), n), DataType::LargeList(e) => W::List(Some(Box::new(logical(e.data_type, e.nullable))), n),
        DataType::Struct(f) => W::Struct(Some(fnames(f@)), Some(logicals(f, f@.len())), n),
        _ => match num(t) { Some(p) => W::Prim(fbp(p), n), None => if temporal(t) { W::Ext(Some(id_of(am(t))), Some(bytes(am(t))), n) } else { W::Broken } },
    }
}
pub open spec fn fnames(v: Seq<AField>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].name@) }
pub open spec fn logicals(v: Vec<AField>, n: nat) -> Seq<W> decreases v, n via logicals_dec
{ if n == 0 || n > v@.len() { Seq::empty() } else { logicals(v, (n - 1) as nat).push(logical(v[n - 1].data_type, v[n - 1].nullable)) } }
#[via_fn]
proof fn logical_dec(t: DataType, n: bool) {}
#[via_fn]
proof fn logicals_dec(v: Vec<AField>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
pub proof fn lemma_logicals(v: Vec<AField>, n: nat) requires n <= v@.len() ensures logicals(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] logicals(v, n)[i] == logical(v@[i].data_type, v@[i].nullable) decreases n
{ if n > 0 { lemma_logicals(v, (n - 1) as nat); } }
pub proof fn lemma_known(v: Vec<AField>, n: nat) requires n <= v@.len() ensures all_known(v, n) == (forall|i: int| 0 <= i < n ==> known((#[trigger] v@[i]).data_type)) decreases n
{ if n > 0 { lemma_known(v, (n - 1) as nat); assert(v[n - 1] == v@[n - 1]); } }
pub open spec fn nl(d: DType) -> bool { match d { DType::Null => true, DType::Bool(n) | DType::Primitive(_, n) | DType::Utf8(n) | DType::Binary(n) | DType::Struct(_, n) | DType::List(_, n) | DType::Extension(_, n) => nb(n) } }
/// a type Arrow can hold: temporal metadata as it is written, no lists
pub open spec fn sound_ext(e: ExtDType) -> bool { (e.id.0@ == id_time() || e.id.0@ == id_date() || e.id.0@ == id_stamp()) ==> exists|m: M| says(e, m) && tz_ok(m) && units_ok(m) }
pub open spec fn sound(d: DType) -> bool decreases d, 0nat via sound_dec { match d { DType::Extension(e, _) => sound_ext(e), DType::Struct(s, _) => s.names@.len() == s.dtypes@.len() && all_sound(s.dtypes, s.dtypes@.len()), _ => true } }
pub open spec fn all_sound(v: Vec<DType>, n: nat) -> bool decreases v, n via all_sound_dec { n == 0 || n > v@.len() || (all_sound(v, (n - 1) as nat) && sound(v[n - 1])) }
#[via_fn]
proof fn sound_dec(d: DType) {}
#[via_fn]
proof fn all_sound_dec(v: Vec<DType>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
pub proof fn lemma_sound(v: Vec<DType>, n: nat) requires n <= v@.len() ensures all_sound(v, n) == (forall|i: int| 0 <= i < n ==> sound(#[trigger] v@[i])) decreases n
{ if n > 0 { lemma_sound(v, (n - 1) as nat); assert(v[n - 1] == v@[n - 1]); } }
/// the struct type with those fields
pub open spec fn made(f: Vec<AField>, s: StructDType) -> bool {
    s.names@.len() == f@.len() && s.dtypes@.len() == f@.len() && (forall|i: int| 0 <= i < f@.len() ==> (#[trigger] s.names@[i])@ == f@[i].name@) && (forall|i: int| 0 <= i < f@.len() ==> wire(#[trigger] s.dtypes@[i]) == logical(f@[i].data_type, f@[i].nullable))
}
pub proof fn lemma_made()
    ensures forall|f: Vec<AField>, s: StructDType, n: Nullability| made(f, s) ==> #[trigger] wire(DType::Struct(s, n)) == W::Struct(Some(fnames(f@)), Some(#[trigger] logicals(f, f@.len())), nb(n)),
        forall|f: Vec<AField>| (forall|i: int| 0 <= i < f@.len() ==> known((#[trigger] f@[i]).data_type)) ==> #[trigger] all_known(f, f@.len()),
        forall|f: Vec<AField>| (forall|i: int| 0 <= i < f@.len() ==> known((#[trigger] f@[i]).data_type)) ==> #[trigger] known(DataType::Struct(f)),
        forall|f: Vec<AField>, s: StructDType, n: Nullability, m: bool| made(f, s) && m == nb(n) ==> #[trigger] wire(DType::Struct(s, n)) == #[trigger] logical(DataType::Struct(f), m),
{
    assert forall|f: Vec<AField>, s: StructDType, n: Nullability| made(f, s) implies #[trigger] wire(DType::Struct(s, n)) == W::Struct(Some(fnames(f@)), Some(#[trigger] logicals(f, f@.len())), nb(n)) by {
        lemma_logicals(f, f@.len()); lemma_wires(s.dtypes, s.dtypes@.len());
        assert(wires(s.dtypes, s.dtypes@.len()) =~= logicals(f, f@.len()));
        assert(texts(s.names@) =~= fnames(f@));
    }
    assert forall|f: Vec<AField>| (forall|i: int| 0 <= i < f@.len() ==> known((#[trigger] f@[i]).data_type)) implies #[trigger] known(DataType::Struct(f)) by { lemma_known(f, f@.len()); assert(all_known(f, f@.len())); }
    assert forall|f: Vec<AField>, s: StructDType, n: Nullability, m: bool| made(f, s) && m == nb(n) implies #[trigger] wire(DType::Struct(s, n)) == #[trigger] logical(DataType::Struct(f), m) by { assert(logicals(f, f@.len()) == logicals(f, f@.len())); }
    assert forall|f: Vec<AField>| (forall|i: int| 0 <= i < f@.len() ==> known((#[trigger] f@[i]).data_type)) implies #[trigger] all_known(f, f@.len()) by { lemma_known(f, f@.len()); }
}
