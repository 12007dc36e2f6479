// ---- what an array holds, in each of the two libraries
pub enum Data { Null, Bools(Seq<bool>), Prim(PType, Seq<u8>), Text(PType, Seq<u8>, Seq<u8>), Views(Seq<u8>, Seq<Seq<u8>>), Rec(Seq<Col>) }
/// a vortex column: its type (see `wire`), its length, the rows that have a value, the values
pub struct Col { pub w: W, pub len: nat, pub valid: Seq<bool>, pub data: Data }
pub enum AData { Null, Bools(Seq<bool>), Prim(Seq<u8>), Text(Seq<u8>, Seq<u8>), Views(Seq<u8>, Seq<Seq<u8>>), Rec(Seq<A>) }
/// an arrow array: a slice is an array like any other, its buffers those of the slice
pub struct A { pub dt: DataType, pub len: nat, pub nulls: Option<Seq<bool>>, pub data: AData }
pub open spec fn mask(nulls: Option<Seq<bool>>, len: nat) -> Seq<bool> { match nulls { Some(b) => b, None => Seq::new(len, |i: int| true) } }
pub open spec fn width(p: PType) -> int { match p { PType::U8 | PType::I8 => 1, PType::U16 | PType::I16 | PType::F16 => 2, PType::U32 | PType::I32 | PType::F32 => 4, _ => 8 } }
/// the numbers an arrow type of fixed width is stored as
pub open spec fn stored(t: DataType) -> PType { match num(t) { Some(p) => p, None => if t is Date32 || t is Time32 { PType::I32 } else { PType::I64 } } }
pub open spec fn offsets_of(t: DataType) -> PType { if t is LargeUtf8 || t is LargeBinary { PType::I64 } else { PType::I32 } }
/// the vortex column that holds what an arrow array holds
pub open spec fn carried(a: A, n: bool) -> Col decreases a, 0nat via carried_dec {
    Col { w: logical(a.dt, n), len: a.len, valid: if a.dt is Null { Seq::new(a.len, |i: int| false) } else { mask(a.nulls, a.len) },
        data: match a.data { AData::Null => Data::Null, AData::Bools(b) => Data::Bools(b), AData::Prim(b) => Data::Prim(stored(a.dt), b), AData::Text(o, b) => Data::Text(offsets_of(a.dt), o, b), AData::Views(v, b) => Data::Views(v, b),
            AData::Rec(c) => Data::Rec(carrieds(c, a.dt->Struct_0@, c.len())) } }
}
pub open spec fn carrieds(c: Seq<A>, f: Seq<AField>, n: nat) -> Seq<Col> decreases c, n via carrieds_dec { if n == 0 || n > c.len() { Seq::empty() } else { carrieds(c, f, (n - 1) as nat).push(carried(c[n - 1], f[n - 1].nullable)) } }
#[via_fn]
proof fn carried_dec(a: A, n: bool) {}
#[via_fn]
proof fn carrieds_dec(c: Seq<A>, f: Seq<AField>, n: nat) { broadcast use vstd::seq::axiom_seq_index_decreases; if n > 0 && n <= c.len() { assert(decreases_to!(c => c[n - 1])); } }
pub proof fn lemma_carrieds(c: Seq<A>, f: Seq<AField>, n: nat) requires n <= c.len() ensures carrieds(c, f, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] carrieds(c, f, n)[i] == carried(c[i], f[i].nullable) decreases n
{ if n > 0 { lemma_carrieds(c, f, (n - 1) as nat); } }
/// an arrow array as arrow's own constructors leave it, in a field that may (n) or may not hold nulls
/// times of day are 32 bits wide when coarse and 64 when fine
pub open spec fn legal(t: DataType) -> bool { match t { DataType::Time32(u) => u is Second || u is Millisecond, DataType::Time64(u) => u is Microsecond || u is Nanosecond, _ => true } }
pub open spec fn shaped(a: A) -> bool {
    match a.data {
        AData::Null => a.dt is Null, AData::Bools(b) => a.dt is Boolean && b.len() == a.len, AData::Prim(b) => (num(a.dt) is Some || temporal(a.dt)) && legal(a.dt) && b.len() == a.len * width(stored(a.dt)),
        AData::Text(o, _) => (a.dt is Utf8 || a.dt is LargeUtf8 || a.dt is Binary || a.dt is LargeBinary) && o.len() == (a.len + 1) * width(offsets_of(a.dt)), AData::Views(v, _) => (a.dt is Utf8View || a.dt is BinaryView) && v.len() == a.len * 16,
        AData::Rec(c) => a.dt is Struct && c.len() == a.dt->Struct_0@.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len == a.len && c[i].dt == a.dt->Struct_0@[i].data_type,
    }
}
pub open spec fn wf(a: A, n: bool) -> bool decreases a, 0nat via wf_dec {
    &&& known(a.dt) && shaped(a) && (a.nulls matches Some(b) ==> b.len() == a.len)
    // a column of nulls is nullable, and a field that may not hold nulls holds none
    &&& (if a.dt is Null { n && a.nulls is None } else { !n ==> (a.nulls matches Some(b) ==> forall|i: int| 0 <= i < b.len() ==> b[i]) })
    &&& (a.data matches AData::Rec(c) ==> wfs(c, a.dt->Struct_0@, c.len()))
}
pub open spec fn wfs(c: Seq<A>, f: Seq<AField>, n: nat) -> bool decreases c, n via wfs_dec { n == 0 || n > c.len() || (wfs(c, f, (n - 1) as nat) && wf(c[n - 1], f[n - 1].nullable)) }
#[via_fn]
proof fn wf_dec(a: A, n: bool) {}
#[via_fn]
proof fn wfs_dec(c: Seq<A>, f: Seq<AField>, n: nat) { broadcast use vstd::seq::axiom_seq_index_decreases; if n > 0 && n <= c.len() { assert(decreases_to!(c => c[n - 1])); } }
pub proof fn lemma_wfs(c: Seq<A>, f: Seq<AField>, n: nat) requires n <= c.len() ensures wfs(c, f, n) == (forall|i: int| 0 <= i < n ==> wf(#[trigger] c[i], f[i].nullable)) decreases n
{ if n > 0 { lemma_wfs(c, f, (n - 1) as nat); } }
// ---- buffers
#[verifier::external_body]
pub struct Buffer { p: usize }
impl Buffer { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Buffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_arrow(self) -> (r: Buffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
#[verifier::external_body]
pub struct BooleanBuffer { p: usize }
impl BooleanBuffer { pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: BooleanBuffer) ensures r@ == self@ { unimplemented!() } }
pub open spec fn falses(b: Seq<bool>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { falses(b.drop_last()) + (if b.last() { 0nat } else { 1nat }) } }
pub proof fn lemma_falses(b: Seq<bool>) ensures falses(b) <= b.len(), falses(b) == b.len() ==> (forall|i: int| 0 <= i < b.len() ==> !b[i]), (falses(b) == 0) == (forall|i: int| 0 <= i < b.len() ==> b[i]) decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last(); lemma_falses(d);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == b[i] by {}
        if falses(b) == b.len() { assert forall|i: int| 0 <= i < b.len() implies !b[i] by { if i < d.len() { assert(!d[i]); } } }
        if falses(b) == 0 { assert forall|i: int| 0 <= i < b.len() implies b[i] by { if i < d.len() { assert(d[i]); } } }
        if forall|i: int| 0 <= i < b.len() ==> b[i] { assert(b.last()); }
    }
}
#[verifier::external_body]
pub struct NullBuffer { p: usize }
impl NullBuffer {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn null_count(&self) -> (r: usize) ensures r == falses(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn inner(&self) -> (r: &BooleanBuffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new(b: BooleanBuffer) -> (r: NullBuffer) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new_null(n: usize) -> (r: NullBuffer) ensures r@ == Seq::new(n as nat, |i: int| false) { unimplemented!() }
}
// ---- vortex arrays
#[verifier::external_body]
pub struct Array { p: usize }
impl Array { pub uninterp spec fn view(&self) -> Col;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Array) ensures r@ == self@ { unimplemented!() } }
pub open spec fn vfits(v: Validity, n: nat) -> bool { v matches Validity::Array(a) ==> a@.len == n && a@.valid == mask(None, n) && (a@.data matches Data::Bools(b) && b.len() == n) }
pub open spec fn valids(v: Validity, n: nat) -> Seq<bool> { match v { Validity::NonNullable | Validity::AllValid => Seq::new(n, |i: int| true), Validity::AllInvalid => Seq::new(n, |i: int| false), Validity::Array(a) => a@.data->Bools_0 } }
pub open spec fn nullable_v(v: Validity) -> bool { !(v is NonNullable) }
/// an array of some encoding
pub trait Typed: Sized { spec fn view(&self) -> Col; fn into_array(self) -> (r: Array) ensures r@ == self.view(); }
