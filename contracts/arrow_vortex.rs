#[verifier::external_body]
pub struct PrimitiveArray { p: usize }
impl PrimitiveArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for PrimitiveArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
#[verifier::external_body]
pub struct BoolArray { p: usize }
impl BoolArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for BoolArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
#[verifier::external_body]
pub struct VarBinArray { p: usize }
impl VarBinArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for VarBinArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
#[verifier::external_body]
pub struct VarBinViewArray { p: usize }
impl VarBinViewArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for VarBinViewArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
#[verifier::external_body]
pub struct StructArray { p: usize }
impl StructArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for StructArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
#[verifier::external_body]
pub struct NullArray { p: usize }
impl NullArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for NullArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
#[verifier::external_body]
pub struct ExtensionArray { p: usize }
impl ExtensionArray { pub uninterp spec fn col(&self) -> Col; }
impl Typed for ExtensionArray { open spec fn view(&self) -> Col { self.col() }
    #[verifier::external_body]
    fn into_array(self) -> (r: Array) { unimplemented!() } }
pub open spec fn bytes_fit(p: PType, b: Seq<u8>, n: nat) -> bool { b.len() == n * width(p) }
impl PrimitiveArray {
    #[verifier::external_body]
    pub fn new(b: Buffer, p: PType, v: Validity) -> (r: Self) requires exists|n: nat| #[trigger] bytes_fit(p, b@, n) && vfits(v, n)
        ensures forall|n: nat| #[trigger] bytes_fit(p, b@, n) ==> r.col() == (Col { w: W::Prim(fbp(p), nullable_v(v)), len: n, valid: valids(v, n), data: Data::Prim(p, b@) }) { unimplemented!() }
}
impl BoolArray {
    #[verifier::external_body]
    pub fn try_new(b: BooleanBuffer, v: Validity) -> (r: VortexResult<Self>) ensures vfits(v, b@.len()) ==> r is Ok, r matches Ok(a) ==> a.col() == (Col { w: W::Bool(nullable_v(v)), len: b@.len(), valid: valids(v, b@.len()), data: Data::Bools(b@) }) { unimplemented!() }
}
pub open spec fn ints(c: Col) -> bool { c.data is Prim && c.valid == mask(None, c.len) && (match c.w { W::Prim(_, n) => !n, _ => false }) && bytes_fit(c.data->Prim_0, c.data->Prim_1, c.len) && c.w == W::Prim(fbp(c.data->Prim_0), false) }
impl VarBinArray {
    #[verifier::external_body]
    pub fn try_new(offsets: Array, bytes: Array, dtype: DType, v: Validity) -> (r: VortexResult<Self>)
        ensures ints(offsets@) && (offsets@.data->Prim_0 is I32 || offsets@.data->Prim_0 is I64) && ints(bytes@) && bytes@.data->Prim_0 is U8 && offsets@.len > 0 && (dtype is Utf8 || dtype is Binary) && nl(dtype) == nullable_v(v) && vfits(v, (offsets@.len - 1) as nat) ==> r is Ok,
            r matches Ok(a) ==> a.col() == (Col { w: wire(dtype), len: (offsets@.len - 1) as nat, valid: valids(v, (offsets@.len - 1) as nat), data: Data::Text(offsets@.data->Prim_0, offsets@.data->Prim_1, bytes@.data->Prim_1) }) { unimplemented!() }
}
pub open spec fn blobs(d: Seq<Array>) -> Seq<Seq<u8>> { Seq::new(d.len(), |i: int| d[i]@.data->Prim_1) }
impl VarBinViewArray {
    #[verifier::external_body]
    pub fn try_new(views: Array, data: Vec<Array>, dtype: DType, v: Validity) -> (r: VortexResult<Self>)
        ensures ints(views@) && views@.data->Prim_0 is U8 && views@.len % 16 == 0 && (forall|i: int| 0 <= i < data@.len() ==> ints((#[trigger] data@[i])@) && data@[i]@.data->Prim_0 is U8) && (dtype is Utf8 || dtype is Binary) && nl(dtype) == nullable_v(v) && vfits(v, views@.len / 16) ==> r is Ok,
            r matches Ok(a) ==> a.col() == (Col { w: wire(dtype), len: views@.len / 16, valid: valids(v, views@.len / 16), data: Data::Views(views@.data->Prim_1, blobs(data@)) }) { unimplemented!() }
}
pub open spec fn cols(d: Seq<Array>) -> Seq<Col> { Seq::new(d.len(), |i: int| d[i]@) }
pub open spec fn types(d: Seq<Array>) -> Seq<W> { Seq::new(d.len(), |i: int| d[i]@.w) }
impl StructArray {
    #[verifier::external_body]
    pub fn try_new(names: Vec<Str>, fields: Vec<Array>, length: usize, v: Validity) -> (r: VortexResult<Self>)
        ensures names@.len() == fields@.len() && (forall|i: int| 0 <= i < fields@.len() ==> (#[trigger] fields@[i])@.len == length) && vfits(v, length as nat) ==> r is Ok,
            r matches Ok(a) ==> a.col() == (Col { w: W::Struct(Some(texts(names@)), Some(types(fields@)), nullable_v(v)), len: length as nat, valid: valids(v, length as nat), data: Data::Rec(cols(fields@)) }) { unimplemented!() }
}
impl NullArray {
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures r.col() == (Col { w: W::Null, len: n as nat, valid: Seq::new(n as nat, |i: int| false), data: Data::Null }) { unimplemented!() }
}
impl ExtensionArray {
    #[verifier::external_body]
    pub fn new(e: ExtDType, storage: Array) -> (r: Self)
        ensures r.col() == (Col { w: W::Ext(Some(e.id.0@), match e.metadata { Some(m) => Some(m.0@), None => None }, wn(storage@.w)), len: storage@.len, valid: storage@.valid, data: storage@.data }) { unimplemented!() }
}
/// the nullability written down in a type
pub open spec fn wn(w: W) -> bool { match w { W::Null => true, W::Bool(n) | W::Prim(_, n) | W::Utf8(n) | W::Binary(n) | W::Struct(_, _, n) | W::List(_, n) | W::Ext(_, _, n) => n, W::Broken => false } }
pub proof fn lemma_same(a: nat, b: nat, w: int) requires w > 0, a * w == b * w ensures a == b { assert(a == b) by (nonlinear_arith) requires w > 0, a * w == b * w; }
/// a struct array with the names, the columns and the rows of an arrow one is the one it carries
pub proof fn lemma_struct_col(a: A, n: bool)
    requires a.dt is Struct, shaped(a),
    ensures forall|names: Seq<Str>, d: Seq<Array>| (names.len() == d.len() && d.len() == a.data->Rec_0.len() && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] names[i])@ == a.dt->Struct_0@[i].name@) && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i])@ == carried(a.data->Rec_0[i], a.dt->Struct_0@[i].nullable)))
        ==> (Col { w: W::Struct(Some(#[trigger] texts(names)), Some(#[trigger] types(d)), n), len: a.len, valid: mask(a.nulls, a.len), data: Data::Rec(cols(d)) }) == carried(a, n),
{
    assert forall|names: Seq<Str>, d: Seq<Array>| (names.len() == d.len() && d.len() == a.data->Rec_0.len() && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] names[i])@ == a.dt->Struct_0@[i].name@) && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i])@ == carried(a.data->Rec_0[i], a.dt->Struct_0@[i].nullable)))
        implies (Col { w: W::Struct(Some(#[trigger] texts(names)), Some(#[trigger] types(d)), n), len: a.len, valid: mask(a.nulls, a.len), data: Data::Rec(cols(d)) }) == carried(a, n) by {
        let f = a.dt->Struct_0; let c = a.data->Rec_0;
        lemma_logicals(f, f@.len()); lemma_carrieds(c, f@, c.len());
        assert(texts(names) =~= fnames(f@));
        assert(types(d) =~= logicals(f, f@.len())) by { assert forall|i: int| 0 <= i < d.len() implies types(d)[i] == logicals(f, f@.len())[i] by { lemma_w(c[i], f@[i].nullable); } }
        assert(cols(d) =~= carrieds(c, f@, c.len()));
    }
}
pub proof fn lemma_w(a: A, n: bool) ensures carried(a, n).w == logical(a.dt, n), carried(a, n).len == a.len {}
