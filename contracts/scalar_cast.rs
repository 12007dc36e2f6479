/// what converting a value of type `from` to `to` gives
pub open spec fn casted(v: SV, from: W, to: W) -> Option<SV> decreases v, 0nat {
    if v is Null { if null_ok(to) { Some(SV::Null) } else { None } }
    else if as_null(from, true) == as_null(to, true) { Some(v) }
    else { match (v, from, to) {
        (SV::Prim(p), W::Prim(f, _), W::Prim(t, _)) => match read_fb(p, f) { Some(q) => match convert_fb(q, t) { Some(x) => Some(SV::Prim(x)), None => None }, None => None },
        (SV::List(s), W::Struct(_, Some(fd), _), W::Struct(_, Some(td), _)) => if fd.len() != td.len() { None } else { match casted_row(s, fd, td, s.len()) { Some(x) => Some(SV::List(x)), None => None } },
        _ => None,
    } }
}
pub open spec fn casted_row(s: Seq<SV>, f: Seq<W>, t: Seq<W>, n: nat) -> Option<Seq<SV>> decreases s, n {
    if n == 0 { Some(Seq::empty()) } else if n > s.len() || n > f.len() || n > t.len() { None } else { match (casted_row(s, f, t, (n - 1) as nat), casted(s[n - 1], f[n - 1], t[n - 1])) { (Some(r), Some(x)) => Some(r.push(x)), _ => None } }
}
pub open spec fn ptype_fb(t: fb::PType) -> PType { match t { fb::PType::U8 => PType::U8, fb::PType::U16 => PType::U16, fb::PType::U32 => PType::U32, fb::PType::U64 => PType::U64, fb::PType::I8 => PType::I8, fb::PType::I16 => PType::I16, fb::PType::I32 => PType::I32, fb::PType::I64 => PType::I64, fb::PType::F16 => PType::F16, fb::PType::F32 => PType::F32, _ => PType::F64 } }
pub open spec fn read_fb(p: PValue, t: fb::PType) -> Option<PValue> { read_as(p, ptype_fb(t)) }
pub open spec fn convert_fb(p: PValue, t: fb::PType) -> Option<PValue> { convert(p, ptype_fb(t)) }
/// the value of a struct has one part for each field, all the way down
pub open spec fn sized(v: SV, w: W) -> bool decreases v, 0nat { match (v, w) { (SV::List(s), W::Struct(_, Some(d), _)) => s.len() == d.len() && sized_row(s, d, s.len()), _ => true } }
pub open spec fn sized_row(s: Seq<SV>, d: Seq<W>, n: nat) -> bool decreases s, n { n == 0 || n > s.len() || n > d.len() || (sized_row(s, d, (n - 1) as nat) && sized(s[n - 1], d[n - 1])) }
pub proof fn lemma_sized_row(s: Seq<SV>, d: Seq<W>, n: nat, i: int) requires sized_row(s, d, n), n <= s.len(), n <= d.len(), 0 <= i < n ensures sized(s[i], d[i]) decreases n { if i < n - 1 { lemma_sized_row(s, d, (n - 1) as nat, i); } }
/// no list or extension inside
pub open spec fn scoped(w: W) -> bool decreases w, 0nat { match w { W::List(_, _) => false, W::Ext(_, _, _) => false, W::Struct(_, Some(d), _) => scoped_row(d, d.len()), _ => true } }
pub open spec fn scoped_row(d: Seq<W>, n: nat) -> bool decreases d, n { n == 0 || n > d.len() || (scoped_row(d, (n - 1) as nat) && scoped(d[n - 1])) }
pub proof fn lemma_scoped_row(d: Seq<W>, n: nat, i: int) requires scoped_row(d, n), n <= d.len(), 0 <= i < n ensures scoped(d[i]) decreases n { if i < n - 1 { lemma_scoped_row(d, (n - 1) as nat, i); } }
pub proof fn lemma_casted_row_none(s: Seq<SV>, f: Seq<W>, t: Seq<W>, k: nat, n: nat) requires casted_row(s, f, t, k) is None, k <= n ensures casted_row(s, f, t, n) is None decreases n { if k < n { lemma_casted_row_none(s, f, t, k, (n - 1) as nat); } }
/// integers are converted exactly or not at all, null stays null
pub proof fn lemma_cast_exact(p: PValue, from: PType, to: PType, a: bool, b: bool)
    requires ptype_of(p) == from, !is_float(from), !is_float(to),
    ensures casted(SV::Prim(p), W::Prim(fbp(from), a), W::Prim(fbp(to), b)) == (if lo(to) <= int_of(p) <= hi(to) { Some(SV::Prim(int_value(to, int_of(p)))) } else { None }),
        casted(SV::Null, W::Prim(fbp(from), a), W::Prim(fbp(to), true)) == Some(SV::Null), casted(SV::Null, W::Prim(fbp(from), a), W::Prim(fbp(to), false)) is None,
        lo(to) <= int_of(p) <= hi(to) ==> int_of(int_value(to, int_of(p))) == int_of(p) && ptype_of(int_value(to, int_of(p))) == to,
{}
/// a value of its type is still of its type after a conversion that keeps the type
pub proof fn lemma_cast_fits(p: PValue, from: PType, to: W) requires ptype_of(p) == from, to is Prim, !is_float(from), !is_float(ptype_fb(to->Prim_0)), fbp(ptype_fb(to->Prim_0)) == to->Prim_0 ensures casted(SV::Prim(p), W::Prim(fbp(from), false), to) matches Some(x) ==> fits(x, to) {}
pub fn as_primitive_value(o: Option<PValue>) -> (r: Option<ScalarValue>) ensures r is Some <==> o is Some, r matches Some(v) ==> sv(v) == SV::Prim(o->0) { match o { Some(p) => Some(ScalarValue::Primitive(p)), None => None } }
impl StructDType {
    pub open spec fn snames(&self) -> Seq<Seq<u8>> { texts(self.names@) }
    pub open spec fn inv(&self) -> bool { self.names@.len() == self.dtypes@.len() }
    pub open spec fn picked(&self, f: Seq<Field>, r: StructDType) -> bool {
        r.inv() && r.names@.len() == f.len() && forall|k: int| 0 <= k < f.len() ==> #[trigger] r.names@[k]@ == self.snames()[sel(self.snames(), f[k])->0] && wire(r.dtypes@[k]) == wire(self.dtypes@[sel(self.snames(), f[k])->0])
    }
    #[verifier::external_body] /* proved: dtype_fields */
    pub fn project(&self, projection: &[Field]) -> (r: VortexResult<Self>) requires self.inv() ensures r is Ok <==> sels(self.snames(), projection@), r matches Ok(s) ==> self.picked(projection@, s) { unimplemented!() }
    #[verifier::external_body] /* proved: dtype_fields */
    pub fn find_name(&self, name: &Str) -> (r: Option<usize>) ensures (match r { Some(i) => Some(i as int), None => None }) == first(self.snames(), name@), r matches Some(i) ==> i < self.names@.len() { unimplemented!() }
}
impl PValue {
    #[verifier::external_body] /* proved: scalar_pvalue */
    pub fn reinterpret_cast(&self, ptype: PType) -> (r: Self)
        requires width(ptype) == width(ptype_of(*self)), is_float(ptype) ==> ptype_of(*self) == ptype || !is_float(ptype_of(*self)),
        ensures ptype_of(r) == ptype, bits(r) == bits(*self) { unimplemented!() }
}
impl PType {
    #[verifier::external_body] /* proved: scalar_pvalue */
    pub fn byte_width(&self) -> (r: usize) ensures r == width(*self) { unimplemented!() }
}
