#[verifier::external_body]
pub fn same_value(v: &ScalarValue) -> (r: ScalarValue) ensures sv(r) == sv(*v) { unimplemented!() }
#[verifier::external_body]
pub fn same_type(a: &DType, b: &DType) -> (r: bool) ensures r == (wire(*a) == wire(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn derived_order(a: &ScalarValue, b: &ScalarValue) -> (r: Option<Ordering>) ensures r == sv_order(sv(*a), sv(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn derived_equal(a: &ScalarValue, b: &ScalarValue) -> (r: bool) ensures r == (sv(*a) == sv(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn same_text(a: &Str) -> (r: Str) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn same_bytes(a: &Bytes) -> (r: Bytes) ensures r@ == a@ { unimplemented!() }
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn text_of(a: Bytes) -> (r: VortexResult<Str>) ensures r is Ok <==> utf8(a@), r matches Ok(s) ==> s@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn same_fields(a: &StructDType) -> (r: StructDType) ensures texts(r.names@) == texts(a.names@), wires(r.dtypes, r.dtypes@.len()) == wires(a.dtypes, a.dtypes@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn same_ext(a: &ExtDType) -> (r: ExtDType) ensures wire(DType::Extension(r, Nullability::Nullable)) == wire(DType::Extension(*a, Nullability::Nullable)) { unimplemented!() }
pub fn same_elem(a: &Arc<DType>) -> (r: Arc<DType>) ensures wire(*r) == wire(**a) { Arc::new(same_dtype(&**a)) }
pub open spec fn wire_elem(d: &Arc<DType>) -> W { wire(**d) }
pub proof fn lemma_parts(v: ScalarValue, d: DType)
    ensures v matches ScalarValue::List(l) ==> sv(v)->List_0.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> #[trigger] sv(v)->List_0[i] == sv(l@[i]),
        d matches DType::Struct(s, _) ==> wire(d)->Struct_1->0.len() == s.dtypes@.len() && forall|i: int| 0 <= i < s.dtypes@.len() ==> #[trigger] wire(d)->Struct_1->0[i] == wire(s.dtypes@[i]),
{ if let ScalarValue::List(l) = v { lemma_svs(l, l@.len()); } if let DType::Struct(st, _) = d { lemma_wires(st.dtypes, st.dtypes@.len()); } }
#[verifier::external_body]
pub fn map_or_own<T: Nat>(r: VortexResult<T>, p: PValue) -> (q: PValue) ensures q == match r { Ok(x) => x.pv(), Err(_) => p } { unimplemented!() }
pub open spec fn vals(v: Seq<ScalarValue>) -> Seq<SV> { Seq::new(v.len(), |i: int| sv(v[i])) }
pub proof fn lemma_vals(v: Vec<ScalarValue>) ensures svs(v, v@.len()) =~= vals(v@) { lemma_svs(v, v@.len()); }
pub fn expected<T>(o: Option<T>) -> (x: T) requires o is Some ensures o == Some(x) { match o { Some(x) => x, None => vpanic() } }
