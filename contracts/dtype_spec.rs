pub open spec fn nb(n: Nullability) -> bool { n is Nullable }
pub open spec fn fbp(p: PType) -> fb::PType { match p { PType::U8 => fb::PType::U8, PType::U16 => fb::PType::U16, PType::U32 => fb::PType::U32, PType::U64 => fb::PType::U64, PType::I8 => fb::PType::I8, PType::I16 => fb::PType::I16, PType::I32 => fb::PType::I32, PType::I64 => fb::PType::I64, PType::F16 => fb::PType::F16, PType::F32 => fb::PType::F32, PType::F64 => fb::PType::F64 } }
/// every part of a type, written down: two types with one wire form are one type
pub open spec fn wire(d: DType) -> W decreases d, 0nat via wire_dec {
    match d {
        DType::Null => W::Null, DType::Bool(n) => W::Bool(nb(n)), DType::Primitive(p, n) => W::Prim(fbp(p), nb(n)), DType::Utf8(n) => W::Utf8(nb(n)), DType::Binary(n) => W::Binary(nb(n)),
        DType::Struct(s, n) => W::Struct(Some(texts(s.names@)), Some(wires(s.dtypes, s.dtypes@.len())), nb(n)),
        DType::List(e, n) => W::List(Some(Box::new(wire(*e))), nb(n)),
        DType::Extension(e, n) => W::Ext(Some(e.id.0@), match e.metadata { Some(m) => Some(m.0@), None => None }, nb(n)),
    }
}
pub open spec fn wires(v: Vec<DType>, n: nat) -> Seq<W> decreases v, n via wires_dec
{ if n == 0 || n > v@.len() { Seq::empty() } else { wires(v, (n - 1) as nat).push(wire(v[n - 1])) } }
#[via_fn]
proof fn wire_dec(d: DType) {}
#[via_fn]
proof fn wires_dec(v: Vec<DType>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
pub proof fn lemma_wires(v: Vec<DType>, n: nat) requires n <= v@.len() ensures wires(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] wires(v, n)[i] == wire(v@[i]) decreases n
{ if n > 0 { lemma_wires(v, (n - 1) as nat); } }
/// the field a reference names
pub open spec fn sel(names: Seq<Seq<u8>>, f: Field) -> Option<int> { match f { Field::Name(n) => first(names, n@), Field::Index(i) => if i < names.len() { Some(i as int) } else { None } } }
pub open spec fn sels(names: Seq<Seq<u8>>, f: Seq<Field>) -> bool { forall|k: int| 0 <= k < f.len() ==> sel(names, #[trigger] f[k]) is Some }
#[verifier::external_body]
pub fn same_dtype(d: &DType) -> (r: DType) ensures wire(r) == wire(*d), r is Struct ==> (*d is Struct && r->Struct_0.names@.len() == d->Struct_0.names@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn same_name(d: &Str) -> (r: Str) ensures r@ == d@ { unimplemented!() }
