/// the protobuf messages, as generated from the schema
pub mod pb {
    use super::*;
    #[derive(Copy, Clone)]
    pub enum PType { U8, U16, U32, U64, I8, I16, I32, I64, F16, F32, F64 }
    pub struct Null {}
    pub struct Bool { pub nullable: bool }
    pub struct Primitive { pub r#type: i32, pub nullable: bool }
    pub struct Decimal { pub nullable: bool }
    pub struct Utf8 { pub nullable: bool }
    pub struct Binary { pub nullable: bool }
    pub struct Struct { pub names: Vec<Str>, pub dtypes: Vec<DType>, pub nullable: bool }
    pub struct List { pub element_type: Option<Box<DType>>, pub nullable: bool }
    pub struct Extension { pub id: Str, pub metadata: Option<Bytes>, pub nullable: bool }
    pub struct DType { pub dtype_type: Option<DtypeType> }
    /// the number of a primitive type in a message, and back (prost: assumed)
    pub uninterp spec fn code(p: PType) -> i32;
    pub uninterp spec fn kind(c: i32) -> PType;
    #[verifier::external_body]
    pub proof fn axiom_code(p: PType) ensures kind(code(p)) == p { }
    #[verifier::external_body]
    pub fn code_of(p: PType) -> (r: i32) ensures r == code(p), kind(r) == p { unimplemented!() }
    impl Primitive {
        #[verifier::external_body]
        pub fn r#type(&self) -> (r: PType) ensures r == kind(self.r#type) { unimplemented!() }
    }
}
pub enum DtypeType { Null(pb::Null), Bool(pb::Bool), Primitive(pb::Primitive), Decimal(pb::Decimal), Utf8(pb::Utf8), Binary(pb::Binary), Struct(pb::Struct), List(Box<pb::List>), Extension(pb::Extension) }
pub open spec fn kb(p: pb::PType) -> fb::PType { match p { pb::PType::U8 => fb::PType::U8, pb::PType::U16 => fb::PType::U16, pb::PType::U32 => fb::PType::U32, pb::PType::U64 => fb::PType::U64, pb::PType::I8 => fb::PType::I8, pb::PType::I16 => fb::PType::I16, pb::PType::I32 => fb::PType::I32, pb::PType::I64 => fb::PType::I64, pb::PType::F16 => fb::PType::F16, pb::PType::F32 => fb::PType::F32, pb::PType::F64 => fb::PType::F64 } }
pub open spec fn pw(d: pb::DType) -> W decreases d, 0nat {
    match d.dtype_type { None => W::Broken, Some(t) => match t {
        DtypeType::Null(_) => W::Null, DtypeType::Bool(b) => W::Bool(b.nullable), DtypeType::Primitive(b) => W::Prim(kb(pb::kind(b.r#type)), b.nullable), DtypeType::Decimal(_) => W::Broken,
        DtypeType::Utf8(b) => W::Utf8(b.nullable), DtypeType::Binary(b) => W::Binary(b.nullable),
        DtypeType::Struct(s) => W::Struct(Some(texts(s.names@)), Some(pws(s.dtypes, s.dtypes@.len())), s.nullable),
        DtypeType::List(l) => W::List(match l.element_type { Some(e) => Some(Box::new(pw(*e))), None => None }, l.nullable),
        DtypeType::Extension(e) => W::Ext(Some(e.id@), match e.metadata { Some(m) => Some(m@), None => None }, e.nullable),
    } }
}
pub open spec fn pws(v: Vec<pb::DType>, n: nat) -> Seq<W> decreases v, n via pws_dec
{ if n == 0 || n > v@.len() { Seq::empty() } else { pws(v, (n - 1) as nat).push(pw(v[n - 1])) } }
#[via_fn]
proof fn pws_dec(v: Vec<pb::DType>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
pub proof fn lemma_pws(v: Vec<pb::DType>, n: nat) requires n <= v@.len() ensures pws(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] pws(v, n)[i] == pw(v@[i]) decreases n
{ if n > 0 { lemma_pws(v, (n - 1) as nat); } }
/// no decimal type anywhere (unfinished in the code: `todo!`), as in everything written from a type
pub open spec fn known(d: pb::DType) -> bool decreases d, 0nat {
    match d.dtype_type { None => true, Some(t) => match t {
        DtypeType::Decimal(_) => false,
        DtypeType::Struct(s) => knowns(s.dtypes, s.dtypes@.len()),
        DtypeType::List(l) => l.element_type is Some ==> known(*l.element_type->0),
        _ => true } }
}
pub open spec fn knowns(v: Vec<pb::DType>, n: nat) -> bool decreases v, n via knowns_dec
{ if n == 0 || n > v@.len() { true } else { knowns(v, (n - 1) as nat) && known(v[n - 1]) } }
#[via_fn]
proof fn knowns_dec(v: Vec<pb::DType>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
pub proof fn lemma_knowns(v: Vec<pb::DType>, n: nat) requires n <= v@.len() ensures knowns(v, n) <==> forall|i: int| 0 <= i < n ==> known(#[trigger] v@[i]) decreases n
{ if n > 0 { lemma_knowns(v, (n - 1) as nat); assert(v[n - 1] == v@[n - 1]); } }
