pub mod fb {
    use super::*;
    #[derive(Copy, Clone)]
    pub enum PType { U8, U16, U32, U64, I8, I16, I32, I64, F16, F32, F64, Other }
    #[derive(Copy, Clone)]
    pub enum Type { Null, Bool, Primitive, Utf8, Binary, Struct_, List, Extension, Other }
    /// a type as it lies in a message
    #[derive(Copy, Clone)]
    #[verifier::external_body]
    pub struct DType { p: usize }
    impl DType { pub uninterp spec fn view(&self) -> W; }
}
pub open spec fn tag(w: W) -> fb::Type { match w { W::Null => fb::Type::Null, W::Bool(_) => fb::Type::Bool, W::Prim(..) => fb::Type::Primitive, W::Utf8(_) => fb::Type::Utf8, W::Binary(_) => fb::Type::Binary, W::Struct(..) => fb::Type::Struct_, W::List(..) => fb::Type::List, W::Ext(..) => fb::Type::Extension, W::Broken => fb::Type::Other } }
pub open spec fn fbs(v: Seq<fb::DType>) -> Seq<W> { Seq::new(v.len(), |i: int| v[i]@) }
pub fn iter_dtypes(v: Vec<fb::DType>) -> (r: Vec<fb::DType>) ensures r == v { v }
pub fn vat<T: Copy>(v: Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { v[i] }
#[verifier::external_body]
pub fn vat_name(v: Vec<Str>, i: usize) -> (r: Str) requires i < v@.len() ensures r@ == v@[i as int]@ { unimplemented!() }
/// one table of the message, read by the generated accessors of the flatbuffers library (assumed)
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct Tab { p: usize }
impl Tab {
    pub uninterp spec fn view(&self) -> W;
    #[verifier::external_body]
    pub fn nullable(&self) -> (r: bool) ensures match self@ { W::Bool(n) => r == n, W::Prim(_, n) => r == n, W::Utf8(n) => r == n, W::Binary(n) => r == n, W::Struct(_, _, n) => r == n, W::List(_, n) => r == n, W::Ext(_, _, n) => r == n, _ => true } { unimplemented!() }
    #[verifier::external_body]
    pub fn ptype(&self) -> (r: fb::PType) ensures self@ is Prim ==> r == self@->Prim_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn element_type(&self) -> (r: Option<fb::DType>) ensures self@ is List ==> match r { Some(e) => self@->List_0 == Some(Box::new(e@)), None => self@->List_0 is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Option<Vec<Str>>) ensures self@ is Struct ==> match r { Some(v) => self@->Struct_0 == Some(texts(v@)), None => self@->Struct_0 is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn dtypes(&self) -> (r: Option<Vec<fb::DType>>) ensures self@ is Struct ==> match r { Some(v) => self@->Struct_1 == Some(fbs(v@)), None => self@->Struct_1 is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn id(&self) -> (r: Option<Str>) ensures self@ is Ext ==> match r { Some(v) => self@->Ext_0 == Some(v@), None => self@->Ext_0 is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Option<Bytes>) ensures self@ is Ext ==> match r { Some(v) => self@->Ext_1 == Some(v@), None => self@->Ext_1 is None } { unimplemented!() }
}
impl fb::DType {
    #[verifier::external_body]
    pub fn type_type(&self) -> (r: fb::Type) ensures !(self@ is Broken) ==> r == tag(self@), self@ is Broken ==> !(r is Null) { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_bool(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is Bool, r matches Some(t) ==> t@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_primitive(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is Prim, r matches Some(t) ==> t@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_binary(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is Binary, r matches Some(t) ==> t@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_utf_8(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is Utf8, r matches Some(t) ==> t@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_list(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is List, r matches Some(t) ==> t@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_struct_(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is Struct, r matches Some(t) ==> t@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn type__as_extension(&self) -> (r: Option<Tab>) ensures r is Some <==> self@ is Ext, r matches Some(t) ==> t@ == self@ { unimplemented!() }
}
