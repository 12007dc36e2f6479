/// what the flatbuffers library writes (assumed): offsets into the message being built, each known by what it points at
#[verifier::external_body]
pub struct Fbb { p: usize }
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct OffStr { p: usize }
impl OffStr { pub uninterp spec fn view(&self) -> Seq<u8>; }
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct OffBytes { p: usize }
impl OffBytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct OffType { p: usize }
impl OffType { pub uninterp spec fn view(&self) -> W; }
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct OffTab { p: usize }
impl OffTab {
    pub uninterp spec fn view(&self) -> W;
    #[verifier::external_body]
    pub fn as_union_value(&self) -> (r: OffTab) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OffVec<T> { p: usize, t: core::marker::PhantomData<T> }
impl<T> OffVec<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
impl Fbb {
    #[verifier::external_body]
    pub fn create_string(&mut self, s: &Str) -> (r: OffStr) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn create_bytes(&mut self, s: &Bytes) -> (r: OffBytes) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn create_vector<T>(&mut self, v: &Vec<T>) -> (r: OffVec<T>) ensures r@ == v@ { unimplemented!() }
}
pub open spec fn ostrs(v: Seq<OffStr>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn otypes(v: Seq<OffType>) -> Seq<W> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn tag(w: W) -> fb::Type { match w { W::Null => fb::Type::Null, W::Bool(_) => fb::Type::Bool, W::Prim(..) => fb::Type::Primitive, W::Utf8(_) => fb::Type::Utf8, W::Binary(_) => fb::Type::Binary, W::Struct(..) => fb::Type::Struct_, W::List(..) => fb::Type::List, W::Ext(..) => fb::Type::Extension, W::Broken => fb::Type::Other } }
pub mod fb {
    use super::*;
    #[derive(Copy, Clone)]
    pub enum PType { U8, U16, U32, U64, I8, I16, I32, I64, F16, F32, F64, Other }
    #[derive(Copy, Clone, PartialEq, Eq)]
    pub enum Type { Null, Bool, Primitive, Utf8, Binary, Struct_, List, Extension, Other }
    pub struct NullArgs {  }
    pub struct Null {}
    impl Null { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &NullArgs) -> (r: OffTab) ensures r@ == W::Null { unimplemented!() } }
    pub struct BoolArgs { pub nullable: bool }
    pub struct Bool {}
    impl Bool { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &BoolArgs) -> (r: OffTab) ensures r@ == W::Bool(args.nullable) { unimplemented!() } }
    pub struct Utf8Args { pub nullable: bool }
    pub struct Utf8 {}
    impl Utf8 { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &Utf8Args) -> (r: OffTab) ensures r@ == W::Utf8(args.nullable) { unimplemented!() } }
    pub struct BinaryArgs { pub nullable: bool }
    pub struct Binary {}
    impl Binary { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &BinaryArgs) -> (r: OffTab) ensures r@ == W::Binary(args.nullable) { unimplemented!() } }
    pub struct PrimitiveArgs { pub ptype: PType, pub nullable: bool }
    pub struct Primitive {}
    impl Primitive { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &PrimitiveArgs) -> (r: OffTab) ensures r@ == W::Prim(args.ptype, args.nullable) { unimplemented!() } }
    pub struct Struct_Args { pub names: Option<OffVec<OffStr>>, pub dtypes: Option<OffVec<OffType>>, pub nullable: bool }
    pub struct Struct_ {}
    impl Struct_ { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &Struct_Args) -> (r: OffTab) ensures r@ == W::Struct(match args.names { Some(v) => Some(ostrs(v@)), None => None }, match args.dtypes { Some(v) => Some(otypes(v@)), None => None }, args.nullable) { unimplemented!() } }
    pub struct ListArgs { pub element_type: Option<OffType>, pub nullable: bool }
    pub struct List {}
    impl List { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &ListArgs) -> (r: OffTab) ensures r@ == W::List(match args.element_type { Some(v) => Some(Box::new(v@)), None => None }, args.nullable) { unimplemented!() } }
    pub struct ExtensionArgs { pub id: Option<OffStr>, pub metadata: Option<OffBytes>, pub nullable: bool }
    pub struct Extension {}
    impl Extension { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &ExtensionArgs) -> (r: OffTab) ensures r@ == W::Ext(match args.id { Some(v) => Some(v@), None => None }, match args.metadata { Some(v) => Some(v@), None => None }, args.nullable) { unimplemented!() } }
    pub struct DTypeArgs { pub type_type: Type, pub type_: Option<OffTab> }
    pub struct DType {}
    impl DType { #[verifier::external_body] pub fn create(fbb: &mut Fbb, args: &DTypeArgs) -> (r: OffType) ensures r@ == (match args.type_ { Some(t) => if tag(t@) == args.type_type { t@ } else { W::Broken }, None => W::Broken }) { unimplemented!() } }
}
