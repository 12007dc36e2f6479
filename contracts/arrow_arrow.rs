// ---- arrow arrays and their types, as the arrow crates' documentation gives them
use std::marker::PhantomData;
pub trait ArrowPrimitiveType { spec fn of(t: DataType) -> bool; spec fn p() -> PType; spec fn numeric() -> bool;
    fn ptype() -> (r: PType) ensures r == Self::p();
    fn is_numeric() -> (r: bool) ensures r == Self::numeric();
    proof fn about(t: DataType) requires Self::of(t) ensures stored(t) == Self::p(), Self::numeric() == (num(t) is Some), num(t) is Some || temporal(t) || t is Duration; }
pub struct UInt8Type;
impl ArrowPrimitiveType for UInt8Type { open spec fn of(t: DataType) -> bool { t is UInt8 } open spec fn p() -> PType { PType::U8 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::U8 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct UInt16Type;
impl ArrowPrimitiveType for UInt16Type { open spec fn of(t: DataType) -> bool { t is UInt16 } open spec fn p() -> PType { PType::U16 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::U16 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct UInt32Type;
impl ArrowPrimitiveType for UInt32Type { open spec fn of(t: DataType) -> bool { t is UInt32 } open spec fn p() -> PType { PType::U32 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::U32 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct UInt64Type;
impl ArrowPrimitiveType for UInt64Type { open spec fn of(t: DataType) -> bool { t is UInt64 } open spec fn p() -> PType { PType::U64 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::U64 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Int8Type;
impl ArrowPrimitiveType for Int8Type { open spec fn of(t: DataType) -> bool { t is Int8 } open spec fn p() -> PType { PType::I8 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::I8 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Int16Type;
impl ArrowPrimitiveType for Int16Type { open spec fn of(t: DataType) -> bool { t is Int16 } open spec fn p() -> PType { PType::I16 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::I16 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Int32Type;
impl ArrowPrimitiveType for Int32Type { open spec fn of(t: DataType) -> bool { t is Int32 } open spec fn p() -> PType { PType::I32 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::I32 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Int64Type;
impl ArrowPrimitiveType for Int64Type { open spec fn of(t: DataType) -> bool { t is Int64 } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Float16Type;
impl ArrowPrimitiveType for Float16Type { open spec fn of(t: DataType) -> bool { t is Float16 } open spec fn p() -> PType { PType::F16 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::F16 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Float32Type;
impl ArrowPrimitiveType for Float32Type { open spec fn of(t: DataType) -> bool { t is Float32 } open spec fn p() -> PType { PType::F32 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::F32 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Float64Type;
impl ArrowPrimitiveType for Float64Type { open spec fn of(t: DataType) -> bool { t is Float64 } open spec fn p() -> PType { PType::F64 } open spec fn numeric() -> bool { true }
    fn ptype() -> (r: PType) { PType::F64 } fn is_numeric() -> (r: bool) { true } proof fn about(t: DataType) {} }
pub struct Date32Type;
impl ArrowPrimitiveType for Date32Type { open spec fn of(t: DataType) -> bool { t is Date32 } open spec fn p() -> PType { PType::I32 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I32 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct Date64Type;
impl ArrowPrimitiveType for Date64Type { open spec fn of(t: DataType) -> bool { t is Date64 } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct TimestampSecondType;
impl ArrowPrimitiveType for TimestampSecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Timestamp(u, _) && u is Second } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct TimestampMillisecondType;
impl ArrowPrimitiveType for TimestampMillisecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Timestamp(u, _) && u is Millisecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct TimestampMicrosecondType;
impl ArrowPrimitiveType for TimestampMicrosecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Timestamp(u, _) && u is Microsecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct TimestampNanosecondType;
impl ArrowPrimitiveType for TimestampNanosecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Timestamp(u, _) && u is Nanosecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct Time32SecondType;
impl ArrowPrimitiveType for Time32SecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Time32(u) && u is Second } open spec fn p() -> PType { PType::I32 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I32 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct Time32MillisecondType;
impl ArrowPrimitiveType for Time32MillisecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Time32(u) && u is Millisecond } open spec fn p() -> PType { PType::I32 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I32 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct Time64MicrosecondType;
impl ArrowPrimitiveType for Time64MicrosecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Time64(u) && u is Microsecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct Time64NanosecondType;
impl ArrowPrimitiveType for Time64NanosecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Time64(u) && u is Nanosecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct DurationSecondType;
impl ArrowPrimitiveType for DurationSecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Duration(u) && u is Second } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct DurationMillisecondType;
impl ArrowPrimitiveType for DurationMillisecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Duration(u) && u is Millisecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct DurationMicrosecondType;
impl ArrowPrimitiveType for DurationMicrosecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Duration(u) && u is Microsecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub struct DurationNanosecondType;
impl ArrowPrimitiveType for DurationNanosecondType { open spec fn of(t: DataType) -> bool { t matches DataType::Duration(u) && u is Nanosecond } open spec fn p() -> PType { PType::I64 } open spec fn numeric() -> bool { false }
    fn ptype() -> (r: PType) { PType::I64 } fn is_numeric() -> (r: bool) { false } proof fn about(t: DataType) {} }
pub trait OffsetSizeTrait { spec fn p() -> PType; fn ptype() -> (r: PType) ensures r == Self::p(); proof fn about() ensures Self::p() is I32 || Self::p() is I64; }
impl OffsetSizeTrait for i32 { open spec fn p() -> PType { PType::I32 } fn ptype() -> (r: PType) { PType::I32 } proof fn about() {} }
impl OffsetSizeTrait for i64 { open spec fn p() -> PType { PType::I64 } fn ptype() -> (r: PType) { PType::I64 } proof fn about() {} }
pub trait ByteArrayType { type Offset: OffsetSizeTrait; spec fn dt() -> DataType; fn data_type() -> (r: DataType) ensures r == Self::dt();
    proof fn about() ensures Self::dt() is Utf8 || Self::dt() is LargeUtf8 || Self::dt() is Binary || Self::dt() is LargeBinary, offsets_of(Self::dt()) == Self::Offset::p(); }
pub trait ByteViewType { spec fn dt() -> DataType; fn data_type() -> (r: DataType) ensures r == Self::dt(); proof fn about() ensures Self::dt() is Utf8View || Self::dt() is BinaryView; }
pub struct Utf8Type;
impl ByteArrayType for Utf8Type { type Offset = i32; open spec fn dt() -> DataType { DataType::Utf8 } fn data_type() -> (r: DataType) { DataType::Utf8 } proof fn about() {} }
pub struct LargeUtf8Type;
impl ByteArrayType for LargeUtf8Type { type Offset = i64; open spec fn dt() -> DataType { DataType::LargeUtf8 } fn data_type() -> (r: DataType) { DataType::LargeUtf8 } proof fn about() {} }
pub struct BinaryType;
impl ByteArrayType for BinaryType { type Offset = i32; open spec fn dt() -> DataType { DataType::Binary } fn data_type() -> (r: DataType) { DataType::Binary } proof fn about() {} }
pub struct LargeBinaryType;
impl ByteArrayType for LargeBinaryType { type Offset = i64; open spec fn dt() -> DataType { DataType::LargeBinary } fn data_type() -> (r: DataType) { DataType::LargeBinary } proof fn about() {} }
pub struct Utf8ViewType;
impl ByteViewType for Utf8ViewType { open spec fn dt() -> DataType { DataType::Utf8View } fn data_type() -> (r: DataType) { DataType::Utf8View } proof fn about() {} }
pub struct BinaryViewType;
impl ByteViewType for BinaryViewType { open spec fn dt() -> DataType { DataType::BinaryView } fn data_type() -> (r: DataType) { DataType::BinaryView } proof fn about() {} }
pub trait OffsetKind: Sized { type Str: ByteArrayType<Offset = Self>; type Bin: ByteArrayType<Offset = Self>; }
impl OffsetKind for i32 { type Str = Utf8Type; type Bin = BinaryType; }
impl OffsetKind for i64 { type Str = LargeUtf8Type; type Bin = LargeBinaryType; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ArrowPrimitiveArray<T> { p: PhantomData<T> }
impl<T> ArrowPrimitiveArray<T> { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct GenericByteArray<T> { p: PhantomData<T> }
impl<T> GenericByteArray<T> { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct GenericByteViewArray<T> { p: PhantomData<T> }
impl<T> GenericByteViewArray<T> { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
pub struct ArrowBooleanArray { p: usize }
impl ArrowBooleanArray { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
pub struct ArrowStructArray { p: usize }
impl ArrowStructArray { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
pub struct ArrowNullArray { p: usize }
impl ArrowNullArray { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
pub struct ArrowRef { p: usize }
impl ArrowRef { pub uninterp spec fn view(&self) -> A;
    #[verifier::external_body]
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self@.dt { unimplemented!() }
    #[verifier::external_body]
    pub fn nulls(&self) -> (r: Option<&NullBuffer>) ensures (match r { Some(n) => Some(n@), None => None }) == self@.nulls { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ScalarBuffer<T> { p: PhantomData<T> }
impl<T> ScalarBuffer<T> { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Buffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn inner(&self) -> (r: &Buffer) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OffsetBuffer<T> { p: PhantomData<T> }
impl<T> OffsetBuffer<T> { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: ScalarBuffer<T>) ensures r@ == self@ { unimplemented!() } }
impl<T> ArrowPrimitiveArray<T> {
    #[verifier::external_body]
    pub fn values(&self) -> (r: &ScalarBuffer<T>) requires self@.data is Prim ensures r@ == self@.data->Prim_0 { unimplemented!() } }
impl<T: ByteArrayType> GenericByteArray<T> {
    #[verifier::external_body]
    pub fn offsets(&self) -> (r: &OffsetBuffer<T::Offset>) requires self@.data is Text ensures r@ == self@.data->Text_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: &Buffer) requires self@.data is Text ensures r@ == self@.data->Text_1 { unimplemented!() } }
impl<T> GenericByteViewArray<T> {
    #[verifier::external_body]
    pub fn views(&self) -> (r: &ScalarBuffer<u128>) requires self@.data is Views ensures r@ == self@.data->Views_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn data_buffers(&self) -> (r: &[Buffer]) requires self@.data is Views ensures r@.len() == self@.data->Views_1.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.data->Views_1[i] { unimplemented!() } }
impl ArrowBooleanArray {
    #[verifier::external_body]
    pub fn values(&self) -> (r: &BooleanBuffer) requires self@.data is Bools ensures r@ == self@.data->Bools_0 { unimplemented!() } }
impl ArrowStructArray {
    #[verifier::external_body]
    pub fn column_names(&self) -> (r: Vec<&Str>) requires self@.dt is Struct ensures r@.len() == self@.dt->Struct_0@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.dt->Struct_0@[i].name@ { unimplemented!() }
    #[verifier::external_body]
    pub fn columns(&self) -> (r: &[ArrowRef]) requires self@.data is Rec ensures r@.len() == self@.data->Rec_0.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.data->Rec_0[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn fields(&self) -> (r: &Vec<AField>) requires self@.dt is Struct ensures r@ == self@.dt->Struct_0@ { unimplemented!() } }
// an array taken for what its type says it is
impl ArrowRef {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_primitive<T: ArrowPrimitiveType>(&self) -> (r: &ArrowPrimitiveArray<T>) requires T::of(self@.dt) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_string<O: OffsetKind>(&self) -> (r: &GenericByteArray<O::Str>) requires self@.dt == <O::Str as ByteArrayType>::dt() ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_binary<O: OffsetKind>(&self) -> (r: &GenericByteArray<O::Bin>) requires self@.dt == <O::Bin as ByteArrayType>::dt() ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_view<T: ByteViewType>(&self) -> (r: &GenericByteViewArray<T>) requires self@.dt == T::dt() ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_boolean(&self) -> (r: &ArrowBooleanArray) requires self@.dt is Boolean ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_struct(&self) -> (r: &ArrowStructArray) requires self@.dt is Struct ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn as_null_array(a: &ArrowRef) -> (r: &ArrowNullArray) requires a@.dt is Null ensures r@ == a@ { unimplemented!() }
