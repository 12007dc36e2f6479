@include dtype_api.rs
@include dtype_fb_types.rs
@source vortex-dtype/src/nullability.rs
@item Nullability
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@drop Default
@source vortex-dtype/src/ptype.rs
@item PType
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@source vortex-dtype/src/extension.rs
@item ExtID
@subst Arc<str> => Str
@item ExtMetadata
@subst Arc<[u8]> => Bytes
@item ExtDType
@source vortex-dtype/src/field.rs
@item Field
@subst String => Str
@source vortex-dtype/src/dtype.rs
@item DType
@item StructDType
@subst FieldNames => Vec<Str>
@subst Arc<[DType]> => Vec<DType>
@source vortex-scalar/src/pvalue.rs
@item PValue
#[derive(Copy, Clone)]
@subst f16 => F16
@subst f32 => F32
@subst f64 => F64
@source vortex-scalar/src/value.rs
@item ScalarValue
@subst Buffer => Bytes
@subst BufferString => Str
@subst Arc<[ScalarValue]> => Vec<ScalarValue>
@item order ScalarValue
@source vortex-scalar/src/lib.rs
@item Scalar
@include dtype_spec.rs
@include scalar_num.rs
@include scalar_laws.rs
@include scalar_nat.rs
@include scalar_sem.rs
@include scalar_order.rs
@include scalar_val.rs
@source vortex-scalar/src/primitive.rs
@item PrimitiveScalar
@source vortex-scalar/src/struct_.rs
@item StructScalar
@subst Arc<[ScalarValue]> => Vec<ScalarValue>
@include scalar_cast.rs
@source vortex-array/src/compute/search_sorted.rs
@item SearchSortedSide
#[derive(Copy, Clone)]
@item SearchResult
#[derive(Copy, Clone)]
@include reads_api.rs
