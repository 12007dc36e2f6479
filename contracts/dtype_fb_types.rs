pub mod fb {
    use super::*;
    #[derive(Copy, Clone)]
    pub enum PType { U8, U16, U32, U64, I8, I16, I32, I64, F16, F32, F64, Other }
    #[derive(Copy, Clone, PartialEq, Eq)]
    pub enum Type { Null, Bool, Primitive, Utf8, Binary, Struct_, List, Extension, Other }
}
