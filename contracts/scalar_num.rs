#[derive(Copy, Clone)]
pub struct F16 { pub bits: u16 }
#[derive(Copy, Clone)]
pub struct F32 { pub bits: u32 }
#[derive(Copy, Clone)]
pub struct F64 { pub bits: u64 }
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Ordering { Less, Equal, Greater }
pub open spec fn cmp3(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// IEEE 754 totalOrder on a bit pattern with half the patterns (`h`) positive
pub open spec fn total(bits: int, h: int) -> int { if bits < h { bits } else { h - 1 - bits } }
pub open spec fn ptype_of(p: PValue) -> PType { match p { PValue::U8(_) => PType::U8, PValue::U16(_) => PType::U16, PValue::U32(_) => PType::U32, PValue::U64(_) => PType::U64, PValue::I8(_) => PType::I8, PValue::I16(_) => PType::I16, PValue::I32(_) => PType::I32, PValue::I64(_) => PType::I64, PValue::F16(_) => PType::F16, PValue::F32(_) => PType::F32, PValue::F64(_) => PType::F64 } }
pub open spec fn is_float(p: PType) -> bool { p is F16 || p is F32 || p is F64 }
/// the number an integer value stands for
pub open spec fn int_of(p: PValue) -> int { match p { PValue::U8(v) => v as int, PValue::U16(v) => v as int, PValue::U32(v) => v as int, PValue::U64(v) => v as int, PValue::I8(v) => v as int, PValue::I16(v) => v as int, PValue::I32(v) => v as int, PValue::I64(v) => v as int, _ => 0 } }
/// where a value stands in the order of its type
pub open spec fn key(p: PValue) -> int { match p { PValue::F16(v) => total(v.bits as int, 0x8000), PValue::F32(v) => total(v.bits as int, 0x8000_0000), PValue::F64(v) => total(v.bits as int, 0x8000_0000_0000_0000), _ => int_of(p) } }
pub open spec fn lo(t: PType) -> int { match t { PType::I8 => i8::MIN as int, PType::I16 => i16::MIN as int, PType::I32 => i32::MIN as int, PType::I64 => i64::MIN as int, _ => 0 } }
pub open spec fn hi(t: PType) -> int { match t { PType::I8 => i8::MAX as int, PType::I16 => i16::MAX as int, PType::I32 => i32::MAX as int, PType::I64 => i64::MAX as int, PType::U8 => u8::MAX as int, PType::U16 => u16::MAX as int, PType::U32 => u32::MAX as int, _ => u64::MAX as int } }
pub open spec fn int_value(t: PType, i: int) -> PValue { match t { PType::I8 => PValue::I8(i as i8), PType::I16 => PValue::I16(i as i16), PType::I32 => PValue::I32(i as i32), PType::I64 => PValue::I64(i as i64), PType::U8 => PValue::U8(i as u8), PType::U16 => PValue::U16(i as u16), PType::U32 => PValue::U32(i as u32), _ => PValue::U64(i as u64) } }
/// a conversion with a float on one side, as num_traits defines it
pub uninterp spec fn float_cast(p: PValue, t: PType) -> Option<PValue>;
/// the value of type `t` with the same number, if there is one
pub open spec fn convert(p: PValue, t: PType) -> Option<PValue> {
    if is_float(t) || is_float(ptype_of(p)) { if ptype_of(p) == t { Some(p) } else { float_cast(p, t) } }
    else if lo(t) <= int_of(p) <= hi(t) { Some(int_value(t, int_of(p))) } else { None }
}
pub open spec fn half(i: int) -> Option<PValue> { if 0 <= i <= 0xFFFF { Some(PValue::F16(F16 { bits: i as u16 })) } else { None } }
/// what a stored value means where a value of type `t` is expected: an integer of any width is the
/// integer of `t` with the same number, a float is rounded, and halves are stored as their bits
pub open spec fn read_as(p: PValue, t: PType) -> Option<PValue> {
    if t is F16 && !is_float(ptype_of(p)) { if (p is U8 || p is U16 || p is U32 || p is U64) { half(int_of(p)) } else { None } }
    else if is_float(t) != is_float(ptype_of(p)) { None }
    else { convert(p, t) }
}
pub open spec fn order(p: PValue, q: PValue) -> Option<Ordering> { if ptype_of(p) == ptype_of(q) { Some(cmp3(key(p), key(q))) } else { None } }
pub open spec fn width(t: PType) -> int { match t { PType::U8 | PType::I8 => 1, PType::U16 | PType::I16 | PType::F16 => 2, PType::U32 | PType::I32 | PType::F32 => 4, _ => 8 } }
/// the bits of a value, as an unsigned number
pub open spec fn bits(p: PValue) -> int { match p { PValue::F16(v) => v.bits as int, PValue::F32(v) => v.bits as int, PValue::F64(v) => v.bits as int,
    PValue::I8(v) => if v < 0 { v + 0x100 } else { v as int }, PValue::I16(v) => if v < 0 { v + 0x1_0000 } else { v as int }, PValue::I32(v) => if v < 0 { v + 0x1_0000_0000 } else { v as int }, PValue::I64(v) => if v < 0 { v + 0x1_0000_0000_0000_0000 } else { v as int }, _ => int_of(p) } }
/// a number of a physical type
pub trait Num: Sized + Copy {
    spec fn pt() -> PType;
    spec fn pv(self) -> PValue;
    proof fn own(a: Self, b: Self) ensures ptype_of(a.pv()) == Self::pt(), a.pv() == b.pv() ==> a == b;
}
impl Num for u8 { open spec fn pt() -> PType { PType::U8 } open spec fn pv(self) -> PValue { PValue::U8(self) } proof fn own(a: Self, b: Self) {} }
impl Num for u16 { open spec fn pt() -> PType { PType::U16 } open spec fn pv(self) -> PValue { PValue::U16(self) } proof fn own(a: Self, b: Self) {} }
impl Num for u32 { open spec fn pt() -> PType { PType::U32 } open spec fn pv(self) -> PValue { PValue::U32(self) } proof fn own(a: Self, b: Self) {} }
impl Num for u64 { open spec fn pt() -> PType { PType::U64 } open spec fn pv(self) -> PValue { PValue::U64(self) } proof fn own(a: Self, b: Self) {} }
impl Num for i8 { open spec fn pt() -> PType { PType::I8 } open spec fn pv(self) -> PValue { PValue::I8(self) } proof fn own(a: Self, b: Self) {} }
impl Num for i16 { open spec fn pt() -> PType { PType::I16 } open spec fn pv(self) -> PValue { PValue::I16(self) } proof fn own(a: Self, b: Self) {} }
impl Num for i32 { open spec fn pt() -> PType { PType::I32 } open spec fn pv(self) -> PValue { PValue::I32(self) } proof fn own(a: Self, b: Self) {} }
impl Num for i64 { open spec fn pt() -> PType { PType::I64 } open spec fn pv(self) -> PValue { PValue::I64(self) } proof fn own(a: Self, b: Self) {} }
impl Num for F16 { open spec fn pt() -> PType { PType::F16 } open spec fn pv(self) -> PValue { PValue::F16(self) } proof fn own(a: Self, b: Self) {} }
impl Num for F32 { open spec fn pt() -> PType { PType::F32 } open spec fn pv(self) -> PValue { PValue::F32(self) } proof fn own(a: Self, b: Self) {} }
impl Num for F64 { open spec fn pt() -> PType { PType::F64 } open spec fn pv(self) -> PValue { PValue::F64(self) } proof fn own(a: Self, b: Self) {} }
pub trait Nat: Num {
    fn ptype() -> (r: PType) ensures r == Self::pt();
    fn native_compare(self, other: Self) -> (r: Ordering) ensures r == cmp3(key(self.pv()), key(other.pv()));
    fn native_is_eq(self, other: Self) -> (r: bool) ensures r == (self.pv() == other.pv());
    fn into_pv(self) -> (r: PValue) ensures r == self.pv();
    fn from_pv(v: PValue) -> (r: VortexResult<Self>) ensures (match r { Ok(x) => Some(x.pv()), Err(_) => None }) == read_as(v, Self::pt());
}
/// num_traits::NumCast
#[verifier::external_body]
pub fn num_cast<A: Num, B: Num>(a: A) -> (r: Option<B>) ensures (match r { Some(b) => Some(b.pv()), None => None }) == convert(a.pv(), B::pt()) { unimplemented!() }
#[verifier::external_body]
pub fn total_cmp<A: Num>(a: A, b: A) -> (r: Ordering) requires is_float(A::pt()) ensures r == cmp3(key(a.pv()), key(b.pv())) { unimplemented!() }
#[verifier::external_body]
pub fn int_cmp<A: Num>(a: A, b: A) -> (r: Ordering) requires !is_float(A::pt()) ensures r == cmp3(int_of(a.pv()), int_of(b.pv())) { unimplemented!() }
