impl Nat for u8 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for u16 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for u32 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for u64 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for i8 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for i16 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for i32 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for i64 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for F16 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for F32 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
impl Nat for F64 { #[verifier::external_body] /* proved: scalar_numbers, scalar_floats, scalar_halves */ fn ptype() -> (r: PType) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_compare(self, other: Self) -> (r: Ordering) { unimplemented!() } #[verifier::external_body] /* proved */ fn native_is_eq(self, other: Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] /* proved */ fn into_pv(self) -> (r: PValue) { unimplemented!() } #[verifier::external_body] /* proved */ fn from_pv(v: PValue) -> (r: VortexResult<Self>) { unimplemented!() } }
