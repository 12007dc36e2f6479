use core::cmp::Ordering;
/// values compared by their total order, whatever their type
#[verifier::external_body]
pub struct Val { p: usize }
pub uninterp spec fn ord(a: Val, b: Val) -> int;
#[verifier::external_body]
pub proof fn axiom_ord(a: Val, b: Val) ensures ord(b, a) == -ord(a, b) { }
pub uninterp spec fn val_of_bool(b: bool) -> Val;
pub type Cells = Seq<Option<Val>>;
/// one comparison: null on either side gives null
pub open spec fn cmp1(op: Operator, a: Option<Val>, b: Option<Val>) -> Option<bool> { if a is Some && b is Some { Some(op.says(ord(a->0, b->0))) } else { None } }
/// a column: its values, and for a boolean column the truth values
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Array { p: usize }
#[verifier::external_body]
pub struct DType { p: usize }
impl DType {
    /// the type without its nullability
    pub uninterp spec fn base(&self) -> int;
    pub uninterp spec fn boolean(&self) -> bool;
    pub uninterp spec fn extension(&self) -> bool;
    pub uninterp spec fn nullable(&self) -> bool;
    #[verifier::external_body]
    pub fn eq_ignore_nullability(&self, o: &DType) -> (r: bool) ensures r == (self.base() == o.base()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_boolean(&self) -> (r: bool) ensures r == self.boolean() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_extension(&self) -> (r: bool) ensures r == self.extension() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nullable(&self) -> (r: DType) ensures r.base() == self.base(), r.nullable(), r.boolean() == self.boolean() { unimplemented!() }
}
#[verifier::external_body]
pub fn bool_dtype() -> (r: DType) ensures r.boolean(), r.nullable() { unimplemented!() }
impl Array {
    pub uninterp spec fn cells(&self) -> Cells;
    pub uninterp spec fn bools(&self) -> Seq<Option<bool>>;
    pub uninterp spec fn dt(&self) -> DType;
    pub uninterp spec fn constant(&self) -> bool;
    /// a boolean column has a truth value or a null at each position
    pub open spec fn inv(&self) -> bool { (self.dt().boolean() ==> self.bools().len() == self.cells().len()) && (self.constant() ==> all_same(self.cells()) && forall|i: int, j: int| 0 <= i < self.bools().len() && 0 <= j < self.bools().len() ==> #[trigger] self.bools()[i] == #[trigger] self.bools()[j]) }
    /// the outcome of comparing
    pub open spec fn is_cmp(&self, op: Operator, a: Cells, b: Cells) -> bool { self.bools().len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] self.bools()[i] == cmp1(op, a[i], b[i]) }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.cells().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.cells().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn dtype(&self) -> (r: &DType) ensures *r == self.dt() { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self) -> (r: Array) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_constant_array(&self) -> (r: bool) ensures r ==> self.constant() { unimplemented!() }
    /// the statistic, if it is there: `Some(true)` says that every element is the same (P14)
    #[verifier::external_body]
    pub fn known_constant(&self) -> (r: Option<bool>) ensures r == Some(true) ==> self.constant() { unimplemented!() }
}
pub open spec fn all_same(a: Cells) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> #[trigger] a[i] == #[trigger] a[j] }
