/// the closed set of expressions: a column, a constant, a binary expression, or any other
pub enum VExpr { Column(Column), Literal(Literal), Binary(Box<BinaryExpr>), Other(OtherExpr) }
#[verifier::external_body] pub struct OtherExpr { p: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Field { p: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Scalar { p: usize }
impl Field {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Field) ensures r == *self { unimplemented!() }
}
impl VExpr {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VExpr) ensures r == *self { unimplemented!() }
}
impl Operator {
    /// what the comparison says of two values whose order is c (negative, zero, positive)
    pub open spec fn says(self, c: int) -> bool {
        match self { Operator::Eq => c == 0, Operator::NotEq => c != 0, Operator::Gt => c > 0, Operator::Gte => c >= 0, Operator::Lt => c < 0, Operator::Lte => c <= 0, _ => false }
    }
    pub open spec fn is_cmp(self) -> bool { !(self is And) && !(self is Or) }
    #[verifier::external_body] /* proved: operators */
    pub fn swap(self) -> (r: Self)
        ensures self.is_cmp() ==> r.is_cmp() && (forall|c: int| r.says(-c) == #[trigger] self.says(c)) && (r is NotEq <==> self is NotEq), !self.is_cmp() ==> r == self,
    { unimplemented!() }
}
/// A row gives every column a value or null. Values of one type are ordered, and the order is written as that of the integers.
pub type Row = spec_fn(Field) -> Option<int>;
pub uninterp spec fn lit_val(s: Scalar) -> Option<int>;
pub uninterp spec fn lit_true(s: Scalar) -> bool;
pub uninterp spec fn col_true(v: Option<int>) -> bool;
pub uninterp spec fn nested_val(e: VExpr, r: Row) -> Option<int>;
pub uninterp spec fn other_true(e: OtherExpr, r: Row) -> bool;
/// the value of an operand of a comparison in a row
pub open spec fn val(e: VExpr, r: Row) -> Option<int> { match e { VExpr::Column(c) => r(c.field), VExpr::Literal(l) => lit_val(l.value), _ => nested_val(e, r) } }
/// whether a predicate is true (not false, not null) of a row
pub open spec fn yes(e: VExpr, r: Row) -> bool decreases e {
    match e {
        VExpr::Binary(b) => match b.operator {
            Operator::And => yes(b.lhs, r) && yes(b.rhs, r),
            Operator::Or => yes(b.lhs, r) || yes(b.rhs, r),
            _ => val(b.lhs, r) is Some && val(b.rhs, r) is Some && b.operator.says(val(b.lhs, r)->0 - val(b.rhs, r)->0),
        },
        VExpr::Literal(l) => lit_true(l.value),
        VExpr::Column(c) => col_true(r(c.field)),
        VExpr::Other(o) => other_true(o, r),
    }
}
/// the name under which a statistic of a column is kept
pub uninterp spec fn stat_field(f: Field, s: Stat) -> Field;
/// the statistics of a chunk bound the values of its rows
pub open spec fn bounds(st: Row, r: Row) -> bool {
    forall|f: Field| (#[trigger] r(f)) matches Some(x) ==> (st(stat_field(f, Stat::Min)) matches Some(m) ==> m <= x) && (st(stat_field(f, Stat::Max)) matches Some(m) ==> x <= m)
}
/// when p is true of the statistics of a chunk, e is true of none of its rows
pub open spec fn sound(e: VExpr, p: VExpr) -> bool { forall|st: Row, r: Row| #[trigger] bounds(st, r) && yes(p, st) ==> !yes(e, r) }
/// the columns an expression reads
pub open spec fn reads(e: VExpr, f: Field) -> bool decreases e { match e { VExpr::Column(c) => c.field == f, VExpr::Binary(b) => reads(b.lhs, f) || reads(b.rhs, f), VExpr::Literal(l) => false, VExpr::Other(o) => false } }
/// the inequality of two columns (known finding: its rewriting is unsound)
pub open spec fn ne_cols(e: VExpr) -> bool decreases e { match e { VExpr::Binary(b) => (b.operator is NotEq && b.lhs is Column && b.rhs is Column) || ((b.operator is And || b.operator is Or) && (ne_cols(b.lhs) || ne_cols(b.rhs))), _ => false } }
/// every column p reads is a listed statistic
pub open spec fn listed(p: VExpr, m: StatMap) -> bool { forall|f: Field| #[trigger] reads(p, f) ==> exists|g: Field, s: Stat| m.has(g, s) && f == #[trigger] stat_field(g, s) }
pub open spec fn more(m: StatMap, n: StatMap) -> bool { forall|g: Field, s: Stat| m.has(g, s) ==> #[trigger] n.has(g, s) }
/// which statistics of which columns are needed
#[verifier::external_body]
pub struct StatMap { p: usize }
impl StatMap {
    pub uninterp spec fn has(&self, f: Field, s: Stat) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: StatMap) ensures forall|f: Field, s: Stat| !r.has(f, s) { unimplemented!() }
}
#[verifier::external_body]
pub fn add_stat(m: &mut StatMap, f: Field, s: Stat) ensures forall|g: Field, t: Stat| #[trigger] final(m).has(g, t) == (old(m).has(g, t) || (g == f && t == s)) { unimplemented!() }
#[verifier::external_body]
pub fn has_stat(m: &StatMap, f: &Field, s: &Stat) -> (r: bool) ensures r == m.has(*f, *s) { unimplemented!() }
/// the entries of the map, in any order
#[verifier::external_body]
pub fn iter_entries(m: StatMap) -> (r: Vec<&'static (Field, Vec<Stat>)>)
    ensures forall|f: Field, s: Stat| #[trigger] m.has(f, s) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r@[i]).0 == f && r@[i].1@.contains(s),
{ unimplemented!() }
pub fn as_column(e: &VExpr) -> (r: Option<&Column>) ensures r matches Some(c) ==> *e == VExpr::Column(*c), r is None ==> !(*e is Column) { match e { VExpr::Column(c) => Some(c), _ => None } }
pub fn as_literal(e: &VExpr) -> (r: Option<&Literal>) ensures r matches Some(c) ==> *e == VExpr::Literal(*c), r is None ==> !(*e is Literal) { match e { VExpr::Literal(c) => Some(c), _ => None } }
pub fn as_binary(e: &VExpr) -> (r: Option<&BinaryExpr>)
    ensures r matches Some(b) ==> *e == VExpr::Binary(Box::new(*b)) && decreases_to!(*e => *b), r is None ==> !(*e is Binary),
{ match e { VExpr::Binary(b) => Some(&**b), _ => None } }
pub fn column(f: Field) -> (r: VExpr) ensures r == VExpr::Column(Column { field: f }) { VExpr::Column(Column { field: f }) }
pub fn bin(a: VExpr, op: Operator, b: VExpr) -> (r: VExpr) ensures r == VExpr::Binary(Box::new(BinaryExpr { lhs: a, operator: op, rhs: b })) { VExpr::Binary(Box::new(BinaryExpr { lhs: a, operator: op, rhs: b })) }
/// a boolean constant
#[verifier::external_body]
pub fn bool_lit(b: bool) -> (r: VExpr) ensures r is Literal, lit_true(r->Literal_0.value) == b { unimplemented!() }
#[verifier::external_body]
pub fn refers(e: &VExpr, f: &Field) -> (r: bool) ensures r == reads(*e, *f) { unimplemented!() }
/// the name the statistic is kept under
#[verifier::external_body]
pub fn stat_column_name(f: &Field, s: Stat) -> (r: Field) ensures r == stat_field(*f, s) { unimplemented!() }
impl Column { pub fn field(&self) -> (r: &Field) ensures *r == self.field { &self.field } }
impl BinaryExpr {
    #[verifier::external_body] /* proved: expr */
    pub fn lhs(&self) -> (r: &VExpr) ensures *r == self.lhs { unimplemented!() }
    #[verifier::external_body] /* proved: expr */
    pub fn rhs(&self) -> (r: &VExpr) ensures *r == self.rhs { unimplemented!() }
    #[verifier::external_body] /* proved: expr */
    pub fn op(&self) -> (r: Operator) ensures r == self.operator { unimplemented!() }
}
/// e, where a column stands for its statistic
pub open spec fn replaced(e: VExpr, s: Stat) -> VExpr { match e { VExpr::Column(c) => VExpr::Column(Column { field: stat_field(c.field, s) }), _ => e } }
pub open spec fn plain(e: VExpr) -> bool { e is Column || e is Literal }
pub proof fn lemma_bin(x: VExpr, op: Operator, y: VExpr, r: Row)
    ensures yes(VExpr::Binary(Box::new(BinaryExpr { lhs: x, operator: op, rhs: y })), r) == (match op { Operator::And => yes(x, r) && yes(y, r), Operator::Or => yes(x, r) || yes(y, r), _ => val(x, r) is Some && val(y, r) is Some && op.says(val(x, r)->0 - val(y, r)->0) })
{ }
pub open spec fn bin_of(a: VExpr, op: Operator, b: VExpr) -> VExpr { VExpr::Binary(Box::new(BinaryExpr { lhs: a, operator: op, rhs: b })) }
pub open spec fn stat_col(f: Field, s: Stat) -> VExpr { VExpr::Column(Column { field: stat_field(f, s) }) }
pub open spec fn cmp_sound(f: Field, op: Operator, o: VExpr, p: VExpr) -> bool { sound(bin_of(VExpr::Column(Column { field: f }), op, o), p) }
/// what the bounds say of a column and of the other operand of a comparison
pub proof fn lemma_operands(f: Field, o: VExpr, st: Row, r: Row)
    requires bounds(st, r), plain(o),
    ensures r(f) matches Some(x) ==> (st(stat_field(f, Stat::Min)) matches Some(m) ==> m <= x) && (st(stat_field(f, Stat::Max)) matches Some(m) ==> x <= m),
        val(o, r) matches Some(x) ==> (val(replaced(o, Stat::Min), st) matches Some(m) ==> m <= x) && (val(replaced(o, Stat::Max), st) matches Some(m) ==> x <= m),
        o is Literal ==> replaced(o, Stat::Min) == o && replaced(o, Stat::Max) == o && val(o, st) == val(o, r),
{
    if r(f) is Some { }
    match o { VExpr::Column(c) => { if r(c.field) is Some { } } _ => {} }
}
pub proof fn lemma_order(f: Field, op: Operator, o: VExpr, p: VExpr)
    requires plain(o),
        (op is Gt && p == bin_of(stat_col(f, Stat::Max), Operator::Lte, replaced(o, Stat::Min))) || (op is Gte && p == bin_of(stat_col(f, Stat::Max), Operator::Lt, replaced(o, Stat::Min)))
        || (op is Lt && p == bin_of(stat_col(f, Stat::Min), Operator::Gte, replaced(o, Stat::Max))) || (op is Lte && p == bin_of(stat_col(f, Stat::Min), Operator::Gt, replaced(o, Stat::Max))),
    ensures cmp_sound(f, op, o, p),
{
    assert forall|st: Row, r: Row| #[trigger] bounds(st, r) && yes(p, st) implies !yes(bin_of(VExpr::Column(Column { field: f }), op, o), r) by { lemma_operands(f, o, st, r); }
}
pub proof fn lemma_equal(f: Field, o: VExpr, p: VExpr)
    requires plain(o), p == bin_of(bin_of(stat_col(f, Stat::Min), Operator::Gt, replaced(o, Stat::Max)), Operator::Or, bin_of(replaced(o, Stat::Min), Operator::Gt, stat_col(f, Stat::Max))),
    ensures cmp_sound(f, Operator::Eq, o, p),
{
    assert forall|st: Row, r: Row| #[trigger] bounds(st, r) && yes(p, st) implies !yes(bin_of(VExpr::Column(Column { field: f }), Operator::Eq, o), r) by {
        lemma_operands(f, o, st, r);
        assert(yes(p, st) == (yes(bin_of(stat_col(f, Stat::Min), Operator::Gt, replaced(o, Stat::Max)), st) || yes(bin_of(replaced(o, Stat::Min), Operator::Gt, stat_col(f, Stat::Max)), st)));
    }
}
pub proof fn lemma_not_equal(f: Field, o: VExpr, p: VExpr)
    requires o is Literal, p == bin_of(
        bin_of(bin_of(stat_col(f, Stat::Min), Operator::Eq, o), Operator::And, bin_of(o, Operator::Eq, stat_col(f, Stat::Max))), Operator::Or,
        bin_of(bin_of(stat_col(f, Stat::Min), Operator::Eq, o), Operator::And, bin_of(o, Operator::Eq, stat_col(f, Stat::Max)))),
    ensures cmp_sound(f, Operator::NotEq, o, p),
{
    assert forall|st: Row, r: Row| #[trigger] bounds(st, r) && yes(p, st) implies !yes(bin_of(VExpr::Column(Column { field: f }), Operator::NotEq, o), r) by {
        lemma_operands(f, o, st, r);
        let (x, y) = (bin_of(stat_col(f, Stat::Min), Operator::Eq, o), bin_of(o, Operator::Eq, stat_col(f, Stat::Max)));
        let z = bin_of(x, Operator::And, y);
        assert(yes(p, st) == (yes(z, st) || yes(z, st)));
        assert(yes(z, st) == (yes(x, st) && yes(y, st)));
    }
}
pub proof fn lemma_listed_bin(a: VExpr, op: Operator, b: VExpr, m: StatMap) requires listed(a, m), listed(b, m) ensures listed(bin_of(a, op, b), m) {
    assert forall|f: Field| #[trigger] reads(bin_of(a, op, b), f) implies exists|g: Field, s: Stat| m.has(g, s) && f == #[trigger] stat_field(g, s) by { if reads(a, f) { } else { assert(reads(b, f)); } }
}
pub proof fn lemma_listed_more(a: VExpr, m: StatMap, n: StatMap) requires listed(a, m), more(m, n) ensures listed(a, n) {
    assert forall|f: Field| #[trigger] reads(a, f) implies exists|g: Field, s: Stat| n.has(g, s) && f == #[trigger] stat_field(g, s) by { let (g, s) = choose|g: Field, s: Stat| m.has(g, s) && f == #[trigger] stat_field(g, s); assert(n.has(g, s)); }
}
pub proof fn lemma_listed_col(g: Field, s: Stat, m: StatMap) requires m.has(g, s) ensures listed(stat_col(g, s), m) {
    assert forall|f: Field| #[trigger] reads(stat_col(g, s), f) implies exists|g2: Field, s2: Stat| m.has(g2, s2) && f == #[trigger] stat_field(g2, s2) by { assert(f == stat_field(g, s)); }
}
pub proof fn lemma_listed_other(o: VExpr, s: Stat, m: StatMap) requires plain(o), o matches VExpr::Column(c) ==> m.has(c.field, s) ensures listed(replaced(o, s), m) {
    match o { VExpr::Column(c) => { lemma_listed_col(c.field, s, m); } _ => { assert forall|f: Field| !reads(o, f) by {} } }
}
