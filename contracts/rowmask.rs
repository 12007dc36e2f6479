impl RowFilter {
    pub open spec fn inv(&self) -> bool { self.conjunction@.len() > 0 }
    /// all of the predicates are true of a row
    pub open spec fn pass(&self, row: Elem) -> bool { all_hold(self.conjunction@, row) }
}
pub open spec fn all_hold(c: Seq<Pred>, row: Elem) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).holds(row) }
pub open spec fn pass_all(f: RowFilter, rows: Seq<Elem>) -> Seq<bool> { rows.map_values(|r: Elem| f.pass(r)) }
/// the number of set bits, when the encoding can count them
#[verifier::external_body]
pub fn true_count(a: &Array) -> (r: Option<usize>) ensures r == Some(0usize) ==> forall|i: int| 0 <= i < a.bools().len() ==> !a.bools()[i] { unimplemented!() }
