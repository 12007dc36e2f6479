/// A row predicate. `holds` says whether it is true (not false, not null) of one row.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Pred { p: usize }
impl Pred { pub uninterp spec fn holds(&self, row: Elem) -> bool; }
