impl Validity {
    /// whether the element at i is there
    pub open spec fn ok(&self, i: int) -> bool { match self { Validity::NonNullable => true, Validity::AllValid => true, Validity::AllInvalid => false, Validity::Array(a) => a.bools()[i] } }
    /// for an array of n elements
    pub open spec fn fits(&self, n: int) -> bool { self matches Validity::Array(a) ==> a.bools().len() == n && a@.len() == n }
    pub open spec fn oks(&self, n: nat) -> Seq<bool> { Seq::new(n, |i: int| self.ok(i)) }
    pub open spec fn nullable(&self) -> bool { !(self is NonNullable) }
}
impl Clone for Validity {
    #[verifier::external_body]
    fn clone(&self) -> (r: Validity) ensures r == *self { unimplemented!() }
}
