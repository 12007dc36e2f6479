impl StatsSet {
    #[verifier::external_body]
    pub fn new() -> (r: StatsSet) ensures r@ == Map::<Stat, Scalar>::empty() { unimplemented!() }
    #[verifier::external_body] /* proved: stats_nulls */
    pub fn nulls(len: usize, dtype: &DType) -> (r: StatsSet) requires len > 0 ensures knows(r@, nulls(len as nat)), typed(r@) { unimplemented!() }
}
