impl Validity {
    #[verifier::external_body] /* proved: views_validity */
    pub fn slice(&self, start: usize, stop: usize) -> (r: VortexResult<Validity>)
        requires exists|n: int| #[trigger] self.covers(n) && start <= stop <= n,
        ensures r matches Ok(v) && v.covers(stop - start) && v.nullable() == self.nullable() && forall|i: int| 0 <= i < stop - start ==> #[trigger] v.ok(i) == self.ok(start + i) { unimplemented!() }
    #[verifier::external_body] /* proved: views_validity */
    pub fn take(&self, indices: &Array) -> (r: VortexResult<Validity>)
        requires exists|n: int| #[trigger] self.covers(n) && indices.asks(n),
        ensures r matches Ok(v) && v.covers(indices.n()) && v.nullable() == self.nullable() && forall|i: int| 0 <= i < indices.n() ==> #[trigger] v.ok(i) == self.ok(indices.picks()[i]) { unimplemented!() }
    #[verifier::external_body] /* proved: views_validity */
    pub fn filter(&self, mask: &Array) -> (r: VortexResult<Validity>)
        requires exists|n: int| #[trigger] self.covers(n) && mask.masks(n),
        ensures r matches Ok(v) && v.covers(sel(mask.mask()).len() as int) && v.nullable() == self.nullable() && forall|i: int| 0 <= i < sel(mask.mask()).len() ==> #[trigger] v.ok(i) == self.ok(sel(mask.mask())[i]) { unimplemented!() }
}
