/// the encodings' own comparisons and the arrow kernels, as the dispatch sees them
#[verifier::external_body]
pub fn own_compare(a: &Array, b: &Array, op: Operator) -> (r: Option<VortexResult<Array>>)
    requires a.cells().len() == b.cells().len(), a.dt().base() == b.dt().base() || a.dt().extension(),
    ensures r matches Some(Ok(o)) ==> o.is_cmp(op, a.cells(), b.cells()) { unimplemented!() }
#[verifier::external_body]
pub fn storage_extension(a: Array) -> (r: VortexResult<Array>) ensures r matches Ok(o) ==> o.cells() == a.cells() && o.dt() == a.dt() { unimplemented!() }
