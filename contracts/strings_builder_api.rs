// ---- the builder (proved: strings_builder)
#[verifier::external_body]
#[verifier::accept_recursive_types(O)]
pub struct VarBinBuilder<O: NativePType> { p: usize, q: core::marker::PhantomData<O> }
impl<O: NativePType> VarBinBuilder<O> {
    pub uninterp spec fn inv(&self) -> bool;
    pub uninterp spec fn view(&self) -> Seq<Row>;
    pub uninterp spec fn held(&self) -> int;
    pub uninterp spec fn all_there(&self) -> bool;
    pub open spec fn cut(values: Seq<u8>, ends: Seq<int>) -> Seq<Row> { Seq::new(ends.len(), |i: int| Some(values.subrange(if i == 0 { 0 } else { ends[i - 1] }, ends[i]))) }
    pub open spec fn ends_ok(ends: Seq<int>, n: int) -> bool {
        &&& forall|i: int| 0 <= i < ends.len() ==> 0 <= #[trigger] ends[i] <= n
        &&& forall|i: int, j: int| 0 <= i <= j < ends.len() ==> ends[i] <= ends[j]
        &&& n == (if ends.len() == 0 { 0 } else { ends.last() })
    }
    #[verifier::external_body] /* proved: strings_builder */
    pub fn with_capacity(len: usize) -> (r: Self)
        requires len < usize::MAX, ensures r.inv(), r@ == Seq::<Row>::empty(), r.held() == 0, r.all_there(), { unimplemented!() }
    #[verifier::external_body] /* proved: strings_builder */
    pub fn push_value(&mut self, value: &[u8])
        requires old(self).inv(), old(self).held() + value.len() <= O::most(), old(self).held() + value.len() <= usize::MAX,
        ensures final(self).inv(), final(self)@ == old(self)@.push(Some(value@)), final(self).held() == old(self).held() + value.len(), old(self).all_there() ==> final(self).all_there(), { unimplemented!() }
    #[verifier::external_body] /* proved: strings_builder */
    pub fn push_null(&mut self)
        requires old(self).inv(),
        ensures final(self).inv(), final(self)@ == old(self)@.push(None::<Seq<u8>>), final(self).held() == old(self).held(), !final(self).all_there(), { unimplemented!() }
    #[verifier::external_body] /* proved: strings_builder */
    pub fn push(&mut self, value: Option<&[u8]>)
        requires old(self).inv(), value matches Some(v) ==> old(self).held() + v.len() <= O::most() && old(self).held() + v.len() <= usize::MAX,
        ensures final(self).inv(), final(self)@ == old(self)@.push(match value { Some(v) => Some(v@), None => None }),
            final(self).held() == old(self).held() + (match value { Some(v) => v.len() as int, None => 0 }), old(self).all_there() && value is Some ==> final(self).all_there(), { unimplemented!() }
    #[verifier::external_body] /* proved: strings_builder */
    pub fn push_values(&mut self, values: &[u8], end_offsets: &[O], num: usize)
        requires old(self).inv(), num == end_offsets@.len(), Self::ends_ok(vals(end_offsets@), values@.len() as int), old(self).held() + values.len() <= O::most(), old(self).held() + values.len() <= usize::MAX,
        ensures final(self).inv(), final(self)@ == old(self)@ + Self::cut(values@, vals(end_offsets@)), final(self).held() == old(self).held() + values.len(), old(self).all_there() ==> final(self).all_there(), { unimplemented!() }
    #[verifier::external_body] /* proved: strings_builder */
    pub fn finish(self, dtype: DType) -> (r: VarBinArray)
        requires self.inv(), dtype.nullable() || self.all_there(), ensures r.inv(), r@ == self@, r.sdtype() == dtype, { unimplemented!() }
}
