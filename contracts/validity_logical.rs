impl LogicalValidity {
    pub open spec fn size(&self) -> int { match self { LogicalValidity::AllValid(n) => *n as int, LogicalValidity::AllInvalid(n) => *n as int, LogicalValidity::Array(a) => a@.len() as int } }
    pub open spec fn ok(&self, i: int) -> bool { match self { LogicalValidity::AllValid(n) => true, LogicalValidity::AllInvalid(n) => false, LogicalValidity::Array(a) => a.bools()[i] } }
}
impl LogicalValidity {
    pub open spec fn inv(&self) -> bool { self matches LogicalValidity::Array(a) ==> a.bools().len() == a@.len() }
    pub open spec fn oks(&self) -> Seq<bool> { Seq::new(self.size() as nat, |i: int| self.ok(i)) }
}
/// the validities one after the other
pub open spec fn all_oks(v: Seq<LogicalValidity>) -> Seq<bool> decreases v.len() { if v.len() == 0 { Seq::empty() } else { all_oks(v.drop_last()) + v.last().oks() } }
pub proof fn lemma_oks_step(v: Seq<LogicalValidity>, k: int) ensures 0 <= k < v.len() ==> all_oks(v.take(k + 1)) == all_oks(v.take(k)) + v[k].oks() { if 0 <= k < v.len() { assert(v.take(k + 1).drop_last() =~= v.take(k)); } }
/// a builder of bit buffers
#[verifier::external_body]
pub struct BitBuilder { p: usize }
impl BitBuilder {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn new() -> (r: BitBuilder) ensures r@ == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn append_n(&mut self, n: usize, v: bool) ensures final(self)@ == old(self)@ + Seq::new(n as nat, |i: int| v) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_buffer(&mut self, b: &BooleanBuffer) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: BooleanBuffer) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn array_bits_of(a: Array) -> (r: BooleanBuffer) requires a.bools().len() == a@.len() ensures r@ == a.bools() { unimplemented!() }
pub fn or_false(o: Option<bool>) -> (r: bool) ensures r == (o == Some(true)) { match o { Some(b) => b, None => false } }
pub fn not_some(o: Option<bool>) -> (r: Option<bool>) ensures o matches Some(b) ==> r == Some(!b), o is None ==> r is None { match o { Some(b) => Some(!b), None => None } }
pub proof fn lemma_keep_same(s: Seq<bool>, m: Seq<bool>)
    requires s.len() == m.len(),
    ensures all_eq(s, true) ==> all_eq(keep(s, m), true), all_eq(s, false) ==> all_eq(keep(s, m), false), decreases s.len()
{ if s.len() > 0 { lemma_keep_same(s.drop_last(), m.drop_last()); assert(s.last() == s[s.len() - 1]); assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]); } }
pub proof fn lemma_keep_len<T, U>(s: Seq<T>, t: Seq<U>, m: Seq<bool>)
    requires s.len() == m.len(), t.len() == m.len(), ensures keep(s, m).len() == keep(t, m).len(), decreases s.len()
{ if s.len() > 0 { lemma_keep_len(s.drop_last(), t.drop_last(), m.drop_last()); } }
