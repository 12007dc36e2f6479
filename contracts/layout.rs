/// a double-ended queue, kept in a vector
pub struct Deque<T> { pub v: Vec<T> }
impl<T> Deque<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn new() -> (r: Self) ensures r@.len() == 0 { Deque { v: Vec::new() } }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    { if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } }
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@
    { self.v.insert(0, x); assert(self.v@ =~= seq![x] + old(self)@); }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x); }
}
/// Where a message of the file lies.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Message { p: usize }
pub enum ReadResult { ReadMore(Vec<Message>), Batch(Array) }
/// A reader over one part of a file (any `LayoutReader`). `rem()` is what it has yet to deliver.
/// The contract of `read_next` is proved for each implementation: flat_layout, buffered_reader, batch_reader.
#[verifier::external_body]
pub struct Layout { p: usize }
/// What one call of read_next may do to a reader of batches of bs rows: `before` and `after` are what it has yet to
/// deliver, i0 and i1 bound how many empty batches may follow each other.
pub open spec fn read_step(before: Seq<Elem>, after: Seq<Elem>, i0: nat, i1: nat, bs: int, r: VortexResult<Option<ReadResult>>) -> bool {
    &&& r matches Ok(Some(ReadResult::Batch(a))) ==> a@.len() > 0 || i1 < i0
    &&& r matches Ok(Some(ReadResult::Batch(a))) ==> before =~= a@ + after && a@.len() == (if before.len() < bs { before.len() as int } else { bs })
    &&& r matches Ok(Some(ReadResult::ReadMore(m))) ==> after =~= before
    &&& r matches Ok(None) ==> before.len() == 0 && after.len() == 0
}
impl Layout {
    pub uninterp spec fn rem(&self) -> Seq<Elem>;
    pub uninterp spec fn bs(&self) -> int;
    pub uninterp spec fn idle(&self) -> nat;
    #[verifier::external_body] /* proved: flat_layout, buffered_reader, batch_reader */
    pub fn read_next(&mut self) -> (r: VortexResult<Option<ReadResult>>)
        ensures final(self).bs() == old(self).bs(), read_step(old(self).rem(), final(self).rem(), old(self).idle(), final(self).idle(), old(self).bs(), r),
    { unimplemented!() }
}
pub open spec fn rems(l: Seq<Layout>) -> Seq<Elem> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { l[0].rem() + rems(l.subrange(1, l.len() as int)) }
}
pub proof fn lemma_flat_front(s: Seq<Array>) requires s.len() > 0 ensures flat(s) == s[0]@ + flat(s.subrange(1, s.len() as int)) {
    assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int)); lemma_flat_concat(seq![s[0]], s.subrange(1, s.len() as int)); lemma_flat_one(s[0]);
}
pub proof fn lemma_flat_push_front(a: Array, s: Seq<Array>) ensures flat(seq![a] + s) == a@ + flat(s) { lemma_flat_concat(seq![a], s); lemma_flat_one(a); }
pub proof fn lemma_flat_push_all() ensures forall|s: Seq<Array>, a: Array| #[trigger] flat(s.push(a)) == flat(s) + a@ {
    assert forall|s: Seq<Array>, a: Array| #[trigger] flat(s.push(a)) == flat(s) + a@ by { lemma_flat_push(s, a); }
}
pub fn opt_batch(a: Option<Array>) -> (r: Option<ReadResult>) ensures r == (match a { Some(x) => Some(ReadResult::Batch(x)), None => None }) { match a { Some(x) => Some(ReadResult::Batch(x)), None => None } }
pub fn extend_messages(v: &mut Vec<Message>, w: Vec<Message>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
