// ---- what an array is on the wire: a tree of encoded nodes, each with at most one buffer; the buffers in pre-order, each
// padded with zeros to the next multiple of 64.
pub enum Tree { Node { own: Option<Seq<u8>>, info: int, kids: Seq<Tree> } }
impl Tree {
    pub open spec fn own(self) -> Option<Seq<u8>> { match self { Tree::Node { own, info, kids } => own } }
    pub open spec fn info(self) -> int { match self { Tree::Node { own, info, kids } => info } }
    pub open spec fn kids(self) -> Seq<Tree> { match self { Tree::Node { own, info, kids } => kids } }
}
pub open spec fn one(o: Option<Seq<u8>>) -> Seq<Seq<u8>> { match o { Some(b) => seq![b], None => Seq::empty() } }
/// the nodes of a tree, every node before its children, the children in order
pub open spec fn pre(t: Tree) -> Seq<Tree> decreases t, 0nat { match t { Tree::Node { own, info, kids } => seq![t] + pre_of(kids, kids.len()) } }
pub open spec fn pre_of(s: Seq<Tree>, n: nat) -> Seq<Tree> decreases s, n { if n == 0 || n > s.len() { Seq::empty() } else { pre_of(s, (n - 1) as nat) + pre(s[n - 1]) } }
/// the buffers of the nodes
pub open spec fn owns(ns: Seq<Tree>) -> Seq<Seq<u8>> decreases ns.len() { if ns.len() == 0 { Seq::empty() } else { owns(ns.drop_last()) + one(ns.last().own()) } }
pub open spec fn bufs(t: Tree) -> Seq<Seq<u8>> { owns(pre(t)) }
pub proof fn lemma_owns_add(a: Seq<Tree>, b: Seq<Tree>) ensures owns(a + b) == owns(a) + owns(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(owns(b) =~= Seq::empty()); assert(owns(a) + owns(b) =~= owns(a)); } else { lemma_owns_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(owns(a + b) =~= owns(a) + owns(b)); } }
pub proof fn lemma_owns_one(t: Tree) ensures owns(seq![t]) == one(t.own()) { assert(seq![t].drop_last() =~= Seq::empty()); assert(owns(seq![t].drop_last()) =~= Seq::empty()); assert(owns(seq![t]) =~= one(t.own())); }
/// the buffers of a node and of its children
pub proof fn lemma_bufs(t: Tree) ensures bufs(t) == one(t.own()) + owns(pre_of(t.kids(), t.kids().len())) { lemma_owns_add(seq![t], pre_of(t.kids(), t.kids().len())); lemma_owns_one(t); }
pub proof fn lemma_bufs_kid(s: Seq<Tree>, n: nat) requires n < s.len() ensures owns(pre_of(s, n + 1)) == owns(pre_of(s, n)) + bufs(s[n as int]) { lemma_owns_add(pre_of(s, n), pre(s[n as int])); }
pub proof fn lemma_owns_len(ns: Seq<Tree>) ensures owns(ns).len() <= ns.len() decreases ns.len() { if ns.len() > 0 { lemma_owns_len(ns.drop_last()); } }
/// the size of a buffer with its padding
pub open spec fn up(n: int) -> int { ((n + 63) / 64) * 64 }
pub open spec fn off(bs: Seq<Seq<u8>>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(bs, k - 1) + up(bs[k - 1].len() as int) } }
pub proof fn lemma_off_mono(bs: Seq<Seq<u8>>, a: int, b: int) requires 0 <= a <= b <= bs.len() ensures 0 <= off(bs, a) <= off(bs, b) decreases b { if a < b { lemma_off_mono(bs, a, b - 1); } else if b > 0 { lemma_off_mono(bs, a - 1, b - 1); } }
pub proof fn lemma_off_prefix(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, k: int) requires 0 <= k <= a.len() ensures off(a + b, k) == off(a, k) decreases k { if k > 0 { lemma_off_prefix(a, b, k - 1); assert((a + b)[k - 1] == a[k - 1]); } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| 0u8) }
pub open spec fn wire(bs: Seq<Seq<u8>>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { wire(bs, k - 1) + bs[k - 1] + zeros(up(bs[k - 1].len() as int) - bs[k - 1].len() as int) } }
pub proof fn lemma_wire_len(bs: Seq<Seq<u8>>, k: int) requires 0 <= k <= bs.len() ensures wire(bs, k).len() == off(bs, k) decreases k { if k > 0 { lemma_wire_len(bs, k - 1); } }
/// rounding up as the code does it
pub proof fn lemma_up(n: usize) requires n <= usize::MAX - 63 ensures ((n + 63) as usize & !63usize) == up(n as int), n <= up(n as int) < n + 64
{ let y = (n + 63) as usize; assert(y & !63usize == (y / 64) * 64) by(bit_vector); }
#[verifier::external_body]
pub struct Buffer { p: usize }
impl Buffer {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Array { p: usize }
impl Array {
    pub uninterp spec fn view(&self) -> Tree;
    pub uninterp spec fn slen(&self) -> usize;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.slen() { unimplemented!() }
    #[verifier::external_body]
    pub fn buffer(&self) -> (r: Option<&Buffer>) ensures match (r, self@.own()) { (Some(b), Some(s)) => b@ == s, (None, None) => true, _ => false } { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self) -> (r: Vec<Array>) ensures r.len() == self@.kids().len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == self@.kids()[i] { unimplemented!() }
}
