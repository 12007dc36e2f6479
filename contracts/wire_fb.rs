/// an array as the header of a message: every node with the number of its buffer
pub enum Num { Node { index: Option<int>, info: int, kids: Seq<Num> } }
/// the nodes of a tree numbered in pre-order, counting buffers, from s
pub open spec fn numbered(t: Tree, s: int) -> Num decreases t, 0nat {
    match t { Tree::Node { own, info, kids } => Num::Node { index: if own is Some { Some(s) } else { None }, info: info, kids: numbered_kids(kids, kids.len(), s + one(own).len()) } }
}
pub open spec fn numbered_kids(ks: Seq<Tree>, n: nat, s: int) -> Seq<Num> decreases ks, n
{ if n == 0 || n > ks.len() { Seq::empty() } else { numbered_kids(ks, (n - 1) as nat, s).push(numbered(ks[n - 1], s + owns(pre_of(ks, (n - 1) as nat)).len())) } }
/// the header stands for the tree, when these are the buffers of the message
pub open spec fn stands_for(h: Num, t: Tree, all: Seq<Seq<u8>>) -> bool decreases t {
    match (h, t) { (Num::Node { index, info: i, kids: hs }, Tree::Node { own, info, kids }) =>
        i == info && hs.len() == kids.len() && (forall|k: int| 0 <= k < kids.len() ==> stands_for(#[trigger] hs[k], kids[k], all))
        && match (index, own) { (Some(k), Some(b)) => 0 <= k < all.len() && all[k] == b, (None, None) => true, _ => false } }
}
/// numbering and looking up agree: the message means the array it was made from
pub proof fn lemma_stands_for(t: Tree, s: int, all: Seq<Seq<u8>>)
    requires 0 <= s, s + bufs(t).len() <= all.len(), all.subrange(s, s + bufs(t).len()) == bufs(t),
    ensures stands_for(numbered(t, s), t, all),
    decreases t, 1nat
{
    lemma_bufs(t);
    let (o, ks) = (t.own(), t.kids());
    assert(t == Tree::Node { own: o, info: t.info(), kids: ks });
    let s1 = s + one(o).len();
    lemma_numbered_len(ks, ks.len(), s1);
    let rest = owns(pre_of(ks, ks.len()));
    assert(all.subrange(s1, s1 + rest.len()) =~= rest) by { assert forall|i: int| 0 <= i < rest.len() implies all[s1 + i] == rest[i] by { assert(bufs(t)[one(o).len() + i] == rest[i]); assert(all.subrange(s, s + bufs(t).len())[one(o).len() + i] == bufs(t)[one(o).len() + i]); } }
    if o is Some { assert(all.subrange(s, s + bufs(t).len())[0] == bufs(t)[0]); assert(bufs(t)[0] == o->Some_0); }
    let hs = numbered_kids(ks, ks.len(), s1);
    assert forall|k: int| 0 <= k < ks.len() implies stands_for(#[trigger] hs[k], ks[k], all) by {
        lemma_numbered_at(ks, ks.len(), s1, k);
        lemma_owns_part(ks, k as nat, ks.len());
        let b = owns(pre_of(ks, k as nat)).len() as int;
        assert(all.subrange(s1 + b, s1 + b + bufs(ks[k]).len()) =~= bufs(ks[k])) by {
            assert forall|i: int| 0 <= i < bufs(ks[k]).len() implies all[s1 + b + i] == bufs(ks[k])[i] by { assert(rest[b + i] == bufs(ks[k])[i]); assert(all.subrange(s1, s1 + rest.len())[b + i] == rest[b + i]); }
        }
        assert(decreases_to!(t => ks[k]));
        lemma_stands_for(ks[k], s1 + b, all);
    }
    let ix = if o is Some { Some(s) } else { None::<int> };
    assert(numbered(t, s) == Num::Node { index: ix, info: t.info(), kids: hs });
    assert(match (ix, o) { (Some(k), Some(b)) => 0 <= k < all.len() && all[k] == b, (None, None) => true, _ => false }) by { if o is Some { assert(all.subrange(s, s + bufs(t).len()).len() == bufs(t).len()); assert(all[s] == all.subrange(s, s + bufs(t).len())[0]); } }
    assert(hs.len() == ks.len());
    assert(stands_for(Num::Node { index: ix, info: t.info(), kids: hs }, Tree::Node { own: o, info: t.info(), kids: ks }, all));
}
pub proof fn lemma_numbered_len(ks: Seq<Tree>, n: nat, s: int) requires n <= ks.len() ensures numbered_kids(ks, n, s).len() == n decreases n { if n > 0 { lemma_numbered_len(ks, (n - 1) as nat, s); } }
pub proof fn lemma_numbered_at(ks: Seq<Tree>, n: nat, s: int, k: int) requires 0 <= k < n <= ks.len() ensures numbered_kids(ks, n, s)[k] == numbered(ks[k], s + owns(pre_of(ks, k as nat)).len()) decreases n
{ lemma_numbered_len(ks, (n - 1) as nat, s); if k < n - 1 { lemma_numbered_at(ks, (n - 1) as nat, s, k); } }
pub proof fn lemma_owns_part(ks: Seq<Tree>, k: nat, n: nat) requires k < n <= ks.len()
    ensures ({ let (b, m) = (owns(pre_of(ks, k)).len() as int, bufs(ks[k as int]).len() as int); let all = owns(pre_of(ks, n)); b + m <= all.len() && forall|i: int| 0 <= i < m ==> #[trigger] all[b + i] == bufs(ks[k as int])[i] }) decreases n
{ lemma_bufs_kid(ks, (n - 1) as nat); if k + 1 < n { lemma_owns_part(ks, k, (n - 1) as nat); let (b, m) = (owns(pre_of(ks, k)).len() as int, bufs(ks[k as int]).len() as int); let (all, part) = (owns(pre_of(ks, n)), owns(pre_of(ks, (n - 1) as nat))); assert forall|i: int| 0 <= i < m implies #[trigger] all[b + i] == bufs(ks[k as int])[i] by { assert(all[b + i] == part[b + i]); } } }
pub const ALIGNMENT: usize = 64;
#[verifier::external_body]
pub struct Fbb { p: usize }
impl Fbb {
    #[verifier::external_body]
    pub fn create_vector<T>(&mut self, v: &Vec<T>) -> (r: fb::WVec<T>) ensures r.items() == v@ { unimplemented!() }
}
#[verifier::external_body]
pub struct WNum { p: usize }
impl WNum { pub uninterp spec fn view(&self) -> Num; }
pub open spec fn nums(v: Seq<WNum>) -> Seq<Num> { v.map_values(|x: WNum| x@) }
pub mod fb {
    use super::*;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct WVec<T> { p: core::marker::PhantomData<T> }
    impl<T> WVec<T> { pub uninterp spec fn items(&self) -> Seq<T>; }
    /// where a buffer of a message begins, and how many zeros follow it
    pub struct Buffer { pub offset: u64, pub padding: u16 }
    impl Buffer { pub fn new(offset: u64, padding: u16, c: Compression) -> (r: Buffer) ensures r == (Buffer { offset, padding }) { Buffer { offset, padding } } }
    pub struct BatchArgs { pub array: Option<WNum>, pub length: u64, pub buffers: Option<WVec<Buffer>>, pub buffer_size: u64 }
    #[verifier::external_body]
    pub struct Batch { p: usize }
    impl Batch {
        pub uninterp spec fn array(&self) -> Num;
        pub uninterp spec fn slength(&self) -> int;
        pub uninterp spec fn sbuffers(&self) -> Seq<Buffer>;
        pub uninterp spec fn size(&self) -> int;
        #[verifier::external_body]
        pub fn create(fbb: &mut Fbb, args: &BatchArgs) -> (r: Batch)
            requires args.array is Some, args.buffers is Some,
            ensures r.array() == args.array->Some_0@, r.slength() == args.length, r.sbuffers() == args.buffers->Some_0.items(), r.size() == args.buffer_size,
        { unimplemented!() }
    }
    pub enum Compression { None }
    pub struct PageArgs { pub buffer_size: u32, pub padding: u16 }
    #[verifier::external_body]
    pub struct Page { p: usize }
    impl Page {
        pub uninterp spec fn size(&self) -> int;
        pub uninterp spec fn pad(&self) -> int;
        #[verifier::external_body]
        pub fn create(fbb: &mut Fbb, args: &PageArgs) -> (r: Page) ensures r.size() == args.buffer_size, r.pad() == args.padding { unimplemented!() }
    }
}
use fb::Compression;
/// the entries describe these buffers
pub open spec fn describes(es: Seq<fb::Buffer>, size: int, bs: Seq<Seq<u8>>) -> bool {
    es.len() == bs.len() && size == off(bs, bs.len() as int)
        && forall|k: int| 0 <= k < bs.len() ==> (#[trigger] es[k]).offset == off(bs, k) && es[k].padding == up(bs[k].len() as int) - bs[k].len()
}
