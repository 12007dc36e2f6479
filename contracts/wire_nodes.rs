#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Node { p: usize }
impl Node {
    pub uninterp spec fn view(&self) -> Tree;
    #[verifier::external_body]
    pub fn buffer(&self) -> (r: Option<&Buffer>) ensures match (r, self@.own()) { (Some(b), Some(s)) => b@ == s, (None, None) => true, _ => false } { unimplemented!() }
}
/// the nodes a traversal delivers
#[verifier::external_body] /* proved: traversal */
pub fn iter_nodes(a: &Array) -> (r: Vec<Node>) ensures r.len() == pre(a@).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == pre(a@)[i] { unimplemented!() }
/// one more node: its buffer, if it has one, is the next
pub proof fn lemma_step(ns: Seq<Tree>, k: int) requires 0 <= k < ns.len()
    ensures owns(ns.take(k + 1)) == owns(ns.take(k)) + one(ns[k].own()), owns(ns.take(k + 1)).len() <= owns(ns).len(),
        ns[k].own() matches Some(b) ==> owns(ns.take(k)).len() < owns(ns).len() && owns(ns)[owns(ns.take(k)).len() as int] == b,
{
    assert(ns.take(k + 1).drop_last() =~= ns.take(k));
    lemma_owns_add(ns.take(k + 1), ns.skip(k + 1));
    assert(ns.take(k + 1) + ns.skip(k + 1) =~= ns);
}
