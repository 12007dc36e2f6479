pub open spec fn trees(a: Seq<Array>) -> Seq<Tree> { a.map_values(|x: Array| x@) }
/// the nodes that are still to come when the stack holds these arrays, the next on top
pub open spec fn coming(st: Seq<Array>, n: int) -> Seq<Tree> decreases n { if n <= 0 { Seq::empty() } else { pre(st[n - 1]@) + coming(st, n - 1) } }
pub proof fn lemma_coming_same(a: Seq<Array>, b: Seq<Array>, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures coming(a, n) == coming(b, n) decreases n { if n > 0 { lemma_coming_same(a, b, n - 1); } }
