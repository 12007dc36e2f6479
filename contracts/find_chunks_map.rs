/// the map holds exactly the entries of the list, each under its chunk
pub open spec fn same_entries(m: Map<u32, ChunkIndices>, g: Seq<ChunkIndices>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> m.dom().contains((#[trigger] g[i]).chunk_idx) && m[g[i].chunk_idx] == g[i]
    &&& forall|k: u32| m.dom().contains(k) ==> exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).chunk_idx == k
}
/// the sorted keys of the map lead to the list
pub proof fn lemma_sorted_keys(m: Map<u32, ChunkIndices>, g: Seq<ChunkIndices>, ks: Seq<u32>, n: int)
    requires same_entries(m, g), forall|i: int, j: int| 0 <= i < j < g.len() ==> g[i].chunk_idx < g[j].chunk_idx,
        forall|i: int, j: int| 0 <= i < j < ks.len() ==> ks[i] < ks[j], forall|k: u32| m.dom().contains(k) <==> ks.contains(k), 0 <= n <= ks.len(), n <= g.len(),
    ensures forall|i: int| 0 <= i < n ==> ks[i] == (#[trigger] g[i]).chunk_idx, n == ks.len() ==> g.len() == n, n == g.len() ==> ks.len() == n,
    decreases n
{
    if n > 0 {
        lemma_sorted_keys(m, g, ks, n - 1);
        let (a, b) = (ks[n - 1], g[n - 1].chunk_idx);
        assert(ks.contains(b)); assert(ks.contains(a));
        let p = choose|p: int| 0 <= p < ks.len() && ks[p] == b;
        let q = choose|q: int| 0 <= q < g.len() && (#[trigger] g[q]).chunk_idx == a;
        if p < n - 1 { assert(g[p].chunk_idx == b); assert(g[p].chunk_idx < g[n - 1].chunk_idx); }
        if q < n - 1 { assert(ks[q] == a); assert(ks[q] < ks[n - 1]); }
        if p > n - 1 { assert(ks[n - 1] < ks[p]); assert(a < b); if q > n - 1 { assert(g[n - 1].chunk_idx < g[q].chunk_idx); } }
        assert(p == n - 1);
    }
    if n == ks.len() && g.len() > n { let b = g[n].chunk_idx; assert(ks.contains(b)); let p = choose|p: int| 0 <= p < ks.len() && ks[p] == b; assert(g[p].chunk_idx < g[n].chunk_idx); }
    if n == g.len() && ks.len() > n { let a = ks[n]; assert(ks.contains(a)); let q = choose|q: int| 0 <= q < g.len() && (#[trigger] g[q]).chunk_idx == a; assert(ks[q] < ks[n]); }
}
/// one more index: the last chunk grows, or a later chunk starts
pub open spec fn grown(g: Seq<ChunkIndices>, c: u32, pos: u64) -> Seq<ChunkIndices> {
    if g.len() > 0 && g.last().chunk_idx == c { g.update(g.len() - 1, ChunkIndices { indices_stop: (pos + 1) as u64, ..g.last() }) }
    else { g.push(ChunkIndices { chunk_idx: c, indices_start: pos, indices_stop: (pos + 1) as u64 }) }
}
/// the new index lies in the last chunk or in a later one
pub proof fn lemma_not_before(g: Seq<ChunkIndices>, o: Seq<int>, ix: Seq<int>, c: u32, pos: u64)
    requires abut(g, pos as int), within(g, o, ix), sorted_ints(o), sorted_ints(ix), pos < ix.len(), in_chunk(o, c as int, ix[pos as int]), g.len() > 0,
    ensures c >= g.last().chunk_idx,
{
    let l = g[g.len() - 1];
    assert(l.indices_start <= pos - 1 < l.indices_stop);
    assert(in_chunk(o, l.chunk_idx as int, ix[pos - 1]));
    assert(ix[pos - 1] <= ix[pos as int]);
    if c < l.chunk_idx { assert(o[c + 1] <= o[l.chunk_idx as int]); }
}
pub proof fn lemma_grow_map(g: Seq<ChunkIndices>, m: Map<u32, ChunkIndices>, c: u32, pos: u64)
    requires ordered(g), same_entries(m, g), g.len() > 0 ==> c >= g.last().chunk_idx,
    ensures ordered(grown(g, c, pos)), m.dom().contains(c) <==> (g.len() > 0 && g.last().chunk_idx == c),
        same_entries(m.insert(c, grown(g, c, pos).last()), grown(g, c, pos)), m.dom().contains(c) ==> m[c] == g.last(),
{
    let h = grown(g, c, pos);
    let m2 = m.insert(c, h.last());
    if m.dom().contains(c) { let q = choose|q: int| 0 <= q < g.len() && (#[trigger] g[q]).chunk_idx == c; if q < g.len() - 1 { assert(g[q].chunk_idx < g[g.len() - 1].chunk_idx); } }
    if g.len() > 0 { let l = g[g.len() - 1]; assert(m.dom().contains(l.chunk_idx)); }
    assert forall|k: u32| m2.dom().contains(k) implies exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).chunk_idx == k by {
        if k == c { assert(h[h.len() - 1].chunk_idx == k); } else { let q = choose|q: int| 0 <= q < g.len() && (#[trigger] g[q]).chunk_idx == k; assert(h[q].chunk_idx == k); }
    }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies h[i].chunk_idx < h[j].chunk_idx by { assert(h[i].chunk_idx == g[i].chunk_idx); if j < g.len() { assert(g[i].chunk_idx < g[j].chunk_idx); assert(h[j].chunk_idx == g[j].chunk_idx); } else if i < g.len() - 1 { assert(g[i].chunk_idx < g[g.len() - 1].chunk_idx); } }
    assert forall|i: int| 0 <= i < h.len() implies m2.dom().contains((#[trigger] h[i]).chunk_idx) && m2[h[i].chunk_idx] == h[i] by { if i < h.len() - 1 { assert(h[i] == g[i]); assert(h[i].chunk_idx < h[h.len() - 1].chunk_idx); } }
}
pub proof fn lemma_grow_abut(g: Seq<ChunkIndices>, c: u32, pos: u64)
    requires abut(g, pos as int), pos < u64::MAX, ensures abut(grown(g, c, pos), pos + 1),
{
    let h = grown(g, c, pos);
    assert forall|i: int| 0 < i < h.len() implies h[i - 1].indices_stop == (#[trigger] h[i]).indices_start by { if i < g.len() { assert(g[i - 1].indices_stop == g[i].indices_start); } }
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).indices_start < h[i].indices_stop <= pos + 1 by { if i < g.len() { assert(g[i].indices_start < g[i].indices_stop <= pos); } }
}
pub proof fn lemma_grow_within(g: Seq<ChunkIndices>, o: Seq<int>, ix: Seq<int>, c: u32, pos: u64)
    requires abut(g, pos as int), within(g, o, ix), pos < ix.len(), pos < u64::MAX, in_chunk(o, c as int, ix[pos as int]), ensures within(grown(g, c, pos), o, ix),
{
    let h = grown(g, c, pos);
    assert forall|i: int, p: int| 0 <= i < h.len() && h[i].indices_start <= p < h[i].indices_stop implies in_chunk(o, (#[trigger] h[i]).chunk_idx as int, #[trigger] ix[p]) by {
        if p != pos { assert(i < g.len()); assert(h[i].chunk_idx == g[i].chunk_idx && h[i].indices_start == g[i].indices_start); assert(p < g[i].indices_stop); assert(in_chunk(o, g[i].chunk_idx as int, ix[p])); }
        else { if i < h.len() - 1 { assert(h[i] == g[i]); assert(g[i].indices_stop <= pos); } }
    }
}
pub proof fn lemma_grow(g: Seq<ChunkIndices>, m: Map<u32, ChunkIndices>, o: Seq<int>, ix: Seq<int>, c: u32, pos: u64)
    requires covers(g, o, ix, pos as int), same_entries(m, g), sorted_ints(o), sorted_ints(ix), pos < ix.len(), ix.len() < u64::MAX, in_chunk(o, c as int, ix[pos as int]),
    ensures covers(grown(g, c, pos), o, ix, pos + 1),
        m.dom().contains(c) <==> (g.len() > 0 && g.last().chunk_idx == c),
        same_entries(m.insert(c, grown(g, c, pos).last()), grown(g, c, pos)), m.dom().contains(c) ==> m[c] == g.last(),
{
    if g.len() > 0 { lemma_not_before(g, o, ix, c, pos); }
    lemma_grow_map(g, m, c, pos); lemma_grow_abut(g, c, pos); lemma_grow_within(g, o, ix, c, pos);
}
