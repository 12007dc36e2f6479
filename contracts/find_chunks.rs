/// which chunk holds row x, given where chunks start
pub open spec fn in_chunk(o: Seq<int>, c: int, x: int) -> bool { 0 <= c && c + 1 < o.len() && o[c] <= x < o[c + 1] }
/// the chunks that hold the indices, in order, each with the stretch of indices it holds
pub open spec fn ordered(cs: Seq<ChunkIndices>) -> bool { forall|i: int, j: int| 0 <= i < j < cs.len() ==> cs[i].chunk_idx < cs[j].chunk_idx }
pub open spec fn abut(cs: Seq<ChunkIndices>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).indices_start < cs[i].indices_stop <= n
    &&& (cs.len() == 0 <==> n == 0)
    &&& cs.len() > 0 ==> cs[0].indices_start == 0 && cs[cs.len() - 1].indices_stop == n
    &&& forall|i: int| 0 < i < cs.len() ==> cs[i - 1].indices_stop == (#[trigger] cs[i]).indices_start
}
pub open spec fn within(cs: Seq<ChunkIndices>, o: Seq<int>, ix: Seq<int>) -> bool { forall|i: int, p: int| 0 <= i < cs.len() && cs[i].indices_start <= p < cs[i].indices_stop ==> in_chunk(o, (#[trigger] cs[i]).chunk_idx as int, #[trigger] ix[p]) }
pub open spec fn covers(cs: Seq<ChunkIndices>, o: Seq<int>, ix: Seq<int>, n: int) -> bool { ordered(cs) && abut(cs, n) && within(cs, o, ix) }
pub open spec fn found_chunks(cs: Seq<ChunkIndices>, o: Seq<int>, ix: Seq<int>) -> bool { covers(cs, o, ix, ix.len() as int) }
