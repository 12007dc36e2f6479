/// std::collections::HashMap<u32, ChunkIndices>, assumed to be a map
#[verifier::external_body]
pub struct ChunkMap { p: usize }
impl ChunkMap {
    pub uninterp spec fn view(&self) -> Map<u32, ChunkIndices>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<u32, ChunkIndices>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub fn map_get(m: &ChunkMap, k: u32) -> (r: Option<ChunkIndices>) ensures r == (if m@.dom().contains(k) { Some(m@[k]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn map_put(m: &mut ChunkMap, k: u32, v: ChunkIndices) ensures final(m)@ == old(m)@.insert(k, v) { unimplemented!() }
#[verifier::external_body]
pub fn map_at(m: &ChunkMap, k: u32) -> (r: &ChunkIndices) requires m@.dom().contains(k) ensures *r == m@[k] { unimplemented!() }
/// the keys in order
#[verifier::external_body]
pub fn iter_sorted_keys(m: &ChunkMap) -> (r: Vec<u32>)
    ensures forall|i: int, j: int| 0 <= i < j < r.len() ==> r@[i] < r@[j], forall|k: u32| m@.dom().contains(k) <==> r@.contains(k),
{ unimplemented!() }
