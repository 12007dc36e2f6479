impl SearchResult {
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_index(self) -> (r: usize)
        ensures r == (match self { SearchResult::Found(i) => i, SearchResult::NotFound(i) => i }),
    { unimplemented!() }
    #[verifier::external_body] /* proved: search_sorted */
    pub fn to_ends_index(self, len: usize) -> (r: usize)
        requires len > 0,
        ensures self matches SearchResult::Found(i) ==> r == (if i == len { i - 1 } else { i as int }),
            self matches SearchResult::NotFound(i) ==> r == (if i == len { i - 1 } else { i as int }),
    { unimplemented!() }
}
pub open spec fn sorted_ints(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub open spec fn insertion(r: SearchResult, o: Seq<int>, value: int, side: SearchSortedSide) -> bool {
    let p = match r { SearchResult::Found(i) => i as int, SearchResult::NotFound(i) => i as int };
    &&& 0 <= p <= o.len()
    &&& side is Left ==> (forall|j: int| 0 <= j < p ==> #[trigger] o[j] < value) && (forall|j: int| p <= j < o.len() ==> #[trigger] o[j] >= value)
    &&& side is Right ==> (forall|j: int| 0 <= j < p ==> #[trigger] o[j] <= value) && (forall|j: int| p <= j < o.len() ==> #[trigger] o[j] > value)
}
/// what the search of sorted u64 values promises (proved in unit search_sorted)
#[verifier::external_body] /* proved: search_sorted */
pub fn search_vec(o: &Vec<u64>, value: u64, side: SearchSortedSide) -> (r: SearchResult)
    requires sorted_ints(to_ints(o@)), ensures insertion(r, to_ints(o@), value as int, side),
{ unimplemented!() }
/// the same over an array of integers
#[verifier::external_body] /* proved: search_sorted */
pub fn search_array(o: &Array, value: u64, side: SearchSortedSide) -> (r: VortexResult<SearchResult>)
    requires sorted_ints(o.ints()), ensures r matches Ok(x) ==> insertion(x, o.ints(), value as int, side),
{ unimplemented!() }
pub fn last_of(v: &Vec<u64>) -> (r: Option<u64>) ensures v.len() == 0 ==> r is None, v.len() > 0 ==> r == Some(v@[v.len() - 1]) { if v.len() == 0 { None } else { Some(v[v.len() - 1]) } }
