pub mod fba {
    use super::*;
    pub struct ArrayArgs { pub version: Version, pub buffer_index: Option<u64>, pub encoding: u16, pub metadata: Option<Meta>, pub stats: Option<Stats>, pub children: Option<fb::WVec<WNum>> }
    #[verifier::external_body]
    pub struct Array { p: usize }
    impl Array {
        #[verifier::external_body]
        pub fn create(fbb: &mut Fbb, a: &ArrayArgs) -> (r: WNum)
            requires a.children is Some, a.metadata is Some, a.stats is Some,
            ensures r@ == (Num::Node { index: match a.buffer_index { Some(k) => Some(k as int), None => None }, info: info_of(a.encoding, a.metadata->Some_0, a.stats->Some_0), kids: nums(a.children->Some_0.items()) })
        { unimplemented!() }
    }
}
pub struct Version(pub u8);
#[verifier::external_body] pub struct Meta { p: usize }
#[verifier::external_body] pub struct Stats { p: usize }
#[verifier::external_body] pub struct EncId { p: usize }
pub uninterp spec fn info_of(e: u16, m: Meta, s: Stats) -> int;
impl Array {
    pub uninterp spec fn code(&self) -> u16;
    pub uninterp spec fn meta(&self) -> Meta;
    pub uninterp spec fn stats(&self) -> Stats;
    #[verifier::external_body]
    pub fn encoding_code(&self) -> (r: u16) ensures r == self.code() { unimplemented!() }
    #[verifier::external_body]
    pub fn stats_fb(&self) -> (r: Stats) ensures r == self.stats() { unimplemented!() }
    #[verifier::external_body] /* proved: nbuffers */
    pub fn cumulative_nbuffers(&self) -> (r: usize) ensures r == bufs(self@).len() { unimplemented!() }
}
#[verifier::external_body]
pub fn meta_fb(a: &Array) -> (r: Option<Meta>) ensures r == Some(a.meta()) { unimplemented!() }
/// what a node tells about itself is its encoding, metadata and statistics
pub axiom fn axiom_info(a: Array) ensures a@.info() == info_of(a.code(), a.meta(), a.stats());
pub fn no_version() -> Version { Version(0) }
