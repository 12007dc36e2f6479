use std::sync::Arc;
/// text, owned or borrowed
#[verifier::external_body]
pub struct Str { p: usize }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &Str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { p: usize }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
}
pub open spec fn texts(v: Seq<Str>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the first position of a name
pub open spec fn first(names: Seq<Seq<u8>>, n: Seq<u8>) -> Option<int> {
    if exists|i: int| first_at(names, n, i) { Some(choose|i: int| first_at(names, n, i)) } else { None }
}
pub open spec fn first_at(names: Seq<Seq<u8>>, n: Seq<u8>, i: int) -> bool { 0 <= i < names.len() && names[i] == n && forall|j: int| 0 <= j < i ==> names[j] != n }
pub proof fn lemma_first(names: Seq<Seq<u8>>, n: Seq<u8>, i: int) requires first_at(names, n, i) ensures first(names, n) == Some(i)
{ let k = choose|k: int| first_at(names, n, k); assert(first_at(names, n, k)); if k < i { assert(names[k] != n); } if i < k { assert(names[i] != n); } }
pub proof fn lemma_no_first(names: Seq<Seq<u8>>, n: Seq<u8>) requires forall|i: int| 0 <= i < names.len() ==> names[i] != n ensures first(names, n) is None {}
/// what is on the wire for a type; a type is known by it: every part of the type is in it
pub enum W {
    Null, Bool(bool), Prim(fb::PType, bool), Utf8(bool), Binary(bool),
    Struct(Option<Seq<Seq<u8>>>, Option<Seq<W>>, bool),
    List(Option<Box<W>>, bool),
    Ext(Option<Seq<u8>>, Option<Seq<u8>>, bool),
    Broken,
}
