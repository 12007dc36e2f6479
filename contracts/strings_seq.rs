/// the strings to encode, in order
#[verifier::external_body]
pub struct Strings { p: usize }
impl Strings {
    pub uninterp spec fn view(&self) -> Seq<Row>;
}
pub open spec fn got(o: Option<&[u8]>) -> Row { match o { Some(v) => Some(v@), None => None } }
#[verifier::external_body]
pub fn iter_strings(s: &Strings) -> (r: Vec<Option<&[u8]>>) ensures r.len() == s@.len(), forall|i: int| 0 <= i < r.len() ==> got(#[trigger] r@[i]) == s@[i] { unimplemented!() }
pub open spec fn width(r: Row) -> int { match r { Some(v) => v.len() as int, None => 0 } }
pub open spec fn size(s: Seq<Row>, k: int) -> int decreases k { if k <= 0 { 0 } else { size(s, k - 1) + width(s[k - 1]) } }
pub proof fn lemma_size(s: Seq<Row>, a: int, b: int) requires 0 <= a <= b ensures 0 <= size(s, a) <= size(s, b) decreases b { if a < b { lemma_size(s, a, b - 1); } else if a > 0 { lemma_size(s, a - 1, a - 1); } }
