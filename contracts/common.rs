#[derive(Debug)]
pub struct VErr;
pub type VortexResult<T> = Result<T, VErr>;
pub fn vassert(b: bool) requires b {}
#[verifier::external_body]
pub fn vpanic() -> ! requires false { loop {} }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vsub_sat(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { 0 } else { a - b }) { if a < b { 0 } else { a - b } }
global size_of usize == 8;
pub fn vec_filled<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x {
    let mut v = Vec::new(); let mut k = 0; while k < n invariant k <= n, v.len() == k, forall|i: int| 0 <= i < k ==> v@[i] == x decreases n - k { v.push(x); k = k + 1; } v
}
