#[verifier::external_body] pub struct Cx { p: usize }
pub enum Poll<T> { Ready(T), Pending }
