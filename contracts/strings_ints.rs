impl NativePType for u32 {
    open spec fn val(self) -> int { self as int }
    open spec fn most() -> int { u32::MAX as int }
    proof fn lemma_most(self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn of(n: usize) -> (r: Option<Self>) { if n <= 0xffff_ffff { Some(n as u32) } else { None } }
    fn idx(self) -> (r: usize) { self as usize }
    fn zero() -> (r: Self) { 0 }
    fn plus(self, n: usize) -> (r: Self) { (self as usize + n) as u32 }
    fn minus(self, o: Self) -> (r: Self) { self - o }
}

impl NativePType for u64 {
    open spec fn val(self) -> int { self as int }
    open spec fn most() -> int { u64::MAX as int }
    proof fn lemma_most(self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn of(n: usize) -> (r: Option<Self>) { Some(n as u64) }
    fn idx(self) -> (r: usize) { self as usize }
    fn zero() -> (r: Self) { 0 }
    fn plus(self, n: usize) -> (r: Self) { (self as usize + n) as u64 }
    fn minus(self, o: Self) -> (r: Self) { self - o }
}
