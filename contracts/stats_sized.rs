/// no count exceeds what an array of `n` elements can have
pub open spec fn sized(m: SV, n: nat) -> bool {
    &&& m.dom().contains(Stat::RunCount) ==> m[Stat::RunCount].num()->0 <= 2 * n
    &&& m.dom().contains(Stat::RunCount) && n > 0 ==> m[Stat::RunCount].num()->0 < 2 * n
}
pub proof fn lemma_sized_fits(own: SV, other: SV, d1: Data, d2: Data)
    requires knows(own, d1), knows(other, d2), sized(own, d1.len()), sized(other, d2.len()), 2 * (d1.len() + d2.len()) < usize::MAX,
    ensures fits(own, other),
{
    assert forall|s: Stat| #[trigger] fits_at(own, other, s) by {
        if own.dom().contains(s) && other.dom().contains(s) {
            assert(holds_for(own, d1, s) && holds_for(other, d2, s));
            assert(d1.len() > 0 && d2.len() > 0);
            lemma_count_le(d1, p_null()); lemma_count_le(d2, p_null()); lemma_count_le(d1, p_true()); lemma_count_le(d2, p_true());
            if is_freq_stat(s) {
                assert forall|w: int| 0 <= w < own[s].freq()->0.len() implies #[trigger] own[s].freq()->0[w] + other[s].freq()->0[w] <= u64::MAX by {
                    let p = if s is BitWidthFreq { p_width(w) } else { p_zeros(w) };
                    lemma_count_le(d1, p); lemma_count_le(d2, p);
                    assert(own[s].freq()->0[w] == count(d1, p)); assert(other[s].freq()->0[w] == count(d2, p));
                }
            }
        }
    }
}
pub proof fn lemma_sized_merge(own: SV, other: SV, fin: SV, d1: Data, d2: Data)
    requires knows(own, d1), knows(other, d2), sized(own, d1.len()), sized(other, d2.len()), joint(own, other, fin),
    ensures knows(fin, d1 + d2), sized(fin, (d1 + d2).len()),
{
    if (d1 + d2).len() == 0 { assert forall|s: Stat| !fin.dom().contains(s) by {} assert(fin.dom() =~= Set::empty()); }
}
