pub proof fn lemma_count_cat(a: Data, b: Data, p: spec_fn(Option<int>) -> bool)
    ensures count(a + b, p) == count(a, p) + count(b, p), decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_count_cat(a, b.drop_last(), p); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_last_cat(a: Data, b: Data)
    ensures last_value(a + b) == if last_value(b) is Some { last_value(b) } else { last_value(a) }, decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_last_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_no_runs(b: Data) ensures last_value(b) is None ==> runs(b) == 0, decreases b.len() { if b.len() > 0 { lemma_no_runs(b.drop_last()); } }
pub proof fn lemma_runs_cat(a: Data, b: Data)
    ensures runs(a + b) <= runs(a) + runs(b), last_value(b) is None ==> runs(a + b) <= runs(a), decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let p = b.drop_last();
        lemma_runs_cat(a, p); lemma_last_cat(a, p); lemma_no_runs(p);
        assert((a + b).drop_last() =~= a + p); assert((a + b).last() == b.last());
    }
}
pub open spec fn uses_bounds(s: Stat) -> bool { is_bool_stat(s) }
/// what the merge of `s` relies on
pub open spec fn basis(m: SV, d: Data, s: Stat) -> bool {
    d.len() > 0 && holds_for(m, d, s) && (uses_bounds(s) ==> holds_for(m, d, Stat::Min) && holds_for(m, d, Stat::Max))
}
/// merging `s` changes only `s`, drops it unless both sides know it, and the merged statistic is true of the concatenation
pub open spec fn merged(own: SV, other: SV, fin: SV, s: Stat) -> bool {
    &&& fin.remove(s) == own.remove(s)
    &&& fin.dom().contains(s) ==> own.dom().contains(s) && other.dom().contains(s)
    &&& typed(fin)
    &&& s is RunCount && fin.dom().contains(s) ==> fin[s].num()->0 <= own[s].num()->0 + other[s].num()->0 + 1
    &&& forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) ==> holds_for(fin, d1 + d2, s)
}
/// counts stay within the machine's integers, frequency tables have one length
pub open spec fn fits_at(own: SV, other: SV, s: Stat) -> bool {
    own.dom().contains(s) && other.dom().contains(s) ==>
        (is_num_stat(s) ==> own[s].num()->0 + other[s].num()->0 + 1 <= usize::MAX)
        && (is_freq_stat(s) ==> own[s].freq()->0.len() == other[s].freq()->0.len()
            && forall|w: int| 0 <= w < own[s].freq()->0.len() ==> #[trigger] own[s].freq()->0[w] + other[s].freq()->0[w] <= u64::MAX)
}
pub open spec fn fits(own: SV, other: SV) -> bool { forall|s: Stat| #[trigger] fits_at(own, other, s) }
/// the merged set reports nothing that one of the two does not
pub open spec fn joint(own: SV, other: SV, fin: SV) -> bool {
    &&& forall|s: Stat| #[trigger] fin.dom().contains(s) ==> own.dom().contains(s) && other.dom().contains(s)
    &&& fin.dom().contains(Stat::RunCount) ==> fin[Stat::RunCount].num()->0 <= own[Stat::RunCount].num()->0 + other[Stat::RunCount].num()->0 + 1
    &&& forall|d1: Data, d2: Data| #[trigger] knows(own, d1) && #[trigger] knows(other, d2) ==> holds(fin, d1 + d2)
}
/// the statistics of the first `k` variants have been merged, the others not
pub open spec fn done(s: Stat, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] variants_Stat()[i] == s }
pub open spec fn knows(m: SV, d: Data) -> bool { holds(m, d) && (d.len() > 0 || m.dom() =~= Set::empty()) }
pub open spec fn partly(own: SV, other: SV, now: SV, k: int) -> bool {
    &&& forall|s: Stat| !#[trigger] done(s, k) ==> (now.dom().contains(s) <==> own.dom().contains(s)) && now[s] == own[s]
    &&& forall|s: Stat| #[trigger] done(s, k) && now.dom().contains(s) ==> own.dom().contains(s) && other.dom().contains(s)
    &&& done(Stat::RunCount, k) && now.dom().contains(Stat::RunCount) ==> now[Stat::RunCount].num()->0 <= own[Stat::RunCount].num()->0 + other[Stat::RunCount].num()->0 + 1
    &&& forall|s: Stat, d1: Data, d2: Data| #[trigger] done(s, k) && #[trigger] knows(own, d1) && #[trigger] knows(other, d2) ==> holds_for(now, d1 + d2, s)
}
pub proof fn lemma_done(s: Stat, k: int)
    requires 0 <= k < variants_Stat().len(),
    ensures done(s, k + 1) <==> done(s, k) || s == variants_Stat()[k],
{
    if done(s, k) { let i = choose|i: int| 0 <= i < k && #[trigger] variants_Stat()[i] == s; assert(0 <= i < k + 1 && variants_Stat()[i] == s); }
    if s == variants_Stat()[k] { assert(0 <= k < k + 1 && variants_Stat()[k] == s); }
}
/// a statistic is merged before the statistics its merge relies on
pub proof fn lemma_step_needs(own: SV, other: SV, m: SV, k: int)
    requires partly(own, other, m, k), 0 <= k < variants_Stat().len(), fits(own, other),
    ensures !done(variants_Stat()[k], k), uses_bounds(variants_Stat()[k]) ==> !done(Stat::Min, k) && !done(Stat::Max, k), fits_at(m, other, variants_Stat()[k]),
{
    let s = variants_Stat()[k];
    assert(!done(s, k));
    assert(fits_at(own, other, s));
}
pub proof fn lemma_step(own: SV, other: SV, m: SV, n: SV, k: int)
    requires partly(own, other, m, k), 0 <= k < variants_Stat().len(), merged(m, other, n, variants_Stat()[k]), !done(variants_Stat()[k], k),
        uses_bounds(variants_Stat()[k]) ==> !done(Stat::Min, k) && !done(Stat::Max, k),
    ensures partly(own, other, n, k + 1),
{
    let s = variants_Stat()[k];
    lemma_done(Stat::RunCount, k);
    assert forall|t: Stat| t != s implies (#[trigger] n.dom().contains(t) <==> m.dom().contains(t)) && n[t] == m[t] by {
        assert(n.remove(s).dom().contains(t) <==> n.dom().contains(t)); assert(m.remove(s).dom().contains(t) <==> m.dom().contains(t));
        assert(n.remove(s)[t] == n[t]); assert(m.remove(s)[t] == m[t]);
    }
    assert(!done(s, k));
    assert forall|t: Stat| !#[trigger] done(t, k + 1) implies (n.dom().contains(t) <==> own.dom().contains(t)) && n[t] == own[t] by { lemma_done(t, k); assert(!done(t, k)); assert(n.dom().contains(t) <==> m.dom().contains(t)); }
    assert forall|t: Stat| #[trigger] done(t, k + 1) && n.dom().contains(t) implies own.dom().contains(t) && other.dom().contains(t) by { lemma_done(t, k); if t != s { assert(done(t, k)); assert(m.dom().contains(t)); } else { assert(m.dom().contains(s)); } }
    assert forall|t: Stat, d1: Data, d2: Data| #[trigger] done(t, k + 1) && #[trigger] knows(own, d1) && #[trigger] knows(other, d2) implies holds_for(n, d1 + d2, t) by {
        lemma_done(t, k);
        if t != s { assert(holds_for(m, d1 + d2, t)); }
        else if n.dom().contains(s) {
            assert(own.dom().contains(s) && other.dom().contains(s));
            assert(d1.len() > 0 && d2.len() > 0);
            assert(holds_for(own, d1, s) && holds_for(other, d2, s));
            if uses_bounds(s) { assert(holds_for(own, d1, Stat::Min) && holds_for(own, d1, Stat::Max) && holds_for(other, d2, Stat::Min) && holds_for(other, d2, Stat::Max)); }
            assert(basis(m, d1, s) && basis(other, d2, s));
        }
    }
}
pub proof fn lemma_all_done(own: SV, other: SV, fin: SV)
    requires partly(own, other, fin, variants_Stat().len() as int),
    ensures joint(own, other, fin),
{
    lemma_every_stat(Stat::RunCount);
    assert forall|s: Stat| #[trigger] fin.dom().contains(s) implies own.dom().contains(s) && other.dom().contains(s) by { lemma_every_stat(s); }
    assert forall|d1: Data, d2: Data| #[trigger] knows(own, d1) && #[trigger] knows(other, d2) implies holds(fin, d1 + d2) by {
        assert forall|s: Stat| #[trigger] holds_for(fin, d1 + d2, s) by { assert(done(s, variants_Stat().len() as int)) by { lemma_every_stat(s); } }
    }
}
pub proof fn lemma_every_stat(s: Stat) ensures done(s, variants_Stat().len() as int) {
    let n = variants_Stat().len() as int;
    let v = variants_Stat();
    assert(exists|i: int| 0 <= i < n && #[trigger] variants_Stat()[i] == s) by {
        assert(v[0] == v[0] && v[1] == v[1] && v[2] == v[2] && v[3] == v[3] && v[4] == v[4] && v[5] == v[5] && v[6] == v[6] && v[7] == v[7] && v[8] == v[8] && v[9] == v[9]);
    }
}
/// the bound of two arrays: a null bound means no values
pub open spec fn bound_of(s: Stat, a: Option<int>, b: Option<int>) -> Option<int> {
    match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => if (s is Min) == (y < x) { b } else if x == y { a } else if (s is Min) == (x < y) { a } else { b } }
}
pub proof fn lemma_bound(s: Stat, a: Scalar, b: Scalar, f: Scalar, d1: Data, d2: Data)
    requires s is Min || s is Max, stat_true(s, a, d1), stat_true(s, b, d2), f.ord() == bound_of(s, a.ord(), b.ord()),
    ensures stat_true(s, f, d1 + d2),
{
    let d = d1 + d2;
    assert forall|i: int| 0 <= i < d1.len() implies #[trigger] d[i] == d1[i] by {}
    assert forall|i: int| 0 <= i < d2.len() implies #[trigger] d[i + d1.len()] == d2[i] by {}
    if a.ord() is Some { let i = choose|i: int| 0 <= i < d1.len() && #[trigger] d1[i] == Some(a.ord()->0); assert(d[i] == Some(a.ord()->0)); }
    if b.ord() is Some { let i = choose|i: int| 0 <= i < d2.len() && #[trigger] d2[i] == Some(b.ord()->0); assert(d[i + d1.len()] == Some(b.ord()->0)); }
}
pub proof fn lemma_cat_at(a: Data, b: Data)
    ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == (a + b)[i], forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == (a + b)[i + a.len()],
        forall|i: int| 0 <= i < (a + b).len() ==> #[trigger] (a + b)[i] == if i < a.len() { a[i] } else { b[i - a.len()] },
{}
/// constancy of a concatenation, from the parts
pub proof fn lemma_constant(a: Scalar, b: Scalar, m: Option<Scalar>, n: Option<Scalar>, d1: Data, d2: Data)
    requires d1.len() > 0, d2.len() > 0, stat_true(Stat::IsConstant, a, d1), stat_true(Stat::IsConstant, b, d2), m is Some ==> stat_true(Stat::Min, m->0, d1), n is Some ==> stat_true(Stat::Min, n->0, d2),
    ensures a.bool() == Some(false) || b.bool() == Some(false) ==> !constant(d1 + d2) || has_nan(d1 + d2),
        m is Some && n is Some && m->0.ord() != n->0.ord() ==> !constant(d1 + d2),
        m is Some && n is Some && m->0.ord() == n->0.ord() && a.bool() == Some(true) && b.bool() == Some(true) ==> constant(d1 + d2),
{
    let d = d1 + d2;
    lemma_cat_at(d1, d2);
    if constant(d) {
        assert forall|i: int, j: int| 0 <= i < d1.len() && 0 <= j < d1.len() implies #[trigger] d1[i] == #[trigger] d1[j] by { assert(d[i] == d[j]); }
        assert forall|i: int, j: int| 0 <= i < d2.len() && 0 <= j < d2.len() implies #[trigger] d2[i] == #[trigger] d2[j] by { assert(d[i + d1.len()] == d[j + d1.len()]); }
        assert(d[0] == d[d1.len() as int]); assert(d1[0] == d2[0]);
    }
    if has_nan(d1) { let i = choose|i: int| 0 <= i < d1.len() && (#[trigger] d1[i]) is Some && rank_is_nan(d1[i]->0); assert(d[i] == d1[i]); }
    if has_nan(d2) { let i = choose|i: int| 0 <= i < d2.len() && (#[trigger] d2[i]) is Some && rank_is_nan(d2[i]->0); assert(d[i + d1.len()] == d2[i]); }
    if m is Some && n is Some {
        if m->0.ord() is Some { let i = choose|i: int| 0 <= i < d1.len() && #[trigger] d1[i] == m->0.ord(); assert(d[i] == d1[i]); }
        if n->0.ord() is Some { let i = choose|i: int| 0 <= i < d2.len() && #[trigger] d2[i] == n->0.ord(); assert(d[i + d1.len()] == d2[i]); }
        assert(d[0] == d1[0]); assert(d[d1.len() as int] == d2[0]);
        if constant(d1) && constant(d2) && m->0.ord() == n->0.ord() {
            assert(d1[0] == m->0.ord()); assert(d2[0] == m->0.ord());
            assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() implies #[trigger] d[i] == #[trigger] d[j] by {}
        }
    }
}
pub open spec fn at(m: SV, s: Stat) -> Option<Scalar> { if m.dom().contains(s) { Some(m[s]) } else { None } }
pub open spec fn pair(d1: Data, d2: Data) -> bool { true }
/// all that is known of the constancy of a concatenation
pub open spec fn constant_facts(own: SV, other: SV, d1: Data, d2: Data) -> bool {
    let (a, b, m, n) = (own[Stat::IsConstant], other[Stat::IsConstant], at(own, Stat::Min), at(other, Stat::Min));
    own.dom().contains(Stat::IsConstant) && other.dom().contains(Stat::IsConstant) ==> {
        &&& a.bool() == Some(false) || b.bool() == Some(false) ==> !constant(d1 + d2) || has_nan(d1 + d2)
        &&& m is Some && n is Some && m->0.ord() != n->0.ord() ==> !constant(d1 + d2)
        &&& m is Some && n is Some && m->0.ord() == n->0.ord() && a.bool() == Some(true) && b.bool() == Some(true) ==> constant(d1 + d2)
    }
}
pub proof fn lemma_constants(own: SV, other: SV)
    ensures forall|d1: Data, d2: Data| #[trigger] basis(own, d1, Stat::IsConstant) && #[trigger] basis(other, d2, Stat::IsConstant) ==> constant_facts(own, other, d1, d2),
{
    assert forall|d1: Data, d2: Data| #[trigger] basis(own, d1, Stat::IsConstant) && #[trigger] basis(other, d2, Stat::IsConstant) implies constant_facts(own, other, d1, d2) by {
        if own.dom().contains(Stat::IsConstant) && other.dom().contains(Stat::IsConstant) {
            lemma_constant(own[Stat::IsConstant], other[Stat::IsConstant], at(own, Stat::Min), at(other, Stat::Min), d1, d2);
        }
    }
}
/// sortedness of a concatenation, from the parts and the bounds where they meet
pub proof fn lemma_sortedness(s: Stat, a: Scalar, b: Scalar, x: Scalar, n: Scalar, d1: Data, d2: Data)
    requires d1.len() > 0, d2.len() > 0, s is IsSorted || s is IsStrictSorted, stat_true(s, a, d1), stat_true(s, b, d2), stat_true(Stat::Max, x, d1), stat_true(Stat::Min, n, d2),
    ensures s is IsSorted ==> sorted(d1 + d2) == (a.bool()->0 && b.bool()->0 && (x.ord() is None || n.ord() is None || x.ord()->0 <= n.ord()->0)),
        s is IsStrictSorted && no_null(d1 + d2) ==> strict(d1 + d2) == (a.bool()->0 && b.bool()->0 && (x.ord() is None || n.ord() is None || x.ord()->0 < n.ord()->0)),
{
    let d = d1 + d2;
    lemma_cat_at(d1, d2);
    if x.ord() is Some { let i = choose|i: int| 0 <= i < d1.len() && #[trigger] d1[i] == x.ord(); assert(d[i] == d1[i]); }
    if n.ord() is Some { let i = choose|i: int| 0 <= i < d2.len() && #[trigger] d2[i] == n.ord(); assert(d[i + d1.len()] == d2[i]); }
    if no_null(d) {
        assert forall|i: int| 0 <= i < d1.len() implies (#[trigger] d1[i]) is Some by { assert(d[i] is Some); }
        assert forall|i: int| 0 <= i < d2.len() implies (#[trigger] d2[i]) is Some by { assert(d[i + d1.len()] is Some); }
    }
    if sorted(d) {
        assert forall|i: int, j: int| 0 <= i < j < d1.len() && (#[trigger] d1[i]) is Some && (#[trigger] d1[j]) is Some implies d1[i]->0 <= d1[j]->0 by { assert(d[i] == d1[i] && d[j] == d1[j]); }
        assert forall|i: int, j: int| 0 <= i < j < d2.len() && (#[trigger] d2[i]) is Some && (#[trigger] d2[j]) is Some implies d2[i]->0 <= d2[j]->0 by { assert(d[i + d1.len()] == d2[i] && d[j + d1.len()] == d2[j]); }
    }
    if strict(d) {
        assert forall|i: int, j: int| 0 <= i < j < d1.len() && (#[trigger] d1[i]) is Some && (#[trigger] d1[j]) is Some implies d1[i]->0 < d1[j]->0 by { assert(d[i] == d1[i] && d[j] == d1[j]); }
        assert forall|i: int, j: int| 0 <= i < j < d2.len() && (#[trigger] d2[i]) is Some && (#[trigger] d2[j]) is Some implies d2[i]->0 < d2[j]->0 by { assert(d[i + d1.len()] == d2[i] && d[j + d1.len()] == d2[j]); }
    }
    assert(0 <= 0 < d1.len() && d[0] == d1[0]);
}
pub open spec fn kind_ok(s: Stat, v: Scalar) -> bool { (is_bool_stat(s) ==> v.bool() is Some) && (is_num_stat(s) ==> v.num() is Some) && (is_freq_stat(s) ==> v.freq() is Some) }
/// setting or dropping one statistic leaves the others alone
pub proof fn lemma_put(m: SV, s: Stat)
    requires typed(m),
    ensures forall|v: Scalar| (#[trigger] m.insert(s, v)).remove(s) == m.remove(s), m.remove(s).remove(s) == m.remove(s), !m.dom().contains(s) ==> m.remove(s) == m,
        forall|v: Scalar| kind_ok(s, v) ==> typed(#[trigger] m.insert(s, v)), typed(m.remove(s)),
{
    assert forall|v: Scalar| (#[trigger] m.insert(s, v)).remove(s) == m.remove(s) by { assert(m.insert(s, v).remove(s) =~= m.remove(s)); }
    assert(m.remove(s).remove(s) =~= m.remove(s));
    if !m.dom().contains(s) { assert(m.remove(s) =~= m); }
    assert forall|v: Scalar| kind_ok(s, v) implies typed(#[trigger] m.insert(s, v)) by { assert forall|t: Stat| #[trigger] typed_at(m.insert(s, v), t) by { assert(typed_at(m, t)); } }
    assert forall|t: Stat| #[trigger] typed_at(m.remove(s), t) by { assert(typed_at(m, t)); }
}
pub open spec fn sorted_facts(own: SV, other: SV, d1: Data, d2: Data, s: Stat) -> bool {
    let (a, b, x, n) = (own[s], other[s], at(own, Stat::Max), at(other, Stat::Min));
    own.dom().contains(s) && other.dom().contains(s) && x is Some && n is Some ==> {
        &&& s is IsSorted ==> sorted(d1 + d2) == (a.bool()->0 && b.bool()->0 && (x->0.ord() is None || n->0.ord() is None || x->0.ord()->0 <= n->0.ord()->0))
        &&& s is IsStrictSorted && no_null(d1 + d2) ==> strict(d1 + d2) == (a.bool()->0 && b.bool()->0 && (x->0.ord() is None || n->0.ord() is None || x->0.ord()->0 < n->0.ord()->0))
    }
}
pub proof fn lemma_sorteds(own: SV, other: SV, s: Stat)
    requires s is IsSorted || s is IsStrictSorted,
    ensures forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) ==> sorted_facts(own, other, d1, d2, s),
{
    assert forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) implies sorted_facts(own, other, d1, d2, s) by {
        if own.dom().contains(s) && other.dom().contains(s) && own.dom().contains(Stat::Max) && other.dom().contains(Stat::Min) {
            lemma_sortedness(s, own[s], other[s], own[Stat::Max], other[Stat::Min], d1, d2);
        }
    }
}
pub open spec fn num_facts(own: SV, other: SV, d1: Data, d2: Data, s: Stat) -> bool {
    own.dom().contains(s) && other.dom().contains(s) ==> {
        &&& s is NullCount ==> own[s].num()->0 + other[s].num()->0 == count(d1 + d2, p_null())
        &&& s is TrueCount ==> own[s].num()->0 + other[s].num()->0 == count(d1 + d2, p_true())
        &&& s is RunCount ==> own[s].num()->0 + other[s].num()->0 >= runs(d1 + d2)
    }
}
pub proof fn lemma_nums(own: SV, other: SV, s: Stat)
    ensures forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) ==> num_facts(own, other, d1, d2, s),
{
    assert forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) implies num_facts(own, other, d1, d2, s) by {
        lemma_count_cat(d1, d2, p_null()); lemma_count_cat(d1, d2, p_true()); lemma_runs_cat(d1, d2);
    }
}
pub proof fn lemma_freq(own: SV, other: SV, s: Stat, f: Seq<u64>)
    requires is_freq_stat(s), own.dom().contains(s), other.dom().contains(s), own[s].freq() is Some, other[s].freq() is Some, f.len() == own[s].freq()->0.len(), own[s].freq()->0.len() == other[s].freq()->0.len(),
        forall|w: int| 0 <= w < f.len() ==> #[trigger] f[w] == own[s].freq()->0[w] + other[s].freq()->0[w],
    ensures forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) ==> freq_true(Some(f), d1 + d2, s is BitWidthFreq),
{
    assert forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) implies freq_true(Some(f), d1 + d2, s is BitWidthFreq) by {
        assert forall|w: int| 0 <= w < f.len() implies #[trigger] f[w] == count(d1 + d2, if s is BitWidthFreq { p_width(w) } else { p_zeros(w) }) by {
            lemma_count_cat(d1, d2, if s is BitWidthFreq { p_width(w) } else { p_zeros(w) });
            assert(own[s].freq()->0[w] == count(d1, if s is BitWidthFreq { p_width(w) } else { p_zeros(w) }));
            assert(other[s].freq()->0[w] == count(d2, if s is BitWidthFreq { p_width(w) } else { p_zeros(w) }));
        }
    }
}
pub open spec fn bound_facts(own: SV, other: SV, d1: Data, d2: Data, s: Stat) -> bool {
    own.dom().contains(s) && other.dom().contains(s) ==> forall|f: Scalar| #[trigger] f.ord() == bound_of(s, own[s].ord(), other[s].ord()) ==> stat_true(s, f, d1 + d2)
}
pub proof fn lemma_bounds(own: SV, other: SV, s: Stat)
    requires s is Min || s is Max,
    ensures forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) ==> bound_facts(own, other, d1, d2, s),
{
    assert forall|d1: Data, d2: Data| #[trigger] basis(own, d1, s) && #[trigger] basis(other, d2, s) implies bound_facts(own, other, d1, d2, s) by {
        if own.dom().contains(s) && other.dom().contains(s) {
            assert forall|f: Scalar| #[trigger] f.ord() == bound_of(s, own[s].ord(), other[s].ord()) implies stat_true(s, f, d1 + d2) by { lemma_bound(s, own[s], other[s], f, d1, d2); }
        }
    }
}
