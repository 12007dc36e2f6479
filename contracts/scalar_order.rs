pub open spec fn rank(v: SV) -> int { match v { SV::Bool(b) => order_ScalarValue(ScalarValue::Bool(b)), SV::Prim(p) => order_ScalarValue(ScalarValue::Primitive(p)), SV::Bin(_) => order_ScalarValue(ScalarValue::Buffer(arbitrary())), SV::Text(_) => order_ScalarValue(ScalarValue::BufferString(arbitrary())), SV::List(_) => order_ScalarValue(ScalarValue::List(arbitrary())), SV::Null => order_ScalarValue(ScalarValue::Null) } }
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>, i: nat) -> Ordering decreases a.len() - i {
    if i >= a.len() || i >= b.len() { cmp3(a.len() as int, b.len() as int) } else if a[i as int] == b[i as int] { lex(a, b, (i + 1) as nat) } else { cmp3(a[i as int] as int, b[i as int] as int) }
}
/// the derived order: by variant, then by content, lists lexicographically
pub open spec fn sv_order(a: SV, b: SV) -> Option<Ordering> decreases a, 0nat {
    if rank(a) != rank(b) { Some(cmp3(rank(a), rank(b))) } else {
        match (a, b) {
            (SV::Bool(x), SV::Bool(y)) => Some(cmp3(x as int, y as int)), (SV::Prim(x), SV::Prim(y)) => order(x, y), (SV::Bin(x), SV::Bin(y)) => Some(lex(x, y, 0)), (SV::Text(x), SV::Text(y)) => Some(lex(x, y, 0)),
            (SV::List(x), SV::List(y)) => lists(x, y, x.len()), (SV::Null, SV::Null) => Some(Ordering::Equal), _ => None,
        }
    }
}
/// of the last `n` elements of `a` and those of `b` from the same position on
pub open spec fn lists(a: Seq<SV>, b: Seq<SV>, n: nat) -> Option<Ordering> decreases a, n {
    let i = a.len() - n;
    if n == 0 || n > a.len() || i >= b.len() { Some(cmp3(a.len() as int, b.len() as int)) } else { match sv_order(a[i], b[i]) { Some(Ordering::Equal) => lists(a, b, (n - 1) as nat), o => o } }
}
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lemma_lex(a: Seq<u8>, b: Seq<u8>, i: nat)
    requires i <= a.len(), i <= b.len(),
    ensures lex(b, a, i) == flip(lex(a, b, i)), lex(a, b, i) == Ordering::Equal <==> a.subrange(i as int, a.len() as int) == b.subrange(i as int, b.len() as int),
    decreases a.len() - i,
{
    let (x, y) = (a.subrange(i as int, a.len() as int), b.subrange(i as int, b.len() as int));
    if i < a.len() && i < b.len() {
        if a[i as int] == b[i as int] {
            lemma_lex(a, b, (i + 1) as nat);
            let (p, q) = (a.subrange((i + 1) as int, a.len() as int), b.subrange((i + 1) as int, b.len() as int));
            assert(x =~= seq![a[i as int]] + p); assert(y =~= seq![b[i as int]] + q);
            if x == y { assert(p =~= x.subrange(1, x.len() as int)); assert(q =~= y.subrange(1, y.len() as int)); }
        } else { assert(x[0] == a[i as int]); assert(y[0] == b[i as int]); }
    } else { if a.len() == b.len() { assert(x =~= y); } else { assert(x.len() != y.len()); } }
}
pub proof fn lemma_lex_less(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: nat)
    requires i <= a.len(), i <= b.len(), i <= c.len(), lex(a, b, i) == Ordering::Less, lex(b, c, i) == Ordering::Less,
    ensures lex(a, c, i) == Ordering::Less,
    decreases a.len() - i,
{ if i < a.len() && i < b.len() && i < c.len() && a[i as int] == b[i as int] && b[i as int] == c[i as int] { lemma_lex_less(a, b, c, (i + 1) as nat); } }
/// values of one type, nullable or not: any two compare, the other way round is the opposite, and
/// equal is the same value
pub proof fn lemma_order(a: SV, b: SV, w: W) requires fits(a, as_null(w, true)), fits(b, as_null(w, true)), rows(a, w), rows(b, w) ensures sv_order(a, b) is Some, sv_order(b, a) == Some(flip(sv_order(a, b)->0)), sv_order(a, b) == Some(Ordering::Equal) <==> a == b decreases a {
    match (a, b) {
        (SV::Prim(p), SV::Prim(q)) => { lemma_equal(p, q); lemma_total_order(p, q, q); lemma_total_order(q, p, p); }
        (SV::Bin(x), SV::Bin(y)) => { lemma_lex(x, y, 0); assert(x.subrange(0, x.len() as int) =~= x); assert(y.subrange(0, y.len() as int) =~= y); }
        (SV::Text(x), SV::Text(y)) => { lemma_lex(x, y, 0); assert(x.subrange(0, x.len() as int) =~= x); assert(y.subrange(0, y.len() as int) =~= y); }
        _ => {}
    }
}
/// lists and structs are left out
pub open spec fn rows(a: SV, w: W) -> bool { !(a is List) }
pub proof fn lemma_order_less(a: SV, b: SV, c: SV, w: W)
    requires fits(a, as_null(w, true)), fits(b, as_null(w, true)), fits(c, as_null(w, true)), rows(a, w), rows(b, w), rows(c, w), sv_order(a, b) == Some(Ordering::Less), sv_order(b, c) == Some(Ordering::Less),
    ensures sv_order(a, c) == Some(Ordering::Less),
{ match (a, b, c) { (SV::Bin(x), SV::Bin(y), SV::Bin(z)) => { lemma_lex_less(x, y, z, 0); } (SV::Text(x), SV::Text(y), SV::Text(z)) => { lemma_lex_less(x, y, z, 0); } _ => {} } }
/// a null comes after every value
pub proof fn lemma_nulls_last(a: SV) ensures sv_order(a, SV::Null) == Some(if a is Null { Ordering::Equal } else { Ordering::Less }) {}
