/// a scalar value, with its lists written out
pub enum SV { Bool(bool), Prim(PValue), Bin(Seq<u8>), Text(Seq<u8>), List(Seq<SV>), Null }
pub open spec fn sv(v: ScalarValue) -> SV decreases v, 0nat via sv_dec {
    match v { ScalarValue::Bool(b) => SV::Bool(b), ScalarValue::Primitive(p) => SV::Prim(p), ScalarValue::Buffer(b) => SV::Bin(b@), ScalarValue::BufferString(b) => SV::Text(b@), ScalarValue::List(l) => SV::List(svs(l, l@.len())), ScalarValue::Null => SV::Null }
}
pub open spec fn svs(v: Vec<ScalarValue>, n: nat) -> Seq<SV> decreases v, n via svs_dec
{ if n == 0 || n > v@.len() { Seq::empty() } else { svs(v, (n - 1) as nat).push(sv(v[n - 1])) } }
#[via_fn]
proof fn sv_dec(v: ScalarValue) {}
#[via_fn]
proof fn svs_dec(v: Vec<ScalarValue>, n: nat) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; if n > 0 && n <= v@.len() { assert(decreases_to!(v => v[n - 1])); } }
pub proof fn lemma_svs(v: Vec<ScalarValue>, n: nat) requires n <= v@.len() ensures svs(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] svs(v, n)[i] == sv(v@[i]) decreases n
{ if n > 0 { lemma_svs(v, (n - 1) as nat); } }
pub open spec fn null_ok(w: W) -> bool { match w { W::Null => true, W::Bool(n) => n, W::Prim(_, n) => n, W::Utf8(n) => n, W::Binary(n) => n, W::Struct(_, _, n) => n, W::List(_, n) => n, W::Ext(_, _, n) => n, W::Broken => false } }
pub open spec fn as_null(w: W, n: bool) -> W { match w { W::Null => W::Null, W::Bool(_) => W::Bool(n), W::Prim(p, _) => W::Prim(p, n), W::Utf8(_) => W::Utf8(n), W::Binary(_) => W::Binary(n), W::Struct(a, b, _) => W::Struct(a, b, n), W::List(e, _) => W::List(e, n), W::Ext(a, b, _) => W::Ext(a, b, n), W::Broken => W::Broken } }
pub open spec fn smin(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
/// the values a type has; the fields of a struct are compared one by one as far as both go
pub open spec fn fits(v: SV, w: W) -> bool decreases v, 0nat {
    match (v, w) {
        (SV::Null, _) => null_ok(w), (SV::Bool(_), W::Bool(_)) => true, (SV::Prim(p), W::Prim(t, _)) => fbp(ptype_of(p)) == t, (SV::Bin(_), W::Binary(_)) => true, (SV::Text(_), W::Utf8(_)) => true,
        (SV::List(s), W::List(Some(e), _)) => fit_list(s, *e, s.len()), (SV::List(s), W::Struct(_, Some(ds), _)) => fit_row(s, ds, smin(s.len(), ds.len())),
        _ => false,
    }
}
pub open spec fn fit_list(s: Seq<SV>, e: W, n: nat) -> bool decreases s, n { n == 0 || (n <= s.len() && fit_list(s, e, (n - 1) as nat) && fits(s[n - 1], e)) }
pub open spec fn fit_row(s: Seq<SV>, ds: Seq<W>, n: nat) -> bool decreases s, n { n == 0 || (n <= s.len() && n <= ds.len() && fit_row(s, ds, (n - 1) as nat) && fits(s[n - 1], ds[n - 1])) }
pub open spec fn read_or(p: PValue, t: fb::PType) -> PValue { match t { fb::PType::U8 => or_own(p, PType::U8), fb::PType::U16 => or_own(p, PType::U16), fb::PType::U32 => or_own(p, PType::U32), fb::PType::U64 => or_own(p, PType::U64), fb::PType::I8 => or_own(p, PType::I8), fb::PType::I16 => or_own(p, PType::I16), fb::PType::I32 => or_own(p, PType::I32), fb::PType::I64 => or_own(p, PType::I64), fb::PType::F16 => or_own(p, PType::F16), fb::PType::F32 => or_own(p, PType::F32), fb::PType::F64 => or_own(p, PType::F64), _ => p } }
pub open spec fn or_own(p: PValue, t: PType) -> PValue { match read_as(p, t) { Some(q) => q, None => p } }
/// the value with its numbers in the physical type its type names
pub open spec fn physical(v: SV, w: W) -> SV decreases v, 0nat {
    match (v, w) {
        (SV::Prim(p), W::Prim(t, _)) => SV::Prim(read_or(p, t)),
        (SV::List(s), W::List(Some(e), _)) => SV::List(physical_list(s, *e, s.len())),
        (SV::List(s), W::Struct(_, Some(ds), _)) => if s.len() == ds.len() { SV::List(physical_row(s, ds, s.len())) } else { v },
        _ => v,
    }
}
pub open spec fn physical_list(s: Seq<SV>, e: W, n: nat) -> Seq<SV> decreases s, n { if n == 0 || n > s.len() { Seq::empty() } else { physical_list(s, e, (n - 1) as nat).push(physical(s[n - 1], e)) } }
pub open spec fn physical_row(s: Seq<SV>, ds: Seq<W>, n: nat) -> Seq<SV> decreases s, n { if n == 0 || n > s.len() || n > ds.len() { Seq::empty() } else { physical_row(s, ds, (n - 1) as nat).push(physical(s[n - 1], ds[n - 1])) } }
pub proof fn lemma_fit_list(s: Seq<SV>, e: W, n: nat) requires n <= s.len() ensures fit_list(s, e, n) <==> forall|i: int| 0 <= i < n ==> fits(#[trigger] s[i], e) decreases n { if n > 0 { lemma_fit_list(s, e, (n - 1) as nat); } }
pub proof fn lemma_fit_row(s: Seq<SV>, ds: Seq<W>, n: nat) requires n <= s.len(), n <= ds.len() ensures fit_row(s, ds, n) <==> forall|i: int| 0 <= i < n ==> fits(#[trigger] s[i], ds[i]) decreases n { if n > 0 { lemma_fit_row(s, ds, (n - 1) as nat); } }
pub proof fn lemma_physical_list(s: Seq<SV>, e: W, n: nat) requires n <= s.len() ensures physical_list(s, e, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] physical_list(s, e, n)[i] == physical(s[i], e) decreases n { if n > 0 { lemma_physical_list(s, e, (n - 1) as nat); } }
pub proof fn lemma_physical_row(s: Seq<SV>, ds: Seq<W>, n: nat) requires n <= s.len(), n <= ds.len() ensures physical_row(s, ds, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] physical_row(s, ds, n)[i] == physical(s[i], ds[i]) decreases n { if n > 0 { lemma_physical_row(s, ds, (n - 1) as nat); } }
/// a value of the type is left as it is
pub proof fn lemma_physical_own(v: SV, w: W) requires fits(v, w) ensures physical(v, w) == v decreases v {
    match (v, w) {
        (SV::Prim(p), W::Prim(t, _)) => { lemma_read_own(p); }
        (SV::List(s), W::List(Some(e), _)) => { lemma_fit_list(s, *e, s.len()); lemma_physical_list(s, *e, s.len()); assert forall|i: int| 0 <= i < s.len() implies physical(#[trigger] s[i], *e) == s[i] by { lemma_physical_own(s[i], *e); } assert(physical_list(s, *e, s.len()) =~= s); }
        (SV::List(s), W::Struct(_, Some(ds), _)) => if s.len() == ds.len() { lemma_fit_row(s, ds, s.len()); lemma_physical_row(s, ds, s.len()); assert forall|i: int| 0 <= i < s.len() implies physical(#[trigger] s[i], ds[i]) == s[i] by { lemma_physical_own(s[i], ds[i]); } assert(physical_row(s, ds, s.len()) =~= s); },
        _ => {}
    }
}
