/// what the metadata of a temporal type says; a time zone as its bytes
pub enum M { Time(TimeUnit), Date(TimeUnit), Stamp(TimeUnit, Option<Seq<u8>>) }
/// the tag of a unit is its place among the units (num_enum's derive)
pub open spec fn tag(u: TimeUnit) -> int { choose|i: int| 0 <= i < variants_TimeUnit().len() && variants_TimeUnit()[i] == u }
pub open spec fn le16(n: int) -> Seq<u8> { seq![(n % 256) as u8, (n / 256) as u8] }
pub open spec fn un16(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int }
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
/// the metadata as bytes: a unit tag, then, for a timestamp, the length of the time zone and the time zone
pub open spec fn bytes(m: M) -> Seq<u8> {
    match m { M::Time(u) | M::Date(u) => seq![tag(u) as u8], M::Stamp(u, tz) => seq![tag(u) as u8] + le16(match tz { None => 0, Some(t) => t.len() as int }) + (match tz { None => Seq::empty(), Some(t) => t }) }
}
pub open spec fn tz_ok(m: M) -> bool { m matches M::Stamp(_, Some(t)) ==> 0 < t.len() <= 65535 && utf8(t) }
/// the bytes are those of a type a reader accepts
pub open spec fn stamp_bytes(b: Seq<u8>) -> bool { b.len() >= 3 && 3 + un16(b.subrange(1, 3)) <= b.len() && utf8(b.subrange(3, 3 + un16(b.subrange(1, 3)))) }
pub open spec fn read(b: Seq<u8>) -> M {
    let n = un16(b.subrange(1, 3));
    M::Stamp(variants_TimeUnit()[b[0] as int], if n == 0 { None } else { Some(b.subrange(3, 3 + n)) })
}
pub proof fn lemma_tag(u: TimeUnit) ensures 0 <= tag(u) < variants_TimeUnit().len() <= 256, variants_TimeUnit()[tag(u)] == u
{
    let v = variants_TimeUnit();
    assert(v.len() <= 256);
    assert(v[0] == u || v[1] == u || v[2] == u || v[3] == u || v[4] == u);
}
pub proof fn lemma_distinct(i: int, j: int) requires 0 <= i < variants_TimeUnit().len(), 0 <= j < variants_TimeUnit().len(), variants_TimeUnit()[i] == variants_TimeUnit()[j] ensures i == j
{ let v = variants_TimeUnit(); assert(v.len() == 5); }
/// what is read back is what was written
pub proof fn lemma_read(m: M) requires tz_ok(m), m is Stamp ensures stamp_bytes(bytes(m)), read(bytes(m)) == m, bytes(m)[0] < 5
{
    broadcast use axiom_utf8_empty;
    let b = bytes(m); let u = m->Stamp_0; let tz = m->Stamp_1;
    lemma_tag(u);
    let n = match tz { None => 0, Some(t) => t.len() as int };
    let t = match tz { None => Seq::empty(), Some(t) => t };
    assert(b.subrange(1, 3) =~= le16(n));
    assert(n % 256 + 256 * (n / 256) == n) by (nonlinear_arith);
    assert(n / 256 < 256) by (nonlinear_arith) requires n <= 65535;
    assert(b.subrange(3, 3 + n) =~= t);
}
pub broadcast axiom fn axiom_utf8_empty(s: Seq<u8>) requires s.len() == 0 ensures #[trigger] utf8(s);
/// the three identifiers; the statics that hold them are not read (assumed pairwise distinct)
pub uninterp spec fn id_time() -> Seq<u8>;
pub uninterp spec fn id_date() -> Seq<u8>;
pub uninterp spec fn id_stamp() -> Seq<u8>;
pub axiom fn axiom_ids() ensures id_time() != id_date(), id_time() != id_stamp(), id_date() != id_stamp();
pub open spec fn id_of(m: M) -> Seq<u8> { match m { M::Time(_) => id_time(), M::Date(_) => id_date(), M::Stamp(..) => id_stamp() } }
pub open spec fn md(t: TemporalMetadata) -> M { match t { TemporalMetadata::Time(u) => M::Time(u), TemporalMetadata::Date(u) => M::Date(u), TemporalMetadata::Timestamp(u, None) => M::Stamp(u, None), TemporalMetadata::Timestamp(u, Some(z)) => M::Stamp(u, Some(z@)) } }
/// an extension type that says what m says
pub open spec fn says(e: ExtDType, m: M) -> bool { e.id.0@ == id_of(m) && (e.metadata matches Some(b) && b.0@ == bytes(m)) }
pub open spec fn fits(b: Seq<u8>, m: M) -> bool {
    b.len() >= 1 && (b[0] as int) < 5 && (match m { M::Time(u) | M::Date(u) => variants_TimeUnit()[b[0] as int] == u, M::Stamp(..) => stamp_bytes(b) && read(b) == m })
}
