//! Models (abstract inputs) used by the bounded contract checks. Everything is deterministic in the seed.
use half::f16;
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::{DType, ExtDType, Nullability, PType};

use crate::core::*;
use crate::rng::Rng;

pub const INTS: [PType; 8] = [PType::I8, PType::I16, PType::I32, PType::I64, PType::U8, PType::U16, PType::U32, PType::U64];
pub const FLOATS: [PType; 3] = [PType::F16, PType::F32, PType::F64];

pub fn irange(p: PType) -> (i128, i128) {
    each_int!(p, |T| (T::MIN as i128, T::MAX as i128))
}

pub const LENS: [usize; 20] = [0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 511, 1023, 1024, 1025, 2047, 2048, 2049, 3000];

/// Positions of nulls: none, one at start/end, alternating, a prefix, all, random.
pub fn null_patterns(len: usize, rng: &mut Rng) -> Vec<(&'static str, Vec<bool>)> {
    let mut v: Vec<(&'static str, Vec<bool>)> = vec![("none", vec![false; len])];
    if len == 0 { return v; }
    v.push(("first", (0..len).map(|i| i == 0).collect()));
    v.push(("last", (0..len).map(|i| i + 1 == len).collect()));
    v.push(("all", vec![true; len]));
    v.push(("alt", (0..len).map(|i| i % 2 == 1).collect()));
    v.push(("prefix", (0..len).map(|i| i < (len + 1) / 2).collect()));
    v.push(("random", (0..len).map(|_| rng.chance(1, 4)).collect()));
    v
}

pub fn with_nulls(m: &M, nulls: &[bool]) -> M {
    M::new(m.dt.as_nullable(), m.v.iter().zip(nulls).map(|(v, n)| if *n { V::Null } else { v.clone() }).collect())
}

pub const INT_SHAPES: [&str; 13] = ["const", "zero", "ascending", "descending", "small", "outlier", "extremes", "random", "runs", "sorted-dups", "negative", "multiples", "alternating"];

pub fn int_values(p: PType, shape: &str, len: usize, rng: &mut Rng) -> Vec<i128> {
    let (lo, hi) = irange(p);
    let clamp = |x: i128| x.clamp(lo, hi);
    match shape {
        "const" => vec![clamp(37); len],
        "zero" => vec![0; len],
        "ascending" => {
            let base = clamp(-5);
            let mut v: Vec<i128> = (0..len as i128).map(|i| base + i).collect();
            if v.last().is_some_and(|x| *x > hi) { v = (0..len as i128).map(|i| lo + i * (hi - lo) / (len as i128)).collect(); }
            v
        }
        "descending" => (0..len as i128).map(|i| clamp(100 - i)).collect(),
        "small" => (0..len).map(|_| rng.below(13) as i128).collect(),
        "outlier" => (0..len).map(|i| if i % 41 == 5 { if rng.bool() { hi } else { clamp(hi / 2 + 3) } } else { rng.below(8) as i128 }).collect(),
        "extremes" => (0..len).map(|i| match i % 7 { 0 => lo, 1 => hi, 2 => 0, 3 => lo + 1, 4 => hi - 1, 5 => clamp(-1), _ => clamp(1) }).collect(),
        "random" => (0..len).map(|_| lo + (rng.next() as i128) % (hi - lo + 1)).collect(),
        "runs" => { let mut v = vec![]; while v.len() < len { let x = clamp(rng.below(5) as i128 - 2); for _ in 0..1 + rng.below(6) { v.push(x); } } v.truncate(len); v }
        "sorted-dups" => { let mut x = clamp(-3); (0..len).map(|_| { if rng.chance(1, 3) { x = clamp(x + 1 + rng.below(3) as i128); } x }).collect() }
        "negative" => (0..len).map(|_| clamp(-(rng.below(1000) as i128))).collect(),
        "multiples" => (0..len).map(|_| clamp((rng.below(30) as i128 - if lo < 0 { 8 } else { 0 }) * 4)).collect(),
        "alternating" => (0..len).map(|i| if i % 2 == 0 { 1 } else { clamp(9) }).collect(),
        _ => unreachable!(),
    }
}

pub fn ints(p: PType, shape: &str, len: usize, rng: &mut Rng) -> M {
    M::new(prim(p, false), int_values(p, shape, len, rng).into_iter().map(V::I).collect())
}

pub fn f64_pool() -> Vec<f64> {
    vec![0.0, -0.0, 1.0, -1.0, 1.5, 0.1, -0.1, 3.141592653589793, 100.25, 1e-5, 123456.789, -99999.001, 1e17, -1e18, 1e300, -1e300, f64::MIN_POSITIVE, 5e-324, -5e-324,
        f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff8_0000_0000_1234), f64::from_bits(0xfff0_0000_0000_0001),
        9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 2.0e-17, 0.30000000000000004, 4503599627370497.5]
}
pub fn f32_pool() -> Vec<f32> {
    vec![0.0, -0.0, 1.0, -1.0, 1.5, 0.1, -0.1, 3.1415927, 100.25, 1e-5, 12345.679, -9999.001, 1e9, -3e9, 1e30, -1e30, f32::MIN_POSITIVE, 1e-45, -1e-45, f32::MAX, f32::MIN,
        f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::from_bits(0x7fc0_1234), f32::from_bits(0xff80_0001), 16777217.0, 2147483600.0, -2147483600.0, 0.3]
}
pub fn f16_pool() -> Vec<f16> {
    vec![f16::ZERO, f16::NEG_ZERO, f16::ONE, f16::from_f32(-1.5), f16::from_f32(0.1), f16::MAX, f16::MIN, f16::INFINITY, f16::NEG_INFINITY, f16::NAN, f16::from_bits(1), f16::from_bits(0x7c01)]
}

pub const FLOAT_SHAPES: [&str; 7] = ["decimals", "pool", "random-bits", "real-doubles", "const", "runs", "decimals+outliers"];

pub fn float_bits(p: PType, shape: &str, len: usize, rng: &mut Rng) -> Vec<u64> {
    let dec = |rng: &mut Rng| -> f64 { (rng.below(20000) as f64 - 10000.0) / 100.0 };
    let of = |x: f64| -> u64 { match p { PType::F16 => f16::from_f64(x).to_bits() as u64, PType::F32 => (x as f32).to_bits() as u64, _ => x.to_bits() } };
    let pool = |rng: &mut Rng| -> u64 { match p { PType::F16 => rng.pick(&f16_pool()).to_bits() as u64, PType::F32 => rng.pick(&f32_pool()).to_bits() as u64, _ => rng.pick(&f64_pool()).to_bits() } };
    let cut = |b: u64| -> u64 { match p { PType::F16 => b & 0xffff, PType::F32 => b & 0xffff_ffff, _ => b } };
    match shape {
        "decimals" => (0..len).map(|_| of(dec(rng))).collect(),
        "pool" => (0..len).map(|_| pool(rng)).collect(),
        "random-bits" => (0..len).map(|_| cut(rng.next())).collect(),
        "real-doubles" => (0..len).map(|_| of(1.0 + (rng.next() >> 11) as f64 / (1u64 << 53) as f64)).collect(),
        "const" => vec![of(2.5); len],
        "runs" => { let mut v = vec![]; while v.len() < len { let x = of(rng.below(4) as f64 - 1.0); for _ in 0..1 + rng.below(6) { v.push(x); } } v.truncate(len); v }
        "decimals+outliers" => (0..len).map(|i| if i % 23 == 4 { pool(rng) } else { of(dec(rng)) }).collect(),
        _ => unreachable!(),
    }
}

pub fn floats(p: PType, shape: &str, len: usize, rng: &mut Rng) -> M {
    M::new(prim(p, false), float_bits(p, shape, len, rng).into_iter().map(V::F).collect())
}

pub fn bools(shape: &str, len: usize, rng: &mut Rng) -> M {
    let v: Vec<bool> = match shape {
        "true" => vec![true; len],
        "false" => vec![false; len],
        "alt" => (0..len).map(|i| i % 2 == 0).collect(),
        "runs" => { let mut v = vec![]; let mut x = rng.bool(); while v.len() < len { for _ in 0..1 + rng.below(9) { v.push(x); } x = !x; } v.truncate(len); v }
        "sparse" => (0..len).map(|i| i % 53 == 7).collect(),
        "sorted" => (0..len).map(|i| i * 3 >= len).collect(),
        _ => (0..len).map(|_| rng.bool()).collect(),
    };
    M::new(DType::Bool(Nullability::NonNullable), v.into_iter().map(V::B).collect())
}
pub const BOOL_SHAPES: [&str; 7] = ["true", "false", "alt", "runs", "sparse", "sorted", "random"];

pub fn string_pool() -> Vec<&'static str> {
    vec!["", "a", "b", "ab", "\u{0}", "hello", "hello world", "hello world!", "hello world!!", "hello world!?", "hello worldz", "hello worl", "hellp world!!",
        "a somewhat longer string that lives out of line", "a somewhat longer string that lives out of linf", "é", "日本語", "日本語のテキスト", "zzzzzzzzzzzz", "zzzzzzzzzzzzz", "\u{10ffff}", "0123456789abcdef0123456789abcdef"]
}
pub const STR_SHAPES: [&str; 6] = ["pool", "const", "random", "sorted", "short", "urls"];

pub fn strings(utf8: bool, shape: &str, len: usize, rng: &mut Rng) -> M {
    let dt = if utf8 { DType::Utf8(Nullability::NonNullable) } else { DType::Binary(Nullability::NonNullable) };
    let pool = string_pool();
    let mut v: Vec<Vec<u8>> = match shape {
        "const" => vec![b"the same string each time".to_vec(); len],
        "random" => (0..len).map(|_| {
            let n = rng.below(24);
            (0..n).map(|_| if utf8 { b'a' + rng.below(26) as u8 } else { rng.next() as u8 }).collect()
        }).collect(),
        "short" => (0..len).map(|_| vec![b'a' + rng.below(3) as u8]).collect(),
        "urls" => (0..len).map(|_| format!("https://www.example.com/path/{}/item?id={}", rng.below(5), rng.below(100000)).into_bytes()).collect(),
        _ => (0..len).map(|_| {
            let mut b = rng.pick(&pool).as_bytes().to_vec();
            if !utf8 && rng.chance(1, 4) { b.push(0xff); b.push(rng.next() as u8); }
            b
        }).collect(),
    };
    if shape == "sorted" { v.sort(); }
    M::new(dt, v.into_iter().map(V::S).collect())
}

pub fn ts_dtype(unit: TimeUnit, tz: Option<&str>, nullable: bool) -> DType {
    DType::Extension(ExtDType::new(TIMESTAMP_ID.clone(), Some(TemporalMetadata::Timestamp(unit, tz.map(|s| s.to_string())).into())), Nullability::from(nullable))
}
pub fn date_dtype(unit: TimeUnit, nullable: bool) -> DType {
    DType::Extension(ExtDType::new(DATE_ID.clone(), Some(TemporalMetadata::Date(unit).into())), Nullability::from(nullable))
}
pub fn time_dtype(unit: TimeUnit, nullable: bool) -> DType {
    DType::Extension(ExtDType::new(TIME_ID.clone(), Some(TemporalMetadata::Time(unit).into())), Nullability::from(nullable))
}

pub fn unit_per_day(u: TimeUnit) -> i128 {
    86400 * match u { TimeUnit::S => 1, TimeUnit::Ms => 1000, TimeUnit::Us => 1_000_000, TimeUnit::Ns => 1_000_000_000, TimeUnit::D => unreachable!() }
}

pub fn timestamps(unit: TimeUnit, tz: Option<&str>, shape: &str, len: usize, rng: &mut Rng) -> M {
    let d = unit_per_day(unit);
    let v: Vec<i128> = (0..len).map(|i| match shape {
        "edges" => match i % 12 { 0 => 0, 1 => -1, 2 => d, 3 => -d, 4 => d - 1, 5 => -d - 1, 6 => 1 - d, 7 => 86_399, 8 => 3 * d + 1234567, 9 => -3 * d - 1234567, 10 => 19_000 * d + 5, _ => -19_000 * d + 5 },
        "extremes" => match i % 4 { 0 => i64::MAX as i128, 1 => i64::MIN as i128, 2 => i64::MAX as i128 - 1, _ => i64::MIN as i128 + 1 },
        "random64" => rng.next() as i64 as i128,
        _ => 19_000 * d + (rng.next() as i128 % (5 * d)) * if rng.chance(1, 5) { -1 } else { 1 },
    }).collect();
    M::new(ts_dtype(unit, tz, false), v.into_iter().map(V::I).collect())
}

/// Every sequence over {a, b, c} (and null) of length at most `n`.
pub fn small_scope(dt: &DType, alphabet: &[V], n: usize) -> Vec<M> {
    let mut out = vec![];
    let mut frontier: Vec<Vec<V>> = vec![vec![]];
    for l in 0..=n {
        for f in &frontier { out.push(M::new(dt.clone(), f.clone())); }
        if l < n { frontier = frontier.iter().flat_map(|f| alphabet.iter().map(move |a| { let mut g = f.clone(); g.push(a.clone()); g })).collect(); }
    }
    out
}

pub fn struct_model(fields: Vec<(&str, M)>, nulls: Option<&[bool]>) -> M {
    let len = fields[0].1.len();
    let dt = struct_dtype(&fields.iter().map(|(n, m)| (*n, m.dt.clone())).collect::<Vec<_>>(), nulls.is_some());
    let v = (0..len).map(|i| if nulls.is_some_and(|n| n[i]) { V::Null } else { V::St(fields.iter().map(|(_, m)| m.v[i].clone()).collect()) }).collect();
    M::new(dt, v)
}

/// The general-purpose collection: one or more models per type family, boundary lengths, null patterns.
pub struct Case { pub name: String, pub m: M, pub sorted: bool }

pub fn is_sorted(m: &M) -> bool {
    m.v.iter().all(|v| *v != V::Null) && m.v.windows(2).all(|w| vcmp(&w[0], &w[1], &m.dt) != std::cmp::Ordering::Greater)
}

pub fn push(out: &mut Vec<Case>, name: String, m: M) {
    let sorted = is_sorted(&m);
    out.push(Case { name, m, sorted });
}

/// small: exhaustive small scope. medium: boundary lengths around block sizes.
pub fn cases(families: &[&str], rng: &mut Rng, thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    for fam in families {
        match *fam {
            "int" => {
                for p in [PType::I32, PType::U16] {
                    let (a, b, c) = if p == PType::I32 { (-2, 0, 5) } else { (0, 3, 700) };
                    for m in small_scope(&prim(p, true), &[V::I(a), V::I(b), V::I(c), V::Null], if thorough { 4 } else { 3 }) { push(&mut out, format!("{p}?-exhaustive"), m); }
                    for m in small_scope(&prim(p, false), &[V::I(a), V::I(b), V::I(c)], if thorough { 5 } else { 3 }) { push(&mut out, format!("{p}-exhaustive"), m); }
                }
                for p in INTS {
                    for sh in INT_SHAPES {
                        let lens: Vec<usize> = if thorough { vec![*rng.pick(&LENS), *rng.pick(&LENS), *rng.pick(&[5, 9, 17, 33])] } else { vec![*rng.pick(&[1, 2, 5, 9, 17, 65]), *rng.pick(&[1024, 1030, 2047, 2049])] };
                        for (k, len) in lens.into_iter().enumerate() {
                            // the long ones are thinned out by type
                            if !thorough && k == 1 && rng.chance(3, 5) { continue; }
                            let m = ints(p, sh, len, rng);
                            let pats = null_patterns(len, rng);
                            let (pn, pat) = rng.pick(&pats).clone();
                            push(&mut out, format!("{p}?-{sh}-{len}-{pn}"), with_nulls(&m, &pat));
                            push(&mut out, format!("{p}-{sh}-{len}"), m);
                        }
                    }
                }
            }
            "float" => {
                for p in FLOATS {
                    for sh in FLOAT_SHAPES {
                        let lens: Vec<usize> = if thorough { vec![3, 64, *rng.pick(&LENS), *rng.pick(&LENS)] } else { vec![*rng.pick(&[1, 2, 5, 17, 65]), *rng.pick(&[100, 1025])] };
                        for len in lens {
                            let m = floats(p, sh, len, rng);
                            let pats = null_patterns(len, rng);
                            let (pn, pat) = rng.pick(&pats).clone();
                            push(&mut out, format!("{p}?-{sh}-{len}-{pn}"), with_nulls(&m, &pat));
                            push(&mut out, format!("{p}-{sh}-{len}"), m);
                        }
                    }
                }
                let f = |x: f64| V::F(x.to_bits());
                for m in small_scope(&prim(PType::F64, true), &[f(0.0), f(1.5), f(f64::NAN), V::Null], 3) { push(&mut out, "f64?-exhaustive".into(), m); }
            }
            "bool" => {
                for m in small_scope(&DType::Bool(Nullability::Nullable), &[V::B(true), V::B(false), V::Null], if thorough { 6 } else { 4 }) { push(&mut out, "bool?-exhaustive".into(), m); }
                for m in small_scope(&DType::Bool(Nullability::NonNullable), &[V::B(true), V::B(false)], if thorough { 7 } else { 5 }) { push(&mut out, "bool-exhaustive".into(), m); }
                for sh in BOOL_SHAPES {
                    for len in if thorough { vec![9, 64, 65, 130, 1000, 2049] } else { vec![9, 65, *rng.pick(&[130, 500])] } {
                        let m = bools(sh, len, rng);
                        let pats = null_patterns(len, rng);
                        let (pn, pat) = rng.pick(&pats).clone();
                        push(&mut out, format!("bool?-{sh}-{len}-{pn}"), with_nulls(&m, &pat));
                        push(&mut out, format!("bool-{sh}-{len}"), m);
                    }
                }
            }
            "str" => {
                let s = |x: &str| V::S(x.as_bytes().to_vec());
                for m in small_scope(&DType::Utf8(Nullability::Nullable), &[s("a"), s("hello world!!"), s(""), V::Null], 3) { push(&mut out, "utf8?-exhaustive".into(), m); }
                for utf8 in [true, false] {
                    for sh in STR_SHAPES {
                        for len in if thorough { vec![1, 5, 30, 200, 1100] } else { vec![*rng.pick(&[1, 2, 5, 9]), *rng.pick(&[30, 100])] } {
                            let m = strings(utf8, sh, len, rng);
                            let pats = null_patterns(len, rng);
                            let (pn, pat) = rng.pick(&pats).clone();
                            push(&mut out, format!("str?-{sh}-{len}-{pn}"), with_nulls(&m, &pat));
                            push(&mut out, format!("str-{sh}-{len}"), m);
                        }
                    }
                }
            }
            "temporal" => {
                for u in [TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns] {
                    for (sh, tz) in [("edges", None), ("recent", Some("UTC"))] {
                        for len in [1, 12, 40] {
                            let m = timestamps(u, tz, sh, len, rng);
                            let pats = null_patterns(len, rng);
                            let (pn, pat) = rng.pick(&pats).clone();
                            push(&mut out, format!("ts?-{u:?}-{sh}-{len}-{pn}"), with_nulls(&m, &pat));
                            push(&mut out, format!("ts-{u:?}-{sh}-{len}"), m);
                        }
                    }
                }
                for (dt, scale) in [(date_dtype(TimeUnit::D, false), 1i128), (date_dtype(TimeUnit::Ms, false), 86_400_000), (time_dtype(TimeUnit::S, false), 1), (time_dtype(TimeUnit::Us, false), 1)] {
                    let v = (0..9).map(|i| V::I((i * i % 7) as i128 * scale)).collect();
                    push(&mut out, format!("{dt}"), M::new(dt, v));
                }
            }
            "struct" => {
                for len in [0usize, 1, 4, 30, 70] {
                    let a = ints(PType::I32, "runs", len, rng);
                    let b = with_nulls(&strings(true, "pool", len, rng), &(0..len).map(|i| i % 3 == 1).collect::<Vec<_>>());
                    let c = bools("random", len, rng);
                    let d = with_nulls(&floats(PType::F64, "decimals", len, rng), &(0..len).map(|i| i % 4 == 2).collect::<Vec<_>>());
                    let inner = struct_model(vec![("x", ints(PType::U8, "small", len, rng)), ("y", with_nulls(&bools("alt", len, rng), &vec![true; len]))], None);
                    push(&mut out, format!("struct-{len}"), struct_model(vec![("a", a.clone()), ("b", b.clone()), ("c", c.clone()), ("d", d), ("s", inner)], None));
                    let nulls: Vec<bool> = (0..len).map(|i| i % 3 == 0).collect();
                    push(&mut out, format!("struct?-{len}"), struct_model(vec![("a", a), ("b", b), ("c", c)], Some(&nulls)));
                }
            }
            "null" => for len in [0usize, 1, 5] { push(&mut out, format!("null-{len}"), M::new(DType::Null, vec![V::Null; len])); },
            _ => unreachable!(),
        }
    }
    out
}

pub const ALL: [&str; 7] = ["int", "float", "bool", "str", "temporal", "struct", "null"];
