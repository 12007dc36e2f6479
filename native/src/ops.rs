//! P01-P05, P07-P15, P24: encode/decode and the element-wise operations against the abstract view.
use std::cmp::Ordering;

use std::collections::HashSet;
use vortex::array::*;
use vortex::arrow::FromArrowArray;
use vortex::compute::unary::scalar_at;
use vortex::compute::{and, compare, filter, or, search_sorted, search_sorted_many, search_sorted_u64, search_sorted_u64_many, FilterFn, slice, take, Operator, SearchResult, SearchSortedSide};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::validity::{LogicalValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_dtype::{DType, Nullability, PType};
use vortex_scalar::{Scalar, ScalarValue};

use crate::core::*;
use crate::encs::*;
use crate::gen::*;
use crate::rng::Rng;

/// One failing or passing evaluation is described by the case, the input and the operation arguments.
fn descr(c: &Case) -> String { format!("[{}] {} {}", c.name, c.m.dt, short(&c.m.v)) }

pub fn lossless(ctx: &mut Ctx, cs: &[Case], list: &dyn Fn(&DType) -> Vec<(&'static str, EncFn)>, only: &[&str]) {
    for c in cs {
        if ctx.over() { break; }
        for (name, f) in list(&c.m.dt) {
            if !only.is_empty() && !only.iter().any(|o| name.starts_with(o)) { continue; }
            let args = || descr(c);
            match run(|| f(&c.m)) {
                Out::Ok(a) => {
                    if a.len() != c.m.len() {
                        ctx.count("encode", true, || descr(c));
                        ctx.fail("encode", name, "length", format!("{}: encoded length {}", args(), a.len()));
                        continue;
                    }
                    if *a.dtype() != c.m.dt {
                        ctx.count("encode", true, || descr(c));
                        ctx.fail("encode", name, "type", format!("{}: encoded type {}", args(), a.dtype()));
                        continue;
                    }
                    ctx.expect("decode(encode)", name, &args, run(|| decode(&a)), &c.m);
                }
                Out::Err(e) if e.starts_with("n/a") || e.contains("n/a:") || may_reject(name, &c.m) => { let _ = e; ctx.count("reject", false, String::new); }
                Out::Unimpl if may_reject(name, &c.m) => ctx.count("reject", false, String::new),
                Out::Err(e) => { ctx.count("encode", true, || descr(c)); ctx.fail("encode", name, "error", format!("{}: {e}", args())) }
                Out::Unimpl => { ctx.unimpl += 1; }
                Out::Panic(p) if may_reject(name, &c.m) => { ctx.count("reject", false, String::new); let _ = p; }
                Out::Panic(p) => { ctx.count("encode", true, || descr(c)); ctx.fail("encode", name, "panic", format!("{}: {p}", args())) }
            }
        }
    }
}

/// Integer lossless coding: every bit width, every shape, boundary lengths, null patterns.
pub fn p01(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x01);
    let cs = cases(&["int"], &mut rng, ctx.thorough);
    let cs = ctx.mine(cs);
    lossless(ctx, &cs, &encoders, &["bitpacked", "for", "zigzag", "delta", "primitive", "plain"]);
    if !ctx.rest() { return; }
    // every bit width of every unsigned type, around the block size
    for p in [PType::U8, PType::U16, PType::U32, PType::U64] {
        for w in 0..p.bit_width() as u8 {
            if ctx.over() { break; }
            let lens = if ctx.thorough { vec![1usize, 1023, 1024, 1025, 2500] } else { vec![*rng.pick(&[1usize, 5, 1023]), *rng.pick(&[1024, 1025, 2050])] };
            for len in lens {
                for extra in [0u32, 1, 9] {
                    let max = if w == 0 { 0u128 } else { (1u128 << w) - 1 };
                    let cap = if p.bit_width() == 64 { u64::MAX as u128 } else { (1u128 << p.bit_width()) - 1 };
                    let hi = ((max << extra) | max).min(cap);
                    let v: Vec<V> = (0..len).map(|i| V::I(match i % 5 { 0 => max as i128, 1 => 0, 2 if i % 35 == 2 => hi as i128, _ => (rng.next() as u128 & max) as i128 })).collect();
                    let m = M::new(prim(p, false), v);
                    let pats = null_patterns(len, &mut rng);
                    let (pn, pat) = rng.pick(&pats).clone();
                    let mm = with_nulls(&m, &pat);
                    for (mm, junk) in [(m, Junk::Zero), (mm, Junk::Noise)] {
                        let args = || format!("bitpack {p} width {w} len {len} extra {extra} nulls {pn} {junk:?} {}", short(&mm.v));
                        let got = run(|| { let a = vortex_fastlanes::bitpack_encode(canon_primitive(&mm, junk, junk == Junk::Noise), w)?.into_array(); decode(&a) });
                        ctx.expect("decode(bitpack)", "bitpacked", &args, got, &mm);
                    }
                }
            }
        }
    }
    // delta on every length around a block, with the constructor that takes a whole array
    for p in [PType::U8, PType::U16, PType::U32, PType::U64] {
        for len in LENS {
            if ctx.over() { break; }
            for sh in ["random", "ascending", "extremes"] {
                let m = ints(p, sh, len, &mut rng);
                let pats = null_patterns(len, &mut rng);
                let (pn, pat) = rng.pick(&pats).clone();
                for mm in [m.clone(), with_nulls(&m, &pat)] {
                    let args = || format!("delta {p} {sh} len {len} nulls {pn}: {}", short(&mm.v));
                    let got = run(|| decode(&DELTA_PRIM(&mm)?));
                    ctx.expect("decode(delta)", "delta", &args, got, &mm);
                }
            }
        }
    }
    // packing and unpacking helpers: choice of width, single element access
    for p in [PType::U8, PType::U32, PType::U64] {
        for sh in INT_SHAPES {
            if ctx.over() { break; }
            let len = *rng.pick(&[1usize, 40, 1024, 1100]);
            let m = ints(p, sh, len, &mut rng);
            let args = || format!("{p} {sh} len {len} {}", short(&m.v));
            let arr = canon_primitive(&m, Junk::Zero, false);
            ctx.expect_eq("find_min_patchless_bit_width", "primitive", &args, run(|| vortex_fastlanes::find_min_patchless_bit_width(&arr)), &bits_needed(&m));
            let got = run(|| {
                let w = vortex_fastlanes::find_best_bit_width(&arr)?;
                if w as usize >= p.bit_width() { return Ok(m.clone()); }
                decode(&vortex_fastlanes::bitpack_encode(arr.clone(), w)?.into_array())
            });
            ctx.expect("decode(bitpack best width)", "bitpacked", &args, got, &m);
        }
    }
}

pub fn p02(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x02);
    let mut cs = cases(&["float"], &mut rng, ctx.thorough);
    for p in [PType::F32, PType::F64] {
        let pool: Vec<u64> = if p == PType::F64 { f64_pool().iter().map(|x| x.to_bits()).collect() } else { f32_pool().iter().map(|x| x.to_bits() as u64).collect() };
        // every pair of special values, alone and inside a run of decimals
        for a in &pool {
            for b in &pool {
                push(&mut cs, format!("{p}-pair"), M::new(prim(p, false), vec![V::F(*a), V::F(*b)]));
            }
            let mut v: Vec<V> = (0..20).map(|i| { let x = i as f64 / 10.0 + 0.5; V::F(if p == PType::F64 { x.to_bits() } else { (x as f32).to_bits() as u64 }) }).collect();
            for at in [0usize, 9, 19] { let mut w = v.clone(); w[at] = V::F(*a); push(&mut cs, format!("{p}-one-special"), M::new(prim(p, false), w)); }
            v.truncate(3);
        }
        // every decimal scale
        for e in -18..19i32 {
            let v = (0..30).map(|_| { let x = (rng.below(2_000_000) as f64 - 1e6) * 10f64.powi(e); V::F(if p == PType::F64 { x.to_bits() } else { (x as f32).to_bits() as u64 }) }).collect();
            push(&mut cs, format!("{p}-scale{e}"), M::new(prim(p, false), v));
        }
    }
    let cs = ctx.mine(cs);
    lossless(ctx, &cs, &encoders, &["alp", "plain"]);
    if !ctx.rest() { return; }
    // real-doubles: dictionary fitted on one sample, applied to different data
    for p in [PType::F32, PType::F64] {
        for _ in 0..if ctx.thorough { 400 } else { 60 } {
            if ctx.over() { break; }
            let k = *rng.pick(&[1usize, 3, 8, 20]);
            let sh = *rng.pick(&FLOAT_SHAPES);
            let sample = floats(p, sh, k, &mut rng);
            let len = *rng.pick(&[1usize, 7, 64, 300]);
            let sh2 = *rng.pick(&FLOAT_SHAPES);
            let m = floats(p, sh2, len, &mut rng);
            let pats = null_patterns(len, &mut rng);
            let (_, pat) = rng.pick(&pats).clone();
            let mm = if rng.bool() { with_nulls(&m, &pat) } else { m };
            let args = || format!("dictionary from {} applied to {}", short(&sample.v), short(&mm.v));
            let got = run(|| {
                let s = canon_primitive(&sample, Junk::Zero, false);
                let arr = canon_primitive(&mm, Junk::Zero, false);
                let e = match p { PType::F32 => vortex_alp::RDEncoder::new(s.maybe_null_slice::<f32>()).encode(&arr), _ => vortex_alp::RDEncoder::new(s.maybe_null_slice::<f64>()).encode(&arr) };
                decode(&e.into_array())
            });
            ctx.expect("decode(encode)", "alp-rd", &args, got, &mm);
        }
    }
}

pub fn p03(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x03);
    let cs = cases(&["int", "float", "bool"], &mut rng, ctx.thorough);
    let cs = ctx.mine(cs);
    lossless(ctx, &cs, &encoders, &["dict", "runend", "roaring", "bytebool", "sparse", "constant", "bool-junk", "plain"]);
    if !ctx.rest() { return; }
    // restricted encoders: an answer must decode to the input; anything else must be a refusal
    let cs = cases(&["int", "bool"], &mut rng, false);
    for c in &cs {
        if ctx.over() { break; }
        for (name, f) in encoders(&c.m.dt) {
            if !(name == "roaring-int" || name == "roaring-bool" || name == "constant") || !may_reject(name, &c.m) { continue; }
            match run(|| decode(&f(&c.m)?)) {
                Out::Ok(d) if d.dt != c.m.dt || d.v != c.m.v => {
                    ctx.count("restricted", true, || descr(c));
                    ctx.fail("restricted", name, "value", format!("{}: accepted and decoded to {} {}", descr(c), d.dt, short(&d.v)));
                }
                _ => ctx.count("restricted", true, || descr(c)),
            }
        }
    }
    // exhaustive run-boundary patterns for the run encoders
    for n in 0..if ctx.thorough { 12usize } else { 9 } {
        for bits in 0..(1u32 << n) {
            if ctx.over() { break; }
            let m = M::new(DType::Bool(Nullability::NonNullable), (0..n).map(|i| V::B(bits >> i & 1 == 1)).collect());
            let args = || short(&m.v);
            if n > 0 {
                let got = run(|| {
                    let (ends, start) = vortex_runend_bool::compress::runend_bool_encode_slice(&arrow_buffer::BooleanBuffer::from_iter((0..n).map(|i| bits >> i & 1 == 1)));
                    let dec = vortex_runend_bool::compress::runend_bool_decode_slice::<u64>(&ends, start, 0, n);
                    Ok(M::new(m.dt.clone(), dec.into_iter().map(V::B).collect()))
                });
                ctx.expect("decode(runs)", "runend-bool", &args, got, &m);
            }
            let im = M::new(prim(PType::U16, false), (0..n).map(|i| V::I((bits >> i & 1) as i128 * 9)).collect());
            let got = run(|| decode(&encoders(&im.dt).iter().find(|e| e.0 == "runend").unwrap().1(&im)?));
            ctx.expect("decode(runs)", "runend", &args, got, &im);
        }
    }
}

pub fn p04(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x04);
    let mut cs = cases(&["str"], &mut rng, ctx.thorough);
    // lengths around the inline limit of the view form
    for l in 0..40usize {
        let v: Vec<V> = (0..3).map(|k| V::S((0..l).map(|i| b'a' + ((i * 7 + k) % 26) as u8).collect())).collect();
        push(&mut cs, format!("len{l}"), M::new(DType::Utf8(Nullability::NonNullable), v.clone()));
        push(&mut cs, format!("len{l}?"), M::new(DType::Binary(Nullability::Nullable), vec![v[0].clone(), V::Null, v[1].clone()]));
    }
    // every byte, for the symbol table
    push(&mut cs, "bytes".into(), M::new(DType::Binary(Nullability::NonNullable), (0..256).map(|b| V::S(vec![b as u8; (b % 9) + 1])).collect()));
    let cs = ctx.mine(cs);
    lossless(ctx, &cs, &encoders, &["varbin", "dict", "fsst", "plain", "sparse", "constant"]);
    if !ctx.rest() { return; }
    for c in &cs {
        if ctx.over() { break; }
        // form changes: offsets -> views -> offsets, symbol table -> views
        let args = || descr(c);
        let got = run(|| decode(&canon_varbin(&c.m).into_array().into_canonical()?.into_varbinview()?.into_array()));
        ctx.expect("varbin->view", "varbin", &args, got, &c.m);
        let got = run(|| { let v = canon_view(&c.m); Ok(M::new(c.m.dt.clone(), (0..v.len()).map(|i| if c.m.v[i] == V::Null { Ok(V::Null) } else { Ok(V::S(v.bytes_at(i)?)) }).collect::<vortex_error::VortexResult<_>>()?)) });
        ctx.expect("view.bytes_at", "varbinview", &args, got, &c.m);
        let got = run(|| { let v = canon_varbin(&c.m); Ok(M::new(c.m.dt.clone(), (0..v.len()).map(|i| if c.m.v[i] == V::Null { Ok(V::Null) } else { Ok(V::S(v.bytes_at(i)?.as_slice().to_vec())) }).collect::<vortex_error::VortexResult<_>>()?)) });
        ctx.expect("varbin.bytes_at", "varbin", &args, got, &c.m);
        // a symbol table trained on other data
        if c.m.len() > 0 && !ctx.thorough && rng.chance(2, 3) { continue; }
        let other = strings(true, "urls", 20, &mut rng);
        let got = run(|| {
            let comp = vortex_fsst::fsst_train_compressor(&canon_varbin(&other).into_array())?;
            decode(&vortex_fsst::fsst_compress(&canon_varbin(&c.m).into_array(), &comp)?.into_array())
        });
        ctx.expect("decode(foreign table)", "fsst", &args, got, &c.m);
    }
    // view arrays after operations keep several buffers: chunked re-assembly
    for _ in 0..20 {
        let m = strings(true, "pool", 25, &mut rng);
        let cuts = [0usize, 4, 4, 13, 25];
        for (nm, mk) in [("view", canon_view as fn(&M) -> VarBinViewArray)] {
            let got = run(|| {
                let chunks = cuts.windows(2).map(|w| mk(&m.slice(w[0], w[1])).into_array()).collect();
                decode(&ChunkedArray::try_new(chunks, m.dt.clone())?.into_array().into_canonical()?.into_varbinview()?.into_array())
            });
            ctx.expect("pack views", nm, &|| short(&m.v), got, &m);
        }
    }
}

pub fn p05(ctx: &mut Ctx) {
    use vortex_datetime_dtype::TimeUnit;
    let mut rng = Rng::new(ctx.seed ^ 0x05);
    let mut cs = cases(&["temporal"], &mut rng, ctx.thorough);
    for u in [TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns] {
        for sh in ["edges", "recent", "extremes", "random64"] {
            for tz in [None, Some("UTC"), Some("America/New_York")] {
                for len in [1usize, 4, 30] {
                    let m = timestamps(u, tz, sh, len, &mut rng);
                    let pats = null_patterns(len, &mut rng);
                    for (pn, pat) in &pats { push(&mut cs, format!("ts?-{u:?}-{sh}-{len}-{pn}"), with_nulls(&m, pat)); }
                    push(&mut cs, format!("ts-{u:?}-{sh}-{len}"), m);
                }
            }
        }
    }
    let cs = ctx.mine(cs);
    lossless(ctx, &cs, &encoders, &["datetimeparts"]);
    if !ctx.rest() { return; }
    for c in &cs {
        if ctx.over() { break; }
        let Some((_, f)) = encoders(&c.m.dt).into_iter().find(|e| e.0 == "datetimeparts") else { continue };
        let Out::Ok(a) = run(|| f(&c.m)) else { continue };
        if a.len() != c.m.len() { continue; }
        for i in 0..c.m.len().min(14) {
            let got = run(|| { let s = scalar_at(&a, i)?; scalar_to_v(&s).map_err(bad) });
            ctx.expect_eq("scalar_at", "datetimeparts", &|| format!("{} at {i}", descr(c)), got, &c.m.v[i]);
        }
    }
}

fn ranges(n: usize, rng: &mut Rng, thorough: bool) -> Vec<(usize, usize)> {
    if n <= 5 { return (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect(); }
    let mut v = vec![(0, n), (0, 0), (n, n), (n - 1, n), (0, 1), (1, n), (0, n - 1), (1, n - 1), (n / 2, n / 2 + 1)];
    for c in [8usize, 64, 1023, 1024, 1025] { if c < n { v.push((c, n)); v.push((0, c)); v.push((c - 1, n)); } }
    for _ in 0..if thorough { 12 } else { 3 } { let a = rng.below(n + 1); let b = a + rng.below(n + 1 - a); v.push((a, b)); }
    v
}

fn fams(ctx: &Ctx) -> Vec<Case> {
    let mut rng = Rng::new(ctx.seed ^ 0xfa);
    let mut cs = cases(&ALL, &mut rng, ctx.thorough);
    if !ctx.thorough {
        // keep every family and shape, thin out the repeats
        let mut k = 0;
        cs.retain(|c| { k += 1; !(c.name.contains("exhaustive") && c.m.len() == 3 && k % 3 != 0) });
    }
    // interleave, so that a budget cut-off is spread over the families
    let n = cs.len();
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { order.swap(i, rng.below(i + 1)); }
    let mut slots: Vec<Option<Case>> = cs.into_iter().map(Some).collect();
    ctx.mine(order.into_iter().map(|i| slots[i].take().unwrap()).collect())
}

pub fn p07(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x07);
    for c in fams(ctx) {
        if ctx.over() { break; }
        for e in build(&c.m, true, true) {
            let n = c.m.len();
            for (a, b) in ranges(n, &mut rng, ctx.thorough) {
                let want = c.m.slice(a, b);
                let args = || format!("{} slice({a}, {b})", descr(&c));
                let s = run(|| slice(&e.arr, a, b));
                let Out::Ok(s) = s else {
                    let o = match s { Out::Err(x) => Out::Err(x), Out::Panic(x) => Out::Panic(x), _ => Out::Unimpl };
                    ctx.expect("slice", &e.name, &args, o, &want);
                    continue;
                };
                if s.len() != b - a { ctx.fail("slice", &e.name, "length", format!("{}: length {}", args(), s.len())); continue; }
                ctx.expect("slice", &e.name, &args, run(|| decode(&s)), &want);
                // slice of a slice
                let w = b - a;
                let (x, y) = if w == 0 { (0, 0) } else { let x = rng.below(w + 1); (x, x + rng.below(w + 1 - x)) };
                ctx.expect("slice(slice)", &e.name, &|| format!("{} slice({a}, {b}).slice({x}, {y})", descr(&c)), run(|| decode(&slice(&s, x, y)?)), &want.slice(x, y));
            }
            for (a, b) in [(0, n + 1), (n + 1, n + 1)] {
                ctx.expect_reject("slice out of range", &e.name, &|| format!("{} slice({a}, {b})", descr(&c)), run(|| slice(&e.arr, a, b).map(|x| x.len())));
            }
            if n > 0 { ctx.expect_reject("slice reversed", &e.name, &|| format!("{} slice({n}, {})", descr(&c), n - 1), run(|| slice(&e.arr, n, n - 1).map(|x| x.len()))); }
        }
    }
}

fn index_lists(n: usize, rng: &mut Rng, thorough: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    if n == 0 { return v; }
    v.push(vec![n - 1]);
    v.push((0..n).rev().collect());
    v.push((0..n).collect());
    v.push(vec![0, 0, n - 1, n - 1, 0]);
    for _ in 0..if thorough { 6 } else { 2 } { v.push((0..3 + rng.below(30)).map(|_| rng.below(n)).collect()); }
    if n > 100 {
        // sparse and dense index sets inside one block
        v.push((0..n).step_by(97).collect());
        let mut s: Vec<usize> = (0..40).map(|_| rng.below(n)).collect(); s.sort(); v.push(s);
        v.push((n / 2..(n / 2 + 30).min(n)).collect());
    }
    v
}

fn index_array(idx: &[usize], k: usize) -> Array {
    let max = idx.iter().max().copied().unwrap_or(0);
    match k % 5 {
        0 => PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array(),
        1 => PrimitiveArray::from(idx.iter().map(|i| *i as u32).collect::<Vec<_>>()).into_array(),
        2 => PrimitiveArray::from(idx.iter().map(|i| *i as i64).collect::<Vec<_>>()).into_array(),
        3 if max < 256 => PrimitiveArray::from(idx.iter().map(|i| *i as u8).collect::<Vec<_>>()).into_array(),
        4 if max < 30000 => PrimitiveArray::from(idx.iter().map(|i| *i as i16).collect::<Vec<_>>()).into_array(),
        _ => PrimitiveArray::from(idx.iter().map(|i| *i as u32).collect::<Vec<_>>()).into_array(),
    }
}

pub fn p08(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x08);
    for c in fams(ctx) {
        if ctx.over() { break; }
        for e in build(&c.m, true, true) {
            for (k, idx) in index_lists(c.m.len(), &mut rng, ctx.thorough).into_iter().enumerate() {
                let want = c.m.take(&idx);
                let args = || format!("{} take({:?}){}", descr(&c), &idx[..idx.len().min(40)], if std::env::var("CONFORM_TREE").is_ok() { format!("{}", e.arr.tree_display()) } else { String::new() });
                let ia = index_array(&idx, k + rng.below(3));
                ctx.expect("take", &e.name, &args, run(|| { let t = take(&e.arr, &ia)?; if t.len() != idx.len() { return Err(bad(format!("taken length {} expected {}", t.len(), idx.len()))); } decode(&t) }), &want);
            }
        }
    }
    if !ctx.rest() { return; }
    // indices of a type too narrow for the ends of the chunks
    narrow_takes(ctx, &mut rng);
    // more indices than a 16-bit number counts
    for dt in [prim(PType::I32, true), prim(PType::U16, false), DType::Bool(Nullability::Nullable), DType::Utf8(Nullability::Nullable)] {
        let n = 12usize;
        let m = M::new(dt.clone(), (0..n).map(|i| if dt.is_nullable() && i % 5 == 3 { V::Null } else { match &dt { DType::Bool(_) => V::B(i % 3 == 0), DType::Utf8(_) => V::S(format!("s{}", i % 4).into_bytes()), _ => V::I(i as i128 / 3) } }).collect());
        let idx: Vec<usize> = (0..66_000).map(|_| rng.below(n)).collect();
        let want = m.take(&idx);
        let ia = index_array(&idx, 1);
        for e in build(&m, false, false) {
            if ctx.over() { break; }
            ctx.expect("take", &e.name, &|| format!("{dt} {}, 66,000 indices", short(&m.v)), run(|| decode(&take(&e.arr, &ia)?)), &want);
        }
    }
}

pub fn narrow_takes(ctx: &mut Ctx, rng: &mut Rng) {
    for (lens, _) in [(vec![300usize, 300], 0), (vec![100, 156, 400], 0), (vec![255, 1, 1, 300], 0), (vec![0, 70_000, 5], 1), (vec![32_767, 1, 9], 1), (vec![127, 129, 1], 0)] {
        let n: usize = lens.iter().sum();
        let m = ints(PType::I32, "small", n, rng);
        let mut at = 0;
        let chunks: Vec<Array> = lens.iter().map(|l| { at += l; canon(&m.slice(at - l, at)) }).collect();
        let arr = match run(|| Ok(ChunkedArray::try_new(chunks.clone(), m.dt.clone())?.into_array())) { Out::Ok(a) => a, _ => continue };
        for _ in 0..6 {
            for (nm, cap) in [("u8", 256usize), ("i8", 128), ("u16", 65_536), ("i16", 32_768), ("u32", n), ("i64", n)] {
                let top = cap.min(n);
                let mut idx: Vec<usize> = (0..1 + rng.below(6)).map(|_| rng.below(top)).collect();
                if rng.bool() { idx.push(top - 1); }
                if rng.chance(2, 3) { idx.sort(); idx.dedup(); }
                let ia = match nm {
                    "u8" => PrimitiveArray::from(idx.iter().map(|i| *i as u8).collect::<Vec<_>>()), "i8" => PrimitiveArray::from(idx.iter().map(|i| *i as i8).collect::<Vec<_>>()),
                    "u16" => PrimitiveArray::from(idx.iter().map(|i| *i as u16).collect::<Vec<_>>()), "i16" => PrimitiveArray::from(idx.iter().map(|i| *i as i16).collect::<Vec<_>>()),
                    "u32" => PrimitiveArray::from(idx.iter().map(|i| *i as u32).collect::<Vec<_>>()), _ => PrimitiveArray::from(idx.iter().map(|i| *i as i64).collect::<Vec<_>>()),
                }.into_array();
                ctx.expect("take", "chunked, narrow indices", &|| format!("i32 chunks of {lens:?} rows, take({idx:?} as {nm})"), run(|| decode(&take(&arr, &ia)?)), &m.take(&idx));
            }
        }
    }
}

/// The same mask, stored in several ways.
pub fn mask_forms(mask: &[bool]) -> Vec<(&'static str, Array)> {
    let m = M::new(DType::Bool(Nullability::NonNullable), mask.iter().map(|b| V::B(*b)).collect());
    let mut out: Vec<(&'static str, Array)> = vec![("bits", canon(&m))];
    let n = mask.len();
    let mut big = vec![true, false, true];
    big.extend_from_slice(mask);
    big.extend_from_slice(&[false, true]);
    let bm = canon(&M::new(m.dt.clone(), big.iter().map(|b| V::B(*b)).collect()));
    if let Out::Ok(s) = run(|| slice(&bm, 3, 3 + n)) { out.push(("sliced bits", s)); }
    for (nm, f) in encoders(&m.dt) {
        if matches!(nm, "runend-bool" | "constant" | "bytebool" | "roaring-bool" | "dict-bool" | "sparse-fill") {
            if let Out::Ok(a) = run(|| f(&m)) {
                if matches!(run(|| decode(&a)), Out::Ok(d) if d.v == m.v) { out.push((nm, a)); }
            }
        }
    }
    if n >= 2 { if let Out::Ok(a) = run(|| chunked(&m, encoders(&m.dt)[0].1, "plain")) { out.push(("chunked", a)); } }
    if n >= 2 { if let Out::Ok(a) = run(|| { Ok(ChunkedArray::try_new(vec![canon(&m.slice(0, n / 2)), canon(&m.slice(n / 2, n))], m.dt.clone())?.into_array()) }) { out.push(("chunked2", a)); } }
    out
}

fn masks(n: usize, rng: &mut Rng, thorough: bool) -> Vec<Vec<bool>> {
    if n <= 3 { return (0..1u32 << n).map(|b| (0..n).map(|i| b >> i & 1 == 1).collect()).collect(); }
    let mut v = vec![vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i == n - 1).collect(), (0..n).map(|i| i == 0).collect(),
        (0..n).map(|i| i >= n / 3 && i < n / 3 + 70).collect(), (0..n).map(|i| i % 11 != 3).collect()];
    for _ in 0..if thorough { 6 } else { 1 } { let d = 2 + rng.below(8); v.push((0..n).map(|_| rng.below(d) == 0).collect()); v.push((0..n).map(|_| rng.below(d) != 0).collect()); }
    v
}

/// The filter a canonical array has of its own (the entry point takes the arrow kernel instead).
fn own_filter(ctx: &mut Ctx, e: &Enc, k: usize, fa: &Array, args: &dyn Fn() -> String, want: &M) {
    if k != 0 || !e.name.ends_with("plain") && e.name != "slice(plain)" { return; }
    let got = if let Ok(a) = PrimitiveArray::try_from(&e.arr) { run(|| decode(&FilterFn::filter(&a, fa)?)) } else if let Ok(a) = BoolArray::try_from(&e.arr) { run(|| decode(&FilterFn::filter(&a, fa)?)) } else { return };
    ctx.expect("filter of the encoding", &e.name, args, got, want);
}

pub fn p09(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x09);
    for c in fams(ctx) {
        if ctx.over() { break; }
        let n = c.m.len();
        let ms: Vec<(Vec<bool>, Vec<(&'static str, Array)>)> = masks(n, &mut rng, ctx.thorough).into_iter().map(|m| { let f = mask_forms(&m); (m, f) }).collect();
        let encs = build(&c.m, true, true);
        for e in &encs {
            for (mask, forms) in &ms {
                let want = c.m.filter(mask);
                // all forms for the plain array, one rotating form otherwise
                let pick = rng.below(forms.len());
                for (k, (fname, fa)) in forms.iter().enumerate() {
                    if !(k == 0 || k == pick || e.name == "plain" || (e.name == "chunked(plain)")) { continue; }
                    let args = || format!("{} filter by {fname} mask {:?}", descr(&c), mask.iter().map(|b| *b as u8).take(80).collect::<Vec<_>>());
                    let got = run(|| { let f = filter(&e.arr, fa)?; if f.len() != want.len() { return Err(bad(format!("filtered length {} expected {}", f.len(), want.len()))); } decode(&f) });
                    ctx.expect(&format!("filter[{fname}]"), &e.name, &args, got, &want);
                    own_filter(ctx, &e, k, fa, &args, &want);
                }
            }
            let wrong = BoolArray::from_vec(vec![true; n + 1], Validity::NonNullable).into_array();
            ctx.expect_reject("filter by mask of another length", &e.name, &|| descr(&c), run(|| filter(&e.arr, &wrong).map(|x| x.len())));
        }
    }
    if !ctx.rest() { return; }
    // long runs of selected rows
    let n = 10_000usize;
    for dt in [prim(PType::I32, true), prim(PType::U16, false), prim(PType::F64, false), DType::Bool(Nullability::Nullable), DType::Utf8(Nullability::NonNullable)] {
        let m = M::new(dt.clone(), (0..n).map(|i| if dt.is_nullable() && i % 5 == 3 { V::Null } else { match &dt { DType::Bool(_) => V::B(i % 3 == 0), DType::Utf8(_) => V::S(format!("s{}", i % 400).into_bytes()), DType::Primitive(PType::F64, _) => V::F((i as f64 / 4.0).to_bits()), _ => V::I(i as i128) } }).collect());
        for mask in [(0..n).map(|i| i != 700 && i != 9_000).collect::<Vec<bool>>(), (0..n).map(|i| i >= 200 && i < 5_000).collect()] {
            let want = m.filter(&mask);
            let fa = BoolArray::from_vec(mask.clone(), Validity::NonNullable).into_array();
            for e in build(&m, true, false) {
                if ctx.over() { break; }
                ctx.expect("filter[long runs]", &e.name, &|| format!("{dt} 10,000 rows, {} of them selected", want.len()), run(|| decode(&filter(&e.arr, &fa)?)), &want);
                own_filter(ctx, &e, 0, &fa, &|| format!("{dt} 10,000 rows, {} of them selected", want.len()), &want);
            }
        }
    }
}

fn probe_positions(n: usize, rng: &mut Rng, k: usize) -> Vec<usize> {
    if n <= 20 { return (0..n).collect(); }
    let mut v = vec![0, 1, n - 1, n - 2, n / 2];
    for c in [63usize, 64, 1023, 1024, 1025] { if c < n { v.push(c); } }
    for _ in 0..k { v.push(rng.below(n)); }
    v
}

pub fn p10(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x10);
    for c in fams(ctx) {
        if ctx.over() { break; }
        for e in build(&c.m, true, true) {
            for i in probe_positions(c.m.len(), &mut rng, if ctx.thorough { 40 } else { 8 }) {
                let args = || format!("{} at {i}", descr(&c));
                match run(|| scalar_at(&e.arr, i)) {
                    Out::Ok(s) => {
                        ctx.expect_eq("scalar_at", &e.name, &args, run(|| scalar_to_v(&s).map_err(bad)), &c.m.v[i]);
                        if *s.dtype() != c.m.dt { ctx.fail("scalar_at", &e.name, "type", format!("{}: scalar type {} expected {}", args(), s.dtype(), c.m.dt)); }
                    }
                    Out::Err(x) => { ctx.expect_eq("scalar_at", &e.name, &args, Out::Err(x), &c.m.v[i]); }
                    Out::Panic(x) => { ctx.expect_eq("scalar_at", &e.name, &args, Out::Panic(x), &c.m.v[i]); }
                    Out::Unimpl => ctx.unimpl += 1,
                }
            }
            let n = c.m.len();
            for i in [n, n + 1, n + 1024] { ctx.expect_reject("scalar_at out of range", &e.name, &|| format!("{} at {i}", descr(&c)), run(|| scalar_at(&e.arr, i))); }
        }
    }
}

fn probes(m: &M, rng: &mut Rng) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    let vs: Vec<&V> = m.v.iter().filter(|v| **v != V::Null).collect();
    match &m.dt {
        DType::Primitive(p, _) if p.is_int() => {
            let (lo, hi) = irange(*p);
            let mut add = |x: i128| { if x >= lo && x <= hi && !out.contains(&V::I(x)) { out.push(V::I(x)); } };
            for x in [lo, hi, 0, -1, 1] { add(x); }
            for k in 0..vs.len().min(12) { if let V::I(x) = vs[if vs.len() <= 12 { k } else { rng.below(vs.len()) }] { add(*x); add(x - 1); add(x + 1); add(x + (1 << 20)); } }
            if let (Some(V::I(a)), Some(V::I(b))) = (vs.first(), vs.last()) { add(*a); add(*b); add(a - 1); add(b + 1); add(a - 4); add(b + 1024); }
        }
        DType::Primitive(p, _) => {
            for v in vs.iter().take(8) { out.push((*v).clone()); }
            for x in [-1e9, -1.0, 0.0, -0.0, 0.25, 0.333333333, 1e9] { out.push(V::F(match p { PType::F16 => half::f16::from_f64(x).to_bits() as u64, PType::F32 => (x as f32).to_bits() as u64, _ => f64::to_bits(x) })); }
        }
        DType::Bool(_) => { out.push(V::B(true)); out.push(V::B(false)); }
        DType::Utf8(_) | DType::Binary(_) => {
            for v in vs.iter().take(6) { out.push((*v).clone()); }
            for s in ["", "a", "hello world!!", "zzzzzzzzzzzzzzzzzzz"] { out.push(V::S(s.as_bytes().to_vec())); }
        }
        _ => for v in vs.iter().take(3) { out.push((*v).clone()); },
    }
    out
}

pub fn oracle_search(m: &M, v: &V, right: bool) -> SearchResult {
    let cmp = |x: &V| if *x == V::Null { Ordering::Greater } else { vcmp(x, v, &m.dt) };
    let lo = m.v.iter().filter(|x| cmp(x) == Ordering::Less).count();
    let le = m.v.iter().filter(|x| cmp(x) != Ordering::Greater).count();
    let i = if right { le } else { lo };
    if le > lo { SearchResult::Found(i) } else { SearchResult::NotFound(i) }
}

pub fn p11(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x11);
    let mut cs = cases(&["int", "float", "str", "bool"], &mut rng, ctx.thorough);
    cs.retain(|c| c.sorted);
    for p in INTS {
        for _ in 0..if ctx.thorough { 30 } else { 6 } {
            let len = *rng.pick(&[1usize, 2, 3, 6, 10, 31, 65, 1025, 1500]);
            let sh = *rng.pick(&["random", "small", "runs", "outlier", "multiples", "extremes", "sorted-dups", "negative"]);
            let mut m = ints(p, sh, len, &mut rng);
            m.v.sort();
            if rng.chance(1, 3) {
                // nulls are the greatest value
                let k = 1 + rng.below(3);
                m.dt = m.dt.as_nullable();
                for _ in 0..k { m.v.push(V::Null); }
                out_push_sorted(&mut cs, format!("{p}?-{sh}-{len}-nulls-last"), m);
            } else if rng.bool() {
                m.dt = m.dt.as_nullable();
                push(&mut cs, format!("{p}?-{sh}-{len}-sorted"), m);
            } else { push(&mut cs, format!("{p}-{sh}-{len}-sorted"), m); }
        }
    }
    for c in &ctx.mine(cs) {
        if ctx.over() { break; }
        if c.m.len() > 0 && c.m.len() == c.m.nulls() { continue; }
        if c.m.v.iter().any(|v| is_special_float(v, &c.m.dt)) { continue; }
        let ps = probes(&c.m, &mut rng);
        let has_nulls = c.m.nulls() > 0;
        for e in build(&c.m, true, true) {
            for v in &ps {
                for (side, right) in [(SearchSortedSide::Left, false), (SearchSortedSide::Right, true)] {
                    let want = oracle_search(&c.m, v, right);
                    let nm = if has_nulls { "search_sorted[nulls last]" } else { "search_sorted" };
                    let args = || format!("{} search {v:?} {side}", descr(c));
                    let sc = v_to_scalar(v, &c.m.dt);
                    ctx.expect_eq(nm, &e.name, &args, run(|| search_sorted(&e.arr, sc.clone(), side)), &want);
                    if let (V::I(x), DType::Primitive(..)) = (v, &c.m.dt) {
                        if *x >= 0 { ctx.expect_eq(&format!("{nm}_u64"), &e.name, &args, run(|| search_sorted_u64(&e.arr, *x as u64, side)), &want); }
                    }
                }
            }
            let scs: Vec<Scalar> = ps.iter().map(|v| v_to_scalar(v, &c.m.dt)).collect();
            let sides = vec![SearchSortedSide::Right; scs.len()];
            let want: Vec<SearchResult> = ps.iter().map(|v| oracle_search(&c.m, v, true)).collect();
            ctx.expect_eq("search_sorted_many", &e.name, &|| format!("{} search {ps:?} right", descr(c)), run(|| search_sorted_many(&e.arr, &scs, &sides)), &want);
            if let DType::Primitive(p, _) = &c.m.dt {
                if p.is_int() {
                    let us: Vec<u64> = ps.iter().filter_map(|v| match v { V::I(x) if *x >= 0 => Some(*x as u64), _ => None }).collect();
                    for (side, right) in [(SearchSortedSide::Left, false), (SearchSortedSide::Right, true)] {
                        let sides = vec![side; us.len()];
                        let want: Vec<SearchResult> = us.iter().map(|x| oracle_search(&c.m, &V::I(*x as i128), right)).collect();
                        ctx.expect_eq("search_sorted_u64_many", &e.name, &|| format!("{} search {us:?} {side}", descr(c)), run(|| search_sorted_u64_many(&e.arr, &us, &sides)), &want);
                    }
                }
            }
            // a u64 wider than the element type lies past the end
            if let DType::Primitive(p, _) = &c.m.dt {
                if p.is_int() && irange(*p).1 < u64::MAX as i128 && !has_nulls {
                    for big in [u64::MAX, irange(*p).1 as u64 + 1] {
                        ctx.expect_eq("search_sorted_u64 too wide", &e.name, &|| format!("{} search {big}", descr(c)), run(|| search_sorted_u64(&e.arr, big, SearchSortedSide::Left)), &SearchResult::NotFound(c.m.len()));
                        ctx.expect_eq("search_sorted_u64_many too wide", &e.name, &|| format!("{} search {big}", descr(c)), run(|| search_sorted_u64_many(&e.arr, &[big], &[SearchSortedSide::Left])), &vec![SearchResult::NotFound(c.m.len())]);
                        // the encoding's own method
                        let own = run(|| e.arr.with_dyn(|a| a.search_sorted().map(|f| f.search_sorted_u64(big, SearchSortedSide::Left))).transpose());
                        if let Out::Ok(Some(r)) = own { ctx.expect_eq("search_sorted_u64 of the encoding", &e.name, &|| format!("{} search {big}", descr(c)), Out::Ok(r), &SearchResult::NotFound(c.m.len())); }
                    }
                }
            }
        }
    }
}
fn out_push_sorted(cs: &mut Vec<Case>, name: String, m: M) { cs.push(Case { name, m, sorted: true }); }

pub const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];

pub fn apply_op(op: Operator, o: Ordering) -> bool {
    match op {
        Operator::Eq => o == Ordering::Equal,
        Operator::NotEq => o != Ordering::Equal,
        Operator::Gt => o == Ordering::Greater,
        Operator::Gte => o != Ordering::Less,
        Operator::Lt => o == Ordering::Less,
        Operator::Lte => o != Ordering::Greater,
    }
}

pub fn cmp_model(a: &M, b: &M, op: Operator) -> Vec<V> {
    a.v.iter().zip(&b.v).map(|(x, y)| if *x == V::Null || *y == V::Null { V::Null } else { V::B(apply_op(op, vcmp(x, y, &a.dt))) }).collect()
}

fn values_of(a: vortex_error::VortexResult<Array>, n: usize) -> vortex_error::VortexResult<Vec<V>> {
    let a = a?;
    if a.len() != n { return Err(bad(format!("result length {} expected {n}", a.len()))); }
    Ok(decode(&a)?.v)
}

pub fn p12(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x12);
    let cs = fams(ctx);
    for c in &cs {
        if ctx.over() { break; }
        if matches!(c.m.dt, DType::Struct(..) | DType::Null) { continue; }
        let n = c.m.len();
        // right operand: the same array shuffled / shifted, and constants
        let mut other = c.m.clone();
        if n > 0 { let k = 1 + rng.below(3); other.v.rotate_left(k % n); for i in 0..n { if rng.chance(1, 3) { other.v[i] = c.m.v[i].clone(); } } }
        let mut consts: Vec<V> = probes(&c.m, &mut rng);
        consts.truncate(5);
        if let DType::Primitive(p @ (PType::F16 | PType::F32 | PType::F64), _) = c.m.dt {
            for x in [-0.0, f64::NAN] { consts.push(V::F(match p { PType::F16 => half::f16::from_f64(x).to_bits() as u64, PType::F32 => (x as f32).to_bits() as u64, _ => x.to_bits() })); }
        }
        for v in c.m.v.iter().take(2) { consts.push(v.clone()); }
        if c.m.nullable() { consts.push(V::Null); }
        if c.m.nulls() == n && n > 0 { consts.push(V::Null); }
        let la = build(&c.m, true, false);
        let ra = build(&other, false, false);
        if n < 40 || ctx.thorough { } else { consts.truncate(2); }
        for e in &la {
            for op in OPS {
                if n > 40 && !rng.chance(1, 2) || n > 2 && !ctx.thorough && rng.chance(1, 2) { continue; }
                let r = rng.pick(&ra);
                let want = cmp_model(&c.m, &other, op);
                ctx.expect_eq("compare arrays", &e.name, &|| format!("{} {op:?} [{}] {}", descr(c), r.name, short(&other.v)), run(|| values_of(compare(&e.arr, &r.arr, op), n)), &want);
                // flipped: the answer does not depend on the side
                ctx.expect_eq("compare arrays swapped", &e.name, &|| format!("[{}] {} {op:?} {}", r.name, short(&other.v), descr(c)), run(|| values_of(compare(&r.arr, &e.arr, op), n)), &cmp_model(&other, &c.m, op));
                for v in &consts {
                    if n > 5 && (rng.chance(1, 2) || !ctx.thorough && rng.chance(1, 2)) || n > 1 && !ctx.thorough && rng.chance(1, 3) { continue; }
                    let cm = M::new(c.m.dt.clone(), vec![v.clone(); n]);
                    let ca = ConstantArray::new(v_to_scalar(v, &c.m.dt), n).into_array();
                    let nm = if *v == V::Null { "compare null constant" } else { "compare constant" };
                    ctx.expect_eq(nm, &e.name, &|| format!("{} {op:?} const {v:?}", descr(c)), run(|| values_of(compare(&e.arr, &ca, op), n)), &cmp_model(&c.m, &cm, op));
                    ctx.expect_eq(nm, &e.name, &|| format!("const {v:?} {op:?} {}", descr(c)), run(|| values_of(compare(&ca, &e.arr, op), n)), &cmp_model(&cm, &c.m, op));
                    // the same comparison with the other nullability on the constant
                    if *v != V::Null {
                        let cdt = if c.m.nullable() { c.m.dt.as_nonnullable() } else { c.m.dt.as_nullable() };
                        let ca = ConstantArray::new(v_to_scalar(v, &cdt), n).into_array();
                        ctx.expect_eq("compare constant of other nullability", &e.name, &|| format!("{} {op:?} const {v:?}", descr(c)), run(|| values_of(compare(&e.arr, &ca, op), n)), &cmp_model(&c.m, &cm, op));
                    }
                }
            }
            if n > 0 { 
                let shorter = canon(&c.m.slice(0, n - 1));
                ctx.expect_reject("compare lengths", &e.name, &|| descr(c), run(|| compare(&e.arr, &shorter, Operator::Eq).map(|a| a.len())));
            }
        }
    }
    // plain arrays around the sizes of machine words, null on either side, both or neither
    let mut jobs = vec![];
    for p in crate::sem::PTYPES { for len in [8usize, 16, 32, 63, 64, 65, 128, 192, 256, 512, 1000, 1024] { jobs.push((Some(p), len)); } }
    for len in [8usize, 63, 64, 65, 128, 256] { jobs.push((None, len)); }
    for (p, len) in ctx.mine(jobs) {
        if ctx.over() { break; }
        let mk = |rng: &mut Rng| match p { None => bools("random", len, rng), Some(p) if p.is_float() => floats(p, "decimals", len, rng), Some(p) => ints(p, "small", len, rng) };
        let (a, b) = (mk(&mut rng), mk(&mut rng));
        for (na, nb) in [(false, false), (true, false), (false, true), (true, true)] {
            let (ka, kb) = (1 + rng.below(3), 2 + rng.below(3));
            let a = if na { with_nulls(&a, &(0..len).map(|i| i % (ka + 1) != 0).collect::<Vec<_>>()) } else { a.clone() };
            let b = if nb { with_nulls(&b, &(0..len).map(|i| i % (kb + 2) != 1).collect::<Vec<_>>()) } else { b.clone() };
            for op in OPS {
                ctx.expect_eq("compare arrays", "plain", &|| format!("{} {} {op:?} {} {}", a.dt, short(&a.v), b.dt, short(&b.v)), run(|| values_of(compare(canon(&a), canon(&b), op), len)), &cmp_model(&a, &b, op));
            }
        }
    }
    if !ctx.rest() { return; }
    // and / or over every combination of short boolean arrays
    let small = small_scope(&DType::Bool(Nullability::Nullable), &[V::B(true), V::B(false), V::Null], if ctx.thorough { 3 } else { 2 });
    let mut pairs = vec![];
    for a in &small { for b in &small { if a.len() == b.len() { pairs.push((a.clone(), b.clone())); } } }
    for (len, sh) in [(9, "random"), (64, "random"), (128, "random"), (256, "runs"), (70, "runs"), (70, "true"), (130, "sparse"), (3, "false")] {
        for _ in 0..4 {
            let a = bools(sh, len, &mut rng);
            let b = bools(*rng.pick(&BOOL_SHAPES), len, &mut rng);
            let pa = null_patterns(len, &mut rng); let pb = null_patterns(len, &mut rng);
            pairs.push((a.clone(), b.clone()));
            pairs.push((with_nulls(&a, &rng.pick(&pa).1), with_nulls(&b, &rng.pick(&pb).1)));
            pairs.push((a.clone(), with_nulls(&b, &rng.pick(&pb).1)));
        }
    }
    for (a, b) in &pairs {
        if ctx.over() { break; }
        let n = a.len();
        let comb = |f: fn(bool, bool) -> bool| -> Vec<V> { a.v.iter().zip(&b.v).map(|(x, y)| match (x, y) { (V::B(x), V::B(y)) => V::B(f(*x, *y)), _ => V::Null }).collect() };
        let (wa, wo) = (comb(|x, y| x & y), comb(|x, y| x | y));
        for e in build(a, true, false) {
            for r in build(b, false, false) {
                let args = || format!("{} [{}] with [{}] {}", short(&a.v), e.name, r.name, short(&b.v));
                let nm = format!("{} with {}", e.name, r.name);
                let _ = nm;
                ctx.expect_eq("and", &e.name, &args, run(|| values_of(and(&e.arr, &r.arr), n)), &wa);
                ctx.expect_eq("or", &e.name, &args, run(|| values_of(or(&e.arr, &r.arr), n)), &wo);
            }
        }
    }
}

pub fn p13(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x13);
    for c in fams(ctx) {
        if ctx.over() { break; }
        let want = c.m.valid();
        let n = c.m.len();
        for e in build(&c.m, true, true) {
            let args = || descr(&c);
            ctx.expect_eq("logical_validity", &e.name, &args, run(|| logical_mask(&e.arr)), &want);
            ctx.expect_eq("is_valid", &e.name, &args, run(|| Ok(is_valid_mask(&e.arr))), &want);
            ctx.expect_eq("null_count", &e.name, &args, run(|| Ok(e.arr.statistics().compute_null_count().unwrap_or(c.m.nulls()))), &c.m.nulls());
            // null information of derived arrays
            if n > 0 && n <= 200 {
                let a = rng.below(n); let b = a + rng.below(n + 1 - a);
                if let Out::Ok(s) = run(|| slice(&e.arr, a, b)) {
                    ctx.expect_eq("slice.logical_validity", &e.name, &|| format!("{} slice({a},{b})", descr(&c)), run(|| logical_mask(&s)), &want[a..b].to_vec());
                    ctx.expect_eq("slice.is_valid", &e.name, &|| format!("{} slice({a},{b})", descr(&c)), run(|| Ok(is_valid_mask(&s))), &want[a..b].to_vec());
                }
                let idx: Vec<usize> = (0..7).map(|_| rng.below(n)).collect();
                if let Out::Ok(t) = run(|| take(&e.arr, index_array(&idx, 0))) {
                    ctx.expect_eq("take.logical_validity", &e.name, &|| format!("{} take({idx:?})", descr(&c)), run(|| logical_mask(&t)), &idx.iter().map(|i| want[*i]).collect());
                }
                let mask: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
                if let Out::Ok(t) = run(|| filter(&e.arr, &mask_forms(&mask)[0].1)) {
                    ctx.expect_eq("filter.logical_validity", &e.name, &|| format!("{} filter({mask:?})", descr(&c)), run(|| logical_mask(&t)), &want.iter().zip(&mask).filter(|x| *x.1).map(|x| *x.0).collect());
                }
            }
        }
    }
    if !ctx.rest() { return; }
    // validity on its own: slice, take, filter, conjunction
    let mut pats: Vec<Vec<bool>> = (0..5usize).flat_map(|n| (0..1u32 << n).map(move |b| (0..n).map(|i| b >> i & 1 == 1).collect::<Vec<bool>>())).collect();
    for len in [65usize, 130] { for (_, p) in null_patterns(len, &mut rng) { pats.push(p); } }
    let forms = |v: &[bool]| -> Vec<(&'static str, Validity)> {
        let mut o = vec![("array", Validity::Array(BoolArray::from_vec(v.to_vec(), Validity::NonNullable).into_array()))];
        if v.iter().all(|x| *x) { o.push(("all-valid", Validity::AllValid)); o.push(("non-nullable", Validity::NonNullable)); }
        if v.iter().all(|x| !*x) { o.push(("all-invalid", Validity::AllInvalid)); }
        o
    };
    let mask = |v: Validity, n: usize| -> vortex_error::VortexResult<Vec<bool>> {
        let lv = v.to_logical(n);
        let per: Vec<bool> = (0..n).map(|i| v.is_valid(i)).collect();
        let nb = lv.to_null_buffer()?;
        let full: Vec<bool> = match nb { Some(b) => (0..n).map(|i| b.is_valid(i)).collect(), None => vec![true; n] };
        if per != full { return Err(bad(format!("per-position {per:?} differs from the whole mask {full:?}"))); }
        if lv.len() != n { return Err(bad(format!("length {}", lv.len()))); }
        if matches!(&lv, LogicalValidity::AllValid(_)) && per.iter().any(|x| !*x) { return Err(bad("all valid but some null".into())); }
        Ok(full)
    };
    for p in &pats {
        if ctx.over() { break; }
        let n = p.len();
        for (nm, v) in forms(p) {
            ctx.expect_eq("validity", nm, &|| format!("{p:?}"), run(|| mask(v.clone(), n)), p);
            let a = rng.below(n + 1); let b = a + rng.below(n + 1 - a);
            ctx.expect_eq("validity.slice", nm, &|| format!("{p:?} slice({a},{b})"), run(|| mask(v.slice(a, b)?, b - a)), &p[a..b].to_vec());
            if n > 0 {
                let idx: Vec<usize> = (0..6).map(|_| rng.below(n)).collect();
                ctx.expect_eq("validity.take", nm, &|| format!("{p:?} take({idx:?})"), run(|| mask(v.take(&index_array(&idx, 0))?, 6)), &idx.iter().map(|i| p[*i]).collect());
                let k: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
                let w: Vec<bool> = p.iter().zip(&k).filter(|x| *x.1).map(|x| *x.0).collect();
                ctx.expect_eq("validity.filter", nm, &|| format!("{p:?} filter({k:?})"), run(|| mask(v.filter(&BoolArray::from_vec(k.clone(), Validity::NonNullable).into_array())?, w.len())), &w);
            }
            for q in &pats {
                if q.len() != n || (n > 3 && rng.chance(3, 4)) { continue; }
                for (nm2, v2) in forms(q) {
                    let w: Vec<bool> = p.iter().zip(q).map(|(a, b)| *a && *b).collect();
                    ctx.expect_eq("validity.and", nm, &|| format!("{p:?} and {nm2} {q:?}"), run(|| mask(v.clone().and(v2.clone())?, n)), &w);
                }
            }
        }
    }
}

/// Is this reported statistic true of the model?
pub fn stat_true(m: &M, stat: Stat, s: &Scalar, bound: bool) -> Result<(), String> {
    let vals: Vec<&V> = m.v.iter().filter(|v| **v != V::Null).collect();
    let as_u = |s: &Scalar| -> Result<u64, String> { match s.value() { ScalarValue::Primitive(p) => match pv_to_v(*p) { V::I(x) => Ok(x as u64), _ => Err("not an integer".into()) }, v => Err(format!("{v:?} is not a count")) } };
    let as_b = |s: &Scalar| -> Result<bool, String> { match s.value() { ScalarValue::Bool(b) => Ok(*b), v => Err(format!("{v:?} is not a flag")) } };
    let le = |a: &V, b: &V| vcmp(a, b, &m.dt) != Ordering::Greater;
    let special = m.v.iter().any(|v| is_special_float(v, &m.dt));
    if s.is_null() && !matches!(stat, Stat::Min | Stat::Max) { return Ok(()); }
    match stat {
        Stat::Min | Stat::Max => {
            if special { return Ok(()); }
            let v = sv_to_v(s.value(), &m.dt)?;
            let want = if stat == Stat::Min { vals.iter().min_by(|a, b| vcmp(a, b, &m.dt)) } else { vals.iter().max_by(|a, b| vcmp(a, b, &m.dt)) };
            match want {
                None => if v == V::Null { Ok(()) } else { Err(format!("{v:?} on an array without values")) },
                Some(w) => if v == **w { Ok(()) } else { Err(format!("{v:?} is not the true value {w:?}")) },
            }
        }
        Stat::NullCount => { let u = as_u(s)?; if u == m.nulls() as u64 { Ok(()) } else { Err(format!("{u}, but {} nulls", m.nulls())) } }
        Stat::TrueCount => { let u = as_u(s)?; let w = m.v.iter().filter(|v| **v == V::B(true)).count() as u64; if u == w { Ok(()) } else { Err(format!("{u}, but {w} true values")) } }
        Stat::IsConstant => { let b = as_b(s)?; if b && m.v.iter().any(|v| *v != m.v[0]) { Err("constant claimed, but elements differ".into()) } else if !b && !special && m.len() > 0 && m.v.iter().all(|v| *v == m.v[0]) { Err("not constant claimed, but all elements are equal".into()) } else { Ok(()) } }
        Stat::IsSorted => {
            if special { return Ok(()); }
            let b = as_b(s)?;
            // nulls are compared out: the order is claimed for the values present
            let w = vals.windows(2).all(|w| le(w[0], w[1]));
            if b && !w { Err("sorted claimed, but values are out of order".into()) } else if !b && w && m.nulls() == 0 { Err("unsorted claimed, but values are in order".into()) } else { Ok(()) }
        }
        Stat::IsStrictSorted => {
            if special { return Ok(()); }
            let b = as_b(s)?;
            let w = vals.windows(2).all(|w| vcmp(w[0], w[1], &m.dt) == Ordering::Less);
            if b && !w { Err("strictly sorted claimed, but values are not strictly increasing".into()) } else if !b && w && m.nulls() == 0 { Err("not strictly sorted claimed, but values are strictly increasing".into()) } else { Ok(()) }
        }
        Stat::RunCount => {
            let u = as_u(s)?;
            let mut runs = 0u64;
            let mut last: Option<&V> = None;
            for v in &vals { if last.map(|l| l != *v).unwrap_or(true) { runs += 1; } last = Some(v); }
            // a merged run count is documented as an upper bound
            if special || (bound && u >= runs) || u == runs { Ok(()) } else { Err(format!("{u}, but {runs} runs")) }
        }
        Stat::BitWidthFreq | Stat::TrailingZeroFreq => Ok(()),
    }
}

pub const STATS: [Stat; 8] = [Stat::Min, Stat::Max, Stat::NullCount, Stat::TrueCount, Stat::IsConstant, Stat::IsSorted, Stat::IsStrictSorted, Stat::RunCount];

fn check_stats(ctx: &mut Ctx, what: &str, name: &str, arr: &Array, m: &M, d: &dyn Fn() -> String, compute: bool) {
    for st in STATS {
        if st == Stat::TrueCount && !matches!(m.dt, DType::Bool(_)) { continue; }
        let got = run(|| Ok(if compute { arr.statistics().compute(st) } else { arr.statistics().get(st) }));
        ctx.count(&format!("{what} {st}"), true, || format!("{} {what} {st} = {got:?}", d()));
        match got {
            Out::Ok(None) | Out::Unimpl => {}
            Out::Ok(Some(s)) => if let Err(e) = stat_true(m, st, &s, true) { ctx.fail(&format!("{what} {st}"), name, "value", format!("{}: {st} reported {e}", d())) },
            Out::Err(_) => {}
            Out::Panic(p) => ctx.fail(&format!("{what} {st}"), name, "panic", format!("{}: {st}: {p}", d())),
        }
    }
}

pub fn p14(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x14);
    for c in fams(ctx) {
        if ctx.over() { break; }
        if matches!(c.m.dt, DType::Struct(..)) { continue; }
        for e in build(&c.m, true, true) {
            // what an encoder records about the parts of its result
            for (k, part) in e.arr.depth_first_traversal().enumerate().skip(1) {
                if STATS.iter().all(|st| part.statistics().get(*st).is_none()) { continue; }
                if let Out::Ok(m) = run(|| decode(&part)) { check_stats(ctx, "of a part", &e.name, &part, &m, &|| format!("{} part {k}: {}", descr(&c), part.encoding().id()), false); }
            }
            check_stats(ctx, "computed", &e.name, &e.arr, &c.m, &|| descr(&c), true);
            // inherited: after everything was computed, a derived array may carry statistics over
            let n = c.m.len();
            if n > 0 {
                let a = rng.below(n); let b = a + rng.below(n + 1 - a);
                if let Out::Ok(s) = run(|| slice(&e.arr, a, b)) { check_stats(ctx, "inherited by slice", &e.name, &s, &c.m.slice(a, b), &|| format!("{} slice({a},{b})", descr(&c)), rng.bool()); }
                let idx: Vec<usize> = (0..1 + rng.below(6)).map(|_| rng.below(n)).collect();
                if let Out::Ok(s) = run(|| take(&e.arr, index_array(&idx, 0))) { check_stats(ctx, "inherited by take", &e.name, &s, &c.m.take(&idx), &|| format!("{} take({idx:?})", descr(&c)), false); }
                let mask: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
                if let Out::Ok(s) = run(|| filter(&e.arr, &mask_forms(&mask)[0].1)) { check_stats(ctx, "inherited by filter", &e.name, &s, &c.m.filter(&mask), &|| format!("{} filter({mask:?})", descr(&c)), false); }
                if let Out::Ok(s) = run(|| Ok(Array::from(e.arr.clone().into_canonical()?))) { check_stats(ctx, "kept by decoding", &e.name, &s, &c.m, &|| descr(&c), false); }
            }
        }
    }
    if !ctx.rest() { return; }
    // merging over chunks whose statistics are already known, in every combination of known statistics
    let alpha = [V::I(1), V::I(2), V::I(3), V::Null];
    let parts = small_scope(&prim(PType::I32, true), &alpha, 2);
    for a in &parts {
        for b in &parts {
            if ctx.over() { break; }
            let whole = M::new(a.dt.clone(), a.v.iter().chain(&b.v).cloned().collect());
            for known in 0..3 {
                let mk = |m: &M| { let x = if known == 2 && m.nulls() == m.len() { PrimitiveArray::from_vec(vec![0i32; m.len()], Validity::AllInvalid).into_array() } else { canon(m) }; if known > 0 { for st in STATS { let _ = run(|| Ok(x.statistics().compute(st))); } } x };
                let Out::Ok(ch) = run(|| Ok(ChunkedArray::try_new(vec![mk(a), mk(b)], a.dt.clone())?.into_array())) else { continue };
                let sets = run(|| { let mut s = mk(a).statistics().to_set(); s.merge(&mk(b).statistics().to_set()); Ok(s) });
                if let Out::Ok(s) = sets {
                    for st in STATS {
                        if let Some(v) = s.get(st) {
                            ctx.count(&format!("merged {st}"), true, || format!("{:?} then {:?}: {st} = {v:?}", a.v, b.v));
                            if let Err(e) = stat_true(&whole, st, v, true) { ctx.fail(&format!("merged {st}"), "statsset", "value", format!("{:?} merged with {:?}: {st} reported {e}", a.v, b.v)); }
                        }
                    }
                } else if let Out::Panic(p) = sets { ctx.fail("merged", "statsset", "panic", format!("{:?} merged with {:?}: {p}", a.v, b.v)); }
                check_stats(ctx, "computed", "chunked(plain)", &ch, &whole, &|| format!("{:?} then {:?} (known {known})", a.v, b.v), true);
            }
        }
    }
}

pub fn p15(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x15);
    let mut rng2 = Rng::new(ctx.seed ^ 0x1515);
    if ctx.rest() { narrow_takes(ctx, &mut rng2); }
    for c in fams(ctx) {
        if ctx.over() { break; }
        let n = c.m.len();
        if n > 1200 { continue; }
        let plain = canon(&c.m);
        let mut splits: Vec<Vec<usize>> = vec![];
        if n == 0 { splits.push(vec![]); splits.push(vec![0, 0]); splits.push(vec![0, 0, 0]); } else {
            splits.push(vec![0, n]);
            splits.push(vec![0, 0, n]);
            splits.push(vec![0, n, n]);
            if n >= 2 { splits.push((0..=n.min(40)).chain(if n > 40 { vec![n] } else { vec![] }).collect()); splits.push(vec![0, 1, 1, n - 1, n - 1, n]); }
            for _ in 0..2 { let mut s: Vec<usize> = (0..1 + rng.below(5)).map(|_| rng.below(n + 1)).collect(); s.push(0); s.push(n); s.sort(); splits.push(s); }
        }
        for (sk, s) in splits.iter().enumerate() {
            let es = encoders(&c.m.dt);
            let mut chunks = vec![];
            for (k, w) in s.windows(2).enumerate() {
                let part = c.m.slice(w[0], w[1]);
                // chunks of different encodings
                let arr = if sk % 2 == 0 { canon(&part) } else {
                    match run(|| { let a = es[(k * 3 + sk) % es.len()].1(&part)?; if decode(&a)?.v != part.v || *a.dtype() != part.dt { return Err(bad("x".into())); } Ok(a) }) { Out::Ok(a) => a, _ => canon(&part) }
                };
                chunks.push(arr);
            }
            let d = |x: String| format!("{} split at {s:?}{} {x}", descr(&c), if sk % 2 == 0 { "" } else { " mixed encodings" });
            let nm = "chunked";
            let ch = match run(|| Ok(ChunkedArray::try_new(chunks.clone(), c.m.dt.clone())?)) { Out::Ok(a) => a, Out::Err(e) => { ctx.fail("try_new", nm, "error", d(e)); continue }, Out::Panic(p) => { ctx.fail("try_new", nm, "panic", d(p)); continue }, _ => continue };
            let ca = ch.clone().into_array();
            if !ctx.expect("decode", nm, &|| d(String::new()), run(|| decode(&ca)), &c.m) { continue; }
            for i in probe_positions(n, &mut rng, 3) { ctx.expect_eq("scalar_at", nm, &|| d(format!("at {i}")), run(|| scalar_to_v(&scalar_at(&ca, i)?).map_err(bad)), &c.m.v[i]); }
            let mut rs = ranges(n, &mut rng, false);
            if n > 5 { for w in s { rs.push((0, *w)); rs.push((*w, n)); } }
            for (a, b) in rs { ctx.expect("slice", nm, &|| d(format!("slice({a},{b})")), run(|| decode(&slice(&ca, a, b)?)), &c.m.slice(a, b)); }
            let mut lists = index_lists(n, &mut rng, false);
            // positions at the chunk edges
            if n > 0 { let mut l: Vec<usize> = s.iter().flat_map(|x| [x.saturating_sub(1), *x]).filter(|x| *x < n).collect(); lists.push(l.clone()); l.sort(); l.dedup(); lists.push(l); }
            for (k, idx) in lists.into_iter().enumerate() { ctx.expect("take", nm, &|| d(format!("take({idx:?})")), run(|| decode(&take(&ca, index_array(&idx, k))?)), &c.m.take(&idx)); }
            // strictly sorted indices that say so
            if n > 1 {
                let idx: Vec<usize> = (0..n).filter(|_| rng2.chance(1, 2)).collect();
                let ia = index_array(&idx, 0);
                let _ = ia.statistics().compute(Stat::IsStrictSorted);
                ctx.expect("take strictly sorted", nm, &|| d(format!("take({idx:?})")), run(|| decode(&take(&ca, &ia)?)), &c.m.take(&idx));
            }
            for mask in masks(n, &mut rng, false).into_iter().take(6) {
                let want = c.m.filter(&mask);
                for (fname, fa) in mask_forms(&mask) {
                    if n > 5 && rng.chance(1, 2) { continue; }
                    ctx.expect(&format!("filter[{fname}]"), nm, &|| d(format!("filter {mask:?}")), run(|| decode(&filter(&ca, &fa)?)), &want);
                }
            }
            if !matches!(c.m.dt, DType::Struct(..) | DType::Null) && !c.m.v.iter().any(|v| is_special_float(v, &c.m.dt)) {
                let op = *rng.pick(&OPS);
                ctx.expect_eq("compare", nm, &|| d(format!("{op:?} itself")), run(|| values_of(compare(&ca, &plain, op), n)), &cmp_model(&c.m, &c.m, op));
            }
            // re-chunking
            for (bytes, rows) in [(1usize << 30, 1usize), (1 << 30, 2), (1 << 30, 7), (1 << 30, n + 1), (64, 1 << 30), (16, 3)] {
                let got = run(|| ch.rechunk(bytes, rows));
                match got {
                    Out::Ok(r) => {
                        ctx.expect("rechunk", nm, &|| d(format!("rechunk({bytes}, {rows})")), run(|| decode(&r.clone().into_array())), &c.m);
                        // chunks that were small enough are only combined up to the row target
                        let orig: HashSet<usize> = s.windows(2).map(|w| w[1] - w[0]).collect();
                        for k in r.chunks() { if k.len() > rows && !orig.contains(&k.len()) { ctx.fail("rechunk", nm, "rows", d(format!("rechunk({bytes}, {rows}) gave a chunk of {} rows", k.len()))); } }
                    }
                    Out::Err(e) => ctx.fail("rechunk", nm, "error", d(format!("rechunk({bytes},{rows}): {e}"))),
                    Out::Panic(e) => ctx.fail("rechunk", nm, "panic", d(format!("rechunk({bytes},{rows}): {e}"))),
                    Out::Unimpl => {}
                }
            }
        }
    }
    let _ = PType::U8;
}

pub fn p24(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x24);
    for c in fams(ctx) {
        if ctx.over() { break; }
        for e in build(&c.m, true, true) {
            let args = || descr(&c);
            // to Arrow and back
            let got = run(|| {
                let a = e.arr.clone().into_canonical()?.into_arrow()?;
                if a.len() != c.m.len() { return Err(bad(format!("arrow length {}", a.len()))); }
                for i in 0..a.len() { if !matches!(c.m.dt, DType::Null) && arrow_array::Array::is_null(&a, i) != (c.m.v[i] == V::Null) { return Err(bad(format!("arrow null at {i}: {}", arrow_array::Array::is_null(&a, i)))); } }
                let back = Array::from_arrow(a, c.m.nullable());
                decode(&back)
            });
            ctx.expect("arrow round trip", &e.name, &args, got, &c.m);
            // a slice on the arrow side with non-zero offset
            let n = c.m.len();
            if n >= 2 {
                let a = 1 + rng.below(n - 1); let b = a + rng.below(n + 1 - a);
                let got = run(|| { let x = e.arr.clone().into_canonical()?.into_arrow()?; decode(&Array::from_arrow(arrow_array::Array::slice(&x, a, b - a), c.m.nullable())) });
                ctx.expect("arrow slice", &e.name, &|| format!("{} arrow slice({a},{b})", descr(&c)), got, &c.m.slice(a, b));
            }
        }
    }
    if !ctx.rest() { return; }
    // importing Arrow arrays built by Arrow itself
    use arrow_array::{ArrayRef, BinaryArray, BooleanArray, Int32Array, LargeStringArray, StringArray, StringViewArray, UInt64Array, Float64Array, TimestampMicrosecondArray, Date32Array, Date64Array, Time32SecondArray, Time64NanosecondArray, RecordBatch, StructArray as ArrowStruct};
    use std::sync::Arc;
    for n in [0usize, 1, 5, 9, 66] {
        for k in 0..6usize {
            let some = |i: usize| (i + k) % 4 != 1 || k == 0;
            let arrs: Vec<(&str, ArrayRef, Vec<V>)> = vec![
                ("i32", Arc::new(Int32Array::from_iter((0..n).map(|i| some(i).then_some(i as i32 * 3 - 7)))), (0..n).map(|i| if some(i) { V::I(i as i128 * 3 - 7) } else { V::Null }).collect()),
                ("u64", Arc::new(UInt64Array::from_iter((0..n).map(|i| some(i).then_some(u64::MAX - i as u64)))), (0..n).map(|i| if some(i) { V::I(u64::MAX as i128 - i as i128) } else { V::Null }).collect()),
                ("f64", Arc::new(Float64Array::from_iter((0..n).map(|i| some(i).then_some(if i % 2 == 0 { -0.0 } else { f64::NAN })))), (0..n).map(|i| if some(i) { V::F(if i % 2 == 0 { (-0.0f64).to_bits() } else { f64::NAN.to_bits() }) } else { V::Null }).collect()),
                ("bool", Arc::new(BooleanArray::from_iter((0..n).map(|i| some(i).then_some(i % 3 == 0)))), (0..n).map(|i| if some(i) { V::B(i % 3 == 0) } else { V::Null }).collect()),
                ("utf8", Arc::new(StringArray::from_iter((0..n).map(|i| some(i).then(|| "xyz".repeat(i % 7))))), (0..n).map(|i| if some(i) { V::S("xyz".repeat(i % 7).into_bytes()) } else { V::Null }).collect()),
                ("large-utf8", Arc::new(LargeStringArray::from_iter((0..n).map(|i| some(i).then(|| "é".repeat(i % 9))))), (0..n).map(|i| if some(i) { V::S("é".repeat(i % 9).into_bytes()) } else { V::Null }).collect()),
                ("utf8-view", Arc::new(StringViewArray::from_iter((0..n).map(|i| some(i).then(|| "xyz".repeat(i % 7))))), (0..n).map(|i| if some(i) { V::S("xyz".repeat(i % 7).into_bytes()) } else { V::Null }).collect()),
                ("binary", Arc::new(BinaryArray::from_iter((0..n).map(|i| some(i).then(|| vec![0xffu8; i % 15])))), (0..n).map(|i| if some(i) { V::S(vec![0xffu8; i % 15]) } else { V::Null }).collect()),
                ("ts", Arc::new(TimestampMicrosecondArray::from_iter((0..n).map(|i| some(i).then_some(i as i64 - 3)))), (0..n).map(|i| if some(i) { V::I(i as i128 - 3) } else { V::Null }).collect()),
                ("date32", Arc::new(Date32Array::from_iter((0..n).map(|i| some(i).then_some(i as i32 - 3)))), (0..n).map(|i| if some(i) { V::I(i as i128 - 3) } else { V::Null }).collect()),
                ("date64", Arc::new(Date64Array::from_iter((0..n).map(|i| some(i).then_some(i as i64 * 86_400_000)))), (0..n).map(|i| if some(i) { V::I(i as i128 * 86_400_000) } else { V::Null }).collect()),
                ("time32s", Arc::new(Time32SecondArray::from_iter((0..n).map(|i| some(i).then_some(i as i32)))), (0..n).map(|i| if some(i) { V::I(i as i128) } else { V::Null }).collect()),
                ("time64ns", Arc::new(Time64NanosecondArray::from_iter((0..n).map(|i| some(i).then_some(i as i64)))), (0..n).map(|i| if some(i) { V::I(i as i128) } else { V::Null }).collect()),
            ];
            let nullable = k != 0;
            for (nm, a, v) in &arrs {
                for (x, y) in [(0, n), (n / 2, n), (n.min(1), n.saturating_sub(1).max(n.min(1)))] {
                    let s = arrow_array::Array::slice(a, x, y - x);
                    let got = run(|| { let arr = Array::from_arrow(s.clone(), nullable); if arr.dtype().is_nullable() != nullable { return Err(bad(format!("nullability of {}", arr.dtype()))); } Ok(decode(&arr)?.v) });
                    ctx.expect_eq("import", nm, &|| format!("n={n} k={k} slice({x},{y})"), got, &v[x..y].to_vec());
                    let got = run(|| { let arr = Array::from_arrow(s.clone(), nullable); let back = arr.into_canonical()?.into_arrow()?; Ok(decode(&Array::from_arrow(back, nullable))?.v) });
                    ctx.expect_eq("import+export", nm, &|| format!("n={n} k={k} slice({x},{y})"), got, &v[x..y].to_vec());
                }
            }
            // a null buffer without nulls, in a column that may or may not hold nulls
            if k == 0 {
                let nulls = || Some(arrow_buffer::NullBuffer::new_valid(n));
                let ints: ArrayRef = Arc::new(Int32Array::new((0..n as i32).collect::<Vec<_>>().into(), nulls()));
                let bools: ArrayRef = Arc::new(BooleanArray::new((0..n).map(|i| i % 3 == 0).collect::<Vec<_>>().into(), nulls()));
                for (nm, a, v) in [("i32", ints, (0..n).map(|i| V::I(i as i128)).collect::<Vec<_>>()), ("bool", bools, (0..n).map(|i| V::B(i % 3 == 0)).collect())] {
                    for null in [false, true] {
                        let got = run(|| { let arr = Array::from_arrow(a.clone(), null); if arr.dtype().is_nullable() != null { return Err(bad(format!("nullability of {}", arr.dtype()))); } Ok(decode(&arr)?.v) });
                        ctx.expect_eq("import", nm, &|| format!("n={n} null buffer without nulls, nullable={null}"), got, &v);
                    }
                }
                // a struct without fields still has its rows, alone and as a field
                for valid in [Validity::NonNullable, Validity::AllValid, Validity::AllInvalid] {
                    let empty = || StructArray::try_new(vec![].into(), vec![], n, valid.clone());
                    let shape = |a: &dyn arrow_array::Array| (a.len(), a.logical_nulls().map_or(0, |x| x.null_count()));
                    let want = (n, if matches!(valid, Validity::AllInvalid) { n } else { 0 });
                    let got = run(|| Ok(shape(empty()?.into_canonical()?.into_arrow()?.as_ref())));
                    ctx.expect_eq("export", "struct without fields", &|| format!("n={n} {valid:?}"), got, &want);
                    let got = run(|| { let x = StructArray::try_new(vec!["a".into()].into(), vec![empty()?.into_array()], n, Validity::NonNullable)?; let x = x.into_canonical()?.into_arrow()?; Ok(shape(arrow_array::cast::AsArray::as_struct(x.as_ref()).column(0).as_ref())) });
                    ctx.expect_eq("export", "struct with a field without fields", &|| format!("n={n} {valid:?}"), got, &want);
                }
                let got = run(|| Ok(RecordBatch::try_from(StructArray::try_new(vec![].into(), vec![], n, Validity::NonNullable)?.into_array())?.num_rows()));
                ctx.expect_eq("export", "record batch without columns", &|| format!("n={n}"), got, &n);
            }
            // nested struct, sliced, and a record batch
            let fields: Vec<(Arc<arrow_schema::Field>, ArrayRef)> = arrs.iter().take(5).map(|(nm, a, _)| (Arc::new(arrow_schema::Field::new(*nm, a.data_type().clone(), nullable)), a.clone())).collect();
            let inner = ArrowStruct::from(fields.clone());
            let outer = ArrowStruct::from(vec![(Arc::new(arrow_schema::Field::new("in", arrow_array::Array::data_type(&inner).clone(), false)), Arc::new(inner) as ArrayRef), fields[0].clone()]);
            for (x, y) in [(0, n), (n / 2, n)] {
                let s: ArrayRef = arrow_array::Array::slice(&outer, x, y - x);
                let want: Vec<V> = (x..y).map(|i| V::St(vec![V::St(arrs.iter().take(5).map(|a| a.2[i].clone()).collect()), arrs[0].2[i].clone()])).collect();
                let got = run(|| Ok(decode(&Array::from_arrow(s.clone(), false))?.v));
                ctx.expect_eq("import", "struct", &|| format!("n={n} k={k} slice({x},{y})"), got, &want);
            }
            if n > 0 {
                let rb = RecordBatch::from(ArrowStruct::from(fields));
                let got = run(|| Ok(decode(&Array::try_from(rb.slice(n / 2, n - n / 2))?)?.v));
                let want: Vec<V> = (n / 2..n).map(|i| V::St(arrs.iter().take(5).map(|a| a.2[i].clone()).collect())).collect();
                ctx.expect_eq("import", "record batch", &|| format!("n={n} k={k}"), got, &want);
            }
        }
    }
}
