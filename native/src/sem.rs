//! P06, P19, P20, P21, P22: automatic compression, pruning, scalars, types, expressions.
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;

use flatbuffers::FlatBufferBuilder;
use futures_executor::block_on;
use half::f16;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use vortex::array::*;
use vortex::compute::unary::try_cast;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_buffer::Buffer;
use vortex_dtype::field::{Field, FieldPath};
use vortex_dtype::flatbuffers::{deserialize_and_project, resolve_field};
use vortex_dtype::{DType, ExtDType, ExtID, ExtMetadata, Nullability, PType, StructDType};
use vortex_error::VortexResult;
use vortex_expr::{split_conjunction, BinaryExpr, Column, Identity, Literal, Operator, Select, VortexExpr};
use vortex_flatbuffers::{FlatBufferToBytes, WriteFlatBuffer};
use vortex_proto::{dtype as pbd, scalar as pbs};
use vortex_sampling_compressor::compressors::alp::ALPCompressor;
use vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor;
use vortex_sampling_compressor::compressors::bitpacked::{BITPACK_NO_PATCHES, BITPACK_WITH_PATCHES};
use vortex_sampling_compressor::compressors::chunked::DEFAULT_CHUNKED_COMPRESSOR;
use vortex_sampling_compressor::compressors::constant::ConstantCompressor;
use vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor;
use vortex_sampling_compressor::compressors::delta::DeltaCompressor;
use vortex_sampling_compressor::compressors::dict::DictCompressor;
use vortex_sampling_compressor::compressors::fsst::FSSTCompressor;
use vortex_sampling_compressor::compressors::r#for::FoRCompressor;
use vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor;
use vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor;
use vortex_sampling_compressor::compressors::runend::DEFAULT_RUN_END_COMPRESSOR;
use vortex_sampling_compressor::compressors::sparse::SparseCompressor;
use vortex_sampling_compressor::compressors::struct_::StructCompressor;
use vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor;
use vortex_sampling_compressor::compressors::CompressorRef;
use vortex_sampling_compressor::{SamplingCompressor, DEFAULT_COMPRESSORS, FASTEST_COMPRESSORS};
use vortex_scalar::{PValue, Scalar, ScalarValue};
use vortex_serde::layouts::pruning::verif;
use vortex_serde::layouts::{LayoutContext, LayoutDescriptorReader, LayoutDeserializer, LayoutWriter, RowFilter};

use crate::core::*;
use crate::gen::*;
use crate::io::*;
use crate::rng::Rng;

// ---------------------------------------------------------------- P06

fn all_compressors() -> Vec<CompressorRef<'static>> {
    vec![&ALPCompressor, &ALPRDCompressor, &BITPACK_WITH_PATCHES, &BITPACK_NO_PATCHES, &ConstantCompressor, &DateTimePartsCompressor, &DeltaCompressor, &DictCompressor, &FoRCompressor,
        &FSSTCompressor, &RoaringBoolCompressor, &RoaringIntCompressor, &DEFAULT_RUN_END_COMPRESSOR, &SparseCompressor, &StructCompressor, &ZigZagCompressor, &DEFAULT_CHUNKED_COMPRESSOR]
}

fn compressor_set(k: usize, rng: &mut Rng) -> (String, HashSet<CompressorRef<'static>>) {
    let all = all_compressors();
    match k % 5 {
        0 => ("default".into(), DEFAULT_COMPRESSORS.iter().copied().collect()),
        1 => ("fastest".into(), FASTEST_COMPRESSORS.iter().copied().collect()),
        2 => ("all".into(), all.into_iter().collect()),
        3 => { let c = *rng.pick(&all); (format!("only {}", c.id()), [c].into_iter().collect()) }
        _ => { let s: HashSet<_> = all.into_iter().filter(|_| rng.bool()).collect(); let mut n: Vec<_> = s.iter().map(|c| c.id()).collect(); n.sort(); (format!("some of all: {}", n.join(" ")), s) }
    }
}

fn of_type(dt: &DType, len: usize, rng: &mut Rng) -> Option<M> {
    let m = match dt {
        DType::Bool(_) => bools(*rng.pick(&BOOL_SHAPES), len, rng),
        DType::Primitive(p, _) if p.is_int() => ints(*p, *rng.pick(&INT_SHAPES), len, rng),
        DType::Primitive(p, _) => floats(*p, *rng.pick(&FLOAT_SHAPES), len, rng),
        DType::Utf8(_) => strings(true, *rng.pick(&["pool", "short"]), len, rng),
        DType::Binary(_) => strings(false, *rng.pick(&["pool", "short"]), len, rng),
        _ => return None,
    };
    if dt.is_nullable() { let p = null_patterns(len, rng); return Some(with_nulls(&m, &rng.pick(&p).1)); }
    Some(m)
}

pub fn p06(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x06);
    let all = cases(&ALL.to_vec(), &mut rng, ctx.thorough);
    let n = all.len();
    let keep = if ctx.thorough { n } else { 6000 };
    let mut cs: Vec<(String, M)> = all.into_iter().filter(|c| c.m.len() > 1024 && rng.chance(1, 2) || rng.below(n) < keep).map(|c| (c.name, c.m)).collect();
    rng.shuffle(&mut cs);
    let mut rng = Rng::new(ctx.seed ^ 0x0606 ^ ((ctx.shard.0 as u64) << 20));
    for (k, (name, m)) in ctx.mine(cs).into_iter().enumerate() {
        if ctx.over() { break; }
        let (sname, set) = compressor_set(rng.below(10), &mut rng);
        let c = SamplingCompressor::new(set);
        // plain, already encoded, chunked
        let (how, arr) = match k % 4 {
            0 => ("encoded", encode_some(&m, &mut rng)),
            1 => { let cut = cuts(m.len(), &mut rng); ("chunked", ChunkedArray::try_new(cut.windows(2).map(|w| encode_some(&m.slice(w[0], w[1]), &mut rng)).collect(), m.dt.clone()).unwrap().into_array()) }
            _ => ("plain", canon(&m)),
        };
        let args = || format!("[{name}] {} {} compressors {sname}", m.dt, short(&m.v));
        let got = run(|| { let a = c.compress(&arr, None)?.into_array(); if a.len() != arr.len() { return Err(bad(format!("length {}", a.len()))); } decode(&a) });
        ctx.expect("compress", how, &args, got, &m);
        // imitate the tree found for other data of the same type
        if rng.chance(1, 2) {
            let len = *rng.pick(&[0usize, 1, 5, 100, 1500]);
            let Some(m0) = of_type(&m.dt, len, &mut rng) else { continue };
            let args = || format!("[{name}] {} {} like {} compressors {sname}", m.dt, short(&m.v), short(&m0.v));
            let got = run(|| {
                let (_, like) = c.compress(&canon(&m0), None)?.into_parts();
                decode(c.compress(&arr, like.as_ref())?.as_ref())
            });
            ctx.expect("compress like", how, &args, got, &m);
        }
    }
    // every encoding, of rows sliced out of more rows, at sizes where its parts are worth compressing
    let types = [DType::Primitive(PType::U32, Nullability::NonNullable), DType::Primitive(PType::I64, Nullability::Nullable), DType::Primitive(PType::F64, Nullability::NonNullable), DType::Bool(Nullability::NonNullable), DType::Utf8(Nullability::NonNullable)];
    for round in 0..if ctx.thorough { 40 } else { 2 } {
        for dt in &types {
            for (name, f) in crate::encs::encoders(dt) {
                if ctx.over() { break; }
                let Some(m) = of_type(dt, *rng.pick(&[300usize, 700, 1000]), &mut rng) else { continue };
                let (Some((p, at)), (sname, set)) = (crate::encs::padded(&m, name), compressor_set(if round % 2 == 0 { 2 } else { rng.below(10) }, &mut rng)) else { continue };
                let Out::Ok(arr) = run(|| vortex::compute::slice(f(&p)?, at, at + m.len())) else { continue };
                if !matches!(run(|| decode(&arr)), Out::Ok(d) if d == m) { continue; }
                let c = SamplingCompressor::new(set);
                let args = || format!("{name} {} {} compressors {sname}", m.dt, short(&m.v));
                ctx.expect("compress", "sliced", &args, run(|| decode(c.compress(&arr, None)?.as_ref())), &m);
            }
        }
    }
    // tables
    for round in 0..if ctx.thorough { 1500 } else { 120 } {
        if ctx.over() { break; }
        let len = *rng.pick(&[1usize, 2, 9, 70, 1300, 2500]);
        let t = table(len, &mut rng);
        let outer = if rng.bool() { vec![0, len] } else { cuts(len, &mut rng) };
        let (arr, d) = assemble(&t, &outer, &mut rng);
        let (sname, set) = compressor_set(round, &mut rng);
        let c = SamplingCompressor::new(set);
        let want = t.model(&t.all(), &(0..len).collect::<Vec<_>>());
        let args = || format!("[{}] pieces {d} compressors {sname}", t.descr());
        ctx.expect("compress", "table", &args, run(|| decode(c.compress(&arr, None)?.as_ref())), &want);
        // a compressed table compressed again, imitating its own tree
        let got = run(|| {
            let (a, like) = c.compress(&arr, None)?.into_parts();
            decode(c.compress(&a, like.as_ref())?.as_ref())
        });
        ctx.expect("compress like", "table", &args, got, &want);
    }
}

// ---------------------------------------------------------------- P19

fn stat_table(chunks: &[Table], refs: impl Iterator<Item = (Field, Vec<Stat>)>) -> VortexResult<Array> {
    let n = chunks.len();
    let mut ns: Vec<Arc<str>> = vec![];
    let mut fields = vec![];
    for (f, stats) in refs {
        for s in stats {
            let Field::Name(name) = verif::column_name(&f, s) else { return Err(bad("stat column without a name".into())) };
            if ns.iter().any(|x| **x == *name) { continue; }
            let i = match &f { Field::Name(x) => chunks[0].names.iter().position(|y| y == x), Field::Index(i) => Some(*i) }.ok_or_else(|| bad(format!("unknown column {f}")))?;
            let dt = chunks[0].cols[i].dt.as_nullable();
            let v = chunks.iter().map(|t| {
                let c = &t.cols[i];
                let it = c.v.iter().filter(|v| **v != V::Null);
                match s { Stat::Min => it.min_by(|a, b| vcmp(a, b, &c.dt)), Stat::Max => it.max_by(|a, b| vcmp(a, b, &c.dt)), _ => None }.cloned().unwrap_or(V::Null)
            }).collect();
            ns.push(name.into());
            fields.push(canon(&M::new(dt, v)));
        }
    }
    Ok(StructArray::try_new(ns.into(), fields, n, Validity::NonNullable)?.into_array())
}

fn reads(e: &E, names: &[String], out: &mut HashSet<Field>) {
    match e { E::Col(i, true) => { out.insert(Field::Name(names[*i].clone())); } E::Col(i, false) => { out.insert(Field::Index(*i)); } E::Lit(..) => {} E::Bin(l, _, r) => { reads(l, names, out); reads(r, names, out); } }
}

fn two_col_noteq(e: &E) -> bool {
    matches!(e, E::Bin(l, Operator::NotEq, r) if matches!(**l, E::Col(..)) && matches!(**r, E::Col(..)))
}
fn has_two_col_noteq(e: &E) -> bool {
    two_col_noteq(e) || matches!(e, E::Bin(l, _, r) if has_two_col_noteq(l) || has_two_col_noteq(r))
}

pub fn p19(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x19 ^ ((ctx.shard.0 as u64) << 20));
    let mut round = 0;
    while !ctx.over() && round < if ctx.thorough { 20000 } else { 1500 } {
        round += 1;
        let len = *rng.pick(&[2usize, 4, 9, 24, 60]);
        let t = table(len, &mut rng);
        // chunks: single rows, short runs, the whole table, empty ones
        let w = *rng.pick(&[1usize, 2, 3, 5, 64]);
        let mut chunks: Vec<Table> = (0..len).step_by(w).map(|a| Table { names: t.names.clone(), cols: t.cols.iter().map(|c| c.slice(a, (a + w).min(len))).collect() }).collect();
        if rng.chance(1, 5) { chunks.push(Table { names: t.names.clone(), cols: t.cols.iter().map(|c| c.slice(0, 0)).collect() }); }
        for _ in 0..6 {
            let by_index = rng.chance(1, 4);
            let depth = rng.below(4);
            let e = predicate(&t.cols, depth, by_index, &mut rng);
            if has_two_col_noteq(&e) && !two_col_noteq(&e) { continue; }
            let op = if two_col_noteq(&e) { "a != b over two columns" } else { "prune" };
            let args = || format!("{e:?} over chunks of {w} rows of [{}]", t.descr());
            let expr = to_expr(&e, &t.names);
            // the flags the reader would use to skip chunks
            let got = run(|| {
                let (p, refs) = verif::convert(&expr);
                let listed: HashSet<Field> = refs.iter().flat_map(|(f, s)| s.iter().map(move |s| verif::column_name(f, *s))).collect();
                for r in p.references() { if !listed.contains(r) { return Err(bad(format!("the rewritten predicate reads {r}, which is not among the statistics to fetch"))); } }
                let mut of = HashSet::new();
                reads(&e, &t.names, &mut of);
                for f in refs.keys() { if !of.contains(f) { return Err(bad(format!("statistics of {f}, which the predicate does not read"))); } }
                let st = stat_table(&chunks, refs.into_iter())?;
                let m = decode(&p.evaluate(&st)?)?;
                if m.len() != chunks.len() { return Err(bad(format!("{} flags for {} chunks", m.len(), chunks.len()))); }
                Ok(m.v)
            });
            ctx.count(op, true, || args());
            match got {
                Out::Ok(flags) => {
                    for (k, f) in flags.iter().enumerate() {
                        if *f != V::B(true) { continue; }
                        let c = &chunks[k];
                        if let Some(r) = (0..c.rows()).find(|r| meaning(&e, &c.cols, *r) == V::B(true)) {
                            ctx.fail(op, "rewriter", "unsound", format!("{}: chunk {k} is skipped, its row {r} matches: [{}]", args(), c.descr()));
                            break;
                        }
                    }
                }
                Out::Err(x) => ctx.fail(op, "rewriter", "error", format!("{}: {x}", args())),
                Out::Panic(x) => ctx.fail(op, "rewriter", "panic", format!("{}: {x}", args())),
                Out::Unimpl => ctx.unimpl += 1,
            }
        }
    }
    if !ctx.rest() { return; }
    // every comparison and both orders, all small bounds: exhaustive over one and two columns of values in 0..3
    let dt = prim(PType::I64, false);
    for lo in 0..4i128 { for hi in lo..4 { for c in 0..4i128 { for lo2 in 0..4i128 { for hi2 in lo2..4 {
        let t = Table { names: vec!["a".into(), "b".into()], cols: vec![M::new(dt.clone(), (0..4).map(|i| V::I([lo, lo, hi, (lo + hi) / 2][i])).collect()), M::new(dt.clone(), vec![V::I(lo2), V::I(hi2), V::I(lo2), V::I((lo2 + hi2 + 1) / 2)])] };
        for op in CMP {
            let a = || Box::new(E::Col(0, true));
            let es = if lo2 == 0 && hi2 == 0 { vec![E::Bin(a(), op, Box::new(E::Lit(V::I(c), dt.clone()))), E::Bin(Box::new(E::Lit(V::I(c), dt.clone())), op, a())] } else if c == 0 && op != Operator::NotEq { vec![E::Bin(a(), op, Box::new(E::Col(1, true)))] } else { vec![] };
            for e in es {
                let args = || format!("{e:?} over one chunk of [{}]", t.descr());
                let got = run(|| { let (p, refs) = verif::convert(&to_expr(&e, &t.names)); Ok(decode(&p.evaluate(&stat_table(std::slice::from_ref(&t), refs.into_iter())?)?)?.v) });
                ctx.count("prune (small bounds)", true, || args());
                match got {
                    Out::Ok(f) => if f == vec![V::B(true)] && (0..4).any(|r| meaning(&e, &t.cols, r) == V::B(true)) { ctx.fail("prune (small bounds)", "rewriter", "unsound", args()); },
                    o => ctx.fail("prune (small bounds)", "rewriter", "error", format!("{}: {o:?}", args())),
                }
            }
        }
    }}}}}
    // every pair of chunks for conjunctions and disjunctions of two comparisons
    for op in [Operator::And, Operator::Or] { for (o1, o2) in CMP.iter().flat_map(|a| CMP.iter().map(move |b| (*a, *b))) { for k in 0..12 {
        let v = |rng: &mut Rng| M::new(dt.clone(), (0..3).map(|_| V::I(rng.below(4) as i128)).collect());
        let t = Table { names: vec!["a".into(), "b".into()], cols: vec![v(&mut rng), v(&mut rng)] };
        let lit = |rng: &mut Rng| Box::new(E::Lit(V::I(rng.below(4) as i128), dt.clone()));
        let (c1, c2) = (0, k % 2);
        let e = E::Bin(Box::new(E::Bin(Box::new(E::Col(c1, true)), o1, lit(&mut rng))), op, Box::new(E::Bin(Box::new(E::Col(c2, true)), o2, lit(&mut rng))));
        let args = || format!("{e:?} over one chunk of [{}]", t.descr());
        let got = run(|| { let (p, refs) = verif::convert(&to_expr(&e, &t.names)); Ok(decode(&p.evaluate(&stat_table(std::slice::from_ref(&t), refs.into_iter())?)?)?.v) });
        ctx.count("prune (pairs)", true, || args());
        match got {
            Out::Ok(f) => if f == vec![V::B(true)] && (0..3).any(|r| meaning(&e, &t.cols, r) == V::B(true)) { ctx.fail("prune (pairs)", "rewriter", "unsound", args()); },
            o => ctx.fail("prune (pairs)", "rewriter", "error", format!("{}: {o:?}", args())),
        }
    }}}
}

// ---------------------------------------------------------------- P20

pub const PTYPES: [PType; 11] = [PType::I8, PType::I16, PType::I32, PType::I64, PType::U8, PType::U16, PType::U32, PType::U64, PType::F16, PType::F32, PType::F64];

/// The float with these bits at this type, exactly.
fn fval(p: PType, bits: u64) -> f64 {
    match p { PType::F16 => f16::from_bits(bits as u16).to_f64(), PType::F32 => f32::from_bits(bits as u32) as f64, _ => f64::from_bits(bits) }
}
/// The next float of the type above or below.
fn step(p: PType, bits: u64, up: bool) -> f64 {
    let (w, inf) = match p { PType::F16 => (16, 0x7c00u64), PType::F32 => (32, 0x7f80_0000), _ => (64, 0x7ff0_0000_0000_0000) };
    let sign = 1u64 << (w - 1);
    let neg = bits & sign != 0;
    let mag = bits & (sign - 1);
    let r = if mag == 0 { if up { 1 } else { sign | 1 } }
        else if neg != up { if mag >= inf { bits } else { bits + 1 } }
        else { bits - 1 };
    fval(p, r)
}
/// Exact comparison of an integer with a float (not NaN).
fn cmp_if(x: i128, f: f64) -> Ordering {
    if f == f64::INFINITY || f > 1e30 { return Ordering::Less; }
    if f == f64::NEG_INFINITY || f < -1e30 { return Ordering::Greater; }
    let t = f.trunc() as i128;
    x.cmp(&t).then(if f > f.trunc() { Ordering::Less } else if f < f.trunc() { Ordering::Greater } else { Ordering::Equal })
}

/// Does `got` (None: rejected) do as the value `v` of type `from` converted to `to`?
fn cast_ok(v: &V, from: PType, to: PType, got: Option<&V>) -> Result<(), String> {
    match (v, to.is_float()) {
        (V::I(x), false) => {
            let (lo, hi) = irange(to);
            match got {
                Some(V::I(y)) if x == y => Ok(()),
                None if *x < lo || *x > hi => Ok(()),
                g => Err(format!("{x} as {to} gave {g:?}")),
            }
        }
        (V::I(x), true) => match got {
            Some(V::F(b)) => {
                let f = fval(to, *b);
                if f.is_nan() { return Err(format!("{x} as {to} gave NaN")); }
                let ok = match cmp_if(*x, f) { Ordering::Equal => true, Ordering::Less => cmp_if(*x, step(to, *b, false)) == Ordering::Greater, Ordering::Greater => cmp_if(*x, step(to, *b, true)) == Ordering::Less };
                if ok { Ok(()) } else { Err(format!("{x} as {to} gave {f}, not a neighbour")) }
            }
            g => Err(format!("{x} as {to} gave {g:?}")),
        },
        (V::F(b), false) => {
            let f = fval(from, *b);
            let (lo, hi) = irange(to);
            let fits = f.is_finite() && cmp_if(lo - 1, f) == Ordering::Less && cmp_if(hi + 1, f) == Ordering::Greater;
            match got {
                Some(V::I(y)) if fits && *y == f.trunc() as i128 => Ok(()),
                None if !fits => Ok(()),
                g => Err(format!("{f} as {to} gave {g:?}")),
            }
        }
        (V::F(b), true) => {
            let f = fval(from, *b);
            match got {
                Some(V::F(c)) => {
                    let g = fval(to, *c);
                    let ok = if from == to { b == c } else if f.is_nan() { g.is_nan() } else if g.is_nan() { false } else if f.is_sign_negative() != g.is_sign_negative() { false }
                        else if f == g { true } else if f < g { step(to, *c, false) < f } else { step(to, *c, true) > f };
                    if ok { Ok(()) } else { Err(format!("{f} as {to} gave {g}")) }
                }
                g => Err(format!("{f} as {to} gave {g:?}")),
            }
        }
        _ => unreachable!(),
    }
}

fn ppool(p: PType, rng: &mut Rng) -> Vec<V> {
    match p {
        PType::F16 => { let mut v: Vec<V> = f16_pool().iter().map(|f| V::F(f.to_bits() as u64)).collect(); v.extend([1u64, 0x7f, 0x80, 0xff, 0x100, 0x8001].map(V::F)); v.extend([127.5f32, 128.0, -128.9, -129.0, 255.9, 256.0, 2048.0, 65504.0, -0.4, 0.99].map(|f| V::F(f16::from_f32(f).to_bits() as u64))); v }
        PType::F32 => { let mut v: Vec<V> = f32_pool().iter().map(|f| V::F(f.to_bits() as u64)).collect(); v.extend([127.99f32, 128.0, -128.99, -129.0, 255.99, 256.0, 32767.99, 32768.0, 65535.99, 65536.0, -0.9, 2147483648.0, 4294967296.0, 4294967040.0, 9.223372e18, 1.8446744e19, -2147483904.0, 65504.0, 65520.0, 70000.0].map(|f| V::F(f.to_bits() as u64))); v }
        PType::F64 => { let mut v: Vec<V> = f64_pool().iter().map(|f| V::F(f.to_bits())).collect(); v.extend([127.999f64, -128.999, -129.0, 255.999, 256.0, 65535.9, 65536.0, -0.999, 2147483647.9, 2147483648.0, 4294967295.5, 4294967296.0, 9223372036854774784.0, 18446744073709549568.0, 18446744073709551616.0, -9223372036854777856.0, 16777217.0, 3.4028235e38, 3.4028236e38, 65519.99, 65520.0, 1e-46, 1e-8].map(|f| V::F(f.to_bits()))); v }
        _ => {
            let (lo, hi) = irange(p);
            let mut v = vec![lo, lo + 1, hi, hi - 1, 0, 1];
            for b in [7u32, 8, 10, 11, 12, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63] { for d in [-1i128, 0, 1] { for s in [1i128, -1] { v.push(s * ((1i128 << b) + d)); } } }
            v.extend([65504, 65519, 65520, 70000]);
            for _ in 0..12 { v.push(lo + (rng.next() as i128) % (hi - lo + 1)); }
            v.retain(|x| *x >= lo && *x <= hi);
            v.sort(); v.dedup();
            v.into_iter().map(V::I).collect()
        }
    }
}

fn scalar_cast(s: &Scalar, dt: &DType) -> Out<Option<V>> {
    let r = run(|| Ok(s.cast(dt)));
    match r {
        Out::Ok(Ok(c)) => { if c.dtype() != dt { return Out::Err(format!("type {} instead of {dt}", c.dtype())); } match scalar_to_v(&c) { Ok(v) => Out::Ok(Some(v)), Err(e) => Out::Err(e) } }
        Out::Ok(Err(_)) => Out::Ok(None),
        Out::Panic(p) => Out::Panic(p), Out::Err(e) => Out::Err(e), Out::Unimpl => Out::Unimpl,
    }
}

fn check_cast(ctx: &mut Ctx, v: &V, from: PType, to: PType, nulls: (bool, bool)) {
    let s = v_to_scalar(v, &prim(from, nulls.0));
    let op = if from.is_int() && to.is_int() { "scalar cast" } else { "scalar cast (float)" };
    ctx.count(op, true, || format!("{v:?} {from} as {to}"));
    match scalar_cast(&s, &prim(to, nulls.1)) {
        Out::Ok(g) => if let Err(e) = cast_ok(v, from, to, g.as_ref()) { ctx.fail(op, &format!("{from} to {to}"), "value", e); },
        o => ctx.fail(op, &format!("{from} to {to}"), "panic", format!("{v:?}: {o:?}")),
    }
    // the value as a native type, through PValue
    if from.is_int() && to.is_int() {
        let DType::Primitive(..) = s.dtype() else { unreachable!() };
        let ScalarValue::Primitive(pv) = s.value() else { unreachable!() };
        let got = each_int!(to, |T| T::try_from(*pv).ok().map(|x| V::I(x as i128)));
        ctx.count("PValue to native", true, String::new);
        if let Err(e) = cast_ok(v, from, to, got.as_ref()) { ctx.fail("PValue to native", &format!("{from} to {to}"), "value", e); }
    }
}

pub fn order(a: &V, b: &V, dt: &DType) -> Ordering {
    match (a, b) {
        (V::Null, V::Null) => Ordering::Equal, (V::Null, _) => Ordering::Greater, (_, V::Null) => Ordering::Less,
        (V::St(x), V::St(y)) => { let DType::Struct(st, _) = dt else { panic!() }; x.iter().zip(y).zip(st.dtypes().iter()).map(|((a, b), d)| order(a, b, d)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal) }
        _ => vcmp(a, b, dt),
    }
}

fn roundtrips(s: &Scalar) -> Vec<(&'static str, Out<Scalar>)> {
    vec![
        ("protobuf", run(|| { let b = pbs::Scalar::from(s).encode_to_vec(); Scalar::try_from(&pbs::Scalar::decode(&b[..]).map_err(|e| bad(e.to_string()))?) })),
        ("flatbuffer", run(|| {
            let mut fbb = FlatBufferBuilder::new();
            let o = s.write_flatbuffer(&mut fbb);
            fbb.finish_minimal(o);
            Scalar::try_from(flatbuffers::root::<vortex_flatbuffers::scalar::Scalar>(fbb.finished_data())?)
        })),
    ]
}

fn scalar_pool(rng: &mut Rng) -> Vec<(DType, Vec<V>)> {
    let mut out: Vec<(DType, Vec<V>)> = vec![];
    for n in [false, true] {
        let f = |mut v: Vec<V>| { if n { v.push(V::Null); } v };
        for p in PTYPES { out.push((prim(p, n), f(ppool(p, rng)))); }
        out.push((DType::Bool(n.into()), f(vec![V::B(false), V::B(true)])));
        let ss: Vec<V> = string_pool().iter().map(|s| V::S(s.as_bytes().to_vec())).collect();
        out.push((DType::Utf8(n.into()), f(ss.clone())));
        let mut bs = ss; bs.extend([vec![0xffu8], vec![0x80, 0], vec![0; 40], (0..=255u8).collect()].map(V::S));
        out.push((DType::Binary(n.into()), f(bs)));
        let st = struct_dtype(&[("x", prim(PType::I32, true)), ("y", DType::Utf8(Nullability::NonNullable)), ("z", prim(PType::F16, false))], n);
        let mut vs = vec![];
        for x in [V::Null, V::I(-1), V::I(0), V::I(70000)] { for y in ["", "a", "b"] { for z in [0u64, 0x3c00, 0x8000, 0x7e01] { vs.push(V::St(vec![x.clone(), V::S(y.as_bytes().to_vec()), V::F(z)])); } } }
        out.push((st.clone(), f(vs.clone())));
        let outer = struct_dtype(&[("s", st.as_nullable()), ("b", DType::Binary(Nullability::Nullable))], n);
        let vs2 = vs.iter().step_by(7).cloned().chain([V::Null]).flat_map(|s| [V::Null, V::S(vec![0xff, 1])].map(|b| V::St(vec![s.clone(), b]))).collect();
        out.push((outer, f(vs2)));
    }
    out.push((DType::Null, vec![V::Null]));
    out
}

pub fn p20(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x20);
    // every pair of types, every pool value
    let mut jobs = vec![];
    for from in PTYPES { for to in PTYPES { jobs.push((from, to)); } }
    for (from, to) in ctx.mine(jobs) {
        if ctx.over() { break; }
        for v in ppool(from, &mut rng) { let n = (rng.bool(), rng.bool()); check_cast(ctx, &v, from, to, n); }
        if from.byte_width() == 1 || (ctx.thorough && from.byte_width() == 2) {
            let all: Vec<V> = if from == PType::F16 { (0..65536).map(|b| V::F(b as u64)).collect() } else { let (lo, hi) = irange(from); (lo..=hi).map(V::I).collect() };
            for v in all { check_cast(ctx, &v, from, to, (false, true)); }
        }
        // a null, and nullability
        let n = Scalar::null(prim(from, true));
        if from.byte_width() == to.byte_width() {
            for (s, nul) in [(n.clone(), true), (v_to_scalar(&ppool(from, &mut rng)[0], &prim(from, true)), false)] {
                ctx.expect_eq("reinterpret", "nullable", &|| format!("{s} of {from}? to {to}"), run(|| { let r = s.reinterpret_cast(to); Ok((r.dtype().clone(), r.is_null())) }), &(prim(to, true), nul));
            }
        }
        // values of different types are neither equal nor ordered
        for a in ppool(from, &mut rng).iter().take(12) { for b in ppool(to, &mut rng).iter().take(12) {
            let (x, y) = (v_to_scalar(a, &prim(from, false)), v_to_scalar(b, &prim(to, false)));
            let (ScalarValue::Primitive(x), ScalarValue::Primitive(y)) = (x.value(), y.value()) else { unreachable!() };
            let want = if from == to { Some(vcmp(a, b, &prim(from, false))) } else { None };
            ctx.expect_eq("primitive value order", &format!("{from} and {to}"), &|| format!("{a:?} {b:?}"), run(|| Ok((x.partial_cmp(y), x == y))), &(want, want == Some(Ordering::Equal)));
        } }
        // a half float read back from the number holding its bits
        if to == PType::F16 && from.is_unsigned_int() {
            for v in ppool(from, &mut rng) {
                let V::I(x) = v else { unreachable!() };
                let ScalarValue::Primitive(pv) = v_to_scalar(&v, &prim(from, false)).value().clone() else { unreachable!() };
                ctx.expect_eq("half float bits", from.to_string().as_str(), &|| format!("{x}"), run(|| Ok(f16::try_from(pv).ok().map(|f| f.to_bits() as i128))), &(x < 65536).then_some(x));
            }
        }
        // an index
        if from.is_int() && to == from {
            for v in ppool(from, &mut rng) {
                let V::I(x) = v else { unreachable!() };
                let s = v_to_scalar(&v, &prim(from, x % 2 == 0));
                ctx.expect_eq("scalar as index", from.to_string().as_str(), &|| format!("{x}"), run(|| Ok((usize::try_from(&s).ok().map(|i| i as i128), usize::try_from(s.value()).ok().map(|i| i as i128)))), &((x >= 0).then_some(x), (x >= 0).then_some(x)));
            }
        }
        ctx.expect_eq("scalar cast", "null", &|| format!("{from} to {to}"), scalar_cast(&n, &prim(to, true)), &Some(V::Null));
        ctx.expect_eq("scalar cast", "null to non-nullable", &|| format!("{from} to {to}"), scalar_cast(&n, &prim(to, false)), &None);
        // reinterpretation keeps the bits
        if from.byte_width() == to.byte_width() {
            let w = from.byte_width() * 8;
            let bits = |v: &V| match v { V::I(x) => (*x as u64) & (u64::MAX >> (64 - w)), V::F(b) => *b, _ => 0 };
            for v in ppool(from, &mut rng) {
                let s = v_to_scalar(&v, &prim(from, false));
                let got = run(|| { let r = s.reinterpret_cast(to); if *r.dtype() != prim(to, false) { return Err(bad(format!("type {}", r.dtype()))); } scalar_to_v(&r).map_err(bad).map(|x| bits(&x)) });
                ctx.expect_eq("reinterpret", &format!("{from} to {to}"), &|| format!("{v:?}"), got, &bits(&v));
            }
        }
        // arrays: the same values, junk below the nulls
        let pool = ppool(from, &mut rng);
        for k in 0..6 {
            let len = [0usize, 1, 3, 8, 40, pool.len()][k];
            let small = k % 2 == 1;
            let v: Vec<V> = (0..len).map(|i| if k == 5 { pool[i].clone() } else if small { match from.is_float() { true => floats(from, "decimals", 1, &mut rng).v[0].clone(), false => V::I(rng.below(100) as i128) } } else { rng.pick(&pool).clone() }).collect();
            let m = M::new(prim(from, false), v);
            let pats = null_patterns(len, &mut rng);
            let m = if rng.bool() { with_nulls(&m, &rng.pick(&pats).1) } else { m };
            for (jn, junk) in [("zero", Junk::Zero), ("noise", Junk::Noise)] {
                for tn in [false, true] {
                    let arr = canon_primitive(&m, junk, rng.bool()).into_array();
                    let dt = prim(to, tn);
                    let r = run(|| Ok(try_cast(&arr, &dt).and_then(|a| decode(&a))));
                    let args = || format!("{} {} as {dt}, {jn} below nulls", m.dt, short(&m.v));
                    ctx.count("array cast", len > 0, || args());
                    match r {
                        Out::Ok(Ok(g)) => {
                            if g.dt != dt || g.len() != len { ctx.fail("array cast", &format!("{from} to {to}"), "type", format!("{}: got {} of {}", args(), g.dt, g.len())); continue; }
                            for (a, b) in m.v.iter().zip(&g.v) {
                                let e = match (a, b) { (V::Null, V::Null) => Ok(()), (V::Null, _) | (_, V::Null) => Err("nulls differ".to_string()), _ => cast_ok(a, from, to, Some(b)) };
                                if let Err(e) = e { ctx.fail("array cast", &format!("{from} to {to}"), "value", format!("{}: {e}", args())); break; }
                            }
                        }
                        Out::Ok(Err(e)) => {
                            // rejected: some value has no counterpart, or a null meets a non-nullable type
                            let why = m.nulls() > 0 && !tn || m.v.iter().any(|a| *a != V::Null && cast_ok(a, from, to, None).is_ok());
                            if !why { ctx.fail("array cast", &format!("{from} to {to}"), "error", format!("{}: rejected: {e}", args())); }
                        }
                        o => ctx.fail("array cast", &format!("{from} to {to}"), "panic", format!("{}: {:?}", args(), match o { Out::Panic(p) => p, Out::Err(e) => e, _ => "unimplemented".into() })),
                    }
                }
            }
        }
    }
    // order and equality of scalars, and their serialized forms
    let pools = scalar_pool(&mut rng);
    for (dt, vs) in ctx.mine(pools) {
        let ss: Vec<Scalar> = vs.iter().map(|v| v_to_scalar(v, &dt)).collect();
        for (a, sa) in vs.iter().zip(&ss) {
            if ctx.over() { break; }
            for (b, sb) in vs.iter().zip(&ss) {
                let want = order(a, b, &dt);
                ctx.count("scalar order", true, || format!("{a:?} {b:?} {dt}"));
                match run(|| Ok((sa.partial_cmp(sb), sa == sb))) {
                    Out::Ok((o, e)) => {
                        if o != Some(want) { ctx.fail("scalar order", &dt.to_string(), "value", format!("{a:?} against {b:?}: {o:?} instead of {want:?}")); }
                        if e != (want == Ordering::Equal) { ctx.fail("scalar equality", &dt.to_string(), "value", format!("{a:?} == {b:?} is {e}, the order says {want:?}")); }
                    }
                    o => ctx.fail("scalar order", &dt.to_string(), "panic", format!("{a:?} against {b:?}: {o:?}")),
                }
            }
            for (form, got) in roundtrips(sa) {
                let got = match got { Out::Ok(s) => { if *s.dtype() != dt { Out::Err(format!("type {} instead of {dt}", s.dtype())) } else { match scalar_to_v(&s) { Ok(v) => Out::Ok((v, s == *sa)), Err(e) => Out::Err(e) } } } Out::Err(e) => Out::Err(e), Out::Panic(p) => Out::Panic(p), Out::Unimpl => Out::Unimpl };
                // a signalling NaN may come back quiet, as a NaN with the same sign
                let quiet = |v: &V| match (v, &dt) { (V::F(b), DType::Primitive(p, _)) if fval(*p, *b).is_nan() => V::F(b | match p { PType::F16 => 1 << 9, PType::F32 => 1 << 22, _ => 1 << 51 }), (v, _) => v.clone() };
                let nan = matches!(a, V::F(_)) && quiet(a) != *a;
                let got = match got { Out::Ok((v, e)) => Out::Ok((quiet(&v), e || nan)), o => o };
                ctx.expect_eq(&format!("scalar through {form}"), &dt.to_string(), &|| format!("{a:?}"), got, &(quiet(a), true));
            }
            // a cast that changes nothing but nullability
            if *a != V::Null && dt != DType::Null { ctx.expect_eq("scalar cast", "nullability", &|| format!("{a:?} {dt}"), scalar_cast(sa, &dt.as_nullable()), &Some(a.clone())); }
        }
    }
    if !ctx.rest() { return; }
    // casts between kinds are refused
    for (dt, vs) in scalar_pool(&mut rng) {
        for to in [DType::Bool(Nullability::Nullable), prim(PType::I64, true), prim(PType::F64, false), DType::Utf8(Nullability::Nullable), DType::Binary(Nullability::NonNullable)] {
            if dt.eq_ignore_nullability(&to) || dt == DType::Null || matches!((&dt, &to), (DType::Primitive(..), DType::Primitive(..))) { continue; }
            for v in vs.iter().filter(|v| **v != V::Null).take(3) {
                ctx.expect_eq("scalar cast", "between kinds", &|| format!("{v:?} {dt} as {to}"), scalar_cast(&v_to_scalar(v, &dt), &to), &None);
            }
        }
    }
    // lists
    let l = |v: Vec<Option<i32>>| Scalar::list(prim(PType::I32, true), v.into_iter().map(|x| x.map_or(ScalarValue::Null, |x| ScalarValue::Primitive(PValue::I32(x)))).collect());
    for v in [vec![], vec![Some(1)], vec![None, Some(-7), Some(70000)]] {
        let s = l(v.clone());
        for (form, got) in roundtrips(&s) {
            ctx.expect_eq(&format!("scalar through {form}"), "list", &|| format!("{v:?}"), match got { Out::Ok(t) => Out::Ok(t == s && *t.dtype() == *s.dtype()), Out::Err(e) => Out::Err(e), Out::Panic(p) => Out::Panic(p), Out::Unimpl => Out::Unimpl }, &true);
        }
    }
    let _ = (ScalarValue::Null.serialize(&mut flexbuffers::FlexbufferSerializer::new()).is_ok(), ScalarValue::deserialize(serde_json::Value::Null).is_ok());
}

// ---------------------------------------------------------------- P21

fn random_dtype(depth: usize, rng: &mut Rng) -> DType {
    let n = Nullability::from(rng.bool());
    match rng.below(if depth == 0 { 6 } else { 9 }) {
        0 => DType::Null, 1 => DType::Bool(n), 2 => DType::Primitive(*rng.pick(&PTYPES), n), 3 => DType::Utf8(n), 4 => DType::Binary(n),
        5 => {
            let id = ExtID::from(*rng.pick(&["vortex.date", "vortex.timestamp", "my.ext", "", "é"]));
            let meta = match rng.below(4) { 0 => None, 1 => Some(vec![]), 2 => Some(vec![0]), _ => Some((0..1 + rng.below(300)).map(|_| rng.next() as u8).collect::<Vec<u8>>()) };
            DType::Extension(ExtDType::new(id, meta.map(|m| ExtMetadata::from(&m[..]))), n)
        }
        6 => DType::List(Arc::new(random_dtype(depth - 1, rng)), n),
        _ => random_struct(depth - 1, rng, n),
    }
}

fn random_struct(depth: usize, rng: &mut Rng, n: Nullability) -> DType {
    let k = *rng.pick(&[0usize, 1, 2, 3, 5, 20]);
    let mut ns: Vec<Arc<str>> = vec![];
    let alike = rng.chance(1, 3);
    for i in 0..k { let s: Arc<str> = if alike { ["name", "Name", "na", "n", "NAME", " name", "name ", "nam", "names", "é", "É", "1", "11"][rng.below(13)].to_string() } else { match rng.below(5) { 0 => format!("c{i}"), 1 => format!("{i}"), 2 => format!("é{i} x"), 3 => if i == 0 { String::new() } else { format!("f{i}") }, _ => format!("name.{i}") } }.into(); if !ns.contains(&s) { ns.push(s) } }
    let dts = ns.iter().map(|_| random_dtype(depth.min(2), rng)).collect();
    DType::Struct(StructDType::new(ns.into(), dts), n)
}

pub fn p21(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x21 ^ ((ctx.shard.0 as u64) << 20));
    let mut fixed = vec![DType::Null];
    for n in [false, true] {
        let b = Nullability::from(n);
        for p in PTYPES { fixed.push(prim(p, n)); }
        fixed.extend([DType::Bool(b), DType::Utf8(b), DType::Binary(b), DType::List(Arc::new(DType::Utf8(Nullability::Nullable)), b), struct_dtype(&[], n), DType::Extension(ExtDType::new(ExtID::from("x"), None), b)]);
    }
    let rounds = if ctx.thorough { 4000 } else { 220 };
    for k in 0..rounds + fixed.len() {
        if ctx.over() { break; }
        let dt = if k < fixed.len() { fixed[k].clone() } else { random_dtype(4, &mut rng) };
        let args = || format!("{dt:?}");
        ctx.expect_eq("type through flatbuffer", "dtype", &args, run(|| dt.with_flatbuffer_bytes(|b| DType::try_from(flatbuffers::root::<vortex_flatbuffers::dtype::DType>(b)?))), &dt);
        ctx.expect_eq("type through protobuf", "dtype", &args, run(|| { let b = pbd::DType::from(&dt).encode_to_vec(); DType::try_from(&pbd::DType::decode(&b[..]).map_err(|e| bad(e.to_string()))?) }), &dt);
        ctx.expect_eq("type through serde", "dtype", &args, run(|| { let s = serde_json::to_string(&dt).map_err(|e| bad(e.to_string()))?; serde_json::from_str::<DType>(&s).map_err(|e| bad(e.to_string())) }), &dt);
        let n = dt.as_nullable();
        ctx.expect_eq("nullability", "dtype", &args, run(|| Ok((n.is_nullable(), n.eq_ignore_nullability(&dt), dt.as_nonnullable().is_nullable(), dt.with_nullability(dt.nullability()) == dt))), &(true, true, matches!(dt, DType::Null), true));
    }
    for _ in 0..if ctx.thorough { 1500 } else { 160 } {
        if ctx.over() { break; }
        let n = rng.bool();
        let dt = random_struct(2, &mut rng, n.into());
        let DType::Struct(st, _) = &dt else { unreachable!() };
        let k = st.names().len();
        // by name or by position, repeated, reordered, empty, sometimes unknown
        let mut unknown = false;
        let mut idx = vec![];
        let mut proj = vec![];
        for _ in 0..rng.below(5) {
            if k == 0 || rng.chance(1, 8) {
                unknown = true;
                proj.push(match rng.below(3) { 0 => Field::Index(k), 1 => Field::Index(k + 1 + rng.below(1000)), _ => Field::Name("no such field".into()) });
            } else {
                let i = rng.below(k);
                idx.push(i);
                proj.push(if rng.bool() { Field::Index(i) } else { Field::Name(st.names()[i].to_string()) });
            }
        }
        let args = || format!("{proj:?} of {dt}");
        let want = StructDType::new(idx.iter().map(|i| st.names()[*i].clone()).collect::<Vec<_>>().into(), idx.iter().map(|i| st.dtypes()[*i].clone()).collect());
        let fbp = || run(|| dt.with_flatbuffer_bytes(|b| deserialize_and_project(flatbuffers::root::<vortex_flatbuffers::dtype::DType>(b)?, &proj)));
        let sch = || run(|| vortex_schema::Schema::new(dt.clone()).project(vortex_schema::projection::Projection::Flat(proj.clone())).map(|s| DType::from(s)));
        if unknown {
            ctx.expect_reject("project", "struct type", &args, run(|| st.project(&proj)));
            ctx.expect_reject("project", "flatbuffer", &args, fbp());
            ctx.expect_reject("project", "schema", &args, sch());
        } else {
            ctx.expect_eq("project", "struct type", &args, run(|| st.project(&proj)), &want);
            let w = DType::Struct(want.clone(), n.into());
            ctx.expect_eq("project", "flatbuffer", &args, fbp(), &w);
            ctx.expect_eq("project", "schema", &args, sch(), &w);
        }
        for (i, name) in st.names().iter().enumerate() {
            for f in [Field::Index(i), Field::Name(name.to_string())] {
                ctx.expect_eq("field lookup", "struct type", &|| format!("{f} of {dt}"), run(|| st.field_info(&f).map(|x| (x.index, x.name.to_string(), x.dtype.clone()))), &(i, name.to_string(), st.dtypes()[i].clone()));
                ctx.expect_eq("field lookup", "flatbuffer", &|| format!("{f} of {dt}"), run(|| dt.with_flatbuffer_bytes(|b| { let r = flatbuffers::root::<vortex_flatbuffers::dtype::DType>(b)?; resolve_field(r.type__as_struct_().unwrap(), &f) })), &i);
                ctx.expect_eq("field lookup", "schema", &|| format!("{f} of {dt}"), run(|| vortex_schema::Schema::new(dt.clone()).field_type(&f)), &st.dtypes()[i]);
            }
            ctx.expect_eq("field lookup", "name", &|| format!("{name} of {dt}"), run(|| Ok(st.find_name(name))), &Some(i));
        }
        ctx.expect_eq("field lookup", "name", &|| format!("unknown of {dt}"), run(|| Ok(st.find_name("no such field"))), &None);
        for f in [Field::Index(k), Field::Index(usize::MAX), Field::Name("no such field".into())] {
            ctx.expect_reject("field lookup", "struct type", &|| format!("{f} of {dt}"), run(|| st.field_info(&f).map(|x| x.index)));
            ctx.expect_reject("field lookup", "flatbuffer", &|| format!("{f} of {dt}"), run(|| dt.with_flatbuffer_bytes(|b| { let r = flatbuffers::root::<vortex_flatbuffers::dtype::DType>(b)?; resolve_field(r.type__as_struct_().unwrap(), &f) })));
            ctx.expect_reject("field lookup", "schema", &|| format!("{f} of {dt}"), run(|| vortex_schema::Schema::new(dt.clone()).field_type(&f)));
        }
        for near in ["name", "NAME", "nAme", "na", "nam", " name", "name ", "", "c", "1", "N"] {
            let want = st.names().iter().position(|n| &**n == near);
            let f = Field::Name(near.to_string());
            ctx.expect_eq("field lookup", "near name", &|| format!("{near:?} of {dt}"), run(|| Ok((st.find_name(near), st.field_info(&f).ok().map(|x| x.index),
                dt.with_flatbuffer_bytes(|b| { let r = flatbuffers::root::<vortex_flatbuffers::dtype::DType>(b).unwrap(); resolve_field(r.type__as_struct_().unwrap(), &f).ok() })))), &(want, want, want));
        }
        // a name occurring twice means its first occurrence, in memory and in a file
        if k > 0 {
            let i = rng.below(k);
            let mut ns = st.names().to_vec(); ns.push(ns[i].clone());
            let mut ds = st.dtypes().to_vec(); ds.push(DType::Null);
            let twice = StructDType::new(ns.into(), ds.into());
            let f = Field::Name(st.names()[i].to_string());
            let d2 = DType::Struct(twice.clone(), n.into());
            ctx.expect_eq("field lookup", "repeated name", &|| format!("{f} of {d2}"), run(|| Ok((twice.find_name(&st.names()[i]), d2.with_flatbuffer_bytes(|b| { let r = flatbuffers::root::<vortex_flatbuffers::dtype::DType>(b).unwrap(); resolve_field(r.type__as_struct_().unwrap(), &f).ok() })))), &(Some(i), Some(i)));
        }
        // a file with that schema
        let cols: Vec<(String, DType)> = idx.iter().map(|i| (st.names()[*i].to_string(), st.dtypes()[*i].clone())).collect();
        let _ = cols;
        if !unknown && rng.chance(1, 2) {
            let t = table(1 + rng.below(3), &mut rng);
            let (arr, _) = assemble(&t, &[0, t.rows()], &mut rng);
            let all = t.dt(&t.all());
            let p: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(t.cols.len())).collect();
            let fp: Vec<Field> = p.iter().map(|i| if rng.bool() { Field::Index(*i) } else { Field::Name(t.names[*i].clone()) }).collect();
            let args = || format!("{fp:?} of a file of {all}");
            let got = run(|| block_on(async {
                let b = LayoutWriter::new(vec![]).write_array_columns(arr.clone()).await?.finalize().await?;
                let n = b.len() as u64;
                let f = LayoutDescriptorReader::new(LayoutDeserializer::new(zctx(), Arc::new(LayoutContext::default()))).read_footer(&Buffer::from(b), n).await?;
                if f.projected_dtype(&[Field::Index(t.cols.len())]).is_ok() { return Err(bad("a field past the last one accepted".into())); }
                if f.projected_dtype(&[Field::Name("no such field".into())]).is_ok() { return Err(bad("an unknown field accepted".into())); }
                Ok((f.dtype()?, f.projected_dtype(&fp)?))
            }));
            ctx.expect_eq("file schema", "footer", &args, got, &(all.clone(), t.dt(&p)));
        }
    }
    // field paths
    for _ in 0..40 {
        let path: Vec<Field> = (0..rng.below(4)).map(|_| if rng.bool() { Field::Index(rng.below(1000)) } else { Field::Name((*rng.pick(&string_pool())).into()) }).collect();
        let fp = FieldPath::from(path.clone());
        let pb = pbd::FieldPath { path: path.iter().map(|f| pbd::Field { field_type: Some(match f { Field::Name(n) => pbd::field::FieldType::Name(n.clone()), Field::Index(i) => pbd::field::FieldType::Index(*i as _) }) }).collect() };
        ctx.expect_eq("field path through protobuf", "path", &|| format!("{path:?}"), run(|| { let b = pb.encode_to_vec(); FieldPath::try_from(&pbd::FieldPath::decode(&b[..]).map_err(|e| bad(e.to_string()))?) }), &fp);
    }
}

// ---------------------------------------------------------------- P22

fn swapped(e: &E) -> E {
    match e { E::Bin(l, op, r) => E::Bin(Box::new(swapped(r)), op.swap(), Box::new(swapped(l))), e => e.clone() }
}

fn inverted(e: &E) -> Option<E> {
    match e { E::Bin(l, op, r) => op.inverse().map(|o| E::Bin(l.clone(), o, r.clone())), _ => None }
}

fn parts(e: &E, out: &mut Vec<E>) {
    match e { E::Bin(l, Operator::And, r) => { parts(l, out); parts(r, out); } e => out.push(e.clone()) }
}

pub fn p22(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x22 ^ ((ctx.shard.0 as u64) << 20));
    if ctx.rest() {
        for op in CMP {
            ctx.expect_eq("operator", "swap twice", &|| op.to_string(), Out::Ok(op.swap().swap()), &op);
            ctx.expect_eq("operator", "inverse twice", &|| op.to_string(), Out::Ok(op.inverse().and_then(|o| o.inverse())), &Some(op));
        }
    }
    let mut round = 0;
    while !ctx.over() && round < if ctx.thorough { 6000 } else { 450 } {
        round += 1;
        let len = *rng.pick(&[1usize, 2, 5, 12, 40, 130]);
        let t = table(len, &mut rng);
        let (batch, _) = assemble(&t, &[0, len], &mut rng);
        for _ in 0..5 {
            let by_index = rng.chance(1, 4);
            let depth = rng.below(4);
            let e = predicate(&t.cols, depth, by_index, &mut rng);
            let x = to_expr(&e, &t.names);
            let args = || format!("{e:?} of [{}]", t.descr());
            let means = |e: &E| (0..len).map(|r| meaning(e, &t.cols, r)).collect::<Vec<_>>();
            let eval = |x: &Arc<dyn VortexExpr>| run(|| { let a = x.evaluate(&batch)?; if !matches!(a.dtype(), DType::Bool(_)) { return Err(bad(format!("a predicate of type {}", a.dtype()))); } Ok(decode(&a)?.v) });
            let want = means(&e);
            ctx.expect_eq("evaluate", "tree", &args, eval(&x), &want);
            ctx.expect_eq("evaluate", "sides swapped", &args, eval(&to_expr(&swapped(&e), &t.names)), &want);
            if let Some(i) = inverted(&e) {
                ctx.expect_eq("evaluate", "inverse", &args, eval(&to_expr(&i, &t.names)), &want.iter().map(|v| match v { V::B(b) => V::B(!b), v => v.clone() }).collect());
            }
            // the conjunction is its parts
            let ps = split_conjunction(&x);
            let mut want_parts = vec![];
            parts(&e, &mut want_parts);
            ctx.expect_eq("split conjunction", "parts", &args, Out::Ok(ps.len()), &want_parts.len());
            for (p, w) in ps.iter().zip(&want_parts) { ctx.expect_eq("split conjunction", "part", &args, eval(p), &means(w)); }
            let f = RowFilter::new(x.clone());
            let keep = M::new(DType::Bool(Nullability::NonNullable), (0..len).map(|r| V::B(want_parts.iter().all(|p| meaning(p, &t.cols, r) == V::B(true)))).collect());
            ctx.expect("row filter", "tree", &args, run(|| decode(&f.evaluate(&batch)?)), &keep);
            // the columns it reads
            let mut r = HashSet::new();
            reads(&e, &t.names, &mut r);
            let show = |s: HashSet<&Field>| s.into_iter().map(|f| format!("{f:?}")).collect::<BTreeSet<_>>();
            let wr: BTreeSet<String> = r.iter().map(|f| format!("{f:?}")).collect();
            ctx.expect_eq("references", "expression", &args, Out::Ok(show(x.references())), &wr);
            ctx.expect_eq("references", "row filter", &args, Out::Ok(show(f.references())), &wr);
            // and nothing else: the same answer on the batch cut down to those columns
            if !by_index {
                let mut cols: Vec<Field> = r.iter().cloned().collect();
                cols.sort_by_key(|f| f.to_string());
                if !cols.is_empty() {
                    ctx.expect_eq("evaluate", "on the columns read", &args, run(|| Ok(decode(&x.evaluate(&Select::include(cols.clone()).evaluate(&batch)?)?)?.v)), &want);
                }
            }
        }
        // leaves
        let i = rng.below(t.cols.len());
        for f in [Field::Index(i), Field::Name(t.names[i].clone())] {
            ctx.expect("evaluate", "column", &|| format!("{f} of [{}]", t.descr()), run(|| decode(&Column::new(f.clone()).evaluate(&batch)?)), &t.cols[i]);
        }
        ctx.expect("evaluate", "identity", &|| t.descr(), run(|| decode(&Identity.evaluate(&batch)?)), &t.model(&t.all(), &(0..len).collect::<Vec<_>>()));
        let v = rng.pick(&t.cols[i].v).clone();
        ctx.expect("evaluate", "literal", &|| format!("{v:?}"), run(|| decode(&Literal::new(v_to_scalar(&v, &t.cols[i].dt)).evaluate(&batch)?)), &M::new(t.cols[i].dt.clone(), vec![v.clone(); len]));
        for f in [Field::Index(t.cols.len()), Field::Name("no such field".into())] {
            ctx.expect_reject("evaluate", "unknown column", &|| format!("{f:?} of [{}]", t.descr()), run(|| Column::new(f.clone()).evaluate(&batch).map(|a| a.len())));
            ctx.expect_reject("select", "unknown column", &|| format!("{f:?} of [{}]", t.descr()), run(|| Select::include(vec![f.clone()]).evaluate(&batch).map(|a| a.len())));
        }
        // column selection
        let inc: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(t.cols.len())).collect();
        let fs = |is: &[usize], rng: &mut Rng| is.iter().map(|i| if rng.bool() { Field::Index(*i) } else { Field::Name(t.names[*i].clone()) }).collect::<Vec<_>>();
        let rows: Vec<usize> = (0..len).collect();
        if !inc.is_empty() {
            let f = fs(&inc, &mut rng);
            ctx.expect("select", "include", &|| format!("{f:?} of [{}]", t.descr()), run(|| decode(&Select::include(f.clone()).evaluate(&batch)?)), &t.model(&inc, &rows));
        }
        let rest: Vec<usize> = t.all().into_iter().filter(|i| !inc.contains(i)).collect();
        if !rest.is_empty() {
            let f = fs(&inc, &mut rng);
            ctx.expect("select", "exclude", &|| format!("{f:?} of [{}]", t.descr()), run(|| decode(&Select::exclude(f.clone()).evaluate(&batch)?)), &t.model(&rest, &rows));
        }
    }
    let _: Option<BinaryExpr> = None;
    let _ = Stat::Min;
    let _ = |a: &Array| a.statistics().get(Stat::Min);
}
