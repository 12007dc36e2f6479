//! P16, P17, P18, P23: message streams, file scans, random-access rows, re-batching.
use std::future::Future;
use std::io::Cursor;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as TaskCx, Poll};

use bytes::BytesMut;
use futures_executor::block_on;
use futures_util::{StreamExt, TryStreamExt};
use vortex::array::*;
use vortex::stream::ArrayStreamExt;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_buffer::Buffer;
use vortex_dtype::field::Field;
use vortex_dtype::{DType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_expr::{BinaryExpr, Column, Literal, Operator, VortexExpr};
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_serde::io::{FuturesAdapter, VortexReadAt};
use vortex_serde::layouts::{LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, RowFilter};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

use crate::core::*;
use crate::encs::*;
use crate::gen::*;
use crate::rng::Rng;

pub fn zctx() -> Arc<vortex::Context> { ALL_COMPRESSORS_CONTEXT.clone() }
fn deser() -> LayoutDeserializer { LayoutDeserializer::new(zctx(), Arc::new(LayoutContext::default())) }

// ---------------------------------------------------------------- P16

/// Every buffer of an array read back from one message starts a multiple of the alignment after the first.
fn aligned(a: &Array) -> Result<(), String> {
    let mut base = None;
    for x in a.depth_first_traversal() {
        if let Some(b) = x.buffer() {
            if b.is_empty() { continue; }
            let p = b.as_ptr() as usize;
            let o: usize = *base.get_or_insert(p);
            if p.abs_diff(o) % vortex_serde::ALIGNMENT != 0 { return Err(format!("buffer of {} bytes at {} from the first buffer", b.len(), p as i128 - o as i128)); }
        }
    }
    Ok(())
}

fn pieces(a: &Array) -> Vec<Array> {
    match ChunkedArray::try_from(a) { Ok(c) => c.chunks().collect(), Err(_) => vec![a.clone()] }
}

#[derive(Debug, PartialEq, Clone)]
struct Read { dt: DType, chunks: Vec<Vec<V>> }

fn write_stream(arrs: &[Array]) -> VortexResult<StreamArrayWriter<Vec<u8>>> {
    block_on(async {
        let mut w = StreamArrayWriter::new(vec![]);
        for a in arrs { w = w.write_array(a.clone()).await?; }
        Ok(w)
    })
}

async fn drain(s: impl vortex::stream::ArrayStream) -> VortexResult<Read> {
    let dt = s.dtype().clone();
    let mut s = Box::pin(s);
    let mut chunks = vec![];
    while let Some(c) = s.try_next().await? {
        aligned(&c).map_err(bad)?;
        if *c.dtype() != dt { return Err(bad(format!("chunk of type {} in a stream of type {dt}", c.dtype()))); }
        chunks.push(decode(&c)?.v);
    }
    Ok(Read { dt, chunks })
}

fn read_one(bytes: Vec<u8>, how: usize) -> VortexResult<Read> {
    block_on(async {
        match how {
            0 => drain(StreamArrayReader::try_new(BytesMut::from(&bytes[..]), zctx()).await?.load_dtype().await?.into_array_stream()).await,
            1 => drain(StreamArrayReader::try_new(Cursor::new(Buffer::from(bytes)), zctx()).await?.load_dtype().await?.into_array_stream()).await,
            _ => drain(StreamArrayReader::try_new(FuturesAdapter(futures_util::io::Cursor::new(bytes)), zctx()).await?.load_dtype().await?.into_array_stream()).await,
        }
    })
}

fn all_families() -> Vec<&'static str> { crate::gen::ALL.to_vec() }

fn some_cases(ctx: &Ctx, rng: &mut Rng, quick: usize) -> Vec<Case> {
    let all = cases(&all_families(), rng, ctx.thorough);
    let n = all.len();
    // small models always, longer ones thinned out
    let keep = if ctx.thorough { n } else { quick };
    all.into_iter().filter(|c| rng.below(n) < keep || c.m.len() == 0 && rng.chance(1, 4)).collect()
}

pub fn p16(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x16);
    let cs = some_cases(ctx, &mut rng, 420);
    let cs = ctx.mine(cs);
    for (k, c) in cs.iter().enumerate() {
        if ctx.over() { break; }
        for e in build(&c.m, true, c.m.len() > 0 && k % 4 == 0) {
            let ps = pieces(&e.arr);
            let want = match run(|| Ok(Read { dt: c.m.dt.clone(), chunks: ps.iter().map(|p| Ok(decode(p)?.v)).collect::<VortexResult<_>>()? })) { Out::Ok(w) => w, _ => continue };
            let args = || format!("[{}] {} {}", c.name, c.m.dt, short(&c.m.v));
            let got = run(|| { let w = write_stream(&[e.arr.clone()])?; read_one(w.into_inner(), k % 3) });
            ctx.expect_eq("stream round trip", &e.name, &args, got, &want);
            // offsets recorded by the writer
            let got = run(|| {
                let w = write_stream(&[e.arr.clone()])?;
                let l = w.array_layouts()[0].clone();
                let n = w.into_inner().len() as u64;
                if l.dtype.begin != 0 || l.chunks.byte_offsets.first() != Some(&l.dtype.end) || l.chunks.byte_offsets.last() != Some(&n) { return Err(bad(format!("offsets {l:?} of a stream of {n} bytes"))); }
                if l.chunks.byte_offsets.iter().any(|o| o % vortex_serde::ALIGNMENT as u64 != 0) { return Err(bad(format!("unaligned message at {:?}", l.chunks.byte_offsets))); }
                Ok(l.chunks.row_offsets)
            });
            let mut offs = vec![0u64];
            for p in &ps { offs.push(offs.last().unwrap() + p.len() as u64); }
            ctx.expect_eq("stream row offsets", &e.name, &args, got, &offs);
        }
    }
    if !ctx.rest() { return; }
    // several arrays and pages in one stream
    for round in 0..if ctx.thorough { 150 } else { 25 } {
        if ctx.over() { break; }
        enum Item { A(Array, Read), P(Vec<u8>) }
        let mut items = vec![];
        for _ in 0..2 + rng.below(4) {
            if rng.chance(1, 2) {
                let n = *rng.pick(&[0usize, 1, 7, 63, 64, 65, 127, 128, 129, 1000]);
                items.push(Item::P((0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(round as u8)).collect()));
            } else {
                let len = *rng.pick(&[0usize, 1, 3, 9, 70]);
                let m = match rng.below(4) { 0 => ints(PType::I64, "random", len, &mut rng), 1 => strings(true, "pool", len, &mut rng), 2 => bools("random", len, &mut rng), _ => floats(PType::F64, "decimals", len, &mut rng) };
                let pats = null_patterns(len, &mut rng);
                let m = if rng.bool() { with_nulls(&m, &rng.pick(&pats).1) } else { m };
                let es = build(&m, true, false);
                let e = rng.pick(&es);
                let Out::Ok(r) = run(|| Ok(Read { dt: m.dt.clone(), chunks: pieces(&e.arr).iter().map(|p| Ok(decode(p)?.v)).collect::<VortexResult<_>>()? })) else { continue };
                items.push(Item::A(e.arr.clone(), r));
            }
        }
        let d = items.iter().map(|i| match i { Item::A(a, r) => format!("array of {} in {} chunks ({})", a.len(), r.chunks.len(), a.encoding().id()), Item::P(p) => format!("page of {}", p.len()) }).collect::<Vec<_>>().join(", ");
        let got = run(|| block_on(async {
            let mut w = StreamArrayWriter::new(vec![]);
            for i in &items { w = match i { Item::A(a, _) => w.write_array(a.clone()).await?, Item::P(p) => w.write_page(Buffer::from(p.clone())).await? }; }
            let pages = w.page_ranges().to_vec();
            let bytes = w.into_inner();
            let mut k = 0;
            // one reader over the whole stream
            let mut r = StreamArrayReader::try_new(Cursor::new(Buffer::from(bytes.clone())), zctx()).await?;
            for (i, it) in items.iter().enumerate() {
                match it {
                    Item::P(p) => {
                        let got = r.next_page().await?.ok_or_else(|| bad(format!("item {i}: no page")))?;
                        if got.as_slice() != &p[..] { return Err(bad(format!("item {i}: page of {} bytes differs", p.len()))); }
                        // the recorded range alone is a stream with that page
                        let range = &pages[k]; k += 1;
                        let sub = bytes[range.begin as usize..range.end as usize].to_vec();
                        let mut r2 = StreamArrayReader::try_new(BytesMut::from(&sub[..]), zctx()).await?;
                        let got = r2.next_page().await?.ok_or_else(|| bad(format!("item {i}: no page in its recorded range")))?;
                        if got.as_slice() != &p[..] { return Err(bad(format!("item {i}: page read from its recorded range differs"))); }
                        if r2.next_page().await?.is_some() { return Err(bad(format!("item {i}: more than one page in the recorded range"))); }
                    }
                    Item::A(_, want) => {
                        // each array carries its own type
                        let mut r2 = r.load_dtype().await?;
                        let got = drain(r2.array_stream()).await?;
                        if got != *want { return Err(bad(format!("item {i}: read {got:?} expected {want:?}"))); }
                        // a reader keeps its type: continue with a fresh one where this array ended
                        let rest = rest_after(&bytes, &items.iter().take(i + 1).map(|x| match x { Item::A(a, _) => Part::A(a.clone()), Item::P(p) => Part::P(p.clone()) }).collect::<Vec<_>>()).await?;
                        r = StreamArrayReader::try_new(Cursor::new(Buffer::from(rest)), zctx()).await?;
                    }
                }
            }
            if r.next_page().await?.is_some() { return Err(bad("a page after the end".into())); }
            Ok(true)
        }));
        ctx.expect_eq("stream of arrays and pages", "mixed", &|| d.clone(), got, &true);
    }
}

enum Part { A(Array), P(Vec<u8>) }
async fn rest_after(bytes: &[u8], done: &[Part]) -> VortexResult<Vec<u8>> {
    let mut w = StreamArrayWriter::new(vec![]);
    for i in done { w = match i { Part::A(a) => w.write_array(a.clone()).await?, Part::P(p) => w.write_page(Buffer::from(p.clone())).await? }; }
    let n = w.into_inner().len();
    Ok(bytes[n..].to_vec())
}

// ---------------------------------------------------------------- predicates (P17, P19, P22)

#[derive(Clone, Debug)]
pub enum E { Col(usize, bool), Lit(V, DType), Bin(Box<E>, Operator, Box<E>) }

pub fn to_expr(e: &E, names: &[String]) -> Arc<dyn VortexExpr> {
    match e {
        E::Col(i, true) => Arc::new(Column::new(Field::Name(names[*i].clone()))),
        E::Col(i, false) => Arc::new(Column::new(Field::Index(*i))),
        E::Lit(v, dt) => Arc::new(Literal::new(v_to_scalar(v, dt))),
        E::Bin(l, op, r) => Arc::new(BinaryExpr::new(to_expr(l, names), *op, to_expr(r, names))),
    }
}

pub fn cmp_v(op: Operator, a: &V, b: &V, dt: &DType) -> V {
    use std::cmp::Ordering::*;
    if *a == V::Null || *b == V::Null { return V::Null; }
    let o = vcmp(a, b, dt);
    V::B(match op {
        Operator::Eq => o == Equal, Operator::NotEq => o != Equal, Operator::Lt => o == Less, Operator::Lte => o != Greater,
        Operator::Gt => o == Greater, Operator::Gte => o != Less, _ => unreachable!(),
    })
}

pub fn dtype_of(e: &E, cols: &[M]) -> DType {
    match e { E::Col(i, _) => cols[*i].dt.clone(), E::Lit(_, d) => d.clone(), E::Bin(..) => DType::Bool(Nullability::Nullable) }
}

/// The meaning of a predicate at a row: comparisons are null where an operand is null; so are and/or.
pub fn meaning(e: &E, cols: &[M], row: usize) -> V {
    match e {
        E::Col(i, _) => cols[*i].v[row].clone(),
        E::Lit(v, _) => v.clone(),
        E::Bin(l, op, r) => {
            let (a, b) = (meaning(l, cols, row), meaning(r, cols, row));
            match op {
                Operator::And | Operator::Or => match (a, b) {
                    (V::B(x), V::B(y)) => V::B(if *op == Operator::And { x && y } else { x || y }),
                    _ => V::Null,
                },
                _ => cmp_v(*op, &a, &b, &dtype_of(l, cols)),
            }
        }
    }
}

pub const CMP: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];

/// A random predicate over the columns of a table; column references by name unless `by_index`.
pub fn predicate(cols: &[M], depth: usize, by_index: bool, rng: &mut Rng) -> E {
    let flags: Vec<usize> = (0..cols.len()).filter(|j| matches!(cols[*j].dt, DType::Bool(_))).collect();
    if depth > 0 && !flags.is_empty() && rng.chance(1, 4) {
        // a column used as a predicate of its own
        return E::Bin(Box::new(E::Col(*rng.pick(&flags), !by_index)), Operator::And, Box::new(predicate(cols, depth - 1, by_index, rng)));
    }
    if depth > 0 && rng.chance(3, 5) {
        let op = if rng.chance(3, 5) { Operator::And } else { Operator::Or };
        return E::Bin(Box::new(predicate(cols, depth - 1, by_index, rng)), op, Box::new(predicate(cols, depth - 1, by_index, rng)));
    }
    let i = rng.below(cols.len());
    let c = E::Col(i, !by_index);
    if matches!(cols[i].dt, DType::Bool(_)) && rng.chance(1, 3) { return c; }
    // another column of the same type, or a constant
    let same: Vec<usize> = (0..cols.len()).filter(|j| cols[*j].dt.eq_ignore_nullability(&cols[i].dt)).collect();
    let other = if same.len() > 1 && rng.chance(1, 4) { E::Col(*rng.pick(&same), !by_index) } else {
        let vals: Vec<V> = cols[i].v.iter().filter(|v| **v != V::Null).cloned().collect();
        let v = if vals.is_empty() { default_v(&cols[i].dt.as_nonnullable()) } else { rng.pick(&vals).clone() };
        let v = match v { V::I(x) if rng.chance(1, 3) => V::I((x + rng.below(3) as i128 - 1).max(0)), v => v };
        E::Lit(v, cols[i].dt.as_nonnullable())
    };
    let op = *rng.pick(&CMP);
    if rng.chance(1, 4) { E::Bin(Box::new(other), op, Box::new(c)) } else { E::Bin(Box::new(c), op, Box::new(other)) }
}

// ---------------------------------------------------------------- tables

#[derive(Clone)]
pub struct Table { pub names: Vec<String>, pub cols: Vec<M> }

impl Table {
    pub fn rows(&self) -> usize { self.cols[0].len() }
    pub fn dt(&self, cols: &[usize]) -> DType { struct_dtype(&cols.iter().map(|i| (self.names[*i].as_str(), self.cols[*i].dt.clone())).collect::<Vec<_>>(), false) }
    pub fn model(&self, cols: &[usize], rows: &[usize]) -> M {
        M::new(self.dt(cols), rows.iter().map(|r| V::St(cols.iter().map(|c| self.cols[*c].v[*r].clone()).collect())).collect())
    }
    pub fn all(&self) -> Vec<usize> { (0..self.cols.len()).collect() }
    pub fn descr(&self) -> String {
        self.names.iter().zip(&self.cols).map(|(n, c)| format!("{n}: {} {}", c.dt, short(&c.v))).collect::<Vec<_>>().join("; ")
    }
}

/// Small values so that predicates are true, false and null on sensible fractions of the rows.
pub fn table(len: usize, rng: &mut Rng) -> Table {
    let mut names = vec![];
    let mut cols = vec![];
    for k in 0..1 + rng.below(4) {
        let m = match rng.below(6) {
            0 => ints(PType::I64, "small", len, rng), 1 => ints(PType::I32, *rng.pick(&["ascending", "runs", "small"]), len, rng),
            2 => strings(true, *rng.pick(&["short", "pool"]), len, rng), 3 => bools(*rng.pick(&["random", "runs"]), len, rng),
            4 => floats(PType::F64, "runs", len, rng), _ => ints(PType::U8, "small", len, rng),
        };
        let pats = null_patterns(len, rng);
        let m = if rng.chance(1, 2) { let p = if rng.bool() { pats.last().unwrap().1.clone() } else { rng.pick(&pats).1.clone() }; with_nulls(&m, &p) } else { m };
        names.push(["a", "b", "long name", "d"][k].to_string());
        cols.push(m);
    }
    Table { names, cols }
}

pub fn cuts(n: usize, rng: &mut Rng) -> Vec<usize> {
    let mut v = vec![0, n];
    for _ in 0..rng.below(5) { v.push(rng.below(n + 1)); }
    if rng.chance(1, 4) { v.push(0); }
    if rng.chance(1, 4) { v.push(n); }
    v.sort();
    v
}

pub fn encode_some(m: &M, rng: &mut Rng) -> Array {
    let es = encoders(&m.dt);
    if rng.chance(1, 2) {
        let (name, f) = *rng.pick(&es);
        // some encodings of the rows alone, some of more rows with the others sliced off
        let a = match padded(m, name) {
            Some((p, at)) if rng.chance(1, 3) => run(|| vortex::compute::slice(f(&p)?, at, at + m.len())),
            _ => run(|| f(m)),
        };
        if let Out::Ok(a) = a {
            if matches!(run(|| decode(&a)), Out::Ok(d) if d == *m) { return a; }
        }
    }
    canon(m)
}

pub fn column(m: &M, cut: &[usize], rng: &mut Rng) -> Array {
    if cut.len() == 2 && rng.chance(2, 3) { return encode_some(m, rng); }
    let chunks = cut.windows(2).map(|w| encode_some(&m.slice(w[0], w[1]), rng)).collect();
    ChunkedArray::try_new(chunks, m.dt.clone()).unwrap().into_array()
}

/// As one struct with differently chunked columns, or as chunks of structs, or both.
pub fn assemble(t: &Table, outer: &[usize], rng: &mut Rng) -> (Array, String) {
    let ns: Vec<&str> = t.names.iter().map(|s| s.as_str()).collect();
    let mut parts = vec![];
    let mut d = String::new();
    for w in outer.windows(2) {
        let mut fields = vec![];
        for c in &t.cols {
            let part = c.slice(w[0], w[1]);
            let cut = cuts(part.len(), rng);
            d.push_str(&format!("{cut:?} "));
            fields.push(column(&part, &cut, rng));
        }
        d.push_str("| ");
        parts.push(StructArray::try_new(names(&ns), fields, w[1] - w[0], Validity::NonNullable).unwrap().into_array());
    }
    if parts.len() == 1 { return (parts.pop().unwrap(), d); }
    (ChunkedArray::try_new(parts, t.dt(&t.all())).unwrap().into_array(), d)
}

/// A reader whose reads are not ready the first time they are polled.
#[derive(Clone)]
struct Slow(Arc<Vec<u8>>);
struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskCx<'_>) -> Poll<()> {
        if self.0 { return Poll::Ready(()); }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
impl VortexReadAt for Slow {
    async fn read_at_into(&self, pos: u64, buffer: BytesMut) -> std::io::Result<BytesMut> {
        Later(false).await;
        self.0.read_at_into(pos, buffer).await
    }
    async fn size(&self) -> u64 { self.0.len() as u64 }
}

fn written(arr: &Array) -> VortexResult<Vec<u8>> {
    block_on(async { LayoutWriter::new(vec![]).write_array_columns(arr.clone()).await?.finalize().await })
}

fn scan(bytes: Arc<Vec<u8>>, bs: Option<usize>, proj: Option<Projection>, filt: Option<Arc<dyn VortexExpr>>, limit: usize) -> VortexResult<(DType, Vec<M>)> {
    block_on(async {
        let mut b = LayoutReaderBuilder::new(Slow(bytes), deser());
        if let Some(n) = bs { b = b.with_batch_size(n); }
        if let Some(p) = proj { b = b.with_projection(p); }
        if let Some(f) = filt { b = b.with_row_filter(RowFilter::new(f)); }
        let mut s = b.build().await?;
        let dt = DType::from(s.schema().clone());
        let mut out = vec![];
        while let Some(x) = s.next().await {
            out.push(decode(&x?)?);
            if out.len() > limit { return Err(bad(format!("more than {limit} batches: {}", out.iter().take(6).map(|m| m.len().to_string()).collect::<Vec<_>>().join(",")))); }
        }
        // the end stays the end
        let mut cx = TaskCx::from_waker(futures_util::task::noop_waker_ref());
        if !matches!(s.poll_next_unpin(&mut cx), Poll::Ready(None)) { return Err(bad("the stream goes on after its end".into())); }
        Ok((dt, out))
    })
}

fn joined(dt: &DType, ms: &[M]) -> Result<M, String> {
    let mut v = vec![];
    for m in ms { if m.dt != *dt { return Err(format!("batch of type {} in a scan of type {dt}", m.dt)); } v.extend(m.v.iter().cloned()); }
    Ok(M::new(dt.clone(), v))
}

pub fn p17(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x17 ^ ((ctx.shard.0 as u64) << 20));
    for _ in 0..if ctx.thorough { 6000 } else { 250 } {
        if ctx.over() { break; }
        let len = *rng.pick(&[1usize, 2, 3, 5, 8, 13, 30, 30, 70, 130]);
        let t = table(len, &mut rng);
        let outer = if rng.chance(1, 2) { vec![0, len] } else { cuts(len, &mut rng) };
        let (arr, layout) = assemble(&t, &outer, &mut rng);
        let bytes = match run(|| written(&arr)) {
            Out::Ok(b) => Arc::new(b),
            o => { ctx.expect_eq("write", "file", &|| format!("{} pieces {layout}", t.descr()), match o { Out::Err(e) => Out::Err(e), Out::Panic(p) => Out::Panic(p), _ => Out::Err("not implemented".into()) }, &true); continue; }
        };
        for _ in 0..6 {
            let bs = *rng.pick(&[1usize, 2, 3, 4, 5, 7, 16, 64, len.max(1), len + 1]);
            let pcols: Vec<usize> = if rng.chance(1, 4) { t.all() } else { let mut v = t.all(); rng.shuffle(&mut v); v.truncate(1 + rng.below(v.len())); v };
            let proj = if pcols == t.all() && rng.bool() { None } else {
                Some(Projection::Flat(pcols.iter().map(|i| if rng.bool() { Field::Index(*i) } else { Field::Name(t.names[*i].clone()) }).collect()))
            };
            let filt = if rng.chance(3, 4) { Some(predicate(&t.cols, 2, rng.chance(1, 6), &mut rng)) } else { None };
            let filt = if rng.chance(1, 25) { Some(E::Lit(V::B(rng.bool()), DType::Bool(Nullability::NonNullable))) } else { filt };
            let rows: Vec<usize> = (0..len).filter(|r| filt.as_ref().map_or(true, |f| meaning(f, &t.cols, *r) == V::B(true))).collect();
            let want = t.model(&pcols, &rows);
            let args = || format!("columns {pcols:?} batch size {bs} where {filt:?} of [{}] pieces {layout}", t.descr());
            let got = run(|| {
                let (dt, ms) = scan(bytes.clone(), Some(bs), proj.clone(), filt.as_ref().map(|f| to_expr(f, &t.names)), 4 * len + 16)?;
                joined(&dt, &ms).map_err(bad)
            });
            if let (Some(f), 2) = (&filt, outer.len()) {
                // the filter alone, on whatever encodings the table has in memory
                let want = M::new(DType::Bool(Nullability::NonNullable), (0..len).map(|r| V::B(rows.binary_search(&r).is_ok())).collect());
                let got = run(|| decode(&RowFilter::new(to_expr(f, &t.names)).evaluate(&arr)?));
                ctx.expect("row filter", "mask", &args, got, &want);
            }
            ctx.expect("scan", if filt.is_some() { "filtered" } else { "unfiltered" }, &args, got, &want);
        }
        // default batch size, all columns
        let want = t.model(&t.all(), &(0..len).collect::<Vec<_>>());
        let got = run(|| { let (dt, ms) = scan(bytes.clone(), None, None, None, 4 * len + 16)?; joined(&dt, &ms).map_err(bad) });
        ctx.expect("scan", "default", &|| format!("[{}] pieces {layout}", t.descr()), got, &want);
    }
    if !ctx.rest() { return; }
    // a column of flags in every encoding, followed by a comparison
    for len in [1usize, 4, 9, 70] {
        for (k, (name, enc)) in encoders(&DType::Bool(Nullability::NonNullable)).into_iter().enumerate() {
            let flags = bools(["runs", "true", "false", "sorted"][(k + len) % 4], len, &mut rng);
            let flags = if k % 2 == 0 { flags } else { with_nulls(&flags, &(0..len).map(|i| i % 3 != 1).collect::<Vec<_>>()) };
            let t = Table { names: vec!["f".into(), "n".into()], cols: vec![flags, ints(PType::I64, "small", len, &mut rng)] };
            let Out::Ok(a) = run(|| enc(&t.cols[0])) else { continue };
            let st = StructArray::try_new(names(&["f", "n"]), vec![a, canon(&t.cols[1])].into(), len, Validity::NonNullable).unwrap().into_array();
            for first in [true, false] {
                let (c, o) = (E::Col(0, true), E::Bin(Box::new(E::Col(1, true)), Operator::Gte, Box::new(E::Lit(V::I(1), DType::Primitive(PType::I64, Nullability::NonNullable)))));
                let f = if first { E::Bin(Box::new(c), Operator::And, Box::new(o)) } else { E::Bin(Box::new(o), Operator::And, Box::new(c)) };
                let want = M::new(DType::Bool(Nullability::NonNullable), (0..len).map(|r| V::B(meaning(&f, &t.cols, r) == V::B(true))).collect());
                let got = run(|| decode(&RowFilter::new(to_expr(&f, &t.names)).evaluate(&st)?));
                ctx.expect("row filter", name, &|| format!("{f:?} of [{}]", t.descr()), got, &want);
            }
        }
    }
    // more pieces than a 16-bit number can count
    {
        let n = 65_600usize;
        let dt = struct_dtype(&[("a", DType::Primitive(PType::U32, Nullability::NonNullable))], false);
        let got = run(|| {
            let rows = (0..n).map(|i| Ok(StructArray::try_new(names(&["a"]), vec![vortex::array::PrimitiveArray::from(vec![i as u32]).into_array()].into(), 1, Validity::NonNullable)?.into_array())).collect::<VortexResult<Vec<_>>>()?;
            let b = written(&ChunkedArray::try_new(rows, dt.clone())?.into_array())?;
            block_on(async {
                let mut s = LayoutReaderBuilder::new(b, deser()).with_batch_size(64).build().await?;
                let mut out: Vec<u32> = vec![];
                while let Some(x) = s.next().await { out.extend_from_slice(vortex::IntoArrayVariant::into_primitive(vortex::variants::StructArrayTrait::field(&vortex::IntoArrayVariant::into_struct(x?)?, 0).ok_or_else(|| bad("no column".into()))?)?.maybe_null_slice::<u32>()); }
                Ok(out.iter().enumerate().find(|(i, v)| **v != *i as u32).map(|(i, v)| (i, *v)).or((out.len() != n).then_some((out.len(), 0))))
            })
        });
        ctx.expect_eq("scan", "many pieces", &|| format!("{n} pieces of one row, column a = row number; answer: the first row read wrongly"), got, &None);
    }
    // one column in more pieces than a byte can count, next to one in a single piece
    for n in [255usize, 256, 257, 300] {
        let got = run(|| {
            let a = ChunkedArray::try_new((0..n).map(|i| vortex::array::PrimitiveArray::from(vec![i as u32]).into_array()).collect(), DType::Primitive(PType::U32, Nullability::NonNullable))?.into_array();
            let b = vortex::array::PrimitiveArray::from((0..n).map(|i| 3 * i as u32).collect::<Vec<_>>()).into_array();
            let w = written(&StructArray::try_new(names(&["a", "b"]), vec![a, b].into(), n, Validity::NonNullable)?.into_array())?;
            decode(&block_on(async { LayoutReaderBuilder::new(w, deser()).with_batch_size(100).build().await?.read_all().await })?)
        });
        let want = M::new(struct_dtype(&[("a", DType::Primitive(PType::U32, Nullability::NonNullable)), ("b", DType::Primitive(PType::U32, Nullability::NonNullable))], false), (0..n).map(|i| V::St(vec![V::I(i as i128), V::I(3 * i as i128)])).collect());
        ctx.expect("scan", "column in many pieces", &|| format!("{n} pieces of one row"), got, &want);
    }
    // read_all and a table of no rows
    for len in [0usize, 1, 9] {
        let m = ints(PType::I32, "small", len, &mut rng);
        let t = Table { names: vec!["a".into()], cols: vec![m] };
        let (arr, _) = assemble(&t, &[0, len], &mut rng);
        let want = t.model(&[0], &(0..len).collect::<Vec<_>>());
        let got = run(|| {
            let b = written(&arr)?;
            decode(&block_on(async { LayoutReaderBuilder::new(b, deser()).with_batch_size(4).build().await?.read_all().await })?)
        });
        ctx.expect("read_all", "file", &|| t.descr(), got, &want);
    }
    // a nullable table: rows that are null as a whole
    let t = Table { names: vec!["a".into()], cols: vec![ints(PType::I32, "small", 3, &mut rng)] };
    let st = struct_model(vec![("a", t.cols[0].clone())], Some(&[false, true, false]));
    let got = run(|| {
        let b = written(&canon(&st))?;
        decode(&block_on(async { LayoutReaderBuilder::new(b, deser()).build().await?.read_all().await })?)
    });
    match got { Out::Err(_) | Out::Unimpl => ctx.count("nullable table", true, String::new), g => { ctx.expect("nullable table", "file", &|| short(&st.v), g, &st); } }
    // unknown columns are an error
    let (arr, _) = assemble(&t, &[0, 3], &mut rng);
    let b = Arc::new(written(&arr).unwrap());
    for p in [Projection::Flat(vec![Field::Name("zz".into())]), Projection::Flat(vec![Field::Index(1)]), Projection::Flat(vec![Field::Index(0), Field::Index(77)])] {
        ctx.expect_reject("scan of an unknown column", "file", &|| format!("{p:?} of one column"), run(|| scan(b.clone(), None, Some(p.clone()), None, 100).map(|x| x.1.len())));
    }
    for f in [E::Bin(Box::new(E::Col(1, false)), Operator::Gt, Box::new(E::Lit(V::I(0), prim(PType::I32, false)))), E::Bin(Box::new(E::Col(1, true)), Operator::Gt, Box::new(E::Lit(V::I(0), prim(PType::I32, false))))] {
        let ns = vec!["a".to_string(), "zz".to_string()];
        ctx.expect_reject("filter on an unknown column", "file", &|| format!("{f:?} of one column"), run(|| scan(b.clone(), None, None, Some(to_expr(&f, &ns)), 100).map(|x| x.1.len())));
    }
}

// ---------------------------------------------------------------- P23

/// Every way of cutting n rows into at most `k` pieces, empty ones included.
fn compositions(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 1 { return vec![vec![n]]; }
    let mut out = vec![vec![n]];
    for a in 0..=n { for mut r in compositions(n - a, k - 1) { r.insert(0, a); out.push(r); } }
    out
}

pub fn p23(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x23);
    let mut jobs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for n in 1..=if ctx.thorough { 6 } else { 4 } {
        let all = compositions(n, if ctx.thorough { 4 } else { 3 });
        for a in &all { let b = rng.pick(&all).clone(); jobs.push((a.clone(), b)); }
    }
    for _ in 0..if ctx.thorough { 300 } else { 40 } {
        let n = 5 + rng.below(60);
        let f = |rng: &mut Rng| { let c = cuts(n, rng); c.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>() };
        let (a, b) = (f(&mut rng), f(&mut rng));
        jobs.push((a, b));
    }
    for (a, b) in ctx.mine(jobs) {
        if ctx.over() { break; }
        let n: usize = a.iter().sum();
        let t = Table { names: vec!["a".into(), "b".into()], cols: vec![M::new(prim(PType::I32, false), (0..n).map(|i| V::I(i as i128)).collect()), M::new(DType::Utf8(Nullability::Nullable), (0..n).map(|i| if i % 3 == 1 { V::Null } else { V::S(format!("s{i}").into_bytes()) }).collect())] };
        let col = |m: &M, sizes: &[usize]| {
            let mut o = 0;
            let ch = sizes.iter().map(|s| { o += s; canon(&m.slice(o - s, o)) }).collect::<Vec<_>>();
            ChunkedArray::try_new(ch, m.dt.clone()).unwrap().into_array()
        };
        let arr = StructArray::try_new(names(&["a", "b"]), vec![col(&t.cols[0], &a), col(&t.cols[1], &b)], n, Validity::NonNullable).unwrap().into_array();
        let args0 = format!("pieces {a:?} and {b:?}");
        let bytes = match run(|| written(&arr)) { Out::Ok(b) => Arc::new(b), Out::Err(e) => { ctx.fail("write", "file", "error", format!("{args0}: {e}")); continue; } Out::Panic(e) => { ctx.fail("write", "file", "panic", format!("{args0}: {e}")); continue; } _ => continue };
        let sizes: Vec<usize> = if n <= 6 { (1..=n + 1).collect() } else { vec![1, 2, 3, 1 + rng.below(n), n, n + 1] };
        for bs in sizes {
            for p in [vec![0usize], vec![0, 1]] {
                let args = || format!("batch size {bs} columns {p:?} {args0}");
                let want: Vec<Vec<V>> = t.model(&p, &(0..n).collect::<Vec<_>>()).v.chunks(bs).map(|c| c.to_vec()).collect();
                let got = run(|| {
                    let (_, ms) = scan(bytes.clone(), Some(bs), Some(Projection::Flat(p.iter().map(|i| Field::Index(*i)).collect())), None, 4 * n + 16)?;
                    let mut v: Vec<Vec<V>> = ms.into_iter().map(|m| m.v).collect();
                    // an empty last batch adds nothing
                    if v.last().is_some_and(|x| x.is_empty()) && v.len() > 1 { v.pop(); }
                    Ok(v)
                });
                ctx.expect_eq("batches", "file", &args, got, &want);
            }
        }
    }
}

// ---------------------------------------------------------------- P18

pub fn p18(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x18 ^ ((ctx.shard.0 as u64) << 20));
    let mut round = 0;
    while !ctx.over() && round < if ctx.thorough { 3000 } else { 90 } {
        round += 1;
        let len = *rng.pick(&[1usize, 2, 3, 5, 8, 20, 300, 700]);
        let m = match rng.below(4) { 0 => ints(PType::I32, "random", len, &mut rng), 1 => strings(true, "pool", len, &mut rng), 2 => floats(PType::F64, "decimals", len, &mut rng), _ => bools("random", len, &mut rng) };
        let pats = null_patterns(len, &mut rng);
        let m = if rng.bool() { with_nulls(&m, &rng.pick(&pats).1) } else { m };
        let cut = cuts(len, &mut rng);
        let arr = ChunkedArray::try_new(cut.windows(2).map(|w| encode_some(&m.slice(w[0], w[1]), &mut rng)).collect(), m.dt.clone()).unwrap().into_array();
        let Out::Ok(w) = run(|| write_stream(&[arr.clone()])) else { continue };
        let l = w.array_layouts()[0].clone();
        let bytes = Buffer::from(w.into_inner());
        for _ in 0..5 {
            let mut idx: Vec<usize> = match rng.below(6) {
                0 => vec![],
                1 => cut.iter().flat_map(|c| [c.wrapping_sub(1), *c]).filter(|c| *c < len).collect(),
                2 => (0..len).collect(),
                _ => (0..1 + rng.below(8)).map(|_| rng.below(len)).collect(),
            };
            idx.sort();
            let repeated = rng.chance(1, 3);
            if !repeated { idx.dedup(); }
            let oob = rng.chance(1, 8);
            if oob { idx.push(len + *rng.pick(&[0usize, 1, 50])); }
            let widths: Vec<PType> = INTS.iter().copied().filter(|p| idx.last().map_or(true, |x| *x as i128 <= irange(*p).1)).collect();
            let p = *rng.pick(&widths);
            let im = M::new(prim(p, false), idx.iter().map(|i| V::I(*i as i128)).collect());
            let ia = encode_some(&im, &mut rng);
            let args = || format!("rows {} ({p}, {}) of {} [{}] cut at {cut:?}", short(&im.v), ia.encoding().id(), m.dt, short(&m.v));
            let dt = Arc::new(m.dt.clone());
            let by = || run(|| {
                let mut r = ChunkedArrayReader::try_new(bytes.clone(), zctx(), dt.clone(), l.chunks.byte_offsets.clone().into_array(), l.chunks.row_offsets.clone().into_array())?;
                decode(&block_on(r.take_rows(&ia))?)
            });
            let st = || run(|| block_on(async {
                let r = StreamArrayReader::try_new(Cursor::new(bytes.clone()), zctx()).await?.load_dtype().await?;
                let s = r.into_array_stream().take_rows(ia.clone())?;
                decode(s.collect_chunked().await?.as_ref())
            }));
            if oob {
                ctx.expect_reject("take_rows out of range", "chunked reader", &args, by());
                ctx.expect_reject("take_rows out of range", "stream", &args, st());
            } else {
                let want = m.take(&idx);
                ctx.expect("take_rows", "chunked reader", &args, by(), &want);
                ctx.expect("take_rows", "stream", &args, st(), &want);
            }
        }
        // the whole array through the chunked reader
        let got = run(|| {
            let mut r = ChunkedArrayReader::try_new(bytes.clone(), zctx(), Arc::new(m.dt.clone()), l.chunks.byte_offsets.clone().into_array(), l.chunks.row_offsets.clone().into_array())?;
            decode(block_on(async { r.array_stream().await.collect_chunked().await })?.as_ref())
        });
        ctx.expect("array_stream", "chunked reader", &|| format!("{} [{}] cut at {cut:?}", m.dt, short(&m.v)), got, &m);
    }
}
