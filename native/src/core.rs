//! Abstract view of an array (the specification side), and reading it off the real code.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use half::f16;
use vortex::array::*;
use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
use vortex::{Array, ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_buffer::Buffer;
use vortex_dtype::{DType, NativePType, Nullability, PType, StructDType};
use vortex_error::{VortexError, VortexResult};
use vortex_scalar::{PValue, Scalar, ScalarValue};

/// One logical element. Floats are kept as bits: equality is bit equality.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Null,
    B(bool),
    I(i128),
    F(u64),
    S(Vec<u8>),
    St(Vec<V>),
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Null => write!(f, "null"),
            V::B(b) => write!(f, "{b}"),
            V::I(i) => write!(f, "{i}"),
            V::F(b) => write!(f, "f:{b:#x}"),
            V::S(s) => match std::str::from_utf8(s) {
                Ok(t) => write!(f, "{t:?}"),
                Err(_) => write!(f, "x{s:?}"),
            },
            V::St(v) => write!(f, "{v:?}"),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct M {
    pub dt: DType,
    pub v: Vec<V>,
}

impl M {
    pub fn new(dt: DType, v: Vec<V>) -> Self {
        M { dt, v }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn slice(&self, a: usize, b: usize) -> M {
        M::new(self.dt.clone(), self.v[a..b].to_vec())
    }
    pub fn take(&self, idx: &[usize]) -> M {
        M::new(self.dt.clone(), idx.iter().map(|&i| self.v[i].clone()).collect())
    }
    pub fn filter(&self, m: &[bool]) -> M {
        M::new(
            self.dt.clone(),
            self.v.iter().zip(m).filter(|(_, k)| **k).map(|(v, _)| v.clone()).collect(),
        )
    }
    pub fn nulls(&self) -> usize {
        self.v.iter().filter(|v| **v == V::Null).count()
    }
    pub fn nullable(&self) -> bool {
        self.dt.is_nullable()
    }
    pub fn valid(&self) -> Vec<bool> {
        self.v.iter().map(|v| *v != V::Null).collect()
    }
}

pub fn short(vs: &[V]) -> String {
    let mut s = String::new();
    if vs.len() <= 48 {
        let _ = write!(s, "{vs:?}");
    } else {
        let _ = write!(s, "len={} head={:?} tail={:?}", vs.len(), &vs[..20], &vs[vs.len() - 8..]);
    }
    s
}

pub fn prim(p: PType, n: bool) -> DType {
    DType::Primitive(p, Nullability::from(n))
}

macro_rules! each_int {
    ($p:expr, |$T:ident| $e:expr) => {
        match $p {
            PType::I8 => { type $T = i8; $e }
            PType::I16 => { type $T = i16; $e }
            PType::I32 => { type $T = i32; $e }
            PType::I64 => { type $T = i64; $e }
            PType::U8 => { type $T = u8; $e }
            PType::U16 => { type $T = u16; $e }
            PType::U32 => { type $T = u32; $e }
            PType::U64 => { type $T = u64; $e }
            _ => unreachable!(),
        }
    };
}
pub(crate) use each_int;

/// How null slots are filled when a primitive buffer is built.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Junk {
    Zero,
    Noise,
}

/// Validity of a model: `explicit` forces a validity array even where a shorthand exists.
pub fn validity_of(m: &M, explicit: bool) -> Validity {
    if !m.nullable() {
        return Validity::NonNullable;
    }
    let valid = m.valid();
    if !explicit && valid.iter().all(|v| *v) {
        return Validity::AllValid;
    }
    if !explicit && !valid.is_empty() && valid.iter().all(|v| !*v) {
        return Validity::AllInvalid;
    }
    Validity::Array(BoolArray::from_vec(valid, Validity::NonNullable).into_array())
}

pub fn noise(i: usize) -> u64 {
    (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left((i % 61) as u32)
}

pub fn canon_primitive(m: &M, junk: Junk, explicit: bool) -> PrimitiveArray {
    let DType::Primitive(p, _) = m.dt else { panic!("not primitive") };
    let validity = validity_of(m, explicit);
    match p {
        PType::F16 => PrimitiveArray::from_vec(
            m.v.iter().enumerate().map(|(i, v)| match v {
                V::F(b) => f16::from_bits(*b as u16),
                _ => if junk == Junk::Noise { f16::from_bits(noise(i) as u16) } else { f16::ZERO },
            }).collect::<Vec<_>>(), validity),
        PType::F32 => PrimitiveArray::from_vec(
            m.v.iter().enumerate().map(|(i, v)| match v {
                V::F(b) => f32::from_bits(*b as u32),
                _ => if junk == Junk::Noise { f32::from_bits(noise(i) as u32) } else { 0.0 },
            }).collect::<Vec<_>>(), validity),
        PType::F64 => PrimitiveArray::from_vec(
            m.v.iter().enumerate().map(|(i, v)| match v {
                V::F(b) => f64::from_bits(*b),
                _ => if junk == Junk::Noise { f64::from_bits(noise(i)) } else { 0.0 },
            }).collect::<Vec<_>>(), validity),
        _ => each_int!(p, |T| PrimitiveArray::from_vec(
            m.v.iter().enumerate().map(|(i, v)| match v {
                V::I(x) => T::try_from(*x).unwrap(),
                _ => if junk == Junk::Noise { noise(i) as T } else { 0 as T },
            }).collect::<Vec<T>>(), validity)),
    }
}

pub fn canon_bool(m: &M, explicit: bool) -> BoolArray {
    BoolArray::from_vec(
        m.v.iter().enumerate().map(|(i, v)| match v {
            V::B(b) => *b,
            _ => noise(i) & 1 == 1 && explicit,
        }).collect(),
        validity_of(m, explicit),
    )
}

pub fn opt_bytes(m: &M) -> Vec<Option<Vec<u8>>> {
    m.v.iter().map(|v| match v { V::S(b) => Some(b.clone()), _ => None }).collect()
}

pub fn canon_varbin(m: &M) -> VarBinArray {
    if m.nullable() {
        VarBinArray::from_iter(opt_bytes(m), m.dt.clone())
    } else {
        VarBinArray::from_iter_nonnull(opt_bytes(m).into_iter().map(|b| b.unwrap()), m.dt.clone())
    }
}

pub fn canon_view(m: &M) -> VarBinViewArray {
    VarBinViewArray::from_iter(opt_bytes(m), m.dt.clone())
}

/// Plain (uncompressed) array holding the model.
pub fn canon(m: &M) -> Array {
    match &m.dt {
        DType::Null => NullArray::new(m.len()).into_array(),
        DType::Bool(_) => canon_bool(m, false).into_array(),
        DType::Primitive(..) => canon_primitive(m, Junk::Zero, false).into_array(),
        DType::Utf8(_) | DType::Binary(_) => canon_varbin(m).into_array(),
        DType::Struct(st, _) => {
            let fields = (0..st.names().len()).map(|k| canon(&field_model(m, k))).collect::<Vec<_>>();
            StructArray::try_new(st.names().clone(), fields, m.len(), validity_of(m, false)).unwrap().into_array()
        }
        DType::Extension(e, _) => {
            ExtensionArray::new(e.clone(), canon(&storage_model(m))).into_array()
        }
        d => panic!("no canonical form for {d}"),
    }
}

pub fn default_v(dt: &DType) -> V {
    if dt.is_nullable() { return V::Null; }
    match dt {
        DType::Bool(_) => V::B(false),
        DType::Primitive(p, _) => if p.is_float() { V::F(0) } else { V::I(0) },
        DType::Utf8(_) | DType::Binary(_) => V::S(vec![]),
        DType::Struct(st, _) => V::St(st.dtypes().iter().map(default_v).collect()),
        DType::Extension(..) => V::I(0),
        _ => V::Null,
    }
}

pub fn field_model(m: &M, k: usize) -> M {
    let DType::Struct(st, _) = &m.dt else { panic!() };
    let dt = st.dtypes()[k].clone();
    M::new(dt.clone(), m.v.iter().map(|v| match v { V::St(f) => f[k].clone(), _ => default_v(&dt) }).collect())
}

/// Storage of the temporal extension types used here is i32 or i64, chosen by id.
pub fn storage_dtype(dt: &DType) -> DType {
    let DType::Extension(e, n) = dt else { panic!() };
    let p = match e.id().as_ref() {
        "vortex.date" => {
            let u = e.metadata().unwrap().as_ref()[0];
            if u == 4 { PType::I32 } else { PType::I64 }
        }
        "vortex.time" => {
            let u = e.metadata().unwrap().as_ref()[0];
            if u >= 2 { PType::I32 } else { PType::I64 }
        }
        _ => PType::I64,
    };
    DType::Primitive(p, *n)
}

pub fn storage_model(m: &M) -> M {
    M::new(storage_dtype(&m.dt), m.v.clone())
}

fn mask_of(lv: LogicalValidity, len: usize) -> VortexResult<Vec<bool>> {
    Ok(match lv {
        LogicalValidity::AllValid(n) => { if n != len { return Err(bad(format!("validity length {n} != {len}"))); } vec![true; len] }
        LogicalValidity::AllInvalid(n) => { if n != len { return Err(bad(format!("validity length {n} != {len}"))); } vec![false; len] }
        LogicalValidity::Array(a) => {
            let b = a.into_bool()?;
            let bb = b.boolean_buffer();
            if bb.len() != len { return Err(bad(format!("validity length {} != {len}", bb.len()))); }
            bb.iter().collect()
        }
    })
}

pub fn bad(s: String) -> VortexError {
    VortexError::InvalidArgument(s.into(), std::backtrace::Backtrace::disabled())
}

pub fn logical_mask(a: &Array) -> VortexResult<Vec<bool>> {
    let n = a.len();
    mask_of(a.with_dyn(|x| x.logical_validity()), n)
}

pub fn is_valid_mask(a: &Array) -> Vec<bool> {
    a.with_dyn(|x| (0..a.len()).map(|i| x.is_valid(i)).collect())
}

fn prim_vs<T: NativePType>(p: &PrimitiveArray, mask: &[bool], f: impl Fn(T) -> V) -> Vec<V> {
    p.maybe_null_slice::<T>().iter().zip(mask).map(|(x, ok)| if *ok { f(*x) } else { V::Null }).collect()
}

/// Decode any array to the abstract view, reading the canonical buffers directly.
pub fn decode(a: &Array) -> VortexResult<M> {
    let dt = a.dtype().clone();
    let len = a.len();
    let c = a.clone().into_canonical()?;
    let cd = match &c {
        Canonical::Null(x) => x.dtype().clone(),
        Canonical::Bool(x) => x.dtype().clone(),
        Canonical::Primitive(x) => x.dtype().clone(),
        Canonical::Struct(x) => x.dtype().clone(),
        Canonical::VarBinView(x) => x.dtype().clone(),
        Canonical::Extension(x) => x.dtype().clone(),
    };
    if cd != dt {
        return Err(bad(format!("decoded type {cd} differs from array type {dt}")));
    }
    let v = match c {
        Canonical::Null(x) => vec![V::Null; x.len()],
        Canonical::Bool(x) => {
            let m = mask_of(x.logical_validity(), x.len())?;
            x.boolean_buffer().iter().zip(&m).map(|(b, ok)| if *ok { V::B(b) } else { V::Null }).collect()
        }
        Canonical::Primitive(x) => {
            let m = mask_of(x.logical_validity(), x.len())?;
            match x.ptype() {
                PType::F16 => prim_vs::<f16>(&x, &m, |f| V::F(f.to_bits() as u64)),
                PType::F32 => prim_vs::<f32>(&x, &m, |f| V::F(f.to_bits() as u64)),
                PType::F64 => prim_vs::<f64>(&x, &m, |f| V::F(f.to_bits())),
                p => each_int!(p, |T| prim_vs::<T>(&x, &m, |i| V::I(i as i128))),
            }
        }
        Canonical::VarBinView(x) => {
            let m = mask_of(x.logical_validity(), x.len())?;
            (0..x.len()).map(|i| Ok(if m[i] { V::S(x.bytes_at(i)?) } else { V::Null })).collect::<VortexResult<_>>()?
        }
        Canonical::Struct(x) => {
            let m = mask_of(x.logical_validity(), x.len())?;
            let fields = x.children().map(|c| decode(&c)).collect::<VortexResult<Vec<_>>>()?;
            for f in &fields { if f.len() != x.len() { return Err(bad("field length".into())); } }
            (0..x.len()).map(|i| if m[i] { V::St(fields.iter().map(|f| f.v[i].clone()).collect()) } else { V::Null }).collect()
        }
        Canonical::Extension(x) => decode(&x.storage())?.v,
    };
    if v.len() != len {
        return Err(bad(format!("decoded length {} differs from array length {len}", v.len())));
    }
    Ok(M::new(dt, v))
}

pub fn pv_to_v(p: PValue) -> V {
    match p {
        PValue::U8(x) => V::I(x as i128),
        PValue::U16(x) => V::I(x as i128),
        PValue::U32(x) => V::I(x as i128),
        PValue::U64(x) => V::I(x as i128),
        PValue::I8(x) => V::I(x as i128),
        PValue::I16(x) => V::I(x as i128),
        PValue::I32(x) => V::I(x as i128),
        PValue::I64(x) => V::I(x as i128),
        PValue::F16(x) => V::F(x.to_bits() as u64),
        PValue::F32(x) => V::F(x.to_bits() as u64),
        PValue::F64(x) => V::F(x.to_bits()),
    }
}

/// Abstract value of a scalar value read at a type.
pub fn sv_to_v(sv: &ScalarValue, dt: &DType) -> Result<V, String> {
    Ok(match (sv, dt) {
        (ScalarValue::Null, _) => V::Null,
        (ScalarValue::Bool(b), DType::Bool(_)) => V::B(*b),
        (ScalarValue::Primitive(p), DType::Primitive(pt, _)) => {
            let v = pv_to_v(*p);
            match (&v, pt.is_float(), p.ptype().is_float()) {
                (_, false, false) => v,
                (_, true, true) if p.ptype() == *pt => v,
                _ => return Err(format!("primitive value {p:?} in a scalar of type {dt}")),
            }
        }
        (ScalarValue::Buffer(b), DType::Binary(_) | DType::Utf8(_)) => V::S(b.as_slice().to_vec()),
        (ScalarValue::BufferString(b), DType::Utf8(_) | DType::Binary(_)) => V::S(b.as_str().as_bytes().to_vec()),
        (ScalarValue::List(l), DType::Struct(st, _)) => {
            if l.len() != st.dtypes().len() { return Err("struct arity".into()); }
            V::St(l.iter().zip(st.dtypes().iter()).map(|(v, d)| sv_to_v(v, d)).collect::<Result<_, _>>()?)
        }
        (v, DType::Extension(..)) => sv_to_v(v, &storage_dtype(dt))?,
        (v, d) => return Err(format!("scalar value {v:?} does not fit type {d}")),
    })
}

pub fn scalar_to_v(s: &Scalar) -> Result<V, String> {
    sv_to_v(s.value(), s.dtype())
}

pub fn v_to_sv(v: &V, dt: &DType) -> ScalarValue {
    match (v, dt) {
        (V::Null, _) => ScalarValue::Null,
        (V::B(b), _) => ScalarValue::Bool(*b),
        (V::I(i), DType::Primitive(p, _)) => ScalarValue::Primitive(each_int!(*p, |T| PValue::from(T::try_from(*i).unwrap()))),
        (V::F(b), DType::Primitive(p, _)) => ScalarValue::Primitive(match p {
            PType::F16 => PValue::F16(f16::from_bits(*b as u16)),
            PType::F32 => PValue::F32(f32::from_bits(*b as u32)),
            _ => PValue::F64(f64::from_bits(*b)),
        }),
        (V::S(s), DType::Utf8(_)) => ScalarValue::BufferString(String::from_utf8(s.clone()).unwrap().into()),
        (V::S(s), _) => ScalarValue::Buffer(Buffer::from(s.clone())),
        (V::St(f), DType::Struct(st, _)) => ScalarValue::List(f.iter().zip(st.dtypes().iter()).map(|(v, d)| v_to_sv(v, d)).collect::<Vec<_>>().into()),
        (V::I(_), DType::Extension(..)) => v_to_sv(v, &storage_dtype(dt)),
        _ => panic!("no scalar for {v:?} at {dt}"),
    }
}

pub fn v_to_scalar(v: &V, dt: &DType) -> Scalar {
    Scalar::new(dt.clone(), v_to_sv(v, dt))
}

/// Numeric/lexicographic order of two non-null values of one type (floats: total order).
pub fn vcmp(a: &V, b: &V, dt: &DType) -> std::cmp::Ordering {
    match (a, b) {
        (V::F(x), V::F(y)) => {
            let DType::Primitive(p, _) = dt else { panic!() };
            match p {
                PType::F16 => f16::from_bits(*x as u16).total_cmp(&f16::from_bits(*y as u16)),
                PType::F32 => f32::from_bits(*x as u32).total_cmp(&f32::from_bits(*y as u32)),
                _ => f64::from_bits(*x).total_cmp(&f64::from_bits(*y)),
            }
        }
        _ => a.cmp(b),
    }
}

pub fn names(ns: &[&str]) -> Arc<[Arc<str>]> {
    ns.iter().map(|n| Arc::from(*n)).collect::<Vec<_>>().into()
}

pub fn struct_dtype(fs: &[(&str, DType)], n: bool) -> DType {
    DType::Struct(StructDType::new(names(&fs.iter().map(|f| f.0).collect::<Vec<_>>()), fs.iter().map(|f| f.1.clone()).collect()), Nullability::from(n))
}

// ---------------------------------------------------------------- outcomes

#[derive(Debug, Clone)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    /// The operation is declared not implemented for this encoding.
    Unimpl,
    Panic(String),
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        if !i.can_unwind() { eprintln!("{s}\n{}", std::backtrace::Backtrace::force_capture()); }
        LAST_PANIC.with(|p| *p.borrow_mut() = s.chars().take(400).collect());
    }));
}

/// Number of guarded calls started, and whether one is running: the watchdog's view.
pub static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static RUNNING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// A guarded call that does not return within a minute is reported as a hang.
pub fn watchdog(out: Option<String>, pid: String) {
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::spawn(move || {
        let (mut last, mut since) = (0u64, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let c = CALLS.load(Relaxed);
            if c != last || !RUNNING.load(Relaxed) { last = c; since = std::time::Instant::now(); continue; }
            if since.elapsed().as_secs() > 75 {
                let l = LAST.lock().map(|s| s.clone()).unwrap_or_default();
                let d = serde_json::to_string(&format!("a call has not returned after 75 s (call {c} of the run; the one before it was {l})")).unwrap();
                let o = format!("{{\"property\":\"{pid}\",\"evaluations\":{c},\"nontrivial\":{c},\"samples\":[],\"by_op\":{{}},\"failures\":[{{\"sig\":\"call|any|hang\",\"count\":1,\"detail\":{d}}}]}}");
                match &out { Some(p) => { let _ = std::fs::write(p, o); } None => println!("{o}") }
                std::process::exit(1);
            }
        }
    });
}

pub fn run<T>(f: impl FnOnce() -> VortexResult<T>) -> Out<T> {
    use std::sync::atomic::Ordering::Relaxed;
    CALLS.fetch_add(1, Relaxed);
    RUNNING.store(true, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    RUNNING.store(false, Relaxed);
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => {
            let s = format!("{e}").lines().next().unwrap_or("").to_string();
            if matches!(e, VortexError::NotImplemented(..)) || s.contains("not implemented for") {
                Out::Unimpl
            } else {
                Out::Err(s)
            }
        }
        Err(_) => Out::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub detail: String,
}

/// Collects evaluations and failures of one property run.
pub struct Ctx {
    pub pid: String,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub nontrivial: u64,
    pub unimpl: u64,
    pub fails: BTreeMap<String, (u64, Fail)>,
    pub samples: Vec<String>,
    pub by_op: BTreeMap<String, u64>,
    pub start: std::time::Instant,
    pub budget: f64,
    /// (index, count): the part of the cases this process runs
    pub shard: (usize, usize),
}

impl Ctx {
    pub fn new(pid: &str, seed: u64, thorough: bool) -> Self {
        Ctx { pid: pid.into(), seed, thorough, evals: 0, nontrivial: 0, unimpl: 0, fails: BTreeMap::new(), samples: vec![], by_op: BTreeMap::new(), start: std::time::Instant::now(), budget: if thorough { 600.0 } else { 60.0 }, shard: (0, 1) }
    }
    /// The cases of this process.
    pub fn mine<T>(&self, cs: Vec<T>) -> Vec<T> {
        cs.into_iter().enumerate().filter(|(i, _)| i % self.shard.1 == self.shard.0).map(|x| x.1).collect()
    }
    /// Work that is not split runs in a process of its own.
    pub fn rest(&self) -> bool { self.shard.1 == 1 || self.shard.0 == self.shard.1 }
    pub fn over(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.budget
    }
    pub fn fail(&mut self, op: &str, enc: &str, kind: &str, detail: String) {
        let sig = format!("{op}|{enc}|{kind}");
        let e = self.fails.entry(sig.clone()).or_insert_with(|| (0, Fail { sig, detail: detail.clone() }));
        e.0 += 1;
        // keep the shortest description: the smallest failing input seen
        if detail.len() < e.1.detail.len() { e.1.detail = detail; }
    }
    pub fn count(&mut self, op: &str, nontrivial: bool, sample: impl FnOnce() -> String) {
        self.evals += 1;
        if nontrivial { self.nontrivial += 1; }
        *self.by_op.entry(op.to_string()).or_insert(0) += 1;
        if let Ok(mut l) = LAST.try_lock() { l.clear(); l.push_str(op); }
        if self.samples.len() < 6 && nontrivial && self.evals % 97 == 1 {
            let s: String = sample().chars().take(600).collect();
            self.samples.push(s);
        }
    }

    /// Compare a decoded outcome with the model.
    pub fn expect(&mut self, op: &str, enc: &str, args: &dyn Fn() -> String, got: Out<M>, want: &M) -> bool {
        self.count(op, want.len() > 0, || format!("{op} on {enc}: {} -> {}", args(), short(&want.v)));
        match got {
            Out::Ok(m) => {
                if m.dt != want.dt {
                    self.fail(op, enc, "type", format!("{}: type {} expected {}", args(), m.dt, want.dt));
                    false
                } else if m.v != want.v {
                    let at = m.v.iter().zip(&want.v).position(|(a, b)| a != b);
                    let kind = if m.v.len() != want.v.len() { "length" } else { "value" };
                    self.fail(op, enc, kind, format!("{}: got {} expected {} (first difference at {at:?}: {})", args(), short(&m.v), short(&want.v),
                        at.map(|i| format!("{:?} instead of {:?}", m.v[i], want.v[i])).unwrap_or_default()));
                    false
                } else { true }
            }
            Out::Err(e) => { self.fail(op, enc, "error", format!("{}: error: {e}; expected {}", args(), short(&want.v))); false }
            Out::Unimpl => { self.unimpl += 1; true }
            Out::Panic(p) => { self.fail(op, enc, "panic", format!("{}: panic: {p}; expected {}", args(), short(&want.v))); false }
        }
    }

    pub fn expect_eq<T: PartialEq + std::fmt::Debug>(&mut self, op: &str, enc: &str, args: &dyn Fn() -> String, got: Out<T>, want: &T) -> bool {
        self.count(op, true, || format!("{op} on {enc}: {} -> {want:?}", args()));
        match got {
            Out::Ok(g) if g == *want => true,
            Out::Ok(g) => { self.fail(op, enc, "value", format!("{}: got {g:?} expected {want:?}", args())); false }
            Out::Err(e) => { self.fail(op, enc, "error", format!("{}: error: {e}; expected {want:?}", args())); false }
            Out::Unimpl => { self.unimpl += 1; true }
            Out::Panic(p) => { self.fail(op, enc, "panic", format!("{}: panic: {p}; expected {want:?}", args())); false }
        }
    }

    /// The operation must be refused (an error, or a panic for debug assertions): never an answer.
    pub fn expect_reject<T: std::fmt::Debug>(&mut self, op: &str, enc: &str, args: &dyn Fn() -> String, got: Out<T>) {
        self.count(op, true, || format!("{op} on {enc}: {} -> rejected", args()));
        match got {
            Out::Err(_) | Out::Unimpl => {}
            Out::Panic(p) => self.fail(op, enc, "panic", format!("{}: panic instead of an error: {p}", args())),
            Out::Ok(g) => self.fail(op, enc, "accepted", format!("{}: accepted, gave {:?}", args(), g)),
        }
    }
}

/// True when two signed zeros or NaNs are involved.
pub fn is_special_float(v: &V, dt: &DType) -> bool {
    match (v, dt) {
        (V::F(b), DType::Primitive(PType::F64, _)) => { let f = f64::from_bits(*b); f.is_nan() || (f == 0.0 && f.is_sign_negative()) }
        (V::F(b), DType::Primitive(PType::F32, _)) => { let f = f32::from_bits(*b as u32); f.is_nan() || (f == 0.0 && f.is_sign_negative()) }
        (V::F(b), DType::Primitive(PType::F16, _)) => { let f = f16::from_bits(*b as u16); f.is_nan() || (f == f16::ZERO && f.is_sign_negative()) }
        _ => false,
    }
}
