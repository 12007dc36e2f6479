//! Every way the code base can hold a model: the encoders under contract.
use vortex::array::*;
use vortex::compress::CompressionStrategy;
use vortex::compute::slice;
use vortex::validity::{ArrayValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_alp::{alp_encode, RDEncoder};
use vortex_bytebool::ByteBoolArray;
use vortex_datetime_parts::{split_temporal, DateTimePartsArray, TemporalParts};
use vortex_dict::{dict_encode_primitive, dict_encode_varbin, dict_encode_varbinview, DictArray};
use vortex_dtype::{DType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_fastlanes::{bitpack_encode, delta_compress, for_compress, BitPackedArray, DeltaArray, FoRArray};
use vortex_fsst::{fsst_compress, fsst_train_compressor};
use vortex_roaring::{roaring_bool_encode, roaring_int_encode};
use vortex_runend::compress::runend_encode;
use vortex_runend::RunEndArray;
use vortex_runend_bool::compress::runend_bool_encode;
use vortex_runend_bool::RunEndBoolArray;
use vortex_sampling_compressor::SamplingCompressor;
use vortex_scalar::{Scalar, ScalarValue};
use vortex_zigzag::zigzag_encode;

use crate::core::*;

pub type EncFn = fn(&M) -> VortexResult<Array>;

pub fn bits_needed(m: &M) -> u8 {
    m.v.iter().map(|v| match v { V::I(x) if *x >= 0 => (128 - x.leading_zeros()) as u8, _ => 0 }).max().unwrap_or(0)
}
fn raw_bits(m: &M) -> u8 {
    let DType::Primitive(p, _) = m.dt else { panic!() };
    p.bit_width() as u8
}
fn na(s: &str) -> vortex_error::VortexError { bad(format!("n/a: {s}")) }

pub fn ptype(m: &M) -> PType {
    let DType::Primitive(p, _) = m.dt else { panic!() };
    p
}

fn e_plain(m: &M) -> VortexResult<Array> { Ok(canon(m)) }
fn e_prim_junk(m: &M) -> VortexResult<Array> { Ok(canon_primitive(m, Junk::Noise, true).into_array()) }
fn bp(m: &M, w: u8, junk: Junk) -> VortexResult<Array> {
    Ok(bitpack_encode(canon_primitive(m, junk, junk == Junk::Noise), w.min(raw_bits(m) - 1))?.into_array())
}
fn e_bp_exact(m: &M) -> VortexResult<Array> { bp(m, bits_needed(m), Junk::Zero) }
fn e_bp_patched(m: &M) -> VortexResult<Array> { bp(m, (bits_needed(m) + 1) / 2, Junk::Zero) }
fn e_bp_noise(m: &M) -> VortexResult<Array> { bp(m, (bits_needed(m) / 2).max(1), Junk::Noise) }
fn e_for(m: &M) -> VortexResult<Array> { for_compress(&canon_primitive(m, Junk::Zero, false)) }
fn e_for_junk(m: &M) -> VortexResult<Array> { for_compress(&canon_primitive(m, Junk::Noise, true)) }
fn unsigned(a: Array) -> VortexResult<PrimitiveArray> {
    let p = a.into_primitive()?;
    let u = p.ptype().to_unsigned();
    Ok(p.reinterpret_cast(u))
}
fn bp_of(p: PrimitiveArray, num: u8, den: u8) -> VortexResult<Array> {
    let m = decode(p.as_ref())?;
    let w = (bits_needed(&m) * num / den).min(raw_bits(&m) - 1);
    Ok(bitpack_encode(p, w)?.into_array())
}
fn e_for_bp(m: &M) -> VortexResult<Array> {
    let f = FoRArray::try_from(for_compress(&canon_primitive(m, Junk::Zero, false))?).map_err(|_| na("constant"))?;
    Ok(FoRArray::try_new(bp_of(unsigned(f.encoded())?, 1, 1)?, f.owned_reference_scalar(), f.shift())?.into_array())
}
fn e_for_bp_patched(m: &M) -> VortexResult<Array> {
    let f = FoRArray::try_from(for_compress(&canon_primitive(m, Junk::Zero, false))?).map_err(|_| na("constant"))?;
    Ok(FoRArray::try_new(bp_of(unsigned(f.encoded())?, 2, 3)?, f.owned_reference_scalar(), f.shift())?.into_array())
}
fn e_zigzag(m: &M) -> VortexResult<Array> { Ok(zigzag_encode(canon_primitive(m, Junk::Zero, false))?.into_array()) }
fn e_zigzag_bp(m: &M) -> VortexResult<Array> {
    let z = zigzag_encode(canon_primitive(m, Junk::Noise, true))?;
    Ok(vortex_zigzag::ZigZagArray::try_new(bp_of(z.encoded().into_primitive()?, 1, 2)?)?.into_array())
}
fn e_delta(m: &M) -> VortexResult<Array> {
    let p = canon_primitive(m, Junk::Zero, false);
    let (b, d) = delta_compress(&p)?;
    Ok(DeltaArray::try_from_delta_compress_parts(b.into_array(), d.into_array(), p.validity())?.into_array())
}
fn e_delta_prim(m: &M) -> VortexResult<Array> {
    Ok(DeltaArray::try_from_primitive_array(&canon_primitive(m, Junk::Zero, false))?.into_array())
}
fn e_dict(m: &M) -> VortexResult<Array> {
    let (c, v) = dict_encode_primitive(&canon_primitive(m, Junk::Noise, true));
    Ok(DictArray::try_new(c.into_array(), v.into_array())?.into_array())
}
fn e_dict_bp(m: &M) -> VortexResult<Array> {
    let (c, v) = dict_encode_primitive(&canon_primitive(m, Junk::Zero, false));
    Ok(DictArray::try_new(bp_of(unsigned(c.into_array())?, 1, 1)?, v.into_array())?.into_array())
}
fn e_runend(m: &M) -> VortexResult<Array> { Ok(RunEndArray::encode(canon_primitive(m, Junk::Zero, false).into_array())?.into_array()) }
fn e_runend_bp(m: &M) -> VortexResult<Array> {
    let p = canon_primitive(m, Junk::Noise, true);
    let (ends, values) = runend_encode(&p);
    // narrower ends, as the compressor would store them
    let ends = bp_of(unsigned(ends.into_array())?, 1, 1)?;
    Ok(RunEndArray::try_new(ends, values.into_array(), p.validity())?.into_array())
}
fn e_roaring_int(m: &M) -> VortexResult<Array> { Ok(roaring_int_encode(canon_primitive(m, Junk::Zero, false))?.into_array()) }
fn e_constant(m: &M) -> VortexResult<Array> {
    if m.len() == 0 { return Ok(ConstantArray::new(v_to_scalar(&default_v(&m.dt), &m.dt), 0).into_array()); }
    if m.v.iter().any(|v| *v != m.v[0]) { return Err(na("not constant")); }
    Ok(ConstantArray::new(v_to_scalar(&m.v[0], &m.dt), m.len()).into_array())
}
fn sparse_with(m: &M, fill: &V) -> VortexResult<Array> {
    let idx: Vec<u64> = (0..m.len()).filter(|i| m.v[*i] != *fill).map(|i| i as u64).collect();
    let vals = M::new(m.dt.clone(), idx.iter().map(|i| m.v[*i as usize].clone()).collect());
    Ok(SparseArray::try_new(PrimitiveArray::from(idx).into_array(), canon(&vals), m.len(), v_to_sv(fill, &m.dt))?.into_array())
}
fn e_sparse_null(m: &M) -> VortexResult<Array> {
    if !m.nullable() { return Err(na("not nullable")); }
    sparse_with(m, &V::Null)
}
fn e_sparse_fill(m: &M) -> VortexResult<Array> {
    let fill = m.v.iter().find(|v| **v != V::Null).cloned().unwrap_or(if m.nullable() { return Err(na("all null")) } else { default_v(&m.dt) });
    sparse_with(m, &fill)
}
fn e_alp(m: &M) -> VortexResult<Array> { Ok(alp_encode(&canon_primitive(m, Junk::Zero, false))?.into_array()) }
fn e_alp_junk(m: &M) -> VortexResult<Array> { Ok(alp_encode(&canon_primitive(m, Junk::Noise, true))?.into_array()) }
fn e_alprd(m: &M) -> VortexResult<Array> {
    let p = canon_primitive(m, Junk::Zero, false);
    if m.len() == 0 { return Err(na("empty")); }
    Ok(match ptype(m) {
        PType::F32 => RDEncoder::new(p.maybe_null_slice::<f32>()).encode(&p),
        _ => RDEncoder::new(p.maybe_null_slice::<f64>()).encode(&p),
    }.into_array())
}
fn e_bool_junk(m: &M) -> VortexResult<Array> { Ok(canon_bool(m, true).into_array()) }
fn e_bytebool(m: &M) -> VortexResult<Array> {
    let b = canon_bool(m, false);
    Ok(ByteBoolArray::try_from_vec(b.boolean_buffer().iter().collect(), b.validity())?.into_array())
}
fn e_runend_bool(m: &M) -> VortexResult<Array> {
    let b = canon_bool(m, true);
    if m.len() == 0 { return Err(na("empty")); }
    let (ends, start) = runend_bool_encode(&b);
    Ok(RunEndBoolArray::try_new(ends.into_array(), start, b.validity())?.into_array())
}
fn e_roaring_bool(m: &M) -> VortexResult<Array> {
    Ok(roaring_bool_encode(canon_bool(m, false))?.into_array())
}
fn e_dict_bool(m: &M) -> VortexResult<Array> {
    // codes into the two (or three) possible values; null first, as the encoders lay it out
    let mut vals: Vec<V> = if m.nullable() { vec![V::Null] } else { vec![] };
    let mut codes: Vec<u8> = vec![];
    for v in &m.v {
        let k = vals.iter().position(|x| x == v).unwrap_or_else(|| { vals.push(v.clone()); vals.len() - 1 });
        codes.push(k as u8);
    }
    if vals.is_empty() { vals.push(V::B(false)); }
    Ok(DictArray::try_new(PrimitiveArray::from(codes).into_array(), canon(&M::new(m.dt.clone(), vals)))?.into_array())
}
fn e_view(m: &M) -> VortexResult<Array> { Ok(canon_view(m).into_array()) }
fn e_varbin64(m: &M) -> VortexResult<Array> {
    let mut offs = vec![3i64];
    let mut bytes = vec![9u8, 9, 9];
    for v in &m.v {
        if let V::S(s) = v { bytes.extend_from_slice(s) }
        offs.push(bytes.len() as i64);
    }
    bytes.push(7);
    Ok(VarBinArray::try_new(PrimitiveArray::from(offs).into_array(), PrimitiveArray::from(bytes).into_array(), m.dt.clone(), validity_of(m, true))?.into_array())
}
/// Offsets of the narrowest types: what is selected may have more bytes than they can count.
fn e_varbin8(m: &M) -> VortexResult<Array> {
    let mut offs = vec![0u8];
    let mut bytes = vec![];
    for v in &m.v {
        if let V::S(s) = v { bytes.extend_from_slice(s) }
        offs.push(u8::try_from(bytes.len()).map_err(|_| vortex_error::vortex_err!("n/a: too many bytes"))?);
    }
    Ok(VarBinArray::try_new(PrimitiveArray::from(offs).into_array(), PrimitiveArray::from(bytes).into_array(), m.dt.clone(), validity_of(m, true))?.into_array())
}
fn e_dict_str(m: &M) -> VortexResult<Array> {
    let (c, v) = dict_encode_varbin(&canon_varbin(m));
    Ok(DictArray::try_new(c.into_array(), v.into_array())?.into_array())
}
fn e_dict_view(m: &M) -> VortexResult<Array> {
    let (c, v) = dict_encode_varbinview(&canon_view(m));
    Ok(DictArray::try_new(c.into_array(), v.into_array())?.into_array())
}
fn e_fsst(m: &M) -> VortexResult<Array> {
    let a = canon_varbin(m).into_array();
    let c = fsst_train_compressor(&a)?;
    Ok(fsst_compress(&a, &c)?.into_array())
}
fn e_fsst_view(m: &M) -> VortexResult<Array> {
    let a = canon_view(m).into_array();
    let c = fsst_train_compressor(&a)?;
    Ok(fsst_compress(&a, &c)?.into_array())
}
fn temporal(m: &M) -> VortexResult<TemporalArray> { TemporalArray::try_from(canon(m)) }
fn e_dtparts(m: &M) -> VortexResult<Array> {
    let t = temporal(m)?;
    let TemporalParts { days, seconds, subseconds } = split_temporal(t)?;
    Ok(DateTimePartsArray::try_new(m.dt.clone(), days, seconds, subseconds)?.into_array())
}
fn e_ext_for(m: &M) -> VortexResult<Array> {
    let DType::Extension(e, _) = &m.dt else { panic!() };
    Ok(ExtensionArray::new(e.clone(), e_for(&storage_model(m))?).into_array())
}
fn e_auto(m: &M) -> VortexResult<Array> { CompressionStrategy::compress(&SamplingCompressor::default(), &canon(m)) }
fn e_auto_view(m: &M) -> VortexResult<Array> { CompressionStrategy::compress(&SamplingCompressor::default(), &canon_view(m).into_array()) }
fn e_struct_auto(m: &M) -> VortexResult<Array> {
    let DType::Struct(st, _) = &m.dt else { panic!() };
    let fields = (0..st.names().len()).map(|k| {
        let f = field_model(m, k);
        let es = encoders(&f.dt);
        // a different encoding per field, the last that accepts the data
        let pick = es.iter().cycle().skip(k + 1).take(es.len()).find_map(|(_, e)| match run(|| e(&f)) { Out::Ok(a) => Some(a), _ => None });
        Ok(pick.unwrap())
    }).collect::<VortexResult<Vec<_>>>()?;
    Ok(StructArray::try_new(st.names().clone(), fields, m.len(), validity_of(m, true))?.into_array())
}

/// All encoders that apply to a type. The first is the plain form.
pub fn encoders(dt: &DType) -> Vec<(&'static str, EncFn)> {
    let mut v: Vec<(&'static str, EncFn)> = vec![("plain", e_plain)];
    match dt {
        DType::Primitive(p, _) => {
            v.push(("primitive-junk", e_prim_junk));
            if p.is_unsigned_int() {
                v.push(("bitpacked-exact", e_bp_exact));
                v.push(("bitpacked-patched", e_bp_patched));
                v.push(("bitpacked-noise", e_bp_noise));
                v.push(("delta", e_delta));
                v.push(("roaring-int", e_roaring_int));
            }
            if p.is_signed_int() {
                v.push(("zigzag", e_zigzag));
                v.push(("zigzag+bitpacked", e_zigzag_bp));
            }
            if p.is_int() {
                v.push(("for", e_for));
                v.push(("for-junk", e_for_junk));
                v.push(("for+bitpacked", e_for_bp));
                v.push(("for+bitpacked-patched", e_for_bp_patched));
            }
            if matches!(p, PType::F32 | PType::F64) {
                v.push(("alp", e_alp));
                v.push(("alp-junk", e_alp_junk));
                v.push(("alp-rd", e_alprd));
            }
            v.push(("dict", e_dict));
            v.push(("dict+bitpacked", e_dict_bp));
            v.push(("runend", e_runend));
            v.push(("runend+bitpacked", e_runend_bp));
        }
        DType::Bool(_) => {
            v.push(("bool-junk", e_bool_junk));
            v.push(("bytebool", e_bytebool));
            v.push(("runend-bool", e_runend_bool));
            v.push(("roaring-bool", e_roaring_bool));
        }
        DType::Utf8(_) | DType::Binary(_) => {
            v.push(("varbinview", e_view));
            v.push(("varbin-i64", e_varbin64));
            v.push(("varbin-u8", e_varbin8));
            v.push(("dict-varbin", e_dict_str));
            v.push(("dict-view", e_dict_view));
            v.push(("fsst", e_fsst));
            v.push(("fsst-view", e_fsst_view));
        }
        DType::Extension(e, _) => {
            if e.id().as_ref() == "vortex.timestamp" { v.push(("datetimeparts", e_dtparts)); }
            v.push(("ext+for", e_ext_for));
        }
        DType::Struct(..) => { v.push(("struct-mixed", e_struct_auto)); }
        _ => {}
    }
    if !matches!(dt, DType::Struct(..) | DType::Null) {
        v.push(("constant", e_constant));
        // sparse arrays of other types have no canonical form
        if matches!(dt, DType::Bool(_) | DType::Primitive(..)) {
            v.push(("sparse-null", e_sparse_null));
            v.push(("sparse-fill", e_sparse_fill));
        }
    }
    v
}

pub fn auto_encoders(dt: &DType) -> Vec<(&'static str, EncFn)> {
    let mut v: Vec<(&'static str, EncFn)> = vec![("auto", e_auto)];
    if matches!(dt, DType::Utf8(_) | DType::Binary(_)) { v.push(("auto-view", e_auto_view)); }
    v
}

pub const DELTA_PRIM: EncFn = e_delta_prim;

/// May this encoder refuse this input? (restricted domains named by the encoder itself)
pub fn may_reject(name: &str, m: &M) -> bool {
    match name {
        "constant" | "sparse-null" | "sparse-fill" => true,
        "for+bitpacked" | "for+bitpacked-patched" | "for" | "for-junk" | "ext+for" => m.len() == m.nulls(),
        "bitpacked-exact" | "bitpacked-patched" | "bitpacked-noise" | "zigzag+bitpacked" | "dict+bitpacked" | "runend+bitpacked" | "runend-bool" | "alp-rd" => m.len() == 0,
        "roaring-int" => m.nullable() || !m.v.windows(2).all(|w| w[0] < w[1]) || !matches!(ptype(m), PType::U8 | PType::U16 | PType::U32 | PType::U64) || m.v.iter().any(|v| matches!(v, V::I(x) if *x > u32::MAX as i128)),
        "roaring-bool" => m.nullable(),
        _ => false,
    }
}

pub struct Enc { pub name: String, pub arr: Array }

/// Encoded, then wrapped: as is; as a slice of a longer encoded array; as chunks of encoded pieces.
pub fn build(m: &M, wrap: bool, auto: bool) -> Vec<Enc> {
    let mut out = vec![];
    let mut list = encoders(&m.dt);
    if auto { list.extend(auto_encoders(&m.dt)); }
    for (name, f) in list {
        if let Out::Ok(arr) = run(|| f(m)) {
            // an encoder that changes the data is P01..P06's finding, not this property's
            if faithful(&arr, m) { out.push(Enc { name: name.to_string(), arr }); }
        }
        if !wrap { continue; }
        if let Some((pm, pre)) = padded(m, name) {
            if let Out::Ok(arr) = run(|| slice(f(&pm)?, pre, pre + m.len())) {
                if faithful(&arr, m) { out.push(Enc { name: format!("slice({name})"), arr }); }
            }
        }
        if m.len() >= 2 || m.len() == 0 {
            if let Out::Ok(arr) = run(|| chunked(m, f, name)) {
                if faithful(&arr, m) { out.push(Enc { name: format!("chunked({name})"), arr }); }
            }
        }
    }
    out
}

fn faithful(a: &Array, m: &M) -> bool {
    matches!(run(|| decode(a)), Out::Ok(d) if d.dt == m.dt && d.v == m.v)
}

/// A longer model containing `m` at offset `pre`, staying inside the encoder's domain.
pub fn padded(m: &M, enc: &str) -> Option<(M, usize)> {
    let pre = if m.len() > 500 { 1021 } else { 3 };
    let post = 5;
    let first = m.v.first().cloned().unwrap_or(default_v(&m.dt));
    let last = m.v.last().cloned().unwrap_or(default_v(&m.dt));
    let mut v = vec![];
    if enc == "roaring-int" {
        let (V::I(a), V::I(b)) = (first, last) else { return None };
        if a < 3 || b > 200 && m.len() < 500 { return None; }
        v.extend((0..3).map(|i| V::I(a - 3 + i)));
        v.extend(m.v.iter().cloned());
        v.push(V::I(b + 1));
        return Some((M::new(m.dt.clone(), v), 3));
    }
    let keep = enc == "constant" || crate::gen::is_sorted(m);
    for i in 0..pre { v.push(if keep || m.len() < 3 { first.clone() } else { m.v[(i * 7 + 2) % m.len()].clone() }); }
    v.extend(m.v.iter().cloned());
    for i in 0..post { v.push(if keep || m.len() < 3 { last.clone() } else { m.v[(i * 5 + 1) % m.len()].clone() }); }
    Some((M::new(m.dt.clone(), v), pre))
}

pub fn chunked(m: &M, f: EncFn, name: &str) -> VortexResult<Array> {
    let n = m.len();
    let cuts: Vec<usize> = if n == 0 { vec![] } else if n == 2 { vec![0, 1, 2] } else { vec![0, 0, n / 3, n / 3, n - 1, n, n] };
    let mut chunks = vec![];
    for w in cuts.windows(2) {
        let part = m.slice(w[0], w[1]);
        let c = if w[0] == w[1] { canon(&part) } else { f(&part)? };
        chunks.push(c);
    }
    let _ = name;
    Ok(ChunkedArray::try_new(chunks, m.dt.clone())?.into_array())
}

pub fn _unused() -> (Option<BitPackedArray>, Option<Scalar>, Option<ScalarValue>, Option<Validity>, Option<Nullability>) { (None, None, None, None, None) }
pub fn nbytes(a: &Array) -> usize { let _ = a.with_dyn(|x| x.logical_validity().len()); a.dtype(); a.nbytes() }
