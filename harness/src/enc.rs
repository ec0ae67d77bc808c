//! Encoders: from a column of logical values to an array in a named encoding, children nested at random.
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::*;
use vortex::compute::{slice, take};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_datetime_dtype::TimeUnit;
use vortex_dtype::{DType, NativePType, PType};
use vortex_error::{vortex_bail, VortexResult};
use vortex_scalar::{Scalar, ScalarValue};

use crate::val::*;

#[macro_export]
macro_rules! match_p {
    ($p:expr, |$T:ident| $b:expr) => {
        match $p {
            PType::U8 => { type $T = u8; $b }
            PType::U16 => { type $T = u16; $b }
            PType::U32 => { type $T = u32; $b }
            PType::U64 => { type $T = u64; $b }
            PType::I8 => { type $T = i8; $b }
            PType::I16 => { type $T = i16; $b }
            PType::I32 => { type $T = i32; $b }
            PType::I64 => { type $T = i64; $b }
            PType::F16 => { type $T = half::f16; $b }
            PType::F32 => { type $T = f32; $b }
            PType::F64 => { type $T = f64; $b }
        }
    };
}
#[macro_export]
macro_rules! match_f {
    ($p:expr, |$T:ident| $b:expr) => {
        match $p {
            PType::F32 => { type $T = f32; $b }
            PType::F64 => { type $T = f64; $b }
            _ => unreachable!(),
        }
    };
}

/// native value of V
pub fn native<T: NativePType>(v: &V) -> T {
    let bits: u64 = match v {
        V::I(i) => *i as i64 as u64,
        V::F(b, _) => *b,
        V::Bool(b) => *b as u64,
        _ => unreachable!(),
    };
    let le = bits.to_le_bytes();
    let mut out = std::mem::MaybeUninit::<T>::zeroed();
    unsafe {
        std::ptr::copy_nonoverlapping(le.as_ptr(), out.as_mut_ptr() as *mut u8, std::mem::size_of::<T>());
        out.assume_init()
    }
}

pub fn pick<'a, T: ?Sized>(rng: &mut StdRng, xs: &[&'a T]) -> &'a T {
    xs[rng.gen_range(0..xs.len())]
}

/// A non-null bool array of these bits, in a random encoding.
pub fn bool_array(rng: &mut StdRng, bits: &[bool], exotic: f64) -> Array {
    let n = bits.len();
    if rng.gen_bool(exotic) {
        match rng.gen_range(0..5) {
            0 => return vortex_bytebool::ByteBoolArray::try_from_vec(bits.to_vec(), Validity::NonNullable).unwrap().into_array(),
            1 => {
                if let Ok(a) = vortex_roaring::RoaringBoolArray::encode(BoolArray::from(bits.to_vec()).into_array()) {
                    return a;
                }
            }
            2 if n > 0 => {
                let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(&BoolArray::from(bits.to_vec()));
                return vortex_runend_bool::RunEndBoolArray::try_new(ends.into_array(), start, Validity::NonNullable)
                    .unwrap()
                    .into_array();
            }
            3 if bits.iter().all(|b| *b) || bits.iter().all(|b| !*b) => {
                if n > 0 {
                    return ConstantArray::new(bits[0], n).into_array();
                }
            }
            _ => {
                let k = rng.gen_range(0..=n);
                return ChunkedArray::try_new(
                    vec![
                        BoolArray::from(bits[..k].to_vec()).into_array(),
                        BoolArray::from(bits[k..].to_vec()).into_array(),
                    ],
                    Validity::DTYPE,
                )
                .unwrap()
                .into_array();
            }
        }
    }
    // plain, half of the time at a bit offset
    let off = if rng.gen_bool(0.5) { rng.gen_range(1..20) } else { 0 };
    if off == 0 {
        BoolArray::from(bits.to_vec()).into_array()
    } else {
        let mut v: Vec<bool> = (0..off).map(|_| rng.gen()).collect();
        v.extend_from_slice(bits);
        let tail = rng.gen_range(0..9);
        v.extend((0..tail).map(|_| rng.gen::<bool>()));
        slice(BoolArray::from(v).into_array(), off, off + n).unwrap()
    }
}

/// How adventurous the nullable parts may be.
#[derive(Clone, Copy)]
pub struct EncOpt {
    /// probability that a validity child is in an unusual encoding
    pub exotic_validity: f64,
    pub depth: u32,
    /// nothing but zeros under nulls
    pub tame: bool,
}

pub fn mk_validity(rng: &mut StdRng, c: &Col, o: EncOpt) -> Validity {
    if !c.nullable {
        return Validity::NonNullable;
    }
    let bits: Vec<bool> = c.vals.iter().map(|v| v.is_some()).collect();
    if bits.iter().all(|b| *b) && rng.gen_bool(0.5) {
        return Validity::AllValid;
    }
    if bits.iter().all(|b| !*b) && rng.gen_bool(0.5) {
        return Validity::AllInvalid;
    }
    Validity::Array(bool_array(rng, &bits, o.exotic_validity))
}

/// Replace nulls by arbitrary (garbage) values.
fn fill_garbage(rng: &mut StdRng, c: &Col, o: EncOpt) -> Vec<V> {
    let pool: Vec<&V> = c.vals.iter().flatten().collect();
    let zero = match &c.kind {
        Kind::Bool => V::Bool(false),
        Kind::Prim(p) if p.is_int() => V::I(0),
        Kind::Prim(p) => float_v(*p, 0.0),
        Kind::Temporal(..) => V::I(0),
        _ => V::Bytes(vec![]),
    };
    let mode = if o.tame { 0 } else { rng.gen_range(0..3) };
    c.vals
        .iter()
        .map(|v| match v {
            Some(v) => v.clone(),
            None => match (mode, &c.kind) {
                (0, _) => zero.clone(),
                (1, Kind::Prim(p)) if p.is_int() => {
                    let (lo, hi) = int_range(*p);
                    V::I(rng.gen_range(lo..=hi))
                }
                (_, Kind::Bool) => V::Bool(rng.gen()),
                _ => {
                    if pool.is_empty() {
                        match &c.kind {
                            Kind::Prim(p) if p.is_int() => V::I(rng.gen_range(1..100)),
                            Kind::Prim(p) => float_v(*p, rng.gen_range(1..100) as f64),
                            Kind::Temporal(..) => V::I(rng.gen_range(1..100)),
                            _ => zero.clone(),
                        }
                    } else {
                        (*pool.choose(rng).unwrap()).clone()
                    }
                }
            },
        })
        .collect()
}

fn prim_array(rng: &mut StdRng, p: PType, c: &Col, o: EncOpt) -> PrimitiveArray {
    let vals = fill_garbage(rng, c, o);
    let validity = mk_validity(rng, c, o);
    match_p!(p, |T| PrimitiveArray::from_vec(
        vals.iter().map(native::<T>).collect::<Vec<T>>(),
        validity
    ))
}

pub fn unit(u: u8) -> TimeUnit {
    match u {
        0 => TimeUnit::Ns,
        1 => TimeUnit::Us,
        2 => TimeUnit::Ms,
        3 => TimeUnit::S,
        _ => TimeUnit::D,
    }
}
fn temporal(id: &str, u: u8, storage: Array) -> TemporalArray {
    match id {
        "date" => TemporalArray::new_date(storage, unit(u)),
        "time" => TemporalArray::new_time(storage, unit(u)),
        "tz" => TemporalArray::new_timestamp(storage, unit(u), Some("Europe/London".to_string())),
        _ => TemporalArray::new_timestamp(storage, unit(u), None),
    }
}

/// The canonical-ish plain array.
pub fn plain(rng: &mut StdRng, c: &Col, o: EncOpt) -> VortexResult<Array> {
    Ok(match &c.kind {
        Kind::Null => NullArray::new(c.len()).into_array(),
        Kind::Bool => {
            let vals: Vec<bool> = fill_garbage(rng, c, o).iter().map(|v| *v == V::Bool(true)).collect();
            let off = if rng.gen_bool(0.4) { rng.gen_range(1..70) } else { 0 };
            let validity = mk_validity(rng, c, o);
            let mut all: Vec<bool> = (0..off).map(|_| rng.gen()).collect();
            all.extend(vals);
            let b = arrow_buffer::BooleanBuffer::from(all).slice(off, c.len());
            BoolArray::try_new(b, validity)?.into_array()
        }
        Kind::Prim(p) => prim_array(rng, *p, c, o).into_array(),
        Kind::Utf8 | Kind::Binary => {
            let dt = DType::clone(&str_dtype(c));
            VarBinViewArray::from_iter(bytes_iter(c), dt).into_array()
        }
        Kind::Temporal(id, u) => {
            let st = prim_array(rng, temporal_ptype(&c.kind), c, o).into_array();
            Array::from(temporal(id, *u, st))
        }
        Kind::Struct(fs) => {
            let validity = mk_validity(rng, c, o);
            let cols = struct_cols(rng, c, fs);
            let mut children = vec![];
            for f in &cols {
                children.push(plain(rng, f, o)?);
            }
            StructArray::try_new(names(fs), children, c.len(), validity)?.into_array()
        }
    })
}
pub fn names(fs: &[(String, Kind, bool)]) -> vortex_dtype::FieldNames {
    fs.iter().map(|f| f.0.as_str().into()).collect::<Vec<std::sync::Arc<str>>>().into()
}
pub fn struct_cols(rng: &mut StdRng, c: &Col, fs: &[(String, Kind, bool)]) -> Vec<Col> {
    fs.iter()
        .enumerate()
        .map(|(i, (_, k, n))| {
            // values under null rows are arbitrary
            let pool: Vec<Option<V>> = c
                .vals
                .iter()
                .filter_map(|v| match v {
                    Some(V::Struct(f)) => Some(f[i].clone()),
                    _ => None,
                })
                .collect();
            let vals = c
                .vals
                .iter()
                .map(|v| match v {
                    Some(V::Struct(f)) => f[i].clone(),
                    _ => pool
                        .choose(rng)
                        .cloned()
                        .unwrap_or_else(|| if *n { None } else { Some(zero_of(k)) }),
                })
                .collect();
            Col { kind: k.clone(), nullable: *n, vals }
        })
        .collect()
}
pub fn zero_of(k: &Kind) -> V {
    match k {
        Kind::Bool => V::Bool(false),
        Kind::Prim(p) if p.is_int() => V::I(0),
        Kind::Prim(p) => float_v(*p, 0.0),
        Kind::Temporal(..) => V::I(0),
        Kind::Struct(fs) => V::Struct(fs.iter().map(|f| if f.2 { None } else { Some(zero_of(&f.1)) }).collect()),
        _ => V::Bytes(vec![]),
    }
}

pub fn str_dtype(c: &Col) -> DType {
    match c.kind {
        Kind::Utf8 => DType::Utf8(c.nullability()),
        _ => DType::Binary(c.nullability()),
    }
}
pub fn dtype(c: &Col) -> DType {
    kind_dtype(&c.kind, c.nullable)
}
pub fn kind_dtype(k: &Kind, nullable: bool) -> DType {
    let n = if nullable { vortex_dtype::Nullability::Nullable } else { vortex_dtype::Nullability::NonNullable };
    match k {
        Kind::Null => DType::Null,
        Kind::Bool => DType::Bool(n),
        Kind::Prim(p) => DType::Primitive(*p, n),
        Kind::Utf8 => DType::Utf8(n),
        Kind::Binary => DType::Binary(n),
        Kind::Temporal(id, u) => {
            let st = match_p!(temporal_ptype(k), |T| PrimitiveArray::from_vec(
                Vec::<T>::new(),
                if nullable { Validity::AllValid } else { Validity::NonNullable }
            ))
            .into_array();
            Array::from(temporal(id, *u, st)).dtype().clone()
        }
        Kind::Struct(fs) => DType::Struct(
            vortex_dtype::StructDType::new(names(fs), fs.iter().map(|f| kind_dtype(&f.1, f.2)).collect()),
            n,
        ),
    }
}
fn bytes_iter(c: &Col) -> impl Iterator<Item = Option<Vec<u8>>> + '_ {
    c.vals.iter().map(|v| match v {
        Some(V::Bytes(b)) => Some(b.clone()),
        _ => None,
    })
}
fn varbin(rng: &mut StdRng, c: &Col, o: EncOpt) -> VortexResult<VarBinArray> {
    let dt = str_dtype(c);
    if rng.gen_bool(0.3) {
        return Ok(VarBinArray::from_iter(bytes_iter(c), dt));
    }
    // garbage bytes under nulls, other offset types, first offset not zero
    let first: usize = if rng.gen_bool(0.4) { rng.gen_range(1..9) } else { 0 };
    let mut bytes: Vec<u8> = vec![b'z'; first];
    let mut offs = vec![first];
    for v in &c.vals {
        match v {
            Some(V::Bytes(b)) => bytes.extend_from_slice(b),
            _ => {
                if rng.gen_bool(0.5) {
                    bytes.extend_from_slice(b"junk");
                }
            }
        }
        offs.push(bytes.len());
    }
    bytes.extend_from_slice(b"tail");
    let validity = mk_validity(rng, c, o);
    let offsets = match rng.gen_range(0..4) {
        0 => PrimitiveArray::from(offs.iter().map(|x| *x as u32).collect::<Vec<_>>()),
        1 => PrimitiveArray::from(offs.iter().map(|x| *x as u64).collect::<Vec<_>>()),
        2 => PrimitiveArray::from(offs.iter().map(|x| *x as i32).collect::<Vec<_>>()),
        _ => PrimitiveArray::from(offs.iter().map(|x| *x as i64).collect::<Vec<_>>()),
    };
    VarBinArray::try_new(offsets.into_array(), PrimitiveArray::from(bytes).into_array(), dt, validity)
}

/// All encodings applicable to a column (by type, nullability and values).
pub fn encs_for(c: &Col) -> Vec<&'static str> {
    let n = c.len();
    let mut out = vec!["plain", "chunked"];
    let constant = n > 0 && c.vals.iter().all(|v| v == &c.vals[0]);
    if constant && !matches!(c.kind, Kind::Struct(_) | Kind::Temporal(..) | Kind::Null) {
        out.push("constant");
    }
    match &c.kind {
        Kind::Null => {}
        Kind::Bool => {
            out.extend(["bytebool", "sparse"]);
            if !c.nullable {
                out.push("roaringbool");
            }
            if n > 0 {
                out.push("runendbool");
            }
        }
        Kind::Prim(p) if p.is_int() => {
            out.extend(["dict", "sparse", "runend"]);
            // frame-of-reference and bit-packing need a value to choose the reference and width from
            let some = c.vals.iter().any(|v| v.is_some());
            if some {
                out.extend(["for", "forbp"]);
            }
            if p.is_unsigned_int() {
                if some {
                    out.extend(["bitpacked", "bitpackedw"]);
                }
                out.push("delta");
            } else {
                out.push("zigzag");
            }
            if p.is_unsigned_int()
                && !c.nullable
                && c.vals.windows(2).all(|w| w[0] < w[1])
                && c.vals.iter().all(|v| matches!(v, Some(V::I(i)) if *i <= u32::MAX as i128))
            {
                out.push("roaringint");
            }
        }
        Kind::Prim(p) => {
            out.extend(["dict", "sparse", "runend"]);
            if *p != PType::F16 {
                out.push("alp");
                if n > 0 {
                    out.push("alprd");
                }
            }
        }
        Kind::Utf8 | Kind::Binary => {
            out.extend(["varbin", "dictview", "dictbin", "fsst"]);
        }
        Kind::Temporal(id, u) => {
            if *u != 4 && matches!(*id, "timestamp" | "tz") {
                out.push("dtparts");
            }
            out.push("extenc");
        }
        Kind::Struct(_) => out.push("structenc"),
    }
    out
}

/// Re-encode a (child) array in a random encoding, keeping dtype.
pub fn reenc(rng: &mut StdRng, a: Array, kind: Kind, o: EncOpt) -> VortexResult<Array> {
    if o.depth == 0 || rng.gen_bool(0.35) {
        return Ok(a);
    }
    let c = Col { kind, nullable: a.dtype().is_nullable(), vals: decode(&a)? };
    let o = EncOpt { depth: o.depth - 1, ..o };
    let e = *encs_for(&c).choose(rng).unwrap();
    encode(rng, e, &c, o)
}
fn prim_kind(a: &Array) -> Kind {
    Kind::Prim(PType::try_from(a.dtype()).expect("primitive child"))
}
pub fn reenc_prim(rng: &mut StdRng, a: Array, o: EncOpt) -> VortexResult<Array> {
    let k = prim_kind(&a);
    reenc(rng, a, k, o)
}
fn sparse_positions(rng: &mut StdRng, c: &Col) -> (Option<V>, Vec<usize>) {
    // choose the fill
    let fill: Option<V> = if c.nullable && (c.has_null() || rng.gen_bool(0.3)) && rng.gen_bool(0.7) {
        None
    } else {
        let pool: Vec<&V> = c.vals.iter().flatten().collect();
        match pool.choose(rng) {
            Some(v) => Some((*v).clone()),
            None if c.nullable => None,
            None => Some(zero_of(&c.kind)),
        }
    };
    let extra = rng.gen_bool(0.2);
    let idx = (0..c.len())
        .filter(|i| c.vals[*i] != fill || (extra && rng.gen_bool(0.1)))
        .collect();
    (fill, idx)
}
fn v_to_sv(k: &Kind, v: &Option<V>) -> ScalarValue {
    match v {
        None => ScalarValue::Null,
        Some(v) => match (k, v) {
            (Kind::Bool, V::Bool(b)) => ScalarValue::Bool(*b),
            (Kind::Prim(p), v) => prim_scalar(*p, v, vortex_dtype::Nullability::NonNullable).value().clone(),
            _ => unreachable!(),
        },
    }
}

pub fn encode(rng: &mut StdRng, name: &str, c: &Col, o: EncOpt) -> VortexResult<Array> {
    let n = c.len();
    let ptype = match &c.kind {
        Kind::Prim(p) => *p,
        _ => PType::U8,
    };
    Ok(match name {
        "plain" => plain(rng, c, o)?,
        "constant" => ConstantArray::new(v_to_scalar(&c.kind, c.nullable, &c.vals[0], &dtype(c)), n).into_array(),
        "chunked" => {
            let k = rng.gen_range(1..6);
            let mut cuts: Vec<usize> = (0..k).map(|_| rng.gen_range(0..=n)).collect();
            if rng.gen_bool(0.3) {
                // unaligned small chunks
                cuts.extend((0..n.min(4)).map(|i| i + 1));
            }
            cuts.push(0);
            cuts.push(n);
            cuts.sort();
            if rng.gen_bool(0.5) {
                cuts.dedup();
                if cuts.len() == 1 {
                    cuts.push(n);
                }
            }
            let mut chunks = vec![];
            for w in cuts.windows(2) {
                let part = c.sub(w[0], w[1]);
                let mut es = encs_for(&part);
                es.retain(|e| *e != "chunked");
                let e = if o.depth == 0 { "plain" } else { *es.choose(rng).unwrap() };
                chunks.push(encode(rng, e, &part, EncOpt { depth: o.depth.saturating_sub(1), ..o })?);
            }
            ChunkedArray::try_new(chunks, dtype(c))?.into_array()
        }
        "bytebool" => {
            let vals: Vec<bool> = fill_garbage(rng, c, o).iter().map(|v| *v == V::Bool(true)).collect();
            vortex_bytebool::ByteBoolArray::try_from_vec(vals, mk_validity(rng, c, o))?.into_array()
        }
        "roaringbool" => vortex_roaring::RoaringBoolArray::encode(BoolArray::from(bits_of(c)).into_array())?,
        "runendbool" => {
            let vals: Vec<bool> = fill_garbage(rng, c, o).iter().map(|v| *v == V::Bool(true)).collect();
            let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(&BoolArray::from(vals));
            let validity = mk_validity(rng, c, o);
            let ends = narrow_ends(rng, ends);
            vortex_runend_bool::RunEndBoolArray::try_new(reenc_prim(rng, ends, o)?, start, validity)?.into_array()
        }
        "dictbool" => {
            let values = BoolArray::from(vec![false, true]).into_array();
            let codes: Vec<u8> = bits_of(c).iter().map(|b| *b as u8).collect();
            vortex_dict::DictArray::try_new(reenc_prim(rng, PrimitiveArray::from(codes).into_array(), o)?, values)?
                .into_array()
        }
        "sparse" => {
            let (fill, idx) = sparse_positions(rng, c);
            let vals = c.with(idx.iter().map(|i| c.vals[*i].clone()).collect());
            let es: Vec<&str> = encs_for(&vals).into_iter().filter(|e| *e != "sparse" && *e != "chunked").collect();
            let e = if o.depth == 0 { "plain" } else { es.choose(rng).unwrap() };
            let values = encode(rng, e, &vals, EncOpt { depth: o.depth.saturating_sub(1), ..o })?;
            let indices = PrimitiveArray::from(idx.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array();
            let indices = reenc_prim(rng, indices, o)?;
            SparseArray::try_new(indices, values, n, v_to_sv(&c.kind, &fill))?.into_array()
        }
        "dict" => {
            let p = prim_array(rng, ptype, c, EncOpt { exotic_validity: 0.0, ..o });
            let (codes, values) = vortex_dict::dict_encode_primitive(&p);
            dict(rng, codes, values.into_array(), c, o)?
        }
        "dictview" => {
            let v = VarBinViewArray::from_iter(bytes_iter(c), str_dtype(c));
            let (codes, values) = vortex_dict::dict_encode_varbinview(&v);
            dict(rng, codes, values.into_array(), c, o)?
        }
        "dictbin" => {
            let v = varbin(rng, c, EncOpt { exotic_validity: 0.0, ..o })?;
            let (codes, values) = vortex_dict::dict_encode_varbin(&v);
            dict(rng, codes, values.into_array(), c, o)?
        }
        "runend" => {
            let p = prim_array(rng, ptype, c, o);
            let r = vortex_runend::RunEndArray::encode(p.into_array())?;
            if o.depth > 0 && n > 0 && rng.gen_bool(0.5) {
                let ends = reenc_prim(rng, r.ends(), o)?;
                let values = reenc_prim(rng, r.values(), o)?;
                vortex_runend::RunEndArray::try_new(ends, values, r.validity())?.into_array()
            } else {
                r.into_array()
            }
        }
        "for" => {
            let p = prim_array(rng, ptype, c, o);
            for_nested(rng, vortex_fastlanes::for_compress(&p)?, false, o)?
        }
        "forbp" => {
            let p = prim_array(rng, ptype, c, o);
            for_nested(rng, vortex_fastlanes::for_compress(&p)?, true, o)?
        }
        "bitpacked" => {
            let p = prim_array(rng, ptype, c, o);
            let w = vortex_fastlanes::find_best_bit_width(&p)?;
            if w as usize >= ptype.bit_width() {
                vortex_fastlanes::bitpack_encode(p, ptype.bit_width() as u8 - 1)?.into_array()
            } else {
                vortex_fastlanes::bitpack_encode(p, w)?.into_array()
            }
        }
        "bitpackedw" => {
            let p = prim_array(rng, ptype, c, o);
            let w = rng.gen_range(0..ptype.bit_width() as u8);
            vortex_fastlanes::BitPackedArray::encode(p.as_ref(), w)?.into_array()
        }
        "zigzag" => {
            let p = prim_array(rng, ptype, c, o);
            let z = vortex_zigzag::zigzag_encode(p)?;
            vortex_zigzag::ZigZagArray::try_new(reenc_prim(rng, z.encoded(), o)?)?.into_array()
        }
        "delta" => {
            let p = prim_array(rng, ptype, c, o);
            let validity = p.validity();
            let (b, d) = vortex_fastlanes::delta_compress(&p)?;
            let (b, d) = (b.into_array(), d.into_array());
            let (b, d) = if o.depth > 0 {
                (reenc_prim(rng, b, o)?, reenc_prim(rng, d, o)?)
            } else {
                (b, d)
            };
            if c.nullable && b.dtype().is_nullable() == false {
                vortex_bail!("delta drops nullability");
            }
            vortex_fastlanes::DeltaArray::try_from_delta_compress_parts(b, d, validity)?.into_array()
        }
        "roaringint" => {
            let p = prim_array(rng, ptype, c, o);
            vortex_roaring::RoaringIntArray::encode(p.into_array())?
        }
        "alp" => {
            let p = prim_array(rng, ptype, c, o);
            let a = vortex_alp::ALPArray::encode(p.into_array())?;
            if o.depth > 0 {
                let al = vortex_alp::ALPArray::try_from(a)?;
                let e = al.encoded();
                vortex_alp::ALPArray::try_new(reenc_prim(rng, e, o)?, al.exponents(), al.patches())?.into_array()
            } else {
                a
            }
        }
        "alprd" => {
            let p = prim_array(rng, ptype, c, o);
            let r = match_f!(ptype, |T| vortex_alp::RDEncoder::new(p.maybe_null_slice::<T>()).encode(&p));
            r.into_array()
        }
        "varbin" => varbin(rng, c, o)?.into_array(),
        "fsst" => {
            let v = if rng.gen_bool(0.5) {
                varbin(rng, c, EncOpt { exotic_validity: 0.0, ..o })?.into_array()
            } else {
                VarBinViewArray::from_iter(bytes_iter(c), str_dtype(c)).into_array()
            };
            let comp = vortex_fsst::fsst_train_compressor(&v)?;
            let f = vortex_fsst::fsst_compress(&v, &comp)?;
            if o.depth > 0 {
                let lens = reenc_prim(rng, f.uncompressed_lengths(), o)?;
                vortex_fsst::FSSTArray::try_new(
                    f.dtype().clone(),
                    f.symbols(),
                    f.symbol_lengths(),
                    f.codes(),
                    lens,
                )?
                .into_array()
            } else {
                f.into_array()
            }
        }
        "dtparts" => {
            let a = plain(rng, c, o)?;
            let t = TemporalArray::try_from(a.clone())?;
            // the parts of a null row are added up before the row is known to be null
            let o = EncOpt { tame: true, ..o };
            let parts = vortex_datetime_parts::split_temporal(t)?;
            let days = reenc_prim(rng, parts.days, o)?;
            let secs = reenc_prim(rng, parts.seconds, o)?;
            let sub = reenc_prim(rng, parts.subseconds, o)?;
            vortex_datetime_parts::DateTimePartsArray::try_new(a.dtype().clone(), days, secs, sub)?.into_array()
        }
        "extenc" => {
            let a = plain(rng, c, o)?;
            let e = ExtensionArray::try_from(a)?;
            let st = reenc_prim(rng, e.storage(), EncOpt { depth: o.depth.max(1), ..o })?;
            let ext = match e.dtype() {
                DType::Extension(x, _) => x.clone(),
                _ => unreachable!(),
            };
            ExtensionArray::new(ext, st).into_array()
        }
        "structenc" => {
            let fs = match &c.kind {
                Kind::Struct(fs) => fs.clone(),
                _ => unreachable!(),
            };
            let validity = mk_validity(rng, c, o);
            let cols = struct_cols(rng, c, &fs);
            let mut children = vec![];
            for f in &cols {
                let e = *encs_for(f).choose(rng).unwrap();
                children.push(encode(rng, e, f, EncOpt { depth: o.depth.saturating_sub(1), ..o })?);
            }
            StructArray::try_new(names(&fs), children, n, validity)?.into_array()
        }
        _ => vortex_bail!("unknown encoder {name}"),
    })
}
fn bits_of(c: &Col) -> Vec<bool> {
    c.vals.iter().map(|v| *v == Some(V::Bool(true))).collect()
}
fn narrow_ends(rng: &mut StdRng, ends: PrimitiveArray) -> Array {
    let max = ends.maybe_null_slice::<u64>().last().copied().unwrap_or(0);
    let v = ends.maybe_null_slice::<u64>();
    match rng.gen_range(0..4) {
        0 if max <= u8::MAX as u64 => PrimitiveArray::from(v.iter().map(|x| *x as u8).collect::<Vec<_>>()).into_array(),
        1 if max <= u16::MAX as u64 => PrimitiveArray::from(v.iter().map(|x| *x as u16).collect::<Vec<_>>()).into_array(),
        2 => PrimitiveArray::from(v.iter().map(|x| *x as u32).collect::<Vec<_>>()).into_array(),
        _ => ends.into_array(),
    }
}
fn for_nested(rng: &mut StdRng, a: Array, bp: bool, o: EncOpt) -> VortexResult<Array> {
    let Ok(f) = vortex_fastlanes::FoRArray::try_from(a.clone()) else {
        return Ok(a);
    };
    // stored with the unsigned type
    let child = f.encoded();
    let p = child.clone().into_primitive()?;
    let child = if bp {
        // as the sampling compressor does: unsigned bit-packing below frame-of-reference
        let w = vortex_fastlanes::find_best_bit_width(&p)?;
        if (w as usize) < p.ptype().bit_width() {
            vortex_fastlanes::bitpack_encode(p, w)?.into_array()
        } else {
            child
        }
    } else {
        reenc_prim(rng, child, o)?
    };
    Ok(vortex_fastlanes::FoRArray::try_new(child, f.owned_reference_scalar(), f.shift())?.into_array())
}
fn dict(rng: &mut StdRng, codes: PrimitiveArray, values: Array, c: &Col, o: EncOpt) -> VortexResult<Array> {
    let codes = codes.into_array();
    // codes in any unsigned type that fits
    let codes = if rng.gen_bool(0.3) {
        let dt = DType::Primitive(PType::U32, vortex_dtype::Nullability::NonNullable);
        vortex::compute::unary::try_cast(&codes, &dt)?
    } else {
        codes
    };
    let codes = reenc_prim(rng, codes, o)?;
    let values = reenc(rng, values, c.kind.clone(), o)?;
    Ok(vortex_dict::DictArray::try_new(codes, values)?.into_array())
}

/// Random encoding of a column, at most `depth` levels of nested children.
pub fn any_encoding(rng: &mut StdRng, c: &Col, o: EncOpt) -> (String, VortexResult<Array>) {
    let e = *encs_for(c).choose(rng).unwrap();
    (e.to_string(), encode(rng, e, c, o))
}

pub fn canonical(a: &Array) -> VortexResult<Array> {
    Ok(Array::from(a.clone().into_canonical()?))
}
pub fn take_idx(a: &Array, idx: &[u64]) -> VortexResult<Array> {
    take(a, PrimitiveArray::from(idx.to_vec()).into_array())
}
pub fn scalar_of(c: &Col, v: &Option<V>) -> Scalar {
    v_to_scalar(&c.kind, c.nullable, v, &dtype(c))
}
