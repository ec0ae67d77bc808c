//! Logical values, independent of any Vortex encoding.
use std::cmp::Ordering;

use half::f16;
use rand::rngs::StdRng;
use rand::Rng;
use vortex::array::{BoolArray, ExtensionArray, PrimitiveArray, StructArray};
use vortex::validity::{ArrayValidity, LogicalValidity};
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, Canonical, IntoArrayVariant, IntoCanonical};
use vortex_dtype::{DType, NativePType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_scalar::{PValue, Scalar, ScalarValue};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Bool(bool),
    I(i128),
    /// IEEE bits, width in bits
    F(u64, u8),
    Bytes(Vec<u8>),
    Struct(Vec<Option<V>>),
}

fn fkey(bits: u64, w: u8) -> i128 {
    let sign = bits >> (w - 1) & 1;
    let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    if sign == 1 {
        -((bits & (mask >> 1)) as i128) - 1
    } else {
        bits as i128
    }
}

impl V {
    pub fn to_f64(&self) -> f64 {
        match self {
            V::F(b, 16) => f16::from_bits(*b as u16).to_f64(),
            V::F(b, 32) => f32::from_bits(*b as u32) as f64,
            V::F(b, _) => f64::from_bits(*b),
            V::I(i) => *i as f64,
            _ => f64::NAN,
        }
    }
}

impl PartialOrd for V {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &Self) -> Ordering {
        use V::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a.cmp(b),
            (I(a), I(b)) => a.cmp(b),
            (F(a, w), F(b, x)) => fkey(*a, *w).cmp(&fkey(*b, *x)),
            (Bytes(a), Bytes(b)) => a.cmp(b),
            (Struct(a), Struct(b)) => a.cmp(b),
            _ => rank(self).cmp(&rank(o)),
        }
    }
}
fn rank(v: &V) -> u8 {
    match v {
        V::Bool(_) => 0,
        V::I(_) => 1,
        V::F(..) => 2,
        V::Bytes(_) => 3,
        V::Struct(_) => 4,
    }
}

pub type Vals = Vec<Option<V>>;

/// Physical family of a column.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    Prim(PType),
    Utf8,
    Binary,
    /// Temporal extension: id ("date"/"time"/"timestamp"), unit index
    Temporal(&'static str, u8),
    Null,
    Struct(Vec<(String, Kind, bool)>),
}

impl Kind {
    pub fn name(&self) -> String {
        match self {
            Kind::Bool => "bool".into(),
            Kind::Prim(p) => format!("{p}"),
            Kind::Utf8 => "utf8".into(),
            Kind::Binary => "binary".into(),
            Kind::Temporal(i, u) => format!("{i}{u}"),
            Kind::Null => "null".into(),
            Kind::Struct(_) => "struct".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub kind: Kind,
    pub nullable: bool,
    pub vals: Vals,
}

impl Col {
    pub fn len(&self) -> usize {
        self.vals.len()
    }
    pub fn nullability(&self) -> Nullability {
        if self.nullable {
            Nullability::Nullable
        } else {
            Nullability::NonNullable
        }
    }
    pub fn with(&self, vals: Vals) -> Col {
        Col {
            kind: self.kind.clone(),
            nullable: self.nullable,
            vals,
        }
    }
    pub fn sub(&self, s: usize, e: usize) -> Col {
        self.with(self.vals[s..e].to_vec())
    }
    pub fn has_null(&self) -> bool {
        self.vals.iter().any(|v| v.is_none())
    }
}

pub fn prim_to_v<T: NativePType>(x: T) -> V {
    pvalue_to_v(&pv(x))
}
fn pv<T: NativePType>(x: T) -> PValue {
    // SAFETY-free conversion through the ptype
    match T::PTYPE {
        PType::U8 => PValue::U8(num(x) as u8),
        PType::U16 => PValue::U16(num(x) as u16),
        PType::U32 => PValue::U32(num(x) as u32),
        PType::U64 => PValue::U64(num(x) as u64),
        PType::I8 => PValue::I8(num(x) as i8),
        PType::I16 => PValue::I16(num(x) as i16),
        PType::I32 => PValue::I32(num(x) as i32),
        PType::I64 => PValue::I64(num(x) as i64),
        PType::F16 => PValue::F16(f16::from_bits(bits(x) as u16)),
        PType::F32 => PValue::F32(f32::from_bits(bits(x) as u32)),
        PType::F64 => PValue::F64(f64::from_bits(bits(x))),
    }
}
fn num<T: NativePType>(x: T) -> i128 {
    let b = bits(x);
    match T::PTYPE {
        PType::I8 => b as u8 as i8 as i128,
        PType::I16 => b as u16 as i16 as i128,
        PType::I32 => b as u32 as i32 as i128,
        PType::I64 => b as i64 as i128,
        _ => b as i128,
    }
}
fn bits<T: NativePType>(x: T) -> u64 {
    let n = std::mem::size_of::<T>();
    let mut out = [0u8; 8];
    // NativePType values are plain little-endian scalars
    unsafe {
        std::ptr::copy_nonoverlapping(&x as *const T as *const u8, out.as_mut_ptr(), n);
    }
    u64::from_le_bytes(out)
}
pub fn pvalue_to_v(p: &PValue) -> V {
    match p {
        PValue::U8(x) => V::I(*x as i128),
        PValue::U16(x) => V::I(*x as i128),
        PValue::U32(x) => V::I(*x as i128),
        PValue::U64(x) => V::I(*x as i128),
        PValue::I8(x) => V::I(*x as i128),
        PValue::I16(x) => V::I(*x as i128),
        PValue::I32(x) => V::I(*x as i128),
        PValue::I64(x) => V::I(*x as i128),
        PValue::F16(x) => V::F(x.to_bits() as u64, 16),
        PValue::F32(x) => V::F(x.to_bits() as u64, 32),
        PValue::F64(x) => V::F(x.to_bits(), 64),
    }
}

fn valid_bits(l: LogicalValidity) -> VortexResult<Vec<bool>> {
    Ok(match l {
        LogicalValidity::AllValid(n) => vec![true; n],
        LogicalValidity::AllInvalid(n) => vec![false; n],
        LogicalValidity::Array(a) => bool_bits(&a)?,
    })
}
/// Raw bits of a non-null bool array of any encoding.
pub fn bool_bits(a: &Array) -> VortexResult<Vec<bool>> {
    let b = a.clone().into_bool()?;
    Ok(b.boolean_buffer().iter().collect())
}

pub fn validity_of(a: &Array) -> VortexResult<Vec<bool>> {
    valid_bits(a.with_dyn(|d| d.logical_validity()))
}

/// Decode through the canonical form.
pub fn decode(a: &Array) -> VortexResult<Vals> {
    let c = a.clone().into_canonical()?;
    Ok(match c {
        Canonical::Null(n) => vec![None; n.len()],
        Canonical::Bool(b) => dec_bool(&b)?,
        Canonical::Primitive(p) => dec_prim(&p)?,
        Canonical::VarBinView(v) => {
            let valid = valid_bits(v.logical_validity())?;
            let bytes = v.clone();
            let mut out = Vec::with_capacity(bytes.len());
            for i in 0..bytes.len() {
                if valid[i] {
                    out.push(Some(V::Bytes(bytes.bytes_at(i)?.as_slice().to_vec())));
                } else {
                    out.push(None);
                }
            }
            out
        }
        Canonical::Struct(s) => dec_struct(&s)?,
        Canonical::Extension(e) => dec_ext(&e)?,
    })
}
fn dec_ext(e: &ExtensionArray) -> VortexResult<Vals> {
    decode(&e.storage())
}
fn dec_bool(b: &BoolArray) -> VortexResult<Vals> {
    let valid = valid_bits(b.logical_validity())?;
    let buf = b.boolean_buffer();
    Ok((0..b.len())
        .map(|i| valid[i].then(|| V::Bool(buf.value(i))))
        .collect())
}
fn dec_prim(p: &PrimitiveArray) -> VortexResult<Vals> {
    let valid = valid_bits(p.logical_validity())?;
    fn go<T: NativePType>(p: &PrimitiveArray, valid: &[bool]) -> Vals {
        let s = p.maybe_null_slice::<T>();
        assert_eq!(s.len(), valid.len(), "validity length");
        s.iter()
            .zip(valid)
            .map(|(x, v)| v.then(|| prim_to_v(*x)))
            .collect()
    }
    Ok(match p.ptype() {
        PType::U8 => go::<u8>(p, &valid),
        PType::U16 => go::<u16>(p, &valid),
        PType::U32 => go::<u32>(p, &valid),
        PType::U64 => go::<u64>(p, &valid),
        PType::I8 => go::<i8>(p, &valid),
        PType::I16 => go::<i16>(p, &valid),
        PType::I32 => go::<i32>(p, &valid),
        PType::I64 => go::<i64>(p, &valid),
        PType::F16 => go::<f16>(p, &valid),
        PType::F32 => go::<f32>(p, &valid),
        PType::F64 => go::<f64>(p, &valid),
    })
}
fn dec_struct(s: &StructArray) -> VortexResult<Vals> {
    let valid = valid_bits(s.logical_validity())?;
    let cols = (0..s.nfields())
        .map(|i| decode(&s.with_dyn_field(i)))
        .collect::<VortexResult<Vec<_>>>()?;
    Ok((0..s.len())
        .map(|r| valid[r].then(|| V::Struct(cols.iter().map(|c| c[r].clone()).collect())))
        .collect())
}
trait FieldAt {
    fn with_dyn_field(&self, i: usize) -> Array;
}
impl FieldAt for StructArray {
    fn with_dyn_field(&self, i: usize) -> Array {
        self.field(i).expect("struct field")
    }
}

/// The columns of a struct array, decoded (row nulls ignored).
pub fn decode_cols(a: &Array) -> VortexResult<Vec<Vals>> {
    let s = a.clone().into_struct()?;
    (0..s.nfields()).map(|i| decode(&s.with_dyn_field(i))).collect()
}

pub fn scalar_value_to_v(v: &ScalarValue, dtype: &DType) -> Option<V> {
    match v {
        ScalarValue::Null => None,
        ScalarValue::Bool(b) => Some(V::Bool(*b)),
        ScalarValue::Primitive(p) => {
            // normalise to the declared ptype
            if let DType::Primitive(pt, _) = dtype {
                if p.ptype() != *pt {
                    if let Ok(s) = Scalar::new(
                        DType::Primitive(p.ptype(), Nullability::Nullable),
                        v.clone(),
                    )
                    .cast(&DType::Primitive(*pt, Nullability::Nullable))
                    {
                        if let ScalarValue::Primitive(q) = s.value() {
                            return Some(pvalue_to_v(q));
                        }
                    }
                }
            }
            Some(pvalue_to_v(p))
        }
        ScalarValue::Buffer(b) => Some(V::Bytes(b.as_slice().to_vec())),
        ScalarValue::BufferString(s) => Some(V::Bytes(s.as_bytes().to_vec())),
        ScalarValue::List(l) => match dtype {
            DType::Struct(st, _) => Some(V::Struct(
                l.iter()
                    .zip(st.dtypes().iter())
                    .map(|(x, d)| scalar_value_to_v(x, d))
                    .collect(),
            )),
            _ => Some(V::Struct(l.iter().map(|x| scalar_value_to_v(x, dtype)).collect())),
        },
    }
}
pub fn scalar_to_v(s: &Scalar) -> Option<V> {
    scalar_value_to_v(s.value(), s.dtype())
}

/// A scalar of the column's type holding this value.
pub fn v_to_scalar(kind: &Kind, nullable: bool, v: &Option<V>, dtype: &DType) -> Scalar {
    let n = if nullable {
        Nullability::Nullable
    } else {
        Nullability::NonNullable
    };
    match v {
        None => Scalar::null(dtype.as_nullable()),
        Some(v) => match (kind, v) {
            (Kind::Bool, V::Bool(b)) => Scalar::bool(*b, n),
            (Kind::Prim(p), v) => prim_scalar(*p, v, n),
            (Kind::Utf8, V::Bytes(b)) => {
                Scalar::utf8(String::from_utf8(b.clone()).expect("utf8"), n)
            }
            (Kind::Binary, V::Bytes(b)) => Scalar::binary(b.clone().into(), n),
            (Kind::Temporal(..), v) => {
                let inner = match dtype {
                    DType::Extension(e, _) => e.clone(),
                    _ => unreachable!(),
                };
                let p = temporal_ptype(kind);
                Scalar::new(
                    DType::Extension(inner, n),
                    prim_scalar(p, v, n).value().clone(),
                )
            }
            _ => unreachable!("scalar of {kind:?} {v:?}"),
        },
    }
}
pub fn temporal_ptype(k: &Kind) -> PType {
    match k {
        Kind::Temporal("date", 4) => PType::I32,
        Kind::Temporal("time", 2 | 3) => PType::I32,
        _ => PType::I64,
    }
}
pub fn prim_scalar(p: PType, v: &V, n: Nullability) -> Scalar {
    match (p, v) {
        (PType::U8, V::I(x)) => Scalar::primitive(*x as u8, n),
        (PType::U16, V::I(x)) => Scalar::primitive(*x as u16, n),
        (PType::U32, V::I(x)) => Scalar::primitive(*x as u32, n),
        (PType::U64, V::I(x)) => Scalar::primitive(*x as u64, n),
        (PType::I8, V::I(x)) => Scalar::primitive(*x as i8, n),
        (PType::I16, V::I(x)) => Scalar::primitive(*x as i16, n),
        (PType::I32, V::I(x)) => Scalar::primitive(*x as i32, n),
        (PType::I64, V::I(x)) => Scalar::primitive(*x as i64, n),
        (PType::F16, V::F(b, _)) => Scalar::primitive(f16::from_bits(*b as u16), n),
        (PType::F32, V::F(b, _)) => Scalar::primitive(f32::from_bits(*b as u32), n),
        (PType::F64, V::F(b, _)) => Scalar::primitive(f64::from_bits(*b), n),
        _ => unreachable!("{p} {v:?}"),
    }
}

pub fn int_range(p: PType) -> (i128, i128) {
    match p {
        PType::U8 => (0, u8::MAX as i128),
        PType::U16 => (0, u16::MAX as i128),
        PType::U32 => (0, u32::MAX as i128),
        PType::U64 => (0, u64::MAX as i128),
        PType::I8 => (i8::MIN as i128, i8::MAX as i128),
        PType::I16 => (i16::MIN as i128, i16::MAX as i128),
        PType::I32 => (i32::MIN as i128, i32::MAX as i128),
        PType::I64 => (i64::MIN as i128, i64::MAX as i128),
        _ => (0, 0),
    }
}
pub const INTS: [PType; 8] = [
    PType::U8,
    PType::U16,
    PType::U32,
    PType::U64,
    PType::I8,
    PType::I16,
    PType::I32,
    PType::I64,
];

fn fbits(p: PType, x: f64) -> V {
    match p {
        PType::F16 => V::F(f16::from_f64(x).to_bits() as u64, 16),
        PType::F32 => V::F((x as f32).to_bits() as u64, 32),
        _ => V::F(x.to_bits(), 64),
    }
}
pub fn float_v(p: PType, x: f64) -> V {
    fbits(p, x)
}

/// What the generator may produce.
#[derive(Clone, Copy)]
pub struct GenOpt {
    /// allow NaN and -0.0
    pub weird_floats: bool,
    /// at most this many distinct values
    pub max_distinct: usize,
}
impl Default for GenOpt {
    fn default() -> Self {
        GenOpt {
            weird_floats: false,
            max_distinct: 100_000,
        }
    }
}

fn gen_int_pool(rng: &mut StdRng, p: PType) -> Box<dyn FnMut(&mut StdRng, usize) -> i128> {
    let (lo, hi) = int_range(p);
    let profile = rng.gen_range(0..11);
    match profile {
        // full range
        0 => Box::new(move |r, _| r.gen_range(lo..=hi)),
        // small range at zero
        1 => Box::new(move |r, _| r.gen_range(lo.max(-5)..=hi.min(9))),
        // frame of reference: big base, small spread
        2 => {
            let w = (hi - lo).min(300);
            let base = rng.gen_range(lo..=hi - w);
            Box::new(move |r, _| base + r.gen_range(0..=w))
        }
        // small with rare exceptions (patches)
        3 | 4 => {
            let small = (hi.min(60)).max(1);
            let pr = [0.01, 0.05, 0.2][rng.gen_range(0..3)];
            Box::new(move |r, _| {
                if r.gen_bool(pr) {
                    r.gen_range(0.max(lo)..=hi)
                } else {
                    r.gen_range(0..=small)
                }
            })
        }
        // runs
        5 | 6 => {
            let mut cur = rng.gen_range(lo.max(-100)..=hi.min(100));
            let pr = [0.02, 0.2, 0.5][rng.gen_range(0..3)];
            Box::new(move |r, _| {
                if r.gen_bool(pr) {
                    cur = r.gen_range(lo.max(-100)..=hi.min(100));
                }
                cur
            })
        }
        // few distinct, extremes included
        7 => {
            let pool: Vec<i128> = (0..rng.gen_range(1..6))
                .map(|_| match rng.gen_range(0..4) {
                    0 => lo,
                    1 => hi,
                    2 => 0,
                    _ => rng.gen_range(lo..=hi),
                })
                .collect();
            Box::new(move |r, _| pool[r.gen_range(0..pool.len())])
        }
        // constant
        8 => {
            let c = if rng.gen_bool(0.5) { rng.gen_range(lo..=hi) } else { rng.gen_range(0..=3) };
            Box::new(move |_, _| c)
        }
        // monotone
        9 => {
            let step = rng.gen_range(0..4);
            let mut cur = rng.gen_range(lo..=hi.min(lo + 1000));
            Box::new(move |r, _| {
                cur = (cur + r.gen_range(0..=step)).min(hi);
                cur
            })
        }
        // multiples of a power of two (FoR shift)
        _ => {
            let sh = rng.gen_range(1..5);
            Box::new(move |r, _| {
                let x = r.gen_range((lo >> sh).max(-500)..=(hi >> sh).min(500));
                (x << sh).clamp(lo, hi)
            })
        }
    }
}

fn gen_float_pool(rng: &mut StdRng, p: PType, weird: bool) -> Box<dyn FnMut(&mut StdRng, usize) -> V> {
    let profile = rng.gen_range(0..8);
    match profile {
        // decimal values (ALP friendly) with exceptions
        0..=2 => {
            let dec = [1.0, 10.0, 100.0, 1000.0, 1e6][rng.gen_range(0..5)];
            let pr = [0.0, 0.01, 0.1][rng.gen_range(0..3)];
            let spread = [50i64, 5000, 100000][rng.gen_range(0..3)];
            Box::new(move |r, _| {
                if r.gen_bool(pr) {
                    fbits(p, r.gen_range(-1e3..1e3) * std::f64::consts::PI)
                } else {
                    nozero(fbits(p, r.gen_range(-spread..=spread) as f64 / dec))
                }
            })
        }
        // real doubles (ALP-RD friendly)
        3 | 4 => {
            let base = rng.gen_range(-100.0..100.0);
            Box::new(move |r, _| nozero(fbits(p, base + r.gen_range(0.0..1.0))))
        }
        // special values
        5 => Box::new(move |r, _| {
            let k = r.gen_range(0..10);
            let x = match k {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                2 => f64::MAX,
                3 => f64::MIN_POSITIVE,
                4 if weird => f64::NAN,
                5 if weird => -0.0,
                6 => 5e-324,
                7 => 1e300,
                _ => r.gen_range(-10i32..10) as f64,
            };
            let x = if p == PType::F32 && x == f64::MAX { f32::MAX as f64 } else { x };
            if weird { fbits(p, x) } else { nozero(fbits(p, x)) }
        }),
        // few distinct
        6 => {
            let pool: Vec<V> = (0..rng.gen_range(1..5))
                .map(|_| nozero(fbits(p, rng.gen_range(-1000i32..1000) as f64 / 8.0)))
                .collect();
            Box::new(move |r, _| pool[r.gen_range(0..pool.len())].clone())
        }
        // runs
        _ => {
            let mut cur = 1.5;
            Box::new(move |r, _| {
                if r.gen_bool(0.1) {
                    cur = r.gen_range(-100i32..100) as f64 / 4.0;
                }
                nozero(fbits(p, cur))
            })
        }
    }
}
/// -0.0 -> 0.0
fn nozero(v: V) -> V {
    match v {
        V::F(b, w) if b << (64 - w as u32) == 1u64 << 63 => V::F(0, w),
        v => v,
    }
}

fn gen_bytes_pool(rng: &mut StdRng, utf8: bool) -> Box<dyn FnMut(&mut StdRng, usize) -> Vec<u8>> {
    let mk = move |r: &mut StdRng| -> Vec<u8> {
        let len = match r.gen_range(0..8) {
            0 => 0,
            1 => 12,
            2 => 13,
            3 => r.gen_range(14..40),
            4 => 4,
            _ => r.gen_range(1..12),
        };
        if utf8 {
            let alpha: Vec<char> = "abcab xyzé中".chars().collect();
            let mut s = String::new();
            while s.len() < len {
                let c = alpha[r.gen_range(0..alpha.len())];
                if s.len() + c.len_utf8() > len {
                    s.push('q');
                } else {
                    s.push(c);
                }
            }
            s.into_bytes()
        } else {
            (0..len)
                .map(|_| if r.gen_bool(0.2) { [0u8, 255, 128][r.gen_range(0..3)] } else { r.gen() })
                .collect()
        }
    };
    match rng.gen_range(0..5) {
        0 => {
            let pool: Vec<Vec<u8>> = (0..rng.gen_range(1..6)).map(|_| mk(rng)).collect();
            Box::new(move |r, _| pool[r.gen_range(0..pool.len())].clone())
        }
        1 => {
            // common prefixes
            let pre = b"https://www.example.org/".to_vec();
            Box::new(move |r, _| {
                let mut v = pre.clone();
                v.extend_from_slice(format!("{}", r.gen_range(0..500)).as_bytes());
                v
            })
        }
        2 => {
            let mut cur = mk(rng);
            Box::new(move |r, _| {
                if r.gen_bool(0.2) {
                    cur = mk(r)
                }
                cur.clone()
            })
        }
        3 => {
            let c = mk(rng);
            Box::new(move |_, _| c.clone())
        }
        _ => Box::new(move |r, _| mk(r)),
    }
}

/// Null pattern generator: returns the probability-driven closure.
fn gen_nulls(rng: &mut StdRng, n: usize) -> Vec<bool> {
    match rng.gen_range(0..8) {
        0 | 1 => vec![true; n],
        2 => (0..n).map(|_| rng.gen_bool(0.5)).collect(),
        3 => (0..n).map(|_| rng.gen_bool(0.95)).collect(),
        4 => (0..n).map(|_| rng.gen_bool(0.05)).collect(),
        5 => {
            // null runs
            let mut v = true;
            (0..n)
                .map(|_| {
                    if rng.gen_bool(0.05) {
                        v = !v
                    }
                    v
                })
                .collect()
        }
        6 => {
            let k = rng.gen_range(0..=n);
            (0..n).map(|i| i >= k).collect()
        }
        _ => vec![false; n],
    }
}

pub fn gen_col(rng: &mut StdRng, kind: &Kind, nullable: bool, n: usize, opt: GenOpt) -> Col {
    let mut vals: Vals = match kind {
        Kind::Null => vec![None; n],
        Kind::Bool => {
            let pr = [0.5, 0.02, 0.98, 0.0, 1.0, 0.3][rng.gen_range(0..6)];
            let runs = rng.gen_bool(0.3);
            let mut cur = rng.gen_bool(0.5);
            (0..n)
                .map(|_| {
                    if runs {
                        if rng.gen_bool(0.05) {
                            cur = !cur
                        }
                        Some(V::Bool(cur))
                    } else {
                        Some(V::Bool(rng.gen_bool(pr)))
                    }
                })
                .collect()
        }
        Kind::Prim(p) if p.is_int() => {
            let mut f = gen_int_pool(rng, *p);
            (0..n).map(|i| Some(V::I(f(rng, i)))).collect()
        }
        Kind::Prim(p) => {
            let mut f = gen_float_pool(rng, *p, opt.weird_floats);
            (0..n)
                .map(|i| Some(fix_float(f(rng, i), opt.weird_floats)))
                .collect()
        }
        Kind::Utf8 | Kind::Binary => {
            let mut f = gen_bytes_pool(rng, *kind == Kind::Utf8);
            (0..n).map(|i| Some(V::Bytes(f(rng, i)))).collect()
        }
        Kind::Temporal(..) => {
            let p = temporal_ptype(kind);
            let base: i128 = if p == PType::I32 { 18_000 } else { 1_700_000_000_000 };
            let neg = rng.gen_bool(0.3);
            let spread: i128 = [10, 100_000, 10_000_000][rng.gen_range(0..3)];
            let (lo, hi) = int_range(p);
            (0..n)
                .map(|_| {
                    let x = base + rng.gen_range(-spread..=spread) * if p == PType::I32 { 1 } else { 997 };
                    let x = if neg && rng.gen_bool(0.5) { -x } else { x };
                    Some(V::I(x.clamp(lo, hi)))
                })
                .collect()
        }
        Kind::Struct(fields) => {
            let cols: Vec<Col> = fields
                .iter()
                .map(|(_, k, nl)| gen_col(rng, k, *nl, n, opt))
                .collect();
            (0..n)
                .map(|r| Some(V::Struct(cols.iter().map(|c| c.vals[r].clone()).collect())))
                .collect()
        }
    };
    if vals.len() > 1 && opt.max_distinct < 100_000 {
        let mut seen: Vec<Option<V>> = vec![];
        for v in vals.iter_mut() {
            if !seen.contains(v) {
                if seen.len() < opt.max_distinct {
                    seen.push(v.clone());
                } else {
                    *v = seen[rng.gen_range(0..seen.len())].clone();
                }
            }
        }
    }
    if nullable {
        for (v, ok) in vals.iter_mut().zip(gen_nulls(rng, n)) {
            if !ok {
                *v = None
            }
        }
    }
    Col {
        kind: kind.clone(),
        nullable: nullable || *kind == Kind::Null,
        vals,
    }
}
fn fix_float(v: V, weird: bool) -> V {
    if weird {
        return v;
    }
    if v.to_f64().is_nan() {
        match v {
            V::F(_, w) => V::F(0, w),
            v => v,
        }
    } else {
        nozero(v)
    }
}

/// Order-preserving renaming of values to small integers.
pub const NULL_TOK: i64 = 2147483647;
pub const UNKNOWN_TOK: i64 = 2147483646;
pub struct Domain {
    sorted: Vec<V>,
    /// tokens are the integer values themselves
    pub literal: bool,
}
impl Domain {
    pub fn new<'a>(it: impl Iterator<Item = &'a Option<V>>) -> Domain {
        let mut sorted: Vec<V> = it.flatten().cloned().collect();
        sorted.sort();
        sorted.dedup();
        Domain { sorted, literal: false }
    }
    pub fn literal() -> Domain {
        Domain { sorted: vec![], literal: true }
    }
    pub fn tok(&self, v: &Option<V>) -> i64 {
        match v {
            None => NULL_TOK,
            Some(v) if self.literal => match v {
                V::I(i) if i.abs() < 2_000_000_000 => *i as i64,
                V::F(..) => {
                    let f = v.to_f64();
                    if f.fract() == 0.0 && f.abs() < 2e9 {
                        f as i64
                    } else {
                        UNKNOWN_TOK
                    }
                }
                V::Bool(b) => *b as i64,
                _ => UNKNOWN_TOK,
            },
            Some(v) => self.sorted.binary_search(v).map(|i| i as i64).unwrap_or(UNKNOWN_TOK),
        }
    }
    pub fn knows(&self, v: &V) -> bool {
        self.sorted.binary_search(v).is_ok()
    }
    pub fn toks(&self, v: &Vals) -> Vec<i64> {
        v.iter().map(|x| self.tok(x)).collect()
    }
    pub fn len(&self) -> usize {
        self.sorted.len()
    }
}
pub fn bool_tok(v: &Option<V>) -> i64 {
    match v {
        None => NULL_TOK,
        Some(V::Bool(b)) => *b as i64,
        _ => UNKNOWN_TOK,
    }
}
pub fn bool_toks(v: &Vals) -> Vec<i64> {
    v.iter().map(bool_tok).collect()
}

pub fn dtype_of(a: &Array) -> DType {
    a.dtype().clone()
}
