//! A13: Arrow arrays in and out.
use std::sync::Arc;

use arrow_array::builder::{BinaryViewBuilder, StringViewBuilder};
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::{
    Array as ArrowArray, ArrayRef, ArrowPrimitiveType, BinaryArray, BooleanArray, Datum, LargeBinaryArray, LargeStringArray,
    NullArray, PrimitiveArray, RecordBatch, StringArray, StructArray,
};
use arrow_buffer::{BooleanBuffer, Buffer, NullBuffer, OffsetBuffer, ScalarBuffer};
use arrow_schema::{DataType, Field, Fields, Schema, TimeUnit};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::json;
use vortex::arrow::{infer_data_type, infer_schema, FromArrowArray, FromArrowType};
use vortex::{Array, ArrayDType, IntoArrayVariant, IntoCanonical};
use vortex_dtype::{DType, PType};
use vortex_error::{vortex_bail, vortex_err, VortexResult};

use crate::enc::{dtype, native, struct_cols};
use crate::rec::{guard, Out, Sink, Trace};
use crate::scen::*;
use crate::val::*;

/// How an Arrow array is laid out.
#[derive(Clone, Copy)]
pub struct Lay {
    pub slice: f64,
    /// a validity bitmap although there are no nulls
    pub bitmap: f64,
    pub masked: bool,
}

fn null_buffer(rng: &mut StdRng, valid: &[bool], need: bool, lay: Lay) -> Option<NullBuffer> {
    if valid.iter().all(|v| *v) && !need && !rng.gen_bool(lay.bitmap) {
        return None;
    }
    let off = if rng.gen_bool(0.4) { rng.gen_range(1..20) } else { 0 };
    let mut b: Vec<bool> = (0..off).map(|_| rng.gen()).collect();
    b.extend(valid);
    Some(NullBuffer::new(BooleanBuffer::from(b).slice(off, valid.len())))
}

fn prim<T: ArrowPrimitiveType>(vals: &[V], nulls: Option<NullBuffer>) -> PrimitiveArray<T>
where
    T::Native: vortex_dtype::NativePType,
{
    PrimitiveArray::<T>::new(ScalarBuffer::from(vals.iter().map(|v| native::<T::Native>(v)).collect::<Vec<_>>()), nulls)
}

fn offsets_of(vals: &[V], first: usize) -> (Vec<usize>, Vec<u8>) {
    let mut bytes = vec![b'z'; first];
    let mut offs = vec![first];
    for v in vals {
        if let V::Bytes(b) = v {
            bytes.extend_from_slice(b);
        }
        offs.push(bytes.len());
    }
    bytes.extend_from_slice(b"tail");
    (offs, bytes)
}
fn i32s(o: &[usize]) -> OffsetBuffer<i32> {
    OffsetBuffer::new(o.iter().map(|x| *x as i32).collect::<Vec<_>>().into())
}
fn i64s(o: &[usize]) -> OffsetBuffer<i64> {
    OffsetBuffer::new(o.iter().map(|x| *x as i64).collect::<Vec<_>>().into())
}

/// An Arrow array with the contents of the column.
pub fn arrow_of(rng: &mut StdRng, c: &Col, lay: Lay) -> ArrayRef {
    if rng.gen_bool(lay.slice) {
        let (before, after) = (rng.gen_range(0..20), rng.gen_range(0..10));
        let k = before + c.vals.len() + after;
        let junk = gen_col(rng, &c.kind, c.nullable, before + after, GenOpt::default());
        let mut vals = junk.vals[..before].to_vec();
        vals.extend(c.vals.clone());
        vals.extend(junk.vals[before..].to_vec());
        assert_eq!(vals.len(), k);
        let whole = arrow_of(rng, &c.with(vals), Lay { slice: 0.0, ..lay });
        return whole.slice(before, c.vals.len());
    }
    let valid: Vec<bool> = c.vals.iter().map(|v| v.is_some()).collect();
    let n = c.vals.len();
    let filled: Vec<V> = c
        .vals
        .iter()
        .map(|v| match v {
            Some(v) => v.clone(),
            None => {
                let pool: Vec<&V> = c.vals.iter().flatten().collect();
                match pool.choose(rng) {
                    Some(v) if rng.gen_bool(0.5) => (*v).clone(),
                    _ => crate::enc::zero_of(&c.kind),
                }
            }
        })
        .collect();
    let nulls = null_buffer(rng, &valid, false, lay);
    macro_rules! p {
        ($T:ty) => {
            Arc::new(prim::<$T>(&filled, nulls)) as ArrayRef
        };
    }
    match &c.kind {
        Kind::Null => Arc::new(NullArray::new(n)),
        Kind::Bool => {
            let off = if rng.gen_bool(0.4) { rng.gen_range(1..70) } else { 0 };
            let mut b: Vec<bool> = (0..off).map(|_| rng.gen()).collect();
            b.extend(filled.iter().map(|v| *v == V::Bool(true)));
            Arc::new(BooleanArray::new(BooleanBuffer::from(b).slice(off, n), nulls))
        }
        Kind::Prim(p) => match p {
            PType::U8 => p!(UInt8Type),
            PType::U16 => p!(UInt16Type),
            PType::U32 => p!(UInt32Type),
            PType::U64 => p!(UInt64Type),
            PType::I8 => p!(Int8Type),
            PType::I16 => p!(Int16Type),
            PType::I32 => p!(Int32Type),
            PType::I64 => p!(Int64Type),
            PType::F16 => p!(Float16Type),
            PType::F32 => p!(Float32Type),
            PType::F64 => p!(Float64Type),
        },
        Kind::Utf8 | Kind::Binary => {
            let utf8 = c.kind == Kind::Utf8;
            let first = if rng.gen_bool(0.4) { rng.gen_range(1..9) } else { 0 };
            let (o, b) = offsets_of(&filled, first);
            match (rng.gen_range(0..3), utf8) {
                (0, true) => Arc::new(StringArray::new(i32s(&o), Buffer::from_vec(b), nulls)),
                (1, true) => Arc::new(LargeStringArray::new(i64s(&o), Buffer::from_vec(b), nulls)),
                (0, false) => Arc::new(BinaryArray::new(i32s(&o), Buffer::from_vec(b), nulls)),
                (1, false) => Arc::new(LargeBinaryArray::new(i64s(&o), Buffer::from_vec(b), nulls)),
                (_, u) => {
                    let block = *[16u32, 64, 8192].choose(rng).unwrap();
                    if u {
                        let mut bl = StringViewBuilder::new().with_fixed_block_size(block);
                        for (v, x) in valid.iter().zip(&filled) {
                            let V::Bytes(x) = x else { unreachable!() };
                            bl.append_option(v.then(|| std::str::from_utf8(x).unwrap()));
                        }
                        Arc::new(bl.finish())
                    } else {
                        let mut bl = BinaryViewBuilder::new().with_fixed_block_size(block);
                        for (v, x) in valid.iter().zip(&filled) {
                            let V::Bytes(x) = x else { unreachable!() };
                            bl.append_option(v.then_some(x));
                        }
                        Arc::new(bl.finish())
                    }
                }
            }
        }
        Kind::Temporal(id, u) => {
            let tz: Option<Arc<str>> = (*id == "tz").then(|| "Europe/London".into());
            match (*id, *u) {
                ("date", 4) => p!(Date32Type),
                ("date", _) => p!(Date64Type),
                ("time", 0) => p!(Time64NanosecondType),
                ("time", 1) => p!(Time64MicrosecondType),
                ("time", 2) => p!(Time32MillisecondType),
                ("time", _) => p!(Time32SecondType),
                (_, 0) => Arc::new(prim::<TimestampNanosecondType>(&filled, nulls).with_timezone_opt(tz)),
                (_, 1) => Arc::new(prim::<TimestampMicrosecondType>(&filled, nulls).with_timezone_opt(tz)),
                (_, 2) => Arc::new(prim::<TimestampMillisecondType>(&filled, nulls).with_timezone_opt(tz)),
                _ => Arc::new(prim::<TimestampSecondType>(&filled, nulls).with_timezone_opt(tz)),
            }
        }
        Kind::Struct(fs) => {
            if fs.is_empty() {
                return Arc::new(StructArray::new_empty_fields(n, nulls));
            }
            let cols = struct_cols(rng, c, fs);
            let arrays: Vec<ArrayRef> = cols
                .into_iter()
                .map(|mut f| {
                    let lay = if nulls.is_none() && !f.nullable { Lay { bitmap: 0.0, ..lay } } else { lay };
                    if nulls.is_some() && lay.masked && !f.nullable && rng.gen_bool(0.5) {
                        // a field without nulls of its own may hold them where the row is null
                        let mut g = f.clone();
                        g.nullable = true;
                        for (i, v) in valid.iter().enumerate() {
                            if !v {
                                g.vals[i] = None;
                            }
                        }
                        f = g;
                    }
                    arrow_of(rng, &f, lay)
                })
                .collect();
            let fields: Fields = fs
                .iter()
                .zip(&arrays)
                .map(|((name, k, nl), a)| Field::new(name, a.data_type().clone(), *nl || *k == Kind::Null))
                .collect::<Vec<_>>()
                .into();
            Arc::new(StructArray::new(fields, arrays, nulls))
        }
    }
}

/// The contents of an Arrow array, read with Arrow's own accessors.
pub fn dec_arrow(a: &dyn ArrowArray) -> VortexResult<Vals> {
    macro_rules! p {
        ($T:ty) => {{
            let x = a.as_primitive::<$T>();
            (0..x.len()).map(|i| x.is_valid(i).then(|| prim_to_v(x.value(i)))).collect()
        }};
    }
    macro_rules! b {
        ($x:expr) => {{
            let x = $x;
            (0..x.len())
                .map(|i| {
                    x.is_valid(i).then(|| {
                        let y: &[u8] = x.value(i).as_ref();
                        V::Bytes(y.to_vec())
                    })
                })
                .collect()
        }};
    }
    Ok(match a.data_type() {
        DataType::Null => vec![None; a.len()],
        DataType::Boolean => {
            let x = a.as_boolean();
            (0..x.len()).map(|i| x.is_valid(i).then(|| V::Bool(x.value(i)))).collect()
        }
        DataType::UInt8 => p!(UInt8Type),
        DataType::UInt16 => p!(UInt16Type),
        DataType::UInt32 => p!(UInt32Type),
        DataType::UInt64 => p!(UInt64Type),
        DataType::Int8 => p!(Int8Type),
        DataType::Int16 => p!(Int16Type),
        DataType::Int32 => p!(Int32Type),
        DataType::Int64 => p!(Int64Type),
        DataType::Float16 => p!(Float16Type),
        DataType::Float32 => p!(Float32Type),
        DataType::Float64 => p!(Float64Type),
        DataType::Date32 => p!(Date32Type),
        DataType::Date64 => p!(Date64Type),
        DataType::Time32(TimeUnit::Second) => p!(Time32SecondType),
        DataType::Time32(_) => p!(Time32MillisecondType),
        DataType::Time64(TimeUnit::Microsecond) => p!(Time64MicrosecondType),
        DataType::Time64(_) => p!(Time64NanosecondType),
        DataType::Timestamp(u, _) => match u {
            TimeUnit::Second => p!(TimestampSecondType),
            TimeUnit::Millisecond => p!(TimestampMillisecondType),
            TimeUnit::Microsecond => p!(TimestampMicrosecondType),
            TimeUnit::Nanosecond => p!(TimestampNanosecondType),
        },
        DataType::Utf8 => b!(a.as_string::<i32>()),
        DataType::LargeUtf8 => b!(a.as_string::<i64>()),
        DataType::Binary => b!(a.as_binary::<i32>()),
        DataType::LargeBinary => b!(a.as_binary::<i64>()),
        DataType::Utf8View => b!(a.as_string_view()),
        DataType::BinaryView => b!(a.as_binary_view()),
        DataType::Struct(_) => {
            let s = a.as_struct();
            let cols = s.columns().iter().map(|c| dec_arrow(c.as_ref())).collect::<VortexResult<Vec<_>>>()?;
            for c in &cols {
                if c.len() != s.len() {
                    vortex_bail!("a field of {} rows in a struct of {}", c.len(), s.len());
                }
            }
            (0..s.len())
                .map(|r| s.is_valid(r).then(|| V::Struct(cols.iter().map(|c| c[r].clone()).collect())))
                .collect()
        }
        t => vortex_bail!("unexpected Arrow type {t}"),
    })
}

fn check(a: &dyn ArrowArray) -> VortexResult<()> {
    match a.data_type() {
        // (Arrow's own check takes a null buffer and a value buffer of different offsets for an error)
        DataType::Boolean => match a.nulls() {
            Some(n) if n.len() != a.len() => vortex_bail!("invalid Arrow data: {} null bits for {} rows", n.len(), a.len()),
            _ => Ok(()),
        },
        DataType::Struct(_) => a.as_struct().columns().iter().try_for_each(|c| check(c.as_ref())),
        _ => a.to_data().validate_full().map_err(|e| vortex_err!("invalid Arrow data: {e}")),
    }
}
fn field(a: &dyn ArrowArray, nullable: bool) -> Field {
    Field::new("", a.data_type().clone(), nullable)
}
/// the type that an Arrow array gets is the type of its Arrow field
pub fn from(a: &ArrayRef, nullable: bool) -> VortexResult<Array> {
    let x = Array::from_arrow(a.clone(), nullable);
    let want = DType::from_arrow(&field(a.as_ref(), nullable));
    if x.dtype() != &want {
        vortex_bail!("type of the array {} is not the type of the field {}", x.dtype(), want);
    }
    Ok(x)
}

pub fn op_out(t: &mut Trace, r: usize) -> Option<usize> {
    let mut l = line(t, "id", r);
        l.insert("w".into(), json!("to arrow"));
    let Some(reg) = t.reg(r) else { return None };
    let (a, k) = (reg.arr.clone(), reg.kind.clone());
    let dt = a.dtype().clone();
    t.arr_op_vals(l, k, Some(&dt), || {
        let x = a.clone().into_canonical()?.into_arrow()?;
        check(x.as_ref())?;
        let want = infer_data_type(&dt)?;
        if x.data_type() != &want {
            vortex_bail!("Arrow type {} is not the type of the column {}", x.data_type(), want);
        }
        let out = dec_arrow(x.as_ref())?;

        Ok((from(&x, dt.is_nullable())?, out))
    })
}

fn op_batch(t: &mut Trace, rng: &mut StdRng, r: usize) {
    let l = line(t, "batch", r);
    let Some(reg) = t.reg(r) else { return };
    let (a, k) = (reg.arr.clone(), reg.kind.clone());
    let dt = a.dtype().as_nonnullable();
    let how = rng.gen_bool(0.5);
    t.arr_op_vals(l, k, Some(&dt), || {
        let b = if how { RecordBatch::try_from(a)? } else { RecordBatch::try_from(a.into_struct()?)? };
        let want = infer_schema(&dt)?;
        if b.schema().as_ref() != &want {
            vortex_bail!("schema {:?} is not the schema of the type {:?}", b.schema(), want);
        }
        if DType::from_arrow(b.schema()) != dt {
            vortex_bail!("type of the schema {}", DType::from_arrow(b.schema()));
        }
        let cols = b.columns().iter().map(|c| dec_arrow(c.as_ref())).collect::<VortexResult<Vec<_>>>()?;
        let out = (0..b.num_rows()).map(|i| Some(V::Struct(cols.iter().map(|c| c[i].clone()).collect()))).collect();
        Ok((Array::try_from(b)?, out))
    });
}

/// single values as Arrow scalars
fn op_datum(t: &mut Trace, r: usize, idx: &[usize]) {
    let mut l = line(t, "sat", r);
    let Some(reg) = t.reg(r) else { return };
    let (a, n) = (reg.arr.clone(), reg.vals.len());
    let kind = reg.kind.clone();
    let (mut outs, mut ks, mut iv, mut dts, mut msg) = (vec![], vec![], vec![], 1, String::new());
    for i in idx {
        let o = guard(|| {
            let s = vortex::compute::unary::scalar_at(&a, *i)?;
            let d = Arc::<dyn Datum>::try_from(&s)?;
            let (x, sc) = d.get();
            if x.len() != 1 {
                vortex_bail!("{} values", x.len());
            }
            if !sc {
                vortex_bail!("not a scalar");
            }
            Ok((dec_arrow(x)?[0].clone(), x.data_type() == &infer_data_type(a.dtype())?))
        });
        ks.push(o.tag());
        match o {
            Out::Ok((v, same)) => {
                iv.push(v.is_some() as i64);
                outs.push(match &kind {
                    Kind::Bool => bool_tok(&v),
                    _ => t.dom.tok(&v),
                });
                if !same {
                    dts = 0;
                }
            }
            o => {
                msg = o.msg();
                outs.push(UNKNOWN_TOK);
                iv.push(-1);
            }
        }
    }
    let lv: Vec<u8> = t.reg(r).unwrap().vals.iter().map(|v| v.is_some() as u8).collect();
    let _ = n;
    l.insert("w".into(), json!("datum"));
    l.insert("x".into(), json!(idx));
    l.insert("out".into(), json!(outs));
    l.insert("ks".into(), json!(ks));
    l.insert("iv".into(), json!(iv));
    l.insert("lk".into(), json!("ok"));
    l.insert("lv".into(), json!(lv));
    l.insert("dt".into(), json!(dts));
    l.insert("m".into(), json!(msg));
    t.obs(serde_json::Value::Object(l));
}

/// Arrow buffers
fn op_buffers(sink: &mut Sink, rng: &mut StdRng, id: String) {
    let n = rng.gen_range(0..40);
    let lens: Vec<usize> = (0..n).map(|_| if rng.gen_bool(0.3) { 0 } else { rng.gen_range(0..9) }).collect();
    let mut offs = vec![rng.gen_range(0..5usize)];
    for l in &lens {
        offs.push(offs[offs.len() - 1] + l);
    }
    let wide = rng.gen_bool(0.5);
    let kind = Kind::Prim(if wide { PType::I64 } else { PType::I32 });
    let (s, e) = rand_range(rng, n);
    let all: Vals = offs.iter().map(|x| Some(V::I(*x as i128))).collect();
    let c = Col { kind: kind.clone(), nullable: false, vals: all[s..=e].to_vec() };
    let mut t = Trace::new(id, Domain::new(all.iter()), "buffer".into());
    sink.begin(&t.id);
    let l = line_new(&t, "offsets", &c);
    let r = t.arr_op(l, kind, Some(&dtype(&c)), || {
        Ok(if wide { Array::from(i64s(&offs).slice(s, e - s)) } else { Array::from(i32s(&offs).slice(s, e - s)) })
    });
    if let Some(r) = r {
        obs_cached_stats(&mut t, r, "offsets");
    }
    let bits: Vec<bool> = (0..n).map(|_| rng.gen()).collect();
    let c = Col { kind: Kind::Bool, nullable: false, vals: bits[s..e].iter().map(|b| Some(V::Bool(*b))).collect() };
    let l = line_new(&t, "nulls", &c);
    t.arr_op(l, Kind::Bool, Some(&dtype(&c)), || Ok(Array::from(NullBuffer::new(BooleanBuffer::from(bits.clone()).slice(s, e - s)))));
    sink.push(&t);
}

pub fn kinds() -> Vec<Kind> {
    let mut k = all_kinds();
    k.extend([
        Kind::Temporal("date", 2),
        Kind::Temporal("time", 0),
        Kind::Temporal("time", 2),
        Kind::Temporal("time", 3),
        Kind::Struct(vec![]),
        Kind::Struct(vec![
            ("n".into(), Kind::Null, true),
            ("b".into(), Kind::Bool, true),
            ("t".into(), Kind::Temporal("tz", 1), true),
            ("s".into(), Kind::Struct(vec![("d".into(), Kind::Binary, true), ("e".into(), Kind::Struct(vec![]), true)]), true),
        ]),
    ]);
    k
}

pub fn a13(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for (ki, kind) in kinds().iter().enumerate() {
        for nullable in [false, true] {
            if *kind == Kind::Null && !nullable {
                continue;
            }
            for rep in 0..cfg.reps * 4 {
                let mut rng = StdRng::seed_from_u64(seed * 1_234_577 + (ki * 1000 + rep * 2 + nullable as usize) as u64 + 13);
                let rng = &mut rng;
                let n = gen_len(rng, cfg.big);
                let c = gen_col(rng, kind, nullable, n, GenOpt { weird_floats: true, ..Default::default() });
                let dom = Domain::new(c.vals.iter());
                let lay = Lay {
                    slice: if rng.gen_bool(0.5) { 0.7 } else { 0.0 },
                    bitmap: if rng.gen_bool(0.3) { 0.6 } else { 0.0 },
                    masked: rng.gen_bool(0.3),
                };
                let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
                let a = arrow_of(&mut r2, &c, lay);
                let mut t = Trace::new(
                    format!("A13/{}{}/{rep}/{seed}", kind.name(), if nullable { "?" } else { "" }),
                    dom,
                    format!("{}", a.data_type()),
                );
                sink.begin(&t.id);
                let l = line_new(&t, &format!("arrow:{}", arrow_name(&a)), &c);
                let Some(r) = t.arr_op(l, kind.clone(), Some(&dtype(&c)), || from(&a, nullable)) else {
                    sink.push(&t);
                    continue;
                };
                op_out(&mut t, r);
                let nl = c.vals.len();
                let idx = some_indices(rng, nl, 10);
                obs_points(&mut t, r, &idx);
                if !matches!(kind, Kind::Struct(_)) {
                    op_datum(&mut t, r, &idx);
                }
                let (s, e) = rand_range(rng, nl);
                if let Some(x) = op_slice(&mut t, r, s, e) {
                    op_out(&mut t, x);
                }
                let mask = rand_mask(rng, nl);
                if let Some(x) = op_filter(&mut t, rng, r, &mask, 0.0) {
                    op_out(&mut t, x);
                }
                if matches!(kind, Kind::Struct(_)) {
                    op_batch(&mut t, rng, r);
                }
                if matches!(kind, Kind::Struct(_)) && !nullable {
                    // a record batch in
                    let l = line_new(&t, "batch", &c);
                    let sa = a.as_struct().clone();
                    let x = t.arr_op(l, kind.clone(), Some(&dtype(&c)), || {
                        let opts = arrow_array::RecordBatchOptions::new().with_row_count(Some(nl));
                        let b = RecordBatch::try_new_with_options(
                            Arc::new(Schema::new(sa.fields().clone())),
                            sa.columns().to_vec(),
                            &opts,
                        )
                        .map_err(|e| vortex_err!("{e}"))?;
                        Array::try_from(b)
                    });
                    if let Some(x) = x {
                        op_batch(&mut t, rng, x);
                    }
                }
                sink.push(&t);
            }
        }
    }
    for rep in 0..cfg.reps * 4 {
        let mut rng = StdRng::seed_from_u64(seed * 77_777 + rep as u64);
        op_buffers(sink, &mut rng, format!("A13/buffers/{rep}/{seed}"));
    }
    // every encoding on the way out
    sweep(sink, seed, "A13", &all_kinds(), cfg, GenOpt { weird_floats: true, ..Default::default() }, |_, _| {}, |t, rng, r, c| {
        op_out(t, r);
        let n = c.vals.len();
        let (s, e) = rand_range(rng, n);
        if rng.gen_bool(0.5) {
            if let Some(x) = op_slice(t, r, s, e) {
                op_out(t, x);
            }
        }
        if matches!(c.kind, Kind::Struct(_)) {
            op_batch(t, rng, r);
        }
    });
}
pub fn arrow_name(a: &ArrayRef) -> String {
    match a.data_type() {
        DataType::Struct(_) => "struct".into(),
        t => format!("{t}"),
    }
}
