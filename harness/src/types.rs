//! Logical types and scalars: encodings of them, projection, equality, casts (T01).
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use flatbuffers::{root, FlatBufferBuilder};
use prost::Message;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::field::Field;
use vortex_dtype::half::f16;
use vortex_dtype::{DType, ExtDType, ExtID, ExtMetadata, Nullability, PType, StructDType};
use vortex_error::{vortex_err, VortexResult};
use vortex_flatbuffers::WriteFlatBuffer;
use vortex_scalar::{PValue, Scalar, ScalarValue, StructScalar};

use crate::rec::*;
use crate::scen::Cfg;
use crate::val::{int_range, INTS};

const PT: [PType; 11] = [
    PType::U8,
    PType::U16,
    PType::U32,
    PType::U64,
    PType::I8,
    PType::I16,
    PType::I32,
    PType::I64,
    PType::F16,
    PType::F32,
    PType::F64,
];
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn node(k: &str, p: &str, md: &str, n: bool, names: Vec<Value>, dts: Vec<Value>) -> Value {
    json!({"k": k, "p": p, "md": md, "n": n as u8, "names": names, "dts": dts})
}
/// a name as an opaque printable token
fn name(s: &str) -> Value {
    json!(if s.chars().all(|c| c.is_ascii_alphanumeric()) { s.to_string() } else { format!("~{}", hex(s.as_bytes())) })
}
pub fn dt_json(d: &DType) -> Value {
    let n = d.is_nullable();
    match d {
        DType::Null => node("null", "", "none", true, vec![], vec![]),
        DType::Bool(x) => node("bool", "", "none", (*x).into(), vec![], vec![]),
        DType::Primitive(p, x) => node("prim", &format!("{p}"), "none", (*x).into(), vec![], vec![]),
        DType::Utf8(x) => node("utf8", "", "none", (*x).into(), vec![], vec![]),
        DType::Binary(x) => node("binary", "", "none", (*x).into(), vec![], vec![]),
        DType::List(e, x) => node("list", "", "none", (*x).into(), vec![], vec![dt_json(e)]),
        DType::Struct(s, x) => node(
            "struct",
            "",
            "none",
            (*x).into(),
            s.names().iter().map(|n| name(n)).collect(),
            s.dtypes().iter().map(dt_json).collect(),
        ),
        DType::Extension(e, _) => {
            let md = e.metadata().map(|m| format!("x{}", hex(m.as_ref()))).unwrap_or_else(|| "none".into());
            node("ext", e.id().as_ref(), &md, n, vec![], vec![])
        }
    }
}
fn vnode(k: &str, t: &str, v: String, l: Vec<Value>) -> Value {
    json!({"k": k, "t": t, "v": v, "l": l})
}
fn val_json(v: &ScalarValue) -> Value {
    match v {
        ScalarValue::Null => vnode("null", "", String::new(), vec![]),
        ScalarValue::Bool(b) => vnode("bool", "", (*b as u8).to_string(), vec![]),
        ScalarValue::Primitive(p) => vnode("prim", &format!("{}", p.ptype()), pv_str(p), vec![]),
        ScalarValue::Buffer(b) => vnode("bytes", "", hex(b.as_slice()), vec![]),
        ScalarValue::BufferString(b) => vnode("str", "", hex(b.as_str().as_bytes()), vec![]),
        ScalarValue::List(l) => vnode("list", "", String::new(), l.iter().map(val_json).collect()),
    }
}
fn pv_str(p: &PValue) -> String {
    match p {
        PValue::U8(v) => v.to_string(),
        PValue::U16(v) => v.to_string(),
        PValue::U32(v) => v.to_string(),
        PValue::U64(v) => v.to_string(),
        PValue::I8(v) => v.to_string(),
        PValue::I16(v) => v.to_string(),
        PValue::I32(v) => v.to_string(),
        PValue::I64(v) => v.to_string(),
        // any NaN is the same value
        PValue::F16(v) if v.is_nan() => "nan".into(),
        PValue::F32(v) if v.is_nan() => "nan".into(),
        PValue::F64(v) if v.is_nan() => "nan".into(),
        PValue::F16(v) => format!("b{:x}", v.to_bits()),
        PValue::F32(v) => format!("b{:x}", v.to_bits()),
        PValue::F64(v) => format!("b{:x}", v.to_bits()),
    }
}
fn int_pv(p: PType, x: i128) -> PValue {
    match p {
        PType::U8 => PValue::U8(x as u8),
        PType::U16 => PValue::U16(x as u16),
        PType::U32 => PValue::U32(x as u32),
        PType::U64 => PValue::U64(x as u64),
        PType::I8 => PValue::I8(x as i8),
        PType::I16 => PValue::I16(x as i16),
        PType::I32 => PValue::I32(x as i32),
        PType::I64 => PValue::I64(x as i64),
        PType::F16 => PValue::F16(f16::from_f64(x as f64)),
        PType::F32 => PValue::F32(x as f32),
        PType::F64 => PValue::F64(x as f64),
    }
}
fn pick(p: PType, s: &str) -> PValue {
    let (lo, hi) = if p.is_int() { int_range(p) } else { (0, 0) };
    match (p, s) {
        (PType::F16, "lo") => PValue::F16(f16::from_f32(-0.42)),
        (PType::F16, "hi") => PValue::F16(f16::MAX),
        (PType::F32, "lo") => PValue::F32(f32::MIN_POSITIVE),
        (PType::F32, "hi") => PValue::F32(f32::MAX),
        (PType::F64, "lo") => PValue::F64(-1.5e-300),
        (PType::F64, "hi") => PValue::F64(0.1),
        (_, "lo") => int_pv(p, lo),
        (_, "hi") => int_pv(p, hi),
        _ => int_pv(p, 0),
    }
}

// ---- building from the specification's trees -------------------------------
fn nul(n: u64) -> Nullability {
    if n == 1 {
        Nullability::Nullable
    } else {
        Nullability::NonNullable
    }
}
fn dt_of(v: &Value) -> DType {
    let n = nul(v["n"].as_u64().unwrap());
    let dts = || v["dts"].as_array().unwrap().iter().map(dt_of).collect::<Vec<_>>();
    match v["k"].as_str().unwrap() {
        "null" => DType::Null,
        "bool" => DType::Bool(n),
        "utf8" => DType::Utf8(n),
        "binary" => DType::Binary(n),
        "prim" => DType::Primitive(*PT.iter().find(|p| format!("{p}") == v["p"].as_str().unwrap()).unwrap(), n),
        "list" => DType::List(Arc::new(dts().remove(0)), n),
        "struct" => {
            let names: Vec<Arc<str>> =
                v["names"].as_array().unwrap().iter().map(|x| Arc::from(x.as_str().unwrap())).collect();
            DType::Struct(StructDType::new(names.into(), dts()), n)
        }
        _ => {
            let md = v["md"].as_str().unwrap();
            let md = (md != "none").then(|| {
                let b: Vec<u8> =
                    (1..md.len()).step_by(2).map(|i| u8::from_str_radix(&md[i..i + 2], 16).unwrap()).collect();
                ExtMetadata::from(b.as_slice())
            });
            DType::Extension(ExtDType::new(ExtID::from(v["p"].as_str().unwrap()), md), n)
        }
    }
}
fn val_of(v: &Value) -> ScalarValue {
    let s = v["v"].as_str().unwrap();
    match v["k"].as_str().unwrap() {
        "null" => ScalarValue::Null,
        "bool" => ScalarValue::Bool(s == "1"),
        "prim" => {
            let p = *PT.iter().find(|p| format!("{p}") == v["t"].as_str().unwrap()).unwrap();
            ScalarValue::Primitive(pick(p, s))
        }
        "str" => ScalarValue::BufferString((if s == "lo" { "" } else { "aé\u{10348}z0123456789" }).to_string().into()),
        "bytes" => ScalarValue::Buffer((if s == "lo" { vec![] } else { vec![0u8, 255, 34, 7] }).into()),
        _ => ScalarValue::List(v["l"].as_array().unwrap().iter().map(val_of).collect()),
    }
}

// ---- random types and values -------------------------------------------------
fn gen_name(rng: &mut StdRng) -> Arc<str> {
    Arc::from(*["a", "b", "", "a.b", "naïve", "A", "0", "$x", "long name with spaces"].choose(rng).unwrap())
}
fn temporal(rng: &mut StdRng) -> ExtDType {
    match rng.gen_range(0..4) {
        0 => ExtDType::new(DATE_ID.clone(), Some(TemporalMetadata::Date(*[TimeUnit::D, TimeUnit::Ms].choose(rng).unwrap()).into())),
        1 => ExtDType::new(
            TIME_ID.clone(),
            Some(TemporalMetadata::Time(*[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns].choose(rng).unwrap()).into()),
        ),
        _ => {
            let tz = *[None, Some("UTC"), Some("Europe/Paris")].choose(rng).unwrap();
            ExtDType::new(
                TIMESTAMP_ID.clone(),
                Some(
                    TemporalMetadata::Timestamp(
                        *[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns].choose(rng).unwrap(),
                        tz.map(|s| s.to_string()),
                    )
                    .into(),
                ),
            )
        }
    }
}
fn gen_dt(rng: &mut StdRng, depth: u32) -> DType {
    let n = nul(rng.gen_range(0..2));
    let top = if depth == 0 { 7 } else { 12 };
    match rng.gen_range(0..top) {
        0 => DType::Null,
        1 => DType::Bool(n),
        2 | 3 => DType::Primitive(*PT.choose(rng).unwrap(), n),
        4 => DType::Utf8(n),
        5 => DType::Binary(n),
        6 => {
            if rng.gen_bool(0.6) {
                DType::Extension(temporal(rng), n)
            } else {
                let md = rng.gen_bool(0.6).then(|| {
                    let b: Vec<u8> = (0..rng.gen_range(0..5)).map(|_| rng.gen()).collect();
                    ExtMetadata::from(b.as_slice())
                });
                DType::Extension(ExtDType::new(ExtID::from(["my.ext", "", "é"][rng.gen_range(0..3)]), md), n)
            }
        }
        7 | 8 => DType::List(Arc::new(gen_dt(rng, depth - 1)), n),
        _ => {
            let k = rng.gen_range(0..5);
            let names: Vec<Arc<str>> = (0..k).map(|_| gen_name(rng)).collect();
            let dts = (0..k).map(|_| gen_dt(rng, depth - 1)).collect();
            DType::Struct(StructDType::new(names.into(), dts), n)
        }
    }
}
fn gen_pv(rng: &mut StdRng, p: PType, json_safe: bool) -> PValue {
    if p.is_int() {
        let (lo, hi) = int_range(p);
        let x = match rng.gen_range(0..5) {
            0 => lo,
            1 => hi,
            2 => rng.gen_range(0..100.min(hi)),
            _ => rng.gen_range(lo..=hi),
        };
        return int_pv(p, x);
    }
    loop {
        let v = match p {
            PType::F16 => PValue::F16(f16::from_bits(rng.gen())),
            PType::F32 => PValue::F32(match rng.gen_range(0..3) {
                0 => f32::from_bits(rng.gen()),
                1 => rng.gen_range(-5i32..5) as f32,
                _ => *[f32::INFINITY, f32::NAN, f32::MIN, -0.0].choose(rng).unwrap(),
            }),
            _ => PValue::F64(match rng.gen_range(0..4) {
                0 => f64::from_bits(rng.gen()),
                1 => rng.gen_range(-5i32..5) as f64,
                2 => f32::from_bits(rng.gen()) as f64,
                _ => *[f64::NEG_INFINITY, f64::NAN, f64::MAX, -0.0].choose(rng).unwrap(),
            }),
        };
        let fin = match v {
            PValue::F16(x) => x.is_finite(),
            PValue::F32(x) => x.is_finite(),
            PValue::F64(x) => x.is_finite(),
            _ => true,
        };
        if fin || !json_safe {
            return v;
        }
    }
}
/// storage of a temporal type
fn temporal_storage(e: &ExtDType) -> Option<PType> {
    Some(match TemporalMetadata::try_from(e).ok()? {
        TemporalMetadata::Date(TimeUnit::D) => PType::I32,
        TemporalMetadata::Time(TimeUnit::S | TimeUnit::Ms) => PType::I32,
        _ => PType::I64,
    })
}
fn gen_val(rng: &mut StdRng, d: &DType, json_safe: bool) -> ScalarValue {
    if d.is_nullable() && rng.gen_bool(0.2) {
        return ScalarValue::Null;
    }
    match d {
        DType::Null => ScalarValue::Null,
        DType::Bool(_) => ScalarValue::Bool(rng.gen()),
        DType::Primitive(p, _) => ScalarValue::Primitive(gen_pv(rng, *p, json_safe)),
        DType::Utf8(_) => {
            let s = ["", "a", "ünïcode", "0123456789ab", "\"quoted\"\\", "\u{0}x"][rng.gen_range(0..6)];
            ScalarValue::BufferString(s.to_string().into())
        }
        DType::Binary(_) => {
            let b: Vec<u8> = (0..rng.gen_range(0..6)).map(|_| rng.gen()).collect();
            ScalarValue::Buffer(b.into())
        }
        DType::List(e, _) => ScalarValue::List((0..rng.gen_range(0..4)).map(|_| gen_val(rng, e, json_safe)).collect()),
        DType::Struct(s, _) => ScalarValue::List(s.dtypes().iter().map(|e| gen_val(rng, e, json_safe)).collect()),
        DType::Extension(e, _) => {
            let p = temporal_storage(e).unwrap_or(*INTS.choose(rng).unwrap());
            ScalarValue::Primitive(gen_pv(rng, p, json_safe))
        }
    }
}

// ---- encodings ---------------------------------------------------------------
fn dtype_via(d: &DType, via: &str) -> VortexResult<DType> {
    match via {
        "flatbuffer" => {
            let mut fbb = FlatBufferBuilder::new();
            let o = d.write_flatbuffer(&mut fbb);
            fbb.finish_minimal(o);
            DType::try_from(root::<vortex_dtype::flatbuffers::DType>(fbb.finished_data()).map_err(|e| vortex_err!("{e}"))?)
        }
        "proto" => {
            let p = vortex_proto::dtype::DType::from(d);
            let b = p.encode_to_vec();
            DType::try_from(&vortex_proto::dtype::DType::decode(b.as_slice()).map_err(|e| vortex_err!("{e}"))?)
        }
        "json" => {
            let s = serde_json::to_string(d).map_err(|e| vortex_err!("{e}"))?;
            serde_json::from_str(&s).map_err(|e| vortex_err!("{e}"))
        }
        _ => {
            let mut s = flexbuffers::FlexbufferSerializer::new();
            d.serialize(&mut s).map_err(|e| vortex_err!("{e}"))?;
            let b = s.take_buffer();
            DType::deserialize(flexbuffers::Reader::get_root(b.as_slice()).map_err(|e| vortex_err!("{e}"))?)
                .map_err(|e| vortex_err!("{e}"))
        }
    }
}
fn scalar_via(x: &Scalar, via: &str) -> VortexResult<Scalar> {
    match via {
        "flatbuffer" => {
            let mut fbb = FlatBufferBuilder::new();
            let o = x.write_flatbuffer(&mut fbb);
            fbb.finish_minimal(o);
            Scalar::try_from(
                root::<vortex_flatbuffers::scalar::Scalar>(fbb.finished_data()).map_err(|e| vortex_err!("{e}"))?,
            )
        }
        "proto" => {
            let p = vortex_proto::scalar::Scalar::from(x);
            let b = p.encode_to_vec();
            Scalar::try_from(&vortex_proto::scalar::Scalar::decode(b.as_slice()).map_err(|e| vortex_err!("{e}"))?)
        }
        "json" => {
            let s = serde_json::to_string(x).map_err(|e| vortex_err!("{e}"))?;
            serde_json::from_str(&s).map_err(|e| vortex_err!("{e}"))
        }
        _ => {
            let mut s = flexbuffers::FlexbufferSerializer::new();
            x.serialize(&mut s).map_err(|e| vortex_err!("{e}"))?;
            let b = s.take_buffer();
            Scalar::deserialize(flexbuffers::Reader::get_root(b.as_slice()).map_err(|e| vortex_err!("{e}"))?)
                .map_err(|e| vortex_err!("{e}"))
        }
    }
}
const VIAS: [&str; 4] = ["flatbuffer", "proto", "json", "flex"];

fn put<T>(l: &mut Map<String, Value>, o: &Out<T>) {
    l.insert("k".into(), json!(o.tag()));
    l.insert("m".into(), json!(o.msg()));
}
fn obs_dtype(t: &mut Trace, d: &DType) {
    for via in VIAS {
        let mut l = m(json!({"o": "dtype", "e": via, "n": d_kind(d), "in": dt_json(d)}));
        let o = guard(|| dtype_via(d, via));
        put(&mut l, &o);
        if let Out::Ok(x) = o {
            l.insert("out".into(), dt_json(&x));
        }
        t.obs(Value::Object(l));
    }
}
fn d_kind(d: &DType) -> String {
    dt_json(d)["k"].as_str().unwrap().to_string()
}
fn has_json_unsafe(v: &ScalarValue) -> bool {
    match v {
        ScalarValue::Primitive(PValue::F16(x)) => !x.is_finite(),
        ScalarValue::Primitive(PValue::F32(x)) => !x.is_finite(),
        ScalarValue::Primitive(PValue::F64(x)) => !x.is_finite(),
        ScalarValue::List(l) => l.iter().any(has_json_unsafe),
        _ => false,
    }
}
fn obs_scalar(t: &mut Trace, d: &DType, v: &ScalarValue) {
    for via in VIAS {
        if via == "json" && has_json_unsafe(v) {
            continue; // no such JSON number
        }
        let s = Scalar::new(d.clone(), v.clone());
        let mut l = m(json!({"o": "scalar", "e": via, "n": d_kind(d), "d": dt_json(d), "v": val_json(s.value())}));
        let o = guard(|| scalar_via(&s, via));
        put(&mut l, &o);
        if let Out::Ok(x) = o {
            l.insert("dout".into(), dt_json(x.dtype()));
            l.insert("out".into(), val_json(x.value()));
        }
        t.obs(Value::Object(l));
    }
    let mut l = m(json!({"o": "instance", "e": "", "n": d_kind(d), "d": dt_json(d), "v": val_json(v)}));
    let o = guard(|| Ok(v.is_instance_of(d)));
    put(&mut l, &o);
    if let Out::Ok(x) = o {
        l.insert("r".into(), json!(x as u8));
    }
    t.obs(Value::Object(l));
}
fn gen_fields(rng: &mut StdRng, d: &StructDType) -> Vec<Field> {
    let n = d.names().len();
    (0..rng.gen_range(0..4))
        .map(|_| match rng.gen_range(0..12) {
            0 => Field::Index(n),
            1 => Field::Index(n + rng.gen_range(1..4)),
            2 => Field::Name("nope".into()),
            3..=6 if n > 0 => Field::Name(d.names()[rng.gen_range(0..n)].to_string()),
            _ if n > 0 => Field::Index(rng.gen_range(0..n)),
            _ => Field::Name("a".into()),
        })
        .collect()
}
fn fields_json(f: &[Field]) -> Value {
    json!(f
        .iter()
        .map(|x| match x {
            Field::Index(i) => json!({"w": "i", "i": i, "s": ""}),
            Field::Name(s) => json!({"w": "s", "i": 0, "s": name(s)}),
        })
        .collect::<Vec<_>>())
}
fn obs_project(t: &mut Trace, rng: &mut StdRng, d: &DType) {
    let DType::Struct(s, n) = d else { return };
    for _ in 0..3 {
        let f = gen_fields(rng, s);
        for via in ["dtype", "flatbuffer"] {
            let mut l = m(json!({"o": "project", "e": via, "n": "struct", "in": dt_json(d), "f": fields_json(&f)}));
            let o = guard(|| match via {
                "dtype" => Ok(DType::Struct(s.project(&f)?, *n)),
                _ => {
                    let mut fbb = FlatBufferBuilder::new();
                    let o = d.write_flatbuffer(&mut fbb);
                    fbb.finish_minimal(o);
                    let r = root::<vortex_dtype::flatbuffers::DType>(fbb.finished_data())
                        .map_err(|e| vortex_err!("{e}"))?;
                    vortex_dtype::flatbuffers::deserialize_and_project(r, &f)
                }
            });
            put(&mut l, &o);
            if let Out::Ok(x) = o {
                l.insert("out".into(), dt_json(&x));
            }
            t.obs(Value::Object(l));
        }
        let v = gen_val(rng, d, false);
        let sc = Scalar::new(d.clone(), v);
        let mut l = m(json!({"o": "sproject", "e": "", "n": "struct", "d": dt_json(d), "v": val_json(sc.value()), "f": fields_json(&f)}));
        let o = guard(|| StructScalar::try_from(&sc)?.project(&f));
        put(&mut l, &o);
        if let Out::Ok(x) = o {
            l.insert("dout".into(), dt_json(x.dtype()));
            l.insert("out".into(), val_json(x.value()));
        }
        t.obs(Value::Object(l));
    }
    for nm in s.names().iter().map(|x| x.to_string()).chain(["zz".to_string()]) {
        let o = guard(|| Ok(s.find_name(&nm).map(|i| i + 1).unwrap_or(0)));
        let mut l = m(json!({"o": "find", "e": "", "n": "struct", "in": dt_json(d)}));
        let f = fields_json(&[Field::Name(nm)]);
        l.insert("f".into(), f[0].clone());
        put(&mut l, &o);
        if let Out::Ok(i) = o {
            l.insert("i".into(), json!(i));
        }
        // Position takes one field
        let f = l["f"].clone();
        l.insert("f".into(), f);
        t.obs(Value::Object(l));
    }
}
fn hash(d: &DType) -> u64 {
    let mut h = DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}
fn obs_equal(t: &mut Trace, a: &DType, b: &DType) {
    let o = guard(|| Ok((a == b, a.eq_ignore_nullability(b), hash(a) == hash(b))));
    let mut l = m(json!({"o": "equal", "e": "", "n": d_kind(a), "a": dt_json(a), "b": dt_json(b)}));
    put(&mut l, &o);
    if let Out::Ok((x, y, h)) = o {
        l.insert("eq".into(), json!(x as u8));
        l.insert("ein".into(), json!(y as u8));
        l.insert("h".into(), json!(h as u8));
    }
    t.obs(Value::Object(l));
    let o = guard(|| Ok((a.as_nonnullable(), a.as_nullable(), a.is_nullable())));
    let mut l = m(json!({"o": "null", "e": "", "n": d_kind(a), "in": dt_json(a)}));
    put(&mut l, &o);
    if let Out::Ok((x, y, n)) = o {
        l.insert("as0".into(), dt_json(&x));
        l.insert("as1".into(), dt_json(&y));
        l.insert("is".into(), json!(n as u8));
    }
    t.obs(Value::Object(l));
}
/// a type differing from d in one place
fn vary(rng: &mut StdRng, d: &DType) -> DType {
    match d {
        DType::List(e, n) if rng.gen_bool(0.6) => DType::List(Arc::new(vary(rng, e)), *n),
        DType::Struct(s, n) if !s.names().is_empty() && rng.gen_bool(0.7) => {
            let i = rng.gen_range(0..s.names().len());
            let mut names: Vec<Arc<str>> = s.names().iter().cloned().collect();
            let mut dts: Vec<DType> = s.dtypes().iter().cloned().collect();
            match rng.gen_range(0..4) {
                0 => names[i] = gen_name(rng),
                1 => {
                    names.swap(0, i);
                    dts.swap(0, i);
                }
                _ => dts[i] = vary(rng, &dts[i]),
            }
            DType::Struct(StructDType::new(names.into(), dts), *n)
        }
        DType::Extension(e, n) => match rng.gen_range(0..3) {
            0 => DType::Extension(ExtDType::new(e.id().clone(), None), *n),
            1 => DType::Extension(ExtDType::new(ExtID::from("other"), e.metadata().cloned()), *n),
            _ => DType::Extension(temporal(rng), *n),
        },
        d if rng.gen_bool(0.5) => d.with_nullability(if d.is_nullable() { Nullability::NonNullable } else { Nullability::Nullable }),
        d => gen_dt(rng, 0).with_nullability(d.nullability()),
    }
}
fn sort_key(v: &ScalarValue) -> Option<(u8, i128, Vec<u8>, f64)> {
    Some(match v {
        ScalarValue::Null => (9, 0, vec![], 0.0),
        ScalarValue::Bool(b) => (1, *b as i128, vec![], 0.0),
        ScalarValue::Primitive(p) => match p {
            PValue::F16(x) => (1, 0, vec![], x.to_f64()),
            PValue::F32(x) => (1, 0, vec![], *x as f64),
            PValue::F64(x) => (1, 0, vec![], *x),
            _ => (1, pv_str(p).parse().ok()?, vec![], 0.0),
        },
        ScalarValue::Buffer(b) => (1, 0, b.as_slice().to_vec(), 0.0),
        ScalarValue::BufferString(b) => (1, 0, b.as_str().as_bytes().to_vec(), 0.0),
        ScalarValue::List(_) => return None,
    })
}
fn is_zero_or_nan(v: &ScalarValue) -> bool {
    match v {
        ScalarValue::Primitive(PValue::F16(x)) => x.is_nan() || x.to_f64() == 0.0,
        ScalarValue::Primitive(PValue::F32(x)) => x.is_nan() || *x == 0.0,
        ScalarValue::Primitive(PValue::F64(x)) => x.is_nan() || *x == 0.0,
        ScalarValue::List(l) => l.iter().any(is_zero_or_nan),
        _ => false,
    }
}
fn obs_spair(t: &mut Trace, a: &Scalar, b: &Scalar) {
    if is_zero_or_nan(a.value()) || is_zero_or_nan(b.value()) {
        return;
    }
    let base = json!({"o": "sequal", "e": "", "n": d_kind(a.dtype()), "da": dt_json(a.dtype()), "db": dt_json(b.dtype()),
        "va": val_json(a.value()), "vb": val_json(b.value())});
    let o = guard(|| Ok(a == b));
    let mut l = m(base.clone());
    put(&mut l, &o);
    if let Out::Ok(x) = o {
        l.insert("eq".into(), json!(x as u8));
    }
    t.obs(Value::Object(l));
    if matches!(a.dtype(), DType::Extension(..)) {
        return;
    }
    let (Some(ka), Some(kb)) = (sort_key(a.value()), sort_key(b.value())) else { return };
    let o = guard(|| Ok(a.partial_cmp(b)));
    let mut l = m(base);
    l.insert("o".into(), json!("scmp"));
    // ranks among the two values
    let (ra, rb) = match ka.partial_cmp(&kb) {
        Some(std::cmp::Ordering::Less) => (0, 1),
        Some(std::cmp::Ordering::Greater) => (1, 0),
        _ => (0, 0),
    };
    l.insert("ra".into(), json!(ra));
    l.insert("rb".into(), json!(rb));
    put(&mut l, &o);
    if let Out::Ok(x) = o {
        use std::cmp::Ordering::*;
        l.insert(
            "c".into(),
            json!(match x {
                None => "none",
                Some(Less) => "lt",
                Some(Greater) => "gt",
                Some(Equal) => "eq",
            }),
        );
    }
    t.obs(Value::Object(l));
}
/// the integer a number is, if it is one
fn num(v: &ScalarValue) -> Option<i128> {
    let f = |x: f64| (x.is_finite() && x.fract() == 0.0 && x.abs() < 1e15).then_some(x as i128);
    match v {
        ScalarValue::Primitive(PValue::F16(x)) => f(x.to_f64()),
        ScalarValue::Primitive(PValue::F32(x)) => f(*x as f64),
        ScalarValue::Primitive(PValue::F64(x)) => f(*x),
        ScalarValue::Primitive(p) => pv_str(p).parse().ok(),
        _ => None,
    }
}
fn obs_cast(t: &mut Trace, rng: &mut StdRng) {
    let p = *PT.choose(rng).unwrap();
    let q = *PT.choose(rng).unwrap();
    let n = nul(rng.gen_range(0..2));
    let null = rng.gen_bool(0.15);
    let d = DType::Primitive(p, if null { Nullability::Nullable } else { nul(rng.gen_range(0..2)) });
    let v = if null {
        ScalarValue::Null
    } else if p.is_int() {
        ScalarValue::Primitive(if rng.gen_bool(0.5) {
            gen_pv(rng, p, true)
        } else {
            // near the target's bounds
            let (lo, hi) = if q.is_int() { int_range(q) } else { (-1000, 1000) };
            let (l2, h2) = int_range(p);
            let x = *[lo, hi, lo - 1, hi + 1, 0, 5].choose(rng).unwrap();
            int_pv(p, x.clamp(l2, h2))
        })
    } else {
        ScalarValue::Primitive(int_pv(p, rng.gen_range(-300..300)))
    };
    let s = Scalar::new(d.clone(), v.clone());
    let to = DType::Primitive(q, n);
    let x = num(&v);
    let fits = match (x, q.is_int()) {
        (None, _) => null,
        (Some(x), true) => int_range(q).0 <= x && x <= int_range(q).1,
        (Some(x), false) => {
            if x.abs() > (1 << 10) {
                return; // rounding is not specified
            }
            true
        }
    };
    let o = guard(|| s.cast(&to));
    let mut l = m(json!({"o": "scast", "e": format!("{p}"), "n": format!("{q}"), "d": dt_json(&d), "v": val_json(&v), "to": dt_json(&to),
        "fits": fits as u8, "num": x.map(|x| x.to_string()).unwrap_or_default()}));
    put(&mut l, &o);
    if let Out::Ok(r) = o {
        l.insert("dout".into(), dt_json(r.dtype()));
        l.insert("out".into(), val_json(r.value()));
        l.insert("nout".into(), json!(num(r.value()).map(|x| x.to_string()).unwrap_or_default()));
    }
    t.obs(Value::Object(l));
}

fn lit() -> crate::val::Domain {
    crate::val::Domain::literal()
}
pub fn t01(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for rep in 0..cfg.reps * 20 {
        let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(31337).wrapping_add(rep as u64));
        let mut t = Trace::new(format!("T01/{rep}/{seed}"), lit(), String::new());
        sink.begin(&t.id);
        for i in 0..8 {
            let d = gen_dt(&mut rng, (i % 4) as u32);
            obs_dtype(&mut t, &d);
            obs_project(&mut t, &mut rng, &d);
            let e = if rng.gen_bool(0.2) { d.clone() } else { vary(&mut rng, &d) };
            obs_equal(&mut t, &d, &e);
            for _ in 0..2 {
                let js = rng.gen_bool(0.5);
                let v = gen_val(&mut rng, &d, js);
                obs_scalar(&mut t, &d, &v);
                let w = if rng.gen_bool(0.3) { v.clone() } else { gen_val(&mut rng, &d, true) };
                let (a, b) = (Scalar::new(d.clone(), v), Scalar::new(d.clone(), w.clone()));
                obs_spair(&mut t, &a, &b);
                if w.is_null() && !e.is_nullable() {
                    continue;
                }
                let f = d.with_nullability(Nullability::Nullable);
                obs_spair(&mut t, &a, &Scalar::new(f, w));
            }
            let v = gen_val(&mut rng, &e, true);
            let w = gen_val(&mut rng, &d, true);
            obs_spair(&mut t, &Scalar::new(d, w), &Scalar::new(e, v));
            for _ in 0..6 {
                obs_cast(&mut t, &mut rng);
            }
        }
        sink.push(&t);
    }
}
/// the types and values of VxTypesMC
pub fn t01beh(sink: &mut Sink, seed: u64, _cfg: &Cfg) {
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    let mut rng = StdRng::seed_from_u64(seed);
    let mut t = Trace::new(format!("T01beh/{shard}/{seed}"), lit(), String::new());
    let mut prev: Option<DType> = None;
    for (i, line) in text.lines().enumerate() {
        if i % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(line).expect("behaviour");
        let d = dt_of(&b["d"]);
        sink.begin(&format!("{} {d}", t.id));
        obs_dtype(&mut t, &d);
        if let Some(p) = &prev {
            obs_equal(&mut t, &d, p);
        }
        obs_project(&mut t, &mut rng, &d);
        for v in b["vs"].as_array().unwrap() {
            obs_scalar(&mut t, &d, &val_of(v));
        }
        prev = Some(d);
        if t.lines.len() > 300 {
            sink.push(&t);
            t = Trace::new(format!("T01beh/{shard}/{seed}/{i}"), lit(), String::new());
        }
    }
    sink.push(&t);
}
