//! Scenarios for the array properties (A01-A09, A11, A12, A15).
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::json;
use vortex::array::*;
use vortex::compute::unary::{fill_forward, scalar_at, subtract_scalar, try_cast};
use vortex::compute::{
    and, compare, filter, or, search_sorted, search_sorted_many, slice, take, Operator, SearchResult, SearchSortedSide,
};
use vortex::iter::ArrayIterator;
use vortex::stats::Stat;
use vortex::variants::BoolArrayTrait;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_dtype::{DType, Nullability, PType};
use vortex_error::{vortex_bail, VortexResult};

use crate::enc::*;
use crate::ipcutil::ipc_view;
use crate::match_p;
use crate::rec::*;
use crate::val::*;

pub fn all_kinds() -> Vec<Kind> {
    let mut v = vec![Kind::Null, Kind::Bool];
    v.extend(INTS.iter().map(|p| Kind::Prim(*p)));
    v.extend([Kind::Prim(PType::F16), Kind::Prim(PType::F32), Kind::Prim(PType::F64)]);
    v.extend([Kind::Utf8, Kind::Binary]);
    v.extend([
        Kind::Temporal("timestamp", 0),
        Kind::Temporal("timestamp", 2),
        Kind::Temporal("tz", 1),
        Kind::Temporal("timestamp", 3),
        Kind::Temporal("date", 4),
        Kind::Temporal("time", 1),
    ]);
    v.push(Kind::Struct(vec![
        ("a".into(), Kind::Prim(PType::I32), true),
        ("b".into(), Kind::Utf8, false),
    ]));
    v.push(Kind::Struct(vec![
        ("x".into(), Kind::Prim(PType::U16), false),
        ("y".into(), Kind::Struct(vec![("z".into(), Kind::Bool, true)]), false),
    ]));
    v
}

pub fn gen_len(rng: &mut StdRng, big: f64) -> usize {
    if rng.gen_bool(big) {
        *[1023usize, 1024, 1025, 1100, 2047, 2048, 2100, 300, 600].choose(rng).unwrap()
    } else {
        match rng.gen_range(0..6) {
            0 => rng.gen_range(0..4),
            1 => rng.gen_range(4..12),
            2 | 3 => rng.gen_range(8..40),
            4 => rng.gen_range(60..70),
            _ => rng.gen_range(40..140),
        }
    }
}

pub struct Cfg {
    pub reps: usize,
    pub big: f64,
    /// per column, how many encodings (0 = all)
    pub per_col: usize,
    pub depth: u32,
}

fn eopt(rng: &mut StdRng, cfg: &Cfg) -> EncOpt {
    EncOpt {
        exotic_validity: if rng.gen_bool(0.3) { 0.6 } else { 0.0 },
        depth: rng.gen_range(0..=cfg.depth),
        tame: false,
    }
}

pub fn start(t: &mut Trace, rng: &mut StdRng, e: &str, c: &Col, o: EncOpt) -> Option<usize> {
    let line = m(json!({"o": "enc", "e": e, "a": 0, "in": t.toks(&c.kind, &c.vals), "n": c.kind.name()}));
    let want = dtype(c);
    let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
    t.arr_op(line, c.kind.clone(), Some(&want), || encode(&mut r2, e, c, o))
}

pub fn line_new(t: &Trace, e: &str, c: &Col) -> serde_json::Map<String, serde_json::Value> {
    m(json!({"o": "enc", "e": e, "a": 0, "in": t.toks(&c.kind, &c.vals), "n": c.kind.name()}))
}
pub fn line(t: &Trace, op: &str, a: usize) -> serde_json::Map<String, serde_json::Value> {
    let (e, d) = t.a_info(a);
    let n = t.reg(a).map(|r| r.kind.name()).unwrap_or_default();
    m(json!({"o": op, "a": a, "e": e, "d": d, "n": n}))
}

pub fn op_slice(t: &mut Trace, r: usize, s: usize, e: usize) -> Option<usize> {
    let mut l = line(t, "slice", r);
    l.insert("x".into(), json!([s, e]));
    let (a, k) = (t.reg(r)?.arr.clone(), t.reg(r)?.kind.clone());
    let dt = a.dtype().clone();
    t.arr_op(l, k, Some(&dt), || slice(&a, s, e))
}
pub fn index_array(rng: &mut StdRng, idx: &[usize]) -> (String, Array) {
    let max = idx.iter().copied().max().unwrap_or(0) as i128;
    let ps: Vec<PType> = INTS.iter().copied().filter(|p| int_range(*p).1 >= max).collect();
    let p = *ps.choose(rng).unwrap();
    let a = match_p!(p, |T| PrimitiveArray::from(
        idx.iter().map(|i| native::<T>(&V::I(*i as i128))).collect::<Vec<T>>()
    ))
    .into_array();
    if rng.gen_bool(0.25) {
        let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
        if let Ok(b) = reenc_prim(&mut r2, a.clone(), EncOpt { exotic_validity: 0.0, depth: 1, tame: false }) {
            return (format!("{p}:{}", enc_id(&b)), b);
        }
    }
    (format!("{p}"), a)
}
pub fn op_take(t: &mut Trace, rng: &mut StdRng, r: usize, idx: &[usize]) -> Option<usize> {
    let mut l = line(t, "take", r);
    let (ip, ia) = index_array(rng, idx);
    l.insert("x".into(), json!(idx));
    l.insert("ip".into(), json!(ip));
    let (a, k) = (t.reg(r)?.arr.clone(), t.reg(r)?.kind.clone());
    let dt = a.dtype().clone();
    t.arr_op(l, k, Some(&dt), || take(&a, &ia))
}
pub fn op_filter(t: &mut Trace, rng: &mut StdRng, r: usize, mask: &[bool], exotic: f64) -> Option<usize> {
    let mut l = line(t, "filter", r);
    let ma = bool_array(rng, mask, exotic);
    l.insert("x".into(), json!(mask.iter().map(|b| *b as u8).collect::<Vec<_>>()));
    l.insert("ip".into(), json!(enc_id(&ma)));
    let (a, k) = (t.reg(r)?.arr.clone(), t.reg(r)?.kind.clone());
    let dt = a.dtype().clone();
    t.arr_op(l, k, Some(&dt), || filter(&a, &ma))
}
/// identity steps
pub fn op_id(t: &mut Trace, rng: &mut StdRng, r: usize, how: &str) -> Option<usize> {
    let mut l = line(t, "id", r);
    l.insert("w".into(), json!(how));
    let (a, k) = (t.reg(r)?.arr.clone(), t.reg(r)?.kind.clone());
    let vals = t.reg(r)?.vals.clone();
    let dt = a.dtype().clone();
    let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
    let k2 = k.clone();
    let dt2 = dt.clone();
    t.arr_op(l, k, Some(&dt), || match how {
        "canon" => canonical(&a),
        "ipc" => ipc_view(&a),
        "rechunk" => {
            let n = a.len();
            let i = r2.gen_range(0..=n);
            let parts = vec![slice(&a, 0, i)?, slice(&a, i, n)?];
            Ok(ChunkedArray::try_new(parts, dt2)?.into_array())
        }
        "compress" => {
            let comp = vortex_sampling_compressor::SamplingCompressor::default();
            Ok(comp.compress(&a, None)?.into_array())
        }
        "reenc" => {
            let c = Col { kind: k2, nullable: dt2.is_nullable(), vals };
            let (_, x) = any_encoding(&mut r2, &c, EncOpt { exotic_validity: 0.2, depth: 1, tame: false });
            x
        }
        _ => vortex_bail!("?"),
    })
}

pub fn rand_range(rng: &mut StdRng, n: usize) -> (usize, usize) {
    // favour block boundaries and ends
    let pt = |rng: &mut StdRng| -> usize {
        match rng.gen_range(0..6) {
            0 => 0,
            1 => n,
            2 if n > 1024 => 1024 - rng.gen_range(0..2) + rng.gen_range(0..2),
            3 if n > 2 => rng.gen_range(0..3.min(n)),
            _ => rng.gen_range(0..=n),
        }
    };
    let (a, b) = (pt(rng).min(n), pt(rng).min(n));
    (a.min(b), a.max(b))
}
pub fn rand_indices(rng: &mut StdRng, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let k = match rng.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => n.min(200),
        _ => rng.gen_range(1..30),
    };
    let mut v: Vec<usize> = (0..k).map(|_| rng.gen_range(0..n)).collect();
    match rng.gen_range(0..6) {
        0 | 1 => v.sort(),
        2 => {
            v.sort();
            v.dedup();
        }
        3 => v = (0..n.min(300)).rev().collect(),
        4 => {
            // dense runs (enough per block to unpack whole blocks)
            let s = rng.gen_range(0..n);
            v = (s..n.min(s + 60)).collect();
            if rng.gen_bool(0.5) {
                v.push(n - 1);
                v.push(0);
            }
        }
        _ => {}
    }
    v
}
pub fn rand_mask(rng: &mut StdRng, n: usize) -> Vec<bool> {
    match rng.gen_range(0..8) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|_| rng.gen_bool(0.02)).collect(),
        3 => (0..n).map(|_| rng.gen_bool(0.97)).collect(),
        4 => {
            let mut v: bool = rng.gen();
            (0..n)
                .map(|_| {
                    if rng.gen_bool(0.08) {
                        v = !v;
                    }
                    v
                })
                .collect()
        }
        5 => {
            let (s, e) = rand_range(rng, n);
            (0..n).map(|i| i >= s && i < e).collect()
        }
        _ => (0..n).map(|_| rng.gen_bool(0.5)).collect(),
    }
}

pub fn pre_op(t: &mut Trace, rng: &mut StdRng, r: usize) -> Option<usize> {
    let n = t.reg(r)?.vals.len();
    match rng.gen_range(0..12) {
        0..=4 => Some(r),
        5..=7 => {
            let (s, e) = rand_range(rng, n);
            let r = op_slice(t, r, s, e)?;
            if rng.gen_bool(0.3) {
                let n = t.reg(r)?.vals.len();
                let (s, e) = rand_range(rng, n);
                return op_slice(t, r, s, e);
            }
            Some(r)
        }
        8 => {
            let idx = rand_indices(rng, n);
            op_take(t, rng, r, &idx)
        }
        9 => {
            let mask = rand_mask(rng, n);
            op_filter(t, rng, r, &mask, 0.1)
        }
        10 => op_id(t, rng, r, "ipc"),
        _ => op_id(t, rng, r, "rechunk"),
    }
}

/// run a closure for a spread of columns and encodings
pub fn sweep(
    sink: &mut Sink,
    seed: u64,
    prop: &str,
    kinds: &[Kind],
    cfg: &Cfg,
    opt: GenOpt,
    mut prep: impl FnMut(&mut StdRng, &mut Col),
    mut f: impl FnMut(&mut Trace, &mut StdRng, usize, &Col),
) {
    for (ki, kind) in kinds.iter().enumerate() {
        for nullable in [false, true] {
            if *kind == Kind::Null && !nullable {
                continue;
            }
            for rep in 0..cfg.reps {
                let s = seed
                    .wrapping_mul(1_000_003)
                    .wrapping_add((ki * 1000 + rep * 2 + nullable as usize) as u64)
                    ^ (prop.bytes().fold(7u64, |a, b| a * 31 + b as u64) << 20);
                let mut rng = StdRng::seed_from_u64(s);
                let n = gen_len(&mut rng, cfg.big);
                let mut col = gen_col(&mut rng, kind, nullable, n, opt);
                prep(&mut rng, &mut col);
                let mut es = encs_for(&col);
                es.shuffle(&mut rng);
                if cfg.per_col > 0 {
                    es.truncate(cfg.per_col);
                }
                for e in es {
                    let mut rng = StdRng::from_rng(&mut rng).unwrap();
                    let o = eopt(&mut rng, cfg);
                    let extra = extras(&mut rng, &col);
                    let dom = Domain::new(col.vals.iter().chain(extra.iter()));
                    let mut t = Trace::new(
                        format!("{prop}/{}{}/{rep}/{e}/{seed}", kind.name(), if nullable { "?" } else { "" }),
                        dom,
                        e.to_string(),
                    );
                    sink.begin(&t.id);
                    if let Some(r) = start(&mut t, &mut rng, e, &col, o) {
                        f(&mut t, &mut rng, r, &col);
                    }
                    sink.push(&t);
                }
            }
        }
    }
}
/// values near the column's values, used as search keys / constants
pub fn extras(rng: &mut StdRng, c: &Col) -> Vec<Option<V>> {
    let mut out = vec![];
    match &c.kind {
        Kind::Bool => out.extend([Some(V::Bool(false)), Some(V::Bool(true))]),
        Kind::Prim(_) | Kind::Temporal(..) => {
            let p = match c.kind {
                Kind::Prim(p) => p,
                _ => temporal_ptype(&c.kind),
            };
            if p.is_int() {
                let (lo, hi) = int_range(p);
                for v in c.vals.choose_multiple(rng, 4).flatten() {
                    if let V::I(i) = v {
                        for d in [-1i128, 1] {
                            if i + d >= lo && i + d <= hi {
                                out.push(Some(V::I(i + d)));
                            }
                        }
                    }
                }
                if matches!(c.kind, Kind::Prim(_)) {
                    out.extend([Some(V::I(lo)), Some(V::I(hi)), Some(V::I(0))]);
                }
            } else {
                for x in [0.0f64, -1.5, 1e3, 1.0 / 3.0] {
                    out.push(Some(float_v(p, x)));
                }
            }
        }
        Kind::Utf8 | Kind::Binary => {
            for s in ["", "a", "zzzzzzzzzzzzzzzzzzzzzz", "https://www.example.org/25"] {
                out.push(Some(V::Bytes(s.as_bytes().to_vec())));
            }
        }
        _ => {}
    }
    out
}

pub fn obs_same(t: &mut Trace, r: usize) {
    // immutability: decode the first array again
    let Some(reg) = t.reg(r) else { return };
    let a = reg.arr.clone();
    let k = reg.kind.clone();
    let dt = a.dtype().clone();
    let l = line(t, "again", r);
    t.arr_op(l, k, Some(&dt), || Ok(a));
}

pub fn a01(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let opt = GenOpt { weird_floats: true, ..Default::default() };
    sweep(sink, seed, "A01", &all_kinds(), cfg, opt, |_, _| {}, |t, rng, r, _| {
        if rng.gen_bool(0.3) {
            op_id(t, rng, r, "canon");
        }
        if rng.gen_bool(0.2) {
            op_id(t, rng, r, "ipc");
        }
    });
}

pub fn obs_points(t: &mut Trace, r: usize, idx: &[usize]) {
    let Some(reg) = t.reg(r) else { return };
    let (a, k, n) = (reg.arr.clone(), reg.kind.clone(), reg.vals.len());
    let mut l = line(t, "sat", r);
    let mut outs: Vec<i64> = vec![];
    let mut ks: Vec<&str> = vec![];
    let mut iv: Vec<i64> = vec![];
    let mut msg = String::new();
    let mut dts = 1;
    for i in idx {
        let o = guard(|| {
            let s = scalar_at(&a, *i)?;
            Ok((scalar_to_v(&s), s.dtype() == a.dtype()))
        });
        ks.push(o.tag());
        match o {
            Out::Ok((v, d)) => {
                outs.push(match &k {
                    Kind::Bool => bool_tok(&v),
                    _ => t.dom.tok(&v),
                });
                if !d {
                    dts = 0;
                }
            }
            o => {
                msg = o.msg();
                outs.push(UNKNOWN_TOK)
            }
        }
        iv.push(match guard(|| Ok(a.with_dyn(|d| d.is_valid(*i)))) {
            Out::Ok(b) => b as i64,
            o => {
                msg = o.msg();
                2
            }
        });
    }
    l.insert("x".into(), json!(idx));
    l.insert("ks".into(), json!(ks));
    l.insert("out".into(), json!(outs));
    l.insert("iv".into(), json!(iv));
    l.insert("dt".into(), json!(dts));
    // logical validity of the whole array
    let lv = guard(|| validity_of(&a));
    l.insert("lk".into(), json!(lv.tag()));
    if !lv.msg().is_empty() {
        msg = lv.msg();
    }
    l.insert(
        "lv".into(),
        json!(match lv {
            Out::Ok(v) => v.iter().map(|b| *b as i64).collect::<Vec<_>>(),
            _ => vec![],
        }),
    );
    if !msg.is_empty() {
        l.insert("m".into(), json!(msg));
    }
    t.obs(serde_json::Value::Object(l));
    // out of range
    for i in [n, n + 1, n + 1024, usize::MAX] {
        let mut l = line(t, "satx", r);
        let o = guard(|| scalar_at(&a, i).map(|_| ()));
        l.insert("x".into(), json!([i.min(1 << 30)]));
        l.insert("k".into(), json!(o.tag()));
        l.insert("m".into(), json!(o.msg()));
        t.obs(serde_json::Value::Object(l));
    }
}
pub fn some_indices(rng: &mut StdRng, n: usize, k: usize) -> Vec<usize> {
    if n <= k {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, n - 1, n / 2];
    for b in [1023, 1024, 1025, 2047, 2048] {
        if b < n {
            v.push(b);
        }
    }
    while v.len() < k {
        v.push(rng.gen_range(0..n));
    }
    v
}
pub fn a02(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let opt = GenOpt { weird_floats: true, ..Default::default() };
    sweep(sink, seed, "A02", &all_kinds(), cfg, opt, |_, _| {}, |t, rng, r, _| {
        let Some(r) = pre_op(t, rng, r) else { return };
        let n = t.reg(r).unwrap().vals.len();
        let idx = some_indices(rng, n, 40);
        obs_points(t, r, &idx);
    });
}
pub fn a03(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let opt = GenOpt { weird_floats: true, ..Default::default() };
    sweep(sink, seed, "A03", &all_kinds(), cfg, opt, |_, _| {}, |t, rng, r0, _| {
        let r = if rng.gen_bool(0.7) { Some(r0) } else { pre_op(t, rng, r0) };
        let Some(r) = r else { return };
        let n = t.reg(r).unwrap().vals.len();
        let mut cur = r;
        for _ in 0..rng.gen_range(1..4) {
            let n = t.reg(cur).unwrap().vals.len();
            let (s, e) = rand_range(rng, n);
            match op_slice(t, cur, s, e) {
                Some(x) => cur = x,
                None => break,
            }
        }
        let (s, e) = rand_range(rng, n);
        op_slice(t, r, s, e);
        // rejected ranges
        match rng.gen_range(0..4) {
            0 => op_slice(t, r, 0, n + 1),
            1 => op_slice(t, r, n + 1, n + 1),
            2 => op_slice(t, r, n, n + 1025),
            _ => {
                if n > 0 {
                    op_slice(t, r, n, n - 1)
                } else {
                    op_slice(t, r, 1, 0)
                }
            }
        };
        obs_same(t, r0);
    });
}
pub fn a04(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let opt = GenOpt { weird_floats: true, ..Default::default() };
    sweep(sink, seed, "A04", &all_kinds(), cfg, opt, |_, _| {}, |t, rng, r0, _| {
        let Some(r) = pre_op(t, rng, r0) else { return };
        let n = t.reg(r).unwrap().vals.len();
        for _ in 0..2 {
            let idx = rand_indices(rng, n);
            if let Some(x) = op_take(t, rng, r, &idx) {
                if rng.gen_bool(0.3) {
                    let n = t.reg(x).unwrap().vals.len();
                    let idx = rand_indices(rng, n);
                    op_take(t, rng, x, &idx);
                }
            }
        }
        obs_same(t, r0);
    });
}
pub fn a05(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let opt = GenOpt { weird_floats: true, ..Default::default() };
    sweep(sink, seed, "A05", &all_kinds(), cfg, opt, |_, _| {}, |t, rng, r0, _| {
        let Some(r) = pre_op(t, rng, r0) else { return };
        let n = t.reg(r).unwrap().vals.len();
        for i in 0..2 {
            let mask = rand_mask(rng, n);
            op_filter(t, rng, r, &mask, if i == 0 { 0.0 } else { 0.7 });
        }
        // wrong length / wrong type
        if rng.gen_bool(0.3) {
            let mask = rand_mask(rng, n + 1);
            op_filter(t, rng, r, &mask, 0.0);
        } else if rng.gen_bool(0.3) {
            let mut l = line(t, "filter", r);
            l.insert("x".into(), json!(vec![1; n]));
            l.insert("ip".into(), json!("i32"));
            l.insert("bad".into(), json!(1));
            let reg = t.reg(r).unwrap();
            let (a, k) = (reg.arr.clone(), reg.kind.clone());
            let ma = PrimitiveArray::from(vec![1i32; n]).into_array();
            t.arr_op(l, k, None, || filter(&a, &ma));
        }
        obs_same(t, r0);
    });
}

pub fn obs_search(t: &mut Trace, rng: &mut StdRng, r: usize, keys: &[Option<V>], c: &Col) {
    let Some(reg) = t.reg(r) else { return };
    let (a, k) = (reg.arr.clone(), reg.kind.clone());
    for (side, sn) in [(SearchSortedSide::Left, "left"), (SearchSortedSide::Right, "right")] {
        let mut l = line(t, "ss", r);
        let mut ks = vec![];
        let (mut found, mut pos) = (vec![], vec![]);
        let mut msg = String::new();
        let kt: Vec<i64> = t.toks(&k, &keys.to_vec());
        let many = rng.gen_bool(0.2);
        let scal: Vec<_> = keys.iter().map(|v| scalar_of(c, v)).collect();
        let rs: Vec<Out<SearchResult>> = if many {
            match guard(|| search_sorted_many(&a, &scal, &vec![side; scal.len()])) {
                Out::Ok(v) => v.into_iter().map(Out::Ok).collect(),
                Out::Err(m) => vec![Out::Err(m)],
                Out::Unsup(m) => vec![Out::Unsup(m)],
                Out::Panic(m) => vec![Out::Panic(m)],
            }
        } else {
            scal.iter().map(|s| guard(|| search_sorted(&a, s.clone(), side))).collect()
        };
        for o in rs {
            ks.push(o.tag());
            if !o.msg().is_empty() {
                msg = o.msg();
            }
            match o {
                Out::Ok(SearchResult::Found(i)) => {
                    found.push(1);
                    pos.push(i);
                }
                Out::Ok(SearchResult::NotFound(i)) => {
                    found.push(0);
                    pos.push(i);
                }
                _ => {
                    found.push(2);
                    pos.push(0);
                }
            }
        }
        l.insert("side".into(), json!(sn));
        l.insert("v".into(), json!(kt));
        l.insert("ks".into(), json!(ks));
        l.insert("found".into(), json!(found));
        l.insert("out".into(), json!(pos));
        if !msg.is_empty() {
            l.insert("m".into(), json!(msg));
        }
        t.obs(serde_json::Value::Object(l));
    }
}
pub fn a06(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let kinds: Vec<Kind> = all_kinds()
        .into_iter()
        .filter(|k| !matches!(k, Kind::Null | Kind::Struct(_) | Kind::Temporal(..)) && *k != Kind::Bool)
        .chain([Kind::Bool])
        .collect();
    sweep(
        sink,
        seed,
        "A06",
        &kinds,
        cfg,
        GenOpt::default(),
        |rng, c| {
            for v in c.vals.iter_mut() {
                if v.is_none() {
                    *v = Some(match &c.kind {
                        Kind::Bool => V::Bool(true),
                        Kind::Prim(p) if p.is_int() => V::I(3),
                        Kind::Prim(p) => float_v(*p, 2.5),
                        _ => V::Bytes(b"mm".to_vec()),
                    });
                }
            }
            c.vals.sort();
            if rng.gen_bool(0.3) {
                c.vals.dedup();
            }
        },
        |t, rng, r, c| {
            let r = match rng.gen_range(0..5) {
                0 | 1 => Some(r),
                2 | 3 => {
                    let n = t.reg(r).unwrap().vals.len();
                    let (s, e) = rand_range(rng, n);
                    op_slice(t, r, s, e)
                }
                _ => op_id(t, rng, r, "ipc"),
            };
            let Some(r) = r else { return };
            let vals = t.reg(r).unwrap().vals.clone();
            let mut keys: Vec<Option<V>> = vals.choose_multiple(rng, 6).cloned().collect();
            if let (Some(a), Some(b)) = (vals.first(), vals.last()) {
                keys.push(a.clone());
                keys.push(b.clone());
            }
            let ex: Vec<Option<V>> = extras(&mut StdRng::seed_from_u64(1), c)
                .into_iter()
                .filter(|v| t.dom.tok(v) != UNKNOWN_TOK)
                .collect();
            keys.extend(ex.choose_multiple(rng, 5).cloned());
            keys.extend(c.vals.choose_multiple(rng, 2).cloned());
            keys.retain(|k| k.is_some());
            obs_search(t, rng, r, &keys, c);
        },
    );
}

const OPS: [(Operator, &str); 6] = [
    (Operator::Eq, "eq"),
    (Operator::NotEq, "ne"),
    (Operator::Gt, "gt"),
    (Operator::Gte, "ge"),
    (Operator::Lt, "lt"),
    (Operator::Lte, "le"),
];
pub fn op_compare(t: &mut Trace, a: usize, b: usize, op: usize) -> Option<usize> {
    let mut l = line(t, "cmp", a);
    l.insert("b".into(), json!(b));
    l.insert("op".into(), json!(OPS[op].1));
    l.insert("e2".into(), json!(t.a_info(b).0));
    let (x, y) = (t.reg(a)?.arr.clone(), t.reg(b)?.arr.clone());
    let n = t.reg(a)?.vals.len() == t.reg(b)?.vals.len();
    let dt_any = [DType::Bool(Nullability::Nullable), DType::Bool(Nullability::NonNullable)];
    let r = t.arr_op(l, Kind::Bool, None, || {
        let c = compare(&x, &y, OPS[op].0)?;
        if !dt_any.contains(c.dtype()) {
            vortex_bail!("compare result has dtype {}", c.dtype());
        }
        if n && c.len() != x.len() {
            vortex_bail!("compare result has length {}", c.len());
        }
        Ok(c)
    });
    r
}
/// a column of the same length built from nearby values
pub fn sibling(rng: &mut StdRng, c: &Col, extra: &[Option<V>], nullable: bool) -> Col {
    let pool: Vec<Option<V>> = c.vals.iter().chain(extra.iter()).filter(|v| v.is_some()).cloned().collect();
    let p_same = [0.0, 0.5, 0.9][rng.gen_range(0..3)];
    let vals = c
        .vals
        .iter()
        .map(|v| {
            if nullable && rng.gen_bool(0.2) {
                None
            } else if v.is_some() && rng.gen_bool(p_same) {
                v.clone()
            } else {
                pool.choose(rng).cloned().unwrap_or_else(|| if nullable { None } else { Some(zero_of(&c.kind)) })
            }
        })
        .collect();
    Col { kind: c.kind.clone(), nullable, vals }
}
pub fn a07(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let kinds: Vec<Kind> = all_kinds()
        .into_iter()
        .filter(|k| !matches!(k, Kind::Null | Kind::Struct(_)))
        .collect();
    let depth = cfg.depth;
    sweep(sink, seed, "A07", &kinds, cfg, GenOpt::default(), |_, _| {}, |t, rng, r, c| {
        let Some(r) = pre_op(t, rng, r) else { return };
        let vals = t.reg(r).unwrap().vals.clone();
        let cc = c.with(vals);
        let ex: Vec<Option<V>> = extras(&mut StdRng::seed_from_u64(1), c)
            .into_iter()
            .filter(|v| t.dom.tok(v) != UNKNOWN_TOK || matches!(c.kind, Kind::Bool))
            .collect();
        let nl = rng.gen_bool(0.5);
        let sib = sibling(rng, &cc, &ex, nl);
        let o = EncOpt { exotic_validity: 0.0, depth, tame: false };
        let e2 = *encs_for(&sib).choose(rng).unwrap();
        if let Some(b) = start(t, rng, e2, &sib, o) {
            for _ in 0..2 {
                let k = rng.gen_range(0..6);
                op_compare(t, r, b, k);
            }
        }
        // constants, on either side
        if !cc.vals.is_empty() {
            let mut pool = cc.vals.clone();
            pool.extend(ex);
            pool.retain(|v| v.is_some());
            let nullc = rng.gen_bool(0.1);
            let v = if nullc { None } else { pool.choose(rng).cloned().flatten() };
            if let Some(v) = v.map(Some).or(if nullc { Some(None) } else { None }) {
                let k = Col { kind: c.kind.clone(), nullable: v.is_none() || rng.gen_bool(0.3), vals: vec![v; cc.len()] };
                let l = m(json!({"o": "enc", "e": "constant", "a": 0, "in": t.toks(&k.kind, &k.vals), "n": k.kind.name()}));
                let want = dtype(&k);
                let made = t.arr_op(l, k.kind.clone(), Some(&want), || {
                    Ok(ConstantArray::new(scalar_of(&k, &k.vals[0]), k.len()).into_array())
                });
                if let Some(b) = made {
                    for _ in 0..2 {
                        let op = rng.gen_range(0..6);
                        op_compare(t, r, b, op);
                        let op = rng.gen_range(0..6);
                        op_compare(t, b, r, op);
                    }
                }
            }
        }
        // lengths that do not match
        if rng.gen_bool(0.15) {
            let mut v = cc.vals.clone();
            v.push(cc.vals.first().cloned().unwrap_or_else(|| if cc.nullable { None } else { Some(zero_of(&c.kind)) }));
            let k = cc.with(v);
            if let Some(b) = start(t, rng, "plain", &k, o) {
                op_compare(t, r, b, rng.gen_range(0..6));
                op_compare(t, b, r, rng.gen_range(0..6));
            }
        }
    });
}
pub fn op_bool2(t: &mut Trace, op: &str, a: usize, b: usize) -> Option<usize> {
    let mut l = line(t, op, a);
    l.insert("b".into(), json!(b));
    l.insert("e2".into(), json!(t.a_info(b).0));
    let (x, y) = (t.reg(a)?.arr.clone(), t.reg(b)?.arr.clone());
    if !matches!((&t.reg(a)?.kind, &t.reg(b)?.kind), (Kind::Bool, Kind::Bool)) {
        l.insert("bad".into(), json!(1));
    }
    let is_and = op == "and";
    t.arr_op(l, Kind::Bool, None, || if is_and { and(&x, &y) } else { or(&x, &y) })
}
pub fn op_invert(t: &mut Trace, a: usize) -> Option<usize> {
    let l = line(t, "inv", a);
    let x = t.reg(a)?.arr.clone();
    let dt = x.dtype().clone();
    t.arr_op(l, Kind::Bool, Some(&dt), || invert_any(&x))
}
fn invert_any(x: &Array) -> VortexResult<Array> {
    match enc_id(x).as_str() {
        "bool" => BoolArray::try_from(x.clone())?.invert(),
        "bytebool" => vortex_bytebool::ByteBoolArray::try_from(x.clone())?.invert(),
        "roaring_bool" => vortex_roaring::RoaringBoolArray::try_from(x.clone())?.invert(),
        "runendbool" => vortex_runend_bool::RunEndBoolArray::try_from(x.clone())?.invert(),
        "sparse" => SparseArray::try_from(x.clone())?.invert(),
        "constant" => ConstantArray::try_from(x.clone())?.invert(),
        "chunked" => ChunkedArray::try_from(x.clone())?.invert(),
        _ => x.clone().into_bool()?.invert(),
    }
}
pub fn a08(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let depth = cfg.depth;
    sweep(sink, seed, "A08", &[Kind::Bool], cfg, GenOpt::default(), |_, _| {}, |t, rng, r, _| {
        let Some(r) = pre_op(t, rng, r) else { return };
        let n = t.reg(r).unwrap().vals.len();
        op_invert(t, r);
        let nl = rng.gen_bool(0.6);
        let sib = gen_col(rng, &Kind::Bool, nl, n, GenOpt::default());
        let e2 = *encs_for(&sib).choose(rng).unwrap();
        let o = EncOpt { exotic_validity: 0.1, depth, tame: false };
        if let Some(b) = start(t, rng, e2, &sib, o) {
            op_bool2(t, "and", r, b);
            op_bool2(t, "or", r, b);
            op_bool2(t, "and", b, r);
            op_bool2(t, "or", b, r);
        }
        if n > 0 {
            let b = rng.gen_bool(0.5);
            let k = Col { kind: Kind::Bool, nullable: rng.gen_bool(0.3), vals: vec![Some(V::Bool(b)); n] };
            if let Some(b) = start(t, rng, "constant", &k, o) {
                op_bool2(t, "and", r, b);
                op_bool2(t, "or", b, r);
            }
        }
        if rng.gen_bool(0.2) {
            // an operand that is not boolean, on either side
            let kinds = all_kinds();
            let k = kinds.choose(rng).unwrap();
            let nl2 = rng.gen_bool(0.5) || *k == Kind::Null;
            let k = gen_col(rng, k, nl2, n, GenOpt::default());
            let e2 = *encs_for(&k).choose(rng).unwrap();
            if let Some(b) = start(t, rng, e2, &k, o) {
                op_bool2(t, "and", r, b);
                op_bool2(t, "or", r, b);
                op_bool2(t, "and", b, r);
                op_bool2(t, "or", b, r);
            }
        }
        if rng.gen_bool(0.1) {
            let k = gen_col(rng, &Kind::Bool, false, n + 1, GenOpt::default());
            if let Some(b) = start(t, rng, "plain", &k, o) {
                op_bool2(t, "and", r, b);
                op_bool2(t, "or", b, r);
            }
        }
    });
}

pub const STATS: [(Stat, &str); 10] = [
    (Stat::Min, "min"),
    (Stat::Max, "max"),
    (Stat::NullCount, "null_count"),
    (Stat::TrueCount, "true_count"),
    (Stat::IsConstant, "is_constant"),
    (Stat::IsSorted, "is_sorted"),
    (Stat::IsStrictSorted, "is_strict_sorted"),
    (Stat::RunCount, "run_count"),
    (Stat::BitWidthFreq, "bit_width_freq"),
    (Stat::TrailingZeroFreq, "trailing_zero_freq"),
];
pub fn stat_val(t: &Trace, k: &Kind, name: &str, v: &Vec<Option<V>>) -> Vec<i64> {
    match name {
        "min" | "max" => t.toks(k, v),
        "is_constant" | "is_sorted" | "is_strict_sorted" => bool_toks(v),
        _ => v
            .iter()
            .map(|x| match x {
                Some(V::I(i)) => (*i).clamp(-1, 2_000_000_000) as i64,
                _ => NULL_TOK,
            })
            .collect(),
    }
}
/// only what the array already reports, without computing
pub fn obs_cached_stats(t: &mut Trace, r: usize, how: &str) {
    use vortex::stats::ArrayStatistics;
    let Some(reg) = t.reg(r) else { return };
    let (a, k) = (reg.arr.clone(), reg.kind.clone());
    for (st, name) in STATS {
        let o = guard(|| {
            Ok(a.statistics().get(st).map(|s| match s.value() {
                vortex_scalar::ScalarValue::List(l) => l
                    .iter()
                    .map(|x| match x {
                        vortex_scalar::ScalarValue::Primitive(p) => Some(pvalue_to_v(p)),
                        _ => None,
                    })
                    .collect(),
                _ => vec![scalar_to_v(&s)],
            }))
        });
        push_stat(t, r, &k, name, how, o);
    }
}
fn push_stat(t: &mut Trace, r: usize, k: &Kind, name: &str, how: &str, o: Out<Option<Vec<Option<V>>>>) {
    let mut l = line(t, "stat", r);
    l.insert("s".into(), json!(name));
    l.insert("w".into(), json!(how));
    l.insert("k".into(), json!(o.tag()));
    if !o.msg().is_empty() {
        l.insert("m".into(), json!(o.msg()));
    }
    let (has, v) = match &o {
        Out::Ok(Some(v)) => (1, stat_val(t, k, name, v)),
        Out::Ok(None) => {
            return;
        }
        _ => (0, vec![]),
    };
    l.insert("has".into(), json!(has));
    l.insert("v".into(), json!(v));
    let joined = l["d"].as_str().is_some_and(|d| d.contains("chunked"));
    l.insert("c".into(), json!(joined as u8));
    // tokens of bool columns are 0/1, of others ranks
    t.obs(serde_json::Value::Object(l));
}
pub fn obs_stats(t: &mut Trace, rng: &mut StdRng, r: usize) {
    let Some(reg) = t.reg(r) else { return };
    let (a, k) = (reg.arr.clone(), reg.kind.clone());
    let mut order: Vec<usize> = (0..STATS.len()).collect();
    order.shuffle(rng);
    let keep = rng.gen_range(3..=10);
    order.truncate(keep);
    for i in order {
        let (st, name) = STATS[i];
        let o = stat_obs(&a, st);
        push_stat(t, r, &k, name, "computed", o);
    }
}
pub fn a09(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let kinds: Vec<Kind> = all_kinds();
    sweep(
        sink,
        seed,
        "A09",
        &kinds,
        cfg,
        GenOpt::default(),
        |rng, c| {
            let mode = rng.gen_range(0..6);
            match mode {
                0 | 1 => c.vals.sort(),
                2 => {
                    c.vals.sort();
                    c.vals.dedup();
                    if rng.gen_bool(0.3) && c.vals.len() > 2 {
                        let n = c.vals.len();
                        c.vals.swap(n - 1, n - 2);
                    }
                }
                3 => {
                    let v = c.vals.first().cloned();
                    if let Some(v) = v {
                        let n = c.vals.len();
                        c.vals = vec![v; n];
                        if rng.gen_bool(0.4) && c.nullable && n > 1 {
                            let i = rng.gen_range(0..n);
                            c.vals[i] = None;
                        }
                    }
                }
                _ => {}
            }
        },
        |t, rng, r0, _| {
            if rng.gen_bool(0.5) {
                obs_cached_stats(t, r0, "initial");
            }
            if rng.gen_bool(0.6) {
                obs_stats(t, rng, r0);
            }
            if let Some(r) = pre_op(t, rng, r0) {
                if r != r0 {
                    obs_cached_stats(t, r, "inherited");
                }
                if r != r0 || rng.gen_bool(0.5) {
                    obs_stats(t, rng, r);
                }
            }
            obs_same(t, r0);
        },
    );
}

fn op_cast(t: &mut Trace, r: usize, p: PType, n: Nullability) -> Option<usize> {
    let mut l = line(t, "cast", r);
    l.insert("to".into(), json!(format!("{p}")));
    let (lo, hi) = int_range(p);
    // bounds of the target as tokens: the values themselves, or ranks when the domain holds the bounds
    let ranked = t.dom.knows(&V::I(i64::MIN as i128));
    let c = |x: i128| if ranked { t.dom.tok(&Some(V::I(x))) } else { x.clamp(-2_000_000_000, 2_000_000_000) as i64 };
    l.insert("lo".into(), json!(c(lo)));
    l.insert("hi".into(), json!(c(hi)));
    l.insert("nn".into(), json!((n == Nullability::NonNullable) as u8));
    l.insert("fl".into(), json!(p.is_float() as u8));
    let a = t.reg(r)?.arr.clone();
    let dt = DType::Primitive(p, n);
    t.arr_op(l, Kind::Prim(p), Some(&dt), || try_cast(&a, &dt))
}
/// fill forward over every shape of nulls (whole, leading, trailing, alternating), and in slices
fn fill_patterns(sink: &mut Sink, rng: &mut StdRng, c: &Col, rep: usize, seed: u64) {
    let n = 70;
    let src: Vec<V> = c.vals.iter().flatten().cloned().collect();
    for pat in 0..6 {
        let k = rng.gen_range(1..n);
        let vals: Vals = (0..n)
            .map(|i| {
                let valid = match pat {
                    0 => false,
                    1 => i >= k,
                    2 => i < k,
                    3 => i % 2 == 1,
                    4 => !(8..65).contains(&i),
                    _ => true,
                };
                if valid {
                    Some(src.choose(rng).cloned().unwrap_or_else(|| zero_of(&c.kind)))
                } else {
                    None
                }
            })
            .collect();
        let col = c.with(vals);
        let mut t = Trace::new(format!("A11/ff{pat}/{}/{rep}/{seed}", c.kind.name()), Domain::literal(), "plain".into());
        sink.begin(&t.id);
        let o = EncOpt { exotic_validity: 0.0, depth: 0, tame: false };
        if let Some(r) = start(&mut t, rng, "plain", &col, o) {
            let mut regs = vec![r];
            for (s, e) in [(1, k + 1), (9, 60), (k, n)] {
                if let Some(x) = op_slice(&mut t, r, s.min(e), e) {
                    regs.push(x);
                }
            }
            for r in regs {
                let mut l = line(&t, "ff", r);
                l.insert("z".into(), json!(t.dom.tok(&Some(zero_of(&c.kind)))));
                let a = t.reg(r).unwrap().arr.clone();
                let dt = a.dtype().clone();
                t.arr_op(l, c.kind.clone(), Some(&dt), || fill_forward(&a));
            }
        }
        sink.push(&t);
    }
}

pub fn a11(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    // integer-valued data, tokens are the values
    let kinds: Vec<Kind> = INTS
        .iter()
        .map(|p| Kind::Prim(*p))
        .chain([Kind::Prim(PType::F32), Kind::Prim(PType::F64)])
        .collect();
    let allp: Vec<PType> = INTS.iter().copied().chain([PType::F32, PType::F64]).collect();
    for (ki, kind) in kinds.iter().chain([Kind::Bool].iter()).enumerate() {
        let p = match kind {
            Kind::Prim(p) => *p,
            _ => PType::U8,
        };
        for nullable in [false, true] {
            for rep in 0..cfg.reps {
                let mut rng = StdRng::seed_from_u64(seed * 7919 + (ki * 1000 + rep * 2 + nullable as usize) as u64 + 11);
                let rng = &mut rng;
                let n = gen_len(rng, cfg.big);
                let (lo, hi) = if p.is_int() { int_range(p) } else { (-100_000, 100_000) };
                let (lo, hi) = (lo.max(-1_000_000_000), hi.min(1_000_000_000));
                let spread = *[5i128, 100, 300, 70_000, 1_000_000_000].choose(rng).unwrap();
                let base = rng.gen_range(lo..=hi);
                let zero = rng.gen_bool(0.5);
                let (l, h) = if zero {
                    (lo.max(-spread), hi.min(spread))
                } else {
                    ((base - spread).max(lo), (base + spread).min(hi))
                };
                let mut vals: Vals = (0..n)
                    .map(|_| {
                        let x = if rng.gen_bool(0.05) { [l, h][rng.gen_range(0..2)] } else { rng.gen_range(l..=h) };
                        Some(if *kind == Kind::Bool {
                            V::Bool(x > 0)
                        } else if p.is_int() {
                            V::I(x)
                        } else {
                            float_v(p, x as f64)
                        })
                    })
                    .collect();
                if nullable {
                    let d = *[0.0, 0.1, 0.5, 1.0].choose(rng).unwrap();
                    for v in vals.iter_mut() {
                        if rng.gen_bool(d) {
                            *v = None;
                        }
                    }
                }
                let mut c = Col { kind: kind.clone(), nullable, vals };
                if nullable {
                    fill_patterns(sink, rng, &c, rep, seed);
                }
                let wide = p.is_int() && *kind != Kind::Bool && rng.gen_bool(0.35);
                if wide {
                    c = gen_col(rng, kind, nullable, n, GenOpt::default());
                }
                for e in encs_for(&c) {
                    let mut rng = StdRng::from_rng(&mut *rng).unwrap();
                    let rng = &mut rng;
                    let o = eopt(rng, cfg);
                    let mut t = Trace::new(
                        format!("A11/{}{}/{rep}/{e}/{seed}", kind.name(), if nullable { "?" } else { "" }),
                        if wide {
                            let bounds: Vals = INTS
                                .iter()
                                .flat_map(|q| [int_range(*q).0, int_range(*q).1])
                                .map(|x| Some(V::I(x)))
                                .collect();
                            Domain::new(c.vals.iter().chain(bounds.iter()))
                        } else {
                            Domain::literal()
                        },
                        e.into(),
                    );
                    sink.begin(&t.id);
                    let Some(r) = start(&mut t, rng, e, &c, o) else {
                        sink.push(&t);
                        continue;
                    };
                    let r = if rng.gen_bool(0.5) { Some(r) } else { pre_op(&mut t, rng, r) };
                    let Some(r) = r else {
                        sink.push(&t);
                        continue;
                    };
                    // fill forward
                    {
                        let mut l = line(&t, "ff", r);
                        l.insert("z".into(), json!(t.dom.tok(&Some(zero_of(kind)))));
                        let a = t.reg(r).unwrap().arr.clone();
                        let dt = a.dtype().clone();
                        t.arr_op(l, kind.clone(), Some(&dt), || fill_forward(&a));
                    }
                    if *kind != Kind::Bool {
                        for _ in 0..2 {
                            let to = *(if wide { INTS.choose(rng) } else { allp.choose(rng) }).unwrap();
                            let nn = if rng.gen_bool(0.7) { c.nullability() } else if rng.gen() { Nullability::Nullable } else { Nullability::NonNullable };
                            op_cast(&mut t, r, to, nn);
                        }
                        // subtract a constant that keeps all values in range
                        let vv: Vec<i64> = t.reg(r).unwrap().vals.iter().flatten().map(|v| t.dom.tok(&Some(v.clone()))).collect();
                        let (mn, mx) = (vv.iter().min().copied().unwrap_or(0) as i128, vv.iter().max().copied().unwrap_or(0) as i128);
                        let (tlo, thi) = if p.is_int() { int_range(p) } else { (-1_000_000, 1_000_000) };
                        let (tlo, thi) = (tlo.max(-1_500_000_000), thi.min(1_500_000_000));
                        // lo <= x - s <= hi
                        let (slo, shi) = ((mx - thi).max(tlo), (mn - tlo).min(thi));
                        if slo <= shi && !wide {
                            let s = match rng.gen_range(0..3) {
                                0 => slo,
                                1 => (0i128).clamp(slo, shi),
                                _ => rng.gen_range(slo..=shi),
                            };
                            let sv = if p.is_int() { V::I(s) } else { float_v(p, s as f64) };
                            let sc = prim_scalar(p, &sv, c.nullability());
                            let mut l = line(&t, "sub", r);
                            l.insert("c".into(), json!(s as i64));
                            let a = t.reg(r).unwrap().arr.clone();
                            let dt = a.dtype().clone();
                            t.arr_op(l, kind.clone(), Some(&dt), || subtract_scalar(&a, &sc));
                        }
                    }
                    sink.push(&t);
                }
            }
        }
    }
}

/// chunk boundaries
pub fn a12(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for (ki, kind) in all_kinds().iter().enumerate() {
        for nullable in [false, true] {
            if *kind == Kind::Null && !nullable {
                continue;
            }
            for rep in 0..cfg.reps {
                let mut rng = StdRng::seed_from_u64(seed * 104729 + (ki * 1000 + rep * 2 + nullable as usize) as u64 + 12);
                let rng = &mut rng;
                let n = gen_len(rng, cfg.big);
                let mut c = gen_col(rng, kind, nullable, n, GenOpt::default());
                let sorted = rng.gen_bool(0.3) && !c.has_null();
                if sorted {
                    c.vals.sort();
                }
                let ex = extras(rng, &c);
                let dom = Domain::new(c.vals.iter().chain(ex.iter()));
                let mut t = Trace::new(format!("A12/{}{}/{rep}/{seed}", kind.name(), if nullable { "?" } else { "" }), dom, "chunked".into());
                sink.begin(&t.id);
                let o = eopt(rng, cfg);
                if let Some(r0) = start(&mut t, rng, "chunked", &c, o) {
                    let nl = t.reg(r0).unwrap().vals.len();
                    let idx = some_indices(rng, nl, 25);
                    obs_points(&mut t, r0, &idx);
                    let (s, e) = rand_range(rng, nl);
                    let r1 = op_slice(&mut t, r0, s, e);
                    let idx = rand_indices(rng, nl);
                    op_take(&mut t, rng, r0, &idx);
                    let mask = rand_mask(rng, nl);
                    op_filter(&mut t, rng, r0, &mask, 0.0);
                    if let Some(r1) = r1 {
                        let n1 = t.reg(r1).unwrap().vals.len();
                        let idx = rand_indices(rng, n1);
                        op_take(&mut t, rng, r1, &idx);
                        let mask = rand_mask(rng, n1);
                        op_filter(&mut t, rng, r1, &mask, 0.0);
                        op_id(&mut t, rng, r1, "canon");
                    }
                    if !matches!(kind, Kind::Null | Kind::Struct(_)) {
                        // both operands chunked, differently
                        let sib = sibling(rng, &c, &[], nullable);
                        if let Some(b) = start(&mut t, rng, "chunked", &sib, o) {
                            for _ in 0..2 {
                                op_compare(&mut t, r0, b, rng.gen_range(0..6));
                            }
                            if *kind == Kind::Bool {
                                op_bool2(&mut t, "and", r0, b);
                                op_bool2(&mut t, "or", b, r0);
                            }
                        }
                    }
                    if sorted && !matches!(kind, Kind::Null | Kind::Struct(_) | Kind::Temporal(..)) && !c.has_null() {
                        let keys: Vec<Option<V>> = c.vals.choose_multiple(rng, 8).cloned().collect();
                        obs_search(&mut t, rng, r0, &keys, &c);
                    }
                    // chunk offsets, iterator, rechunk
                    obs_chunks(&mut t, rng, r0);
                }
                sink.push(&t);
            }
        }
    }
}
pub fn obs_chunks(t: &mut Trace, rng: &mut StdRng, r: usize) {
    let Some(reg) = t.reg(r) else { return };
    let (a, k) = (reg.arr.clone(), reg.kind.clone());
    let dt = a.dtype().clone();
    let Ok(ch) = ChunkedArray::try_from(a.clone()) else { return };
    let obs = |t: &Trace, how: &str, lim: usize, res: Out<Vec<Array>>, inlens: Vec<usize>| {
        let mut l = line(t, "parts", r);
        l.insert("w".into(), json!(how));
        l.insert("k".into(), json!(res.tag()));
        l.insert("lim".into(), json!(lim));
        l.insert("ins".into(), json!(inlens));
        if !res.msg().is_empty() {
            l.insert("m".into(), json!(res.msg()));
        }
        let mut out: Vec<Vec<i64>> = vec![];
        let mut dtok = 1;
        if let Out::Ok(v) = res {
            for x in v {
                if x.dtype() != &dt {
                    dtok = 0;
                }
                match guard(|| decode(&x)) {
                    Out::Ok(v) => out.push(t.toks(&k, &v)),
                    o => {
                        l.insert("k".into(), json!(format!("decode-{}", o.tag())));
                        l.insert("m".into(), json!(o.msg()));
                    }
                }
            }
        }
        l.insert("dt".into(), json!(dtok));
        l.insert("out".into(), json!(out));
        serde_json::Value::Object(l)
    };
    let inl: Vec<usize> = ch.chunks().map(|c| c.len()).collect();
    let o1 = obs(t, "chunks", 0, guard(|| Ok(ch.chunks().collect())), inl.clone());
    t.obs(o1);
    let o2 = obs(
        t,
        "iter",
        0,
        guard(|| {
            let it = a.clone().into_array_iterator();
            if it.dtype() != &dt {
                vortex_bail!("iterator dtype");
            }
            it.collect::<VortexResult<Vec<_>>>()
        }),
        inl.clone(),
    );
    t.obs(o2);
    let o2 = obs(
        t,
        "stream",
        0,
        guard(|| {
            use futures::TryStreamExt;
            futures_executor::block_on(ch.array_stream().try_collect::<Vec<_>>())
        }),
        inl.clone(),
    );
    t.obs(o2);
    for _ in 0..2 {
        let rows = *[1usize, 2, 3, 7, 64, 1000, usize::MAX >> 1].choose(rng).unwrap();
        let bytes = *[1usize, 16, 200, 1 << 20, usize::MAX >> 1].choose(rng).unwrap();
        let o3 = obs(
            t,
            "rechunk",
            rows.min(1_000_000_000),
            guard(|| {
                let x = ch.rechunk(bytes, rows)?;
                Ok(x.chunks().collect())
            }),
            inl.clone(),
        );
        t.obs(o3);
    }
}

/// random histories
pub fn a15(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let steps_max = 3 + cfg.depth * 3;
    sweep(
        sink,
        seed,
        "A15",
        &all_kinds(),
        cfg,
        GenOpt { weird_floats: false, ..Default::default() },
        |_, _| {},
        |t, rng, r0, _| {
            let mut live = vec![r0];
            for _ in 0..rng.gen_range(2..=steps_max) {
                let r = *live.choose(rng).unwrap();
                let r = if rng.gen_bool(0.6) { *live.last().unwrap() } else { r };
                let n = t.reg(r).unwrap().vals.len();
                let x = match rng.gen_range(0..12) {
                    0..=2 => {
                        let (s, e) = rand_range(rng, n);
                        op_slice(t, r, s, e)
                    }
                    3 | 4 => {
                        let idx = rand_indices(rng, n);
                        op_take(t, rng, r, &idx)
                    }
                    5 | 6 => {
                        let mask = rand_mask(rng, n);
                        op_filter(t, rng, r, &mask, 0.1)
                    }
                    7 => op_id(t, rng, r, "canon"),
                    8 => op_id(t, rng, r, "ipc"),
                    9 => op_id(t, rng, r, "rechunk"),
                    10 => op_id(t, rng, r, "reenc"),
                    _ => op_id(t, rng, r, "compress"),
                };
                if let Some(x) = x {
                    live.push(x);
                    if rng.gen_bool(0.2) {
                        let n = t.reg(x).unwrap().vals.len();
                        let idx = some_indices(rng, n, 6);
                        obs_points(t, x, &idx);
                    }
                } else {
                    break;
                }
            }
            for r in live {
                obs_same(t, r);
            }
        },
    );
}

/// arrays read back from an IPC stream support the operations of the originals
pub fn s01ops(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    sweep(
        sink,
        seed,
        "S01",
        &all_kinds(),
        cfg,
        GenOpt { weird_floats: false, ..Default::default() },
        |_, _| {},
        |t, rng, r0, c| {
            let Some(r) = op_id(t, rng, r0, "ipc") else {
                return;
            };
            let n = t.reg(r).unwrap().vals.len();
            let idx = some_indices(rng, n, 12);
            obs_points(t, r, &idx);
            let (s, e) = rand_range(rng, n);
            let s1 = op_slice(t, r, s, e);
            let idx = rand_indices(rng, n);
            op_take(t, rng, r, &idx);
            let mask = rand_mask(rng, n);
            op_filter(t, rng, r, &mask, 0.1);
            if !matches!(c.kind, Kind::Null | Kind::Struct(_)) {
                let sib = sibling(rng, c, &[], c.nullable);
                let encs = encs_for(&sib);
                let e2 = *encs.choose(rng).unwrap();
                let o = eopt(rng, cfg);
                if let Some(b) = start(t, rng, e2, &sib, o) {
                    if t.reg(b).map(|x| x.vals.len()) == Some(n) {
                        op_compare(t, r, b, rng.gen_range(0..6));
                    }
                }
            }
            if rng.gen_bool(0.3) {
                obs_stats(t, rng, r);
            }
            if let Some(s1) = s1 {
                op_id(t, rng, s1, "ipc");
            }
            op_id(t, rng, r, "canon");
        },
    );
}
