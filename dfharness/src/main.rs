//! D01: queries over Vortex tables through DataFusion.
use std::sync::Arc;

use datafusion::arrow::array::{Array as _, AsArray, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Int64Type};
use datafusion::datasource::TableProvider;
use datafusion::functions_aggregate::expr_fn::{count, max, min};
use datafusion::physical_plan::collect;
use datafusion::prelude::*;
use datafusion_common::stats::Precision;
use datafusion_common::{Column, ScalarValue};
use datafusion_expr::{lit, Expr};
use futures::executor::block_on;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::ObjectStore;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use vharness::arrow::dec_arrow;
use vharness::beh::{names, Names};
use vharness::enc::EncOpt;
use vharness::file::{lines_trace, write_file};
use vharness::rec::{guard, Out, Sink};
use vharness::tab::*;
use vharness::val::*;
use vortex::array::ChunkedArray;
use vortex::arrow::infer_schema;
use vortex::compute::slice;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, IntoArray, IntoArrayVariant};
use vortex_datafusion::memory::{VortexMemTable, VortexMemTableOptions};
use vortex_datafusion::persistent::config::{VortexFile, VortexTableOptions};
use vortex_datafusion::persistent::provider::VortexFileTableProvider;
use vortex_dtype::PType;
use vortex_error::{vortex_bail, vortex_err, VortexResult};

/// a value as a literal of the engine
fn df_lit(k: &Kind, v: &Option<V>, how: u32) -> ScalarValue {
    macro_rules! i {
        ($F:ident, $T:ty) => {
            ScalarValue::$F(v.as_ref().map(|v| match v {
                V::I(i) => *i as $T,
                _ => unreachable!(),
            }))
        };
    }
    match k {
        Kind::Bool => ScalarValue::Boolean(v.as_ref().map(|v| *v == V::Bool(true))),
        Kind::Prim(PType::U8) => i!(UInt8, u8),
        Kind::Prim(PType::U16) => i!(UInt16, u16),
        Kind::Prim(PType::U32) => i!(UInt32, u32),
        Kind::Prim(PType::U64) => i!(UInt64, u64),
        Kind::Prim(PType::I8) => i!(Int8, i8),
        Kind::Prim(PType::I16) => i!(Int16, i16),
        Kind::Prim(PType::I32) if how == 1 => i!(Int64, i64),
        Kind::Prim(PType::I32) => i!(Int32, i32),
        Kind::Prim(PType::I64) => i!(Int64, i64),
        Kind::Prim(PType::F32) => ScalarValue::Float32(v.as_ref().map(vharness::enc::native::<f32>)),
        Kind::Prim(PType::F64) => ScalarValue::Float64(v.as_ref().map(vharness::enc::native::<f64>)),
        Kind::Prim(PType::F16) => unreachable!(),
        Kind::Utf8 => {
            let s = v.as_ref().map(|v| match v {
                V::Bytes(b) => String::from_utf8(b.clone()).unwrap(),
                _ => unreachable!(),
            });
            match how {
                0 => ScalarValue::Utf8(s),
                1 => ScalarValue::LargeUtf8(s),
                _ => ScalarValue::Utf8View(s),
            }
        }
        Kind::Binary => {
            let s = v.as_ref().map(|v| match v {
                V::Bytes(b) => b.clone(),
                _ => unreachable!(),
            });
            match how {
                0 => ScalarValue::Binary(s),
                _ => ScalarValue::BinaryView(s),
            }
        }
        Kind::Temporal(id, u) => {
            let tz: Option<Arc<str>> = (*id == "tz").then(|| "Europe/London".into());
            macro_rules! ts {
                ($F:ident) => {
                    ScalarValue::$F(
                        v.as_ref().map(|v| match v {
                            V::I(i) => *i as i64,
                            _ => unreachable!(),
                        }),
                        tz,
                    )
                };
            }
            match (*id, *u) {
                ("date", 4) => i!(Date32, i32),
                ("date", _) => i!(Date64, i64),
                ("time", 0) => i!(Time64Nanosecond, i64),
                ("time", 1) => i!(Time64Microsecond, i64),
                ("time", 2) => i!(Time32Millisecond, i32),
                ("time", _) => i!(Time32Second, i32),
                (_, 0) => ts!(TimestampNanosecond),
                (_, 1) => ts!(TimestampMicrosecond),
                (_, 2) => ts!(TimestampMillisecond),
                _ => ts!(TimestampSecond),
            }
        }
        _ => unreachable!(),
    }
}

/// a predicate; beyond what Vortex evaluates there are NOT and IS NULL
#[derive(Clone, Debug)]
enum Q {
    Ex(Ex),
    And(Box<Q>, Box<Q>),
    Or(Box<Q>, Box<Q>),
    Not(Box<Q>),
    IsNull(Box<Q>),
}
fn col_expr(t: &Tab, i: usize) -> Expr {
    Expr::Column(Column::new_unqualified(t.names[i].clone()))
}
fn ex_df(rng: &mut StdRng, t: &Tab, e: &Ex) -> Expr {
    match e {
        Ex::Col(i) => col_expr(t, *i),
        Ex::Lit(k, _, v) => lit(df_lit(k, v, rng.gen_range(0..3))),
        Ex::Cmp(o, l, r) => {
            let (l, r) = (ex_df(rng, t, l), ex_df(rng, t, r));
            match o {
                0 => l.eq(r),
                1 => l.not_eq(r),
                2 => l.gt(r),
                3 => l.gt_eq(r),
                4 => l.lt(r),
                _ => l.lt_eq(r),
            }
        }
        Ex::And(l, r) => ex_df(rng, t, l).and(ex_df(rng, t, r)),
        Ex::Or(l, r) => ex_df(rng, t, l).or(ex_df(rng, t, r)),
    }
}
impl Q {
    fn df(&self, rng: &mut StdRng, t: &Tab) -> Expr {
        match self {
            Q::Ex(e) => ex_df(rng, t, e),
            Q::And(l, r) => l.df(rng, t).and(r.df(rng, t)),
            Q::Or(l, r) => l.df(rng, t).or(r.df(rng, t)),
            Q::Not(l) => Expr::Not(Box::new(l.df(rng, t))),
            Q::IsNull(l) => l.df(rng, t).is_null(),
        }
    }
    fn json(&self, d: &Domain) -> Value {
        match self {
            Q::Ex(e) => e.json(d),
            Q::And(l, r) => json!({"t": "and", "l": l.json(d), "r": r.json(d)}),
            Q::Or(l, r) => json!({"t": "or", "l": l.json(d), "r": r.json(d)}),
            Q::Not(l) => json!({"t": "not", "l": l.json(d)}),
            Q::IsNull(l) => json!({"t": "null", "l": l.json(d)}),
        }
    }
    fn lits(&self, out: &mut Vec<Option<V>>) {
        match self {
            Q::Ex(e) => e.lits(out),
            Q::And(l, r) | Q::Or(l, r) => {
                l.lits(out);
                r.lits(out);
            }
            Q::Not(l) | Q::IsNull(l) => l.lits(out),
        }
    }
}
fn gen_q(rng: &mut StdRng, t: &Tab, depth: u32) -> Q {
    match rng.gen_range(0..10) {
        0 if depth > 0 => Q::Not(Box::new(gen_q(rng, t, depth - 1))),
        1 => Q::IsNull(Box::new(Q::Ex(Ex::Col(rng.gen_range(0..t.cols.len()))))),
        2 | 3 if depth > 0 => Q::And(Box::new(gen_q(rng, t, depth - 1)), Box::new(gen_q(rng, t, depth - 1))),
        4 if depth > 0 => Q::Or(Box::new(gen_q(rng, t, depth - 1)), Box::new(gen_q(rng, t, depth - 1))),
        _ => Q::Ex(gen_expr(rng, t, depth)),
    }
}

/// how a table is made available to the engine
struct Src {
    how: String,
    provider: Arc<dyn TableProvider>,
    store: Option<Arc<InMemory>>,
}
fn mem_array(rng: &mut StdRng, t: &Tab) -> VortexResult<Array> {
    let o = EncOpt { exotic_validity: if rng.gen_bool(0.2) { 0.5 } else { 0.0 }, depth: rng.gen_range(0..2), tame: false };
    let cuts = gen_cuts(rng, t.n);
    let a = match rng.gen_range(0..5) {
        0 => t.array(rng, 0, t.n, o)?,
        1 => {
            // a slice of a longer table
            let more = t.chunked(rng, &cuts, o)?;
            let both = ChunkedArray::try_new(vec![t.array(rng, 0, t.n, o)?, more], t.dtype())?.into_array();
            slice(both, t.n, 2 * t.n)?
        }
        // chunks of chunks
        2 => {
            let k = cuts.len() / 2;
            let (x, y) = (t.chunked(rng, &cuts[..k], o)?, t.chunked(rng, &cuts[k..], o)?);
            ChunkedArray::try_new(vec![x, y], t.dtype())?.into_array()
        }
        _ => t.chunked(rng, &cuts, o)?,
    };
    if rng.gen_bool(0.5) {
        // statistics that happen to be known
        let mut all = vec![];
        if let Ok(c) = ChunkedArray::try_from(&a) {
            all.extend(c.chunks());
        } else {
            all.push(a.clone());
        }
        for ch in all {
            if let Ok(s) = ch.into_struct() {
                for f in s.children() {
                    for st in [Stat::Min, Stat::Max, Stat::NullCount] {
                        if rng.gen_bool(0.6) {
                            let _ = guard(|| Ok(f.statistics().compute(st)));
                        }
                    }
                }
            }
        }
    }
    Ok(a)
}
fn source(rng: &mut StdRng, t: &Tab) -> VortexResult<Src> {
    let (mem, push) = (rng.gen_bool(0.6), rng.gen_bool(0.75));
    source_of(rng, t, mem, push)
}
fn source_of(rng: &mut StdRng, t: &Tab, mem: bool, push: bool) -> VortexResult<Src> {
    if mem {
        let a = mem_array(rng, t)?;
        let p = VortexMemTable::new(a, VortexMemTableOptions::default().with_pushdown(push));
        return Ok(Src { how: format!("mem{}", if push { "+push" } else { "" }), provider: Arc::new(p), store: None });
    }
    // rows over several files
    let files = rng.gen_range(1..4);
    let store = Arc::new(InMemory::new());
    let mut list = vec![];
    let mut b: Vec<usize> = (0..files - 1).map(|_| rng.gen_range(0..=t.n)).chain([0, t.n]).collect();
    b.sort();
    for (i, w) in b.windows(2).enumerate() {
        let part = Tab { names: t.names.clone(), cols: t.cols.iter().map(|c| c.sub(w[0], w[1])).collect(), n: w[1] - w[0] };
        let bytes = match write_file(rng, &part) {
            (_, Out::Ok(b)) => b,
            (how, o) => vortex_bail!("writing ({how}): {}", o.msg()),
        };
        let path = format!("f{i}.vortex");
        list.push(VortexFile::new(path.clone(), bytes.len() as u64));
        block_on(store.put(&Path::from(path), bytes.into())).map_err(|e| vortex_err!("{e}"))?;
    }
    let schema = Arc::new(infer_schema(&t.dtype())?);
    let url = datafusion::execution::object_store::ObjectStoreUrl::parse("vx://t/").unwrap();
    let p = VortexFileTableProvider::try_new(url, VortexTableOptions::new(schema, list, vharness::ipcutil::ctx())).map_err(|e| vortex_err!("{e}"))?;
    Ok(Src { how: format!("files{files}"), provider: Arc::new(p), store: Some(store) })
}

fn session(rng: &mut StdRng, s: &Src) -> SessionContext {
    let parts = if rng.gen_bool(0.7) { 1 } else { 4 };
    let cfg = SessionConfig::new().with_target_partitions(parts).with_batch_size(*[8192, 4, 1].choose(rng).unwrap());
    let ctx = SessionContext::new_with_config(cfg);
    if let Some(st) = &s.store {
        ctx.register_object_store(&url::Url::parse("vx://t/").unwrap(), st.clone());
    }
    ctx
}

fn df_err(e: datafusion::error::DataFusionError) -> vortex_error::VortexError {
    vortex_err!("{e}")
}
fn run<T>(rt: &tokio::runtime::Runtime, f: impl std::future::Future<Output = datafusion::error::Result<T>>) -> VortexResult<T> {
    rt.block_on(async {
        match tokio::time::timeout(std::time::Duration::from_secs(60), f).await {
            Ok(r) => r.map_err(df_err),
            Err(_) => vortex_bail!("no answer"),
        }
    })
}

/// columns of the batches of a result
fn columns(bs: &[RecordBatch], nc: usize) -> VortexResult<(Vec<Vals>, usize)> {
    let mut cols: Vec<Vals> = vec![vec![]; nc];
    let mut n = 0;
    for b in bs {
        if b.num_columns() != nc {
            vortex_bail!("{} columns, not {nc}", b.num_columns());
        }
        for (i, c) in b.columns().iter().enumerate() {
            if c.len() != b.num_rows() {
                vortex_bail!("column of {} in a batch of {} rows", c.len(), b.num_rows());
            }
            cols[i].extend(dec_arrow(c.as_ref())?);
        }
        n += b.num_rows();
    }
    Ok((cols, n))
}

fn put<T>(l: &mut Value, o: Out<T>) -> Option<T> {
    l["k"] = json!(o.tag());
    match o {
        Out::Ok(x) => Some(x),
        o => {
            l["m"] = json!(o.msg());
            None
        }
    }
}

fn q_rows(rt: &tokio::runtime::Runtime, rng: &mut StdRng, t: &Tab, d: &Domain, s: &Src, q: &Option<Q>, depth: &str) -> Value {
    let proj: Vec<usize> = if rng.gen_bool(0.2) { (0..t.cols.len()).collect() } else { gen_proj(rng, t.cols.len()) };
    let lim = if rng.gen_bool(0.15) { rng.gen_range(0..=t.n as i64 + 1) } else { -1 };
    let ctx = session(rng, s);
    let mut l = json!({"o": "rows", "e": s.how, "d": depth, "p": proj.iter().map(|i| i + 1).collect::<Vec<_>>(),
        "f": q.iter().map(|q| q.json(d)).collect::<Vec<_>>(), "lim": lim, "rows": [], "dt": 1});
    let split = rng.gen_bool(0.5);
    let o = guard(|| {
        let mut df = ctx.read_table(s.provider.clone()).map_err(df_err)?;
        match q {
            // one WHERE after the other
            Some(Q::And(a, b)) if split => {
                df = df.filter(a.df(rng, t)).map_err(df_err)?.filter(b.df(rng, t)).map_err(df_err)?;
            }
            Some(q) => df = df.filter(q.df(rng, t)).map_err(df_err)?,
            None => {}
        }
        df = df.select(proj.iter().map(|i| col_expr(t, *i)).collect()).map_err(df_err)?;
        if lim >= 0 {
            df = df.limit(0, Some(lim as usize)).map_err(df_err)?;
        }
        let bs = run(rt, df.collect())?;
        let (cols, n) = columns(&bs, proj.len())?;
        let want = infer_schema(&t.dtype_of(&proj))?;
        let same = bs.iter().all(|b| b.columns().iter().zip(want.fields()).all(|(c, f)| c.data_type() == f.data_type()));
        Ok((cols, n, same))
    });
    if let Some((cols, n, same)) = put(&mut l, o) {
        let toks: Vec<Vec<i64>> = proj.iter().zip(&cols).map(|(i, v)| col_toks(d, &t.cols[*i].kind, v)).collect();
        l["rows"] = json!((0..n).map(|r| toks.iter().map(|c| c[r]).collect::<Vec<_>>()).collect::<Vec<_>>());
        l["dt"] = json!(same as u8);
    }
    l
}

fn q_agg(rt: &tokio::runtime::Runtime, rng: &mut StdRng, t: &Tab, d: &Domain, s: &Src, q: &Option<Q>) -> Value {
    let ctx = session(rng, s);
    let mut aggs: Vec<(&str, usize)> = vec![("count*", 0)];
    let solo = rng.gen_bool(0.4);
    if !solo || rng.gen_bool(0.5) {
        for (i, c) in t.cols.iter().enumerate() {
            if rng.gen_bool(0.5) {
                aggs.push(("count", i));
            }
            let ord = matches!(c.kind, Kind::Prim(_) | Kind::Utf8 | Kind::Binary | Kind::Bool | Kind::Temporal(..));
            if ord && rng.gen_bool(0.5) {
                aggs.push(("min", i));
            }
            if ord && rng.gen_bool(0.5) {
                aggs.push(("max", i));
            }
        }
        if solo {
            aggs = vec![*aggs.choose(rng).unwrap()];
        }
    }
    let mut l = json!({"o": "agg", "e": s.how, "f": q.iter().map(|q| q.json(d)).collect::<Vec<_>>(), "out": [],
        "aggs": aggs.iter().map(|(g, c)| json!({"g": g, "c": c + 1})).collect::<Vec<_>>()});
    let o = guard(|| {
        let mut df = ctx.read_table(s.provider.clone()).map_err(df_err)?;
        if let Some(q) = q {
            df = df.filter(q.df(rng, t)).map_err(df_err)?;
        }
        let ex: Vec<Expr> = aggs
            .iter()
            .enumerate()
            .map(|(j, (g, c))| {
                match *g {
                    "count*" => count(lit(1i64)),
                    "count" => count(col_expr(t, *c)),
                    "min" => min(col_expr(t, *c)),
                    _ => max(col_expr(t, *c)),
                }
                .alias(format!("x{j}"))
            })
            .collect();
        df = df.aggregate(vec![], ex).map_err(df_err)?;
        let bs = run(rt, df.collect())?;
        let bs: Vec<_> = bs.into_iter().filter(|b| b.num_rows() > 0).collect();
        if bs.len() != 1 || bs[0].num_rows() != 1 {
            vortex_bail!("{} batches", bs.len());
        }
        aggs.iter()
            .zip(bs[0].columns())
            .map(|((g, c), col)| {
                if g.starts_with("count") {
                    Ok(col.as_primitive::<Int64Type>().value(0))
                } else {
                    // coercions of the engine (dictionaries, views) do not matter here
                    let col = match col.data_type() {
                        DataType::Dictionary(_, v) => datafusion::arrow::compute::cast(col, v).map_err(|e| vortex_err!("{e}"))?,
                        _ => col.clone(),
                    };
                    Ok(col_toks(d, &t.cols[*c].kind, &dec_arrow(col.as_ref())?)[0])
                }
            })
            .collect::<VortexResult<Vec<i64>>>()
    });
    if let Some(x) = put(&mut l, o) {
        l["out"] = json!(x);
    }
    l
}

/// what the table says about itself
fn q_stats(rt: &tokio::runtime::Runtime, rng: &mut StdRng, t: &Tab, d: &Domain, s: &Src) -> Value {
    let ctx = session(rng, s);
    let proj = gen_proj(rng, t.cols.len());
    let mut l = json!({"o": "stats", "e": s.how, "p": proj.iter().map(|i| i + 1).collect::<Vec<_>>(), "rows": -1, "c": []});
    let o = guard(|| {
        let plan = run(rt, s.provider.scan(&ctx.state(), Some(&proj), &[], None))?;
        let st = plan.statistics().map_err(df_err)?;
        let rows = match st.num_rows {
            Precision::Exact(n) => n as i64,
            _ => -1,
        };
        let mut out = vec![];
        for (j, c) in st.column_statistics.iter().enumerate() {
            let kind = &t.cols[proj[j]].kind;
            let val = |p: &Precision<ScalarValue>| -> VortexResult<(i64, i64)> {
                Ok(match p {
                    Precision::Exact(v) => {
                        let a = v.to_array().map_err(df_err)?;
                        (1, col_toks(d, kind, &dec_arrow(a.as_ref())?)[0])
                    }
                    _ => (0, 0),
                })
            };
            let (a, b) = (val(&c.min_value)?, val(&c.max_value)?);
            let nulls = match c.null_count {
                Precision::Exact(n) => n as i64,
                _ => -1,
            };
            out.push(json!({"nulls": nulls, "hasmin": a.0, "min": a.1, "hasmax": b.0, "max": b.1}));
        }
        // and the plan yields the columns that it was asked for
        let bs = run(rt, collect(plan, ctx.task_ctx()))?;
        let (_, n) = columns(&bs, proj.len())?;
        if n != t.n {
            vortex_bail!("the plan yields {n} rows");
        }
        Ok((rows, out))
    });
    if let Some((rows, c)) = put(&mut l, o) {
        l["rows"] = json!(rows);
        l["c"] = json!(c);
    }
    l
}

fn gen_table(rng: &mut StdRng) -> Tab {
    let n = match rng.gen_range(0..12) {
        0 => 0,
        1 => 1,
        2..=8 => rng.gen_range(2..25),
        _ => rng.gen_range(20..70),
    };
    let nc = rng.gen_range(1..=4);
    let mut t = gen_tab(rng, n, nc, true);
    if t.cols.len() > 1 && rng.gen_bool(0.4) {
        let k = [
            Kind::Temporal("date", 4),
            Kind::Temporal("date", 2),
            Kind::Temporal("time", 1),
            Kind::Temporal("time", 3),
            Kind::Temporal("timestamp", 0),
            Kind::Temporal("timestamp", 2),
            Kind::Temporal("tz", 1),
        ]
        .choose(rng)
        .unwrap()
        .clone();
        let j = rng.gen_range(1..t.cols.len());
        let nl = rng.gen_bool(0.5);
        t.cols[j] = gen_col(rng, &k, nl, n, GenOpt { weird_floats: false, max_distinct: 6 });
    }
    for (i, nm) in t.names.iter_mut().enumerate() {
        if nm.is_empty() {
            *nm = format!("e{i}");
        }
    }
    t
}

fn d01(sink: &mut Sink, seed: u64, reps: usize) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for k in 0..reps * 20 {
        let mut rng = StdRng::seed_from_u64(seed * 5_000_011 + k as u64);
        let rng = &mut rng;
        let t = gen_table(rng);
        let nq = 4;
        let qs: Vec<Option<Q>> = (0..nq).map(|_| if rng.gen_bool(0.15) { None } else { { let depth = rng.gen_range(0..3); Some(gen_q(rng, &t, depth)) } }).collect();
        let mut lits = vec![];
        qs.iter().flatten().for_each(|q| q.lits(&mut lits));
        let d = t.domain(&lits);
        let id = format!("D01/{k}/{seed}");
        sink.begin(&id);
        let mut lines = vec![json!({"o": "tab", "cols": t.toks(&d), "n": t.n, "dt": format!("{}", t.dtype())})];
        for _ in 0..2 {
            let mut l = json!({"o": "setup"});
            let Some(s) = put(&mut l, guard(|| source(rng, &t))) else {
                lines.push(l);
                continue;
            };
            for q in &qs {
                lines.push(q_rows(&rt, rng, &t, &d, &s, q, ""));
            }
            for q in &qs {
                lines.push(q_agg(&rt, rng, &t, &d, &s, q));
            }
            if s.store.is_none() {
                lines.push(q_stats(&rt, rng, &t, &d, &s));
            }
        }
        sink.push_json(&lines_trace(id, lines));
    }
}

/// the behaviours of VxQueryMC: a WHERE over x, y (of one type) and b
fn d01beh(sink: &mut Sink, seed: u64) {
    let num = |k: &str, d: &str| -> usize { vharness::arg(k, d).parse().expect("a number") };
    let (shard, shards, every) = (num("shard", "0"), num("shards", "1"), num("every", "1"));
    let text = std::fs::read_to_string(vharness::arg("beh", "/tmp/beh")).expect("behaviours");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for (bi, s) in text.lines().enumerate() {
        if (bi + (seed / 100) as usize) % every != 0 || bi / every % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(s).expect("behaviour");
        let mut rng = StdRng::seed_from_u64((seed / 100).wrapping_mul(1_000_003) ^ (bi as u64) << 8);
        let rng = &mut rng;
        let wide = *[1usize, 1, 3].choose(rng).unwrap();
        let kind = comparable().choose(rng).unwrap().clone();
        let Some((nm, _)) = names(rng, &kind, 2, wide) else {
            continue;
        };
        let bools = names(rng, &Kind::Bool, 2, 1).expect("two booleans").0;
        let nulls: [bool; 3] = std::array::from_fn(|_| rng.gen_bool(0.75));
        let mut combos: Vec<[i64; 3]> = (0..27)
            .map(|i| [i / 9, i / 3 % 3, i % 3].map(|v| if v == 2 { NULL_TOK } else { v }))
            .filter(|c| (0..3).all(|k| nulls[k] || c[k] != NULL_TOK))
            .collect();
        combos.shuffle(rng);
        let lens: Vec<usize> = combos.iter().map(|_| rng.gen_range(1..=wide)).collect();
        let cols: Vec<Col> = (0..3)
            .map(|k| {
                let toks: Vec<i64> = combos.iter().map(|c| c[k]).collect();
                let nullable = nulls[k] || rng.gen();
                (if k == 2 { &bools } else { &nm }).col(rng, &toks, &lens, nullable, false)
            })
            .collect();
        let t = Tab { names: vec!["x".into(), "y".into(), "b".into()], cols, n: lens.iter().sum() };
        fn ex(rng: &mut StdRng, nm: &Names, x: &Value) -> Ex {
            match x["t"].as_str().unwrap() {
                "col" => Ex::Col(x["c"].as_u64().unwrap() as usize - 1),
                "cmp" => {
                    let op = CMP.iter().position(|o| *o == x["op"]).unwrap();
                    Ex::Cmp(op, Box::new(ex(rng, nm, &x["l"])), Box::new(ex(rng, nm, &x["r"])))
                }
                _ => Ex::Lit(nm.kind.clone(), true, nm.v(rng, x["v"].as_i64().unwrap())),
            }
        }
        fn q(rng: &mut StdRng, nm: &Names, x: &Value) -> Q {
            let mut sub = |k: &str| Box::new(q(rng, nm, &x[k]));
            match x["t"].as_str().unwrap() {
                "and" => Q::And(sub("l"), sub("r")),
                "or" => Q::Or(sub("l"), sub("r")),
                "not" => Q::Not(sub("l")),
                "null" => Q::IsNull(sub("l")),
                _ => Q::Ex(ex(rng, nm, x)),
            }
        }
        let q = Some(q(rng, &nm, &b["x"]));
        let mut lits = vec![];
        q.iter().for_each(|q| q.lits(&mut lits));
        let d = t.domain(&lits);
        let id = format!("D01beh/{bi}/{seed}");
        sink.begin(&id);
        let mut lines = vec![json!({"o": "tab", "cols": t.toks(&d), "n": t.n, "dt": format!("{}", t.dtype())})];
        for (mem, push) in [(true, true), (true, false), (false, true)] {
            let mut l = json!({"o": "setup"});
            let Some(s) = put(&mut l, guard(|| source_of(rng, &t, mem, push))) else {
                lines.push(l);
                continue;
            };
            lines.push(q_rows(&rt, rng, &t, &d, &s, &q, ""));
            if rng.gen_bool(0.2) {
                lines.push(q_agg(&rt, rng, &t, &d, &s, &q));
            }
        }
        sink.push_json(&lines_trace(id, lines));
    }
}

fn main() {
    vharness::rec::install_panic_hook();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let seed: u64 = vharness::arg("seed", "1").parse().expect("seed");
    let reps: usize = vharness::arg("reps", "3").parse().expect("reps");
    let mut sink = Sink::create(&vharness::arg("out", "/tmp/trace.ndjson"));
    match cmd.as_str() {
        "D01" => d01(&mut sink, seed, reps),
        "D01beh" => d01beh(&mut sink, seed),
        _ => panic!("no such command: {cmd}"),
    }
    eprintln!("traces {} lines {}", sink.n, sink.lines);
    sink.finish();
}
