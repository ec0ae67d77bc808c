//! Vortex files: writing, scanning, damage, I/O faults (F01-F04) and expressions (E01).
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use futures::Stream;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use vortex::array::ChunkedArray;
use vortex::stream::ArrayStreamExt;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::DType;
use vortex_error::{VortexExpect, VortexResult};
use vortex_sampling_compressor::SamplingCompressor;
use vortex_serde::io::VortexReadAt;
use vortex_serde::layouts::{
    LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, RowFilter,
};

use crate::enc::*;
use crate::ipcutil::ctx;
use crate::rec::*;
use crate::scen::{gen_len, Cfg};
use crate::sio::*;
use crate::tab::*;
use crate::val::*;

pub fn lines_trace(id: String, lines: Vec<Value>) -> Value {
    json!({"id": id, "lines": lines})
}

fn eopt(rng: &mut StdRng) -> EncOpt {
    EncOpt { exotic_validity: if rng.gen_bool(0.2) { 0.5 } else { 0.0 }, depth: rng.gen_range(0..2), tame: false }
}

/// Write a table, in one of the ways a user can; returns the bytes and how.
pub fn write_file(rng: &mut StdRng, t: &Tab) -> (String, Out<Vec<u8>>) {
    let o = eopt(rng);
    let cuts = gen_cuts(rng, t.n);
    let how = rng.gen_range(0..5);
    let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
    let res = guard(|| {
        let mut d = Driver::new(true);
        let parts: Vec<Array> = match how {
            // one array
            0 => vec![t.array(&mut r2, 0, t.n, o)?],
            // chunks of one array
            1 => vec![t.chunked(&mut r2, &cuts, o)?],
            // several calls, some of them with chunked arrays
            2 => {
                let k = cuts.len() / 2;
                let mut v = vec![t.chunked(&mut r2, &cuts[..k], o)?];
                for (s, e) in &cuts[k..] {
                    v.push(t.array(&mut r2, *s, *e, o)?);
                }
                v
            }
            // compressed
            3 => {
                let mut v = vec![];
                for (s, e) in &cuts {
                    let a = t.array(&mut r2, *s, *e, EncOpt { depth: 0, ..o })?;
                    v.push(SamplingCompressor::default().compress(&a, None)?.into_array());
                }
                vec![ChunkedArray::try_new(v, t.dtype())?.into_array()]
            }
            // a stream, re-chunked on its way
            _ => vec![t.chunked(&mut r2, &cuts, o)?],
        };
        let w = LayoutWriter::new(Vec::<u8>::new());
        d.future(async {
            let mut w = w;
            for p in parts {
                if how == 4 {
                    let c = ChunkedArray::try_from(&p)?;
                    w = w.write_array_columns_stream(c.array_stream()).await?;
                } else {
                    w = w.write_array_columns(p).await?;
                }
            }
            w.finalize().await
        })
        .vortex_expect("writing to memory is pending")
    });
    (format!("w{how}c{}", cuts.len()), res)
}

#[derive(Clone)]
pub struct Scan {
    pub proj: Option<Vec<usize>>,
    pub by_index: bool,
    pub filter: Option<(Ex, u8)>,
    pub batch: Option<usize>,
    pub give_size: bool,
}

pub struct ScanOut {
    /// how it ended: end, err, panic, hang
    pub end: String,
    pub msg: String,
    pub batches: Vec<Value>,
    pub dt: bool,
    pub after: String,
    pub stage: &'static str,
}

/// Scan a file and decode what comes out.
pub fn scan<R: VortexReadAt + Unpin + Send + 'static>(
    rng: &mut StdRng,
    t: &Tab,
    d: &Domain,
    file: R,
    s: &Scan,
    eager: bool,
) -> ScanOut {
    let p = s.proj.clone().unwrap_or_else(|| (0..t.cols.len()).collect());
    let kinds: Vec<&Kind> = p.iter().map(|i| &t.cols[*i].kind).collect();
    let want = t.dtype_of(&p);
    let mut out = ScanOut {
        end: String::new(),
        msg: String::new(),
        batches: vec![],
        dt: true,
        after: "none".into(),
        stage: "open",
    };
    let mut drv = Driver::new(eager);
    let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut b =
            LayoutReaderBuilder::new(file, LayoutDeserializer::new(ctx(), LayoutContext::default().into()));
        if s.give_size {
            // an explicit size is what the reader would have found out itself
        }
        if let Some(p) = &s.proj {
            let fs: Vec<Field> = p
                .iter()
                .map(|i| if s.by_index { Field::Index(*i) } else { Field::Name(t.names[*i].clone()) })
                .collect();
            b = b.with_projection(Projection::Flat(fs));
        }
        if let Some(n) = s.batch {
            b = b.with_batch_size(n);
        }
        if let Some((e, by)) = &s.filter {
            b = b.with_row_filter(RowFilter::new(e.build(&mut r2, t, *by)));
        }
        let mut st = match drv.future(b.build()) {
            None => {
                out.end = "hang".into();
                return;
            }
            Some(Err(e)) => {
                out.end = "err".into();
                out.msg = short(&e);
                return;
            }
            Some(Ok(st)) => st,
        };
        out.stage = "scan";
        if DType::from(st.schema()) != want {
            out.dt = false;
            out.msg = format!("schema {} want {}", DType::from(st.schema()), want);
        }
        loop {
            match drv.run(|cx| std::pin::Pin::new(&mut st).poll_next(cx)) {
                None => {
                    out.end = "hang".into();
                    return;
                }
                Some(None) => {
                    out.end = "end".into();
                    break;
                }
                Some(Some(Err(e))) => {
                    out.end = "err".into();
                    out.msg = short(&e);
                    break;
                }
                Some(Some(Ok(a))) => {
                    if *a.dtype() != want {
                        out.dt = false;
                        out.msg = format!("dtype {} want {}", a.dtype(), want);
                    }
                    match toks_of_batch(d, &kinds, &a) {
                        Ok(c) => out.batches.push(json!({"n": a.len(), "c": c})),
                        Err(e) => {
                            out.end = "undecodable".into();
                            out.msg = short(&e);
                            return;
                        }
                    }
                    if out.batches.len() > 4 * t.n + 64 {
                        out.end = "endless".into();
                        return;
                    }
                }
            }
        }
        // nothing follows
        for _ in 0..2 {
            match drv.run(|cx| std::pin::Pin::new(&mut st).poll_next(cx)) {
                Some(None) => {}
                None => out.after = "hang".into(),
                Some(Some(Ok(_))) => out.after = "batch".into(),
                Some(Some(Err(_))) => out.after = "err".into(),
            }
        }
    }));
    if res.is_err() {
        out.end = "panic".into();
        out.msg = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone();
    }
    out
}

fn tab_line(t: &Tab, d: &Domain) -> Value {
    json!({"o": "tab", "cols": t.toks(d), "n": t.n, "dt": format!("{}", t.dtype())})
}

fn scan_line(t: &Tab, d: &Domain, s: &Scan, o: &ScanOut, how: &str) -> Value {
    let p: Vec<usize> = s.proj.clone().unwrap_or_else(|| (0..t.cols.len()).collect()).iter().map(|i| i + 1).collect();
    json!({
        "o": "scan", "e": how, "p": p,
        "f": s.filter.iter().map(|(e, _)| e.json(d)).collect::<Vec<_>>(),
        "bs": s.batch.unwrap_or(65536), "end": o.end, "m": o.msg, "b": o.batches, "dt": o.dt as u8,
        "aft": o.after, "ft": "none", "hit": 0, "idx": s.by_index as u8,
        "by": s.filter.as_ref().map(|(_, b)| *b).unwrap_or(0),
    })
}

pub fn gen_batch(rng: &mut StdRng, n: usize) -> Option<usize> {
    match rng.gen_range(0..7) {
        0 => None,
        1 => Some(1),
        2 => Some(rng.gen_range(1..=n.max(1))),
        3 => Some(rng.gen_range(1..=8)),
        4 => Some(n.max(1)),
        5 => Some((n / 2).max(1)),
        _ => Some(n + rng.gen_range(1..20)),
    }
}

fn file_tab(rng: &mut StdRng, cfg: &Cfg, filterable: bool) -> Tab {
    let n = match rng.gen_range(0..12) {
        0 => 0,
        1 => 1,
        2..=7 => rng.gen_range(2..40),
        8..=10 => rng.gen_range(20..90),
        _ => gen_len(rng, cfg.big).min(400),
    };
    let nc = rng.gen_range(1..=4);
    gen_tab(rng, n, nc, filterable)
}

pub fn f01(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 6 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let t = file_tab(&mut rng, cfg, false);
        let d = t.domain(&[]);
        sink.begin(&format!("F01 {seed} {k}"));
        let mut lines = vec![tab_line(&t, &d)];
        let (how, w) = write_file(&mut rng, &t);
        match w {
            Out::Ok(bytes) => {
                lines.push(json!({"o": "write", "e": how, "k": "ok", "m": ""}));
                let bytes = Arc::new(bytes);
                for _ in 0..6 {
                    let proj = rng.gen_bool(0.7).then(|| gen_proj(&mut rng, t.cols.len()));
                    let s = Scan {
                        proj,
                        by_index: rng.gen(),
                        filter: None,
                        batch: gen_batch(&mut rng, t.n),
                        give_size: false,
                    };
                    let o = scan(&mut rng, &t, &d, ScriptFile::new(bytes.clone(), vec![], Fault::None), &s, true);
                    lines.push(scan_line(&t, &d, &s, &o, &how));
                }
                lines.push(read_all(&mut rng, &t, &d, bytes.clone(), &how));
            }
            o => lines.push(json!({"o": "write", "e": how, "k": o.tag(), "m": o.msg()})),
        }
        sink.push_json(&lines_trace(format!("F01-{seed}-{k}"), lines));
        let mut lines = vec![tab_line(&t, &d)];
        crate::media::media(&mut rng, &t, &d, &mut lines);
        sink.push_json(&lines_trace(format!("F01-media-{seed}-{k}"), lines));
    }
    if seed % 100 == 0 {
        many_chunks(sink, seed);
    }
}

/// the convenience method, and the sizes of the result
fn read_all(rng: &mut StdRng, t: &Tab, d: &Domain, bytes: Arc<Vec<u8>>, how: &str) -> Value {
    let p = gen_proj(rng, t.cols.len());
    let bs = gen_batch(rng, t.n);
    let kinds: Vec<&Kind> = p.iter().map(|i| &t.cols[*i].kind).collect();
    let want = t.dtype_of(&p);
    let res = guard(|| {
        let mut b = LayoutReaderBuilder::new(
            bytes.as_ref().clone(),
            LayoutDeserializer::new(ctx(), LayoutContext::default().into()),
        )
        .with_projection(Projection::new(&p));
        if let Some(n) = bs {
            b = b.with_batch_size(n);
        }
        let mut drv = Driver::new(true);
        let a = drv
            .future(async { b.build().await?.read_all().await })
            .vortex_expect("reading from memory is pending")?;
        let dt = *a.dtype() == want;
        Ok((dt, a.len(), toks_of_batch(d, &kinds, &a)?))
    });
    let (k, m) = (res.tag(), res.msg());
    let (dt, n, c) = match res {
        Out::Ok(x) => x,
        _ => (true, 0, vec![]),
    };
    json!({"o": "scan", "e": how, "p": p.iter().map(|i| i + 1).collect::<Vec<_>>(), "f": [], "bs": t.n.max(1),
           "end": if k == "ok" { "end" } else { k }, "m": m, "b": if k == "ok" { vec![json!({"n": n, "c": c})] } else { vec![] },
           "dt": dt as u8, "aft": "none", "ft": "none", "hit": 0, "idx": 1, "by": 0, "all": 1})
}

/// more chunks than fit in 16 bits
fn many_chunks(sink: &mut Sink, seed: u64) {
    use vortex::array::PrimitiveArray;
    let n = 65_560usize;
    sink.begin("F01 many chunks");
    let res = guard(|| {
        let mut drv = Driver::new(true);
        let chunks: Vec<Array> = (0..n).map(|i| PrimitiveArray::from(vec![(i % 251) as u8]).into_array()).collect();
        let dt = chunks[0].dtype().clone();
        let c = ChunkedArray::try_new(chunks, dt)?.into_array();
        let st = vortex::array::StructArray::from_fields(&[("x", c)])?.into_array();
        let w = drv
            .future(async { LayoutWriter::new(Vec::<u8>::new()).write_array_columns(st).await?.finalize().await })
            .vortex_expect("pending")?;
        let b = LayoutReaderBuilder::new(w, LayoutDeserializer::new(ctx(), LayoutContext::default().into()))
            .with_batch_size(300);
        let a = drv.future(async { b.build().await?.read_all().await }).vortex_expect("pending")?;
        let cols = decode_cols(&a)?;
        Ok(cols[0].clone())
    });
    let (k, m) = (res.tag(), res.msg());
    let vals = match res {
        Out::Ok(v) => v,
        _ => vec![],
    };
    // the rows at the far end, where a narrow chunk number would wrap around
    let pick: Vec<usize> = (65_520..n).collect();
    let tok = |v: &Option<V>| match v {
        Some(V::I(i)) => *i as i64,
        _ => UNKNOWN_TOK,
    };
    let got: Vec<i64> = pick.iter().map(|i| vals.get(*i).map(tok).unwrap_or(UNKNOWN_TOK)).collect();
    let want: Vec<i64> = pick.iter().map(|i| (i % 251) as i64).collect();
    let lines = vec![
        json!({"o": "tab", "cols": [want], "n": pick.len(), "dt": "{x=u8}"}),
        json!({"o": "scan", "e": "65560 chunks", "p": [1], "f": [], "bs": n, "end": if k == "ok" { "end" } else { k }, "m": m,
               "b": if k == "ok" { vec![json!({"n": pick.len(), "c": [got]})] } else { vec![] }, "dt": 1, "aft": "none",
               "ft": "none", "hit": 0, "idx": 0, "by": 0}),
    ];
    sink.push_json(&lines_trace(format!("F01-{seed}-many"), lines));
}

fn gen_filter(rng: &mut StdRng, t: &Tab) -> Ex {
    let depth = rng.gen_range(0..4);
    gen_expr(rng, t, depth)
}

pub fn f02(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 6 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let t = file_tab(&mut rng, cfg, true);
        let exs: Vec<Ex> = (0..7).map(|_| gen_filter(&mut rng, &t)).collect();
        let mut lits = vec![];
        exs.iter().for_each(|e| e.lits(&mut lits));
        let d = t.domain(&lits);
        sink.begin(&format!("F02 {seed} {k}"));
        let mut lines = vec![tab_line(&t, &d)];
        let (how, w) = write_file(&mut rng, &t);
        match w {
            Out::Ok(bytes) => {
                lines.push(json!({"o": "write", "e": how, "k": "ok", "m": ""}));
                let bytes = Arc::new(bytes);
                for e in exs {
                    let proj = rng.gen_bool(0.7).then(|| gen_proj(&mut rng, t.cols.len()));
                    let by = rng.gen_range(0..3);
                    let s = Scan {
                        proj,
                        by_index: rng.gen(),
                        filter: Some((e, by)),
                        batch: gen_batch(&mut rng, t.n),
                        give_size: false,
                    };
                    let o = scan(&mut rng, &t, &d, ScriptFile::new(bytes.clone(), vec![], Fault::None), &s, true);
                    lines.push(scan_line(&t, &d, &s, &o, &how));
                }
            }
            o => lines.push(json!({"o": "write", "e": how, "k": o.tag(), "m": o.msg()})),
        }
        sink.push_json(&lines_trace(format!("F02-{seed}-{k}"), lines));
    }
}

/// every cut of a file, bytes appended to it, and damage to its trailer
pub fn f03(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 2 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let n = rng.gen_range(0..30);
        let nc = rng.gen_range(1..=2);
        let t = gen_tab(&mut rng, n, nc, false);
        let d = t.domain(&[]);
        sink.begin(&format!("F03 {seed} {k}"));
        let (how, w) = write_file(&mut rng, &t);
        let Out::Ok(bytes) = w else {
            continue;
        };
        let mut lines = vec![tab_line(&t, &d)];
        let all = Scan { proj: None, by_index: false, filter: None, batch: None, give_size: false };
        let len = bytes.len();
        // outcomes with the damages that lead to them
        let mut outs: BTreeMap<String, (Value, usize, Value)> = BTreeMap::new();
        let mut try_one = |rng: &mut StdRng, kind: &str, what: Value, b: Vec<u8>| {
            let o = scan(rng, &t, &d, ScriptFile::new(Arc::new(b), vec![], Fault::None), &all, true);
            let mut l = scan_line(&t, &d, &all, &o, &how);
            l["o"] = json!("damaged");
            l["dmg"] = json!(kind);
            l["open"] = json!((o.stage == "open") as u8);
            let mut key = l.clone();
            key["m"] = json!("");
            outs.entry(key.to_string()).and_modify(|x| x.1 += 1).or_insert((l, 1, what));
        };
        // all cuts of small files, cuts of big ones around what matters and at random
        let mut cuts: Vec<usize> = if len <= 1500 { (0..len).collect() } else {
            let mut v: Vec<usize> = (0..60).collect();
            v.extend(len - 400..len);
            v.extend((0..300).map(|_| rng.gen_range(0..len)));
            v.extend((0..len).step_by(64));
            v
        };
        cuts.sort();
        cuts.dedup();
        for c in cuts {
            try_one(&mut rng, "cut", json!(c), bytes[..c].to_vec());
        }
        for j in 0..40 {
            let mut b = bytes.clone();
            let extra = if j < 12 { j + 1 } else { rng.gen_range(1..200) };
            let zero = rng.gen_bool(0.3);
            b.extend((0..extra).map(|_| if zero { 0 } else { rng.gen::<u8>() }));
            try_one(&mut rng, "append", json!(extra), b);
        }
        // cut, then bytes that were written before: a torn rewrite
        for _ in 0..40 {
            let c = rng.gen_range(0..len);
            let from = rng.gen_range(0..len);
            let mut b = bytes[..c].to_vec();
            b.extend_from_slice(&bytes[from..(from + rng.gen_range(0..40)).min(len)]);
            if b[..] != bytes[..] && !b.ends_with(&bytes[len - 40..]) {
                try_one(&mut rng, "cut", json!([c, from]), b);
            }
        }
        for pos in len - 40..len {
            let vals: Vec<u8> = (0..6).map(|i| if i == 0 { bytes[pos] ^ 1 } else { rng.gen() }).collect();
            for v in vals {
                if v == bytes[pos] {
                    continue;
                }
                let mut b = bytes.clone();
                b[pos] = v;
                let r = pos - (len - 40);
                let kind = match r {
                    0..=31 => "postscript",
                    32 | 33 => "version",
                    34 | 35 => "reserved",
                    _ => "magic",
                };
                try_one(&mut rng, kind, json!([pos, v]), b);
            }
        }
        // several bytes of the postscript at once
        for _ in 0..100 {
            let mut b = bytes.clone();
            for _ in 0..rng.gen_range(1..8) {
                b[len - 40 + rng.gen_range(0..32)] = if rng.gen_bool(0.3) { 0 } else { rng.gen() };
            }
            if b != bytes {
                try_one(&mut rng, "postscript", json!("several"), b);
            }
        }
        for (_, (mut l, n, what)) in outs {
            l["times"] = json!(n);
            l["first"] = what;
            lines.push(l);
        }
        sink.push_json(&lines_trace(format!("F03-{seed}-{k}"), lines));
    }
    // files too short to be anything
    let mut rng = StdRng::seed_from_u64(seed);
    let t = gen_tab(&mut rng, 0, 1, true);
    let d = t.domain(&[]);
    let mut lines = vec![tab_line(&t, &d)];
    for len in 0..60usize {
        for m in 0..3 {
            let mut b: Vec<u8> = (0..len).map(|_| if m == 0 { 0 } else { rng.gen() }).collect();
            if len >= 8 && m > 0 {
                b[len - 8..].copy_from_slice(&[1, 0, 0, 0, b'V', b'R', b'T', b'X']);
            }
            let s = Scan { proj: None, by_index: false, filter: None, batch: None, give_size: false };
            let o = scan(&mut rng, &t, &d, ScriptFile::new(Arc::new(b), vec![], Fault::None), &s, true);
            if o.end != "err" || len % 20 == 0 {
                let mut l = scan_line(&t, &d, &s, &o, "junk");
                l["o"] = json!("damaged");
                l["dmg"] = json!("cut");
                l["open"] = json!((o.stage == "open") as u8);
                l["first"] = json!(len);
                lines.push(l);
            }
        }
    }
    sink.push_json(&lines_trace(format!("F03-{seed}-short"), lines));
}

/// delays, completion orders, polling patterns, faults
pub fn f04(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 4 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let t = file_tab(&mut rng, cfg, true);
        let exs: Vec<Ex> = (0..3).map(|_| gen_filter(&mut rng, &t)).collect();
        let mut lits = vec![];
        exs.iter().for_each(|e| e.lits(&mut lits));
        let d = t.domain(&lits);
        sink.begin(&format!("F04 {seed} {k}"));
        let mut lines = vec![tab_line(&t, &d)];
        let (how, w) = write_file(&mut rng, &t);
        let Out::Ok(bytes) = w else {
            continue;
        };
        let bytes = Arc::new(bytes);
        for j in 0..3 {
            let proj = rng.gen_bool(0.7).then(|| gen_proj(&mut rng, t.cols.len()));
            let s = Scan {
                proj,
                by_index: rng.gen(),
                filter: (j > 0).then(|| (exs[j].clone(), rng.gen_range(0..3))),
                batch: gen_batch(&mut rng, t.n),
                give_size: false,
            };
            // timing only
            let mut reads = 0;
            for _ in 0..2 {
                let delays: Vec<usize> = (0..rng.gen_range(1..9)).map(|_| rng.gen_range(0..4)).collect();
                let f = ScriptFile::new(bytes.clone(), delays, Fault::None);
                let log = f.log.clone();
                let eager = rng.gen();
                let o = scan(&mut rng, &t, &d, f, &s, eager);
                reads = log.lock().unwrap().reads.len();
                lines.push(scan_line(&t, &d, &s, &o, &how));
            }
            // a fault at each of the reads
            let at: Vec<usize> = if reads <= 8 { (0..reads).collect() } else {
                let mut v: Vec<usize> = (0..reads).collect();
                v.shuffle(&mut rng);
                v.truncate(8);
                v
            };
            for i in at {
                let fault = match rng.gen_range(0..3) {
                    0 => Fault::Error(i),
                    1 => Fault::Short(i),
                    _ => Fault::Eof(i),
                };
                let delays: Vec<usize> = (0..rng.gen_range(0..9)).map(|_| rng.gen_range(0..4)).collect();
                let f = ScriptFile::new(bytes.clone(), delays, fault);
                let log = f.log.clone();
                let eager = rng.gen();
                let o = scan(&mut rng, &t, &d, f, &s, eager);
                let hit = log.lock().unwrap().reads.len() > i;
                let mut l = scan_line(&t, &d, &s, &o, &how);
                l["ft"] = json!(format!("{fault:?}"));
                l["hit"] = json!(hit as u8);
                lines.push(l);
            }
        }
        sink.push_json(&lines_trace(format!("F04-{seed}-{k}"), lines));
    }
}

// ---- expressions ------------------------------------------------------------
fn expr_lines(rng: &mut StdRng, t: &Tab, d: &Domain, arr: &Array, tree: &str, e: &Ex, lines: &mut Vec<Value>) {
    let by = rng.gen_range(0..3);
    let v = e.build(rng, t, by);
    let res = guard(|| decode(&v.evaluate(arr)?));
    let (kt, m) = (res.tag(), res.msg());
    let out = if let Out::Ok(v) = res { bool_toks(&v) } else { vec![] };
    lines.push(json!({"o": "eval", "e": tree, "f": [e.json(d)], "k": kt, "m": m, "out": out}));
    // as a filter, and with its conjuncts in another order and shape
    let mut parts = e.conjuncts();
    parts.shuffle(rng);
    let e2 = conj(rng, parts);
    for x in [e, &e2] {
        let v = x.build(rng, t, by);
        let res = guard(|| decode(&RowFilter::new(v).evaluate(arr)?));
        let (kt, m) = (res.tag(), res.msg());
        let out = if let Out::Ok(v) = res { bool_toks(&v) } else { vec![] };
        lines.push(json!({"o": "mask", "e": tree, "f": [e.json(d)], "k": kt, "m": m, "out": out}));
    }
    // its conjuncts, one by one
    let res = guard(|| {
        vortex_expr::split_conjunction(&e.build(rng, t, by))
            .iter()
            .map(|x| Ok(bool_toks(&decode(&x.evaluate(arr)?)?)))
            .collect::<VortexResult<Vec<_>>>()
    });
    let (kt, m) = (res.tag(), res.msg());
    let out = if let Out::Ok(v) = res { v } else { vec![] };
    lines.push(json!({"o": "split", "e": tree, "f": [e.json(d)], "k": kt, "m": m, "out": out}));
    // which columns it reads
    let v = e.build(rng, t, 1);
    let filter = RowFilter::new(v.clone());
    for r in [v.references(), filter.references()] {
        let mut refs: Vec<usize> = r
            .iter()
            .map(|f| match f {
                Field::Index(i) => *i + 1,
                Field::Name(_) => 0,
            })
            .collect();
        refs.sort();
        lines.push(json!({"o": "refs", "f": [e.json(d)], "out": refs, "k": "ok", "e": "refs"}));
    }
}

pub fn e01(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 12 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let t = file_tab(&mut rng, cfg, true);
        let exs: Vec<Ex> = (0..5).map(|_| gen_filter(&mut rng, &t)).collect();
        let mut lits = vec![];
        exs.iter().for_each(|e| e.lits(&mut lits));
        let d = t.domain(&lits);
        sink.begin(&format!("E01 {seed} {k}"));
        let mut lines = vec![tab_line(&t, &d)];
        let o = eopt(&mut rng);
        let arr = match guard(|| t.array(&mut rng, 0, t.n, o)) {
            Out::Ok(a) => a,
            _ => continue,
        };
        let tree = enc_tree(&arr);
        for (i, e) in exs.iter().enumerate() {
            expr_lines(&mut rng, &t, &d, &arr, &tree, e, &mut lines);
            // equality of expressions is equality of the trees
            for x in exs.iter().skip(i) {
                let (a, b) = (e.build(&mut rng, &t, 0), x.build(&mut rng, &t, 0));
                let res = guard(|| Ok(*a == *b.as_any()));
                let (kt, m) = (res.tag(), res.msg());
                let eq = matches!(res, Out::Ok(true));
                lines.push(json!({"o": "eq", "e": "eq", "f": [e.json(&d)], "g": [x.json(&d)], "same": (e == x) as u8,
                                  "k": kt, "m": m, "out": [eq as u8]}));
            }
        }
        // selection of columns
        for _ in 0..2 {
            let p = gen_proj(&mut rng, t.cols.len());
            let incl: bool = rng.gen();
            let fs: Vec<Field> = p
                .iter()
                .map(|i| if rng.gen() { Field::Index(*i) } else { Field::Name(t.names[*i].clone()) })
                .collect();
            let sel = if incl { vortex_expr::Select::include(fs) } else { vortex_expr::Select::exclude(fs) };
            let keep: Vec<usize> = if incl { p.clone() } else { (0..t.cols.len()).filter(|i| !p.contains(i)).collect() };
            let kinds: Vec<&Kind> = keep.iter().map(|i| &t.cols[*i].kind).collect();
            let want = t.dtype_of(&keep);
            let res = guard(|| {
                use vortex_expr::VortexExpr;
                let a = sel.evaluate(&arr)?;
                Ok((*a.dtype() == want, a.len(), toks_of_batch(&d, &kinds, &a)?))
            });
            let (kt, m) = (res.tag(), res.msg());
            let (dt, n, c) = if let Out::Ok(x) = res { x } else { (true, 0, vec![]) };
            lines.push(json!({"o": "select", "e": tree, "incl": incl as u8, "p": p.iter().map(|i| i + 1).collect::<Vec<_>>(),
                              "k": kt, "m": m, "dt": dt as u8, "n": n, "c": c}));
        }
        // equality of selections
        let sels: Vec<(u8, Vec<usize>)> = (0..3)
            .flat_map(|_| {
                let p = gen_proj(&mut rng, t.cols.len());
                [(0, p.clone()), (1, p)]
            })
            .chain([(2, vec![])])
            .collect();
        let any = |(incl, p): &(u8, Vec<usize>)| -> std::sync::Arc<dyn vortex_expr::VortexExpr> {
            let fs = p.iter().map(|i| Field::Index(*i)).collect();
            match incl {
                0 => std::sync::Arc::new(vortex_expr::Select::exclude(fs)),
                1 => std::sync::Arc::new(vortex_expr::Select::include(fs)),
                _ => std::sync::Arc::new(vortex_expr::Identity),
            }
        };
        for a in &sels {
            for b in &sels {
                let eq = *any(a) == *any(b).as_any();
                lines.push(json!({"o": "seleq", "e": "eq", "f": [a.0, a.1], "g": [b.0, b.1], "k": "ok", "m": "", "out": [eq as u8]}));
            }
            // and what is not a selection
            let x = exs[0].build(&mut rng, &t, 0);
            for eq in [*any(a) == *x.as_any(), *x == *any(a).as_any()] {
                lines.push(json!({"o": "seleq", "e": "eq", "f": [a.0, a.1], "g": [3, []], "k": "ok", "m": "", "out": [eq as u8]}));
            }
        }
        sink.push_json(&lines_trace(format!("E01-{seed}-{k}"), lines));
    }
}

#[allow(unused)]
pub fn stream_of(a: Array) -> VortexResult<Array> {
    futures_executor::block_on(a.into_array_stream().collect_chunked()).map(|c| c.into_array())
}

/// A column in the given chunks (as one array if there is one chunk, sometimes).
fn chunked_col(rng: &mut StdRng, c: &Col, lens: &[usize], o: EncOpt) -> VortexResult<Array> {
    if lens.len() == 1 && rng.gen() {
        return col_array(rng, c, o);
    }
    let mut at = 0;
    let mut parts = vec![];
    for k in lens {
        parts.push(col_array(rng, &c.sub(at, at + k), o)?);
        at += k;
    }
    Ok(ChunkedArray::try_new(parts, dtype(c))?.into_array())
}

/// "x equals the larger of its two values", in one of the ways to say so
fn is_one(rng: &mut StdRng, c: usize, nm: &crate::beh::Names) -> Ex {
    let k = nm.kind.clone();
    let lit = |i: usize| Ex::Lit(k.clone(), false, Some(nm.vals[i][0].clone()));
    let col = || Ex::Col(c);
    let (op, l, r) = match rng.gen_range(0..9) {
        8 if k == Kind::Bool => return Ex::Col(c),
        0 => (1, col(), lit(0)),
        1 => (2, col(), lit(0)),
        2 => (3, col(), lit(1)),
        3 => (0, lit(1), col()),
        4 => (4, lit(0), col()),
        5 => (5, lit(1), col()),
        6 => (1, lit(0), col()),
        _ => (0, col(), lit(1)),
    };
    Ex::Cmp(op, Box::new(l), Box::new(r))
}

/// the behaviours of VxExprMC: an expression over x, y (of one type) and b
pub fn ebeh(sink: &mut Sink, seed: u64, _cfg: &Cfg) {
    use crate::beh::names;
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let every: usize = crate::arg("every", "1").parse().unwrap();
    let kinds: usize = crate::arg("kinds", "1").parse().unwrap();
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    let mut prev: Option<Value> = None;
    for (bi, s) in text.lines().enumerate() {
        if (bi + (seed / 100) as usize) % every != 0 || bi / every % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(s).expect("behaviour");
        for ki in 0..kinds {
            let mut rng = StdRng::seed_from_u64((seed / 100).wrapping_mul(1_000_003) ^ (bi as u64) << 8 ^ ki as u64);
            let rng = &mut rng;
            let wide = *[1usize, 1, 3, 40].choose(rng).unwrap();
            let all = comparable();
            let kind = if kinds >= all.len() { all[ki % all.len()].clone() } else { all.choose(rng).unwrap().clone() };
            let Some((nm, _)) = names(rng, &kind, 2, wide) else {
                continue;
            };
            let bools = names(rng, &Kind::Bool, 2, 1).expect("two booleans").0;
            // every combination of values, in some order, each standing for a run of rows; sometimes without nulls
            let nulls: [bool; 3] = std::array::from_fn(|_| rng.gen_bool(0.7));
            let mut combos: Vec<[i64; 3]> = (0..27)
                .map(|i| [i / 9, i / 3 % 3, i % 3].map(|v| if v == 2 { NULL_TOK } else { v }))
                .filter(|c| (0..3).all(|k| nulls[k] || c[k] != NULL_TOK))
                .collect();
            combos.shuffle(rng);
            if rng.gen_bool(0.2) {
                combos.truncate(rng.gen_range(0..=2));
            }
            let lens: Vec<usize> = combos.iter().map(|_| if wide == 1 { 1 } else { rng.gen_range(1..=wide) }).collect();
            let cols: Vec<Col> = (0..3)
                .map(|k| {
                    let toks: Vec<i64> = combos.iter().map(|c| c[k]).collect();
                    let names = if k == 2 { &bools } else { &nm };
                    let nullable = nulls[k] || rng.gen();
                    names.col(rng, &toks, &lens, nullable, false)
                })
                .collect();
            let t = Tab { names: vec!["x".into(), "y".into(), "b".into()], cols, n: lens.iter().sum() };
            fn ex(rng: &mut StdRng, nm: &crate::beh::Names, x: &Value) -> Ex {
                let mut sub = |k: &str| Box::new(ex(rng, nm, &x[k]));
                match x["t"].as_str().unwrap() {
                    "col" => Ex::Col(x["c"].as_u64().unwrap() as usize - 1),
                    "and" => Ex::And(sub("l"), sub("r")),
                    "or" => Ex::Or(sub("l"), sub("r")),
                    "cmp" => {
                        let op = CMP.iter().position(|o| *o == x["op"]).unwrap();
                        Ex::Cmp(op, sub("l"), sub("r"))
                    }
                    _ => {
                        let v = nm.v(rng, x["v"].as_i64().unwrap());
                        Ex::Lit(nm.kind.clone(), v.is_none() || rng.gen(), v)
                    }
                }
            }
            let e = ex(rng, &nm, &b["x"]);
            let other = prev.as_ref().map(|p| ex(rng, &nm, p));
            let mut lits = vec![];
            e.lits(&mut lits);
            other.iter().for_each(|o| o.lits(&mut lits));
            let d = t.domain(&lits);
            sink.begin(&format!("Ebeh {seed} {bi} {ki}"));
            let o = eopt(rng);
            let Out::Ok(arr) = guard(|| t.array(rng, 0, t.n, o)) else {
                continue;
            };
            let mut lines = vec![tab_line(&t, &d)];
            expr_lines(rng, &t, &d, &arr, &enc_tree(&arr), &e, &mut lines);
            for x in other.iter().chain([&e]) {
                let (a, b) = (e.build(rng, &t, 0), x.build(rng, &t, 0));
                let res = guard(|| Ok(*a == *b.as_any()));
                let (kt, m) = (res.tag(), res.msg());
                let eq = matches!(res, Out::Ok(true));
                lines.push(json!({"o": "eq", "e": "eq", "f": [e.json(&d)], "g": [x.json(&d)], "same": (e == *x) as u8,
                                  "k": kt, "m": m, "out": [eq as u8]}));
            }
            sink.push_json(&lines_trace(format!("Ebeh-{seed}-{bi}-{ki}"), lines));
        }
        prev = Some(b["x"].clone());
    }
}

/// behaviours of VxScanMC: a file, a scan of it, the order its reads complete in, and which fails
pub fn fbeh(sink: &mut Sink, seed: u64, _cfg: &Cfg) {
    use crate::beh::{idx, ints, names};
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let every: usize = crate::arg("every", "1").parse().unwrap();
    let prop = crate::arg("for", "F02");
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    for (bi, s) in text.lines().enumerate() {
        if (bi + (seed / 100) as usize) % every != 0 || bi / every % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(s).expect("behaviour");
        let conf = &b["conf"];
        let mut rng = StdRng::seed_from_u64((seed / 100).wrapping_mul(1_000_003) ^ (bi as u64) << 8);
        let rng = &mut rng;
        // every row of the model stands for a run of rows
        let n = conf["n"].as_u64().unwrap() as usize;
        let wide = *[1usize, 1, 1, 1, 7, 70].choose(rng).unwrap();
        let lens: Vec<usize> = (0..n).map(|_| if wide == 1 { 1 } else { rng.gen_range(1..=wide) }).collect();
        let rows = |k: usize| lens[..k].iter().sum::<usize>();
        let mut cols = vec![];
        let mut preds = vec![];
        for (ci, key) in ["x", "y"].iter().enumerate() {
            let toks = ints(&conf[*key]);
            let (nm, nullable) = loop {
                let k = comparable().choose(rng).unwrap().clone();
                if let Some((nm, _)) = names(rng, &k, 2, 1) {
                    break (nm, toks.contains(&NULL_TOK) || rng.gen());
                }
            };
            let c = nm.col(rng, &toks, &lens, nullable, false);
            preds.push(is_one(rng, ci, &nm));
            cols.push(c);
        }
        let kind = crate::scen::all_kinds().choose(rng).unwrap().clone();
        let nullable = kind == Kind::Null || rng.gen();
        cols.push(gen_col(rng, &kind, nullable, rows(n), GenOpt::default()));
        let cuts: Vec<Vec<usize>> = conf["cut"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let mut at = 0;
                idx(c).iter().map(|k| { at += k; rows(at) - rows(at - k) }).collect()
            })
            .collect();
        let names: Vec<String> = match rng.gen_range(0..3) {
            0 => vec!["x".into(), "y".into(), "i".into()],
            1 => vec!["b".into(), "a".into(), "".into()],
            _ => vec!["x y".into(), "é".into(), "x".into()],
        };
        let t = Tab { names, cols, n: rows(n) };
        let (px, py) = (preds[0].clone(), preds[1].clone());
        let filter = match conf["f"].as_str().unwrap() {
            "none" => None,
            "x" => Some(px),
            "xandy" => Some(if rng.gen() { Ex::And(Box::new(px), Box::new(py)) } else { Ex::And(Box::new(py), Box::new(px)) }),
            _ => Some(Ex::Or(Box::new(px), Box::new(py))),
        };
        let mut lits = vec![];
        filter.iter().for_each(|f| f.lits(&mut lits));
        let d = t.domain(&lits);
        sink.begin(&format!("{prop}beh {s} {seed}"));
        let mut lines = vec![tab_line(&t, &d)];
        let o = eopt(rng);
        let same = cuts[0] == cuts[1] && cuts[1] == cuts[2] && rng.gen();
        let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
        let w = guard(|| {
            let a = if same {
                let mut at = 0;
                let c: Vec<(usize, usize)> = cuts[0].iter().map(|k| { at += k; (at - k, at) }).collect();
                t.chunked(&mut r2, &c, o)?
            } else {
                let fs = t.cols.iter().zip(&cuts).map(|(c, l)| chunked_col(&mut r2, c, l, o)).collect::<VortexResult<Vec<_>>>()?;
                vortex::array::StructArray::try_new(crate::tab::field_names(&t.names), fs, t.n, vortex::validity::Validity::NonNullable)?.into_array()
            };
            let mut drv = Driver::new(true);
            drv.future(async { LayoutWriter::new(Vec::<u8>::new()).write_array_columns(a).await?.finalize().await })
                .vortex_expect("writing to memory is pending")
        });
        let how = format!("{cuts:?}");
        match w {
            Out::Ok(bytes) => {
                lines.push(json!({"o": "write", "e": how, "k": "ok", "m": ""}));
                let bytes = Arc::new(bytes);
                let bs = conf["bs"].as_u64().unwrap() as usize;
                let bs = if wide == 1 { bs } else { (bs * *[1, wide / 2 + 1, wide, wide + 1].choose(rng).unwrap()).max(1) };
                let scn = Scan {
                    proj: Some(idx(&conf["p"]).iter().map(|i| i - 1).collect()),
                    by_index: rng.gen(),
                    filter: filter.map(|f| (f, rng.gen_range(0..3))),
                    batch: Some(bs),
                    give_size: false,
                };
                let f = ScriptFile::new(bytes.clone(), vec![], Fault::None);
                let log = f.log.clone();
                let out = scan(rng, &t, &d, f, &scn, true);
                lines.push(scan_line(&t, &d, &scn, &out, &how));
                let order: Vec<Vec<i64>> = b["order"].as_array().unwrap().iter().map(ints).collect();
                let bad = b["bad"].as_u64().unwrap() as usize;
                let mut issued = order.clone();
                issued.sort_by_key(|r| (r[1], r[0]));
                if prop == "F04" {
                    // the reads of chunks are the last ones
                    let reads = log.lock().unwrap().reads.len();
                    let before = reads.saturating_sub(issued.len().max(1));
                    let mut delays = vec![0; before];
                    delays.extend(issued.iter().map(|r| 2 * order.iter().position(|x| x == r).unwrap()));
                    if delays.is_empty() {
                        delays.push(1);
                    }
                    let at = if bad == 0 { 0 } else { before + issued.iter().position(|r| *r == order[bad - 1]).unwrap() };
                    let fault = match (bad, rng.gen_range(0..3)) {
                        (0, _) => Fault::None,
                        (_, 0) => Fault::Error(at),
                        (_, 1) => Fault::Short(at),
                        _ => Fault::Eof(at),
                    };
                    let f = ScriptFile::new(bytes, delays, fault);
                    let log = f.log.clone();
                    let eager = rng.gen();
                    let out = scan(rng, &t, &d, f, &scn, eager);
                    let hit = bad > 0 && log.lock().unwrap().reads.len() > at;
                    let mut l = scan_line(&t, &d, &scn, &out, &how);
                    l["ft"] = json!(format!("{fault:?}"));
                    l["hit"] = json!(hit as u8);
                    lines.push(l);
                }
            }
            o => lines.push(json!({"o": "write", "e": how, "k": o.tag(), "m": o.msg()})),
        }
        sink.push_json(&lines_trace(format!("{prop}beh-{bi}-{}", seed / 100), lines));
    }
}
