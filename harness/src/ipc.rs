//! IPC streams: writing and reading (S01), cuts and failures (S02), taking rows (S03).
use std::collections::BTreeMap;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;

use bytes::BytesMut;
use futures::Stream;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use vortex::array::ChunkedArray;
use vortex::stream::ArrayStreamExt;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_buffer::Buffer;
use vortex_dtype::DType;
use vortex_error::{VortexExpect, VortexResult};
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_serde::io::offset::OffsetReadAt;
use vortex_serde::io::{FuturesAdapter, TokioAdapter, VortexRead, VortexReadAt};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;
use vortex_serde::DTypeReader;

use crate::enc::*;
use crate::file::lines_trace;
use crate::ipcutil::ctx;
use crate::rec::*;
use crate::scen::{all_kinds, gen_len, index_array, Cfg};
use crate::sio::*;
use crate::tab::*;
use crate::val::*;

pub enum Item {
    /// a column, cut into chunks
    Arr(Col, Vec<(usize, usize)>, bool),
    Page(Vec<u8>),
}

pub struct Msg {
    pub json: Value,
    pub begin: u64,
    pub end: u64,
    pub kind: Option<Kind>,
}
pub struct Written {
    pub bytes: Arc<Vec<u8>>,
    pub msgs: Vec<Msg>,
    pub line: Value,
    /// first message of each item
    pub starts: Vec<usize>,
}

fn any_col(rng: &mut StdRng, n: usize) -> Col {
    let kind = all_kinds().choose(rng).unwrap().clone();
    let nullable = kind == Kind::Null || rng.gen();
    gen_col(rng, &kind, nullable, n, GenOpt::default())
}

pub fn gen_items(rng: &mut StdRng, max_len: usize, items: usize) -> Vec<Item> {
    (0..items)
        .map(|i| {
            if i > 0 && rng.gen_bool(0.4) {
                let n = if rng.gen_bool(0.2) { 0 } else { rng.gen_range(1..140) };
                Item::Page((0..n).map(|_| rng.gen()).collect())
            } else {
                let n = rng.gen_range(0..=max_len);
                let c = any_col(rng, n);
                let cuts = if rng.gen_bool(0.25) {
                    vec![(0, n)]
                } else if n == 0 && rng.gen_bool(0.3) {
                    vec![]
                } else {
                    gen_cuts(rng, n)
                };
                let as_stream = cuts.len() != 1 || rng.gen_bool(0.3);
                Item::Arr(c, cuts, as_stream)
            }
        })
        .collect()
}

fn chunks_of(rng: &mut StdRng, c: &Col, cuts: &[(usize, usize)]) -> VortexResult<Vec<Array>> {
    cuts.iter()
        .map(|(s, e)| {
            let o = EncOpt { exotic_validity: 0.2, depth: rng.gen_range(0..2), tame: false };
            col_array(rng, &c.sub(*s, *e), o)
        })
        .collect()
}

pub fn domain_of(items: &[Item]) -> Domain {
    Domain::new(items.iter().flat_map(|i| match i {
        Item::Arr(c, ..) => c.vals.iter().collect::<Vec<_>>(),
        _ => vec![],
    }))
}

pub fn write_items(rng: &mut StdRng, items: &[Item], d: &Domain) -> Out<Written> {
    let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
    guard(|| {
        let mut drv = Driver::new(true);
        let mut w = StreamArrayWriter::new(Vec::<u8>::new());
        let mut all_cuts: Vec<Vec<(usize, usize)>> = vec![];
        for it in items {
            match it {
                Item::Arr(c, cuts, stream) => {
                    let mut ch = chunks_of(&mut r2, c, cuts)?;
                    let a = if *stream { ChunkedArray::try_new(ch, dtype(c))?.into_array() } else { ch.pop().vortex_expect("one") };
                    // an encoding may be chunked itself
                    let lens: Vec<usize> = match ChunkedArray::try_from(&a) {
                        Ok(x) => x.chunks().map(|x| x.len()).collect(),
                        Err(_) => vec![a.len()],
                    };
                    let mut at = 0;
                    all_cuts.push(lens.iter().map(|l| { at += l; (at - l, at) }).collect());
                    w = drv.future(w.write_array(a)).vortex_expect("pending")?;
                }
                Item::Page(b) => {
                    w = drv.future(w.write_page(Buffer::from(bytes::Bytes::from(b.clone())))).vortex_expect("pending")?;
                }
            }
        }
        let mut arrs = w.array_layouts().to_vec().into_iter();
        let mut pages = w.page_ranges().to_vec().into_iter();
        let mut msgs = vec![];
        let mut starts = vec![];
        let mut rows = vec![];
        let mut all_cuts = all_cuts.into_iter();
        for it in items {
            starts.push(msgs.len());
            match it {
                Item::Arr(c, _, _) => {
                    let cuts = all_cuts.next().vortex_expect("cuts of each array");
                    let l = arrs.next().vortex_expect("a layout for each array");
                    msgs.push(Msg {
                        json: json!({"k": "dtype", "d": format!("{}", dtype(c)), "c": []}),
                        begin: l.dtype.begin,
                        end: l.dtype.end,
                        kind: Some(c.kind.clone()),
                    });
                    for (j, (s, e)) in cuts.iter().enumerate() {
                        let toks = col_toks(d, &c.kind, &c.vals[*s..*e].to_vec());
                        msgs.push(Msg {
                            json: json!({"k": "batch", "d": format!("{}", dtype(c)), "c": toks}),
                            begin: l.chunks.byte_offsets[j],
                            end: l.chunks.byte_offsets[j + 1],
                            kind: Some(c.kind.clone()),
                        });
                    }
                    let n = l.chunks.byte_offsets.len();
                    rows.push(json!({"n": n, "r": l.chunks.row_offsets, "lens": cuts.iter().map(|(s, e)| e - s).collect::<Vec<_>>()}));
                }
                Item::Page(b) => {
                    let l = pages.next().vortex_expect("a range for each page");
                    msgs.push(Msg { json: json!({"k": "page", "d": "", "c": b}), begin: l.begin, end: l.end, kind: None });
                }
            }
        }
        let bytes = Arc::new(w.into_inner());
        let line = json!({"o": "wrote", "m": msgs.iter().map(|m| m.json.clone()).collect::<Vec<_>>(),
            "b": msgs.iter().map(|m| m.begin).collect::<Vec<_>>(), "z": msgs.iter().map(|m| m.end).collect::<Vec<_>>(),
            "total": bytes.len(), "rows": rows});
        Ok(Written { bytes, msgs, line, starts })
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Load,
    With(usize),
    /// up to so many chunks through a borrowed stream, then drop the stream
    Chunks(usize),
    /// the rest of the chunks, through the owned stream (ends the script)
    IntoChunks,
    Page,
    Pages,
}

struct Events {
    ev: Vec<Value>,
    msg: String,
}
impl Events {
    fn add(&mut self, o: &str, k: &str, d: String, c: Vec<i64>, dt: bool) {
        self.ev.push(json!({"o": o, "k": k, "d": d, "c": c, "dt": dt as u8}));
    }
}

fn chunk_event(ev: &mut Events, d: &Domain, want: &DType, kind: &Kind, r: Option<VortexResult<Array>>) -> bool {
    match r {
        None => {
            ev.add("chunk", "none", String::new(), vec![], true);
            false
        }
        Some(Err(e)) => {
            ev.msg = short(&e);
            ev.add("chunk", "err", String::new(), vec![], true);
            false
        }
        Some(Ok(a)) => {
            let dt = a.dtype() == want;
            match decode(&a) {
                Ok(v) => ev.add("chunk", "ok", String::new(), col_toks(d, kind, &v), dt),
                Err(e) => {
                    ev.msg = short(&e);
                    ev.add("chunk", "undecodable", String::new(), vec![], dt);
                }
            }
            true
        }
    }
}
fn page_event(ev: &mut Events, r: VortexResult<Option<Buffer>>) -> bool {
    match r {
        Ok(None) => {
            ev.add("page", "none", String::new(), vec![], true);
            false
        }
        Ok(Some(b)) => {
            ev.add("page", "ok", String::new(), b.as_slice().iter().map(|x| *x as i64).collect(), true);
            true
        }
        Err(e) => {
            ev.msg = short(&e);
            ev.add("page", "err", String::new(), vec![], true);
            false
        }
    }
}

/// Run a reading script; returns the events.
pub fn read_script<R: VortexRead>(
    read: R,
    d: &Domain,
    kind: &Kind,
    want: &DType,
    steps: &[Step],
    eager: bool,
) -> (Vec<Value>, String) {
    read_script_of(read, d, &[(kind.clone(), want.clone())], steps, eager)
}

/// As many types as there are dtypes to come by: the first is what `With` knows and what the first `Load` should find.
pub fn read_script_of<R: VortexRead>(
    read: R,
    d: &Domain,
    types: &[(Kind, DType)],
    steps: &[Step],
    eager: bool,
) -> (Vec<Value>, String) {
    let mut next_type = 0;
    let (mut kind, mut want) = (&types[0].0, &types[0].1);
    let mut ev = Events { ev: vec![], msg: String::new() };
    let mut drv = Driver::new(eager);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let Some(r) = drv.future(StreamArrayReader::try_new(read, ctx())) else {
            ev.add("open", "hang", String::new(), vec![], true);
            return;
        };
        let mut rd = match r {
            Ok(r) => {
                ev.add("open", "ok", String::new(), vec![], true);
                r
            }
            Err(e) => {
                ev.msg = short(&e);
                ev.add("open", "err", String::new(), vec![], true);
                return;
            }
        };
        let mut have_dtype = false;
        for s in steps {
            match s {
                Step::Load => match drv.future(rd.load_dtype()) {
                    None => {
                        ev.add("dtype", "hang", String::new(), vec![], true);
                        return;
                    }
                    Some(Ok(r)) => {
                        rd = r;
                        have_dtype = true;
                        (kind, want) = types.get(next_type).map(|t| (&t.0, &t.1)).unwrap_or((kind, want));
                        next_type += 1;
                        let got = vortex::stream::ArrayStream::dtype(&rd.array_stream()).clone();
                        ev.add("dtype", "ok", format!("{got}"), vec![], got == *want);
                    }
                    Some(Err(e)) => {
                        ev.msg = short(&e);
                        ev.add("dtype", "err", String::new(), vec![], true);
                        return;
                    }
                },
                Step::With(n) => {
                    next_type = *n;
                    rd = rd.with_dtype(Arc::new(want.clone()));
                    have_dtype = true;
                }
                Step::Chunks(k) if have_dtype => {
                    let mut st = Box::pin(rd.array_stream());
                    for _ in 0..*k {
                        match drv.run(|cx| st.as_mut().poll_next(cx)) {
                            None => {
                                ev.add("chunk", "hang", String::new(), vec![], true);
                                return;
                            }
                            Some(x) => {
                                if !chunk_event(&mut ev, d, want, kind, x) {
                                    break;
                                }
                            }
                        }
                    }
                }
                Step::IntoChunks => {
                    let mut st: Pin<Box<dyn Stream<Item = VortexResult<Array>>>> = Box::pin(rd.into_array_stream());
                    for _ in 0..1000 {
                        match drv.run(|cx| st.as_mut().poll_next(cx)) {
                            None => {
                                ev.add("chunk", "hang", String::new(), vec![], true);
                                return;
                            }
                            Some(x) => {
                                if !chunk_event(&mut ev, d, want, kind, x) {
                                    return;
                                }
                            }
                        }
                    }
                    ev.add("chunk", "endless", String::new(), vec![], true);
                    return;
                }
                Step::Page => match drv.future(rd.next_page()) {
                    None => {
                        ev.add("page", "hang", String::new(), vec![], true);
                        return;
                    }
                    Some(r) => {
                        page_event(&mut ev, r);
                    }
                },
                Step::Pages => {
                    let Some(st) = drv.future(rd.page_stream()) else {
                        ev.add("page", "hang", String::new(), vec![], true);
                        return;
                    };
                    let mut st = Box::pin(st);
                    for _ in 0..1000 {
                        match drv.run(|cx| st.as_mut().poll_next(cx)) {
                            None => {
                                ev.add("page", "hang", String::new(), vec![], true);
                                return;
                            }
                            Some(x) => {
                                if !page_event(&mut ev, x.transpose()) {
                                    break;
                                }
                            }
                        }
                    }
                }
                Step::Chunks(_) => {}
            }
        }
    }));
    if r.is_err() {
        let m = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone();
        ev.msg = m;
        ev.add("?", "panic", String::new(), vec![], true);
    }
    (ev.ev, ev.msg)
}

/// how the bytes get to the reader
pub fn read_via(
    rng: &mut StdRng,
    w: &Written,
    from: usize,
    d: &Domain,
    kind: &Kind,
    want: &DType,
    steps: &[Step],
) -> (String, Vec<Value>, String) {
    let begin = w.msgs.get(from).map(|m| m.begin).unwrap_or(w.bytes.len() as u64) as usize;
    let rest = Arc::new(w.bytes[begin..].to_vec());
    let total = rest.len();
    let pieces: Vec<usize> = match rng.gen_range(0..4) {
        0 => vec![1],
        1 => vec![],
        2 => (0..rng.gen_range(1..6)).map(|_| rng.gen_range(1..9)).collect(),
        _ => (0..rng.gen_range(1..6)).map(|_| rng.gen_range(1..100)).collect(),
    };
    let eager: bool = rng.gen();
    let pend: bool = rng.gen();
    let how = rng.gen_range(0..7);
    let (n, r) = match how {
        0 => ("futures", read_script(FuturesAdapter(PieceStream::new(rest, pieces, pend, total, false)), d, kind, want, steps, eager)),
        1 => ("tokio", read_script(TokioAdapter(PieceStream::new(rest, pieces, pend, total, false)), d, kind, want, steps, eager)),
        2 => ("bytesmut", read_script(BytesMut::from(&rest[..]), d, kind, want, steps, eager)),
        3 => {
            let mut c = Cursor::new(w.bytes.as_ref().clone());
            c.set_position(begin as u64);
            ("cursor", read_script(c, d, kind, want, steps, eager))
        }
        4 => {
            let mut c = Cursor::new(Buffer::from(bytes::Bytes::from(w.bytes.as_ref().clone())));
            c.set_position(begin as u64);
            ("buffer", read_script(c, d, kind, want, steps, eager))
        }
        5 => {
            // an object inside another one
            let pre = rng.gen_range(0..100usize);
            let mut b: Vec<u8> = (0..pre).map(|_| rng.gen()).collect();
            b.extend_from_slice(&w.bytes);
            let mut c = Cursor::new(OffsetReadAt::new(b, pre as u64));
            c.set_position(begin as u64);
            ("offset", read_script(c, d, kind, want, steps, eager))
        }
        _ => {
            let delays: Vec<usize> = (0..rng.gen_range(1..5)).map(|_| rng.gen_range(0..3)).collect();
            let mut c = Cursor::new(ScriptFile::new(w.bytes.clone(), delays, Fault::None));
            c.set_position(begin as u64);
            ("script", read_script(c, d, kind, want, steps, eager))
        }
    };
    (format!("{n}{}", if pend && how < 2 { "+pend" } else { "" }), r.0, r.1)
}

fn gen_steps(rng: &mut StdRng, items: &[Item], item: usize, w: &Written) -> (usize, Vec<Step>) {
    // message offset within the item, steps
    let end = w.starts.get(item + 1).copied().unwrap_or(w.msgs.len());
    let n = end - w.starts[item] - 1;
    let mut s = vec![];
    let mut off = 0;
    if let Item::Arr(..) = &items[item] {
        if rng.gen_bool(0.2) {
            s.push(Step::Page); // nothing to see here
        }
        if rng.gen_bool(0.35) {
            // straight to a chunk
            off = 1 + rng.gen_range(0..=n);
            s.push(Step::With(0));
        } else {
            s.push(Step::Load);
        }
        if rng.gen_bool(0.3) {
            s.push(Step::IntoChunks);
            return (off, s);
        }
        let mut left = n + 1;
        while left > 0 {
            let k = rng.gen_range(1..=left);
            s.push(Step::Chunks(k));
            if rng.gen_bool(0.2) {
                s.push(Step::Page);
            }
            left -= k;
        }
    }
    // whatever pages follow
    match rng.gen_range(0..3) {
        0 => s.push(Step::Pages),
        1 => {
            for _ in 0..rng.gen_range(1..4) {
                s.push(Step::Page);
            }
        }
        _ => {}
    }
    if s.contains(&Step::Load) || s.contains(&Step::With(0)) {
        s.push(Step::Chunks(1));
    }
    (off, s)
}

fn null_kind(i: &Item) -> (Kind, DType) {
    match i {
        Item::Arr(c, ..) => (c.kind.clone(), dtype(c)),
        Item::Page(_) => (Kind::Null, DType::Null),
    }
}

pub fn s01(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 10 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let ml = if rng.gen_bool(0.1) { gen_len(&mut rng, cfg.big) } else { 40 };
        let ni = rng.gen_range(1..5);
        let items = gen_items(&mut rng, ml, ni);
        let d = domain_of(&items);
        sink.begin(&format!("S01 {seed} {k}"));
        let w = match write_items(&mut rng, &items, &d) {
            Out::Ok(w) => w,
            o => {
                sink.push_json(&lines_trace(format!("S01-{seed}-{k}"), vec![
                    json!({"o": "wrote", "m": [], "b": [], "z": [], "total": 0, "rows": []}),
                    json!({"o": "writefail", "k": o.tag(), "e": o.msg()})]));
                continue;
            }
        };
        let mut lines = vec![w.line.clone()];
        for i in 0..items.len() {
            for _ in 0..3 {
                let (kind, want) = null_kind(&items[i]);
                let (off, steps) = gen_steps(&mut rng, &items, i, &w);
                let (how, ev, m) = read_via(&mut rng, &w, w.starts[i] + off, &d, &kind, &want, &steps);
                lines.push(json!({"o": "read", "e": how, "ft": "none", "lo": w.bytes.len(), "hi": w.bytes.len(),
                    "at": w.starts[i] + off + 1, "ev": ev, "m": m, "w": steps.contains(&Step::With(0)) as u8}));
            }
        }
        sink.push_json(&lines_trace(format!("S01-{seed}-{k}"), lines));
    }
}

/// every cut of a stream, and a failure at every point
pub fn s02(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 3 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let ni = rng.gen_range(1..4);
        let ml = rng.gen_range(1..30);
        let mut items = gen_items(&mut rng, ml, ni);
        if rng.gen_bool(0.5) {
            items.truncate(1);
        }
        let d = domain_of(&items);
        sink.begin(&format!("S02 {seed} {k}"));
        let Out::Ok(w) = write_items(&mut rng, &items, &d) else {
            continue;
        };
        let mut lines = vec![w.line.clone()];
        let total = w.bytes.len();
        let steps = [Step::Load, Step::Chunks(100), Step::Chunks(2), Step::Pages, Step::Chunks(1), Step::Page];
        let (kind, want) = null_kind(&items[0]);
        let mut outs: BTreeMap<String, (Value, usize, usize, usize)> = BTreeMap::new();
        let mut cuts: Vec<usize> = if total <= 3000 { (0..=total).collect() } else {
            let mut v: Vec<usize> = (0..800).map(|_| rng.gen_range(0..=total)).collect();
            for m in &w.msgs {
                for x in [m.begin as usize, m.end as usize] {
                    v.extend(x.saturating_sub(6)..=(x + 12).min(total));
                }
            }
            v
        };
        cuts.sort();
        cuts.dedup();
        for c in cuts {
            for how in 0..4 {
                let (ft, (ev, m)) = match how {
                    0 => ("eof", read_script(BytesMut::from(&w.bytes[..c]), &d, &kind, &want, &steps, true)),
                    1 => {
                        let p = [vec![], vec![1], vec![7, 3, 64]].choose(&mut rng).unwrap().clone();
                        let s = PieceStream::new(w.bytes.clone(), p, rng.gen(), c, true);
                        (if c < total { "err" } else { "eof" }, read_script(FuturesAdapter(s), &d, &kind, &want, &steps, rng.gen()))
                    }
                    2 => {
                        let s = PieceStream::new(w.bytes.clone(), vec![], false, c, false);
                        ("eof", read_script(TokioAdapter(s), &d, &kind, &want, &steps, true))
                    }
                    _ => ("eof", read_script(Cursor::new(w.bytes[..c].to_vec()), &d, &kind, &want, &steps, true)),
                };
                let v = json!({"ft": ft, "ev": ev});
                let key = v.to_string();
                let e = outs.entry(key).or_insert((json!({"ft": ft, "ev": ev, "m": m, "how": how}), c, c, 0));
                e.1 = e.1.min(c);
                e.2 = e.2.max(c);
                e.3 += 1;
            }
        }
        // transports that return fewer bytes than asked for
        let mut i = 0;
        loop {
            let f = ScriptFile::new(w.bytes.clone(), vec![], Fault::Short(i));
            let log = f.log.clone();
            let (ev, m) = read_script(Cursor::new(f), &d, &kind, &want, &steps, true);
            let l = log.lock().unwrap();
            if l.reads.len() <= i {
                break;
            }
            // everything before that read has arrived; the prefix of a message may be read short
            let at = l.reads[i].0 as usize;
            if l.reads[i].1 == 0 {
                i += 1;
                continue;
            }
            lines.push(json!({"o": "read", "e": "short", "ft": "short", "lo": at, "hi": at, "at": 1, "ev": ev, "m": m, "w": 0, "times": 1}));
            i += 1;
        }
        for (_, (v, lo, hi, n)) in outs {
            lines.push(json!({"o": "read", "e": format!("h{}", v["how"]), "ft": v["ft"], "lo": lo, "hi": hi, "at": 1, "ev": v["ev"],
                              "m": v["m"], "w": 0, "times": n}));
        }
        sink.push_json(&lines_trace(format!("S02-{seed}-{k}"), lines));
    }
}

// ---- taking rows ------------------------------------------------------------
fn rows_near(rng: &mut StdRng, cuts: &[(usize, usize)], n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match rng.gen_range(0..6) {
        0 => cuts.iter().flat_map(|(s, e)| [*s, e.saturating_sub(1)]).collect(),
        1 => cuts.iter().map(|(s, _)| *s).collect(),
        2 => (0..n).collect(),
        3 => vec![rng.gen_range(0..n)],
        4 => {
            let p = rng.gen_range(0.05..0.9);
            (0..n).filter(|_| rng.gen_bool(p)).collect()
        }
        _ => (0..rng.gen_range(1..6)).map(|_| rng.gen_range(0..n)).collect(),
    };
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

fn out_rows(d: &Domain, kind: &Kind, want: &DType, res: Out<Array>) -> Value {
    let (k, m) = (res.tag(), res.msg());
    match res {
        Out::Ok(a) => match guard(|| decode(&a)) {
            Out::Ok(v) => json!({"k": "ok", "m": "", "c": col_toks(d, kind, &v), "dt": (a.dtype() == want) as u8}),
            o => json!({"k": format!("undecodable-{}", o.tag()), "m": o.msg(), "c": [], "dt": 1}),
        },
        _ => json!({"k": k, "m": m, "c": [], "dt": 1}),
    }
}

/// offsets are primitive arrays of any type that holds them
fn offset_array(rng: &mut StdRng, x: &[usize]) -> Array {
    loop {
        let (n, a) = index_array(rng, x);
        if !n.contains(':') {
            return a;
        }
    }
}

/// rows of the last array of a stream, as stored and as a stream
fn take_rows(rng: &mut StdRng, w: &Written, c: &Col, cuts: &[(usize, usize)], d: &Domain, x: &[usize], lines: &mut Vec<Value>) {
    let (kind, want) = (c.kind.clone(), dtype(c));
    let first = w.msgs.len() - cuts.len();
    let boffs: Vec<usize> = w.msgs[first..].iter().map(|m| m.begin as usize).chain([w.bytes.len()]).collect();
    let roffs: Vec<usize> = std::iter::once(0).chain(cuts.iter().map(|c| c.1)).collect();
    let (it, idx) = index_array(rng, x);
    // from the stored array
    let (b, r) = (offset_array(rng, &boffs), offset_array(rng, &roffs));
    let delays: Vec<usize> = (0..rng.gen_range(0..6)).map(|_| rng.gen_range(0..4)).collect();
    let res = guard(|| {
        let f = ScriptFile::new(w.bytes.clone(), delays, Fault::None);
        let mut rd = ChunkedArrayReader::try_new(f, ctx(), Arc::new(want.clone()), b.clone(), r.clone())?;
        let mut drv = Driver::new(rng.gen());
        drv.future(rd.take_rows(&idx)).vortex_expect("hang")
    });
    let mut l = out_rows(d, &kind, &want, res);
    l["o"] = json!("takerows");
    l["e"] = json!("chunked");
    l["x"] = json!(x);
    l["it"] = json!(it);
    lines.push(l);
    // from a stream
    let how = rng.gen_range(0..2);
    let res = guard(|| {
        let mut drv = Driver::new(true);
        if how == 0 {
            let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
            let a = ChunkedArray::try_new(chunks_of(&mut r2, c, cuts)?, want.clone())?;
            let st = a.array_stream().take_rows(idx.clone())?;
            drv.future(st.collect_chunked()).vortex_expect("hang").map(|a| a.into_array())
        } else {
            let mut cur = Cursor::new(w.bytes.as_ref().clone());
            cur.set_position(w.msgs[first - 1].begin);
            let rd = drv.future(StreamArrayReader::try_new(cur, ctx())).vortex_expect("hang")?;
            let rd = drv.future(rd.load_dtype()).vortex_expect("hang")?;
            let st = rd.into_array_stream().take_rows(idx.clone())?;
            drv.future(st.collect_chunked()).vortex_expect("hang").map(|a| a.into_array())
        }
    });
    let mut l = out_rows(d, &kind, &want, res);
    l["o"] = json!("takerows");
    l["e"] = json!(format!("stream{how}"));
    l["x"] = json!(x);
    l["it"] = json!(it);
    lines.push(l);
}

pub fn s03(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for k in 0..cfg.reps * 12 {
        let mut rng = StdRng::seed_from_u64(seed * 7919 + k as u64);
        let n = match rng.gen_range(0..8) {
            0 => 1,
            1 => rng.gen_range(100..700),
            _ => rng.gen_range(1..60),
        };
        let c = any_col(&mut rng, n);
        let mut cuts = gen_cuts(&mut rng, n);
        if n > 100 && rng.gen_bool(0.5) {
            cuts = (0..n).map(|i| (i, i + 1)).collect();
        }
        // something before the array in the same object
        let mut items = vec![Item::Arr(c.clone(), cuts.clone(), true)];
        if rng.gen_bool(0.4) {
            items.insert(0, Item::Page((0..rng.gen_range(1..100)).map(|_| rng.gen()).collect()));
        }
        let d = domain_of(&items);
        sink.begin(&format!("S03 {seed} {k}"));
        let w = match write_items(&mut rng, &items, &d) {
            Out::Ok(w) => w,
            _ => continue,
        };
        let mut lines = vec![w.line.clone()];
        for _ in 0..5 {
            let x = rows_near(&mut rng, &cuts, n);
            if !x.is_empty() {
                take_rows(&mut rng, &w, &c, &cuts, &d, &x, &mut lines);
            }
        }
        sink.push_json(&lines_trace(format!("S03-{seed}-{k}"), lines));
    }
}

/// dtypes that follow one another, and what comes after them
fn read_dtypes<R: VortexRead>(read: R, types: &[(Kind, DType)], eager: bool) -> (Vec<Value>, String) {
    let mut ev = Events { ev: vec![], msg: String::new() };
    let mut drv = Driver::new(eager);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut rd = match drv.future(DTypeReader::new(read)) {
            None => return ev.add("open", "hang", String::new(), vec![], true),
            Some(Err(e)) => {
                ev.msg = short(&e);
                return ev.add("open", "err", String::new(), vec![], true);
            }
            Some(Ok(r)) => r,
        };
        ev.add("open", "ok", String::new(), vec![], true);
        for i in 0..4 {
            match drv.future(rd.read_dtype()) {
                None => return ev.add("dtype", "hang", String::new(), vec![], true),
                Some(Ok(got)) => ev.add("dtype", "ok", format!("{got}"), vec![], types.get(i).is_some_and(|t| t.1 == got)),
                Some(Err(e)) => {
                    ev.msg = short(&e);
                    ev.add("dtype", "err", String::new(), vec![], true);
                }
            }
        }
    }));
    if r.is_err() {
        ev.msg = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone();
        ev.add("?", "panic", String::new(), vec![], true);
    }
    (ev.ev, ev.msg)
}

/// the behaviours of `VxRowsMC`
pub fn rbeh(sink: &mut Sink, seed: u64, _cfg: &Cfg) {
    use crate::beh::idx;
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let every: usize = crate::arg("every", "1").parse().unwrap();
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    for (bi, s) in text.lines().enumerate() {
        if (bi + (seed / 100) as usize) % every != 0 || bi / every % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(s).expect("behaviour");
        let mut rng = StdRng::seed_from_u64((seed / 100).wrapping_mul(1_000_003) ^ (bi as u64) << 8);
        let rng = &mut rng;
        // every row of the model stands for a run of rows
        let wide = *[1usize, 1, 1, 4, 50].choose(rng).unwrap();
        let mut ends = vec![0];
        let cuts: Vec<(usize, usize)> = idx(&b["cut"])
            .iter()
            .map(|k| {
                let from = ends[ends.len() - 1];
                for _ in 0..*k {
                    ends.push(ends[ends.len() - 1] + rng.gen_range(1..=wide));
                }
                (from, ends[ends.len() - 1])
            })
            .collect();
        let mut x = vec![];
        for i in idx(&b["x"]) {
            let p: f64 = if rng.gen() { 1.0 } else { 0.3 };
            let keep = rng.gen_range(ends[i]..ends[i + 1]);
            x.extend((ends[i]..ends[i + 1]).filter(|j| *j == keep || rng.gen_bool(p)));
        }
        let c = any_col(rng, ends[ends.len() - 1]);
        let mut items = vec![Item::Arr(c.clone(), cuts.clone(), true)];
        if rng.gen_bool(0.4) {
            items.insert(0, Item::Page((0..rng.gen_range(1..100)).map(|_| rng.gen()).collect()));
        }
        let d = domain_of(&items);
        sink.begin(&format!("Rbeh {seed} {bi}"));
        let Out::Ok(w) = write_items(rng, &items, &d) else {
            continue;
        };
        let mut lines = vec![w.line.clone()];
        take_rows(rng, &w, &c, &cuts, &d, &x, &mut lines);
        sink.push_json(&lines_trace(format!("Rbeh-{seed}-{bi}"), lines));
    }
}

/// the behaviours of `VxStreamMC`
pub fn sbeh(sink: &mut Sink, seed: u64, _cfg: &Cfg) {
    use crate::beh::idx;
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let every: usize = crate::arg("every", "1").parse().unwrap();
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    for (bi, s) in text.lines().enumerate() {
        if (bi + (seed / 100) as usize) % every != 0 || bi / every % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(s).expect("behaviour");
        let mut rng = StdRng::seed_from_u64((seed / 100).wrapping_mul(1_000_003) ^ (bi as u64) << 8);
        let rng = &mut rng;
        // every row of the model stands for a run of rows
        let wide = *[1usize, 1, 3, 40].choose(rng).unwrap();
        let mut types = vec![];
        let items: Vec<Item> = b["items"]
            .as_array()
            .unwrap()
            .iter()
            .map(|it| {
                let cut = idx(&it["cut"]);
                if it["k"] == "page" {
                    let n = cut[0] * rng.gen_range(1..=2 * wide);
                    return Item::Page((0..n).map(|_| rng.gen()).collect());
                }
                let mut at = 0;
                let cuts: Vec<(usize, usize)> = cut
                    .iter()
                    .map(|k| {
                        let n: usize = (0..*k).map(|_| rng.gen_range(1..=wide)).sum();
                        at += n;
                        (at - n, at)
                    })
                    .collect();
                let c = any_col(rng, at);
                let stream = cuts.len() != 1 || rng.gen();
                Item::Arr(c, cuts, stream)
            })
            .collect();
        let d = domain_of(&items);
        sink.begin(&format!("Sbeh {seed} {bi}"));
        let w = match write_items(rng, &items, &d) {
            Out::Ok(w) => w,
            o => {
                sink.push_json(&lines_trace(format!("Sbeh-{seed}-{bi}"), vec![
                    json!({"o": "wrote", "m": [], "b": [], "z": [], "total": 0, "rows": []}),
                    json!({"o": "writefail", "k": o.tag(), "e": o.msg()})]));
                continue;
            }
        };
        // an encoding may have brought chunks of its own; message numbers are those of the model otherwise
        let expect: usize = items.iter().map(|i| match i { Item::Arr(_, c, _) => 1 + c.len(), _ => 1 }).sum();
        if expect != w.msgs.len() {
            continue;
        }
        let from = b["from"].as_u64().unwrap() as usize - 1;
        for (i, it) in items.iter().enumerate() {
            let end = w.starts.get(i + 1).copied().unwrap_or(w.msgs.len());
            if end > from && matches!(it, Item::Arr(..)) {
                types.push(null_kind(it));
            }
        }
        let steps: Vec<Step> = b["calls"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| match c.as_str().unwrap() {
                "load" => Step::Load,
                // reading starts inside an array, or in front of it
                "with" => Step::With(!w.starts.contains(&from) as usize),
                "page" => Step::Page,
                "pages" => Step::Pages,
                "into" => Step::IntoChunks,
                k => Step::Chunks(k.parse().unwrap()),
            })
            .collect();
        if types.is_empty() {
            types.push((Kind::Null, DType::Null));
        }
        let total = w.bytes.len();
        let begin = w.msgs[from].begin as usize;
        let mode = b["fault"]["mode"].as_str().unwrap();
        let at = b["fault"]["at"].as_u64().unwrap() as usize;
        let mut bytes = w.bytes.as_ref().clone();
        let lo = match mode {
            "none" => total,
            "mark" => {
                // no more messages, whatever follows
                bytes.truncate(w.msgs[at].begin as usize);
                bytes.extend([255; 4]);
                bytes.extend((0..rng.gen_range(0..40)).map(|_| if rng.gen() { 255 } else { rng.gen::<u8>() }));
                bytes.len()
            }
            "eof" => w.msgs[at].begin as usize,
            _ => {
                let (s, e) = (w.msgs[at].begin as usize, w.msgs[at].end as usize);
                match rng.gen_range(0..5) {
                    0 => s + 1,
                    1 => (s + 4).min(e - 1),
                    2 => e - 1,
                    3 => rng.gen_range(s + 1..(s + 16).min(e)),
                    _ => rng.gen_range(s + 1..e),
                }
            }
        };
        let rest = Arc::new(bytes[begin..].to_vec());
        let pieces: Vec<usize> = match rng.gen_range(0..4) {
            0 => vec![1],
            1 => vec![],
            2 => (0..rng.gen_range(1..6)).map(|_| rng.gen_range(1..9)).collect(),
            _ => (0..rng.gen_range(1..6)).map(|_| rng.gen_range(1..100)).collect(),
        };
        let (eager, pend): (bool, bool) = (rng.gen(), rng.gen());
        let how = if mode == "err" { rng.gen_range(0..2) } else { rng.gen_range(0..6) };
        let limit = lo - begin;
        let ((ev, m), name) = match how {
            0 => (read_script_of(FuturesAdapter(PieceStream::new(rest, pieces, pend, limit, mode == "err")), &d, &types, &steps, eager), "futures"),
            1 => (read_script_of(TokioAdapter(PieceStream::new(rest, pieces, pend, limit, mode == "err")), &d, &types, &steps, eager), "tokio"),
            2 => (read_script_of(BytesMut::from(&rest[..limit]), &d, &types, &steps, eager), "bytesmut"),
            3 => {
                let mut c = Cursor::new(bytes[..lo].to_vec());
                c.set_position(begin as u64);
                (read_script_of(c, &d, &types, &steps, eager), "cursor")
            }
            4 => {
                let mut c = Cursor::new(Buffer::from(bytes::Bytes::from(bytes[..lo].to_vec())));
                c.set_position(begin as u64);
                (read_script_of(c, &d, &types, &steps, eager), "buffer")
            }
            _ => {
                let delays: Vec<usize> = (0..rng.gen_range(1..5)).map(|_| rng.gen_range(0..3)).collect();
                let mut c = Cursor::new(ScriptFile::new(Arc::new(bytes[..lo].to_vec()), delays, Fault::None));
                c.set_position(begin as u64);
                (read_script_of(c, &d, &types, &steps, eager), "script")
            }
        };
        let mut wrote = w.line.clone();
        let (byte_lo, mut lo, mut ft) = (lo, lo, mode);
        if mode == "mark" {
            for k in ["m", "b", "z"] {
                wrote[k].as_array_mut().unwrap().truncate(at);
            }
            lo = if at == 0 { 0 } else { w.msgs[at - 1].end as usize };
            wrote["total"] = json!(lo);
            ft = "none";
        }
        let ft = if ft == "none" { "none" } else if ft == "err" { "err" } else { "eof" };
        let line = json!({"o": "read", "e": name, "ft": ft, "lo": lo, "hi": lo, "at": from + 1, "ev": ev, "m": m, "w": 0});
        let mut lines = vec![wrote, line];
        if steps.first() == Some(&Step::Load) && rng.gen() {
            // the reader of nothing but dtypes
            let (ev, m) = read_dtypes(BytesMut::from(&bytes[begin..byte_lo]), &types, eager);
            lines.push(json!({"o": "read", "e": "dtypes", "ft": ft, "lo": lo, "hi": lo, "at": from + 1, "ev": ev, "m": m, "w": 0}));
        }
        sink.push_json(&lines_trace(format!("Sbeh-{seed}-{bi}"), lines));
    }
}

#[allow(unused)]
fn unused<R: VortexReadAt>(_: R) {}
