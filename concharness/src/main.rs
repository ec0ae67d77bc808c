//! M01: several threads at work on shared arrays.
use std::collections::HashSet;
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use vharness::enc::*;
use vharness::file::lines_trace;
use vharness::rec::*;
use vharness::scen::{all_kinds, gen_len, rand_indices, rand_mask, rand_range, STATS};
use vharness::stats::stat_scalar_vals;
use vharness::val::*;
use vharness::arg;
use vortex::array::{BoolArray, ChunkedArray};
use vortex::compute::unary::scalar_at;
use vortex::compute::{compare, filter, slice, take, Operator};
use vortex::stats::ArrayStatistics;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::PType;
use vortex_error::VortexResult;
use vortex_scalar::Scalar;

mod sched;

/// one array of the pool: its contents, and what it is made of
#[derive(Clone)]
struct Node {
    arr: Array,
    vals: Vals,
    joined: bool,
}

#[derive(Clone, Debug)]
enum Call {
    Get(usize, usize),
    Compute(usize, usize),
    /// a caller that knows a statistic says so
    Put(usize, usize, Option<Scalar>),
    /// the whole set of known statistics
    Set(usize),
    Decode(usize),
    Slice(usize, usize, usize),
    Take(usize, Vec<usize>),
    Filter(usize, Vec<bool>),
    Scalar(usize, usize),
    Compare(usize, usize, usize),
}
impl Call {
    fn name(&self) -> &'static str {
        match self {
            Call::Get(..) => "get",
            Call::Compute(..) => "compute",
            Call::Put(..) => "put",
            Call::Set(..) => "set",
            Call::Decode(..) => "decode",
            Call::Slice(..) => "slice",
            Call::Take(..) => "take",
            Call::Filter(..) => "filter",
            Call::Scalar(..) => "scalar",
            Call::Compare(..) => "compare",
        }
    }
    fn node(&self) -> usize {
        match self {
            Call::Get(n, _) | Call::Compute(n, _) | Call::Set(n) | Call::Decode(n) | Call::Slice(n, ..) => *n,
            Call::Take(n, _) | Call::Filter(n, _) | Call::Scalar(n, _) | Call::Compare(n, ..) | Call::Put(n, ..) => *n,
        }
    }
    fn stat(&self) -> &'static str {
        match self {
            Call::Get(_, s) | Call::Compute(_, s) | Call::Put(_, s, _) => STATS[*s].1,
            _ => "",
        }
    }
}

fn stat_toks(d: &Domain, k: &Kind, name: &str, v: &[Option<V>]) -> Vec<i64> {
    match name {
        "min" | "max" => match k {
            Kind::Bool => bool_toks(&v.to_vec()),
            _ => d.toks(&v.to_vec()),
        },
        "is_constant" | "is_sorted" | "is_strict_sorted" => bool_toks(&v.to_vec()),
        _ => v.iter().map(|x| if let Some(V::I(i)) = x { (*i).clamp(-1, 2_000_000_000) as i64 } else { NULL_TOK }).collect(),
    }
}
fn toks(d: &Domain, k: &Kind, v: &Vals) -> Vec<i64> {
    match k {
        Kind::Bool => bool_toks(v),
        _ => d.toks(v),
    }
}

const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];

/// what the call answers: {k, v: a statistic, vs: several, r: contents}
fn exec(nodes: &[Node], d: &Domain, k: &Kind, c: &Call) -> Value {
    let a = &nodes[c.node()].arr;
    let stat = |s: usize, o: Out<Option<Scalar>>| match o {
        Out::Ok(x) => json!({"k": "ok", "v": x.map(|x| stat_toks(d, k, STATS[s].1, &stat_scalar_vals(&x))).unwrap_or_default()}),
        o => json!({"k": o.tag(), "m": o.msg(), "v": []}),
    };
    let arr = |o: Out<(Array, Vals)>, k: &Kind| match o {
        Out::Ok((x, v)) => json!({"k": "ok", "r": toks(d, k, &v), "dt": x.dtype().to_string()}),
        o => json!({"k": o.tag(), "r": [], "dt": ""}),
    };
    let both = |x: Array| -> VortexResult<(Array, Vals)> {
        let v = decode(&x)?;
        Ok((x, v))
    };
    match c {
        Call::Get(_, s) => stat(*s, guard(|| Ok(a.statistics().get(STATS[*s].0)))),
        Call::Compute(_, s) => stat(*s, guard(|| Ok(a.statistics().compute(STATS[*s].0)))),
        Call::Put(_, s, x) => stat(
            *s,
            guard(|| {
                if let Some(x) = x {
                    a.statistics().set(STATS[*s].0, x.clone());
                }
                Ok(x.clone())
            }),
        ),
        Call::Set(_) => match guard(|| Ok(a.statistics().to_set())) {
            Out::Ok(x) => {
                let vs: Vec<Value> = STATS
                    .iter()
                    .filter_map(|(st, name)| Some(json!({"s": name, "v": stat_toks(d, k, name, &stat_scalar_vals(x.get(*st)?))})))
                    .collect();
                json!({"k": "ok", "vs": vs})
            }
            o => json!({"k": o.tag(), "vs": [], "m": o.msg()}),
        },
        Call::Decode(_) => arr(guard(|| both(a.clone())), k),
        Call::Slice(_, s, e) => arr(guard(|| both(slice(a, *s, *e)?)), k),
        Call::Take(_, idx) => {
            let i = vortex::array::PrimitiveArray::from(idx.iter().map(|x| *x as u64).collect::<Vec<_>>()).into_array();
            arr(guard(|| both(take(a, i)?)), k)
        }
        Call::Filter(_, m) => arr(guard(|| both(filter(a, BoolArray::from(m.clone()).into_array())?)), k),
        Call::Scalar(_, i) => match guard(|| Ok(scalar_to_v(&scalar_at(a, *i)?))) {
            Out::Ok(v) => json!({"k": "ok", "r": toks(d, k, &vec![v]), "dt": ""}),
            o => json!({"k": o.tag(), "r": [], "dt": ""}),
        },
        Call::Compare(_, m, op) => arr(guard(|| both(compare(a, &nodes[*m].arr, OPS[*op])?)), &Kind::Bool),
    }
}

struct Log(Mutex<Vec<Value>>);
impl Log {
    fn put(&self, v: Value) {
        self.0.lock().unwrap().push(v);
    }
}

struct Case {
    nodes: Vec<Node>,
    progs: Vec<Vec<Call>>,
    /// what each call answers when it is the only one
    seq: Vec<Vec<Value>>,
    d: Arc<Domain>,
    k: Kind,
}
impl Case {
    fn head(&self) -> Vec<Value> {
        self.nodes
            .iter()
            .map(|n| json!({"o": "node", "a": toks(&self.d, &self.k, &n.vals), "c": n.joined as u8, "e": enc_tree(&n.arr)}))
            .collect()
    }
    fn bodies(&self, log: &Arc<Log>, ruled: bool) -> Vec<Box<dyn FnOnce() + Send>> {
        self.progs
            .iter()
            .zip(&self.seq)
            .enumerate()
            .map(|(t, (p, q))| {
                let (p, q, log, nodes, d, k) = (p.clone(), q.clone(), log.clone(), self.nodes.clone(), self.d.clone(), self.k.clone());
                Box::new(move || {
                    for (c, s) in p.iter().zip(q) {
                        if ruled {
                            sched::point();
                        }
                        log.put(json!({"o": "inv", "t": t + 1, "op": c.name(), "n": c.node() + 1, "s": c.stat()}));
                        let mut r = exec(&nodes, &d, &k, c);
                        let o = r.as_object_mut().unwrap();
                        for (x, y) in [("o", json!("ret")), ("t", json!(t + 1)), ("op", json!(c.name())), ("n", json!(c.node() + 1)), ("s", json!(c.stat()))] {
                            o.insert(x.into(), y);
                        }
                        o.insert("seq".into(), s.clone());
                        log.put(r);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect()
    }
    /// what is known in the end
    fn audit(&self, lines: &mut Vec<Value>) {
        for n in 0..self.nodes.len() {
            let mut r = exec(&self.nodes, &self.d, &self.k, &Call::Set(n));
            let o = r.as_object_mut().unwrap();
            o.insert("o".into(), json!("audit"));
            o.insert("n".into(), json!(n + 1));
            lines.push(r);
        }
    }
    /// threads of the scheduler, in the order `next` picks
    fn ruled(&self, next: impl FnMut(&[usize]) -> usize) -> Vec<Value> {
        let log = Arc::new(Log(Mutex::new(vec![])));
        let ok = sched::run(self.bodies(&log, true), next);
        self.done(log, ok)
    }
    /// threads of the operating system
    fn free(&self, rng: &mut StdRng) -> Vec<Value> {
        let log = Arc::new(Log(Mutex::new(vec![])));
        let bodies = self.bodies(&log, false);
        let start = Arc::new(Barrier::new(bodies.len()));
        let p = *[0.0, 0.2, 0.7].choose(rng).unwrap();
        let hs: Vec<_> = bodies
            .into_iter()
            .map(|b| {
                let (start, r) = (start.clone(), StdRng::seed_from_u64(rng.gen()));
                std::thread::spawn(move || {
                    sched::noisy(r, p);
                    start.wait();
                    b();
                })
            })
            .collect();
        let t0 = Instant::now();
        while hs.iter().any(|h| !h.is_finished()) && t0.elapsed() < Duration::from_secs(30) {
            std::thread::sleep(Duration::from_micros(50));
        }
        let ok = hs.iter().all(|h| h.is_finished());
        self.done(log, ok)
    }
    fn done(&self, log: Arc<Log>, ok: bool) -> Vec<Value> {
        let mut lines = self.head();
        lines.extend(log.0.lock().unwrap().iter().cloned());
        if ok {
            self.audit(&mut lines);
        } else {
            lines.push(json!({"o": "stuck"}));
        }
        lines
    }
}

/// the nodes of a model's graph, and values for them
fn graph_nodes(rng: &mut StdRng, graph: &[Vec<usize>], enc: &str, c: &Col) -> VortexResult<Vec<Node>> {
    let mut nodes: Vec<Node> = vec![];
    for kids in graph {
        let n = if kids.is_empty() {
            let o = EncOpt { exotic_validity: 0.0, depth: 0, tame: true };
            Node { arr: encode(rng, enc, c, o)?, vals: c.vals.clone(), joined: false }
        } else {
            let parts: Vec<Array> = kids.iter().map(|k| nodes[*k - 1].arr.clone()).collect();
            let dt = parts[0].dtype().clone();
            Node {
                arr: ChunkedArray::try_new(parts, dt)?.into_array(),
                vals: kids.iter().flat_map(|k| nodes[*k - 1].vals.clone()).collect(),
                joined: true,
            }
        };
        nodes.push(n);
    }
    Ok(nodes)
}

fn sequential(build: impl Fn() -> VortexResult<Vec<Node>>, progs: &[Vec<Call>], d: &Domain, k: &Kind) -> VortexResult<Vec<Vec<Value>>> {
    progs
        .iter()
        .map(|p| p.iter().map(|c| Ok(exec(&build()?, d, k, c))).collect::<VortexResult<Vec<_>>>())
        .collect()
}

/// the schedules of VxConcMC
fn beh(sink: &mut Sink, seed: u64) {
    let shard: usize = arg("shard", "0").parse().unwrap();
    let shards: usize = arg("shards", "1").parse().unwrap();
    let every: usize = arg("every", "1").parse().unwrap();
    let text = std::fs::read_to_string(arg("beh", "/tmp/beh")).expect("behaviours");
    let cols = [
        ("plain", Col { kind: Kind::Prim(PType::I64), nullable: false, vals: [7, 3, 9].map(|x| Some(V::I(x))).to_vec() }),
        ("runend", Col { kind: Kind::Prim(PType::I32), nullable: false, vals: [7, 7, 3].map(|x| Some(V::I(x))).to_vec() }),
        ("dict", Col { kind: Kind::Prim(PType::I32), nullable: true, vals: vec![Some(V::I(4)), None, Some(V::I(4))] }),
        ("varbin", Col { kind: Kind::Utf8, nullable: true, vals: vec![Some(V::Bytes(b"b".to_vec())), None] }),
        ("plain", Col { kind: Kind::Bool, nullable: false, vals: vec![Some(V::Bool(true)), Some(V::Bool(false))] }),
    ];
    let (mut seen, mut exact, mut total) = (HashSet::new(), 0, 0);
    for (i, line) in text.lines().enumerate() {
        if i % shards != shard || (i / shards) % every != (seed as usize) % every {
            continue;
        }
        let b: Value = serde_json::from_str(line).expect("behaviour");
        let us = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
        let graph: Vec<Vec<usize>> = b["graph"].as_array().unwrap().iter().map(us).collect();
        // mostly the encoding whose locks are those of the model
        let (enc, c) = if i % 5 < 3 { &cols[0] } else { &cols[(i / shards) % cols.len()] };
        let d = Arc::new(Domain::new(c.vals.iter()));
        let stat = |s: &str| STATS.iter().position(|x| x.1 == s).unwrap();
        let progs: Vec<Vec<Call>> = b["prog"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| {
                p.as_array()
                    .unwrap()
                    .iter()
                    .map(|c| {
                        let (n, s) = (c["n"].as_u64().unwrap() as usize - 1, stat(c["s"].as_str().unwrap()));
                        if c["op"] == "get" {
                            Call::Get(n, s)
                        } else {
                            Call::Compute(n, s)
                        }
                    })
                    .collect()
            })
            .collect();
        sink.begin(line);
        let build = || graph_nodes(&mut StdRng::seed_from_u64(i as u64), &graph, enc, c);
        let seq = sequential(build, &progs, &d, &c.kind).expect("sequential");
        let case = Case { nodes: build().expect("nodes"), progs, seq, d, k: c.kind.clone() };
        let sched: Vec<usize> = us(&b["sched"]).into_iter().map(|t| t - 1).collect();
        let (mut at, mut off) = (0, 0);
        let lines = case.ruled(|on| {
            while at < sched.len() {
                at += 1;
                if on.contains(&sched[at - 1]) {
                    return sched[at - 1];
                }
                off += 1;
            }
            off += 1;
            on[0]
        });
        total += 1;
        exact += (off == 0 && at == sched.len()) as usize;
        // many schedules look the same from outside
        if seen.insert(json!(lines).to_string()) {
            sink.push_json(&lines_trace(format!("M01beh/{i}/{seed}"), lines));
        }
    }
    eprintln!("schedules {total}, followed to the letter {exact}");
}

fn random_case(rng: &mut StdRng, long: bool) -> VortexResult<Option<Case>> {
    let kinds: Vec<Kind> = all_kinds().into_iter().filter(|k| !matches!(k, Kind::Struct(_))).collect();
    let k = kinds.choose(rng).unwrap().clone();
    let nullable = rng.gen_bool(0.5) || k == Kind::Null;
    let nleaf = rng.gen_range(1..4);
    let mut cols = vec![];
    for _ in 0..nleaf {
        let n = if long { rng.gen_range(100..700) } else { gen_len(rng, 0.0) };
        cols.push(gen_col(rng, &k, nullable, n, GenOpt::default()));
    }
    let build_seed: u64 = rng.gen();
    let shape: Vec<Vec<usize>> = (0..rng.gen_range(0..4))
        .map(|i| (0..rng.gen_range(1..4)).map(|_| rng.gen_range(0..nleaf + i)).collect())
        .collect();
    let build = || -> VortexResult<Vec<Node>> {
        let rng = &mut StdRng::seed_from_u64(build_seed);
        let mut nodes = vec![];
        for c in &cols {
            let o = EncOpt { exotic_validity: 0.2, depth: rng.gen_range(0..2), tame: false };
            nodes.push(Node { arr: any_encoding(rng, c, o).1?, vals: c.vals.clone(), joined: true });
        }
        for kids in &shape {
            let parts: Vec<Array> = kids.iter().map(|k| nodes[*k].arr.clone()).collect();
            let dt = parts[0].dtype().clone();
            let vals: Vals = kids.iter().flat_map(|k| nodes[*k].vals.clone()).collect();
            if vals.len() > 4000 {
                continue;
            }
            nodes.push(Node { arr: ChunkedArray::try_new(parts, dt)?.into_array(), vals, joined: true });
        }
        Ok(nodes)
    };
    let Out::Ok(nodes) = guard(&build) else { return Ok(None) };
    // where callers know statistics from
    let fresh = match guard(&build) {
        Out::Ok(f) if rng.gen_bool(0.7) => Some(f),
        _ => None,
    };
    let threads = rng.gen_range(2..5);
    let hot: Vec<usize> = (0..rng.gen_range(1..4)).map(|_| rng.gen_range(0..STATS.len())).collect();
    let statty = rng.gen_bool(0.6);
    let progs: Vec<Vec<Call>> = (0..threads)
        .map(|_| {
            (0..rng.gen_range(1..if long { 4 } else { 6 }))
                .map(|_| {
                    let n = if rng.gen_bool(0.5) { nodes.len() - 1 } else { rng.gen_range(0..nodes.len()) };
                    let len = nodes[n].vals.len();
                    let s = if rng.gen_bool(0.8) { *hot.choose(rng).unwrap() } else { rng.gen_range(0..STATS.len()) };
                    let w = if statty { rng.gen_range(0..8) } else { rng.gen_range(0..14) };
                    match w {
                        0..=3 => Call::Compute(n, s),
                        4 | 5 => Call::Get(n, s),
                        6 => Call::Set(n),
                        7 => Call::Put(n, s, match guard(|| Ok(fresh.as_ref().and_then(|f| f[n].arr.statistics().compute(STATS[s].0)))) {
                            Out::Ok(x) => x,
                            _ => None,
                        }),
                        8 => Call::Decode(n),
                        9 => {
                            let (a, b) = rand_range(rng, len);
                            Call::Slice(n, a, b)
                        }
                        10 => Call::Take(n, if len == 0 { vec![] } else { rand_indices(rng, len) }),
                        11 => Call::Filter(n, rand_mask(rng, len)),
                        12 if len > 0 => Call::Scalar(n, rng.gen_range(0..len)),
                        _ => Call::Compare(n, n, rng.gen_range(0..6)),
                    }
                })
                .collect()
        })
        .collect();
    let all: Vec<Option<V>> = cols.iter().flat_map(|c| c.vals.clone()).collect();
    let d = Arc::new(Domain::new(all.iter()));
    let seq = match guard(|| sequential(&build, &progs, &d, &k)) {
        Out::Ok(s) => s,
        _ => return Ok(None),
    };
    Ok(Some(Case { nodes, progs, seq, d, k }))
}

/// schedules at random, then threads left to themselves
fn random(sink: &mut Sink, seed: u64, reps: usize) {
    let mut stuck = 0;
    for i in 0..reps * 20 {
        let rng = &mut StdRng::seed_from_u64(seed * 7_000_003 + i as u64);
        let ruled = i % 2 == 0;
        let Ok(Some(case)) = random_case(rng, !ruled) else { continue };
        let id = format!("M01/{}/{i}/{seed}", if ruled { "ruled" } else { "free" });
        sink.begin(&id);
        let lines = if ruled {
            // stay with a thread, or change over, with a bias of this run's own
            let (mut last, stay) = (0, *[0.0, 0.5, 0.85].choose(rng).unwrap());
            case.ruled(|on| {
                if !(on.contains(&last) && rng.gen_bool(stay)) {
                    last = *on.choose(rng).unwrap();
                }
                last
            })
        } else {
            case.free(rng)
        };
        stuck += (lines.last().unwrap()["o"] == "stuck") as usize;
        sink.push_json(&lines_trace(id, lines));
        if stuck > 3 {
            break;
        }
    }
}

fn main() {
    install_panic_hook();
    vortex::verif_hooks::set_hook(sched::hook);
    let seed: u64 = arg("seed", "1").parse().expect("seed");
    let mut sink = Sink::create(&arg("out", "/tmp/trace.ndjson"));
    match std::env::args().nth(1).as_deref() {
        Some("M01") => random(&mut sink, seed, arg("reps", "3").parse().unwrap()),
        Some("M01beh") => beh(&mut sink, seed),
        _ => std::process::exit(2),
    }
    eprintln!("traces {} lines {}", sink.n, sink.lines);
    sink.finish();
    // threads that are stuck do not keep the process
    std::process::exit(0);
}
