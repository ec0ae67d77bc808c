//! Merging of statistics sets (A10).
use std::collections::BTreeMap;

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Map, Value};
use vortex::stats::{ArrayStatistics, Stat, StatsSet};
use vortex::{Array, ArrayDType};
use vortex_dtype::PType;
use vortex_scalar::{Scalar, ScalarValue};

use crate::enc::*;
use crate::rec::*;
use crate::scen::{all_kinds, gen_len, Cfg, STATS};
use crate::val::*;

pub fn stat_scalar_vals(s: &Scalar) -> Vec<Option<V>> {
    match s.value() {
        ScalarValue::List(l) => l
            .iter()
            .map(|x| match x {
                ScalarValue::Primitive(p) => Some(pvalue_to_v(p)),
                _ => None,
            })
            .collect(),
        _ => vec![scalar_to_v(s)],
    }
}
fn set_json(t: &Trace, k: &Kind, s: &StatsSet) -> Value {
    let mut out: BTreeMap<String, Value> = BTreeMap::new();
    for (st, name) in STATS {
        if let Some(x) = s.get(st) {
            out.insert(name.into(), json!(crate::scen::stat_val(t, k, name, &stat_scalar_vals(x))));
        }
    }
    if out.is_empty() {
        out.insert("none".into(), json!([]));
    }
    json!(out)
}
/// the statistics the library computes for a part
fn computed(a: &Array) -> Out<StatsSet> {
    guard(|| {
        let mut s = StatsSet::new();
        for (st, _) in STATS {
            if let Some(v) = a.statistics().compute(st) {
                s.set(st, v);
            }
        }
        Ok(s)
    })
}
fn without(s: &StatsSet, keep: impl Fn(Stat) -> bool) -> StatsSet {
    let mut o = StatsSet::new();
    for (st, _) in STATS {
        if let (true, Some(v)) = (keep(st), s.get(st)) {
            o.set(st, v.clone());
        }
    }
    o
}
fn merge_line(t: &mut Trace, k: &Kind, e: &str, parts: &[Vals], sets: &[StatsSet]) {
    let out = guard(|| {
        let mut acc = sets[0].clone();
        for s in &sets[1..] {
            acc.merge(s);
        }
        Ok(acc)
    });
    let mut l: Map<String, Value> = Map::new();
    l.insert("o".into(), json!("merge"));
    l.insert("e".into(), json!(e));
    l.insert("n".into(), json!(k.name()));
    l.insert("k".into(), json!(out.tag()));
    l.insert("m".into(), json!(out.msg()));
    l.insert("parts".into(), json!(parts.iter().map(|p| t.toks(k, p)).collect::<Vec<_>>()));
    l.insert("sets".into(), json!(sets.iter().map(|s| set_json(t, k, s)).collect::<Vec<_>>()));
    l.insert("res".into(), match &out {
        Out::Ok(s) => set_json(t, k, s),
        _ => json!({"none": []}),
    });
    t.obs(Value::Object(l));
}

pub fn a10(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for (ki, kind) in all_kinds().iter().enumerate() {
        if matches!(kind, Kind::Struct(_)) {
            continue;
        }
        for rep in 0..cfg.reps * 2 {
            let nullable = rep % 2 == 1 || *kind == Kind::Null;
            let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(7919).wrapping_add((ki * 100 + rep) as u64));
            let n = gen_len(&mut rng, cfg.big);
            let md = *[2usize, 4, 100_000].choose(&mut rng).unwrap();
            let mut c = gen_col(&mut rng, kind, nullable, n, GenOpt { weird_floats: false, max_distinct: md });
            match rng.gen_range(0..6) {
                0 | 1 => c.vals.sort(),
                2 => {
                    c.vals.sort();
                    c.vals.dedup();
                }
                3 => {
                    let v = c.vals.first().cloned().flatten();
                    if let Some(v) = v {
                        let n = c.vals.len();
                        c.vals = vec![Some(v); n];
                    }
                }
                _ => {}
            }
            let dom = Domain::new(c.vals.iter());
            let id = format!("A10/{}{}/{rep}/{seed}", kind.name(), if nullable { "?" } else { "" });
            let mut t = Trace::new(id, dom, String::new());
            sink.begin(&t.id);
            for _ in 0..4 {
                let np = rng.gen_range(2..=4);
                let mut cuts: Vec<usize> = (0..np - 1).map(|_| rng.gen_range(0..=c.len())).collect();
                cuts.extend([0, c.len()]);
                cuts.sort();
                let mut parts = vec![];
                let mut full = vec![];
                let mut encs = vec![];
                for w in cuts.windows(2) {
                    let mut p = c.sub(w[0], w[1]);
                    if nullable && rng.gen_bool(0.12) {
                        let k = p.len();
                        p.vals = vec![None; k];
                    }
                    let e = if rng.gen_bool(0.4) { "plain" } else { *encs_for(&p).choose(&mut rng).unwrap() };
                    let o = EncOpt { exotic_validity: 0.1, depth: 1, tame: false };
                    let mut r2 = StdRng::from_rng(&mut rng).unwrap();
                    let Out::Ok(a) = guard(|| encode(&mut r2, e, &p, o)) else { break };
                    let s = if p.vals.iter().all(|v| v.is_none()) && nullable && rng.gen_bool(0.3) {
                        StatsSet::nulls(p.len(), a.dtype())
                    } else {
                        match computed(&a) {
                            Out::Ok(s) => s,
                            _ => break,
                        }
                    };
                    encs.push(enc_id(&a));
                    parts.push(p.vals);
                    full.push(s);
                }
                if parts.len() < 2 {
                    continue;
                }
                let e = encs.join("+");
                merge_line(&mut t, kind, &e, &parts, &full);
                for _ in 0..3 {
                    let pr = *[0.9, 0.5, 0.7].choose(&mut rng).unwrap();
                    let sub: Vec<StatsSet> = full
                        .iter()
                        .map(|s| {
                            let m: Vec<bool> = (0..10).map(|_| rng.gen_bool(pr)).collect();
                            without(s, |st| m[STATS.iter().position(|x| x.0 == st).unwrap()])
                        })
                        .collect();
                    merge_line(&mut t, kind, &e, &parts, &sub);
                }
            }
            sink.push(&t);
        }
    }
}

/// behaviours of VxStatsMC: lists of small parts with statistics left out
pub fn a10beh(sink: &mut Sink, seed: u64, _cfg: &Cfg) {
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let all: bool = crate::arg("allkinds", "0") == "1";
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    let kinds =
        [Kind::Prim(PType::I64), Kind::Bool, Kind::Utf8, Kind::Prim(PType::F64), Kind::Prim(PType::U8), Kind::Binary];
    let val = |k: &Kind, x: i64| -> Option<V> {
        (x != NULL_TOK).then(|| match k {
            Kind::Bool => V::Bool(x == 1),
            Kind::Prim(PType::F64) => float_v(PType::F64, x as f64 - 0.5),
            Kind::Prim(_) => V::I(x as i128),
            _ => V::Bytes(vec![b'k', b'0' + x as u8]),
        })
    };
    let mut ts: Vec<Trace> = vec![];
    for k in &kinds {
        let dom: Vec<Option<V>> = (0..3).map(|x| val(k, x)).collect();
        ts.push(Trace::new(
            format!("A10beh/{}/{shard}/{seed}", k.name()),
            Domain::new(dom.iter()),
            String::new(),
        ));
    }
    let mut rng = StdRng::seed_from_u64(seed);
    for (i, line) in text.lines().enumerate() {
        if i % shards != shard {
            continue;
        }
        let b: Value = serde_json::from_str(line).expect("behaviour");
        let toks: Vec<Vec<i64>> =
            b["parts"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()).collect();
        let drops: Vec<(usize, String)> = b["drops"]
            .as_array()
            .unwrap()
            .iter()
            .map(|d| (d["p"].as_u64().unwrap() as usize, d["s"].as_str().unwrap().to_string()))
            .collect();
        let pick = rng.gen_range(0..kinds.len());
        for (j, k) in kinds.iter().enumerate() {
            if !(all || j == pick) || (*k == Kind::Bool && toks.iter().flatten().any(|x| *x != NULL_TOK && *x > 1)) {
                continue;
            }
            let parts: Vec<Vals> = toks.iter().map(|p| p.iter().map(|x| val(k, *x)).collect()).collect();
            let nullable = toks.iter().flatten().any(|x| *x == NULL_TOK);
            sink.begin(&format!("A10beh/{}/{line}", k.name()));
            let mut sets = vec![];
            for (pi, p) in parts.iter().enumerate() {
                let c = Col { kind: k.clone(), nullable, vals: p.clone() };
                let Out::Ok(s) = guard(|| {
                    let o = EncOpt { exotic_validity: 0.0, depth: 0, tame: false };
                    let a = encode(&mut rng, "plain", &c, o)?;
                    match computed(&a) {
                        Out::Ok(s) => Ok(s),
                        _ => vortex_error::vortex_bail!("stats"),
                    }
                }) else {
                    break;
                };
                sets.push(without(&s, |st| {
                    let name = STATS.iter().find(|x| x.0 == st).unwrap().1;
                    !drops.iter().any(|(p, s)| *p == pi + 1 && s == name)
                }));
            }
            if sets.len() == parts.len() {
                merge_line(&mut ts[j], k, "plain", &parts, &sets);
            }
        }
    }
    for t in &ts {
        sink.push(t);
    }
}
