//! Histories exported by the model VxArrayMC, replayed into the library: every history is a base array
//! and a sequence of operations, over tokens; each is run on real columns of every kind, in every encoding.
//! Stretched, every element of the model stands for a run of elements (up to more than a block of the
//! encodings that work in blocks) from a band of values, and the positions in the history move along.
use std::collections::BTreeMap;
use std::rc::Rc;

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use vortex::array::{ChunkedArray, ConstantArray};
use vortex::compute::slice;
use vortex::compute::unary::fill_forward;
use vortex::{ArrayDType, IntoArray};
use vortex_dtype::PType;

use vortex_sampling_compressor::SamplingCompressor;

use crate::arrow::{arrow_name, arrow_of, from, op_out, Lay};
use crate::comp::{compressor, op_comp, Tree};
use crate::enc::*;
use crate::rec::*;
use crate::scen::*;
use crate::val::*;

#[derive(Default)]
struct Node {
    next: BTreeMap<String, Node>,
}
impl Node {
    fn add(&mut self, ops: &[Value]) {
        if let Some((o, rest)) = ops.split_first() {
            self.next.entry(o.to_string()).or_default().add(rest);
        }
    }
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
pub fn idx(v: &Value) -> Vec<usize> {
    ints(v).into_iter().map(|x| x as usize).collect()
}

/// tokens as bands of real values, in order
#[derive(Clone)]
pub struct Names {
    pub kind: Kind,
    pub vals: Vec<Vec<V>>,
}
impl Names {
    pub fn v(&self, rng: &mut StdRng, tok: i64) -> Option<V> {
        (tok != NULL_TOK).then(|| self.vals[tok as usize].choose(rng).unwrap().clone())
    }
    /// every token as often as `lens` says
    pub fn col(&self, rng: &mut StdRng, toks: &[i64], lens: &[usize], nullable: bool, sorted: bool) -> Col {
        let mut vals: Vals = vec![];
        for (x, n) in toks.iter().zip(lens) {
            let mut part: Vals = (0..*n).map(|_| self.v(rng, *x)).collect();
            if sorted {
                part.sort();
            }
            vals.extend(part);
        }
        Col { kind: self.kind.clone(), nullable, vals }
    }
}
/// values for `n` tokens, `wide` of them each, and values beside them
pub fn names(rng: &mut StdRng, kind: &Kind, n: usize, wide: usize) -> Option<(Names, Vec<Option<V>>)> {
    match kind {
        Kind::Null => return Some((Names { kind: kind.clone(), vals: vec![] }, vec![])),
        Kind::Bool => {
            return (n <= 2).then(|| {
                let vals = vec![V::Bool(false), V::Bool(true)];
                let n = Names { kind: kind.clone(), vals: vals.iter().map(|v| vec![v.clone()]).collect() };
                (n, vals.into_iter().map(Some).collect())
            })
        }
        _ => {}
    }
    for _ in 0..20 {
        let c = gen_col(rng, kind, false, 12 + 12 * wide, GenOpt::default());
        let mut p: Vec<V> = c.vals.into_iter().flatten().collect();
        p.sort();
        p.dedup();
        if p.len() < n {
            continue;
        }
        let k = wide.min(p.len() / n.max(1)).max(1);
        let mut vals: Vec<V> = p.choose_multiple(rng, n * k).cloned().collect();
        vals.sort();
        let mut beside: Vec<Option<V>> = p.choose_multiple(rng, 4).cloned().map(Some).collect();
        beside.extend(vals.choose_multiple(rng, 6).cloned().map(Some));
        let vals = vals.chunks(k).map(|x| x.to_vec()).collect();
        return Some((Names { kind: kind.clone(), vals }, beside));
    }
    None
}

struct Run<'a> {
    rng: StdRng,
    names: &'a Names,
    beside: &'a [Option<V>],
    nullable: bool,
    last: Option<Rc<(String, SamplingCompressor<'static>, Option<Tree>)>>,
}
impl Run<'_> {
    /// `lens`: how many elements each element of the model stands for
    fn op(&mut self, t: &mut Trace, r: usize, lens: &mut Vec<usize>, p: &Value) -> Option<usize> {
        let at = |lens: &[usize], i: usize| lens[..i].iter().sum::<usize>();
        let n = t.reg(r)?.vals.len();
        match p["o"].as_str().unwrap() {
            "slice" => {
                let x = idx(&p["x"]);
                let (s, e) = (at(lens, x[0]), at(lens, x[1]));
                *lens = lens[x[0]..x[1]].to_vec();
                op_slice(t, r, s, e)
            }
            "take" => {
                // of every run, some
                let (mut out, mut ls) = (vec![], vec![]);
                for i in idx(&p["x"]) {
                    let (s, n) = (at(lens, i), lens[i]);
                    let k = if n == 0 { 0 } else { *[1, 1, 2, 40].choose(&mut self.rng).unwrap().min(&n) };
                    let from = self.rng.gen_range(0..=n - k);
                    out.extend(s + from..s + from + k);
                    ls.push(k);
                }
                *lens = ls;
                op_take(t, &mut self.rng, r, &out)
            }
            "filter" => {
                let x = ints(&p["x"]);
                let m: Vec<bool> = x.iter().zip(lens.iter()).flat_map(|(b, n)| vec![*b == 1; *n]).collect();
                *lens = x.iter().zip(lens.iter()).filter(|(b, _)| **b == 1).map(|(_, n)| *n).collect();
                op_filter(t, &mut self.rng, r, &m, 0.3)
            }
            "id" => match p["w"].as_str().unwrap() {
                // by some compressor, or like the last time
                w @ ("comp" | "like") => {
                    let last = self.last.clone().filter(|_| w == "like");
                    let (x, tree, name, c) = match &last {
                        Some(l) => {
                            let (x, tree) = op_comp(t, r, &l.0, &l.1, l.2.as_ref())?;
                            (x, tree, l.0.clone(), l.1.clone())
                        }
                        None => {
                            let (n, c) = compressor(&mut self.rng);
                            let (x, tree) = op_comp(t, r, &n, &c, None)?;
                            (x, tree, n, c)
                        }
                    };
                    self.last = Some(Rc::new((name, c, tree)));
                    Some(x)
                }
                "arrow" => op_out(t, r),
                w => op_id(t, &mut self.rng, r, w),
            },
            "chunk" => {
                let mut l = line(t, "id", r);
                l.insert("w".into(), json!("chunk"));
                let (a, k) = (t.reg(r)?.arr.clone(), t.reg(r)?.kind.clone());
                let dt = a.dtype().clone();
                let d2 = dt.clone();
                t.arr_op(l, k, Some(&dt), || {
                    let mut parts = vec![];
                    let mut i = 0;
                    for k in idx(&p["x"]) {
                        parts.push(slice(&a, at(lens, i), at(lens, i + k))?);
                        i += k;
                    }
                    Ok(ChunkedArray::try_new(parts, d2)?.into_array())
                })
            }
            "cmpc" => {
                let v = p["v"].as_i64().unwrap();
                let x = self.names.v(&mut self.rng, v);
                let nullable = v == NULL_TOK || self.nullable && self.rng.gen();
                let c = Col { kind: self.names.kind.clone(), nullable, vals: vec![x.clone(); n] };
                let l = line_new(t, "constant", &c);
                let want = dtype(&c);
                let s = scalar_of(&c, &x);
                let b = t.arr_op(l, c.kind.clone(), Some(&want), || Ok(ConstantArray::new(s, n).into_array()))?;
                op_compare(t, r, b, opi(p))
            }
            o @ ("cmp" | "and" | "or") => {
                let toks = ints(&p["b"]);
                let nullable = toks.contains(&NULL_TOK) || self.nullable && self.rng.gen();
                let c = self.names.col(&mut self.rng, &toks, lens, nullable, false);
                let e = *encs_for(&c).choose(&mut self.rng).unwrap();
                let eo = EncOpt { exotic_validity: 0.1, depth: 1, tame: false };
                let b = start(t, &mut self.rng, e, &c, eo)?;
                match o {
                    "cmp" => op_compare(t, r, b, opi(p)),
                    _ => op_bool2(t, o, r, b),
                }
            }
            "inv" => op_invert(t, r),
            "sat" => {
                let i = some_indices(&mut self.rng, n, 20);
                obs_points(t, r, &i);
                None
            }
            "ss" => {
                let c = Col { kind: self.names.kind.clone(), nullable: false, vals: vec![] };
                obs_search(t, &mut self.rng, r, self.beside, &c);
                None
            }
            "stat" => {
                obs_cached_stats(t, r, "reported");
                obs_stats(t, &mut self.rng, r);
                None
            }
            "ff" => {
                let mut l = line(t, "ff", r);
                let k = t.reg(r)?.kind.clone();
                l.insert("z".into(), json!(t.toks(&k, &vec![Some(zero_of(&k))])[0]));
                let a = t.reg(r)?.arr.clone();
                let dt = a.dtype().clone();
                t.arr_op(l, k, Some(&dt), || fill_forward(&a))
            }
            "iter" => {
                obs_chunks(t, &mut self.rng, r);
                None
            }
            o => panic!("unknown operation {o}"),
        }
    }
    fn walk(&mut self, t: &mut Trace, r: usize, lens: &[usize], n: &Node) {
        for (p, next) in &n.next {
            let p: Value = serde_json::from_str(p).unwrap();
            let mut ls = lens.to_vec();
            let last = self.last.clone();
            if let Some(x) = self.op(t, r, &mut ls, &p) {
                self.walk(t, x, &ls, next);
            }
            self.last = last;
        }
    }
}
fn opi(p: &Value) -> usize {
    ["eq", "ne", "gt", "ge", "lt", "le"].iter().position(|x| *x == p["op"].as_str().unwrap()).unwrap()
}

pub fn abeh(sink: &mut Sink, _seed: u64, _cfg: &Cfg) {
    let shard: usize = crate::arg("shard", "0").parse().unwrap();
    let shards: usize = crate::arg("shards", "1").parse().unwrap();
    let per: usize = crate::arg("pairs", "4").parse().unwrap();
    let stretch = crate::arg("stretch", "0") == "1";
    let every: usize = crate::arg("every", "1").parse().unwrap();
    // the same for all shards
    let seed = _seed / 100;
    let prop = crate::arg("for", "A03");
    let text = std::fs::read_to_string(crate::arg("beh", "/tmp/beh")).expect("behaviours");
    let mut groups: BTreeMap<(String, String), Node> = BTreeMap::new();
    let mut most = 0;
    for s in text.lines() {
        let b: Value = serde_json::from_str(s).expect("behaviour");
        let h = b["h"].as_array().unwrap();
        let first = if h.len() > 1 { h[0].to_string() } else { String::new() };
        most = most.max(ints(&b["b"]).into_iter().filter(|x| *x != NULL_TOK).max().map_or(0, |x| x + 1));
        for v in [&h.last().unwrap()["b"]] {
            most = most.max(ints(v).into_iter().filter(|x| *x != NULL_TOK).max().map_or(0, |x| x + 1));
        }
        if let Some(v) = h.last().unwrap()["v"].as_i64() {
            most = most.max(if v == NULL_TOK { 0 } else { v + 1 });
        }
        groups.entry((b["b"].to_string(), first)).or_default().add(h);
    }
    let mut kinds = all_kinds();
    kinds.retain(|k| match prop.as_str() {
        "A06" => !matches!(k, Kind::Null | Kind::Struct(_) | Kind::Temporal(..)),
        "A07" => !matches!(k, Kind::Null | Kind::Struct(_)),
        "A08" => *k == Kind::Bool,
        "A11" => matches!(k, Kind::Bool | Kind::Prim(_)) && *k != Kind::Prim(PType::F16),
        _ => true,
    });
    let mut turn = seed as usize * 7919;
    for (gi, ((base, first), node)) in groups.iter().enumerate() {
        if (gi + seed as usize) % every != 0 {
            continue;
        }
        let base: Vec<i64> = ints(&serde_json::from_str(base).unwrap());
        let has_null = base.contains(&NULL_TOK);
        let all_null = base.iter().all(|x| *x == NULL_TOK);
        let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003) ^ (gi as u64) << 8);
        // what this history can be run on
        let mut on: Vec<(Col, Names, Vec<Option<V>>, Vec<usize>, &'static str)> = vec![];
        for kind in &kinds {
            if *kind == Kind::Null && !all_null {
                continue;
            }
            for nullable in [false, true] {
                if has_null && !nullable || *kind == Kind::Null && !nullable {
                    continue;
                }
                let Some((nm, beside)) = names(&mut rng, kind, most as usize, if stretch { 30 } else { 1 }) else { continue };
                if *kind == Kind::Bool && base.iter().any(|x| *x != NULL_TOK && *x > 1) {
                    continue;
                }
                let lens: Vec<usize> = base
                    .iter()
                    .map(|_| if stretch { *[1, 8, 64, 300, 1023, 1024, 1025].choose(&mut rng).unwrap() } else { 1 })
                    .collect();
                let c = nm.col(&mut rng, &base, &lens, nullable, prop == "A06");
                let arrow = (prop == "A13").then(|| vec!["arrow"; 4]).unwrap_or_default();
                for e in encs_for(&c).into_iter().chain(arrow) {
                    on.push((c.clone(), nm.clone(), beside.clone(), lens.clone(), e));
                }
            }
        }
        let take = if per == 0 { on.len() } else { per.min(on.len()) };
        let at = turn;
        // a step that shares no factor with most lengths spreads the choices
        turn += take * 37;
        if gi % shards != shard {
            continue;
        }
        for i in 0..take {
            let (c, nm, beside, lens, e) = &on[(at + i * 37) % on.len()];
            let zero = Some(zero_of(&c.kind));
            let named: Vec<Option<V>> = nm.vals.iter().flatten().cloned().map(Some).collect();
            let dom = Domain::new(c.vals.iter().chain(beside.iter()).chain(named.iter()).chain([&zero]));
            let id = format!("{prop}beh{}/{}{}/{gi}/{first}/{e}/{seed}", if stretch { "x" } else { "" }, c.kind.name(), if c.nullable { "?" } else { "" });
            let mut t = Trace::new(id, dom, e.to_string());
            sink.begin(&t.id);
            let eo = EncOpt {
                exotic_validity: if rng.gen_bool(0.3) { 0.6 } else { 0.0 },
                depth: rng.gen_range(0..=1),
                tame: false,
            };
            let r = if *e == "arrow" {
                let lay = Lay { slice: 0.5, bitmap: 0.5, masked: rng.gen() };
                let a = arrow_of(&mut rng, c, lay);
                let l = line_new(&t, &format!("arrow:{}", arrow_name(&a)), c);
                t.arr_op(l, c.kind.clone(), Some(&dtype(c)), || from(&a, c.nullable))
            } else {
                start(&mut t, &mut rng, e, c, eo)
            };
            if let Some(r) = r {
                let mut run = Run { rng: StdRng::from_rng(&mut rng).unwrap(), names: nm, beside, nullable: c.nullable, last: None };
                run.walk(&mut t, r, lens, node);
                obs_same(&mut t, r);
            }
            sink.push(&t);
        }
    }
}
