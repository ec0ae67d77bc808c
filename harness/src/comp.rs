//! A14: the sampling compressor, with any set of compressors and with trees learnt from other data.
use std::collections::HashSet;

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::json;
use vortex::array::ChunkedArray;
use vortex::IntoArray;
use vortex_sampling_compressor::compressors::alp::ALPCompressor;
use vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor;
use vortex_sampling_compressor::compressors::bitpacked::{BITPACK_NO_PATCHES, BITPACK_WITH_PATCHES};
use vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor;
use vortex_sampling_compressor::compressors::delta::DeltaCompressor;
use vortex_sampling_compressor::compressors::dict::DictCompressor;
use vortex_sampling_compressor::compressors::fsst::FSSTCompressor;
use vortex_sampling_compressor::compressors::r#for::FoRCompressor;
use vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor;
use vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor;
use vortex_sampling_compressor::compressors::runend::DEFAULT_RUN_END_COMPRESSOR;
use vortex_sampling_compressor::compressors::sparse::SparseCompressor;
use vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor;
use vortex_sampling_compressor::compressors::{CompressionTree, CompressorRef};
use vortex_sampling_compressor::{SamplingCompressor, DEFAULT_COMPRESSORS, FASTEST_COMPRESSORS};

use crate::enc::{any_encoding, dtype, encs_for, EncOpt};
use crate::rec::{Sink, Trace};
use crate::scen::*;
use crate::val::*;
use vortex_dtype::PType;

pub type Tree = CompressionTree<'static>;
static BP: &vortex_sampling_compressor::compressors::bitpacked::BitPackedCompressor = &BITPACK_WITH_PATCHES;
static BPN: &vortex_sampling_compressor::compressors::bitpacked::BitPackedCompressor = &BITPACK_NO_PATCHES;

fn all() -> Vec<CompressorRef<'static>> {
    vec![
        &ALPCompressor,
        &ALPRDCompressor,
        BP,
        BPN,
        &DateTimePartsCompressor,
        &DEFAULT_RUN_END_COMPRESSOR,
        &DeltaCompressor,
        &DictCompressor,
        &FoRCompressor,
        &FSSTCompressor,
        &RoaringBoolCompressor,
        &RoaringIntCompressor,
        &SparseCompressor,
        &ZigZagCompressor,
    ]
}

pub fn compressor(rng: &mut StdRng) -> (String, SamplingCompressor<'static>) {
    match rng.gen_range(0..10) {
        0 | 1 => ("default".into(), SamplingCompressor::new(HashSet::from(*DEFAULT_COMPRESSORS))),
        2 => ("fastest".into(), SamplingCompressor::new(HashSet::from(*FASTEST_COMPRESSORS))),
        3 | 4 => ("all".into(), SamplingCompressor::new(all().into_iter().collect())),
        5 => {
            let c = *all().choose(rng).unwrap();
            (c.id().to_string(), SamplingCompressor::new(HashSet::from([c])))
        }
        _ => {
            let k = rng.gen_range(1..8);
            let v: Vec<CompressorRef<'static>> = all().choose_multiple(rng, k).copied().collect();
            let mut ids: Vec<String> = v.iter().map(|c| c.id().to_string()).collect();
            ids.sort();
            (ids.join("+"), SamplingCompressor::new(v.into_iter().collect()))
        }
    }
}

fn describe(t: &Tree) -> String {
    let (c, ch, _) = t.clone().into_parts();
    let mut s = c.id().to_string();
    if !ch.is_empty() {
        s += "(";
        s += &ch.iter().map(|x| x.as_ref().map(describe).unwrap_or("-".into())).collect::<Vec<_>>().join(",");
        s += ")";
    }
    s
}

/// compress register r, with a tree if there is one, and keep the tree that comes back
pub fn op_comp(t: &mut Trace, r: usize, name: &str, c: &SamplingCompressor<'static>, like: Option<&Tree>) -> Option<(usize, Option<Tree>)> {
    let mut l = line(t, "id", r);
    l.insert("w".into(), json!("compress"));
    l.insert("with".into(), json!(name));
    l.insert("like".into(), json!(like.map(describe).unwrap_or("none".into())));
    let (a, k) = (t.reg(r)?.arr.clone(), t.reg(r)?.kind.clone());
    let dt = a.dtype_of();
    let mut tree = None;
    let x = t.arr_op(l, k, Some(&dt), || {
        let (arr, p) = c.compress(&a, like)?.into_parts();
        tree = p;
        Ok(arr)
    });
    x.map(|x| (x, tree))
}
trait DT {
    fn dtype_of(&self) -> vortex_dtype::DType;
}
impl DT for vortex::Array {
    fn dtype_of(&self) -> vortex_dtype::DType {
        crate::val::dtype_of(self)
    }
}

/// a column whose parts are distributed differently
fn mixed(rng: &mut StdRng, kind: &Kind, nullable: bool, n: usize, opt: GenOpt) -> Col {
    let parts = rng.gen_range(1..4usize);
    let mut c = Col { kind: kind.clone(), nullable, vals: vec![] };
    for p in 0..parts {
        let m = if p + 1 == parts { n - c.vals.len() } else { (n / parts).min(n - c.vals.len()) };
        let mut x = gen_col(rng, kind, nullable, m, opt);
        if nullable && rng.gen_bool(0.2) {
            for v in x.vals.iter_mut() {
                *v = None;
            }
        }
        c.vals.append(&mut x.vals);
    }
    c
}

pub fn a14(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    for (ki, kind) in all_kinds().iter().enumerate() {
        for nullable in [false, true] {
            if *kind == Kind::Null && !nullable {
                continue;
            }
            for rep in 0..cfg.reps {
                let mut rng = StdRng::seed_from_u64(seed * 7_654_321 + (ki * 1000 + rep * 2 + nullable as usize) as u64 + 14);
                let rng = &mut rng;
                let opt = GenOpt { weird_floats: true, ..Default::default() };
                let ncols = rng.gen_range(2..5);
                let cols: Vec<Col> = (0..ncols)
                    .map(|_| {
                        let n = match rng.gen_range(0..20) {
                            0..=8 => gen_len(rng, cfg.big),
                            9..=12 => rng.gen_range(1020..1030),
                            13..=17 => rng.gen_range(1100..3000),
                            _ => rng.gen_range(3000..5000),
                        };
                        mixed(rng, kind, nullable, n, opt)
                    })
                    .collect();
                let dom = Domain::new(cols.iter().flat_map(|c| c.vals.iter()));
                let (cname, comp) = compressor(rng);
                let mut t = Trace::new(
                    format!("A14/{}{}/{rep}/{cname}/{seed}", kind.name(), if nullable { "?" } else { "" }),
                    dom,
                    cname.clone(),
                );
                sink.begin(&t.id);
                let mut tree: Option<Tree> = None;
                if rng.gen_bool(0.2) {
                    // a tree learnt from data of another type
                    let k2 = match kind {
                        Kind::Prim(PType::F64) => Kind::Prim(PType::F32),
                        Kind::Prim(PType::F32) => Kind::Prim(PType::F64),
                        Kind::Struct(_) => Kind::Struct(vec![("z".into(), Kind::Prim(PType::U32), false)]),
                        Kind::Prim(_) => Kind::Prim(*INTS.choose(rng).unwrap()),
                        _ => all_kinds().choose(rng).unwrap().clone(),
                    };
                    let c2 = mixed(rng, &k2, nullable || k2 == Kind::Null, 1500, opt);
                    if let (_, Ok(a)) = any_encoding(rng, &c2, EncOpt { exotic_validity: 0.0, depth: 1, tame: true }) {
                        tree = comp.compress(&a, None).ok().and_then(|c| c.into_path());
                    }
                }
                for c in &cols {
                    let es = encs_for(c);
                    let e = if rng.gen_bool(0.5) { es[0] } else { es.choose(rng).unwrap() };
                    let e = if es.contains(&"chunked") && rng.gen_bool(0.25) { "chunked" } else { e };
                    let o = EncOpt {
                        exotic_validity: if rng.gen_bool(0.3) { 0.6 } else { 0.0 },
                        depth: rng.gen_range(0..=cfg.depth),
                        tame: false,
                    };
                    let Some(r) = start(&mut t, rng, e, c, o) else { continue };
                    let like = if rng.gen_bool(0.8) { tree.clone() } else { None };
                    let Some((x, p)) = op_comp(&mut t, r, &cname, &comp, like.as_ref()) else { continue };
                    if p.is_some() {
                        tree = p;
                    }
                    if rng.gen_bool(0.3) {
                        let n = c.vals.len();
                        let idx = some_indices(rng, n, 6);
                        obs_points(&mut t, x, &idx);
                        let (s, e) = rand_range(rng, n);
                        if let Some(y) = op_slice(&mut t, x, s, e) {
                            if rng.gen_bool(0.5) {
                                op_comp(&mut t, y, &cname, &comp, tree.clone().as_ref());
                            }
                        }
                    }
                    if rng.gen_bool(0.2) {
                        // compress what is already compressed
                        op_comp(&mut t, x, &cname, &comp, if rng.gen_bool(0.5) { tree.clone() } else { None }.as_ref());
                    }
                }
                sink.push(&t);
            }
        }
    }
    learnt_elsewhere(sink, seed, cfg);
    // more rows than fit in one block: the tree learnt on a chunk is carried to the next
    let mut rng = StdRng::seed_from_u64(seed * 31 + 1414);
    let rng = &mut rng;
    let kinds: Vec<Kind> = all_kinds().into_iter().filter(|k| !matches!(k, Kind::Null | Kind::Struct(_))).collect();
    for rep in 0..(cfg.reps / 2).max(1) {
        let kind = kinds.choose(rng).unwrap().clone();
        let nullable = rng.gen_bool(0.5);
        let mut parts = vec![];
        for _ in 0..rng.gen_range(2..4) {
            let n = rng.gen_range(20_000..66_000);
            parts.push(mixed(rng, &kind, nullable, n, GenOpt { max_distinct: 50, ..Default::default() }));
        }
        let c = Col { kind: kind.clone(), nullable, vals: parts.iter().flat_map(|p| p.vals.clone()).collect() };
        let dom = Domain::new(c.vals.iter());
        let (cname, comp) = compressor(rng);
        let mut t = Trace::new(format!("A14/blocks/{}{}/{rep}/{cname}/{seed}", kind.name(), if nullable { "?" } else { "" }), dom, cname.clone());
        sink.begin(&t.id);
        let l = line_new(&t, "chunked", &c);
        let want = dtype(&c);
        let mut r2 = StdRng::from_rng(&mut *rng).unwrap();
        let r = t.arr_op(l, kind.clone(), Some(&want), || {
            let chunks = parts
                .iter()
                .map(|p| crate::enc::plain(&mut r2, p, EncOpt { exotic_validity: 0.0, depth: 0, tame: false }))
                .collect::<vortex_error::VortexResult<Vec<_>>>()?;
            Ok(ChunkedArray::try_new(chunks, want.clone())?.into_array())
        });
        if let Some(r) = r {
            op_comp(&mut t, r, &cname, &comp, None);
        }
        sink.push(&t);
    }
}

/// every compressor, with what it learnt on a column of one type used for columns of other types
fn learnt_elsewhere(sink: &mut Sink, seed: u64, cfg: &Cfg) {
    let mut rng = StdRng::seed_from_u64(seed * 271 + 14);
    let rng = &mut rng;
    let kinds: Vec<Kind> = all_kinds().into_iter().filter(|k| !matches!(k, Kind::Null)).collect();
    for c in all() {
        let comp = SamplingCompressor::new(HashSet::from([c]));
        for rep in 0..cfg.reps {
            // a tree of this compressor
            let mut found: Option<(Kind, Tree)> = None;
            for _ in 0..60 {
                let k = kinds.choose(rng).unwrap();
                let nullable = rng.gen();
                let n = rng.gen_range(300..1500);
                let mut col = gen_col(rng, k, nullable, n, GenOpt::default());
                if rng.gen_bool(0.4) {
                    col.vals.sort();
                }
                let Ok(a) = crate::enc::plain(rng, &col, EncOpt { exotic_validity: 0.0, depth: 0, tame: false }) else { continue };
                let Some(Some(p)) = crate::rec::guard(|| comp.compress(&a, None)).ok().map(|x| x.into_path()) else { continue };
                if describe(&p).split('(').next() == Some(c.id()) {
                    found = Some((k.clone(), p));
                    break;
                }
            }
            let Some((k1, tree)) = found else { continue };
            // types of the same family, and any other
            let mut on: Vec<Kind> = kinds
                .iter()
                .filter(|k| match (&k1, k) {
                    (Kind::Prim(a), Kind::Prim(b)) => a.is_float() == b.is_float(),
                    (a, b) => std::mem::discriminant(a) == std::mem::discriminant(*b),
                })
                .cloned()
                .collect();
            on.extend(kinds.choose_multiple(rng, 2).cloned());
            for k in on {
                let nullable = rng.gen();
                let n = *[0usize, 1, 9, 200, 1030].choose(rng).unwrap();
                let mut col = mixed(rng, &k, nullable, n, GenOpt { weird_floats: true, ..Default::default() });
                if rng.gen_bool(0.3) {
                    col.vals.sort();
                }
                let mut t = Trace::new(
                    format!("A14/learnt/{}/{}>{}/{rep}/{seed}", c.id(), k1.name(), k.name()),
                    Domain::new(col.vals.iter()),
                    c.id().to_string(),
                );
                sink.begin(&t.id);
                if let Some(r) = start(&mut t, rng, "plain", &col, EncOpt { exotic_validity: 0.0, depth: 0, tame: false }) {
                    if let Some((x, Some(p))) = op_comp(&mut t, r, c.id(), &comp, Some(&tree)) {
                        // and what came of that, for the same again
                        op_comp(&mut t, r, c.id(), &comp, Some(&p));
                        let (s, e) = rand_range(rng, n);
                        op_slice(&mut t, x, s, e);
                    }
                }
                sink.push(&t);
            }
        }
    }
}
