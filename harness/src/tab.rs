//! Tables (struct arrays), expressions over them and projections.
use std::sync::Arc;

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use vortex::array::{ChunkedArray, StructArray};
use vortex::validity::Validity;
use vortex::{Array, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::{DType, Nullability, PType, StructDType};
use vortex_error::VortexResult;
use vortex_expr::{BinaryExpr, Column, Literal, Operator, VortexExpr};

use crate::enc::*;
use crate::scen::all_kinds;
use crate::val::*;

pub struct Tab {
    pub names: Vec<String>,
    pub cols: Vec<Col>,
    pub n: usize,
}

/// kinds a filter may compare
pub fn comparable() -> Vec<Kind> {
    vec![
        Kind::Bool,
        Kind::Prim(PType::I32),
        Kind::Prim(PType::U8),
        Kind::Prim(PType::U64),
        Kind::Prim(PType::I64),
        Kind::Prim(PType::U16),
        Kind::Prim(PType::F64),
        Kind::Prim(PType::F32),
        Kind::Utf8,
        Kind::Binary,
    ]
}
pub fn is_comparable(k: &Kind) -> bool {
    matches!(k, Kind::Bool | Kind::Prim(_) | Kind::Utf8 | Kind::Binary) && *k != Kind::Prim(PType::F16)
}

pub fn gen_tab(rng: &mut StdRng, n: usize, ncols: usize, filterable: bool) -> Tab {
    let base = ["a", "b", "c", "d", "e", "f"];
    let mut names: Vec<String> = base[..ncols].iter().map(|s| s.to_string()).collect();
    if rng.gen_bool(0.2) {
        names[0] = "".into();
    }
    if rng.gen_bool(0.2) {
        names[ncols - 1] = "a.b é".into();
    }
    if ncols > 1 && rng.gen_bool(0.25) {
        // two names that differ in nothing but case
        names[1] = names[0].to_uppercase();
        if names[1] == names[0] {
            (names[0], names[1]) = ("Id".into(), "iD".into());
        }
    }
    names.shuffle(rng);
    let mut cols: Vec<Col> = vec![];
    for i in 0..ncols {
        let kind = if i > 0 && rng.gen_bool(0.3) {
            cols[i - 1].kind.clone()
        } else if filterable && (i == 0 || rng.gen_bool(0.7)) {
            comparable().choose(rng).unwrap().clone()
        } else {
            all_kinds().choose(rng).unwrap().clone()
        };
        let nullable = rng.gen_bool(0.5);
        let md = if filterable && rng.gen_bool(0.7) { rng.gen_range(1..12) } else { 100_000 };
        let mut c = gen_col(rng, &kind, nullable, n, GenOpt { weird_floats: false, max_distinct: md });
        if filterable && rng.gen_bool(0.25) {
            // values in blocks: whole batches match or do not match
            let mut v: Vec<Option<V>> = c.vals.clone();
            v.sort();
            c.vals = v;
        }
        cols.push(c);
    }
    Tab { names, cols, n }
}

impl Tab {
    pub fn dtype(&self) -> DType {
        self.dtype_of(&(0..self.cols.len()).collect::<Vec<_>>())
    }
    pub fn dtype_of(&self, p: &[usize]) -> DType {
        DType::Struct(
            StructDType::new(
                p.iter().map(|i| Arc::from(self.names[*i].as_str())).collect::<Vec<Arc<str>>>().into(),
                p.iter().map(|i| dtype(&self.cols[*i])).collect(),
            ),
            Nullability::NonNullable,
        )
    }
    pub fn domain<'a>(&'a self, extra: &'a [Option<V>]) -> Domain {
        Domain::new(self.cols.iter().flat_map(|c| c.vals.iter()).chain(extra.iter()))
    }
    pub fn toks(&self, d: &Domain) -> Vec<Vec<i64>> {
        self.cols.iter().map(|c| col_toks(d, &c.kind, &c.vals)).collect()
    }
    pub fn array(&self, rng: &mut StdRng, s: usize, e: usize, o: EncOpt) -> VortexResult<Array> {
        let mut fs = vec![];
        for c in &self.cols {
            let sub = c.sub(s, e);
            fs.push(col_array(rng, &sub, o)?);
        }
        Ok(StructArray::try_new(
            self.names.iter().map(|x| Arc::from(x.as_str())).collect::<Vec<Arc<str>>>().into(),
            fs,
            e - s,
            Validity::NonNullable,
        )?
        .into_array())
    }
    /// as a chunked array of struct chunks
    pub fn chunked(&self, rng: &mut StdRng, cuts: &[(usize, usize)], o: EncOpt) -> VortexResult<Array> {
        let mut ch = vec![];
        for (s, e) in cuts {
            ch.push(self.array(rng, *s, *e, o)?);
        }
        Ok(ChunkedArray::try_new(ch, self.dtype())?.into_array())
    }
}

pub fn field_names(n: &[String]) -> vortex_dtype::FieldNames {
    n.iter().map(|x| Arc::from(x.as_str())).collect::<Vec<Arc<str>>>().into()
}

/// some encoding of a column; the plain one where the encoder declines
pub fn col_array(rng: &mut StdRng, c: &Col, o: EncOpt) -> VortexResult<Array> {
    let mut r2 = rng.clone();
    let _: u64 = rng.gen();
    if rng.gen_bool(0.15) {
        return plain(rng, c, o);
    }
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| any_encoding(&mut r2, c, o).1));
    match got {
        Ok(Ok(a)) if a.len() == c.len() => Ok(a),
        _ => plain(rng, c, o),
    }
}

pub fn col_toks(d: &Domain, k: &Kind, v: &Vals) -> Vec<i64> {
    match k {
        Kind::Bool => bool_toks(v),
        _ => d.toks(v),
    }
}

/// cut n rows into pieces, some of them empty
pub fn gen_cuts(rng: &mut StdRng, n: usize) -> Vec<(usize, usize)> {
    let mut b: Vec<usize> = match rng.gen_range(0..6) {
        0 => vec![],
        1 => (0..rng.gen_range(1..4)).map(|_| rng.gen_range(0..=n)).collect(),
        2 => {
            let w = rng.gen_range(1..=n.max(1));
            (0..n).step_by(w).collect()
        }
        3 => (0..rng.gen_range(1..8)).map(|_| rng.gen_range(0..=n)).collect(),
        4 => vec![0, 0, n / 2, n / 2, n, n],
        _ => (0..rng.gen_range(1..3)).map(|_| rng.gen_range(0..=n)).collect(),
    };
    b.push(0);
    b.push(n);
    b.sort();
    if rng.gen_bool(0.7) {
        b.dedup();
        if b.len() == 1 {
            b.push(n);
        }
    }
    b.windows(2).map(|w| (w[0], w[1])).collect()
}

pub fn gen_proj(rng: &mut StdRng, ncols: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..ncols).collect();
    p.shuffle(rng);
    p.truncate(rng.gen_range(1..=ncols));
    p
}

// ---- expressions ------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Col(usize),
    Lit(Kind, bool, Option<V>),
    Cmp(usize, Box<Ex>, Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
}
pub const CMP: [&str; 6] = ["eq", "ne", "gt", "ge", "lt", "le"];
const OPS: [Operator; 6] =
    [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];

impl Ex {
    pub fn json(&self, d: &Domain) -> Value {
        match self {
            Ex::Col(i) => json!({"t": "col", "c": i + 1}),
            Ex::Lit(k, _, v) => json!({"t": "lit", "v": col_toks(d, k, &vec![v.clone()])[0]}),
            Ex::Cmp(o, l, r) => json!({"t": "cmp", "op": CMP[*o], "l": l.json(d), "r": r.json(d)}),
            Ex::And(l, r) => json!({"t": "and", "l": l.json(d), "r": r.json(d)}),
            Ex::Or(l, r) => json!({"t": "or", "l": l.json(d), "r": r.json(d)}),
        }
    }
    /// by_index: how columns are named (0 name, 1 index, 2 mixed)
    pub fn build(&self, rng: &mut StdRng, t: &Tab, by: u8) -> Arc<dyn VortexExpr> {
        match self {
            Ex::Col(i) => {
                let f = if by == 1 || (by == 2 && rng.gen()) {
                    Field::Index(*i)
                } else {
                    Field::Name(t.names[*i].clone())
                };
                Arc::new(Column::new(f))
            }
            Ex::Lit(k, n, v) => Arc::new(Literal::new(v_to_scalar(k, *n, v, &kind_dtype(k, *n)))),
            Ex::Cmp(o, l, r) => Arc::new(BinaryExpr::new(l.build(rng, t, by), OPS[*o], r.build(rng, t, by))),
            Ex::And(l, r) => Arc::new(BinaryExpr::new(l.build(rng, t, by), Operator::And, r.build(rng, t, by))),
            Ex::Or(l, r) => Arc::new(BinaryExpr::new(l.build(rng, t, by), Operator::Or, r.build(rng, t, by))),
        }
    }
    pub fn lits(&self, out: &mut Vec<Option<V>>) {
        match self {
            Ex::Col(_) => {}
            Ex::Lit(_, _, v) => out.push(v.clone()),
            Ex::Cmp(_, l, r) | Ex::And(l, r) | Ex::Or(l, r) => {
                l.lits(out);
                r.lits(out);
            }
        }
    }
    pub fn cols(&self, out: &mut Vec<usize>) {
        match self {
            Ex::Col(i) => out.push(*i),
            Ex::Lit(..) => {}
            Ex::Cmp(_, l, r) | Ex::And(l, r) | Ex::Or(l, r) => {
                l.cols(out);
                r.cols(out);
            }
        }
    }
    pub fn conjuncts(&self) -> Vec<Ex> {
        match self {
            Ex::And(l, r) => {
                let mut v = l.conjuncts();
                v.extend(r.conjuncts());
                v
            }
            e => vec![e.clone()],
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ex::Col(_) | Ex::Lit(..) => 1,
            Ex::Cmp(_, l, r) | Ex::And(l, r) | Ex::Or(l, r) => 1 + l.depth().max(r.depth()),
        }
    }
}
/// conjunction of the parts in some shape
pub fn conj(rng: &mut StdRng, mut parts: Vec<Ex>) -> Ex {
    if parts.len() == 1 {
        return parts.pop().unwrap();
    }
    let k = rng.gen_range(1..parts.len());
    let r = parts.split_off(k);
    Ex::And(Box::new(conj(rng, parts)), Box::new(conj(rng, r)))
}

fn gen_pred(rng: &mut StdRng, t: &Tab) -> Ex {
    let cand: Vec<usize> = (0..t.cols.len()).filter(|i| is_comparable(&t.cols[*i].kind)).collect();
    let c = *cand.choose(rng).expect("a comparable column");
    let k = t.cols[c].kind.clone();
    if k == Kind::Bool && rng.gen_bool(0.35) {
        return Ex::Col(c);
    }
    let op = rng.gen_range(0..6);
    let same: Vec<usize> = cand.iter().copied().filter(|i| t.cols[*i].kind == k).collect();
    if same.len() > 1 && rng.gen_bool(0.3) {
        let d = *same.choose(rng).unwrap();
        return Ex::Cmp(op, Box::new(Ex::Col(c)), Box::new(Ex::Col(d)));
    }
    let pool: Vec<&V> = t.cols[c].vals.iter().flatten().collect();
    let v = match pool.choose(rng) {
        Some(v) if rng.gen_bool(0.85) => (*v).clone(),
        _ => match gen_col(rng, &k, false, 1, GenOpt::default()).vals.pop().unwrap() {
            Some(v) => v,
            None => zero_of(&k),
        },
    };
    let lit = Ex::Lit(k, rng.gen_bool(0.3), Some(v));
    let (l, r) = if rng.gen_bool(0.7) { (Ex::Col(c), lit) } else { (lit, Ex::Col(c)) };
    Ex::Cmp(op, Box::new(l), Box::new(r))
}
pub fn gen_expr(rng: &mut StdRng, t: &Tab, depth: u32) -> Ex {
    if depth == 0 || rng.gen_bool(0.3) {
        return gen_pred(rng, t);
    }
    let l = Box::new(gen_expr(rng, t, depth - 1));
    let r = Box::new(gen_expr(rng, t, depth - 1));
    if rng.gen_bool(0.6) {
        Ex::And(l, r)
    } else {
        Ex::Or(l, r)
    }
}

pub fn toks_of_batch(d: &Domain, kinds: &[&Kind], a: &Array) -> VortexResult<Vec<Vec<i64>>> {
    let cols = decode_cols(a)?;
    Ok(cols
        .iter()
        .enumerate()
        .map(|(i, v)| match kinds.get(i) {
            Some(k) => col_toks(d, k, v),
            None => d.toks(v),
        })
        .collect())
}
