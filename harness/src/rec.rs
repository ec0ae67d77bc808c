//! Recording of histories of array operations against the real library.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

use rand::rngs::StdRng;
use serde_json::{json, Map, Value};
use vortex::compute::unary::scalar_at;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType};
use vortex_dtype::DType;
use vortex_error::{VortexError, VortexResult};

use crate::val::*;

pub static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if std::env::var("VPANIC").is_ok() {
            eprintln!("panic {loc} {m}");
            if std::env::var("VPANIC").as_deref() == Ok("bt") && m.contains(&std::env::var("VPAT").unwrap_or_default()) {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        let mut g = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
        *g = format!("{loc}: {}", m.lines().next().unwrap_or("").chars().take(160).collect::<String>());
    }));
}

pub enum Out<T> {
    Ok(T),
    Err(String),
    Unsup(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Unsup(_) => "unsup",
            Out::Panic(_) => "panic",
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(x) => Some(x),
            _ => None,
        }
    }
    pub fn msg(&self) -> String {
        match self {
            Out::Ok(_) => String::new(),
            Out::Err(m) | Out::Unsup(m) | Out::Panic(m) => m.clone(),
        }
    }
}
pub fn is_not_impl(e: &VortexError) -> bool {
    match e {
        VortexError::NotImplemented(..) => true,
        VortexError::Context(_, inner) => is_not_impl(inner),
        _ => false,
    }
}
pub fn short(e: &VortexError) -> String {
    let s = format!("{e}");
    s.lines().next().unwrap_or("").chars().take(160).collect()
}
pub fn guard<T>(f: impl FnOnce() -> VortexResult<T>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => {
            if is_not_impl(&e) {
                Out::Unsup(short(&e))
            } else {
                Out::Err(short(&e))
            }
        }
        Err(_) => Out::Panic(PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone()),
    }
}

/// tree of encodings, for signatures and diagnostics
pub fn enc_tree(a: &Array) -> String {
    fn go(a: &Array, d: u32, out: &mut String) {
        let id = a.encoding().id().as_ref().to_string();
        out.push_str(id.strip_prefix("vortex.").unwrap_or(&id));
        if d == 0 {
            return;
        }
        let ch = a.children();
        if !ch.is_empty() {
            out.push('(');
            for (i, c) in ch.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if i > 3 {
                    out.push_str("..");
                    break;
                }
                go(c, d - 1, out);
            }
            out.push(')');
        }
    }
    let mut s = String::new();
    match catch_unwind(AssertUnwindSafe(|| go(a, 3, &mut s))) {
        Ok(_) => s,
        Err(_) => format!("{s}!"),
    }
}
pub fn enc_id(a: &Array) -> String {
    let id = a.encoding().id().as_ref().to_string();
    id.strip_prefix("vortex.").unwrap_or(&id).to_string()
}

pub struct Reg {
    pub arr: Array,
    pub vals: Vals,
    pub kind: Kind,
}

/// One trace under construction.
pub struct Trace {
    pub id: String,
    pub dom: Domain,
    pub lines: Vec<Value>,
    pub regs: Vec<Option<Reg>>,
    pub info: String,
}

impl Trace {
    pub fn new(id: String, dom: Domain, info: String) -> Trace {
        Trace { id, dom, lines: vec![], regs: vec![None], info }
    }
    pub fn toks(&self, k: &Kind, v: &Vals) -> Vec<i64> {
        // bool results use 0/1 whatever the domain
        match k {
            Kind::Bool => bool_toks(v),
            _ => self.dom.toks(v),
        }
    }
    pub fn reg(&self, r: usize) -> Option<&Reg> {
        self.regs.get(r).and_then(|x| x.as_ref())
    }

    /// Run an array-producing operation and record it. `line` holds operation, arguments.
    pub fn arr_op(
        &mut self,
        mut line: Map<String, Value>,
        kind: Kind,
        want: Option<&DType>,
        f: impl FnOnce() -> VortexResult<Array>,
    ) -> Option<usize> {
        let res = guard(|| {
            let a = f()?;
            Ok(a)
        });
        let r = self.regs.len();
        line.insert("r".into(), json!(r));
        line.insert("dt".into(), json!(1));
        line.insert("out".into(), json!([]));
        let mut reg = None;
        match res {
            Out::Ok(a) => {
                // decoding is part of the observation
                match guard(|| decode(&a)) {
                    Out::Ok(v) => {
                        line.insert("k".into(), json!("ok"));
                        line.insert("out".into(), json!(self.toks(&kind, &v)));
                        let lenok = a.len() == v.len();
                        if let Some(w) = want {
                            line.insert("dt".into(), json!((a.dtype() == w && lenok) as u8));
                            if a.dtype() != w {
                                line.insert("m".into(), json!(format!("dtype {} want {}", a.dtype(), w)));
                            }
                        } else {
                            line.insert("dt".into(), json!(lenok as u8));
                        }
                        line.insert("re".into(), json!(enc_tree(&a)));
                        reg = Some(Reg { arr: a, vals: v, kind });
                    }
                    o => {
                        line.insert("k".into(), json!(format!("decode-{}", o.tag())));
                        line.insert("m".into(), json!(o.msg()));
                        line.insert("re".into(), json!(enc_tree(&a)));
                    }
                }
            }
            o => {
                line.insert("k".into(), json!(o.tag()));
                line.insert("m".into(), json!(o.msg()));
            }
        }
        let ok = reg.is_some();
        self.regs.push(reg);
        self.lines.push(Value::Object(line));
        ok.then_some(r)
    }
    /// Like arr_op, where the contents were also read in another way (`f` returns them): those are recorded.
    pub fn arr_op_vals(
        &mut self,
        mut line: Map<String, Value>,
        kind: Kind,
        want: Option<&DType>,
        f: impl FnOnce() -> VortexResult<(Array, Vals)>,
    ) -> Option<usize> {
        let mut seen: Option<Vals> = None;
        let len = self.lines.len();
        line.insert("out".into(), json!([]));
        let r = self.arr_op(line, kind.clone(), want, || {
            let (a, v) = f()?;
            seen = Some(v);
            Ok(a)
        });
        if let (Some(_), Some(v)) = (r, seen) {
            // the array that came back has to have the same contents
            let toks = json!(self.toks(&kind, &v));
            let l = self.lines[len].as_object_mut().unwrap();
            if l["out"] != toks {
                if l.get("m").is_none() {
                    l.insert("m".into(), json!("contents there and back differ"));
                }
                l.insert("dt".into(), json!(0));
            }
            l.insert("out".into(), toks);
        }
        r
    }
    /// Record an operand built here, taking its contents as given (it need not be decodable).
    pub fn given(&mut self, mut line: Map<String, Value>, kind: Kind, arr: Array, vals: Vals) -> usize {
        let r = self.regs.len();
        line.insert("r".into(), json!(r));
        line.insert("dt".into(), json!(1));
        line.insert("k".into(), json!("ok"));
        line.insert("out".into(), json!(self.toks(&kind, &vals)));
        self.regs.push(Some(Reg { arr, vals, kind }));
        self.lines.push(Value::Object(line));
        r
    }
    /// Record an observation line.
    pub fn obs(&mut self, line: Value) {
        self.lines.push(line);
    }
    pub fn a_info(&self, r: usize) -> (String, String) {
        match self.reg(r) {
            Some(x) => (enc_id(&x.arr), enc_tree(&x.arr)),
            None => ("?".into(), "?".into()),
        }
    }
    pub fn to_json(&self) -> Value {
        json!({"id": self.id, "info": self.info, "lines": self.lines})
    }
}

pub fn m(v: Value) -> Map<String, Value> {
    match v {
        Value::Object(m) => m,
        _ => unreachable!(),
    }
}

/// A sink of traces, one per line.
pub struct Sink {
    w: std::io::BufWriter<std::fs::File>,
    prog: Option<std::fs::File>,
    pub n: usize,
    pub lines: usize,
}
impl Sink {
    pub fn create(path: &str) -> Sink {
        let w = std::io::BufWriter::new(std::fs::File::create(path).expect("create trace file"));
        let prog = std::fs::File::create(format!("{path}.progress")).ok();
        Sink { w, prog, n: 0, lines: 0 }
    }
    /// what is being run, for crashes and hangs
    pub fn begin(&mut self, what: &str) {
        use std::io::Seek;
        if let Some(p) = &mut self.prog {
            let _ = p.set_len(0);
            let _ = p.rewind();
            let _ = p.write_all(what.as_bytes());
        }
    }
    pub fn push(&mut self, t: &Trace) {
        if t.lines.is_empty() {
            return;
        }
        self.n += 1;
        self.lines += t.lines.len();
        serde_json::to_writer(&mut self.w, &t.to_json()).unwrap();
        self.w.write_all(b"\n").unwrap();
    }
    pub fn push_json(&mut self, v: &Value) {
        self.n += 1;
        self.lines += v["lines"].as_array().map(|a| a.len()).unwrap_or(0);
        serde_json::to_writer(&mut self.w, v).unwrap();
        self.w.write_all(b"\n").unwrap();
    }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
        if let Some(p) = &mut self.prog {
            let _ = p.set_len(0);
        }
    }
}

pub fn stat_obs(a: &Array, stat: Stat) -> Out<Option<Vec<Option<V>>>> {
    guard(|| {
        Ok(a.statistics().compute(stat).map(|s| match s.value() {
            vortex_scalar::ScalarValue::List(l) => l
                .iter()
                .map(|x| match x {
                    vortex_scalar::ScalarValue::Primitive(p) => Some(pvalue_to_v(p)),
                    _ => None,
                })
                .collect(),
            _ => vec![scalar_to_v(&s)],
        }))
    })
}

pub fn read_scalar(a: &Array, i: usize) -> Out<Option<V>> {
    guard(|| Ok(scalar_to_v(&scalar_at(a, i)?)))
}
pub type Rng_ = StdRng;
