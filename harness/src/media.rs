//! Files on real media: a writer that only keeps what it was told to flush, files on disk, objects in a
//! store; and the Arrow view of a scan. Everything on disk is in a directory made for it and removed.
use std::io;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use arrow_array::RecordBatchReader;
use futures::StreamExt;
use object_store::path::Path;
use object_store::ObjectStore;
use rand::rngs::StdRng;
use rand::Rng;
use serde_json::{json, Value};
use vortex::array::ChunkedArray;
use vortex::arrow::infer_schema;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_buffer::io_buf::IoBuf;
use vortex_error::{vortex_bail, vortex_err, VortexResult};
use vortex_serde::io::{ObjectStoreReadAt, ObjectStoreWriter, VortexReadAt, VortexWrite};
use vortex_serde::layouts::{
    LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, VortexRecordBatchReader,
};

use crate::arrow::dec_arrow;
use crate::enc::EncOpt;
use crate::file::gen_batch;
use crate::ipcutil::ctx;
use crate::rec::*;
use crate::tab::*;
use crate::val::*;

/// keeps what is written in a buffer until it is flushed
#[derive(Clone, Default)]
struct Buffering {
    pending: Vec<u8>,
    kept: Arc<Mutex<Vec<u8>>>,
}
impl VortexWrite for Buffering {
    async fn write_all<B: IoBuf>(&mut self, b: B) -> io::Result<B> {
        self.pending.extend_from_slice(b.as_slice());
        Ok(b)
    }
    async fn flush(&mut self) -> io::Result<()> {
        self.kept.lock().unwrap().append(&mut self.pending);
        Ok(())
    }
    async fn shutdown(&mut self) -> io::Result<()> {
        self.flush().await
    }
}

async fn write_to<W: VortexWrite>(w: W, parts: Vec<Array>) -> VortexResult<W> {
    let mut w = LayoutWriter::new(w);
    for p in parts {
        w = w.write_array_columns(p).await?;
    }
    w.finalize().await
}

struct Dir(PathBuf);
impl Dir {
    fn new() -> VortexResult<Dir> {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vx-media-{}-{n}", std::process::id()));
        std::fs::create_dir(&p)?;
        Ok(Dir(p))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

type Batches = (bool, Vec<Value>);

/// a scan through the asynchronous stream
async fn stream_of<R: VortexReadAt + Unpin + Send + 'static>(r: R, p: &[usize], bs: Option<usize>, t: &Tab, d: &Domain) -> VortexResult<Batches> {
    let kinds: Vec<&Kind> = p.iter().map(|i| &t.cols[*i].kind).collect();
    let want = t.dtype_of(p);
    let mut s = builder(r, p, bs).build().await?;
    let (mut dt, mut out) = (true, vec![]);
    while let Some(a) = s.next().await {
        let a = a?;
        dt &= *a.dtype() == want;
        out.push(json!({"n": a.len(), "c": toks_of_batch(d, &kinds, &a)?}));
    }
    Ok((dt, out))
}
fn builder<R: VortexReadAt + Unpin + Send + 'static>(r: R, p: &[usize], bs: Option<usize>) -> LayoutReaderBuilder<R> {
    let b = LayoutReaderBuilder::new(r, LayoutDeserializer::new(ctx(), LayoutContext::default().into())).with_projection(Projection::new(p));
    match bs {
        Some(n) => b.with_batch_size(n),
        None => b,
    }
}
/// a scan as Arrow record batches
fn batches_of<R: VortexReadAt + Unpin + Send + 'static>(rt: &tokio::runtime::Runtime, r: R, p: &[usize], bs: Option<usize>, t: &Tab, d: &Domain) -> VortexResult<Batches> {
    let s = rt.block_on(builder(r, p, bs).build())?;
    let schema = Arc::new(infer_schema(&t.dtype_of(p))?);
    let rd = VortexRecordBatchReader::new(s, rt)?;
    let mut dt = rd.schema() == schema;
    let mut out = vec![];
    for b in rd {
        let b = b.map_err(|e| vortex_err!("{e}"))?;
        dt &= b.schema() == schema;
        let mut cols = vec![];
        for (c, i) in b.columns().iter().zip(p) {
            if c.len() != b.num_rows() {
                vortex_bail!("a column of {} in a batch of {}", c.len(), b.num_rows());
            }
            cols.push(col_toks(d, &t.cols[*i].kind, &dec_arrow(c.as_ref())?));
        }
        out.push(json!({"n": b.num_rows(), "c": cols}));
    }
    Ok((dt, out))
}

pub fn media(rng: &mut StdRng, t: &Tab, d: &Domain, lines: &mut Vec<Value>) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(1).build().unwrap();
    let o = EncOpt { exotic_validity: 0.0, depth: 1, tame: false };
    let cuts = gen_cuts(rng, t.n);
    let how = ["flushed", "file", "object"][rng.gen_range(0..3)];
    let dir = match Dir::new() {
        Ok(d) => d,
        Err(_) => return,
    };
    let path = dir.0.join("x.vortex");
    let store: Arc<dyn ObjectStore> = if rng.gen() {
        Arc::new(object_store::memory::InMemory::new())
    } else {
        Arc::new(object_store::local::LocalFileSystem::new_with_prefix(&dir.0).unwrap())
    };
    let at = Path::from("o.vortex");
    let small = rng.gen_range(1..5000);
    let w = guard(|| {
        let parts = if rng.gen() {
            cuts.iter().map(|(s, e)| t.array(rng, *s, *e, o)).collect::<VortexResult<Vec<_>>>()?
        } else {
            let v = cuts.iter().map(|(s, e)| t.array(rng, *s, *e, o)).collect::<VortexResult<Vec<_>>>()?;
            vec![ChunkedArray::try_new(v, t.dtype())?.into_array()]
        };
        rt.block_on(async {
            Ok(match how {
                "flushed" => {
                    let w = Buffering::default();
                    let kept = w.kept.clone();
                    write_to(w, parts).await?;
                    let v = kept.lock().unwrap().clone();
                    v
                }
                "file" => {
                    write_to(tokio::fs::File::create(&path).await?, parts).await?;
                    vec![]
                }
                _ => {
                    let w = ObjectStoreWriter::new(object_store::WriteMultipart::new_with_chunk_size(
                        store.put_multipart(&at).await.map_err(|e| vortex_err!("{e}"))?,
                        small,
                    ));
                    write_to(w, parts).await?.shutdown().await?;
                    vec![]
                }
            })
        })
    });
    let bytes = match w {
        Out::Ok(b) => b,
        o => {
            lines.push(json!({"o": "write", "e": how, "k": o.tag(), "m": o.msg()}));
            return;
        }
    };
    lines.push(json!({"o": "write", "e": how, "k": "ok", "m": ""}));
    for arrow in [false, true] {
        let p = gen_proj(rng, t.cols.len());
        let bs = gen_batch(rng, t.n);
        let res = guard(|| match how {
            "flushed" if arrow => batches_of(&rt, bytes.clone(), &p, bs, t, d),
            "flushed" => rt.block_on(stream_of(bytes.clone(), &p, bs, t, d)),
            "file" => {
                let f = rt.block_on(tokio::fs::File::open(&path))?;
                if arrow {
                    batches_of(&rt, f, &p, bs, t, d)
                } else {
                    rt.block_on(stream_of(f, &p, bs, t, d))
                }
            }
            _ => {
                let f = ObjectStoreReadAt::new(store.clone(), at.clone());
                if arrow {
                    batches_of(&rt, f, &p, bs, t, d)
                } else {
                    rt.block_on(stream_of(f, &p, bs, t, d))
                }
            }
        });
        let (k, m) = (res.tag(), res.msg());
        let (dt, b) = match res {
            Out::Ok(x) => x,
            _ => (true, vec![]),
        };
        lines.push(json!({"o": "scan", "e": format!("{how}{}", if arrow { " as record batches" } else { "" }),
            "p": p.iter().map(|i| i + 1).collect::<Vec<_>>(), "f": [], "bs": bs.unwrap_or(65536),
            "end": if k == "ok" { "end" } else { k }, "m": m, "b": b, "dt": dt as u8, "aft": "none", "ft": "none",
            "hit": 0, "idx": 1, "by": 0}));
    }
}
