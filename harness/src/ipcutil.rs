use std::sync::Arc;

use futures_executor::block_on;
use vortex::Context;
use vortex::Array;
use vortex_error::{vortex_err, VortexResult};
use vortex_serde::io::FuturesAdapter;
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

pub fn ctx() -> Arc<Context> {
    vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT.clone()
}

pub fn write_one(a: &Array) -> VortexResult<Vec<u8>> {
    block_on(async {
        let w = StreamArrayWriter::new(Vec::<u8>::new());
        let w = w.write_array(a.clone()).await?;
        Ok(w.into_inner())
    })
}
/// Write to an IPC stream and read back: an array whose parts are views of the message buffer.
pub fn ipc_view(a: &Array) -> VortexResult<Array> {
    let buf = write_one(a)?;
    block_on(async {
        let cur = futures::io::Cursor::new(buf);
        let r = StreamArrayReader::try_new(FuturesAdapter(cur), ctx()).await?;
        let r = r.load_dtype().await?;
        use futures::StreamExt;
        let mut s = Box::pin(r.into_array_stream());
        let mut out: Vec<Array> = vec![];
        while let Some(x) = s.next().await {
            out.push(x?);
        }
        if out.len() == 1 {
            Ok(out.pop().unwrap())
        } else if a.len() == 0 && out.is_empty() {
            Ok(a.clone())
        } else {
            // a chunked array is written as its chunks
            let dt = vortex::ArrayDType::dtype(a).clone();
            if out.is_empty() {
                return Err(vortex_err!("no chunks came back"));
            }
            Ok(vortex::IntoArray::into_array(vortex::array::ChunkedArray::try_new(out, dt)?))
        }
    })
}
