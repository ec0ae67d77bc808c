#![allow(dead_code)]
//! Recorders: they drive the real library and write what it did as traces.
pub mod arrow;
pub mod beh;
pub mod comp;
pub mod enc;
pub mod file;
pub mod ipc;
pub mod ipcutil;
pub mod media;
pub mod rec;
pub mod scen;
pub mod sio;
pub mod stats;
pub mod tab;
pub mod types;
pub mod val;

pub fn arg(name: &str, def: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == &format!("--{name}"))
        .and_then(|i| a.get(i + 1).cloned())
        .unwrap_or_else(|| def.to_string())
}
