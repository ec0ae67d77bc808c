use vharness::*;

fn main() {
    rec::install_panic_hook();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let seed: u64 = arg("seed", "1").parse().expect("seed");
    let out = arg("out", "/tmp/trace.ndjson");
    let cfg = scen::Cfg {
        reps: arg("reps", "3").parse().unwrap(),
        big: arg("big", "0.08").parse().unwrap(),
        per_col: arg("per-col", "0").parse().unwrap(),
        depth: arg("depth", "1").parse().unwrap(),
    };
    let mut sink = rec::Sink::create(&out);
    match cmd.as_str() {
        "A01" => scen::a01(&mut sink, seed, &cfg),
        "A02" => scen::a02(&mut sink, seed, &cfg),
        "A03" => scen::a03(&mut sink, seed, &cfg),
        "A04" => scen::a04(&mut sink, seed, &cfg),
        "A05" => scen::a05(&mut sink, seed, &cfg),
        "A06" => scen::a06(&mut sink, seed, &cfg),
        "A07" => scen::a07(&mut sink, seed, &cfg),
        "A08" => scen::a08(&mut sink, seed, &cfg),
        "A09" => scen::a09(&mut sink, seed, &cfg),
        "Abeh" => beh::abeh(&mut sink, seed, &cfg),
        "A10" => stats::a10(&mut sink, seed, &cfg),
        "A10beh" => stats::a10beh(&mut sink, seed, &cfg),
        "T01" => types::t01(&mut sink, seed, &cfg),
        "T01beh" => types::t01beh(&mut sink, seed, &cfg),
        "A11" => scen::a11(&mut sink, seed, &cfg),
        "A12" => scen::a12(&mut sink, seed, &cfg),
        "Fbeh" => file::fbeh(&mut sink, seed, &cfg),
        "F01" => file::f01(&mut sink, seed, &cfg),
        "F02" => file::f02(&mut sink, seed, &cfg),
        "F03" => file::f03(&mut sink, seed, &cfg),
        "F04" => file::f04(&mut sink, seed, &cfg),
        "Rbeh" => ipc::rbeh(&mut sink, seed, &cfg),
        "Ebeh" => file::ebeh(&mut sink, seed, &cfg),
        "Sbeh" => ipc::sbeh(&mut sink, seed, &cfg),
        "S01" => ipc::s01(&mut sink, seed, &cfg),
        "S01ops" => scen::s01ops(&mut sink, seed, &cfg),
        "S02" => ipc::s02(&mut sink, seed, &cfg),
        "S03" => ipc::s03(&mut sink, seed, &cfg),
        "E01" => file::e01(&mut sink, seed, &cfg),
        "A13" => arrow::a13(&mut sink, seed, &cfg),
        "A14" => comp::a14(&mut sink, seed, &cfg),
        "A15" => scen::a15(&mut sink, seed, &cfg),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
    eprintln!("traces {} lines {}", sink.n, sink.lines);
    sink.finish();
}
