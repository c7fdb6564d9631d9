mod cluster;
mod codec;
mod gen;
mod msg;
mod node;
mod scen;
use serde_json::Value;
use std::io::Write;

#[global_allocator]
static ALLOC: msg::Count = msg::Count;

fn main() {
    node::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let mut hangs = 0;
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            // replay OUT.ndjson SCEN.json...   (each file: one scenario, or one per line)
            let mut out = std::fs::File::create(&a[2]).unwrap();
            for f in &a[3..] {
                let txt = std::fs::read_to_string(f).unwrap();
                let scs: Vec<Value> = match serde_json::from_str::<Value>(&txt) {
                    Ok(v) => vec![v],
                    Err(_) => txt.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect(),
                };
                for sc in scs {
                    let id = sc["id"].as_str().unwrap_or("scenario").to_string();
                    let rep = sc["repeat"].as_u64().unwrap_or(1);
                    for k in 0..rep {
                        let mut sc = sc.clone();
                        let id = if rep > 1 { format!("{}#{}", id, k) } else { id.clone() };
                        sc["id"] = Value::String(id.clone());
                        let (t, _, hang) = scen::guarded(&id, move || scen::replay(&sc));
                        writeln!(out, "{}", t).unwrap();
                        hangs += hang as u32;
                        if hangs >= 2 {
                            return;
                        }
                    }
                }
            }
        }
        Some("gen") => {
            // gen OUT.ndjson SCEN.ndjson FAMILY FIRST_SEED COUNT
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            let mut sout = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let s0: u64 = a[5].parse().unwrap();
            let n: u64 = a[6].parse().unwrap();
            for s in s0..s0 + n {
                let fam = a[4].clone();
                let (t, sc, hang) = scen::guarded(&format!("{}-{}", fam, s), move || gen::gen(&fam, s));
                writeln!(out, "{}", t).unwrap();
                writeln!(sout, "{}", sc).unwrap();
                hangs += hang as u32;
                if hangs >= 2 {
                    break;
                }
            }
        }
        Some("cluster") => {
            // cluster HIST.ndjson TRACES.ndjson FIRST_SEED COUNT [HOW MANY WITH TRACES OF THE NODES]
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            let mut tr = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let s0: u64 = a[4].parse().unwrap();
            let traced = a.get(6).map_or(u64::MAX, |x| x.parse::<u64>().unwrap());
            // code that makes no progress makes long runs: fewer of them will do
            let secs: u64 = std::env::var("CLUSTER_SECS").map_or(u64::MAX, |x| x.parse().unwrap());
            let begin = std::time::Instant::now();
            for s in s0..s0 + a[5].parse::<u64>().unwrap() {
                if begin.elapsed().as_secs() >= secs {
                    break;
                }
                // a hang yields the trace of one node only
                let (h, t, hang) = scen::guarded(&format!("cluster-{}", s), move || cluster::cluster(s));
                if !hang {
                    writeln!(out, "{}", h).unwrap();
                    for x in t.as_array().unwrap().iter().filter(|_| s - s0 < traced) {
                        writeln!(tr, "{}", x).unwrap();
                    }
                } else {
                    writeln!(tr, "{}", h).unwrap();
                    hangs += 1;
                    if hangs >= 2 {
                        break;
                    }
                }
            }
        }
        Some("codec") => {
            // codec OUT.ndjson SEED SAMPLES NOISE
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            codec::codec(&mut out, a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
        }
        Some("helpers") => {
            // helpers OUT.ndjson SEED SAMPLES
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            codec::helpers(&mut out, a[3].parse().unwrap(), a[4].parse().unwrap());
        }
        _ => {
            let _ = hangs;
            eprintln!("usage");
            std::process::exit(2);
        }
    }
}
