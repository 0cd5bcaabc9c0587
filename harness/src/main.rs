mod codec;
mod gen;
mod history;
mod obs;
mod rng;
mod variants;

use codec::*;
use obs::*;
use rng::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Read as _, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use variants::*;

/// What each worker is at: (a description of) the case, and since when. A case
/// which does not come back is found by the watchdog.
struct Watch {
    slots: Vec<Mutex<String>>,
    since: Vec<AtomicU64>,
    out: String,
    log: Option<String>,
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

const PATIENCE_MS: u64 = 20_000;

impl Watch {
    fn new(n: usize, out: &str, log: Option<&String>) -> Arc<Self> {
        let w = Arc::new(Watch {
            slots: (0..n).map(|_| Mutex::new(String::new())).collect(),
            since: (0..n).map(|_| AtomicU64::new(0)).collect(),
            out: out.into(),
            // only of use where there is one worker
            log: log.filter(|_| n == 1).cloned(),
        });
        let w2 = w.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, s) in w2.since.iter().enumerate() {
                let t = s.load(Ordering::SeqCst);
                if t != 0 && now() > t + PATIENCE_MS {
                    let what = w2.slots[i].lock().unwrap().clone();
                    let line = format!("{{\"hang\":{}}}\n", what);
                    std::fs::write(&w2.out, line).ok();
                    std::process::exit(3);
                }
            }
        });
        w
    }
    fn enter(&self, i: usize, doc: &[u8], v: &Variant) {
        let what = json!({"doc": String::from_utf8_lossy(doc), "bytes": doc, "variant": describe(v)}).to_string();
        if let Some(f) = &self.log {
            std::fs::write(f, &what).ok();
        }
        *self.slots[i].lock().unwrap() = what;
        self.since[i].store(now(), Ordering::SeqCst);
    }
    fn leave(&self, i: usize) {
        self.since[i].store(0, Ordering::SeqCst);
    }
}

fn parse_line(line: &str) -> Option<Value> {
    // TLC prints a string
    if line.starts_with("\"{") {
        let inner: String = serde_json::from_str(line).ok()?;
        return serde_json::from_str(&inner).ok();
    }
    if line.starts_with('{') {
        return serde_json::from_str(line).ok();
    }
    None
}

fn replay(opt: &HashMap<String, String>) {
    let aspects = Aspects::parse(&opt["aspects"]);
    let list = opt["variants"].clone();
    let seed: u64 = opt["seed"].parse().unwrap();
    let jobs: usize = opt.get("jobs").map_or(8, |j| j.parse().unwrap());
    let out = opt["out"].clone();
    let limit: usize = 25;
    // cases which are not there are in another check
    let src: Box<dyn BufRead + Send> = match opt["cases"].as_str() {
        "-" => Box::new(BufReader::new(std::io::stdin())),
        f => Box::new(BufReader::new(File::open(f).expect("cases"))),
    };
    let lines = Arc::new(Mutex::new(src.lines()));
    let watch = Watch::new(jobs, &out, opt.get("log"));
    let found = Arc::new(Mutex::new(Vec::<Value>::new()));
    let (cases, runs, mism, accepted, events) = (
        Arc::new(AtomicUsize::new(0)),
        Arc::new(AtomicUsize::new(0)),
        Arc::new(AtomicUsize::new(0)),
        Arc::new(AtomicUsize::new(0)),
        Arc::new(AtomicUsize::new(0)),
    );
    let sample = Arc::new(Mutex::new(Vec::<Value>::new()));
    let threads: Vec<_> = (0..jobs)
        .map(|j| {
            let (lines, watch, found, list, aspects, sample) =
                (lines.clone(), watch.clone(), found.clone(), list.clone(), aspects.clone(), sample.clone());
            let (cases, runs, mism, accepted, events) =
                (cases.clone(), runs.clone(), mism.clone(), accepted.clone(), events.clone());
            std::thread::spawn(move || loop {
                let batch: Vec<String> = {
                    let mut l = lines.lock().unwrap();
                    l.by_ref().take(64).filter_map(|x| x.ok()).collect()
                };
                if batch.is_empty() {
                    break;
                }
                for line in batch {
                    let case = match parse_line(&line) {
                        Some(c) => c,
                        None => continue,
                    };
                    let doc = text(&case["d"]);
                    if case.get("ops").is_some() {
                        let h = doc.bytes().fold(seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                        cases.fetch_add(1, Ordering::SeqCst);
                        accepted.fetch_add(1, Ordering::SeqCst);
                        for (_, v) in variants(&list, doc.as_bytes(), &mut Rng(h)) {
                            watch.enter(j, doc.as_bytes(), &v);
                            let d = history::history(&case, &v.from);
                            watch.leave(j);
                            runs.fetch_add(1, Ordering::SeqCst);
                            if let Some(d) = d {
                                mism.fetch_add(1, Ordering::SeqCst);
                                let mut f = found.lock().unwrap();
                                if f.len() < 2000 {
                                    f.push(json!({"doc": doc, "variant": describe(&v), "diff": d, "ops": case["ops"]}));
                                }
                            }
                        }
                        let mut s = sample.lock().unwrap();
                        if s.len() < 4 {
                            s.push(json!({"doc": doc, "ops": case["ops"].to_string()}));
                        }
                        continue;
                    }
                    let eager = decode_all(&case["e"]);
                    let lazy = if case.get("l").is_some() { decode_all(&case["l"]) } else { Outcome::default() };
                    let n = cases.fetch_add(1, Ordering::SeqCst);
                    if eager.err.is_none() {
                        accepted.fetch_add(1, Ordering::SeqCst);
                    }
                    events.fetch_add(eager.evs.len(), Ordering::SeqCst);
                    if eager.err.is_none() && n % 997 == 5 {
                        let mut s = sample.lock().unwrap();
                        if s.len() < 8 {
                            s.push(json!({"doc": doc.chars().take(200).collect::<String>(), "events": eager.evs.iter().take(40).map(|e| e.k.clone()).collect::<Vec<_>>().join(" ")}));
                        }
                    }
                    // the seed of a case only depends on the case
                    let h = doc.bytes().fold(seed ^ 0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                    let mut rng = Rng(h);
                    let all = match case.get("ch").and_then(|c| c.as_array()) {
                        // it says how it is read
                        Some(ch) => {
                            let ch: Vec<i64> = ch.iter().filter_map(|x| x.as_i64()).collect();
                            let from = From::Read { steps: steps(&doc, &ch), hiccup: 0 };
                            let lazy = case["lz"].as_bool() == Some(true);
                            let v = Variant { from, lazy, pull: Pull::Into, by_ref: false };
                            vec![(String::new(), v)]
                        }
                        None => variants(&list, doc.as_bytes(), &mut rng),
                    };
                    for (_, v) in all {
                        watch.enter(j, doc.as_bytes(), &v);
                        let o = run(doc.as_bytes(), &v);
                        watch.leave(j);
                        runs.fetch_add(1, Ordering::SeqCst);
                        let e = if v.lazy && case.get("l").is_some() { &lazy } else { &eager };
                        if let Some(d) = diff(e, &o, &aspects) {
                            mism.fetch_add(1, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            if f.len() < 2000 {
                                f.push(json!({"doc": doc, "variant": describe(&v), "diff": d,
                                              "expected": encode_all(e), "got": encode_all(&o)}));
                            }
                        }
                    }
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    let mut f = found.lock().unwrap().clone();
    f.sort_by_key(|x| (x["doc"].as_str().unwrap().len(), x.to_string()));
    f.truncate(limit);
    let mut w = BufWriter::new(File::create(&out).expect("out"));
    for x in &f {
        writeln!(w, "{}", x).unwrap();
    }
    w.flush().unwrap();
    println!(
        "{}",
        json!({"cases": cases.load(Ordering::SeqCst), "runs": runs.load(Ordering::SeqCst),
               "mismatches": mism.load(Ordering::SeqCst), "accepted": accepted.load(Ordering::SeqCst),
               "events": events.load(Ordering::SeqCst), "samples": *sample.lock().unwrap()})
    );
}

/// Observe runs of generated documents, for the specification to judge
fn record(opt: &HashMap<String, String>) {
    let seed: u64 = opt["seed"].parse().unwrap();
    let n: usize = opt["n"].parse().unwrap();
    let list = opt["variants"].clone();
    let profile = opt["gen"].clone();
    let jobs: usize = opt.get("jobs").map_or(8, |j| j.parse().unwrap());
    let out = opt["out"].clone();
    let bad = format!("{}.bad", out);
    let watch = Watch::new(jobs, &bad, opt.get("log"));
    let next = Arc::new(AtomicUsize::new(0));
    let file = Arc::new(Mutex::new(BufWriter::new(File::create(&out).expect("out"))));
    let broken = Arc::new(Mutex::new(Vec::<Value>::new()));
    let written = Arc::new(AtomicUsize::new(0));
    let threads: Vec<_> = (0..jobs)
        .map(|j| {
            let (watch, next, file, broken, list, profile, written) =
                (watch.clone(), next.clone(), file.clone(), broken.clone(), list.clone(), profile.clone(), written.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15));
                let doc = gen::document(&profile, &mut rng);
                let all = variants(&list, doc.as_bytes(), &mut rng);
                let (_, v) = rng.pick(&all).clone();
                let (bytes, v, chunks) = gen::faults(&profile, &doc, v, &mut rng);
                watch.enter(j, &bytes, &v);
                let o = run(&bytes, &v);
                watch.leave(j);
                if let Some(b) = &o.broken {
                    broken.lock().unwrap().push(json!({"doc": doc, "variant": describe(&v), "diff": b,
                        "expected": [], "got": encode_all(&o)}));
                    continue;
                }
                let line = json!({"d": cps(&doc), "lz": v.lazy, "ch": chunks, "ow": matches!(v.from, From::Read { .. } | From::Padded { .. }),
                                  "ops": encode_all(&o), "id": describe(&v)});
                let mut f = file.lock().unwrap();
                writeln!(f, "{}", line).unwrap();
                written.fetch_add(1, Ordering::SeqCst);
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    file.lock().unwrap().flush().unwrap();
    let b = broken.lock().unwrap();
    let mut w = BufWriter::new(File::create(&bad).expect("out"));
    for x in b.iter().take(25) {
        writeln!(w, "{}", x).unwrap();
    }
    w.flush().unwrap();
    println!("{}", json!({"runs": n, "written": written.load(Ordering::SeqCst), "broken": b.len()}));
}

fn probe(opt: &HashMap<String, String>) {
    let mut doc = Vec::new();
    std::io::stdin().read_to_end(&mut doc).unwrap();
    let list = opt.get("variants").cloned().unwrap_or("be".into());
    for (_, v) in variants(&list, &doc, &mut Rng(1)) {
        let o = run(&doc, &v);
        println!("{} {}", describe(&v), o.broken.clone().unwrap_or_default());
        for e in encode_all(&o).as_array().unwrap() {
            println!("  {}", e);
        }
    }
}

/// Two streams from one source, each of them its own
fn bound() {
    use yary::event::from_reader;
    let mut doc = String::new();
    std::io::stdin().read_to_string(&mut doc).unwrap();
    let src = yary::reader::from_read(std::io::Cursor::new(doc.into_bytes()));
    let first = from_reader(&src).into_iter().filter(|e| e.is_ok()).count();
    let second = from_reader(&src).into_iter().next();
    println!("{} {}", first, if matches!(second, Some(Err(_))) { "fails" } else { "bound" });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut opt = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches('-').to_string(), args[i + 1].clone());
        i += 2;
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&opt),
        Some("record") => record(&opt),
        Some("probe") => probe(&opt),
        Some("bound") => bound(),
        Some("gen") => {
            let seed: u64 = opt["seed"].parse().unwrap();
            for i in 0..opt["n"].parse::<u64>().unwrap() {
                let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ i.wrapping_mul(0x9E3779B97F4A7C15));
                println!("{:?}", gen::document(&opt["gen"], &mut rng));
            }
        }
        _ => {
            eprintln!("usage: harness replay|record|probe|gen --key value ...");
            std::process::exit(2);
        }
    }
}
