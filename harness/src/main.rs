#![allow(unused_braces)]
mod codec;
mod exec;
mod json;
mod level;
mod live;
mod model;
mod packets;
mod pool;
mod prims;
mod rng;
mod same;
mod share;
mod stream;
mod meta;
mod sweep;
mod vast;
mod wire;
mod work;
use json::*;
use rng::Rng;
use std::io::Write;

#[global_allocator]
static COUNTING: live::Counting = live::Counting;

/// mqtt-conform SUITE OUT --seed N --limit N --pool N [--gen FILE] [--careful FILE]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).cloned();
    let num = |k: &str, d: usize| opt(k).map(|x| x.parse().expect("number")).unwrap_or(d);
    if a.len() < 3 {
        eprintln!("usage: mqtt-conform SUITE OUT [--seed N] [--limit N] [--pool N] [--gen FILE] [--careful FILE]");
        std::process::exit(2);
    }
    let suite = a[1].as_str();
    let seed = num("--seed", 1) as u64;
    let limit = num("--limit", 1000);
    let pool = num("--pool", limit * 4);
    if let Some(f) = opt("--careful") {
        exec::careful(&f);
    }
    let given: Vec<J> = match opt("--gen") {
        Some(f) => std::fs::read_to_string(&f)
            .expect("gen file")
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| json::parse(l).unwrap_or_else(|e| {
                eprintln!("{}: {}", e, l);
                std::process::exit(2)
            }))
            .collect(),
        None => vec![],
    };
    let deep = a.iter().any(|x| x == "--deep");
    let dict = match opt("--dict") {
        Some(f) => {
            let mut d = rng::Dict::default();
            for l in std::fs::read_to_string(&f).expect("dict file").lines() {
                let x = json::parse(l).expect("dict entry");
                match x {
                    J::Int(k) => d.nums.push(k as u64),
                    J::Str(t) => d.texts.push(t),
                    _ => panic!("dict entry"),
                }
            }
            d
        }
        None => rng::Dict::default(),
    };
    // panics of the code under test are outcomes
    std::panic::set_hook(Box::new(|_| {}));
    exec::start_watchdog(num("--hang", 20) as u64);
    let suite_name = suite.to_string();
    // a thread of its own for a defined stack size
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run(&suite_name, seed, limit, pool, &given, dict, deep))
        .unwrap();
    let events = match t.join() {
        Ok(e) => e,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()));
            eprintln!("harness failure in {}: {:?}", suite, m);
            std::process::exit(2)
        }
    };
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("out file"));
    for e in events {
        writeln!(f, "{}", e.text()).unwrap();
    }
    println!("SCREENED {}", sweep::SCREENED.load(std::sync::atomic::Ordering::SeqCst));
}

fn run(suite: &str, seed: u64, limit: usize, pool: usize, given: &[J], dict: rng::Dict, deep: bool) -> Vec<J> {
    let mut r = Rng::new(seed ^ pool::hash_bytes(suite.as_bytes()));
    r.dict = std::rc::Rc::new(dict.clone());
    let types = packets::TYPES;
    let (name, arg) = suite.split_once(':').unwrap_or((suite, ""));
    // NAME+large: packets with fields and lists beyond the usual sizes
    let name = match name.split_once('+') {
        Some((n, _)) => {
            r.large = true;
            n
        }
        None => name,
    };
    match name {
        "enc" => {
            let (focus, t) = arg.split_once(':').unwrap_or((arg, ""));
            let ts: Vec<&str> = if t.is_empty() { types.to_vec() } else { t.split(',').collect() };
            codec::enc(&mut r, limit, pool, focus, &ts)
        }
        // sweep:KIND:EMIT[:TYPES]
        "sweep" => {
            let mut w = arg.splitn(3, ':');
            let (kind, emit, t) = (w.next().unwrap(), w.next().expect("emit"), w.next().unwrap_or(""));
            let ts: Vec<&str> = if t.is_empty() { types.to_vec() } else { t.split(',').collect() };
            sweep::sweep(seed, &dict, deep, kind, emit, &ts)
        }
        "enc-given" => codec::enc_given(given),
        "dec" => {
            let (kind, t) = arg.split_once(':').unwrap_or((arg, ""));
            let ts: Vec<&str> = if t.is_empty() { types.to_vec() } else { t.split(',').collect() };
            codec::dec(&mut r, limit, pool, kind, &ts)
        }
        "dec-given" => codec::dec_given(given),
        "dec-enum" => {
            let w: Vec<&str> = if arg.is_empty() { vec![] } else { arg.split(',').collect() };
            codec::dec_enum(limit, &w, seed)
        }
        "relay" => codec::relay(&mut r, limit, pool),
        "relay-enum" => codec::relay_enum(limit),
        "relay-given" => codec::relay_given(given),
        "big" => codec::big(&match arg {
            "huge" => vec![268435440, 268435445, 268435450, 268435455, 268435456, 4294967296, 4294967300],
            "max" => vec![268435440, 268435445, 268435448, 268435449, 268435450, 268435455],
            "over" => vec![268435450, 268435455, 268435456, 4294967296 - 10, 4294967296, 4294967300],
            _ => vec![0, 1, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 16370, 16374, 16375, 16376, 16377, 16378, 16379, 16380,
                16383, 16384, 2097140, 2097143, 2097144, 2097145, 2097146, 2097147, 2097148, 2097152],
        }),
        "long" => codec::long_fields(&mut r, &match arg {
            "all" => vec![127, 128, 255, 256, 16383, 16384, 65535, 65536],
            _ => vec![128, 65535, 65536],
        }),
        "vast" => vast::vast(&mut r, arg == "rt"),
        "stream" => stream::stream(&mut r, limit, pool),
        "garbage" => stream::garbage(&mut r, limit, pool),
        "stream-given" => stream::stream_given(given),
        "cut" => stream::cut(&mut r, limit, pool),
        "cut-given" => stream::cut_given(given),
        "chunk" => stream::chunk(&mut r, limit, pool, 12),
        "chunk-given" => stream::chunk_given(&mut r, given),
        "prompt" => live::prompt(&mut r, limit, pool),
        "prompt-given" => live::prompt_given(&mut r, given),
        "share" => share::share(&mut r, limit, pool),
        "share-row" => share::row(&mut r, limit, deep),
        "share-near" => share::near(&mut r, limit, pool),
        "share-given" => share::share_given(given),
        "same" => same::same(&mut r, limit, pool),
        "same-given" => same::same_given(given),
        "level" => level::level(&mut r, limit, pool),
        "level-given" => level::level_given(given),
        "hand" => level::hand(&mut r, limit, pool),
        "hand-given" => level::hand_given(given),
        "hand-words" => level::hand_words(seed, deep),
        "work" => work::work(&mut r, deep),
        "work-given" => work::work_given(given),
        "mem" => live::mem(&mut r, limit, pool),
        "mem-given" => live::mem_given(given),
        "rd" => prims::rd(&mut r, limit, pool),
        "rd-given" => prims::rd_given(&mut r, given),
        "prim" => prims::prim(&mut r, limit, pool),
        "prim-given" => prims::prim_given(given),
        "wr" => prims::wr(&mut r, limit, pool),
        "wr-given" => prims::wr_given(&mut r, given),
        "prim-sweep" => sweep::primitives(seed, &dict, deep),
        "meta" => meta::meta(seed, &dict, deep, if arg.is_empty() { "dec" } else { arg }),
        "words" => sweep::words(seed, deep),
        "rd-sweep" => sweep::reader(seed, &dict, deep),
        "defaults" => prims::defaults(),
        "codes" => prims::codes(),
        "code-enc" => prims::code_enc(),
        "ack" => prims::ack(&mut r, limit),
        "ack-matrix" => prims::ack_matrix(),
        "serde" | "serde-given" => prims::serde_suite(&mut r, limit, pool, given),
        _ => {
            eprintln!("unknown suite {}", suite);
            std::process::exit(2)
        }
    }
}
