mod conc;
mod faults;
mod held;
#[cfg(mcbk = "windows")]
mod iocp;
mod items;
#[cfg(any(mcbk = "freebsd", mcbk = "netbsd"))]
mod kqf;
mod seq;
mod sys;
mod values;
use mcstd::mc;

#[global_allocator]
static BOOKS: held::Books = held::Books;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}
fn nums(v: &[u32]) -> String {
    format!("[{}]", v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","))
}
fn raise_limit() {
    let mut r = [0u64; 2];
    mcstd::sysc::raw(97, 7, r.as_mut_ptr() as usize, 0, 0, 0, 0);
    let want = 8192.min(r[1]);
    if r[0] < want {
        r[0] = want;
        mcstd::sysc::raw(160, 7, r.as_ptr() as usize, 0, 0, 0, 0);
    }
}

// mc list PROP TIER             the items, one per line: shards <tab> name
// mc run PROP TIER IDX I/N SECS explore one share of one item
// mc replay PROP TIER NAME TRAIL [BOUND]
fn main() {
    raise_limit();
    mcstd::sysc::ESPIDF.store(sys::ESPIDF, std::sync::atomic::Ordering::Relaxed);
    mcstd::sysc::VITA.store(sys::VITA, std::sync::atomic::Ordering::Relaxed);
    let a: Vec<String> = std::env::args().collect();
    let cmd = a[1].as_str();
    let its = items::items(&a[2], a[3] == "thorough");
    match cmd {
        "list" => {
            for i in &its {
                println!("{}\t{}", i.shards, i.name);
            }
        }
        "run" => {
            let it = &its[a[4].parse::<usize>().unwrap()];
            let (i, n) = a[5].split_once('/').unwrap();
            let mut o = it.opts.clone();
            o.shard = (i.parse().unwrap(), n.parse().unwrap());
            o.max_secs = a[6].parse().unwrap();
            let t0 = mcstd::sysc::real_now();
            let r = mc::explore(&o, &it.body);
            let secs = mcstd::sysc::real_now() - t0;
            let mut s = format!(
                "{{\"item\":{},\"execs\":{},\"pruned\":{},\"states\":{},\"transitions\":{},\"depth\":{},\"outcomes\":{},\"nontrivial\":{},\"capped\":{},\"secs\":{:.3}",
                esc(&it.name), r.execs, r.pruned, r.states, r.transitions, r.max_depth, r.outcomes.len(), r.nontrivial, r.capped, secs
            );
            s.push_str(",\"counters\":{");
            s.push_str(&r.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
            s.push('}');
            let replay_opts = it.opts.clone();
            if let Some(v) = &r.violation {
                let rr = mc::replay(&replay_opts, r.bound, &v.trail, &it.body);
                let (same, log) = match &rr.violation {
                    Some(x) => (x.msg == v.msg, x.log.clone()),
                    None => (false, vec![]),
                };
                s.push_str(&format!(
                    ",\"violation\":{{\"msg\":{},\"trail\":{},\"bound\":{},\"reproduced\":{},\"log\":{}}}",
                    esc(&v.msg), nums(&v.trail), r.bound.map_or("null".into(), |b| b.to_string()), same, arr(&log)
                ));
            } else if o.shard.0 == 0 && !r.sample_trail.is_empty() {
                let rr = mc::replay(&replay_opts, r.bound, &r.sample_trail, &it.body);
                s.push_str(&format!(",\"sample\":{}", arr(&rr.sample)));
            }
            s.push('}');
            println!("{s}");
        }
        "replay" => {
            let it = its.iter().find(|i| i.name == a[4]).expect("no such item");
            let trail: Vec<u32> = a[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            // Without a bound (or with one that is no number): none.
            let bound = a.get(6).and_then(|b| b.parse().ok());
            let r = mc::replay(&it.opts, bound, &trail, &it.body);
            let log = r.violation.as_ref().map(|v| v.log.clone()).unwrap_or(r.sample.clone());
            for l in log {
                println!("{l}");
            }
            match r.violation {
                Some(v) => {
                    println!("violated: {}", v.msg);
                    std::process::exit(1);
                }
                None => println!("held"),
            }
        }
        _ => panic!("unknown command"),
    }
}
