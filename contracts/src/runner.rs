use crate::nd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Table = Vec<(&'static str, &'static str, fn())>;

static LAST: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0);
static TRIAL: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
/// one evaluation running for longer than this is a hang
const HANG_S: u64 = 30;

fn table() -> Table {
    let mut t: Table = vec![];
    crate::tables(&mut |kind, l: &[(&'static str, fn())]| {
        for (n, f) in l {
            t.push((kind, n, *f));
        }
    });
    t
}

enum Out {
    Held,
    Vacuous,
    Failed(String),
}

fn once(f: fn()) -> Out {
    LAST.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Out::Held,
        Err(e) if e.is::<nd::Vacuous>() => Out::Vacuous,
        Err(_) => Out::Failed(LAST.lock().unwrap().clone()),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

fn seed_of(seed: u64, name: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h.wrapping_add(i.wrapping_mul(0xD1342543DE82EF95))
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<nd::Vacuous>() {
            return;
        }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut l = LAST.lock().unwrap();
        if l.is_empty() {
            *l = format!("{m} [{at}]");
        }
    }));
    let t = table();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (k, n, _) in t {
                println!("{k} {n}");
            }
        },
        Some("replay") => {
            let b: Vec<u8> = (0..a[3].len() / 2).map(|i| u8::from_str_radix(&a[3][2 * i..2 * i + 2], 16).unwrap()).collect();
            let (_, _, f) = *t.iter().find(|x| x.1 == a[2]).expect("no such harness");
            nd::reset(nd::Source::Replay(b, 0));
            std::thread::spawn(|| {
                std::thread::sleep(Duration::from_secs(HANG_S));
                println!("{{\"outcome\":\"failed\",\"message\":\"does not terminate\"}}");
                std::process::exit(0);
            });
            match once(f) {
                Out::Held => println!("{{\"outcome\":\"held\"}}"),
                Out::Vacuous => println!("{{\"outcome\":\"vacuous\"}}"),
                Out::Failed(m) => println!("{{\"outcome\":\"failed\",\"message\":{}}}", esc(&m)),
            }
        },
        Some("search") => {
            let seed: u64 = a[2].parse().unwrap();
            let secs: f64 = a[3].parse().unwrap();
            let only = &a[4..];
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_secs(1));
                let s = STARTED.load(Ordering::SeqCst);
                if s != 0 && now() > s + HANG_S {
                    let h = CURRENT.lock().unwrap().clone();
                    println!("{{\"harness\":{},\"outcome\":\"hang\",\"trial\":{}}}", esc(&h), TRIAL.load(Ordering::SeqCst));
                    std::process::exit(0);
                }
            });
            for (k, n, f) in t {
                if !only.is_empty() && !only.iter().any(|o| o == n) {
                    continue;
                }
                *CURRENT.lock().unwrap() = n.to_string();
                nd::REACH.with(|r| r.borrow_mut().clear());
                let t0 = Instant::now();
                let (mut held, mut vac) = (0u64, 0u64);
                let mut fail = None;
                let mut seen = std::collections::HashSet::<u64>::new();
                let mut sample = String::new();
                let mut i = 0u64;
                // a harness without any draw is a single evaluation
                while t0.elapsed().as_secs_f64() < secs {
                    TRIAL.store(i, Ordering::SeqCst);
                    STARTED.store(now(), Ordering::SeqCst);
                    nd::reset(nd::Source::Random(seed_of(seed, n, i), vec![]));
                    let o = once(f);
                    STARTED.store(0, Ordering::SeqCst);
                    i += 1;
                    match o {
                        Out::Held => {
                            held += 1;
                            let t = nd::trace();
                            if seen.len() < 4_000_000 {
                                let mut h = 0xcbf29ce484222325u64;
                                for b in &t {
                                    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                                }
                                seen.insert(h);
                            }
                            if sample.is_empty() {
                                sample = hex(&t[..t.len().min(64)]);
                            }
                        },
                        Out::Vacuous => vac += 1,
                        Out::Failed(m) => {
                            fail = Some((m, nd::trace()));
                            break;
                        },
                    }
                    if nd::trace().is_empty() {
                        break;
                    }
                }
                let reach = nd::REACH.with(|r| {
                    r.borrow().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
                });
                print!("{{\"harness\":{},\"kind\":\"{k}\",\"held\":{held},\"distinct\":{},\"sample\":\"{sample}\",\"vacuous\":{vac},\"reach\":{{{reach}}}", esc(n), seen.len());
                if let Some((m, tr)) = fail {
                    print!(",\"outcome\":\"failed\",\"message\":{},\"bytes\":\"{}\"", esc(&m), hex(&tr));
                } else {
                    print!(",\"outcome\":\"held\"");
                }
                println!("}}");
            }
        },
        _ => panic!("usage"),
    }
}
