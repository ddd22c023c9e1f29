//! Sharing a parsed class between threads for real.
use crate::special::lines;
use crate::{obs, options, panic_text, unhex};
use cafebabe::ClassFile;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

fn shareable<T: Send + Sync>(_: &T) {}

fn full(c: &ClassFile<'_>, b: &[u8]) -> String {
    let mut o = obs::O::new(b'a', b);
    o.values(c);
    // formatting must work, too (what it shows of locks depends on the moment)
    let _ = format!("{:?}", c);
    o.s
}

/// Lines "id rounds threads classhex".  Output: ok / diff / panic / HANG.
pub fn cmd_stress(input: &str, output: &str) {
    let mut out = std::fs::File::create(output).expect("output");
    std::panic::set_hook(Box::new(|_| ()));
    for line in lines(input) {
        let p: Vec<&str> = line.split(' ').collect();
        let rounds: usize = p[1].parse().unwrap();
        let n: usize = p[2].parse().unwrap();
        let bytes: &'static [u8] = Box::leak(unhex(p[3]).into_boxed_slice());
        let made = match cafebabe::parse_class_with_options(bytes, &options(b'v')) {
            Ok(c) => c,
            Err(_) => {
                out.write_all(format!("{}\tR\n", p[0]).as_bytes()).unwrap();
                continue;
            }
        };
        shareable(&made);
        let class: &'static ClassFile<'static> = Box::leak(Box::new(made));
        let items = move || {
            let mut o = obs::O::new(b'v', bytes);
            o.items(class);
            o.s
        };
        let want = items();
        let want_class = full(class, bytes);
        let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
        let bar = Arc::new(Barrier::new(n));
        for t in 0..n {
            let (results, want, want_class, bar) = (results.clone(), want.clone(), want_class.clone(), bar.clone());
            std::thread::spawn(move || {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    for k in 0..rounds {
                        bar.wait();
                        if items() != want {
                            return "diff";
                        }
                        if (t + k) % 4 == 0 && full(class, bytes) != want_class {
                            return "diff of the class";
                        }
                        if (t + k) % 4 == 1 {
                            // sent to another thread, iterated and dropped there
                            let c = cafebabe::parse_class(bytes).unwrap();
                            let w = want.clone();
                            let same = std::thread::spawn(move || {
                                let mut o = obs::O::new(b'v', bytes);
                                if k % 2 == 0 {
                                    // borrowed for good by its iterator
                                    o.items(Box::leak(Box::new(c)));
                                    o.s == w
                                } else {
                                    o.values(&c);
                                    drop(c);
                                    true
                                }
                            })
                            .join()
                            .unwrap();
                            if !same {
                                return "diff in a sent class";
                            }
                        }
                    }
                    "ok"
                }));
                let r = match r {
                    Ok(s) => s.to_string(),
                    Err(p) => format!("panic:{}", panic_text(p)),
                };
                if r != "ok" {
                    // the barrier would wait for this thread
                    results.lock().unwrap()[t] = Some(r);
                    loop {
                        bar.wait();
                    }
                }
                results.lock().unwrap()[t] = Some(r);
            });
        }
        let end = Instant::now() + Duration::from_secs(30);
        let status = loop {
            std::thread::sleep(Duration::from_millis(2));
            let r = results.lock().unwrap();
            if let Some(b) = r.iter().flatten().find(|x| *x != "ok") {
                break b.clone();
            }
            if r.iter().all(|x| x.is_some()) {
                break "ok".to_string();
            }
            if Instant::now() > end {
                break "HANG".to_string();
            }
        };
        out.write_all(format!("{}\t{}\n", p[0], status).as_bytes()).unwrap();
        if status != "ok" {
            out.flush().unwrap();
            std::process::exit(4);
        }
    }
}
