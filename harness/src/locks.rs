//! Lock behaviour of the thread-safe build: recording the lock events of every item, and
//! running several threads under a prescribed schedule of lock events.
use crate::special::lines;
use crate::{obs, panic_text, unhex};
use cafebabe::verif_hooks::{set_listener, LockEvent};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Rec {
    ids: HashMap<usize, usize>,
    held: Vec<usize>,
    out: String,
}

fn op(e: LockEvent) -> char {
    match e {
        LockEvent::Want => 'W',
        LockEvent::Try => 'T',
        LockEvent::Acquired => 'A',
        LockEvent::Released => 'R',
    }
}

/// Lines "id classhex".  Output "id\tSTATUS\tparse events\titem events;item events;..." where
/// an event is W, A or R and the number of the lock.
pub fn cmd_locks(input: &str, output: &str) {
    let mut out = std::fs::File::create(output).expect("output");
    std::panic::set_hook(Box::new(|_| ()));
    for line in lines(input) {
        let p: Vec<&str> = line.split(' ').collect();
        let bytes = unhex(p[1]);
        let rec = std::rc::Rc::new(std::cell::RefCell::new(Rec::default()));
        let r2 = rec.clone();
        set_listener(Some(Box::new(move |e, id| {
            let mut r = r2.borrow_mut();
            let n = r.ids.len() + 1;
            let k = *r.ids.entry(id).or_insert(n);
            r.out.push(op(e));
            r.out.push_str(&k.to_string());
            r.out.push(' ');
            match e {
                LockEvent::Want => {
                    if r.held.contains(&k) {
                        drop(r);
                        panic!("self-lock");
                    }
                }
                LockEvent::Try => (),
                LockEvent::Acquired => r.held.push(k),
                LockEvent::Released => r.held.retain(|x| *x != k),
            }
        })));
        let mut res = String::new();
        let o = catch_unwind(AssertUnwindSafe(|| match cafebabe::parse_class(&bytes) {
            Ok(c) => {
                res.push_str(rec.borrow().out.trim_end());
                res.push('\t');
                rec.borrow_mut().out.clear();
                let mut it = c.constantpool_iter();
                loop {
                    let x = it.next();
                    let ev = std::mem::take(&mut rec.borrow_mut().out);
                    res.push_str(ev.trim_end());
                    res.push(';');
                    if x.is_none() {
                        break;
                    }
                }
                "ok"
            }
            Err(_) => {
                res.push_str(rec.borrow().out.trim_end());
                res.push('\t');
                "R"
            }
        }));
        set_listener(None);
        let status = match o {
            Ok(s) => s.to_string(),
            Err(p) => {
                res.push_str(rec.borrow().out.trim_end());
                res.push('\t');
                format!("P:{}", panic_text(p))
            }
        };
        out.write_all(format!("{}\t{}\t{}\n", p[0], status, res.trim_end_matches(';')).as_bytes()).unwrap();
    }
}

#[derive(Default)]
struct Sched {
    at: Vec<usize>,      // events each thread has announced
    grant: Vec<usize>,   // events each thread may go past
    done: Vec<bool>,
    free: bool,
    held: Vec<Vec<usize>>,
    wants: Vec<usize>,
}
type Shared = Arc<(Mutex<Sched>, Condvar)>;

fn listener(sh: Shared, t: usize) -> Box<dyn FnMut(LockEvent, usize)> {
    Box::new(move |e, id| {
        let (m, cv) = &*sh;
        let mut s = m.lock().unwrap();
        s.at[t] += 1;
        match e {
            LockEvent::Want => s.wants[t] = id,
            LockEvent::Try => s.wants[t] = 0,
            LockEvent::Acquired => {
                s.wants[t] = 0;
                s.held[t].push(id);
            }
            LockEvent::Released => s.held[t].retain(|x| *x != id),
        }
        cv.notify_all();
        while !s.free && s.at[t] > s.grant[t] {
            s = cv.wait(s).unwrap();
        }
    })
}

/// Lines "id classhex threads schedule" (schedule: comma separated thread numbers from 0, each
/// one step from lock event to lock event; afterwards everything runs freely).
/// Output: ok / diff / panic / HANG.
pub fn cmd_sched(input: &str, output: &str) {
    let mut out = std::fs::File::create(output).expect("output");
    std::panic::set_hook(Box::new(|_| ()));
    // A thread that is stopped may hold something the events do not show; waiting for the others
    // each time would take for ever.
    let mut stalls = 0;
    for line in lines(input) {
        let p: Vec<&str> = line.split(' ').collect();
        let n: usize = p[2].parse().unwrap();
        let plan: Vec<usize> = p.get(3).map_or("", |s| s).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        // The threads may hang for good, so what they use is never freed.
        let bytes: &'static [u8] = Box::leak(unhex(p[1]).into_boxed_slice());
        let class: &'static cafebabe::ClassFile<'static> = match cafebabe::parse_class(bytes) {
            Ok(c) => Box::leak(Box::new(c)),
            Err(_) => {
                out.write_all(format!("{}\tR\t0\n", p[0]).as_bytes()).unwrap();
                continue;
            }
        };
        let items = move || {
            let mut o = obs::O::new(b'v', bytes);
            o.items(class);
            o.s
        };
        let want = items();
        let sh: Shared = Arc::new((Mutex::new(Sched::default()), Condvar::new()));
        {
            let mut s = sh.0.lock().unwrap();
            s.at = vec![0; n];
            s.grant = vec![0; n];
            s.done = vec![false; n];
            s.held = vec![vec![]; n];
            s.wants = vec![0; n];
        }
        let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
        for t in 0..n {
            let (sh, results, want) = (sh.clone(), results.clone(), want.clone());
            std::thread::spawn(move || {
                set_listener(Some(listener(sh.clone(), t)));
                let r = match catch_unwind(AssertUnwindSafe(items)) {
                    Ok(v) if v == want => "ok".to_string(),
                    Ok(_) => "diff".to_string(),
                    Err(p) => format!("panic:{}", panic_text(p)),
                };
                set_listener(None);
                results.lock().unwrap()[t] = Some(r);
                let (m, cv) = &*sh;
                m.lock().unwrap().done[t] = true;
                cv.notify_all();
            });
        }
        let (m, cv) = &*sh;
        let mut followed = 0;
        {
            // every thread first runs to its first event
            let end = Instant::now() + Duration::from_secs(5);
            let mut s = m.lock().unwrap();
            while !(0..n).all(|t| s.at[t] > 0 || s.done[t]) && Instant::now() < end {
                s = cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
            }
            'plan: for &t in &plan {
                if s.done[t] {
                    break;
                }
                // Would it only wait for a lock another thread holds?  Then the rest is free.
                let before = s.at[t];
                if s.wants[t] != 0 && s.held.iter().any(|h| h.contains(&s.wants[t])) {
                    break;
                }
                s.grant[t] = before;
                cv.notify_all();
                let end = Instant::now() + Duration::from_millis(if stalls < 5 { 3000 } else { 100 });
                while s.at[t] == before && !s.done[t] {
                    if Instant::now() > end {
                        stalls += 1;
                        break 'plan;
                    }
                    s = cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
                }
                followed += 1;
            }
            s.free = true;
            cv.notify_all();
            let end = Instant::now() + Duration::from_secs(10);
            while !s.done.iter().all(|d| *d) && Instant::now() < end {
                s = cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
            }
        }
        let r = results.lock().unwrap();
        let hang = r.iter().any(|x| x.is_none());
        let bad = r.iter().flatten().find(|x| *x != "ok").cloned();
        let status = if let Some(b) = bad {
            b
        } else if hang {
            "HANG".to_string()
        } else if catch_unwind(AssertUnwindSafe(items)).ok().as_ref() != Some(&want) {
            "diff afterwards".to_string()
        } else {
            "ok".to_string()
        };
        drop(r);
        out.write_all(format!("{}\t{}\t{}\n", p[0], status, followed).as_bytes()).unwrap();
        if hang {
            // the hung threads stay; do not pile up more of them
            out.flush().unwrap();
            std::process::exit(4);
        }
    }
}
