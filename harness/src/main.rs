mod mem;
mod obs;
#[cfg(feature = "hooks")]
mod locks;
mod special;
#[cfg(feature = "sendsync")]
mod threads;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// Memory allowance of one parse: a constant plus a multiple of the input length.
/// One input byte can legitimately ask for a copy of half a 64 KiB string (a two-byte
/// reference to a string that has to be decoded), hence the multiple.
const MEM_CONST: usize = 1 << 30;
const MEM_PER_BYTE: usize = 40_000;
const CASE_LIMIT: Duration = Duration::from_secs(20);

fn unhex(h: &str) -> Vec<u8> {
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("bad hex"),
    };
    h.as_bytes().chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}

/// A copy of the input at the given distance from an aligned address.
struct Placed {
    buf: Vec<u8>,
    shift: usize,
    len: usize,
}
impl Placed {
    fn new(b: &[u8], shift: usize) -> Self {
        // The bytes around the input must not matter: make them look like more of it.
        let mut buf = vec![0xCAu8; shift];
        buf.extend_from_slice(b);
        buf.extend_from_slice(&b[..b.len().min(16)]);
        Placed { buf, shift, len: b.len() }
    }
    fn get(&self) -> &[u8] {
        &self.buf[self.shift..self.shift + self.len]
    }
}

struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

fn options(mode: u8) -> cafebabe::ParseOptions {
    let mut o = cafebabe::ParseOptions::default();
    if mode != b'v' {
        o.parse_bytecode(mode != b'n' && mode != b'x');
    }
    o
}

/// Parse and observe: (outcome, error text).
fn observe(bytes: &[u8], mode: u8, plain_call: bool) -> (String, String) {
    let r = if plain_call && mode == b'v' {
        cafebabe::parse_class(bytes)
    } else {
        cafebabe::parse_class_with_options(bytes, &options(mode))
    };
    match r {
        Ok(c) => {
            let mut o = obs::O::new(mode, bytes);
            o.s.push('A');
            o.class(&c);
            let _ = std::fmt::write(&mut Nowhere, format_args!("{:?}", c));
            for it in c.constantpool_iter() {
                let _ = std::fmt::write(&mut Nowhere, format_args!("{:?}", it));
            }
            (o.s, String::new())
        }
        Err(e) => ("R".to_string(), format!("{} / {:?}", e, e)),
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let t = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    t.replace(['\n', '\t'], " ")
}

static STARTED_MS: AtomicU64 = AtomicU64::new(0);
static CASE_ID: Mutex<String> = Mutex::new(String::new());

fn cmd_obs(input: &str, output: &str, with_err: bool) {
    let t0 = Instant::now();
    let file = std::fs::File::open(input).expect("cases");
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(output).expect("output");
    let wd = out.try_clone().unwrap();
    std::thread::spawn(move || {
        let mut wd = wd;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = STARTED_MS.load(Ordering::SeqCst);
            let now = t0.elapsed().as_millis() as u64 + 1;
            if s != 0 && now > s + CASE_LIMIT.as_millis() as u64 {
                let id = CASE_ID.lock().unwrap().clone();
                let _ = wd.write_all(format!("{id}\tT\t\n").as_bytes());
                std::process::exit(3);
            }
        }
    });
    std::panic::set_hook(Box::new(|_| ()));
    let lines = std::io::BufReader::new(file).lines();
    let worker = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            for (n, line) in lines.enumerate() {
                let line = line.unwrap();
                let mut parts = line.split(' ');
                let (id, mode, hex) =
                    (parts.next().unwrap(), parts.next().unwrap().as_bytes()[0], parts.next().unwrap_or(""));
                let raw = unhex(hex);
                *CASE_ID.lock().unwrap() = id.to_string();
                STARTED_MS.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let first = Placed::new(&raw, 0);
                let second = Placed::new(&raw, 1 + n % 7);
                let mut flags = String::new();
                // Memory: of the parse alone, before anything is formatted.
                let budget = MEM_CONST + MEM_PER_BYTE * raw.len();
                let base = mem::start(budget);
                let r0 = catch_unwind(AssertUnwindSafe(|| {
                    drop(cafebabe::parse_class_with_options(first.get(), &options(mode)))
                }));
                let peak = mem::stop(base);
                let after = mem::current();
                if after > base + 4096 {
                    flags.push_str(&format!("leak:{} ", after - base));
                }
                let (o, e) = match r0 {
                    Err(p) => (format!("P:{}", panic_text(p)), String::new()),
                    Ok(()) => {
                        let a = catch_unwind(AssertUnwindSafe(|| observe(first.get(), mode, true)));
                        let b = catch_unwind(AssertUnwindSafe(|| observe(second.get(), mode, false)));
                        match (a, b) {
                            (Ok(a), Ok(b)) => {
                                if a != b {
                                    flags.push_str("nondet ");
                                }
                                a
                            }
                            (Err(p), _) | (_, Err(p)) => (format!("P:{}", panic_text(p)), String::new()),
                        }
                    }
                };
                STARTED_MS.store(0, Ordering::SeqCst);
                let e = if with_err { e.replace(['\n', '\t'], " ") } else { String::new() };
                let mut rec = String::with_capacity(o.len() + 64);
                rec.push_str(id);
                rec.push('\t');
                rec.push_str(&o);
                rec.push('\t');
                rec.push_str(flags.trim_end());
                rec.push('\t');
                rec.push_str(&format!("{peak}"));
                rec.push('\t');
                rec.push_str(&e);
                rec.push('\n');
                out.write_all(rec.as_bytes()).unwrap();
            }
        })
        .unwrap();
    worker.join().unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("obs") => cmd_obs(&a[2], &a[3], a.get(4).map(|s| s == "err").unwrap_or(false)),
        Some("names") => special::cmd_names(&a[2], &a[3]),
        Some("iter") => special::cmd_iter(&a[2], &a[3]),
        Some("hist") => special::cmd_hist(&a[2], &a[3], &a[4]),
        Some("opts") => special::cmd_opts(&a[2], &a[3], &a[4]),
        #[cfg(feature = "hooks")]
        Some("locks") => locks::cmd_locks(&a[2], &a[3]),
        #[cfg(feature = "hooks")]
        Some("sched") => locks::cmd_sched(&a[2], &a[3]),
        #[cfg(feature = "sendsync")]
        Some("stress") => threads::cmd_stress(&a[2], &a[3]),
        _ => {
            eprintln!("usage: cbh obs CASES OUT [err]");
            std::process::exit(2);
        }
    }
}
