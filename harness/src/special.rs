//! Conformance drivers for the models that are not about a single parse: class names,
//! iterator histories and parse histories.
use crate::{options, panic_text, unhex};
use crate::obs;
use cafebabe::descriptors::ClassName;
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn lines(path: &str) -> Vec<String> {
    let f = std::fs::File::open(path).expect("input");
    std::io::BufReader::new(f).lines().map(|l| l.unwrap()).collect()
}

fn bytes_json(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// One way of making a class name: what it reports, [] if refused.
fn one_name(text: &str, owned: bool) -> String {
    let at = text.as_ptr() as usize;
    let cow: Cow<'_, str> = if owned { Cow::Owned(text.to_string()) } else { Cow::Borrowed(text) };
    match ClassName::try_from(cow) {
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            "[]".to_string()
        }
        Ok(n) => {
            let deref: String = (*n).to_string();
            let shown = format!("{}", n);
            let _ = format!("{:?}", n);
            let copy = n.clone();
            let len = n.len();
            let back: Cow<'_, str> = n.into();
            let borrowed = match &back {
                Cow::Borrowed(b) => b.as_ptr() as usize == at,
                Cow::Owned(_) => false,
            };
            let copy_text: Cow<'_, str> = copy.into();
            format!(
                "[{},{},{},{},{},{}]",
                bytes_json(deref.as_bytes()),
                bytes_json(shown.as_bytes()),
                bytes_json(back.as_bytes()),
                bytes_json(copy_text.as_bytes()),
                len,
                if borrowed { "\"borrowed\"" } else { "\"owned\"" }
            )
        }
    }
}

/// How two class names relate: [eq, ne, order, partial order, hashes of their texts, <, <=, >, >=,
/// the greater one], [] unless both exist.
fn relation(a: &str, b: &str, owned: bool) -> String {
    let x = ClassName::try_from(Cow::Borrowed(a));
    let y = ClassName::try_from(if owned { Cow::Owned(b.to_string()) } else { Cow::Borrowed(b) });
    match (x, y) {
        (Ok(x), Ok(y)) => format!(
            "[{},{},{},{},{},{},{},{},{},{}]",
            (x == y) as u8,
            (x != y) as u8,
            x.cmp(&y) as i8,
            x.partial_cmp(&y).map_or(9, |o| o as i8),
            (hash_of(&x) == hash_of(&a) && hash_of(&y) == hash_of(&b)) as u8,
            (x < y) as u8,
            (x <= y) as u8,
            (x > y) as u8,
            (x >= y) as u8,
            bytes_json(x.clone().max(y.clone()).as_bytes())
        ),
        _ => "[]".to_string(),
    }
}

/// Lines "id hexA hexB" of UTF-8 texts.
pub fn cmd_names(input: &str, output: &str) {
    let mut out = std::fs::File::create(output).expect("output");
    for line in lines(input) {
        let p: Vec<&str> = line.split(' ').collect();
        let a = String::from_utf8(unhex(p[1])).unwrap();
        let b = String::from_utf8(unhex(p[2])).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            format!("[{},{},{},{}]", one_name(&a, false), one_name(&a, true), relation(&a, &b, false), relation(&a, &b, true))
        }))
        .unwrap_or_else(|p| format!("P:{}", panic_text(p)));
        out.write_all(format!("{}\t{}\n", p[0], r).as_bytes()).unwrap();
    }
}

/// Lines "id classhex op,op,..."; one result per operation, then the class as it is at the end.
///   cK create  nK next  tK nth(1)  rK the rest  dK drop  sK next 70000 times  zK size_hint ok?
///   uK nth(3)  mK nth(MAX)  eK step_by(2)  fK skip(2).next  gK for_each  kK count  lK last (g, k, l consume it)
pub fn cmd_iter(input: &str, output: &str) {
    let mut out = std::fs::File::create(output).expect("output");
    let mut last = (String::new(), Vec::new());
    for line in lines(input) {
        let p: Vec<&str> = line.split(' ').collect();
        if last.0 != p[1] {
            last = (p[1].to_string(), unhex(p[1]));
        }
        let bytes = &last.1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let c = match cafebabe::parse_class(bytes) {
                Ok(c) => c,
                Err(e) => return format!("R {}", e),
            };
            let show = |it: &cafebabe::constant_pool::ConstantPoolItem<'_>| {
                let mut o = obs::O::new(b'v', bytes);
                o.item(it);
                o.s
            };
            let mut its: Vec<Option<cafebabe::constant_pool::ConstantPoolIter<'_>>> = (0..8).map(|_| None).collect();
            let mut s = String::new();
            for op in p[2].split(',') {
                let k = (op.as_bytes()[1] - b'0') as usize;
                let res = match op.as_bytes()[0] {
                    b'c' => {
                        its[k] = Some(c.constantpool_iter());
                        ".".to_string()
                    }
                    b'd' => {
                        its[k] = None;
                        ".".to_string()
                    }
                    b'n' => its[k].as_mut().unwrap().next().map_or("-".to_string(), |x| show(&x)),
                    b't' => its[k].as_mut().unwrap().nth(1).map_or("-".to_string(), |x| show(&x)),
                    b'u' => its[k].as_mut().unwrap().nth(3).map_or("-".to_string(), |x| show(&x)),
                    b'm' => its[k].as_mut().unwrap().nth(usize::MAX).map_or("-".to_string(), |x| show(&x)),
                    b'e' => {
                        let v: Vec<String> = its[k].as_mut().unwrap().by_ref().step_by(2).map(|x| show(&x)).collect();
                        format!("[{}]", v.join(","))
                    }
                    b'f' => its[k].as_mut().unwrap().by_ref().skip(2).next().map_or("-".to_string(), |x| show(&x)),
                    b'g' => {
                        let mut v: Vec<String> = Vec::new();
                        its[k].take().unwrap().for_each(|x| v.push(show(&x)));
                        format!("[{}]", v.join(","))
                    }
                    b'k' => format!("{}", its[k].take().unwrap().count()),
                    b'l' => its[k].take().unwrap().last().map_or("-".to_string(), |x| show(&x)),
                    b'r' => {
                        let v: Vec<String> = its[k].as_mut().unwrap().by_ref().map(|x| show(&x)).collect();
                        format!("[{}]", v.join(","))
                    }
                    b's' => {
                        let it = its[k].as_mut().unwrap();
                        let n = (0..70000).filter(|_| it.next().is_some()).count();
                        format!("{}", n)
                    }
                    b'z' => {
                        let it = its[k].as_mut().unwrap();
                        let (lo, hi) = it.size_hint();
                        // the bounds are checked by the driver against what is left
                        format!("{}:{}", lo, hi.map_or(u64::MAX, |x| x as u64))
                    }
                    _ => panic!("bad op"),
                };
                s.push_str(&res);
                s.push('\x01');
            }
            let mut o = obs::O::new(b'v', bytes);
            o.s.push('A');
            o.class(&c);
            drop(its);
            s + &o.s
        }))
        .unwrap_or_else(|p| format!("P:{}", panic_text(p)));
        out.write_all(format!("{}\t{}\n", p[0], r.replace('\n', " ")).as_bytes()).unwrap();
    }
}

/// INPUTS: lines of hex.  HIST: lines of tokens dK (options K made new), sK:V (bytecode of
/// options K set to V), pK:I=V (input I parsed with options K, bytecode specified to be V),
/// qI=1 (input I parsed without options).  Output: every distinct outcome of (I, V).
pub fn cmd_opts(inputs: &str, hist: &str, output: &str) {
    let ins: Vec<Vec<u8>> = lines(inputs).iter().map(|l| unhex(l)).collect();
    let mut seen: BTreeMap<(usize, usize), Vec<(String, String)>> = BTreeMap::new();
    for (n, line) in lines(hist).iter().enumerate() {
        let mut opts: Vec<Option<cafebabe::ParseOptions>> = (0..4).map(|_| None).collect();
        for (j, t) in line.split_whitespace().enumerate() {
            let nums: Vec<usize> = t[1..].split([':', '=']).map(|x| x.parse().unwrap()).collect();
            let (i, on) = match t.as_bytes()[0] {
                b'd' => {
                    opts[nums[0]] = Some(cafebabe::ParseOptions::default());
                    continue;
                }
                b's' => {
                    opts[nums[0]].as_mut().unwrap().parse_bytecode(nums[1] == 1);
                    continue;
                }
                b'p' => (nums[1] - 1, nums[2]),
                _ => (nums[0] - 1, 1),
            };
            let b = &ins[i];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let r = if t.starts_with('q') {
                    cafebabe::parse_class(b)
                } else {
                    cafebabe::parse_class_with_options(b, opts[nums[0]].as_ref().unwrap())
                };
                match r {
                    Ok(c) => {
                        let mut o = obs::O::new(b'a', b);
                        o.s.push('A');
                        o.class(&c);
                        o.s
                    }
                    Err(_) => "R".to_string(),
                }
            }))
            .unwrap_or_else(|p| format!("P:{}", panic_text(p)));
            let v = seen.entry((i, on)).or_default();
            if !v.iter().any(|(x, _)| *x == r) {
                v.push((r, format!("{n} {j}")));
            }
        }
    }
    let mut out = std::fs::File::create(output).expect("output");
    for ((i, on), v) in &seen {
        for (o, at) in v {
            out.write_all(format!("{}\t{}\t{}\t{}\n", i, on, o, at).as_bytes()).unwrap();
        }
    }
}

type Seen = BTreeMap<usize, Vec<(String, String, String)>>;

fn note(seen: &mut Seen, i: usize, o: String, e: String, at: String) {
    let v = seen.entry(i).or_default();
    if !v.iter().any(|(x, y, _)| *x == o && *y == e) {
        v.push((o, e, at));
    }
}

/// INPUTS: lines "mode hex"; HIST: lines of tokens "i", "i+" (1-based input, + = the result
/// is kept until the end of the line and looked at again), "i*n" (parsed n times) or "i@"
/// (copied into the history's one buffer and parsed there).  Every line is one history on one
/// thread; all the lines are run in order on one thread first, then each on a thread of its
/// own at the same time.  Output: every distinct outcome of every input and where it was seen first.
pub fn cmd_hist(inputs: &str, hist: &str, output: &str) {
    let ins: Vec<(u8, Vec<u8>)> = lines(inputs)
        .iter()
        .map(|l| {
            let mut p = l.split(' ');
            (p.next().unwrap().as_bytes()[0], unhex(p.next().unwrap_or("")))
        })
        .collect();
    // (input, kept, times; 0 times: in the buffer)
    type Step = (usize, bool, usize);
    let hs: Vec<Vec<Step>> = lines(hist)
        .iter()
        .map(|l| {
            l.split_whitespace()
                .map(|t| match t.split_once('*') {
                    Some((i, n)) => (i.parse::<usize>().unwrap() - 1, false, n.parse().unwrap()),
                    None if t.ends_with('@') => (t.trim_end_matches('@').parse::<usize>().unwrap() - 1, false, 0),
                    None => (t.trim_end_matches('+').parse::<usize>().unwrap() - 1, t.ends_with('+'), 1),
                })
                .collect()
        })
        .collect();
    fn outcome_here(b: &[u8], mode: u8) -> (String, String) {
        let mut o = obs::O::new(mode, b);
        o.s.push('A');
        match if mode == b'v' { cafebabe::parse_class(b) } else { cafebabe::parse_class_with_options(b, &options(mode)) } {
            Ok(c) => {
                o.class(&c);
                (o.s, String::new())
            }
            Err(e) => ("R".to_string(), format!("{} / {:?}", e, e)),
        }
    }
    fn outcome<'a>(b: &'a [u8], mode: u8, keep: bool) -> (String, String, Option<&'a cafebabe::ClassFile<'a>>) {
        fn parse<'b>(b: &'b [u8], mode: u8) -> Result<cafebabe::ClassFile<'b>, (String, String)> {
            let r = if mode == b'v' { cafebabe::parse_class(b) } else { cafebabe::parse_class_with_options(b, &options(mode)) };
            r.map_err(|e| ("R".to_string(), format!("{} / {:?}", e, e)))
        }
        let mut o = obs::O::new(mode, b);
        o.s.push('A');
        if keep {
            match parse(b, mode) {
                Ok(c) => {
                    let c: &'a cafebabe::ClassFile<'a> = Box::leak(Box::new(c));
                    o.class(c);
                    (o.s, String::new(), Some(c))
                }
                Err((r, e)) => (r, e, None),
            }
        } else {
            match parse(b, mode) {
                Ok(c) => {
                    o.class(&c);
                    (o.s, String::new(), None)
                }
                Err((r, e)) => (r, e, None),
            }
        }
    }
    let run = |h: &[Step], seen: &mut Seen, who: &str| {
        let mut kept = Vec::new();
        let mut buffer = vec![0u8; ins.iter().map(|x| x.1.len()).max().unwrap_or(0)];
        for (n, (i, keep, times)) in h.iter().enumerate() {
            let (mode, b) = &ins[*i];
            for _ in 1..*times {
                let _ = catch_unwind(AssertUnwindSafe(|| cafebabe::parse_class_with_options(b, &options(*mode)).is_ok()));
            }
            if *times == 0 {
                buffer[..b.len()].copy_from_slice(b);
                let there = &buffer[..b.len()];
                match catch_unwind(AssertUnwindSafe(|| outcome_here(there, *mode))) {
                    Ok((o, e)) => note(seen, *i, o, e, format!("{who} step {n} in the buffer")),
                    Err(p) => note(seen, *i, format!("P:{}", panic_text(p)), String::new(), format!("{who} step {n} in the buffer")),
                }
                continue;
            }
            match catch_unwind(AssertUnwindSafe(|| outcome(b, *mode, *keep))) {
                Ok((o, e, c)) => {
                    note(seen, *i, o, e, format!("{who} step {n}"));
                    if let Some(c) = c {
                        kept.push((*i, c));
                    }
                }
                Err(p) => note(seen, *i, format!("P:{}", panic_text(p)), String::new(), format!("{who} step {n}")),
            }
        }
        for (i, c) in &kept {
            let mut o = obs::O::new(ins[*i].0, &ins[*i].1);
            o.s.push('A');
            o.class(c);
            note(seen, *i, o.s, String::new(), format!("{who} kept to the end"));
        }
    };
    let mut seen = Seen::new();
    for (k, h) in hs.iter().enumerate() {
        run(h, &mut seen, &format!("history {k}"));
    }
    let parts: Vec<Seen> = std::thread::scope(|s| {
        let hd: Vec<_> = hs
            .iter()
            .enumerate()
            .map(|(k, h)| {
                let run = &run;
                s.spawn(move || {
                    let mut seen = Seen::new();
                    run(h, &mut seen, &format!("thread {k}"));
                    seen
                })
            })
            .collect();
        hd.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts {
        for (i, v) in p {
            for (o, e, at) in v {
                note(&mut seen, i, o, e, at);
            }
        }
    }
    let mut out = std::fs::File::create(output).expect("output");
    for (i, v) in &seen {
        for (o, e, at) in v {
            out.write_all(format!("{}\t{}\t{}\t{}\n", i + 1, o, e.replace(['\n', '\t'], " "), at).as_bytes()).unwrap();
        }
    }
}
