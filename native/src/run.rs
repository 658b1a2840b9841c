//! Case runner: enumerates inputs of each kind, catches panics and hangs, writes a JSON report.
use crate::spec::{hex, unhex};
use std::collections::HashSet;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Ok(true): property instance non-trivially exercised; Ok(false): vacuous (eg. both reject early)
pub type R = Result<bool, String>;

pub struct Kind {
    pub prop: &'static str,
    pub name: &'static str,
    pub domain: &'static str,
    pub check: fn(&[u8]) -> R,
    pub gen: fn(&mut G),
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.ibyte()).collect()
    }
    /// "interesting" byte
    pub fn ibyte(&mut self) -> u8 {
        if self.chance(1, 2) {
            self.byte()
        } else {
            self.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0x81, 0x82, 0xff, 0xfe, 0x30, 0x31, 0x24, 0xa0, 0x1f, 0x41])
        }
    }
}

pub struct G<'a> {
    emit: &'a mut dyn FnMut(&[u8]) -> bool,
    pub rng: Rng,
    pub thorough: bool,
    pub stop: bool,
}

impl G<'_> {
    pub fn case(&mut self, b: &[u8]) {
        if !self.stop {
            self.stop = !(self.emit)(b);
        }
    }
    /// number of random cases
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough {
            quick.saturating_mul(20)
        } else {
            quick
        }
    }
    /// all strings of length exactly `len` over `alpha`
    pub fn words(&mut self, alpha: &[u8], len: usize) {
        let mut idx = vec![0usize; len];
        let mut w = vec![alpha[0]; len];
        loop {
            self.case(&w);
            if self.stop {
                return;
            }
            let mut i = len;
            loop {
                if i == 0 {
                    return;
                }
                i -= 1;
                idx[i] += 1;
                if idx[i] < alpha.len() {
                    w[i] = alpha[idx[i]];
                    break;
                }
                idx[i] = 0;
                w[i] = alpha[0];
            }
        }
    }
    pub fn all(&mut self, len: usize) {
        let a: Vec<u8> = (0..=255).collect();
        self.words(&a, len);
    }
    pub fn upto(&mut self, alpha: &[u8], max: usize) {
        for l in 0..=max {
            self.words(alpha, l);
        }
    }
    pub fn with_prefix(&mut self, prefix: &[u8], alpha: &[u8], len: usize) {
        let mut out: Vec<Vec<u8>> = vec![];
        {
            let mut f = |b: &[u8]| {
                let mut v = prefix.to_vec();
                v.extend_from_slice(b);
                out.push(v);
                true
            };
            let mut g = G { emit: &mut f, rng: Rng(0), thorough: false, stop: false };
            g.words(alpha, len);
        }
        for v in out {
            self.case(&v);
        }
    }
}

pub fn run_case(k: &Kind, b: &[u8]) -> R {
    match catch_unwind(AssertUnwindSafe(|| (k.check)(b))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(format!("panic: {m}"))
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Rep {
    name: &'static str,
    domain: &'static str,
    evals: u64,
    nontrivial: u64,
    known: Vec<String>,
    viol: Vec<(String, String)>,
    samples: Vec<String>,
    truncated: bool,
    wall: f64,
}

fn write_report(path: &str, prop: &str, reps: &[Rep], hang: Option<(&str, &str)>) {
    let mut s = String::new();
    s.push_str(&format!("{{\"property\":{},\"kinds\":[", js(prop)));
    for (i, r) in reps.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!(
            "{{\"kind\":{},\"domain\":{},\"evaluations\":{},\"nontrivial\":{},\"truncated\":{},\"wall_s\":{:.2},\"samples\":[{}],\"known\":[{}],\"violations\":[{}]}}",
            js(r.name),
            js(r.domain),
            r.evals,
            r.nontrivial,
            r.truncated,
            r.wall,
            r.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            r.known.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            r.viol.iter().map(|(h, m)| format!("{{\"hex\":{},\"msg\":{}}}", js(h), js(m))).collect::<Vec<_>>().join(",")
        ));
    }
    s.push_str("],\"hang\":");
    match hang {
        Some((k, h)) => s.push_str(&format!("{{\"kind\":{},\"hex\":{}}}", js(k), js(h))),
        None => s.push_str("null"),
    }
    s.push_str("}\n");
    std::fs::write(path, s).expect("write report");
}

struct Slot {
    start: AtomicU64, // ms since t0, 0 = idle
    case: Mutex<(usize, Vec<u8>)>,
}

const HANG_MS: u64 = 20_000;

#[allow(clippy::too_many_arguments)]
pub fn run_prop(
    kinds: &'static [Kind],
    prop: &str,
    thorough: bool,
    seed: u64,
    out: &str,
    known: &HashSet<(String, String, String)>,
    trace: Option<&str>,
    only: Option<&str>,
) -> i32 {
    let sel: Vec<&'static Kind> =
        kinds.iter().filter(|k| k.prop == prop && only.map(|o| o == k.name).unwrap_or(true)).collect();
    let t0 = Instant::now();
    let nthreads = if trace.is_some() { 1 } else { 8 };
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads).map(|_| Slot { start: AtomicU64::new(0), case: Mutex::new((0, vec![])) }).collect(),
    );
    let next = Arc::new(AtomicUsize::new(0));
    let reps: Arc<Mutex<Vec<Rep>>> = Arc::new(Mutex::new(vec![]));
    let deadline = Duration::from_secs(std::env::var("NATIVE_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 180 } else { 45 }));
    let mut handles = vec![];
    for t in 0..nthreads {
        let (slots, next, reps, sel, known) = (slots.clone(), next.clone(), reps.clone(), sel.clone(), known.clone());
        let trace = trace.map(|s| s.to_string());
        let prop = prop.to_string();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut tf = trace.map(|p| std::fs::File::create(p).unwrap());
                    loop {
                        // every kind is split into `nthreads` shards (same generation, disjoint cases)
                        let task = next.fetch_add(1, Ordering::SeqCst);
                        if task >= sel.len() * nthreads {
                            break;
                        }
                        let (i, shard) = (task / nthreads, task % nthreads);
                        let k = sel[i];
                        let started = Instant::now();
                        let mut rep = Rep {
                            name: k.name,
                            domain: k.domain,
                            evals: 0,
                            nontrivial: 0,
                            known: vec![],
                            viol: vec![],
                            samples: vec![],
                            truncated: false,
                            wall: 0.0,
                        };
                        let mut h = seed;
                        for c in k.name.bytes() {
                            h = h.wrapping_mul(31).wrapping_add(c as u64);
                        }
                        {
                            let slot = &slots[t];
                            let mut count = 0usize;
                            let mut emit = |b: &[u8]| -> bool {
                                count += 1;
                                if (count - 1) % nthreads != shard {
                                    return true;
                                }
                                {
                                    let mut c = slot.case.lock().unwrap();
                                    c.0 = i;
                                    c.1.clear();
                                    c.1.extend_from_slice(b);
                                }
                                slot.start.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                                if let Some(f) = tf.as_mut() {
                                    use std::io::Seek;
                                    let _ = f.seek(std::io::SeekFrom::Start(0));
                                    let _ = f.write_all(format!("{} {}\n", k.name, hex(b)).as_bytes());
                                }
                                rep.evals += 1;
                                match run_case(k, b) {
                                    Ok(nt) => {
                                        if nt {
                                            rep.nontrivial += 1;
                                            if rep.nontrivial.is_power_of_two() && rep.samples.len() < 6 && rep.nontrivial > 4 {
                                                rep.samples.push(hex(&b[..b.len().min(64)]));
                                            }
                                        }
                                    }
                                    Err(m) => {
                                        let hx = hex(b);
                                        if known.contains(&(prop.clone(), k.name.to_string(), hx.clone())) {
                                            rep.known.push(hx);
                                        } else {
                                            rep.viol.push((hx, m));
                                        }
                                    }
                                }
                                slot.start.store(0, Ordering::SeqCst);
                                if rep.viol.len() >= 8 {
                                    return false;
                                }
                                if rep.evals % 64 == 0 && started.elapsed() > deadline {
                                    rep.truncated = true;
                                    return false;
                                }
                                true
                            };
                            let mut g = G { emit: &mut emit, rng: Rng::new(h), thorough, stop: false };
                            (k.gen)(&mut g);
                            // listed known findings are always re-run
                            for (p, kn, hx) in known.iter() {
                                if p == &prop && kn == k.name {
                                    for _ in 0..nthreads {
                                        g.case(&unhex(hx));
                                    }
                                }
                            }
                        }
                        rep.known.sort();
                        rep.known.dedup();
                        rep.wall = started.elapsed().as_secs_f64();
                        let mut reps = reps.lock().unwrap();
                        match reps.iter_mut().find(|r| r.name == rep.name) {
                            None => reps.push(rep),
                            Some(r) => {
                                r.evals += rep.evals;
                                r.nontrivial += rep.nontrivial;
                                r.known.extend(rep.known);
                                r.known.sort();
                                r.known.dedup();
                                r.viol.extend(rep.viol);
                                r.viol.sort_by_key(|v| v.0.len());
                                r.viol.truncate(8);
                                r.samples.extend(rep.samples);
                                r.samples.truncate(6);
                                r.truncated |= rep.truncated;
                                r.wall = r.wall.max(rep.wall);
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        for s in slots.iter() {
            let st = s.start.load(Ordering::SeqCst);
            if st != 0 && now > st + HANG_MS {
                let (i, b) = s.case.lock().unwrap().clone();
                let hx = hex(&b);
                let r = reps.lock().unwrap();
                write_report(out, prop, &r, Some((sel[i].name, &hx)));
                return 3;
            }
        }
    }
    for h in handles {
        if h.join().is_err() {
            eprintln!("harness thread panicked");
            return 4;
        }
    }
    let mut r = reps.lock().unwrap();
    r.sort_by_key(|r| r.name);
    write_report(out, prop, &r, None);
    if r.iter().any(|r| !r.viol.is_empty()) {
        1
    } else {
        0
    }
}
