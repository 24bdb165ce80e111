//! Small engine shared by all property modules: seeded PRNG, case bookkeeping,
//! panic capture, hang watchdog and JSON output.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn u32(&mut self, n: u32) -> u32 {
        self.below(n as u64) as u32
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub struct Viol {
    pub key: String,
    pub what: String,
    pub case: String,
}

struct Cur {
    start: Instant,
    desc: String,
    active: bool,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub sections: Vec<(String, u64)>,
    cur: Arc<Mutex<Cur>>,
    pub out: String,
    started: Instant,
    pub budget: Duration,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        let mut r: String = s.chars().take(n).collect();
        r.push_str("…");
        r
    } else {
        s.to_string()
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, out: &str, budget: u64) -> Self {
        let cur = Arc::new(Mutex::new(Cur { start: Instant::now(), desc: String::new(), active: false }));
        let c2 = cur.clone();
        let (p2, o2) = (prop.to_string(), out.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = c2.lock().unwrap();
            if c.active && c.start.elapsed() > Duration::from_secs(40) {
                let j = format!(
                    "{{\"property\":{},\"evaluations\":1,\"distinct_nontrivial\":1,\"samples\":[],\"sections\":{{}},\"violations\":[{{\"key\":\"hang\",\"what\":\"call did not return within 40 s\",\"case\":{}}}]}}",
                    js(&p2), js(&c.desc)
                );
                let _ = std::fs::write(&o2, j);
                std::process::exit(0);
            }
        });
        Ctx {
            prop: prop.to_string(), thorough, seed, evaluations: 0, nontrivial: 0,
            distinct: HashSet::new(), samples: vec![], viols: vec![], sections: vec![], cur,
            out: out.to_string(), started: Instant::now(), budget: Duration::from_secs(budget),
        }
    }
    pub fn rng(&self, tag: &str) -> Rng {
        Rng::new(self.seed ^ fnv(tag))
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    pub fn time_left(&self) -> bool {
        self.started.elapsed() < self.budget
    }
    pub fn full(&self) -> bool {
        self.viols.len() >= 25
    }
    pub fn section(&mut self, name: &str) {
        self.sections.push((name.to_string(), self.evaluations));
    }
    /// Runs one case. `f` returns Err(what) if the executable contract fails;
    /// a panic is a failure as well.
    pub fn case<F>(&mut self, key: &str, desc: String, f: F)
    where
        F: FnOnce() -> Result<(), String>,
    {
        if self.full() {
            return;
        }
        self.evaluations += 1;
        if self.distinct.len() < 2_000_000 && self.distinct.insert(fnv(&desc)) {
            self.nontrivial += 1;
        }
        let n = self.evaluations;
        if n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000 {
            self.samples.push(format!("[{}] {}", key, clip(&desc, 400)));
        }
        {
            let mut c = self.cur.lock().unwrap();
            c.start = Instant::now();
            c.desc = desc.clone();
            c.active = true;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.cur.lock().unwrap().active = false;
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(w)) => w,
            Err(e) => format!("panic: {}", panic_text(e)),
        };
        self.viols.push(Viol { key: key.to_string(), what: clip(&what, 3000), case: clip(&desc, 6000) });
    }
    pub fn finish(mut self) {
        let mut s = String::from("{");
        let total = self.evaluations;
        s.push_str(&format!("\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},", js(&self.prop), total, self.nontrivial));
        s.push_str("\"sections\":{");
        let secs = std::mem::take(&mut self.sections);
        for (i, (n, st)) in secs.iter().enumerate() {
            let end = secs.get(i + 1).map(|v| v.1).unwrap_or(total);
            if i > 0 { s.push(','); }
            s.push_str(&format!("{}:{}", js(n), end - st));
        }
        s.push_str("},\"samples\":[");
        s.push_str(&self.samples.iter().map(|v| js(v)).collect::<Vec<_>>().join(","));
        s.push_str("],\"violations\":[");
        s.push_str(&self.viols.iter().map(|v| format!("{{\"key\":{},\"what\":{},\"case\":{}}}", js(&v.key), js(&v.what), js(&v.case))).collect::<Vec<_>>().join(","));
        s.push_str("]}");
        std::fs::write(&self.out, s).expect("write result");
    }
}

#[macro_export]
macro_rules! ck {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); } }};
}
