//! Trace writing, panic capture, watchdog, deterministic random numbers.
use serde_json::Value;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// xorshift64*: all randomness of the drivers comes from VERIF_SEED through this.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

static LAST: AtomicU64 = AtomicU64::new(0); // ms since start of the running guarded call, 0 = idle
static INTENT: Mutex<String> = Mutex::new(String::new());
static OUT: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);
static COUNT: AtomicU64 = AtomicU64::new(0);


/// Opens the trace and starts the watchdog: a guarded call running for more than `limit` seconds is
/// recorded as an event with st="hang" and ends the run (the trace so far is still validated).
pub fn open(path: &str, limit: u64) {
    *OUT.lock().unwrap() = Some(std::io::BufWriter::with_capacity(
        1 << 20,
        std::fs::File::create(path).expect("trace file"),
    ));
    start();
    std::panic::set_hook(Box::new(|_| {}));
    let side = format!("{}.intent", path);
    let _ = std::fs::remove_file(&side);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let t = LAST.load(Ordering::SeqCst);
        if t != 0 {
            let now = start().elapsed().as_millis() as u64;
            if now > t + limit * 1000 {
                let s = INTENT.lock().unwrap().clone();
                let mut v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
                if let Value::Object(o) = &mut v {
                    o.insert("st".into(), "hang".into());
                }
                let mut g = OUT.lock().unwrap();
                let w = g.as_mut().unwrap();
                writeln!(w, "{}", v).unwrap();
                w.flush().unwrap();
                eprintln!("HANG {}", v);
                std::process::exit(0);
            }
        }
    });
}

/// Emits one event and returns its 1-based index in the trace.
pub fn emit(v: &Value) -> u64 {
    let mut g = OUT.lock().unwrap();
    let w = g.as_mut().unwrap();
    serde_json::to_writer(&mut *w, v).unwrap();
    w.write_all(b"\n").unwrap();
    COUNT.fetch_add(1, Ordering::SeqCst) + 1
}
pub fn count() -> u64 {
    COUNT.load(Ordering::SeqCst)
}
pub fn close() {
    let mut g = OUT.lock().unwrap();
    if let Some(w) = g.as_mut() {
        w.flush().unwrap();
    }
}

thread_local!(static MSG: RefCell<String> = RefCell::new(String::new()));

/// Runs `f`, which exercises the code under test. `intent` describes the call: it is what gets recorded if
/// the call never returns. A panic is an observation, not an error.
pub fn guard<R>(intent: &Value, f: impl FnOnce() -> R) -> Result<R, String> {
    *INTENT.lock().unwrap() = intent.to_string();
    if std::env::var("MBV_TRACE_INTENT").is_ok() {
        eprintln!("INTENT {}", intent);
    }
    LAST.store(start().elapsed().as_millis().max(1) as u64, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    LAST.store(0, Ordering::SeqCst);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// A crash (abort, stack overflow) leaves this file behind naming the call that was running.
pub fn write_intent_file(path: &str) {
    let s = INTENT.lock().unwrap().clone();
    let _ = std::fs::write(format!("{}.intent", path), s);
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub scripts: Option<String>,
    pub n: Option<usize>,
}
pub fn args() -> (String, Args) {
    let mut a = Args {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false),
        out: "/dev/stdout".into(),
        scripts: None,
        n: None,
    };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 2;
    while i < v.len() {
        match v[i].as_str() {
            "--out" => a.out = v[i + 1].clone(),
            "--seed" => a.seed = v[i + 1].parse().unwrap(),
            "--scripts" => a.scripts = Some(v[i + 1].clone()),
            "--n" => a.n = Some(v[i + 1].parse().unwrap()),
            "--tier" => a.thorough = v[i + 1] == "thorough",
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    (v.get(1).cloned().unwrap_or_default(), a)
}

fn start() -> Instant {
    static S: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *S.get_or_init(Instant::now)
}

/// A set of behaviours (JSON arrays of operations, one per line) as a prefix tree.
#[derive(Default)]
pub struct Trie {
    pub kids: std::collections::BTreeMap<String, (Value, Trie)>,
}
impl Trie {
    pub fn read(path: &str) -> Trie {
        let mut t = Trie::default();
        for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
            let Ok(Value::Array(ops)) = serde_json::from_str::<Value>(line) else { continue };
            let mut c = &mut t;
            for o in ops {
                c = &mut c.kids.entry(o.to_string()).or_insert_with(|| (o.clone(), Trie::default())).1;
            }
        }
        t
    }
}
