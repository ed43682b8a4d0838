//! Shared driver for the contract-replay harnesses: deterministic case streams, panic capture,
//! hang watchdog and journal mode.  A case is one call sequence against the real crate together
//! with the executable form of the contract it must satisfy.
#![allow(dead_code)]
use std::{
    io::Write,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn text(&mut self, alphabet: &[char], max_chars: usize) -> String {
        let n = self.below(max_chars + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    family: String,
    idx: u64,
    cases: u64,
    nontrivial: u64,
    only: Option<(String, u64)>,
    journal: Option<std::fs::File>,
    start: Instant,
    families: Vec<(String, u64)>,
    known: Vec<String>,
    reported: Vec<String>,
}

pub fn boundaries(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    /// args: <prop> [--thorough] [--seed N] [--only family:idx] [--journal path] [--known key]...
    pub fn from_args() -> Ctx {
        let mut c = Ctx {
            prop: String::new(),
            thorough: false,
            seed: 1,
            family: String::new(),
            idx: 0,
            cases: 0,
            nontrivial: 0,
            only: None,
            journal: None,
            start: Instant::now(),
            families: vec![],
            known: vec![],
            reported: vec![],
        };
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            match a.as_str() {
                "--thorough" => c.thorough = true,
                "--seed" => c.seed = it.next().unwrap().parse().unwrap(),
                "--only" => {
                    let v = it.next().unwrap();
                    let (f, i) = v.rsplit_once(':').unwrap();
                    c.only = Some((f.to_string(), i.parse().unwrap()));
                }
                "--journal" => c.journal = Some(std::fs::File::create(it.next().unwrap()).unwrap()),
                "--known" => c.known.push(it.next().unwrap()),
                _ => c.prop = a,
            }
        }
        if std::env::var_os("HARNESS_BACKTRACE").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        std::thread::spawn(|| {
            let mut last = u64::MAX;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let p = PROGRESS.load(Ordering::Relaxed);
                if p != last {
                    last = p;
                    since = Instant::now();
                }
                else if since.elapsed() > Duration::from_secs(30) {
                    println!("HANG");
                    let _ = std::io::stdout().flush();
                    std::process::abort();
                }
            }
        });
        c
    }

    pub fn rng(&self, family: &str) -> Rng {
        let mut h = self.seed ^ 0xcbf29ce484222325;
        for b in family.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng::new(h)
    }

    pub fn family(&mut self, name: &str) {
        self.close_family();
        self.family = name.to_string();
        self.idx = 0;
    }
    fn close_family(&mut self) {
        if !self.family.is_empty() {
            self.families.push((std::mem::take(&mut self.family), self.idx));
        }
    }
    /// Scale of random sampling for the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick * 2 }
    }

    /// Runs one case: `desc` renders the concrete input, `f` executes the contract against the real code.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let idx = self.idx;
        self.idx += 1;
        if let Some((fam, i)) = &self.only {
            if fam != &self.family || *i != idx {
                return;
            }
            println!("CASE {}:{} {}", self.family, idx, desc());
        }
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        self.cases += 1;
        if let Some(j) = &mut self.journal {
            if self.cases % 20000 == 0 {
                // only the last line is read
                let _ = j.set_len(0);
                let _ = std::io::Seek::rewind(j);
            }
            let _ = writeln!(j, "{{\"family\":{},\"idx\":{},\"input\":{}}}", jstr(&self.family), idx, jstr(&desc()));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let why = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic: {m}")
            }
        };
        // A failing case may carry a finding key as "[key] reason".
        if let Some(k) = why.strip_prefix('[').and_then(|w| w.split_once(']')).map(|x| x.0.to_string()) {
            if self.known.contains(&k) {
                if !self.reported.contains(&k) {
                    println!("KNOWN {}", jstr(&k));
                    self.reported.push(k);
                }
                return;
            }
        }
        println!(
            "FAIL {{\"family\":{},\"idx\":{},\"seed\":{},\"thorough\":{},\"input\":{},\"why\":{}}}",
            jstr(&self.family),
            idx,
            self.seed,
            self.thorough,
            jstr(&desc()),
            jstr(&why)
        );
        let _ = std::io::stdout().flush();
        std::process::exit(10);
    }

    pub fn finish(mut self) -> ! {
        self.close_family();
        let fams: Vec<String> = self.families.iter().map(|(n, c)| format!("{}:{}", jstr(n), c)).collect();
        println!("DONE {{\"cases\":{},\"wall\":{:.1},\"families\":{{{}}}}}", self.cases, self.start.elapsed().as_secs_f64(), fams.join(","));
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($t:tt)*) => { match (&$a, &$b) { (a, b) => if *a != *b { return Err(format!("{}: got {:?}, contract requires {:?}", format!($($t)*), a, b)); } } };
}

/// All strings over `alphabet` with at most `max` characters.
pub fn all_texts(alphabet: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut nx = vec![];
        for s in &last {
            for c in alphabet {
                let mut t = s.clone();
                t.push(*c);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}
