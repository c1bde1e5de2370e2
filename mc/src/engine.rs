use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Seconds one single state may take before its transition counts as non-terminating. The code under test needs
/// microseconds at most, so this is a factor of about 10^7 above what is normal.
const HANG_SECS: u64 = 25;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// What one worker saw of one chunk of states.
#[derive(Default)]
pub struct Rep {
    idx: u64,
    slot: usize,
    states: u64,
    skipped: u64,
    calls: u64,
    cmps: u64,
    nontrivial: u64,
    fail: Option<(u64, String)>,
    known: Vec<(usize, u64, u64, String)>, // finding, count, first index, example
    buckets: Vec<u64>,
    worst: f64,
    sample: Option<(u64, String)>,
    want_sample: bool,
}

impl Rep {
    /// This state lies outside the domain the property speaks about. Must be called before any library call.
    #[inline(always)]
    pub fn skip(&mut self) {
        self.skipped += 1;
        self.states = self.states.wrapping_sub(1);
    }
    /// `n` transitions (calls into the crate under test) were taken.
    #[inline(always)]
    pub fn calls(&mut self, n: u64) {
        self.calls += n;
    }
    /// `n` more states were reached from the start state; shows that the exploration is alive.
    #[inline(always)]
    pub fn reached(&mut self, n: u64) {
        self.states += n;
        SLOTS[self.slot].beat.fetch_add(1, Relaxed);
    }
    /// One observation agreed with the model; `digest` identifies the outcome, `nontrivial` whether it is interesting.
    #[inline(always)]
    pub fn seen(&mut self, digest: u64, nontrivial: bool) {
        self.cmps += 1;
        self.nontrivial += nontrivial as u64;
        let h = digest.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52;
        self.buckets[(h >> 6) as usize] |= 1 << (h & 63);
    }
    /// Compare an observation with the model's verdict.
    #[inline(always)]
    pub fn check(&mut self, ok: bool, digest: u64, nontrivial: bool, msg: impl FnOnce() -> String) {
        if ok {
            self.seen(digest, nontrivial)
        } else {
            self.fail(msg())
        }
    }
    #[cold]
    pub fn fail(&mut self, msg: String) {
        if self.fail.is_none() {
            self.fail = Some((self.idx, msg));
        }
    }
    #[cold]
    pub fn known(&mut self, finding: usize, msg: impl FnOnce() -> String) {
        self.cmps += 1;
        match self.known.iter_mut().find(|k| k.0 == finding) {
            Some(k) => k.1 += 1,
            None => self.known.push((finding, 1, self.idx, msg())),
        }
    }
    /// Largest error observed, in units of the tolerance.
    #[inline(always)]
    pub fn worst(&mut self, ratio: f64) {
        if ratio > self.worst {
            self.worst = ratio;
        }
    }
    #[inline(always)]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.sample = Some((self.idx, f()));
        }
    }
    #[inline(always)]
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
}

type Body<'a> = Box<dyn Fn(std::ops::Range<u64>, &mut Rep) + Send + Sync + 'a>;

struct Unit<'a> {
    name: String,
    n: u64,
    chunk: u64,
    body: Body<'a>,
    stop: AtomicBool,
    worst: Mutex<f64>,
    fail: Mutex<Option<(u64, String)>>,
    sample: Mutex<Option<(u64, String)>>,
}

struct Slot {
    busy: AtomicBool,
    unit: AtomicUsize,
    idx: AtomicU64,
    beat: AtomicU64,
}

static SLOTS: [Slot; 64] = [const { Slot { busy: AtomicBool::new(false), unit: AtomicUsize::new(0), idx: AtomicU64::new(0), beat: AtomicU64::new(0) } }; 64];

pub struct Finding {
    pub key: &'static str,
    pub what: &'static str,
}

pub struct Check<'a> {
    id: &'static str,
    technique: &'static str,
    units: Vec<Unit<'a>>,
    findings: Vec<Finding>,
    assumptions: Vec<String>,
    extra: Vec<(String, String)>,
    start: Instant,
    replay: Option<(String, u64)>,
    deadline: Option<u64>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn field(s: &str, key: &str) -> Option<String> {
    let i = s.find(&format!("\"{key}\":"))? + key.len() + 3;
    let t = s[i..].trim_start();
    if let Some(r) = t.strip_prefix('"') {
        Some(r[..r.find('"')?].to_string())
    } else {
        Some(t.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

impl<'a> Check<'a> {
    /// `technique` says what a state and a transition are for this property.
    pub fn new(id: &'static str, technique: &'static str) -> Self {
        std::panic::set_hook(Box::new(|i| {
            let m = i.to_string().replace('\n', " ");
            if std::thread::current().name() == Some("main") {
                eprintln!("{m}");
            }
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        }));
        let args: Vec<String> = std::env::args().collect();
        let replay = args.iter().position(|a| a == "--replay").map(|i| {
            let s = std::fs::read_to_string(&args[i + 1]).expect("replay file");
            (field(&s, "unit").expect("unit"), field(&s, "index").expect("index").parse().unwrap())
        });
        Check {
            id,
            technique,
            units: vec![],
            findings: vec![],
            assumptions: vec![],
            extra: vec![],
            start: Instant::now(),
            replay,
            deadline: None,
        }
    }
    /// Taking longer than this (a hundred times what is normal) counts as not terminating.
    pub fn deadline(&mut self, secs: u64) {
        self.deadline = Some(secs);
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn note(&mut self, k: &str, v: &str) {
        self.extra.push((k.into(), v.into()));
    }
    /// Registers a listed finding (see known_findings.json); returns its handle for `Rep::known`.
    pub fn finding(&mut self, key: &'static str, what: &'static str) -> usize {
        let list = std::fs::read_to_string("/verif/known_findings.json").unwrap_or_default();
        if !list.contains(&format!("\"{key}\"")) {
            // Not listed: whatever would match it is a violation.
            self.findings.push(Finding { key: "", what });
        } else {
            self.findings.push(Finding { key, what });
        }
        self.findings.len() - 1
    }

    /// Adds a machine with `n` start states; `body(i, rep)` takes all transitions from state `i`.
    pub fn unit<F>(&mut self, name: impl Into<String>, n: u64, body: F)
    where
        F: Fn(u64, &mut Rep) + Send + Sync + 'a,
    {
        let chunk = (n / 64).clamp(1, 1 << 16);
        self.units.push(Unit {
            name: name.into(),
            n,
            chunk,
            stop: AtomicBool::new(false),
            worst: Mutex::new(0.0),
            fail: Mutex::new(None),
            sample: Mutex::new(None),
            body: Box::new(move |r, rep| {
                let slot = &SLOTS[rep.slot];
                for i in r {
                    rep.idx = i;
                    slot.idx.store(i, Relaxed);
                    rep.states = rep.states.wrapping_add(1);
                    body(i, rep);
                    if rep.fail.is_some() {
                        return;
                    }
                }
            }),
        });
    }

    fn one(u: &Unit, r: std::ops::Range<u64>, rep: &mut Rep) {
        let res = catch_unwind(AssertUnwindSafe(|| (u.body)(r, rep)));
        if res.is_err() {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            let i = rep.idx;
            rep.fail = Some((i, format!("panicked: {m}")));
        }
    }

    pub fn run(mut self) -> ! {
        let tier = if thorough() { "thorough" } else { "quick" };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        if let Some((u, i)) = self.replay.clone() {
            let Some(unit) = self.units.iter().find(|x| x.name == u) else {
                println!("no unit {u}");
                std::process::exit(2)
            };
            let mut rep = Rep { buckets: vec![0; 64], want_sample: true, ..Default::default() };
            println!("replaying {} state {}", u, i);
            Self::one(unit, i..i + 1, &mut rep);
            if let Some((_, m)) = rep.fail {
                println!("FAILS: {m}");
                std::process::exit(1)
            }
            for k in rep.known {
                println!("known finding {}: {}", self.findings[k.0].key, k.3);
            }
            println!("holds{}", rep.sample.map(|s| format!(": {}", s.1)).unwrap_or_default());
            std::process::exit(0)
        }
        if let Ok(f) = std::env::var("MC_ONLY") {
            self.units.retain(|u| u.name.contains(&f));
        }
        // Cumulative chunk counts: (unit, chunk) pairs are claimed in order.
        let mut cum = vec![0u64];
        for u in &self.units {
            cum.push(cum.last().unwrap() + u.n.div_ceil(u.chunk));
        }
        let next = AtomicU64::new(0);
        let total_chunks = *cum.last().unwrap();
        let done = AtomicBool::new(false);
        let tot = Mutex::new(Rep { buckets: vec![0; 64], ..Default::default() });
        let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(60);
        let this = &self;
        let units = &self.units;
        std::thread::scope(|s| {
            let handles: Vec<_> = (0..ncpu)
                .map(|w| {
                    let (next, cum, tot) = (&next, &cum, &tot);
                    s.spawn(move || {
                        let mut acc = Rep { slot: w, buckets: vec![0; 64], ..Default::default() };
                        loop {
                            let c = next.fetch_add(1, Relaxed);
                            if c >= total_chunks {
                                break;
                            }
                            let ui = cum.partition_point(|&x| x <= c) - 1;
                            let u = &units[ui];
                            if u.stop.load(Relaxed) {
                                continue;
                            }
                            let lo = (c - cum[ui]) * u.chunk;
                            let hi = (lo + u.chunk).min(u.n);
                            SLOTS[w].unit.store(ui, Relaxed);
                            SLOTS[w].idx.store(lo, Relaxed);
                            SLOTS[w].busy.store(true, Relaxed);
                            acc.worst = 0.0;
                            acc.want_sample = (c - cum[ui]) & 15 == (u.n.div_ceil(u.chunk) / 2) & 15;
                            Self::one(u, lo..hi, &mut acc);
                            SLOTS[w].busy.store(false, Relaxed);
                            {
                                let mut wst = u.worst.lock().unwrap();
                                if acc.worst > *wst {
                                    *wst = acc.worst
                                }
                            }
                            if let Some(x) = acc.sample.take() {
                                let mut sm = u.sample.lock().unwrap();
                                if sm.as_ref().map(|y| x.0 > y.0).unwrap_or(true) {
                                    *sm = Some(x)
                                }
                            }
                            if let Some(f) = acc.fail.take() {
                                u.stop.store(true, Relaxed);
                                let mut uf = u.fail.lock().unwrap();
                                if uf.as_ref().map(|x| f.0 < x.0).unwrap_or(true) {
                                    *uf = Some(f);
                                }
                            }
                        }
                        let mut t = tot.lock().unwrap();
                        t.states += acc.states;
                        t.skipped += acc.skipped;
                        t.calls += acc.calls;
                        t.cmps += acc.cmps;
                        t.nontrivial += acc.nontrivial;
                        for (a, b) in t.buckets.iter_mut().zip(&acc.buckets) {
                            *a |= *b
                        }
                        for k in acc.known {
                            match t.known.iter_mut().find(|x| x.0 == k.0) {
                                Some(x) => x.1 += k.1,
                                None => t.known.push(k),
                            }
                        }
                    })
                })
                .collect();
            let done = &done;
            s.spawn(move || {
                // Watchdog: counts its own wake-ups, so a suspended process is not mistaken for a hang.
                let mut last = vec![(usize::MAX, 0u64, 0u64, 0u64); ncpu];
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(250));
                    if this.deadline.is_some_and(|d| this.start.elapsed().as_secs() > d) {
                        let w = (0..ncpu).find(|w| SLOTS[*w].busy.load(Relaxed)).unwrap_or(0);
                        let (u, i) = (SLOTS[w].unit.load(Relaxed), SLOTS[w].idx.load(Relaxed));
                        this.violation(tier, &units[u].name, i, &format!("the exploration, a matter of seconds, has not ended after {} s; it is here now", this.start.elapsed().as_secs()));
                        this.evidence(tier, seed, &Rep { buckets: vec![0; 64], ..Default::default() }, 1);
                        std::process::exit(1)
                    }
                    for w in 0..ncpu {
                        let sl = &SLOTS[w];
                        let (u, i, b) = (sl.unit.load(Relaxed), sl.idx.load(Relaxed), sl.busy.load(Relaxed));
                        let beat = sl.beat.load(Relaxed);
                        if b && last[w].0 == u && last[w].1 == i && last[w].3 == beat {
                            last[w].2 += 1;
                            if last[w].2 > HANG_SECS * 4 {
                                let un = &units[u];
                                this.violation(tier, &un.name, i, &format!("a transition from this state did not terminate within {HANG_SECS} s"));
                                this.evidence(tier, seed, &Rep { buckets: vec![0; 64], ..Default::default() }, 1);
                                std::process::exit(1)
                            }
                        } else {
                            last[w] = (u, i, 0, beat)
                        }
                    }
                }
            });
            for h in handles {
                h.join().unwrap()
            }
            done.store(true, Relaxed);
        });
        let mut tot = tot.into_inner().unwrap();
        // A finding that is not listed in the committed file is a violation.
        for k in std::mem::take(&mut tot.known) {
            let f = &this.findings[k.0];
            if f.key.is_empty() {
                println!("unlisted finding: {} e.g. {}", f.what, k.3);
                let u = &units[0];
                *u.fail.lock().unwrap() = Some((k.2, format!("{}: {}", f.what, k.3)));
            } else {
                println!("KNOWN-FINDING: property={} {} [{}] ({} states, e.g. {})", this.id, f.what, f.key, k.1, k.3);
                tot.known.push(k);
            }
        }
        let nfail = units.iter().filter(|u| u.fail.lock().unwrap().is_some()).count();
        this.evidence(tier, seed, &tot, nfail as u64);
        println!(
            "{} {}: {} units, {} states, {} transitions, {} comparisons, {} out of domain, {:.1}s",
            this.id, tier, units.len(), tot.states, tot.calls, tot.cmps, tot.skipped, this.start.elapsed().as_secs_f64()
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            for u in units {
                println!("  {:40} n={:10} worst={:.3} {}", u.name, u.n, u.worst.lock().unwrap(), u.sample.lock().unwrap().as_ref().map(|s| s.1.clone()).unwrap_or_default());
            }
        }
        if nfail > 0 {
            for (k, u) in units.iter().filter(|u| u.fail.lock().unwrap().is_some()).enumerate() {
                let f = u.fail.lock().unwrap().clone().unwrap();
                if k == 0 {
                    this.violation(tier, &u.name, f.0, &f.1);
                } else if k < 40 {
                    println!("  also {} state {}: {}", u.name, f.0, f.1);
                }
            }
            println!("{nfail} of {} units fail", units.len());
            std::process::exit(1)
        }
        if tot.states == 0 || tot.cmps == 0 {
            println!("nothing was explored");
            std::process::exit(2)
        }
        std::process::exit(0)
    }

    fn violation(&self, tier: &str, unit: &str, idx: u64, msg: &str) {
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{dir}/{}.json", self.id);
        let how = format!("VERIF_TIER={tier} bash /verif/check.sh {} --replay {path}", self.id);
        let _ = std::fs::write(
            &path,
            format!("{{\"property\":{},\"tier\":{},\"unit\":{},\"index\":{idx},\"message\":{},\"how\":{}}}\n", jstr(self.id), jstr(tier), jstr(unit), jstr(msg), jstr(&how)),
        );
        println!("VIOLATION property={} replay={path}", self.id);
        println!("  {unit} state {idx}: {msg}");
    }

    fn evidence(&self, tier: &str, seed: u64, t: &Rep, viol: u64) {
        let outcomes: u32 = t.buckets.iter().map(|b| b.count_ones()).sum();
        let mut samples = vec![];
        let step = (self.units.len() / 12).max(1);
        for u in self.units.iter().step_by(step) {
            if let Some((i, s)) = &*u.sample.lock().unwrap() {
                samples.push(format!("{{\"unit\":{},\"state\":{i},\"observed\":{}}}", jstr(&u.name), jstr(s)));
            }
        }
        let mut worst: Vec<(f64, &str)> = self.units.iter().map(|u| (u.worst.lock().unwrap().min(999999.0), u.name.as_str())).filter(|w| w.0 > 0.0).collect();
        worst.sort_by(|a, b| b.0.total_cmp(&a.0));
        let worst: Vec<String> = worst.iter().take(8).map(|(w, n)| format!("{{\"unit\":{},\"error_over_tolerance\":{w:.4}}}", jstr(n))).collect();
        let known: Vec<String> = t.known.iter().map(|k| format!("{{\"finding\":{},\"states\":{}}}", jstr(self.findings[k.0].key), k.1)).collect();
        let mut extra = String::new();
        for (k, v) in &self.extra {
            extra.push_str(&format!(",{}:{}", jstr(k), jstr(v)));
        }
        let e = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\
             \"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,\
             \"distinct_nontrivial\":{},\"distinct_outcome_buckets\":{},\"machines\":{},\"states_out_of_domain\":{},\
             \"rule\":{},\"samples\":[{}],\"largest_errors\":[{}],\"known_findings_hit\":[{}]{}}},\
             \"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{viol}}}\n",
            jstr(self.id), jstr(tier), t.states, t.calls, t.cmps, t.nontrivial, outcomes,
            self.units.len(), t.skipped, jstr(self.technique), samples.join(","), worst.join(","), known.join(","), extra,
            self.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all("/verif/evidence");
        let path = std::env::var("MC_EVIDENCE").unwrap_or(format!("/verif/evidence/{}.json", self.id));
        std::fs::write(path, e).expect("evidence");
    }
}

/// Runs `f`, returning `None` when it panics. Only for states that a listed finding says may panic.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
