//! Runner shared by all check binaries: argument parsing, history isolation, evidence, replay.
use crate::faults;
use crate::world::Stats;
use std::cell::Cell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static UNCHECKED: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static CONTEXT: Cell<&'static str> = const { Cell::new("") };
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(f) = info.payload().downcast_ref::<faults::Injected>() {
            format!("<injected fault at {:?}>", f.0)
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        #[cfg(not(miri))]
        if let Some(l) = info.location() {
            if is_unchecked_site(l.file(), l.line()) {
                UNCHECKED.with(|u| *u.borrow_mut() = Some(format!("{msg} [at {loc}]")));
            }
        }
        LAST.with(|l| *l.borrow_mut() = format!("{msg} [at {loc}]{}", CONTEXT.with(|c| c.get())));
        if std::env::var("MON_VERBOSE").as_deref() == Ok("2") {
            eprintln!("(panic: {msg} at {loc})");
        } else if std::env::var_os("MON_VERBOSE").is_some() && QUIET.with(|q| q.get()) == 0 {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// Whether a panic at this place is one that only a debug build turns into a panic: a `weak_assert!` or
/// `weak_unreachable!` is `unreachable_unchecked` in release builds, so reaching it is undefined behaviour there.
#[cfg(not(miri))]
fn is_unchecked_site(file: &str, line: u32) -> bool {
    thread_local! {
        static CACHE: std::cell::RefCell<std::collections::HashMap<(String, u32), bool>> = Default::default();
    }
    CACHE.with(|c| {
        *c.borrow_mut().entry((file.to_string(), line)).or_insert_with(|| {
            std::fs::read_to_string(file)
                .ok()
                .and_then(|s| s.lines().nth(line as usize - 1).map(|l| l.contains("weak_")))
                .unwrap_or(false)
        })
    })
}
/// The last panic seen on this thread that stands for undefined behaviour in release builds
pub fn take_unchecked() -> Option<String> {
    UNCHECKED.with(|u| u.borrow_mut().take())
}

/// What a monitor knows about the operation under way; part of the message of a panic inside it
pub fn context(c: &'static str) {
    CONTEXT.with(|x| x.set(c))
}

/// Message and location of the last panic on this thread
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Runs `f`, returning the panic message if it panics
pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        // drop the payload outside
        drop(e);
        last_panic()
    })
}

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub out: String,
    pub progress: String,
    pub scale: f64,
    pub secs: f64,
    pub only: Option<(String, u64)>,
    /// Listed known findings: (id, substrings that all occur in the message)
    pub known: Vec<(String, Vec<String>)>,
    pub extra: Vec<String>,
}

impl Args {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

pub fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: "quick".into(),
        seed: 1,
        shard: 0,
        shards: 1,
        out: String::new(),
        progress: String::new(),
        scale: 1.0,
        secs: 1e9,
        only: None,
        known: vec![],
        extra: vec![],
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    if v.first().map(|s| s.as_str()) == Some("--nop") {
        std::process::exit(0);
    }
    let mut i = 0;
    let mut only_cfg = None;
    while i < v.len() {
        let val = || v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--prop" => a.prop = val(),
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().unwrap(),
            "--shard" => {
                let s = val();
                let (x, y) = s.split_once('/').unwrap();
                a.shard = x.parse().unwrap();
                a.shards = y.parse().unwrap();
            }
            "--out" => a.out = val(),
            "--progress" => a.progress = val(),
            "--scale" => a.scale = val().parse().unwrap(),
            "--secs" => a.secs = val().parse().unwrap(),
            "--known" => {
                let s = val();
                let mut it = s.split('|').map(|x| x.to_string());
                let id = it.next().unwrap_or_default();
                a.known.push((id, it.collect()));
            }
            "--config" => only_cfg = Some(val()),
            "--history" => a.only = Some((only_cfg.clone().unwrap_or_default(), val().parse().unwrap())),
            other => {
                a.extra.push(other.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    a
}

pub struct Violation {
    pub config: String,
    pub history: u64,
    pub message: String,
    pub log: Vec<String>,
}

/// What one shard observed
pub struct Runner {
    pub a: Args,
    pub t0: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub stats: Stats,
    pub per_config: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<(String, String)>,
    dealt: u64,
    timing: bool,
    /// deallocations with a wrong layout are violations of this property
    memory: bool,
    progress: Option<std::fs::File>,
}

pub struct Outcome {
    pub hash: u64,
    pub nontrivial: bool,
    pub stats: Stats,
    pub sample: String,
}

impl Runner {
    pub fn new() -> Runner {
        install_hook();
        let a = args();
        let memory = ["C12", "C13", "C14", "C15"].contains(&&*a.prop);
        let progress = if a.progress.is_empty() { None } else { std::fs::File::create(&a.progress).ok() };
        Runner {
            a,
            t0: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            nontrivial: HashSet::new(),
            stats: Stats::default(),
            per_config: Default::default(),
            samples: vec![],
            violations: vec![],
            known: vec![],
            dealt: 0,
            memory,
            timing: std::env::var_os("MON_TIME").is_some(),
            progress,
        }
    }

    fn mark(&mut self, config: &str, h: u64) {
        #[cfg(not(miri))]
        if let Some(f) = self.progress.as_mut() {
            use std::os::unix::fs::FileExt;
            let s = format!("{config} {h}\n{:64}", "");
            let _ = f.write_at(s.as_bytes(), 0);
        }
        #[cfg(miri)]
        {
            // (few histories, no positioned writes)
            if self.progress.is_some() {
                let _ = std::fs::write(&self.a.progress, format!("{config} {h}\n"));
            }
        }
    }

    /// Runs `count` histories of one configuration. `f(seed, logging)` runs one and returns what it saw;
    /// a panic out of it is a violation.
    pub fn config(&mut self, name: &str, count: u64, mut f: impl FnMut(u64, bool, &mut Vec<String>) -> Outcome) {
        let count = ((count as f64) * self.a.scale).ceil() as u64;
        let only = self.a.only.clone();
        for h in 0..count {
            if let Some((c, hh)) = &only {
                if c != name || *hh != h {
                    continue;
                }
            } else {
                // dealt out over all configurations, so that short ones are spread as well
                self.dealt += 1;
                if self.dealt % self.a.shards != self.a.shard {
                    continue;
                }
            }
            if self.t0.elapsed().as_secs_f64() > self.a.secs || self.violations.len() >= 3 {
                return;
            }
            self.mark(name, h);
            let seed = crate::rng::mix(self.a.seed ^ crate::rng::mix(h ^ crate::rng::mix(hash_str(name))));
            let mut log = vec![];
            crate::ledger::reset();
            crate::slices::take_events();
            crate::idx::clear_budget();
            take_unchecked();
            context("");
            let t0 = Instant::now();
            let memory = self.memory;
            crate::alloc::take_mismatch();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let o = f(seed, only.is_some(), &mut log);
                if memory {
                    if let Some(e) = crate::alloc::take_mismatch() {
                        panic!("MONITOR: {e}");
                    }
                }
                o
            }));
            faults::disarm();
            crate::idx::clear_budget();
            if self.timing {
                eprintln!("{name} {h}: {:.3} s", t0.elapsed().as_secs_f64());
            }
            self.evaluations += 1;
            *self.per_config.entry(name.to_string()).or_default() += 1;
            match r {
                Ok(o) => {
                    self.distinct.insert(o.hash);
                    if o.nontrivial {
                        self.nontrivial.insert(o.hash);
                    }
                    self.stats.merge(o.stats);
                    if self.samples.len() < 3 && o.nontrivial {
                        self.samples.push(format!("{name} history {h}: {}", o.sample));
                    }
                }
                Err(e) => {
                    drop(e);
                    let message = last_panic();
                    if let Some((id, _)) = self.a.known.iter().find(|(_, subs)| !subs.is_empty() && subs.iter().all(|x| message.contains(x.as_str()))) {
                        let id = id.clone();
                        self.stats.add(&format!("known finding {id}"), 1);
                        self.known(&id, &message);
                        continue;
                    }
                    if log.is_empty() && only.is_none() {
                        // replay once with logging to describe the history
                        crate::ledger::reset();
                        let _ = catch_unwind(AssertUnwindSafe(|| f(seed, true, &mut log)));
                        faults::disarm();
                    }
                    self.violations.push(Violation { config: name.into(), history: h, message, log });
                }
            }
        }
    }

    pub fn known(&mut self, sig: &str, what: &str) {
        if !self.known.iter().any(|k| k.0 == sig) {
            self.known.push((sig.to_string(), what.to_string()));
        }
    }

    pub fn finish(self) {
        let mut o = String::from("{");
        let st = &self.stats;
        o += &format!("\"evaluations\":{},\"distinct\":{},\"nontrivial\":{}", self.evaluations, self.distinct.len(), self.nontrivial.len());
        o += &format!(
            ",\"stats\":{{\"ops\":{},\"insert_kinds\":{},\"max_height\":{},\"max_entries\":{},\"distinct_shapes\":{},\"comparisons\":{},\"joins\":{},\"splits\":{},\"extra\":{}}}",
            jmap(st.ops.iter().map(|(k, v)| (k.to_string(), *v))),
            jmap(st.kinds.iter().map(|(k, v)| (format!("{k:?}"), *v))),
            st.max_height, st.max_runs, st.shapes.len(), st.comparisons, st.joins, st.splits,
            jmap(st.extra.iter().map(|(k, v)| (k.clone(), *v))),
        );
        o += &format!(",\"per_config\":{}", jmap(self.per_config.iter().map(|(k, v)| (k.clone(), *v))));
        o += &format!(",\"samples\":[{}]", self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        o += &format!(
            ",\"known\":[{}]",
            self.known.iter().map(|(a, b)| format!("[{},{}]", jstr(a), jstr(b))).collect::<Vec<_>>().join(",")
        );
        let vs: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"config\":{},\"history\":{},\"message\":{},\"log\":[{}]}}",
                    jstr(&v.config), v.history, jstr(&v.message),
                    v.log.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        o += &format!(",\"violations\":[{}],\"wall_s\":{:.3}}}", vs.join(","), self.t0.elapsed().as_secs_f64());
        if self.a.out.is_empty() {
            println!("{o}");
        } else {
            std::fs::write(&self.a.out, o).unwrap();
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(it: impl Iterator<Item = (String, u64)>) -> String {
    let mut v: Vec<_> = it.collect();
    v.sort();
    format!("{{{}}}", v.iter().map(|(k, n)| format!("{}:{n}", jstr(k))).collect::<Vec<_>>().join(","))
}
