//! Case loop, shrinking, sharding, evidence.
use crate::rng::Rng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    path::{Path, PathBuf},
    process::Command,
    time::{Duration, Instant},
};

#[derive(Clone, Debug, Default)]
pub struct Pass {
    pub nontrivial: bool,
    pub tags: BTreeMap<String, u64>,
    /// Number of oracle evaluations beyond the first (for example transactions compared).
    pub evals: u64,
}
#[derive(Clone, Debug)]
pub struct Fail {
    /// Short stable class of the failure.
    pub sig: String,
    pub detail: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Self {
        Fail { sig: sig.into(), detail: detail.into() }
    }
}
pub type Outcome = Result<Pass, Fail>;

pub trait Prop {
    type In: Serialize + DeserializeOwned + Clone + std::fmt::Debug;
    fn id(&self) -> &'static str;
    fn gen(&self, r: &mut Rng) -> Self::In;
    fn check(&self, i: &Self::In) -> Outcome;
    /// Cases for the quick and the thorough tier.
    fn budget(&self) -> (u64, u64);
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
}

/// Object-safe view.
pub trait AnyProp {
    fn id(&self) -> &'static str;
    fn shard(&self, a: &ShardArgs) -> ShardOut;
    fn replay(&self, v: &Value) -> Outcome;
    fn shrink_one(&self, v: &Value, sig: &str, secs: u64) -> (Value, Fail);
    fn budget(&self) -> (u64, u64);
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str;
    fn dist(&self, n: u64, seed: u64);
}

pub struct ShardArgs {
    pub seed: u64,
    pub shard: u64,
    pub cases: u64,
    pub current: Option<PathBuf>,
    pub deadline: Instant,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ShardOut {
    pub evaluations: u64,
    pub cases: u64,
    pub nontrivial: Vec<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    /// (input, sig, detail)
    pub failures: Vec<(Value, String, String)>,
    pub truncated: bool,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MEGAFUZZ_BT").is_ok() {
            eprintln!("{msg} at {at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
    }));
}

/// Runs `f`, turning a panic into a failure. A panic located in this harness is the harness's own
/// fault and is reported under a signature of its own.
pub fn guarded(f: impl FnOnce() -> Outcome) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            let at = m.rsplit(" at ").next().unwrap_or("").to_string();
            let own = at.starts_with("src/");
            let file = at.rsplit('/').next().unwrap_or("").to_string();
            let sig = if own { format!("HARNESS-PANIC {at}") } else { format!("panic in {file}") };
            Err(Fail::new(sig, m))
        }
    }
}

fn hash_json(v: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

pub fn seed_for(seed: u64, id: &str, shard: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in id.bytes().chain(seed.to_le_bytes()).chain(shard.to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<P: Prop> AnyProp for P {
    fn id(&self) -> &'static str {
        Prop::id(self)
    }
    fn budget(&self) -> (u64, u64) {
        Prop::budget(self)
    }
    fn rule(&self) -> &'static str {
        Prop::rule(self)
    }
    fn level(&self) -> &'static str {
        Prop::level(self)
    }
    fn shard(&self, a: &ShardArgs) -> ShardOut {
        let mut out = ShardOut::default();
        let mut seen = HashSet::new();
        let mut rng = Rng::new(seed_for(a.seed, Prop::id(self), a.shard));
        let mut best = 0usize;
        for n in 0..a.cases {
            if Instant::now() > a.deadline {
                out.truncated = true;
                break;
            }
            let mut r = Rng::new(rng.next());
            let input = self.gen(&mut r);
            let v = serde_json::to_value(&input).expect("serialize");
            if let Some(c) = &a.current {
                let _ = std::fs::write(c, v.to_string());
            }
            let o = guarded(|| self.check(&input));
            out.cases += 1;
            out.evaluations += 1;
            match o {
                Ok(p) => {
                    out.evaluations += p.evals;
                    if p.nontrivial {
                        let h = hash_json(&v);
                        if seen.insert(h) {
                            out.nontrivial.push(h);
                            let score = p.tags.len();
                            if out.samples.len() < 2 || (score > best && n % 7 == 0) {
                                best = best.max(score);
                                let s = v.to_string();
                                if s.len() < 6000 {
                                    if out.samples.len() >= 3 {
                                        out.samples.remove(1);
                                    }
                                    out.samples.push(v);
                                }
                            }
                        }
                    }
                    for (k, c) in p.tags {
                        *out.tags.entry(k).or_default() += c.min(1);
                    }
                }
                Err(f) => {
                    if out.failures.iter().filter(|x| x.1 == f.sig).count() < 2 {
                        out.failures.push((v, f.sig, f.detail));
                    }
                    if out.failures.len() >= 12 {
                        break;
                    }
                }
            }
        }
        out
    }
    fn replay(&self, v: &Value) -> Outcome {
        match serde_json::from_value::<P::In>(v.clone()) {
            Ok(i) => guarded(|| self.check(&i)),
            Err(e) => Err(Fail::new("HARNESS-INPUT", e.to_string())),
        }
    }
    fn shrink_one(&self, v: &Value, sig: &str, secs: u64) -> (Value, Fail) {
        let until = Instant::now() + Duration::from_secs(secs);
        let mut best = v.clone();
        let mut fail = match self.replay(&best) {
            Err(f) => f,
            Ok(_) => return (best, Fail::new("FLAKY", "failure does not reproduce")),
        };
        let test = |c: &Value| -> Option<Fail> {
            let i = serde_json::from_value::<P::In>(c.clone()).ok()?;
            match guarded(|| self.check(&i)) {
                Err(f) if f.sig == sig => Some(f),
                _ => None,
            }
        };
        loop {
            let mut progress = false;
            // paths are recomputed after each round; larger subtrees first
            let mut paths = vec![];
            collect(&best, &mut vec![], &mut paths);
            for path in paths {
                if Instant::now() > until {
                    return (best, fail);
                }
                let Some(node) = get(&best, &path) else { continue };
                for cand in candidates(node) {
                    if Instant::now() > until {
                        return (best, fail);
                    }
                    let mut c = best.clone();
                    if !set(&mut c, &path, cand) || c == best {
                        continue;
                    }
                    if let Some(f) = test(&c) {
                        best = c;
                        fail = f;
                        progress = true;
                        break;
                    }
                }
            }
            if !progress {
                return (best, fail);
            }
        }
    }
    fn dist(&self, n: u64, seed: u64) {
        let out = self.shard(&ShardArgs {
            seed,
            shard: 0,
            cases: n,
            current: None,
            deadline: Instant::now() + Duration::from_secs(100_000),
        });
        println!("cases {} evaluations {} nontrivial {}", out.cases, out.evaluations, out.nontrivial.len());
        for (k, c) in &out.tags {
            println!("  {:5.1}% {k}", *c as f64 * 100.0 / out.cases as f64);
        }
        for (_, s, d) in &out.failures {
            println!("FAIL {s}: {}", d.chars().take(300).collect::<String>());
        }
    }
}

// ---- generic structural shrinking over JSON ------------------------------------------------------

#[derive(Clone)]
enum Seg {
    K(String),
    I(usize),
}

fn collect(v: &Value, p: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
    out.push(p.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(Seg::I(i));
                collect(x, p, out);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Seg::K(k.clone()));
                collect(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}
fn get<'a>(v: &'a Value, p: &[Seg]) -> Option<&'a Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::K(k) => v.get(k)?,
            Seg::I(i) => v.get(*i)?,
        };
    }
    Some(v)
}
fn set(v: &mut Value, p: &[Seg], x: Value) -> bool {
    let mut v = v;
    for s in p {
        let n = match s {
            Seg::K(k) => v.get_mut(k),
            Seg::I(i) => v.get_mut(*i),
        };
        match n {
            Some(n) => v = n,
            None => return false,
        }
    }
    *v = x;
    true
}
fn candidates(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                while i + size <= n {
                    let mut b = a.clone();
                    b.drain(i..i + size);
                    out.push(Value::Array(b));
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size = (size / 2).max(1);
            }
            // hoist the contents of a nested block: replace an element that is an enum holding a
            // list by the list's elements
            for (i, x) in a.iter().enumerate() {
                if let Some(inner) = nested_list(x) {
                    let mut b = a.clone();
                    b.splice(i..=i, inner);
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Number(x) => {
            if let Some(u) = x.as_u64() {
                for c in [0, 1, u / 2, u.saturating_sub(1)] {
                    if c < u {
                        out.push(json!(c));
                    }
                }
            } else if let Some(i) = x.as_i64() {
                for c in [0, i / 2, i + 1] {
                    if c > i {
                        out.push(json!(c));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::Object(_) => out.push(Value::Null),
        _ => {}
    }
    out
}
fn nested_list(x: &Value) -> Option<Vec<Value>> {
    let o = x.as_object()?;
    if o.len() != 1 {
        return None;
    }
    let (_, v) = o.iter().next()?;
    let a = v.as_array()?;
    let last = a.last()?.as_array()?;
    if a.len() == 2 && last.iter().all(|e| e.is_object() || e.is_string()) {
        Some(last.clone())
    } else {
        None
    }
}

// ---- parent process ------------------------------------------------------------------------------

pub struct CheckArgs {
    pub root: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub jobs: u64,
    pub budget: Option<u64>,
}

#[derive(Clone, Debug, Deserialize)]
struct Known {
    property: String,
    /// Exact signature of the failure.
    signature: String,
    what: String,
    #[serde(default)]
    status: String,
}

fn known(root: &Path) -> Vec<Known> {
    let p = root.join("known-findings.json");
    std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
}

fn signal_of(s: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal()
}

/// Runs one property in child processes; returns the exit code.
pub fn check(p: &dyn AnyProp, a: &CheckArgs) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let work = a.root.join("work").join("run").join(format!("{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let (q, t) = p.budget();
    let total = a.budget.unwrap_or(if a.tier == "thorough" { t } else { q });
    let shards = if a.tier == "thorough" { 64 } else { 16 };
    let limit = if a.tier == "thorough" { 3 * 3600 } else { 560 };
    let exe = std::env::current_exe().expect("exe");
    let mut failures: Vec<(Value, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut all = ShardOut::default();
    let mut nontrivial: HashSet<u64> = HashSet::new();

    // committed regression inputs first
    let corpus = a.root.join("corpus").join(id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&corpus)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let mut corpus_n = 0u64;
    for f in files {
        let Some(v) = std::fs::read_to_string(&f)
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        else {
            continue;
        };
        let input = v.get("input").cloned().unwrap_or(v);
        let file = work.join("corpus.json");
        let _ = std::fs::write(&file, input.to_string());
        corpus_n += 1;
        match run_one(&exe, id, &file, 300) {
            One::Pass => {}
            One::Fail(s, d) => failures.push((input, s, d)),
            One::Crash(sig) => failures.push((input, format!("crash signal {sig}"), "the process died".into())),
            One::Error(e) => errors.push(e),
        }
    }

    // generated cases
    let mut queue: Vec<u64> = (0..shards).collect();
    queue.reverse();
    let per = total.div_ceil(shards);
    let mut running: Vec<(u64, std::process::Child, Instant)> = vec![];
    loop {
        while running.len() < a.jobs as usize {
            let Some(s) = queue.pop() else { break };
            let left = (limit as i64 - t0.elapsed().as_secs() as i64).max(5);
            let child = Command::new(&exe)
                .args(["shard", id, &a.seed.to_string(), &s.to_string(), &per.to_string(), &left.to_string()])
                .arg(work.join(format!("out{s}.json")))
                .arg(work.join(format!("cur{s}.json")))
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn();
            match child {
                Ok(c) => running.push((s, c, Instant::now())),
                Err(e) => errors.push(format!("spawn: {e}")),
            }
        }
        if running.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let overdue = t0.elapsed().as_secs() > limit as u64 + 120;
            match running[i].1.try_wait() {
                Ok(Some(st)) => {
                    let (s, _, _) = running.remove(i);
                    if st.success() {
                        match std::fs::read_to_string(work.join(format!("out{s}.json")))
                            .ok()
                            .and_then(|x| serde_json::from_str::<ShardOut>(&x).ok())
                        {
                            Some(o) => {
                                all.evaluations += o.evaluations;
                                all.cases += o.cases;
                                all.truncated |= o.truncated;
                                nontrivial.extend(o.nontrivial);
                                for (k, c) in o.tags {
                                    *all.tags.entry(k).or_default() += c;
                                }
                                all.samples.extend(o.samples);
                                failures.extend(o.failures);
                            }
                            None => errors.push(format!("shard {s}: no output")),
                        }
                    } else {
                        // The child died: replay what it was working on.
                        let cur = work.join(format!("cur{s}.json"));
                        let sig = signal_of(&st);
                        if matches!(sig, Some(9) | None) {
                            errors.push(format!("shard {s} ended with {st}"));
                        } else {
                            match run_one(&exe, id, &cur, 300) {
                                One::Crash(g) => {
                                    if let Some(v) = std::fs::read_to_string(&cur)
                                        .ok()
                                        .and_then(|x| serde_json::from_str(&x).ok())
                                    {
                                        failures.push((v, format!("crash signal {g}"), "the process died".into()));
                                    }
                                }
                                One::Fail(g, d) => {
                                    if let Some(v) = std::fs::read_to_string(&cur)
                                        .ok()
                                        .and_then(|x| serde_json::from_str(&x).ok())
                                    {
                                        failures.push((v, g, d));
                                    }
                                }
                                _ => errors.push(format!("shard {s} ended with {st}, not reproducible")),
                            }
                        }
                    }
                }
                Ok(None) => {
                    if overdue {
                        let _ = running[i].1.kill();
                        let _ = running[i].1.wait();
                        let (s, _, _) = running.remove(i);
                        errors.push(format!("shard {s}: watchdog"));
                    } else {
                        i += 1;
                    }
                }
                Err(e) => {
                    errors.push(format!("wait: {e}"));
                    running.remove(i);
                }
            }
        }
    }

    // verdict
    let known = known(&a.root);
    let mut violations = vec![];
    let mut reported: HashSet<String> = HashSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (v, sig, detail) in failures {
        if sig.starts_with("HARNESS") || sig == "FLAKY" {
            errors.push(format!("{sig}: {detail}"));
            let f = a.root.join("work").join(format!("{id}-harness.json"));
            let _ = std::fs::write(&f, json!({"property": id, "input": v}).to_string());
            continue;
        }
        if let Some(k) =
            known.iter().find(|k| k.property == id && k.signature == sig && k.status != "fixed")
        {
            *known_hits.entry(k.what.clone()).or_default() += 1;
            continue;
        }
        if !reported.insert(sig.clone()) || violations.len() >= 4 {
            continue;
        }
        let (small, fail) = if sig.starts_with("crash") {
            (v, Fail::new(sig.clone(), detail))
        } else {
            p.shrink_one(&v, &sig, 25)
        };
        let fail = if fail.sig == "FLAKY" {
            errors.push(format!("{sig}: does not reproduce"));
            continue;
        } else {
            fail
        };
        let dir = a.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{:016x}.json", hash_json(&small)));
        let body = json!({"property": id, "signature": fail.sig, "detail": fail.detail, "input": small});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("{id}: {} -- {}", fail.sig, fail.detail.chars().take(600).collect::<String>());
        println!("VIOLATION property={id} replay={}", path.display());
        violations.push(json!({"signature": fail.sig, "detail": fail.detail, "replay": path}));
    }
    for (w, n) in &known_hits {
        println!("KNOWN-FINDING: property={id} {w} (met {n} times)");
    }
    all.samples.truncate(6);
    let dist: BTreeMap<String, String> = all
        .tags
        .iter()
        .map(|(k, c)| (k.clone(), format!("{:.1}% of cases", *c as f64 * 100.0 / all.cases.max(1) as f64)))
        .collect();
    let ev = json!({
        "property": id,
        "tier": if a.tier == "thorough" { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": p.level(),
        "coverage": {
            "evaluations": all.evaluations + corpus_n,
            "distinct_nontrivial": nontrivial.len(),
            "rule": p.rule(),
            "samples": all.samples,
            "cases": all.cases,
            "corpus_replayed": corpus_n,
            "distribution": dist,
            "stopped_by_deadline": all.truncated,
            "violations_found": violations,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = a.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap());
    let _ = std::fs::remove_dir_all(&work);
    println!(
        "{id}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        all.cases,
        all.evaluations,
        nontrivial.len(),
        t0.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            println!("{id}: ERROR {e}");
        }
        return 2;
    }
    if nontrivial.is_empty() {
        println!("{id}: ERROR no non-trivial case was generated");
        return 2;
    }
    0
}

enum One {
    Pass,
    Fail(String, String),
    Crash(i32),
    Error(String),
}

fn run_one(exe: &Path, id: &str, file: &Path, secs: u64) -> One {
    let child = Command::new(exe)
        .args(["one", id])
        .arg(file)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut c = match child {
        Ok(c) => c,
        Err(e) => return One::Error(e.to_string()),
    };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                use std::io::Read;
                if let Some(mut o) = c.stdout.take() {
                    let _ = o.read_to_string(&mut s);
                }
                return match (st.code(), signal_of(&st)) {
                    (Some(0), _) => One::Pass,
                    (Some(1), _) => {
                        // the code under test may print, too
                        let last = s.trim_end().lines().last().unwrap_or("");
                        let v: Value = serde_json::from_str(last).unwrap_or(Value::Null);
                        One::Fail(
                            v["sig"].as_str().unwrap_or("?").to_string(),
                            v["detail"].as_str().unwrap_or("").to_string(),
                        )
                    }
                    (_, Some(9)) => One::Error("killed".into()),
                    (_, Some(g)) => One::Crash(g),
                    (c, _) => One::Error(format!("exit {c:?}")),
                };
            }
            Ok(None) => {
                if t0.elapsed().as_secs() > secs {
                    let _ = c.kill();
                    let _ = c.wait();
                    return One::Error("watchdog".into());
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(e) => return One::Error(e.to_string()),
        }
    }
}
