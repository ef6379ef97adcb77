//! Exhaustive-enumeration harness.
//!
//! A property is a function that walks a finite space of cases in a fixed order. The parent
//! process starts one worker per shard; every worker walks the whole space and executes the cases
//! of its own shard, so the union of the shards is the complete space. Workers are separate
//! processes so that a crash, a stack overflow, a runaway allocation or a hang of the code under
//! test is a verdict about one case, and never takes the checker down.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub struct PropDef {
    pub id: &'static str,
    pub run: fn(&mut Cx),
    /// what is enumerated, for the evidence file
    pub rule: &'static str,
    /// seconds one case may take before it counts as a hang
    pub hang_s: u64,
}

/// What one case reports besides pass/fail
#[derive(Default)]
pub struct Case {
    pub transitions: u64,
    pub outcome: u64,
    pub validated: u64,
    pub known: Vec<(String, String)>,
    pub skipped: bool,
}

impl Case {
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// Digest of what was observed, to show the space is not one outcome over and over
    pub fn saw<H: std::hash::Hash>(&mut self, h: &H) {
        self.outcome = self.outcome.wrapping_mul(0x100000001b3) ^ fnv(h);
    }
    pub fn validated(&mut self) {
        self.validated = 1;
    }
    /// A violation with an identity which may be in the known-findings file
    pub fn known(&mut self, id: &str, what: String) {
        self.known.push((id.to_string(), what));
    }
}

struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fnv<H: std::hash::Hash>(h: &H) -> u64 {
    use std::hash::Hasher;
    let mut f = Fnv(0xcbf29ce484222325);
    h.hash(&mut f);
    f.finish()
}

/// Properties where even the middle bounds take no more than 15 seconds: these are the quick ones then
const PROMPT: [&str; 13] = ["C02", "C05", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C19", "C21"];

pub struct Cx {
    pub tier: Tier,
    prompt: bool,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    describe: bool,
    idx: u64,
    cur: Option<fs::File>,
    cases: u64,
    skipped: u64,
    transitions: u64,
    validated: u64,
    outcomes: HashSet<u64>,
    fails: Vec<(u64, String, String)>,
    samples: Vec<String>,
    families: BTreeMap<String, u64>,
    family: String,
    fam_first: bool,
    known: BTreeMap<(String, String), u64>,
    known_listed: HashSet<(String, String)>,
    prop: String,
    pub notes: BTreeMap<String, u64>,
}

const MAX_FAILS: usize = 3;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static CUR_CASE: AtomicU64 = AtomicU64::new(0);
static CUR_START: AtomicU64 = AtomicU64::new(u64::MAX);

/// CPU time of this process
fn cpu_ms() -> u64 {
    let stat = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    // the name is in parentheses
    let rest = stat.rsplit(')').next().unwrap_or("");
    rest.split_whitespace().skip(11).take(2).filter_map(|x| x.parse::<u64>().ok()).sum::<u64>() * 10
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64
}

/// Run code under test that is allowed to panic
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

impl Cx {
    /// more than the smallest bounds
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough || self.prompt
    }
    /// pick a bound by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// pick a bound by tier, where the whole space of the middle one is quickly walked
    pub fn deep<T>(&self, quick: T, middle: T, thorough: T) -> T {
        match self.tier {
            Tier::Thorough => thorough,
            Tier::Quick if self.prompt => middle,
            Tier::Quick => quick,
        }
    }
    pub fn family(&mut self, name: &str) {
        self.family = name.to_string();
        self.fam_first = true;
    }
    pub fn full(&self) -> bool {
        self.fails.len() >= MAX_FAILS
    }
    pub fn note(&mut self, name: &str, n: u64) {
        *self.notes.entry(name.to_string()).or_default() += n;
    }

    /// One point of the space
    pub fn case(
        &mut self,
        desc: &dyn Fn() -> String,
        f: &mut dyn FnMut(&mut Case) -> Result<(), String>,
    ) {
        let idx = self.idx;
        self.idx += 1;
        if let Some(only) = self.only {
            if idx != only {
                return;
            }
            if self.describe {
                self.samples.push(desc());
                return;
            }
        } else if idx % self.nshards != self.shard || self.full() {
            return;
        }
        if let Some(ref f) = self.cur {
            let _ = f.write_all_at(&idx.to_le_bytes(), 0);
        }
        CUR_CASE.store(idx, Ordering::SeqCst);
        CUR_START.store(T0.with(|t| now_ms(*t)), Ordering::SeqCst);

        let mut c = Case::default();
        let res = match catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        };
        CUR_START.store(u64::MAX, Ordering::SeqCst);

        if c.skipped {
            self.skipped += 1;
            return;
        }
        self.cases += 1;
        self.transitions += c.transitions;
        self.validated += c.validated;
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(c.outcome);
        }
        *self.families.entry(self.family.clone()).or_default() += 1;
        if self.fam_first {
            self.fam_first = false;
            self.samples.push(format!("[{}] {}", self.family, desc()));
        }
        for (id, what) in c.known {
            if self.known_listed.contains(&(self.prop.clone(), id.clone())) {
                *self.known.entry((id, what)).or_default() += 1;
            } else {
                self.fails.push((idx, desc(), format!("{} ({})", what, id)));
            }
        }
        if let Err(msg) = res {
            self.fails.push((idx, desc(), msg));
        }
    }
}

thread_local! {
    static T0: Instant = Instant::now();
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".to_string()))
}

/// Entries of the known-findings file: `known: property=<id> id=<finding> <what>`
fn known_listed() -> HashSet<(String, String)> {
    let mut set = HashSet::new();
    let txt = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    for line in txt.lines() {
        let mut it = line.split_whitespace();
        if it.next() == Some("known:") {
            let p = it.next().and_then(|s| s.strip_prefix("property="));
            let i = it.next().and_then(|s| s.strip_prefix("id="));
            if let (Some(p), Some(i)) = (p, i) {
                set.insert((p.to_string(), i.to_string()));
            }
        }
    }
    set
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\\' => o.push_str("\\\\"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Worker: `worker <prop> <tier> <shard> <nshards> <dir> [only <idx>|describe <idx>]`
pub fn worker(def: &PropDef, tier: Tier, shard: u64, nshards: u64, dir: &Path, mode: Option<(&str, u64)>) {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    // the code under test works relative to the current directory
    let wd = dir.join(format!("w{}", shard));
    fs::create_dir_all(&wd).expect("scratch");
    std::env::set_current_dir(&wd).expect("chdir");

    let describe = matches!(mode, Some(("describe", _)));
    let mut cx = Cx {
        tier,
        prompt: tier == Tier::Quick && PROMPT.contains(&def.id),
        shard,
        nshards,
        only: mode.map(|m| m.1),
        describe,
        idx: 0,
        cur: fs::File::create(dir.join(format!("cur{}", shard))).ok(),
        cases: 0,
        skipped: 0,
        transitions: 0,
        validated: 0,
        outcomes: HashSet::new(),
        fails: vec![],
        samples: vec![],
        families: BTreeMap::new(),
        family: String::new(),
        fam_first: false,
        known: BTreeMap::new(),
        known_listed: known_listed(),
        prop: def.id.to_string(),
        notes: BTreeMap::new(),
    };

    // hang watchdog
    // (time is counted in naps, and in CPU time, so that being stopped or starved isn't a hang)
    let limit = def.hang_s * 1000;
    let hang_file = dir.join(format!("hang{}", shard));
    std::thread::spawn(move || {
        let (mut case, mut waited, mut cpu) = (u64::MAX, 0u64, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(250));
            if CUR_START.load(Ordering::SeqCst) == u64::MAX {
                case = u64::MAX;
                continue;
            }
            let here = CUR_CASE.load(Ordering::SeqCst);
            if here != case {
                (case, waited, cpu) = (here, 0, cpu_ms());
                continue;
            }
            waited += 250;
            if waited > limit && (waited > 5 * limit || cpu_ms() - cpu > limit / 4) {
                let _ = fs::write(&hang_file, here.to_string());
                std::process::exit(7);
            }
        }
    });

    (def.run)(&mut cx);

    let mut out = String::new();
    let _ = writeln!(out, "total {}", cx.idx);
    let _ = writeln!(out, "cases {}", cx.cases);
    let _ = writeln!(out, "skipped {}", cx.skipped);
    let _ = writeln!(out, "transitions {}", cx.transitions);
    let _ = writeln!(out, "validated {}", cx.validated);
    for (k, v) in &cx.families {
        let _ = writeln!(out, "family {} {}", v, esc(k));
    }
    for (k, v) in &cx.notes {
        let _ = writeln!(out, "note {} {}", v, esc(k));
    }
    for s in &cx.samples {
        let _ = writeln!(out, "sample {}", esc(s));
    }
    for ((i, w), n) in &cx.known {
        let _ = writeln!(out, "known {} {} {}", n, i, esc(w));
    }
    for (i, d, m) in &cx.fails {
        let _ = writeln!(out, "fail {}\t{}\t{}", i, esc(d), esc(m));
    }
    for o in &cx.outcomes {
        let _ = writeln!(out, "o {:x}", o);
    }
    let _ = writeln!(out, "done");
    let mut f = fs::File::create(dir.join(format!("res{}", shard))).expect("result");
    f.write_all(out.as_bytes()).expect("result");
    std::process::exit(0);
}

fn spawn(def: &PropDef, tier: Tier, shard: u64, n: u64, dir: &Path, mode: Option<(&str, u64)>) -> std::process::Child {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe);
    c.arg("worker").arg(def.id).arg(tier.name()).arg(shard.to_string()).arg(n.to_string()).arg(dir);
    if let Some((m, i)) = mode {
        c.arg(m).arg(i.to_string());
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    c.spawn().expect("spawn worker")
}

#[derive(Default)]
struct Merged {
    total: u64,
    cases: u64,
    skipped: u64,
    transitions: u64,
    validated: u64,
    families: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<(String, String), u64>,
    fails: Vec<(u64, String, String)>,
    outcomes: HashSet<u64>,
}

fn merge(m: &mut Merged, txt: &str) -> bool {
    let mut done = false;
    for line in txt.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        let num = |s: &str| s.parse::<u64>().unwrap_or(0);
        match k {
            "total" => m.total = m.total.max(num(rest)),
            "cases" => m.cases += num(rest),
            "skipped" => m.skipped += num(rest),
            "transitions" => m.transitions += num(rest),
            "validated" => m.validated += num(rest),
            "family" | "note" => {
                let (n, name) = rest.split_once(' ').unwrap_or((rest, ""));
                let map = if k == "family" { &mut m.families } else { &mut m.notes };
                *map.entry(unesc(name)).or_default() += num(n);
            }
            "sample" => m.samples.push(unesc(rest)),
            "known" => {
                let mut it = rest.splitn(3, ' ');
                let n = num(it.next().unwrap_or(""));
                let i = it.next().unwrap_or("").to_string();
                let w = unesc(it.next().unwrap_or(""));
                *m.known.entry((i, w)).or_default() += n;
            }
            "fail" => {
                let mut it = rest.splitn(3, '\t');
                let i = num(it.next().unwrap_or(""));
                let d = unesc(it.next().unwrap_or(""));
                let w = unesc(it.next().unwrap_or(""));
                m.fails.push((i, d, w));
            }
            "o" => {
                m.outcomes.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
            }
            "done" => done = true,
            _ => {}
        }
    }
    done
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("mc-{}", std::process::id()))
}

fn describe(def: &PropDef, tier: Tier, dir: &Path, idx: u64) -> String {
    let d = dir.join("describe");
    let _ = fs::create_dir_all(&d);
    let mut ch = spawn(def, tier, 0, 1, &d, Some(("describe", idx)));
    let _ = ch.wait();
    let mut m = Merged::default();
    merge(&mut m, &fs::read_to_string(d.join("res0")).unwrap_or_default());
    m.samples.first().cloned().unwrap_or_default()
}

/// Run a property over all shards; returns the exit code
pub fn run(def: &PropDef, tier: Tier, only: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let n: u64 = if only.is_some() { 1 } else { std::env::var("MC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) };
    let dir = scratch_root();
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");

    let mut kids: Vec<_> = (0..n).map(|s| spawn(def, tier, s, n, &dir, only.map(|i| ("only", i)))).collect();
    let mut m = Merged::default();
    let mut broken: Vec<String> = vec![];
    for (s, k) in kids.iter_mut().enumerate() {
        let st = k.wait().expect("wait");
        let txt = fs::read_to_string(dir.join(format!("res{}", s))).unwrap_or_default();
        if st.success() && merge(&mut m, &txt) {
            continue;
        }
        // the worker died: which case did that?
        let cur = fs::read(dir.join(format!("cur{}", s))).unwrap_or_default();
        if let Ok(h) = fs::read_to_string(dir.join(format!("hang{}", s))) {
            let i: u64 = h.trim().parse().unwrap_or(0);
            m.fails.push((i, describe(def, tier, &dir, i), format!("hang: no result within {} s", def.hang_s)));
        } else if cur.len() == 8 {
            let i = u64::from_le_bytes(cur[..8].try_into().expect("8"));
            m.fails.push((i, describe(def, tier, &dir, i), format!("the code under test killed the process ({})", st)));
        } else {
            broken.push(format!("worker {} ended with {} before its first case", s, st));
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();

    m.fails.sort();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);

    if only.is_none() {
        let exhaustive = m.fails.is_empty() && broken.is_empty() && m.cases + m.skipped == m.total;
        let mut j = String::new();
        let _ = write!(j, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n", def.id, tier.name(), seed);
        let _ = write!(j, " \"coverage\": {{\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"evaluations\": {},\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"skipped_outside_domain\": {},\n",
            json_str(def.rule), exhaustive, m.total, m.cases, m.transitions, m.validated, m.outcomes.len(), m.skipped);
        let fams: Vec<String> = m.families.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let _ = write!(j, "  \"cases_by_family\": {{{}}},\n", fams.join(", "));
        let notes: Vec<String> = m.notes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let _ = write!(j, "  \"notes\": {{{}}},\n", notes.join(", "));
        let known: Vec<String> = m.known.iter().map(|((i, w), n)| format!("{}", json_str(&format!("{}: {} ({} cases)", i, w, n)))).collect();
        let _ = write!(j, "  \"known_findings\": [{}],\n", known.join(", "));
        let mut seen = HashSet::new();
        let samples: Vec<String> = m.samples.iter()
            .filter(|s| seen.insert(s.split(']').next().unwrap_or("").to_string()))
            .map(|s| json_str(s)).collect();
        let _ = write!(j, "  \"samples\": [{}]\n }},\n", samples.join(",\n   "));
        let _ = write!(j, " \"assumptions\": [{}],\n", json_str("values outside the enumerated alphabets and sizes above the bounds are not covered"));
        let _ = write!(j, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, m.fails.len());
        fs::write(evdir.join(format!("{}.json", def.id)), j).expect("evidence");
    }

    println!("{} {}: {} cases ({} outside the domain), {} transitions, {} distinct outcomes, {:.1} s",
        def.id, tier.name(), m.cases, m.skipped, m.transitions, m.outcomes.len(), wall);
    let mut known_ids: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for ((i, w), n) in &m.known {
        let e = known_ids.entry(i.clone()).or_insert((0, w.clone()));
        e.0 += n;
    }
    for (i, (n, w)) in &known_ids {
        println!("KNOWN-FINDING: property={} {} {} ({} cases)", def.id, i, w, n);
    }
    if !broken.is_empty() && m.fails.is_empty() {
        for b in &broken {
            println!("ERROR: {}", b);
        }
        return 2;
    }
    if m.fails.is_empty() {
        if m.cases == 0 {
            println!("ERROR: nothing was explored");
            return 2;
        }
        return 0;
    }
    let rdir = evdir.join("replay");
    let _ = fs::create_dir_all(&rdir);
    for (k, (i, d, w)) in m.fails.iter().enumerate().take(5) {
        let path = rdir.join(format!("{}-{}.txt", def.id, k));
        let txt = format!(
            "property={}\ntier={}\ncase={}\n\nReplay: bash /verif/run.sh replay {}\n\n--- case\n{}\n\n--- what went wrong\n{}\n",
            def.id, tier.name(), i, path.display(), d, w);
        let _ = fs::write(&path, txt);
        println!("--- case {}\n{}\n--- {}", i, d, w);
        println!("VIOLATION property={} replay={}", def.id, path.display());
    }
    1
}
