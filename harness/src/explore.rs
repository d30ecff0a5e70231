//! Exhaustive exploration: breadth-first over all action sequences up to a depth (with duplicate
//! states removed), and complete enumeration of finite case grids. Every transition runs the real code.
use crate::env::Pool;
use crate::lock::*;
use crate::mocks;
use crate::refm::Act;
use crate::svm::{Acc, Bank, TimeNow};
use anchor_lang::prelude::Pubkey;
use std::sync::Arc;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Tx = Vec<Top>;
pub type Alphabet = Box<dyn Fn(&Bank) -> Vec<Tx> + Send + Sync>;
pub type Inv = Box<dyn Fn(&View, &mut Vec<i128>) -> Result<(), String> + Send + Sync>;

pub struct View<'a> {
    pub before: &'a Bank,
    pub ran: &'a Ran,
    pub tx: &'a [Top],
    pub pools: &'a [Pool],
    pub root: &'a Bank,
}
impl View<'_> {
    pub fn act(&self) -> Option<&Act> {
        match self.tx {
            [Top::Ix(s)] => Some(&s.act),
            _ => None,
        }
    }
    pub fn p(&self) -> &Pool {
        &self.pools[0]
    }
    pub fn after(&self) -> &Bank {
        &self.ran.bank
    }
}

pub struct Scn {
    pub name: String,
    pub bank: Bank,
    pub pools: Vec<Pool>,
    pub depth: usize,
    pub alphabet: Alphabet,
    pub inv: Inv,
    pub ghost: Vec<i128>,
}
pub fn scn(name: impl Into<String>, bank: &Bank, p: &Pool, depth: usize, alphabet: impl Fn(&Bank) -> Vec<Tx> + Send + Sync + 'static) -> Scn {
    Scn {
        name: name.into(),
        bank: bank.clone(),
        pools: vec![p.clone()],
        depth,
        alphabet: Box::new(alphabet),
        inv: Box::new(|_, _| Ok(())),
        ghost: vec![],
    }
}
impl Scn {
    pub fn inv(mut self, ghost: Vec<i128>, f: impl Fn(&View, &mut Vec<i128>) -> Result<(), String> + Send + Sync + 'static) -> Scn {
        self.inv = Box::new(f);
        self.ghost = ghost;
        self
    }
}

/// a state waiting to be expanded, kept as its difference from the scenario's root
struct Node {
    scn: usize,
    diff: Vec<(Pubkey, Option<Arc<Acc>>)>,
    now: TimeNow,
    path: Vec<u16>,
    ghost: Vec<i128>,
}
impl Node {
    fn new(scn: usize, root: &Bank, b: &Bank, path: Vec<u16>, ghost: Vec<i128>) -> Node {
        let mut diff = vec![];
        for (k, a) in &b.accs {
            match root.accs.get(k) {
                Some(o) if Arc::ptr_eq(a, o) || a == o => {}
                _ => diff.push((*k, Some(a.clone()))),
            }
        }
        diff.extend(root.accs.keys().filter(|k| !b.accs.contains_key(*k)).map(|k| (*k, None)));
        Node { scn, diff, now: b.now.clone(), path, ghost }
    }
    fn bank(&self, root: &Bank) -> Bank {
        let mut b = root.clone();
        b.now = self.now.clone();
        for (k, a) in &self.diff {
            match a {
                Some(a) => b.accs.insert(*k, a.clone()),
                None => b.accs.remove(k),
            };
        }
        b
    }
}

#[derive(Default)]
pub struct Tally {
    pub transitions: u64,
    pub states: u64,
    pub leaves: u64,
    pub hist: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}
impl Tally {
    pub fn hit(&mut self, k: impl Into<String>) {
        *self.hist.entry(k.into()).or_default() += 1;
    }
    fn merge(&mut self, o: Tally) {
        self.transitions += o.transitions;
        self.states += o.states;
        self.leaves += o.leaves;
        for (k, v) in o.hist {
            *self.hist.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub scn: String,
    pub path: Vec<usize>,
    pub msg: String,
    pub acts: Vec<String>,
}
impl Bad {
    pub fn fingerprint(&self) -> String {
        format!("{}:{}", self.scn, self.path.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."))
    }
}

pub struct Filter {
    pub scn: String,
    pub path: Vec<usize>,
}

pub struct Cx {
    pub id: &'static str,
    pub thorough: bool,
    pub full: bool,
    /// histories this much longer than the scenario asks for
    extra: usize,
    pub start: Instant,
    pub budget: Duration,
    pub filter: Option<Filter>,
    tally: Mutex<Tally>,
    bad: Mutex<Vec<Bad>>,
    complete: AtomicBool,
    notes: Mutex<Vec<String>>,
    scenarios: AtomicUsize,
    depth: AtomicUsize,
    threads: usize,
}

pub fn act_kind(a: &Act) -> &'static str {
    match a {
        Act::Swap { buy: true, mode: 0, .. } => "buy exact-in",
        Act::Swap { buy: true, mode: 1, .. } => "buy partial-fill",
        Act::Swap { buy: true, .. } => "buy exact-out",
        Act::Swap { mode: 0, .. } => "sell exact-in",
        Act::Swap { mode: 1, .. } => "sell partial-fill",
        Act::Swap { .. } => "sell exact-out",
        Act::ClaimPartner { .. } => "partner claims trading fee",
        Act::ClaimCreator { .. } => "creator claims trading fee",
        Act::ClaimProtocol { .. } => "protocol fee claim",
        Act::Zap { .. } => "zap protocol fee",
        Act::ProtCreationFee { .. } => "protocol claims creation fee",
        Act::PartnerCreationFee { .. } => "partner claims creation fee",
        Act::PartnerSurplus { .. } => "partner surplus",
        Act::CreatorSurplus { .. } => "creator surplus",
        Act::MigFee { .. } => "migration fee",
        Act::Leftover => "leftover",
        Act::Transfer { .. } => "transfer creator",
        Act::Locker { .. } => "locker",
        Act::MigrateV2 { .. } => "migrate v2",
        Act::V1Meta => "v1 metadata",
        Act::MigrateV1 => "migrate v1",
        Act::V1Lock { .. } => "v1 lock",
        Act::V1Claim { .. } => "v1 claim",
        Act::CreateOp { .. } => "create operator",
        Act::CloseOp { .. } => "close operator",
        Act::Init => "init pool",
        Act::Advance { .. } => "time",
        Act::Donate { .. } => "donation",
    }
}
pub fn tx_kind(t: &[Top]) -> String {
    match t {
        [Top::Ix(s)] => act_kind(&s.act).into(),
        _ => {
            let mut v = vec![];
            for x in t {
                match x {
                    Top::Ix(s) => v.push(act_kind(&s.act).to_string()),
                    Top::Via { levels, steps, mention } => v.push(format!(
                        "cpi{levels}[{}{}]",
                        steps.iter().map(|s| act_kind(&s.act)).collect::<Vec<_>>().join(";"),
                        if mention.is_empty() { "" } else { " mentions pool" }
                    )),
                }
            }
            v.join(" + ")
        }
    }
}

fn rel_digest(base: &Bank, b: &Bank, ghost: &[i128], scn: usize) -> u128 {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    h.update((scn as u64).to_le_bytes());
    h.update(b.now.slot.to_le_bytes());
    h.update(b.now.ts.to_le_bytes());
    for g in ghost {
        h.update(g.to_le_bytes());
    }
    for (k, a) in &b.accs {
        if let Some(o) = base.accs.get(k) {
            if std::sync::Arc::ptr_eq(a, o) || a == o {
                continue;
            }
        }
        h.update(k.as_ref());
        h.update(a.lamports.to_le_bytes());
        h.update(a.owner.as_ref());
        h.update((a.data.len() as u64).to_le_bytes());
        h.update(&a.data);
    }
    for k in base.accs.keys() {
        if !b.accs.contains_key(k) {
            h.update(b"gone");
            h.update(k.as_ref());
        }
    }
    u128::from_le_bytes(h.finalize()[..16].try_into().unwrap())
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// checks whose deep bounds cost seconds: they use them in the quick tier too, and go deeper in the other
const CHEAP: [&str; 7] = ["P20", "P23", "P25", "P26", "P27", "P30", "P33"];
impl Cx {
    pub fn new(id: &'static str, thorough: bool, filter: Option<Filter>) -> Cx {
        let secs = std::env::var("DBCMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 720 } else { 150 });
        Cx {
            id,
            thorough: thorough || CHEAP.contains(&id),
            full: thorough,
            extra: if thorough && CHEAP.contains(&id) { 2 } else { 0 },
            start: Instant::now(),
            budget: Duration::from_secs(secs),
            filter,
            tally: Default::default(),
            bad: Default::default(),
            complete: AtomicBool::new(true),
            notes: Default::default(),
            scenarios: AtomicUsize::new(0),
            depth: AtomicUsize::new(0),
            threads: std::env::var("DBCMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get())),
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    fn over(&self) -> bool {
        self.start.elapsed() > self.budget || self.bad.lock().unwrap().len() >= 50
    }
    pub fn fail(&self, b: Bad) {
        let mut v = self.bad.lock().unwrap();
        if v.len() < 200 {
            v.push(b);
        }
    }
    /// does the replay filter exclude this scenario?
    pub fn skip(&self, name: &str) -> bool {
        self.filter.as_ref().map_or(false, |f| f.scn != name)
    }

    fn parallel(&self, n: usize, f: impl Fn(usize, &mut Tally) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                s.spawn(|| {
                    mocks::init();
                    let mut t = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if self.over() {
                            self.complete.store(false, Ordering::Relaxed);
                            break;
                        }
                        f(i, &mut t);
                    }
                    self.tally.lock().unwrap().merge(t);
                });
            }
        });
    }

    /// breadth-first exploration of all scenarios together, level by level
    pub fn bfs(&self, scns: Vec<Scn>) {
        let scns: Vec<Scn> = scns.into_iter().filter(|s| !self.skip(&s.name)).collect();
        self.scenarios.fetch_add(scns.len(), Ordering::Relaxed);
        let seen: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let mut frontier: Vec<Node> = vec![];
        for (i, s) in scns.iter().enumerate() {
            let d = rel_digest(&s.bank, &s.bank, &s.ghost, i);
            seen[(d % 64) as usize].lock().unwrap().insert(d);
            self.tally.lock().unwrap().states += 1;
            frontier.push(Node::new(i, &s.bank, &s.bank, vec![], s.ghost.clone()));
        }
        let mut level = 0;
        while !frontier.is_empty() && !self.over() {
            level += 1;
            self.depth.fetch_max(level, Ordering::Relaxed);
            let out: Mutex<Vec<Node>> = Mutex::new(vec![]);
            self.parallel(frontier.len(), |i, t| {
                let n = &frontier[i];
                let s = &scns[n.scn];
                if n.path.len() >= s.depth + self.extra {
                    return;
                }
                let mut fresh = vec![];
                let bank = n.bank(&s.bank);
                for (ai, tx) in (s.alphabet)(&bank).into_iter().enumerate() {
                    if let Some(f) = &self.filter {
                        if f.path.get(n.path.len()) != Some(&ai) {
                            continue;
                        }
                    }
                    let mut ghost = n.ghost.clone();
                    let path = || n.path.iter().map(|x| *x as usize).chain([ai]).collect::<Vec<_>>();
                    t.transitions += 1;
                    let r = catch_unwind(AssertUnwindSafe(|| run_tx(&bank, &s.pools, &tx))).unwrap_or_else(|e| Err(format!("the reference model failed: {}", panic_text(e))));
                    let r = match r {
                        Ok(r) => r,
                        Err(m) => {
                            self.report(s, path(), m);
                            continue;
                        }
                    };
                    let k = tx_kind(&tx);
                    t.hit(format!("{k} {}", if r.ok { "ok" } else { "refused" }));
                    let v = View { before: &bank, ran: &r, tx: &tx, pools: &s.pools, root: &s.bank };
                    let inv = catch_unwind(AssertUnwindSafe(|| (s.inv)(&v, &mut ghost))).unwrap_or_else(|e| Err(format!("invariant evaluation failed: {}", panic_text(e))));
                    if let Err(m) = inv {
                        self.report(s, path(), m);
                        continue;
                    }
                    if !r.ok && ghost == n.ghost {
                        t.leaves += 1;
                        continue;
                    }
                    let d = rel_digest(&s.bank, &r.bank, &ghost, n.scn);
                    if !seen[(d % 64) as usize].lock().unwrap().insert(d) {
                        t.leaves += 1;
                        continue;
                    }
                    t.states += 1;
                    let mut p = n.path.clone();
                    p.push(ai as u16);
                    if p.len() < s.depth + self.extra {
                        fresh.push(Node::new(n.scn, &s.bank, &r.bank, p, ghost));
                    } else {
                        t.leaves += 1;
                        if t.samples.is_empty() {
                            t.samples.push(json!({"scenario": s.name, "history": self.history(s, &p.iter().map(|x| *x as usize).collect::<Vec<_>>())}));
                        }
                    }
                }
                if !fresh.is_empty() {
                    out.lock().unwrap().append(&mut fresh);
                }
            });
            frontier = out.into_inner().unwrap();
            // deterministic order, independent of scheduling
            frontier.sort_by(|a, b| (a.scn, &a.path).cmp(&(b.scn, &b.path)));
        }
        if !frontier.is_empty() {
            self.complete.store(false, Ordering::Relaxed);
        }
    }
    fn history(&self, s: &Scn, path: &[usize]) -> Vec<String> {
        let mut b = s.bank.clone();
        let mut v = vec![];
        for i in path {
            let a = (s.alphabet)(&b);
            let Some(tx) = a.get(*i) else { break };
            v.push(format!("{tx:?}"));
            if let Ok(Ok(r)) = catch_unwind(AssertUnwindSafe(|| run_tx(&b, &s.pools, tx))) {
                b = r.bank;
            }
        }
        v
    }
    fn report(&self, s: &Scn, path: Vec<usize>, msg: String) {
        let acts = self.history(s, &path);
        self.fail(Bad { scn: s.name.clone(), path, msg, acts });
    }
    /// complete enumeration of a finite list of cases
    pub fn cases<T: Sync + std::fmt::Debug>(&self, name: &str, items: &[T], f: impl Fn(&T, &mut Tally) -> Result<(), String> + Sync) {
        if self.skip(name) {
            return;
        }
        self.scenarios.fetch_add(1, Ordering::Relaxed);
        self.parallel(items.len(), |i, t| {
            if let Some(x) = &self.filter {
                if x.path != [i] {
                    return;
                }
            }
            t.states += 1;
            t.leaves += 1;
            t.transitions += 1;
            let r = catch_unwind(AssertUnwindSafe(|| f(&items[i], t))).unwrap_or_else(|e| Err(format!("the check failed: {}", panic_text(e))));
            if let Err(m) = r {
                self.fail(Bad { scn: name.into(), path: vec![i], msg: m, acts: vec![format!("{:?}", items[i])] });
            } else if t.samples.is_empty() {
                t.samples.push(json!({"grid": name, "case": format!("{:?}", items[i])}));
            }
        });
    }

    pub fn failed(&self) -> bool {
        !self.bad.lock().unwrap().is_empty()
    }
    /// print the verdict, write evidence, return the exit code
    pub fn finish(self, root: &str, assumptions: &[&str]) -> i32 {
        let t = self.tally.into_inner().unwrap();
        let mut bad = self.bad.into_inner().unwrap();
        bad.sort_by(|a, b| (a.path.len(), &a.scn, &a.path).cmp(&(b.path.len(), &b.scn, &b.path)));
        let known: Vec<Value> = std::fs::read_to_string(format!("{root}/known_findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v["findings"].as_array().cloned())
            .unwrap_or_default();
        let is_known = |b: &Bad| {
            known.iter().find(|k| k["property"] == self.id && k["history"].as_array().map_or(false, |h| h.iter().any(|x| *x == b.fingerprint())))
        };
        let mut printed = HashSet::new();
        let mut news = vec![];
        for b in &bad {
            match is_known(b) {
                Some(k) => {
                    let w = k["what"].as_str().unwrap_or("").to_string();
                    if printed.insert(w.clone()) {
                        println!("KNOWN-FINDING: property={} {}", self.id, w);
                    }
                }
                None => news.push(b.clone()),
            }
        }
        let replaying = self.filter.is_some();
        if !news.is_empty() {
            let dir = format!("{root}/out/replay");
            let _ = std::fs::create_dir_all(&dir);
            for (i, b) in news.iter().take(3).enumerate() {
                let path = format!("{dir}/{}-{}.json", self.id, i);
                let v = json!({"property": self.id, "tier": if self.full {"thorough"} else {"quick"}, "scenario": b.scn, "path": b.path, "history": b.acts, "what": b.msg,
                    "replay": format!("{root}/check.sh replay {path}")});
                if !replaying {
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                }
                let m: String = b.msg.chars().take(600).collect();
                println!("VIOLATION property={} replay={}", self.id, path);
                println!("  scenario {} step {:?}\n  {}\n  {}", b.scn, b.path, b.acts.join("\n  "), m);
            }
            println!("{} violation(s)", news.len());
        }
        let mut samples = t.samples;
        // the evidence file stays small: the rarest and the commonest outcomes are listed, the rest is summed
        let mut kinds: Vec<(&String, &u64)> = t.hist.iter().collect();
        kinds.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
        let mut outcomes: std::collections::BTreeMap<String, u64> = Default::default();
        let n = kinds.len();
        for (i, (k, v)) in kinds.iter().enumerate() {
            if n <= 120 || i < 80 || i >= n - 40 {
                outcomes.insert(k.chars().take(160).collect(), **v);
            } else {
                *outcomes.entry(format!("{} further kinds of outcome", n - 120)).or_default() += **v;
            }
        }
        samples.truncate(6);
        if !replaying {
            let ev = json!({
                "property": self.id,
                "tier": if self.full { "thorough" } else { "quick" },
                "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
                "level": "model_checking",
                "coverage": {
                    "states": t.states,
                    "transitions": t.transitions,
                    "traces_validated_against_impl": t.leaves,
                    "scenarios": self.scenarios.load(Ordering::Relaxed),
                    "max_depth": self.depth.load(Ordering::Relaxed),
                    "exhaustive": self.complete.load(Ordering::Relaxed),
                    "outcomes": outcomes,
                    "samples": samples,
                    "notes": *self.notes.lock().unwrap(),
                    "meaning": "states: distinct account universes reached plus distinct grid cases; transitions: transactions executed on the real program and compared with the model; traces: complete histories (root to leaf) so validated",
                },
                "assumptions": assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": news.len(),
            });
            let _ = std::fs::create_dir_all(format!("{root}/evidence"));
            let _ = std::fs::write(format!("{root}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
        }
        println!(
            "{} {}: {} states, {} transitions, {} complete histories, {} scenarios, depth {}, {}{:.1} s",
            self.id,
            if self.full { "thorough" } else { "quick" },
            t.states,
            t.transitions,
            t.leaves,
            self.scenarios.load(Ordering::Relaxed),
            self.depth.load(Ordering::Relaxed),
            if self.complete.load(Ordering::Relaxed) { "" } else { "stopped by the time budget, " },
            self.start.elapsed().as_secs_f64()
        );
        if std::env::var("DBCMC_HIST").is_ok() {
            for (k, v) in &t.hist {
                println!("   {v:>9}  {k}");
            }
        }
        !news.is_empty() as i32
    }
}
