//! Stateless explorer: enumerates every choice sequence of a document machine within a deviation bound.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// what a thread gets by default, so that recursion that a user's thread cannot afford is seen
pub const STACK: usize = 2 << 20;

#[derive(Clone, Copy)]
struct Pt {
  c: u32,
  n: u32,
  dev: bool,
  before: u32,
}

/// The choices of one execution: a replayed prefix, then alternative 0 at every further point.
pub struct Ch {
  pre: Vec<u32>,
  tr: Vec<Pt>,
  used: u32,
}

impl Ch {
  pub fn new(pre: Vec<u32>) -> Self {
    Ch { pre, tr: vec![], used: 0 }
  }
  fn pick(&mut self, n: usize, dev: bool) -> usize {
    assert!(n > 0, "ENGINE: empty choice");
    let i = self.tr.len();
    let c = self.pre.get(i).copied().unwrap_or(0);
    assert!((c as usize) < n, "ENGINE: replay diverged at choice {i}: {c} of {n}");
    self.tr.push(Pt { c, n: n as u32, dev, before: self.used });
    if dev && c > 0 {
      self.used += 1;
    }
    c as usize
  }
  /// all alternatives are explored
  pub fn free(&mut self, n: usize) -> usize {
    self.pick(n, false)
  }
  /// alternative 0 is the default; every other costs one deviation
  pub fn dev(&mut self, n: usize) -> usize {
    self.pick(n, true)
  }
  /// free choice among many; None for the unused tail of the last digit
  pub fn big(&mut self, n: usize) -> Option<usize> {
    if n <= 512 {
      return Some(self.free(n));
    }
    let hi = self.free(n.div_ceil(512));
    let k = hi * 512 + self.free(512);
    (k < n).then_some(k)
  }
  pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.free(v.len())]
  }
  pub fn devof<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.dev(v.len())]
  }
  pub fn flag(&mut self) -> bool {
    self.free(2) == 1
  }
  pub fn devflag(&mut self) -> bool {
    self.dev(2) == 1
  }
  pub fn choices(&self) -> Vec<u32> {
    self.tr.iter().map(|p| p.c).collect()
  }
}

#[derive(Clone, Debug)]
pub struct Fail {
  pub space: String,
  pub choices: Vec<u32>,
  pub dev: u32,
  pub text: String,
  pub msg: String,
}

pub struct Space {
  pub name: String,
  /// what is enumerated, for the evidence
  pub about: String,
  pub bound: u32,
  pub threads: usize,
  pub run: Box<dyn Fn(&mut Ch, &mut Cx) + Send + Sync>,
}

impl Space {
  pub fn new(name: impl Into<String>, about: impl Into<String>, bound: u32, run: impl Fn(&mut Ch, &mut Cx) + Send + Sync + 'static) -> Self {
    Space { name: name.into(), about: about.into(), bound, threads: 0, run: Box::new(run) }
  }
}

#[derive(Default)]
pub struct Seen {
  shards: Vec<Mutex<HashSet<u64>>>,
}
impl Seen {
  pub fn new() -> Self {
    Seen { shards: (0..64).map(|_| Mutex::new(HashSet::new())).collect() }
  }
  fn insert(&self, h: u64) -> bool {
    self.shards[(h >> 58) as usize].lock().unwrap().insert(h)
  }
  pub fn len(&self) -> usize {
    self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
  }
}

pub fn hash(s: &str) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  s.hash(&mut h);
  h.finish()
}

pub struct Worker {
  /// milliseconds since the start of the run, +1; 0 when idle
  pub since: AtomicU64,
  pub text: Mutex<String>,
}

pub struct Global {
  pub seen: Seen,
  pub t0: Instant,
  pub workers: Vec<Worker>,
  pub stop: AtomicBool,
  pub journal: Option<std::path::PathBuf>,
  pub deadline: Instant,
}

/// What a machine uses to report on its document.
pub struct Cx<'g> {
  pub g: &'g Global,
  me: usize,
  jf: Option<std::fs::File>,
  jbuf: Vec<u8>,
  pub outcomes: BTreeMap<String, u64>,
  pub cases: u64,
  pub impl_calls: u64,
  pub compared: u64,
  pub fails: Vec<(String, String)>,
  pub samples: Vec<(u64, String)>,
  pub replay: bool,
}

impl<'g> Cx<'g> {
  pub fn new(g: &'g Global, me: usize) -> Self {
    let jf = g.journal.as_ref().map(|d| std::fs::File::create(d.join(format!("w{me}"))).expect("journal"));
    Cx { g, me, jf, jbuf: vec![], outcomes: BTreeMap::new(), cases: 0, impl_calls: 0, compared: 0, fails: vec![], samples: vec![], replay: false }
  }
  /// Announces the document about to be executed; false if it was explored before.
  pub fn case(&mut self, text: &str) -> bool {
    let h = hash(text);
    if !self.g.seen.insert(h) && !self.replay {
      return false;
    }
    self.cases += 1;
    if self.samples.len() < 3 || h < self.samples[2].0 {
      if text.len() < 1500 {
        self.samples.push((h, text.to_string()));
        self.samples.sort();
        self.samples.truncate(3);
      }
    }
    self.input(text);
    true
  }
  /// Announces a further input of the same execution (journal and watchdog).
  pub fn input(&mut self, text: &str) {
    if let Some(f) = &self.jf {
      self.jbuf.clear();
      self.jbuf.extend((text.len() as u32).to_le_bytes());
      self.jbuf.extend(text.as_bytes());
      let _ = f.write_all_at(&self.jbuf, 0);
    }
    let w = &self.g.workers[self.me];
    {
      let mut t = w.text.lock().unwrap();
      t.clear();
      t.push_str(text);
    }
    w.since.store(self.g.t0.elapsed().as_millis() as u64 + 1, SeqCst);
  }
  pub fn idle(&mut self) {
    self.g.workers[self.me].since.store(0, SeqCst);
  }
  pub fn out(&mut self, o: &str) {
    match self.outcomes.get_mut(o) {
      Some(n) => *n += 1,
      None => {
        self.outcomes.insert(o.to_string(), 1);
      }
    }
  }
  pub fn fail(&mut self, text: &str, msg: impl Into<String>) {
    self.fails.push((text.to_string(), msg.into()));
  }
}

#[derive(Default)]
pub struct Report {
  pub name: String,
  pub about: String,
  pub bound: u32,
  pub executions: u64,
  pub by_dev: BTreeMap<u32, u64>,
  pub transitions: u64,
  pub states: u64,
  pub impl_calls: u64,
  pub compared: u64,
  pub outcomes: BTreeMap<String, u64>,
  pub complete: bool,
  pub wall: f64,
  pub fails: Vec<Fail>,
  pub samples: Vec<(u64, String)>,
}

/// a worker that panics ends the others too
struct EndAll<'a>(&'a AtomicBool);
impl Drop for EndAll<'_> {
  fn drop(&mut self) {
    if std::thread::panicking() {
      self.0.store(true, SeqCst);
    }
  }
}

pub fn explore(g: &Global, sp: &Space, is_known: &(dyn Fn(&str) -> bool + Sync)) -> Report {
  let n = if sp.threads > 0 { sp.threads } else { g.workers.len() };
  let t0 = Instant::now();
  let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
  let pending = AtomicUsize::new(1); // prefixes not yet run, anywhere
  let hungry = AtomicUsize::new(0);
  let n_fail = AtomicUsize::new(0);
  let capped = AtomicBool::new(false);
  let total: Mutex<Report> = Mutex::new(Report { name: sp.name.clone(), about: sp.about.clone(), bound: sp.bound, ..Default::default() });

  std::thread::scope(|s| {
    for me in 0..n {
      let (queue, pending, hungry, n_fail, capped, total) = (&queue, &pending, &hungry, &n_fail, &capped, &total);
      std::thread::Builder::new()
        .stack_size(STACK)
        .spawn_scoped(s, move || {
          let mut cx = Cx::new(g, me);
          let mut r = Report::default();
          let mut local: Vec<Vec<u32>> = vec![];
          let mut is_hungry = false;
          let _end = EndAll(capped);
          loop {
            if g.stop.load(Relaxed) || capped.load(SeqCst) {
              break;
            }
            let pre = match local.pop() {
              Some(p) => p,
              None => {
                let mut q = queue.lock().unwrap();
                match q.pop() {
                  Some(p) => {
                    if is_hungry {
                      is_hungry = false;
                      hungry.fetch_sub(1, SeqCst);
                    }
                    p
                  }
                  None => {
                    drop(q);
                    if pending.load(SeqCst) == 0 {
                      break;
                    }
                    if !is_hungry {
                      is_hungry = true;
                      hungry.fetch_add(1, SeqCst);
                    }
                    std::thread::sleep(Duration::from_micros(200));
                    continue;
                  }
                }
              }
            };
            let plen = pre.len();
            let mut ch = Ch::new(pre);
            (sp.run)(&mut ch, &mut cx);
            cx.idle();
            assert!(ch.tr.len() >= plen, "ENGINE: replay diverged: {} of {} choices used", ch.tr.len(), plen);
            r.executions += 1;
            *r.by_dev.entry(ch.used).or_default() += 1;
            r.transitions += (ch.tr.len() - plen) as u64 + (plen > 0) as u64;
            for (text, msg) in std::mem::take(&mut cx.fails) {
              if !is_known(&text) {
                n_fail.fetch_add(1, SeqCst);
              }
              r.fails.push(Fail { space: sp.name.clone(), choices: ch.choices(), dev: ch.used, text, msg });
            }
            let mut added = 0;
            for i in (plen..ch.tr.len()).rev() {
              let p = ch.tr[i];
              if p.dev && p.before + 1 > sp.bound {
                continue;
              }
              for alt in (1..p.n).rev() {
                let mut v: Vec<u32> = ch.tr[..i].iter().map(|p| p.c).collect();
                v.push(alt);
                local.push(v);
                added += 1;
              }
            }
            pending.fetch_add(added, SeqCst);
            pending.fetch_sub(1, SeqCst);
            if hungry.load(Relaxed) > 0 && local.len() > 1 {
              // hand over the older half: the bigger subtrees
              let half = local.len() / 2;
              let give: Vec<_> = local.drain(..half).collect();
              queue.lock().unwrap().extend(give);
            }
            if n_fail.load(Relaxed) > 40 || (n_fail.load(Relaxed) > 0 && t0.elapsed().as_secs() > 60) {
              capped.store(true, SeqCst);
              break;
            }
            if Instant::now() > g.deadline {
              capped.store(true, SeqCst);
              break;
            }
          }
          let mut t = total.lock().unwrap();
          t.executions += r.executions;
          t.transitions += r.transitions;
          for (k, n) in r.by_dev {
            *t.by_dev.entry(k).or_default() += n;
          }
          t.states += cx.cases;
          t.impl_calls += cx.impl_calls;
          t.compared += cx.compared;
          for (k, n) in cx.outcomes {
            *t.outcomes.entry(k).or_default() += n;
          }
          t.fails.extend(r.fails);
          t.samples.extend(cx.samples);
        })
        .expect("thread");
    }
  });
  let mut t = total.into_inner().unwrap();
  t.samples.sort();
  t.samples.truncate(2);
  t.fails.sort_by(|a, b| (a.dev, a.text.len(), &a.text, &a.msg).cmp(&(b.dev, b.text.len(), &b.text, &b.msg)));
  t.complete = !capped.load(SeqCst) && !g.stop.load(SeqCst);
  t.wall = t0.elapsed().as_secs_f64();
  t
}
