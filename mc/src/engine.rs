//! The explorer: runs a scenario once for every sequence of choices within a deviation bound.
//!
//! A scenario is a deterministic function of the choices it asks for through [`Ctx`]. Executions form a tree;
//! every execution replays the picks of the node it was started from (an execution that asks for different
//! choices than its parent did is a hard error) and takes choice 0 at every later point, and each later point
//! contributes one node per alternative. A pick other than 0 at a deviation point costs 1; nodes above the
//! bound are not run (and are counted as pruned). Each execution runs on a thread of its own.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const MAX_POINTS: usize = 20_000;

#[derive(Clone, Debug)]
pub struct Point {
  pub n: u16,
  pub picked: u16,
  pub dev: bool,
  pub kind: &'static str,
}

#[derive(Clone, Debug)]
pub struct Violation {
  /// Identifies what failed, for the known-findings file.
  pub key: String,
  pub msg: String,
}

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
  Err(Violation { key: key.into(), msg: msg.into() })
}

/// `ensure!(cond, "key", "format", args..)`: a violation unless cond.
#[macro_export]
macro_rules! ensure {
  ($cond:expr, $key:expr, $($arg:tt)*) => {
    if !$cond {
      return Err($crate::engine::Violation { key: $key.to_string(), msg: format!($($arg)*) });
    }
  };
}

pub type Outcome = Result<String, Violation>;

struct Inner {
  prefix: Vec<Point>,
  replay: Option<Vec<usize>>,
  trace: Vec<Point>,
  notes: Vec<String>,
  keep_notes: bool,
  diverged: Option<String>,
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<Inner>>);

thread_local! {
  static CURRENT: RefCell<Option<Ctx>> = const { RefCell::new(None) };
  static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Panic payload used to unwind an execution whose fate is already decided.
pub struct Abort;

impl Ctx {
  fn new(prefix: Vec<Point>, replay: Option<Vec<usize>>, keep_notes: bool) -> Self {
    Ctx(Arc::new(Mutex::new(Inner { prefix, replay, trace: vec![], notes: vec![], keep_notes, diverged: None })))
  }

  pub fn current() -> Option<Ctx> {
    CURRENT.with(|c| c.borrow().clone())
  }

  pub fn install(&self) {
    CURRENT.with(|c| *c.borrow_mut() = Some(self.clone()));
  }

  fn choose(&self, kind: &'static str, n: usize, dev: bool) -> usize {
    assert!(n > 0 && n < u16::MAX as usize, "bad choice arity {n} at {kind}");
    if n == 1 {
      return 0;
    }
    let mut i = self.0.lock().unwrap_or_else(|e| e.into_inner());
    let pos = i.trace.len();
    if i.diverged.is_some() {
      return 0;
    }
    if pos >= MAX_POINTS {
      i.diverged = Some(format!("horizon of {MAX_POINTS} choice points exceeded at {kind}"));
      return 0;
    }
    let picked = if let Some(r) = &i.replay {
      match r.get(pos) {
        Some(p) if *p < n => *p,
        Some(p) => {
          i.diverged = Some(format!("replay: pick {p} out of range {n} at point {pos} ({kind})"));
          return 0;
        }
        None => 0,
      }
    } else if pos < i.prefix.len() {
      let p = i.prefix[pos].clone();
      if p.n as usize != n || p.kind != kind || p.dev != dev {
        i.diverged = Some(format!(
          "point {pos}: expected {}[{}] but the execution asked for {}[{}]",
          p.kind, p.n, kind, n
        ));
        return 0;
      }
      p.picked as usize
    } else {
      0
    };
    i.trace.push(Point { n: n as u16, picked: picked as u16, dev, kind });
    picked
  }

  /// A choice all of whose alternatives are always explored (inputs, environment answers).
  pub fn pick(&self, kind: &'static str, n: usize) -> usize {
    self.choose(kind, n, false)
  }

  pub fn flag(&self, kind: &'static str) -> bool {
    self.pick(kind, 2) == 1
  }

  pub fn of<'a, T>(&self, kind: &'static str, items: &'a [T]) -> &'a T {
    &items[self.pick(kind, items.len())]
  }

  /// A choice whose alternatives other than 0 count against the deviation bound.
  pub fn dev(&self, kind: &'static str, n: usize) -> usize {
    self.choose(kind, n, true)
  }

  pub fn note(&self, f: impl FnOnce() -> String) {
    let mut i = self.0.lock().unwrap_or_else(|e| e.into_inner());
    if i.keep_notes {
      let s = f();
      i.notes.push(s);
    }
  }
}

#[derive(Clone)]
pub struct Scenario {
  pub name: String,
  pub bound: u32,
  pub max_execs: u64,
  pub workers: usize,
  pub hang_after: Duration,
  /// What a hang of the whole execution means.
  pub hang_is_violation: bool,
  pub f: Arc<dyn Fn(&Ctx) -> Outcome + Send + Sync>,
}

pub fn scenario(name: impl Into<String>, bound: u32, f: impl Fn(&Ctx) -> Outcome + Send + Sync + 'static) -> Scenario {
  Scenario {
    name: name.into(),
    bound,
    max_execs: u64::MAX,
    workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
    hang_after: Duration::from_secs(120),
    hang_is_violation: true,
    f: Arc::new(f),
  }
}

impl Scenario {
  pub fn workers(mut self, n: usize) -> Self {
    self.workers = n;
    self
  }
  pub fn hang_after(mut self, secs: u64) -> Self {
    self.hang_after = Duration::from_secs(secs);
    self
  }
}

pub struct Exec {
  pub trace: Vec<Point>,
  pub notes: Vec<String>,
  pub outcome: Outcome,
  pub fatal: Option<String>,
}

/// Records panics instead of printing them. A panic located in the code under test is a violation of whatever
/// is being checked; any other is an error of the harness.
pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    if info.payload().downcast_ref::<Abort>().is_some() {
      return;
    }
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_default();
    let full = format!("panic at {loc}: {msg}");
    if std::env::var("MC_PANICS").is_ok() {
      eprintln!("{full}\n{}", std::backtrace::Backtrace::force_capture());
    }
    let _ = PANICS.try_with(|p| p.borrow_mut().push(full.clone()));
    if let Some(c) = CURRENT.try_with(|c| c.borrow().clone()).ok().flatten() {
      if let Ok(mut i) = c.0.try_lock() {
        if i.keep_notes {
          i.notes.push(full);
        }
      }
    }
  }));
}

/// Panics recorded on this thread so far.
pub fn panics() -> Vec<String> {
  PANICS.with(|p| p.borrow().clone())
}

fn run_one(scn: &Scenario, prefix: Vec<Point>, replay: Option<Vec<usize>>, keep: bool) -> Exec {
  let ctx = Ctx::new(prefix, replay, keep);
  let f = scn.f.clone();
  let (tx, rx) = mpsc::channel();
  let c2 = ctx.clone();
  let h = std::thread::Builder::new()
    .stack_size(4 << 20)
    .name("exec".into())
    .spawn(move || {
      c2.install();
      crate::rt::seed_hashing(0);
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c2)));
      let p = panics();
      tokio::mc::uninstall();
      parking_lot::mc::uninstall();
      CURRENT.with(|c| *c.borrow_mut() = None);
      tx.send((r.map_err(|_| ()), p)).ok();
    })
    .expect("spawn");
  let got = rx.recv_timeout(scn.hang_after);
  let mut fatal = None;
  let outcome = match got {
    Ok((Ok(r), _)) => {
      h.join().ok();
      r
    }
    Ok((Err(()), p)) => {
      h.join().ok();
      let last = p.last().cloned().unwrap_or_else(|| "panic".into());
      if last.contains("/repo/crates/") || last.contains("deadlock:") {
        viol("panic", last)
      } else {
        fatal = Some(format!("harness panic: {last}"));
        Ok(String::new())
      }
    }
    Err(_) => {
      if scn.hang_is_violation {
        viol("time-limit", format!("the execution did not finish within {:?} of real time", scn.hang_after))
      } else {
        fatal = Some(format!("execution did not finish within {:?}", scn.hang_after));
        Ok(String::new())
      }
    }
  };
  let mut i = ctx.0.lock().unwrap_or_else(|e| e.into_inner());
  if let Some(d) = i.diverged.take() {
    fatal = Some(format!("divergence: {d}"));
  }
  if i.trace.len() < i.prefix.len() && fatal.is_none() {
    fatal = Some(format!("divergence: execution ended after {} of {} replayed points", i.trace.len(), i.prefix.len()));
  }
  Exec { trace: std::mem::take(&mut i.trace), notes: std::mem::take(&mut i.notes), outcome, fatal }
}

pub fn picks(trace: &[Point]) -> Vec<usize> {
  let mut v: Vec<usize> = trace.iter().map(|p| p.picked as usize).collect();
  while v.last() == Some(&0) {
    v.pop();
  }
  v
}

#[derive(Default, Clone)]
pub struct Stats {
  pub name: String,
  pub bound: u32,
  pub executions: u64,
  pub states: u64,
  pub transitions: u64,
  pub pruned: u64,
  pub max_points: u64,
  pub outcomes: HashSet<u64>,
  pub samples: Vec<String>,
  pub by_kind: BTreeMap<&'static str, u64>,
  pub capped: Option<String>,
  pub known: BTreeSet<String>,
  pub violation: Option<(Violation, Vec<usize>)>,
  pub fatal: Option<String>,
  pub wall: f64,
}

struct Node {
  trace: Arc<Vec<Point>>,
  pos: usize,
  alt: u16,
}

struct Shared {
  buckets: Vec<Vec<Node>>,
  inflight: usize,
  stats: Stats,
  stop: bool,
}

fn hash(s: &str) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  s.hash(&mut h);
  h.finish()
}

pub fn explore(scn: &Scenario, is_known: &(dyn Fn(&Violation) -> Option<String> + Sync), deadline: Instant) -> Stats {
  let start = Instant::now();
  let root = Node { trace: Arc::new(vec![]), pos: 0, alt: u16::MAX };
  // The default execution twice: everything nondeterministic must be owned by the explorer.
  let a = run_one(scn, vec![], None, true);
  let b = run_one(scn, vec![], None, true);
  let mut stats = Stats { name: scn.name.clone(), bound: scn.bound, ..Default::default() };
  let same = picks(&a.trace) == picks(&b.trace)
    && a.trace.len() == b.trace.len()
    && match (&a.outcome, &b.outcome) {
      (Ok(x), Ok(y)) => x == y,
      (Err(x), Err(y)) => x.key == y.key,
      _ => false,
    };
  if !same {
    stats.fatal = Some(format!(
      "scenario {} is not deterministic: two default executions differ ({} vs {} points)\n{:?}\n{:?}\n{:?}\n{:?}",
      scn.name,
      a.trace.len(),
      b.trace.len(),
      a.outcome,
      b.outcome,
      a.notes,
      b.notes
    ));
    return stats;
  }
  let shared = Mutex::new(Shared {
    buckets: (0..=scn.bound as usize).map(|_| vec![]).collect(),
    inflight: 0,
    stats,
    stop: false,
  });
  shared.lock().unwrap().buckets[0].push(root);
  let cv = Condvar::new();
  let execs = AtomicU64::new(0);
  std::thread::scope(|s| {
    for _ in 0..scn.workers.max(1) {
      s.spawn(|| loop {
        let node = {
          let mut g = shared.lock().unwrap();
          loop {
            if g.stop {
              return;
            }
            if Instant::now() > deadline {
              g.stats.capped = Some("time".into());
              g.stop = true;
              cv.notify_all();
              return;
            }
            if execs.load(Ordering::Relaxed) >= scn.max_execs {
              g.stats.capped = Some(format!("{} executions", scn.max_execs));
              g.stop = true;
              cv.notify_all();
              return;
            }
            if let Some(n) = g.buckets.iter_mut().find_map(|b| b.pop()) {
              g.inflight += 1;
              break n;
            }
            if g.inflight == 0 {
              cv.notify_all();
              return;
            }
            g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
          }
        };
        execs.fetch_add(1, Ordering::Relaxed);
        let is_root = node.alt == u16::MAX;
        let prefix = if is_root {
          vec![]
        } else {
          let mut p = node.trace[..=node.pos].to_vec();
          p[node.pos].picked = node.alt;
          p
        };
        let plen = prefix.len();
        let keep = execs.load(Ordering::Relaxed) <= 3;
        let ex = run_one(scn, prefix, None, keep);
        let mut g = shared.lock().unwrap();
        g.inflight -= 1;
        g.stats.executions += 1;
        g.stats.states += (ex.trace.len() - plen.min(ex.trace.len())) as u64 + 1;
        g.stats.transitions += ex.trace.len() as u64;
        g.stats.max_points = g.stats.max_points.max(ex.trace.len() as u64);
        for p in &ex.trace[plen.min(ex.trace.len())..] {
          *g.stats.by_kind.entry(p.kind).or_default() += 1;
        }
        if let Some(f) = ex.fatal {
          g.stats.fatal.get_or_insert(format!("{} (picks {:?})", f, picks(&ex.trace)));
          g.stop = true;
          cv.notify_all();
          return;
        }
        match &ex.outcome {
          Ok(o) => {
            if g.stats.outcomes.insert(hash(o)) && g.stats.samples.len() < 4 {
              let mut text = format!("picks={:?} outcome={}", picks(&ex.trace), o);
              if text.len() > 700 {
                let mut cut = 700;
                while !text.is_char_boundary(cut) {
                  cut -= 1;
                }
                text.truncate(cut);
              }
              g.stats.samples.push(text);
            }
          }
          Err(v) => {
            if let Some(k) = is_known(v) {
              g.stats.known.insert(k);
              g.stats.outcomes.insert(hash(&v.key));
            } else {
              if g.stats.violation.is_none() {
                g.stats.violation = Some((v.clone(), picks(&ex.trace)));
              }
              g.stop = true;
              cv.notify_all();
              return;
            }
          }
        }
        // Alternatives of the points after the prefix.
        let mut cost: u32 = ex.trace[..plen].iter().filter(|p| p.dev && p.picked > 0).count() as u32;
        let tr = Arc::new(ex.trace);
        for pos in plen..tr.len() {
          let p = &tr[pos];
          let c = cost + p.dev as u32;
          if c > scn.bound {
            g.stats.pruned += p.n as u64 - 1;
          } else {
            for alt in (1..p.n).rev() {
              g.buckets[c as usize].push(Node { trace: tr.clone(), pos, alt });
            }
          }
          cost += (p.dev && p.picked > 0) as u32;
        }
        cv.notify_all();
      });
    }
  });
  let mut st = shared.into_inner().unwrap().stats;
  st.wall = start.elapsed().as_secs_f64();
  // A violation is only believed when it replays to the same thing.
  if let Some((v, p)) = st.violation.clone() {
    if v.key != "time-limit" {
      let again = run_one(scn, vec![], Some(p.clone()), false);
      let same = matches!(&again.outcome, Err(w) if w.key == v.key) && again.fatal.is_none();
      if !same {
        st.fatal = Some(format!(
          "violation [{}] {} (picks {p:?}) did not replay: {:?} {:?}",
          v.key, v.msg, again.outcome, again.fatal
        ));
        st.violation = None;
      }
    }
  }
  st
}

pub fn replay(scn: &Scenario, picks: Vec<usize>) -> Exec {
  run_one(scn, vec![], Some(picks), true)
}
