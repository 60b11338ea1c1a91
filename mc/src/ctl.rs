//! Real threads under a cooperative scheduler: one thread runs at a time, taking or releasing a `parking_lot`
//! lock is a scheduling point, and the explorer decides who goes on. Switching away from a thread that could
//! continue is a preemption and counts against the deviation bound.
use crate::engine::{Abort, Ctx, Violation};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Wake, Waker};

#[derive(Clone)]
enum Status {
  Ready,
  Lock(usize),
  Flag(Arc<AtomicBool>),
  Done,
}

struct State {
  status: Vec<Status>,
  current: usize,
  deadlock: bool,
  preemptions: u32,
  steps: u64,
}

pub struct Ctl {
  state: Mutex<State>,
  cvs: Vec<Condvar>,
  done: Condvar,
  ctx: Ctx,
  /// Are lock releases scheduling points too?
  pub release_points: bool,
}

struct Hooks {
  ctl: Arc<Ctl>,
  me: usize,
}

impl parking_lot::mc::LockHooks for Hooks {
  fn before_acquire(&self, _addr: usize) {
    if !std::thread::panicking() {
      self.ctl.point(self.me);
    }
  }
  fn wait_for(&self, addr: usize) {
    if std::thread::panicking() {
      std::thread::yield_now();
      return;
    }
    self.ctl.wait(self.me, Status::Lock(addr));
  }
  fn acquired(&self, _addr: usize) {}
  fn released(&self, addr: usize) {
    {
      let mut s = self.ctl.lock();
      for st in s.status.iter_mut() {
        if matches!(st, Status::Lock(a) if *a == addr) {
          *st = Status::Ready;
        }
      }
    }
    if self.ctl.release_points && !std::thread::panicking() {
      self.ctl.point(self.me);
    }
  }
}

const HORIZON: u64 = 5_000;

impl Ctl {
  fn lock(&self) -> std::sync::MutexGuard<'_, State> {
    self.state.lock().unwrap_or_else(|e| e.into_inner())
  }

  fn enabled(s: &State) -> Vec<usize> {
    (0..s.status.len())
      .filter(|i| match &s.status[*i] {
        Status::Ready => true,
        Status::Flag(f) => f.load(Ordering::SeqCst),
        _ => false,
      })
      .collect()
  }

  /// Picks who runs next; `me` is the running thread (or none at the start).
  fn pick(&self, s: &mut State, me: Option<usize>) {
    let mut en = Self::enabled(s);
    s.steps += 1;
    if en.is_empty() || s.steps > HORIZON {
      if s.status.iter().any(|x| !matches!(x, Status::Done)) {
        s.deadlock = true;
        for c in &self.cvs {
          c.notify_all();
        }
      }
      self.done.notify_all();
      return;
    }
    let next = match me.filter(|m| en.contains(m)) {
      Some(m) => {
        en.retain(|x| *x != m);
        en.insert(0, m);
        let i = self.ctx.dev("preempt", en.len());
        if i > 0 {
          s.preemptions += 1;
        }
        en[i]
      }
      None => en[self.ctx.pick("thread", en.len())],
    };
    s.status[next] = Status::Ready;
    s.current = next;
    self.cvs[next].notify_all();
  }

  fn block_until_current<'a>(&self, me: usize, mut s: std::sync::MutexGuard<'a, State>) {
    while s.current != me && !s.deadlock {
      s = self.cvs[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
    if s.deadlock {
      drop(s);
      std::panic::panic_any(Abort);
    }
  }

  fn point(&self, me: usize) {
    let mut s = self.lock();
    if s.deadlock {
      drop(s);
      std::panic::panic_any(Abort);
    }
    self.pick(&mut s, Some(me));
    self.block_until_current(me, s);
  }

  fn wait(&self, me: usize, st: Status) {
    let mut s = self.lock();
    s.status[me] = st;
    self.pick(&mut s, Some(me));
    self.block_until_current(me, s);
  }
}

struct FlagWaker {
  flag: Arc<AtomicBool>,
  count: Arc<std::sync::atomic::AtomicUsize>,
}
impl Wake for FlagWaker {
  fn wake(self: Arc<Self>) {
    self.count.fetch_add(1, Ordering::SeqCst);
    self.flag.store(true, Ordering::SeqCst);
  }
}

/// Handed to each controlled thread.
#[derive(Clone)]
pub struct Me {
  ctl: Arc<Ctl>,
  id: usize,
}

impl Me {
  /// A scheduling point outside any lock.
  pub fn point(&self) {
    self.ctl.point(self.id);
  }

  /// Drives a future to completion; a fresh waker is used for every poll.
  pub fn block_on<F: std::future::Future + Unpin>(&self, mut f: F) -> F::Output {
    loop {
      let flag = Arc::new(AtomicBool::new(false));
      let w: Waker = Arc::new(FlagWaker { flag: flag.clone(), count: Default::default() }).into();
      let mut cx = std::task::Context::from_waker(&w);
      match std::pin::Pin::new(&mut f).poll(&mut cx) {
        std::task::Poll::Ready(v) => return v,
        std::task::Poll::Pending => self.ctl.wait(self.id, Status::Flag(flag)),
      }
    }
  }
}

pub type Body = Box<dyn FnOnce(Me) + Send>;

/// Runs the bodies to completion under the explorer. `Err`: deadlock (nobody can run, some not finished).
pub fn run(ctx: &Ctx, release_points: bool, bodies: Vec<Body>) -> Result<u32, Violation> {
  let n = bodies.len();
  let ctl = Arc::new(Ctl {
    state: Mutex::new(State {
      status: vec![Status::Ready; n],
      current: usize::MAX,
      deadlock: false,
      preemptions: 0,
      steps: 0,
    }),
    cvs: (0..n).map(|_| Condvar::new()).collect(),
    done: Condvar::new(),
    ctx: ctx.clone(),
    release_points,
  });
  let mut hs = vec![];
  for (i, b) in bodies.into_iter().enumerate() {
    let ctl = ctl.clone();
    hs.push(
      std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
          crate::rt::seed_hashing(i as u8);
          let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = ctl.lock();
            ctl.block_until_current(i, s);
            parking_lot::mc::install(Rc::new(Hooks { ctl: ctl.clone(), me: i }));
            b(Me { ctl: ctl.clone(), id: i });
          }));
          parking_lot::mc::uninstall();
          let mut s = ctl.lock();
          s.status[i] = Status::Done;
          if !s.deadlock {
            ctl.pick(&mut s, None);
          }
          drop(s);
          match r {
            Ok(()) => None,
            Err(p) if p.downcast_ref::<Abort>().is_some() => None,
            Err(_) => crate::engine::panics().last().cloned().or(Some("panic".into())),
          }
        })
        .expect("spawn"),
    );
  }
  {
    let mut s = ctl.lock();
    ctl.pick(&mut s, None);
  }
  let mut panicked = None;
  for h in hs {
    if let Ok(Some(p)) = h.join() {
      panicked = Some(p);
    }
  }
  if let Some(p) = panicked {
    // Re-raised on the execution thread, where the engine judges it by its location.
    if p.contains("/repo/crates/") {
      return crate::engine::viol("panic", p);
    }
    panic!("{p}");
  }
  let s = ctl.lock();
  if s.deadlock {
    let what = if s.steps > HORIZON { "livelock" } else { "deadlock" };
    return crate::engine::viol(
      what,
      format!("{what}: no thread can go on ({} unfinished)", s.status.iter().filter(|x| !matches!(x, Status::Done)).count()),
    );
  }
  Ok(s.preemptions)
}
