//! Runs async code of the system under test on a current-thread tokio runtime with a virtual clock, where the
//! explorer decides which runnable task is polled next and where `select!` starts polling.
use crate::engine::Ctx;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq)]
pub enum Select {
  /// Branches are polled in declaration order.
  First,
  /// One start branch for the whole execution, all tried.
  PickOne,
  /// The same where no `select!` has more than this many branches.
  PickOf(u8),
  /// The given start branch.
  Start(u8),
  /// Every poll may start anywhere, at the cost of one deviation.
  PerPoll,
}

#[derive(Clone, Copy)]
pub struct Opts {
  pub select: Select,
  /// May tasks other than the first runnable one be picked (at the cost of one deviation each)?
  pub tasks: bool,
  /// Picking tasks is free of cost.
  pub free: bool,
  /// Are there pipes and files? Work of the blocking pool becomes ordinary tasks then.
  pub os: bool,
  /// One of the first so many tasks may be slow: it only runs when no other can. Which one, or none, is free of cost.
  pub slow: usize,
}

impl Default for Opts {
  fn default() -> Self {
    Opts { select: Select::First, tasks: true, free: false, os: false, slow: 0 }
  }
}

thread_local! {
  /// Starts simulated processes in the next run.
  pub static SPAWN: RefCell<Option<tokio::mc::SpawnHook>> = const { RefCell::new(None) };
  /// Priority classes of tasks by id: lower runs first by default; 0 when absent.
  static PRIO: RefCell<BTreeMap<u64, u8>> = const { RefCell::new(BTreeMap::new()) };
  pub static SEED: Cell<Option<u8>> = const { Cell::new(None) };
  static ASKED: Cell<u64> = const { Cell::new(0) };
  static POLLS: Cell<u64> = const { Cell::new(0) };
}

/// Overrides libc's: hash map keys of explored executions come from the explorer, so iteration orders are owned.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
  if let Ok(Some(s)) = SEED.try_with(|s| s.get()) {
    // The first to ask for randomness is the thread's hash map keys; identifiers made of it later are distinct.
    let n = ASKED.try_with(|a| a.replace(a.get() + 1)).unwrap_or(0);
    for i in 0..len {
      *buf.add(i) = s.wrapping_mul(37).wrapping_add(i as u8).wrapping_add((n as u8).wrapping_mul(101));
    }
    return len as isize;
  }
  libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}

struct SelfLock;
impl parking_lot::mc::LockHooks for SelfLock {
  fn before_acquire(&self, _: usize) {}
  fn wait_for(&self, _: usize) {
    panic!("deadlock: a lock is taken by the thread that already holds it");
  }
  fn acquired(&self, _: usize) {}
  fn released(&self, _: usize) {}
}

pub fn seed_hashing(seed: u8) {
  SEED.with(|s| s.set(Some(seed)));
  ASKED.with(|a| a.set(0));
}

/// Which iteration orders hash maps have: to be called before the execution creates any.
pub fn pick_seed(ctx: &Ctx, n: usize) {
  seed_hashing(ctx.pick("map-order", n) as u8);
}

pub struct Stuck;

const A_YEAR: Duration = Duration::from_secs(365 * 24 * 3600);

/// Runs `fut` to completion, then lets everything left over run until `drain` of virtual time has passed.
/// `Err(Stuck)`: nothing can make progress any more (or for a year of virtual time).
pub fn run<T: Send + 'static>(
  ctx: &Ctx,
  opts: Opts,
  fut: impl Future<Output = T> + Send + 'static,
  drain: Duration,
) -> Result<T, Stuck> {
  PRIO.with(|p| p.borrow_mut().clear());
  POLLS.with(|p| p.set(0));
  let c1 = ctx.clone();
  let c2 = ctx.clone();
  let start = match opts.select {
    Select::PickOne => Some(ctx.pick("select-start", 6)),
    Select::PickOf(n) => Some(ctx.pick("select-start", n as usize)),
    Select::Start(n) => Some(n as usize),
    _ => None,
  };
  let slow = if opts.slow == 0 { None } else { ctx.pick("slow-task", opts.slow + 1).checked_sub(1) };
  // Tasks in the order in which they were first seen.
  let known: RefCell<Vec<u64>> = Default::default();
  let mut late = false;
  parking_lot::mc::install(Rc::new(SelfLock));
  tokio::mc::install(tokio::mc::Hooks {
    blocking: opts.os,
    spawn: SPAWN.with(|s| s.borrow_mut().take()),
    pick_task: Box::new(move |ids| {
      POLLS.with(|p| p.set(p.get() + 1));
      // Default order: by priority class, then queue order.
      let mut order: Vec<usize> = (0..ids.len()).collect();
      PRIO.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(slow) = slow {
          let mut known = known.borrow_mut();
          for id in ids {
            if known.len() <= slow && !known.contains(id) {
              known.push(*id);
              if known.len() == slow + 1 {
                p.insert(*id, u8::MAX);
              }
            }
          }
        } else if opts.tasks && !opts.free && !late {
          // Any task may turn out to be slow throughout, which counts as one deviation.
          let mut known = known.borrow_mut();
          for id in ids {
            if !late && !p.contains_key(id) && !known.contains(id) {
              known.push(*id);
              if c1.dev("slow", 2) == 1 {
                p.insert(*id, u8::MAX);
                late = true;
              }
            }
          }
        }
        order.sort_by_key(|i| p.get(&ids[*i]).copied().unwrap_or(0));
      });
      if !opts.tasks {
        return order[0];
      }
      let i = if opts.free { c1.pick("task", ids.len()) } else { c1.dev("task", ids.len()) };
      order[i]
    }),
    rng_n: Box::new(move |n| match opts.select {
      Select::First => 0,
      Select::PickOne | Select::PickOf(_) | Select::Start(_) => (start.unwrap() % n as usize) as u32,
      Select::PerPoll => c2.dev("select", n as usize) as u32,
    }),
  });
  let mut b = tokio::runtime::Builder::new_current_thread();
  b.enable_time().start_paused(true);
  if opts.os {
    b.enable_io();
  }
  let rt = b.build().expect("runtime");
  let res = rt.block_on(async move {
    let h = tokio::spawn(fut);
    tokio::select! {
      biased;
      r = h => match r {
        Ok(v) => {
          if !drain.is_zero() {
            tokio::time::sleep(drain).await;
          }
          Ok(v)
        }
        Err(e) => std::panic::resume_unwind(e.into_panic()),
      },
      _ = tokio::time::sleep(A_YEAR) => Err(Stuck),
    }
  });
  drop(rt);
  tokio::mc::uninstall();
  parking_lot::mc::uninstall();
  res
}

pub struct YieldOnce(bool);
impl Future for YieldOnce {
  type Output = ();
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
    if self.0 {
      Poll::Ready(())
    } else {
      self.0 = true;
      cx.waker().wake_by_ref();
      Poll::Pending
    }
  }
}

/// Gives every other runnable task a chance to run first.
pub fn yield_once() -> YieldOnce {
  YieldOnce(false)
}

/// Spawns a task of priority class `prio`: by default it runs only when no lower class can.
pub fn spawn_prio<F>(prio: u8, fut: F) -> tokio::task::JoinHandle<F::Output>
where
  F: Future + Send + 'static,
  F::Output: Send + 'static,
{
  let h = tokio::spawn(fut);
  let id: u64 = h.id().to_string().parse().expect("task id");
  PRIO.with(|p| p.borrow_mut().insert(id, prio));
  h
}
