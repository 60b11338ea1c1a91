//! The default scheduler: C16, C17.
use super::{Check, Tier};
use crate::ctl::{self, Body};
use crate::engine::{scenario, viol, Ctx, Scenario, Violation};
use crate::ensure;
use astro_run::{Command, ContainerOptions, Context, JobId, JobRunResult, StepId, StepRunResult, WorkflowState};
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

// Names that begin with one another.
const OS: [&str; 2] = ["mac", "macos"];
const ARCH: [&str; 2] = ["arm", "arm64"];

fn runner(id: usize, kind: usize) -> RunnerMetadata {
  RunnerMetadata {
    id: format!("r{id}"),
    support_docker: kind & 1 == 0,
    support_host: kind & 2 == 0,
    os: OS[kind >> 2 & 1].into(),
    arch: ARCH[kind >> 3 & 1].into(),
    version: "0.2.0".into(),
    max_runs: 5,
  }
}

/// Jobs of different workflows may have equal keys.
fn job_id(job: usize) -> JobId {
  let (w, j) = [("w", "j0"), ("v", "j0"), ("w", "j1"), ("v", "j1")][job];
  JobId::new(w, j)
}

fn step_id(job: usize, step: usize) -> StepId {
  let id = job_id(job);
  StepId::new(id.workflow_id().inner(), id.job_key(), step)
}

fn context(job: usize, step: usize, container: Option<&str>) -> Context {
  let id = step_id(job, step);
  Context {
    id: id.clone(),
    signal: Default::default(),
    command: Command { id, container: container.map(|c| ContainerOptions { name: c.into(), volumes: None, security_opts: None }), ..Default::default() },
    event: None,
    payload: None,
  }
}

/// Polls to completion: nothing here waits for anything.
fn now<T>(f: impl std::future::Future<Output = T>) -> T {
  let mut f = Box::pin(f);
  let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
  for _ in 0..1000 {
    if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
      return r;
    }
  }
  panic!("the scheduler does not answer");
}

fn schedule(s: &DefaultScheduler, fleet: &[RunnerMetadata], ctx: &Context) -> Option<String> {
  now(s.schedule(fleet, ctx)).map(|r| r.id.clone())
}

/// How what is placed ends; 4: differently each time.

fn end_of(how: usize, n: usize) -> WorkflowState {
  [WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped][if how == 4 { n % 4 } else { how }].clone()
}

fn step_result(id: StepId, how: usize) -> StepRunResult {
  let state = end_of(how, id.step_number());
  let at = (state != WorkflowState::Skipped).then(chrono::DateTime::default);
  StepRunResult { id, exit_code: (state == WorkflowState::Failed).then_some(1), state, started_at: at, completed_at: at }
}

fn step_done(s: &DefaultScheduler, id: StepId, how: usize) {
  s.on_step_completed(step_result(id, how));
}

fn job_done(s: &DefaultScheduler, job: usize, how: usize) {
  let steps = (0..how).map(|n| step_result(step_id(job, n), how)).collect();
  let at = (how != 3).then(chrono::DateTime::default);
  s.on_job_completed(JobRunResult { id: job_id(job), state: end_of(how, job + 1), started_at: at, completed_at: at, steps });
}

/// What has been placed so far, according to the reference.
#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
  /// (job, step) -> runner
  steps: BTreeMap<(usize, usize), String>,
  jobs: BTreeMap<usize, String>,
}

fn host_fits(r: &RunnerMetadata, c: &str) -> bool {
  r.support_host && (c == format!("host/{}", r.os) || c == format!("host/{}-{}", r.os, r.arch))
}

impl Model {
  fn load(&self, r: &str) -> usize {
    self.steps.values().filter(|x| *x == r).count()
  }

  /// Is this placement right? Applies it.
  fn place(&mut self, fleet: &[RunnerMetadata], job: usize, step: usize, container: Option<&str>, got: &Option<String>) -> Result<(), Violation> {
    let host = container.filter(|c| c.starts_with("host/"));
    let who = || format!("step j{job}/{step} ({container:?}) with {:?} and {self:?} went to {got:?}", brief(fleet));
    if let Some(c) = host {
      let fit: Vec<&RunnerMetadata> = fleet.iter().filter(|r| host_fits(r, c)).collect();
      match got {
        None => ensure!(fit.is_empty(), "declined", "{}", who()),
        Some(g) => ensure!(fit.iter().any(|r| r.id == *g), "incapable", "{}", who()),
      }
    } else {
      let kept = self.jobs.get(&job).filter(|k| fleet.iter().any(|r| r.id == **k));
      match (kept, got) {
        (Some(k), g) => ensure!(g.as_ref() == Some(k), "affinity", "{}", who()),
        (None, None) => ensure!(!fleet.iter().any(|r| r.support_docker), "declined", "{}", who()),
        (None, Some(g)) => {
          let r = fleet.iter().find(|r| r.id == *g);
          ensure!(r.is_some_and(|r| r.support_docker), "incapable", "{}", who());
          let least = fleet.iter().filter(|r| r.support_docker).map(|r| self.load(&r.id)).min().unwrap();
          ensure!(self.load(g) == least, "unbalanced", "{}", who());
        }
      }
    }
    if let Some(g) = got {
      self.steps.insert((job, step), g.clone());
      if host.is_none() {
        self.jobs.insert(job, g.clone());
      }
    }
    Ok(())
  }
}

fn brief(fleet: &[RunnerMetadata]) -> Vec<String> {
  fleet.iter().map(|r| format!("{}:{}-{}{}{}", r.id, r.os, r.arch, if r.support_docker { " docker" } else { "" }, if r.support_host { " host" } else { "" })).collect()
}

fn mon_state(s: &DefaultScheduler, m: &Model) -> Result<(), Violation> {
  let st = s.state.lock().clone();
  let mut want: BTreeMap<String, i32> = BTreeMap::new();
  for r in m.steps.values() {
    *want.entry(r.clone()).or_default() += 1;
  }
  let got: BTreeMap<String, i32> = st.runs_count.into_iter().filter(|(_, n)| *n != 0).collect();
  ensure!(got == want, "count", "counts are {got:?}, placed and not completed are {want:?}");
  Ok(())
}

fn mon_empty(s: &DefaultScheduler) -> Result<(), Violation> {
  let st = s.state.lock().clone();
  ensure!(
    st.runs_count.is_empty() && st.job_runners.is_empty() && st.step_runners.is_empty(),
    "not-forgotten",
    "everything has completed, the scheduler still holds {:?} {:?} {:?}",
    st.runs_count,
    st.job_runners,
    st.step_runners
  );
  Ok(())
}

const CONTAINERS: [Option<&str>; 9] = [
  None,
  Some("ubuntu"),
  Some("host/mac"),
  Some("host/mac-arm"),
  Some("host/mac-arm64"),
  Some("host/macos"),
  Some("host/macos-arm64"),
  Some("host/other"),
  Some("host/"),
];

fn c16(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("fleets", 0, move |ctx| {
    let n = ctx.pick("runners", 4);
    let kinds: Vec<usize> = (0..n)
      .map(|i| if n == 3 && tier == Tier::Quick { [0, 1, 2, 3, 5, 8, 9, 12][ctx.pick("kind", 8)] } else { ctx.pick(if i == 0 { "kind0" } else { "kind" }, 16) })
      .collect();
    let mut fleet: Vec<RunnerMetadata> = kinds.iter().enumerate().map(|(i, k)| runner(i, *k)).collect();
    // However much a runner says it takes at once: this scheduler places steps by load alone.
    let most = *ctx.of("max-runs", if n < 3 || tier == Tier::Thorough { &[5, 0, 1, 2, -1][..] } else { &[1, 0] });
    for (i, r) in fleet.iter_mut().enumerate() {
      r.max_runs = if i == 0 { most } else { 5 };
    }
    let s = DefaultScheduler::new();
    let mut m = Model::default();
    // What happened before in the same job and another one.
    let mut step = 0;
    for (job, c) in match ctx.pick("before", tier.or(5, 6)) {
      0 => vec![],
      1 => vec![(0, None)],
      2 => vec![(0, Some("host/mac"))],
      3 => vec![(1, None), (1, None)],
      4 => vec![(0, None), (0, Some("host/macos-arm64"))],
      _ => vec![(1, Some("host/mac-arm")), (0, Some("ubuntu")), (1, None)],
    } {
      let got = schedule(&s, &fleet, &context(job, step, c));
      m.place(&fleet, job, step, c, &got)?;
      step += 1;
    }
    let c = *ctx.of("container", &CONTAINERS);
    let got = schedule(&s, &fleet, &context(0, step, c));
    m.place(&fleet, 0, step, c, &got)?;
    mon_state(&s, &m)?;
    Ok(format!("{got:?} {n}"))
  }));
  // The fleet changes between placements.
  v.push(scenario("changing-fleets", 0, move |ctx| {
    let kinds: Vec<usize> = (0..3).map(|_| [0, 1, 2, 8][ctx.pick("kind", 4)]).collect();
    let all: Vec<RunnerMetadata> = kinds.iter().enumerate().map(|(i, k)| runner(i, *k)).collect();
    let s = DefaultScheduler::new();
    let mut m = Model::default();
    let mut out = vec![];
    for step in 0..tier.or(2, 3) {
      let present = ctx.pick("present", 8);
      let fleet: Vec<RunnerMetadata> = all.iter().enumerate().filter(|(i, _)| present >> i & 1 == 0).map(|(_, r)| r.clone()).collect();
      let c = *ctx.of("container", &[None, Some("host/mac"), Some("host/mac-arm64")]);
      let got = schedule(&s, &fleet, &context(0, step, c));
      m.place(&fleet, 0, step, c, &got)?;
      out.push(got);
    }
    Ok(format!("{out:?}"))
  }));
  v
}

#[derive(Clone, Debug)]
enum Cmd {
  Place(usize, Option<&'static str>),
  /// Completes the n-th of this job's steps.
  StepDone(usize, usize),
  JobDone(usize),
}

/// Is there an order of all threads' operations, each thread's kept, in which every answer is right and after
/// which the counts are these?
fn explain(fleet: &[RunnerMetadata], m: &Model, ops: &[Vec<(Cmd, Option<String>, usize)>], at: &mut Vec<usize>, counts: &BTreeMap<String, i32>) -> bool {
  if at.iter().zip(ops).all(|(a, o)| *a == o.len()) {
    let mut want: BTreeMap<String, i32> = BTreeMap::new();
    for r in m.steps.values() {
      *want.entry(r.clone()).or_default() += 1;
    }
    return want == *counts;
  }
  for t in 0..ops.len() {
    if at[t] == ops[t].len() {
      continue;
    }
    let (c, got, step) = &ops[t][at[t]];
    let mut m = m.clone();
    match c {
      Cmd::Place(j, c) => {
        if m.place(fleet, *j, *step, *c, got).is_err() {
          continue;
        }
      }
      Cmd::StepDone(j, s) => {
        m.steps.remove(&(*j, *s));
      }
      Cmd::JobDone(j) => {
        m.jobs.remove(j);
      }
    }
    at[t] += 1;
    let ok = explain(fleet, &m, ops, at, counts);
    at[t] -= 1;
    if ok {
      return true;
    }
  }
  false
}

fn threads(ctx: &Ctx, fleet: Vec<RunnerMetadata>, before: Vec<Cmd>, plans: Vec<Vec<Cmd>>) -> Result<String, Violation> {
  let release = ctx.flag("release-points");
  let how = if ctx.flag("not-succeeded") { 4 } else { 0 };
  let s = DefaultScheduler::new();
  let mut m = Model::default();
  let mut next: BTreeMap<usize, usize> = BTreeMap::new();
  for c in before {
    let Cmd::Place(j, c) = c else { unreachable!() };
    let k = next.entry(j).or_default();
    let got = schedule(&s, &fleet, &context(j, *k, c));
    m.place(&fleet, j, *k, c, &got)?;
    *k += 1;
  }
  let done: Vec<Arc<Mutex<Vec<(Cmd, Option<String>, usize)>>>> = plans.iter().map(|_| Default::default()).collect();
  let mut bodies: Vec<Body> = vec![];
  for (t, plan) in plans.into_iter().enumerate() {
    let (s, fleet, done, mut next) = (s.clone(), fleet.clone(), done[t].clone(), next.clone());
    bodies.push(Box::new(move |_| {
      for c in plan {
        let (got, step) = match &c {
          Cmd::Place(j, cont) => {
            let k = next.entry(*j).or_default();
            let step = *k;
            *k += 1;
            (schedule(&s, &fleet, &context(*j, step, *cont)), step)
          }
          Cmd::StepDone(j, k) => {
            step_done(&s, step_id(*j, *k), how);
            (None, 0)
          }
          Cmd::JobDone(j) => {
            job_done(&s, *j, how);
            (None, 0)
          }
        };
        done.lock().unwrap().push((c, got, step));
      }
    }));
  }
  ctl::run(ctx, release, bodies)?;
  let ops: Vec<_> = done.iter().map(|d| d.lock().unwrap().clone()).collect();
  let counts: BTreeMap<String, i32> = s.state.lock().runs_count.clone().into_iter().filter(|(_, n)| *n != 0).collect();
  let mut at = vec![0; ops.len()];
  ensure!(
    explain(&fleet, &m, &ops, &mut at, &counts),
    "concurrent",
    "with {:?}, after {m:?}, concurrent callers did and got {ops:?}, the counts are {counts:?}: no order of these explains that",
    brief(&fleet)
  );
  // Whatever is left completes.
  let mut jobs = vec![];
  let left: Vec<StepId> = s.state.lock().step_runners.keys().cloned().collect();
  for id in left {
    step_done(&s, id, how);
  }
  for j in 0..4 {
    jobs.push(j);
    job_done(&s, j, how);
  }
  mon_empty(&s)?;
  Ok(format!("{ops:?}"))
}

fn c17(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  let depth = tier.or(6, 7);
  v.push(scenario(format!("histories{depth}"), 0, move |ctx| {
    let kinds = [[0, 0, 0], [0, 8, 1], [0, 3, 0], [1, 1, 0]][ctx.pick("fleet", 4)];
    // How steps and jobs end is nothing to the scheduler.
    let how = [0, 4, 1][ctx.pick("ends", 3)];
    let depth = depth - (how > 0) as usize;
    let all: Vec<RunnerMetadata> = kinds.iter().enumerate().map(|(i, k)| runner(i, *k)).collect();
    let mut present = vec![true; 3];
    let s = DefaultScheduler::new();
    let mut m = Model::default();
    // Per job: steps so far, steps not completed (in order of placement, declined ones too), over?
    let mut next = [0usize; 3];
    let mut open: Vec<Vec<usize>> = vec![vec![]; 3];
    let mut out = String::new();
    for _ in 0..depth {
      let fleet: Vec<RunnerMetadata> = all.iter().zip(&present).filter(|x| *x.1).map(|x| x.0.clone()).collect();
      let op = ctx.pick("op", 9);
      match op {
        0 => break,
        1..=3 => {
          let j = op - 1;
          let k = next[j];
          next[j] += 1;
          let got = schedule(&s, &fleet, &context(j, k, None));
          m.place(&fleet, j, k, None, &got)?;
          open[j].push(k);
          out += &format!("{j}:{} ", got.unwrap_or_default());
        }
        4 => {
          let k = next[0];
          next[0] += 1;
          let got = schedule(&s, &fleet, &context(0, k, Some("host/mac")));
          m.place(&fleet, 0, k, Some("host/mac"), &got)?;
          open[0].push(k);
          out += &format!("h:{} ", got.unwrap_or_default());
        }
        5 | 6 => {
          // The oldest open step of job 0 / the newest of job 1.
          let j = op - 5;
          if open[j].is_empty() {
            continue;
          }
          let k = if j == 0 { open[j].remove(0) } else { open[j].pop().unwrap() };
          step_done(&s, step_id(j, k), how);
          m.steps.remove(&(j, k));
        }
        7 => {
          // Job 0 ends: its open steps first, as in a run.
          for k in open[0].drain(..) {
            step_done(&s, step_id(0, k), how);
            m.steps.remove(&(0, k));
          }
          job_done(&s, 0, how);
          m.jobs.remove(&0);
        }
        _ => present[0] = !present[0],
      }
      mon_state(&s, &m)?;
    }
    for j in 0..3 {
      for k in open[j].drain(..) {
        step_done(&s, step_id(j, k), how);
        m.steps.remove(&(j, k));
        mon_state(&s, &m)?;
      }
      job_done(&s, j, how);
    }
    mon_empty(&s)?;
    Ok(out)
  }));
  // Several callers at once.
  v.push(scenario("concurrent-callers", tier.or(2, 3), move |ctx| {
    let fleet: Vec<RunnerMetadata> = (0..2 + ctx.pick("runners", 2)).map(|i| runner(i, 0)).collect();
    let before = match ctx.pick("before", 3) {
      0 => vec![],
      1 => vec![Cmd::Place(0, None)],
      _ => vec![Cmd::Place(0, None), Cmd::Place(1, None)],
    };
    let nb = before.len();
    let mut plans = vec![];
    for t in 0..2 {
      // The thread's own job, or one begun before.
      let j = if t < nb { t } else { 2 + t };
      let first = if t < nb { 1 } else { 0 };
      plans.push(match ctx.pick("plan", 5) {
        0 => vec![Cmd::Place(j, None)],
        1 => vec![Cmd::Place(j, None), Cmd::StepDone(j, first)],
        2 => vec![Cmd::Place(j, Some("host/mac")), Cmd::Place(j, None)],
        3 if first == 1 => vec![Cmd::StepDone(j, 0), Cmd::JobDone(j)],
        3 => vec![Cmd::Place(j, None), Cmd::Place(j, None)],
        _ if first == 1 => vec![Cmd::StepDone(j, 0), Cmd::Place(j, None)],
        _ => vec![Cmd::Place(j, None), Cmd::StepDone(j, first), Cmd::JobDone(j)],
      });
    }
    threads(ctx, fleet, before, plans)
  }));
  v.push(scenario("three-callers", tier.or(2, 3), move |ctx| {
    let fleet: Vec<RunnerMetadata> = (0..3).map(|i| runner(i, 0)).collect();
    let plans = (0..3).map(|j| if ctx.flag("completes") { vec![Cmd::Place(j, None), Cmd::StepDone(j, 0)] } else { vec![Cmd::Place(j, None)] }).collect();
    threads(ctx, fleet, vec![], plans)
  }));
  v
}

#[allow(dead_code)]
fn _unused() -> Result<(), Violation> {
  viol("", "")
}

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "C16",
      level: "model_checking",
      rule: "All fleets of up to three runners over operating system, architecture, docker and host support; all containers; several histories of earlier placements; all sequences of fleet changes to a depth. Oracle: the set of capable runners.",
      assumptions: &["A runner's capabilities do not change while it is connected."],
      scenarios: c16,
    },
    Check {
      id: "C17",
      level: "model_checking",
      rule: "All sequences of placements, completions and fleet changes to a depth against a reference of what is placed; all interleavings of two or three concurrent callers within a preemption bound, judged by linearizability.",
      assumptions: &["Steps of one job are placed one after another, as jobs do.", "Step identifiers in use at one time are distinct."],
      scenarios: c17,
    },
  ]
}
