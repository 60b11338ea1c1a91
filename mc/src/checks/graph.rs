//! Workflow runs through the real orchestrator: C01, C02, C03, C04, C05, C06, C07.
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Outcome, Scenario, Violation};
use crate::ensure;
use crate::rt::{self, Opts, Select};
use crate::wf::*;
use astro_run::*;
use std::collections::{BTreeMap, BTreeSet};
use std::result::Result;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::Duration;

pub struct S {
  pub ops: Vec<Op>,
  pub coe: bool,
}

pub struct J {
  pub deps: Vec<usize>,
  pub steps: Vec<S>,
}

pub struct Spec {
  pub jobs: Vec<J>,
}

pub const WF: &str = "wf";

pub fn jid(j: usize) -> String {
  format!("{WF}/j{j}")
}
pub fn sid(j: usize, s: usize) -> String {
  format!("{WF}/j{j}/{s}")
}

/// Jobs (`None`) and steps whose condition does not match the trigger.
pub type Skips = BTreeSet<(usize, Option<usize>)>;
/// All other steps have a condition that does match.
const OTHERS_MATCH: (usize, Option<usize>) = (usize::MAX, None);
const UNMATCHED: &str = "on: {push: {branches: [release]}}";

impl Spec {
  pub fn yaml(&self) -> String {
    self.yaml_skipping(&Skips::new())
  }
  pub fn yaml_skipping(&self, skips: &Skips) -> String {
    let jobs: Vec<JobSpec> = self
      .jobs
      .iter()
      .enumerate()
      .map(|(i, j)| JobSpec {
        name: format!("j{i}"),
        deps: j.deps.iter().map(|d| format!("j{d}")).collect(),
        extra: if skips.contains(&(i, None)) { vec![UNMATCHED.into()] } else { vec![] },
        steps: j
          .steps
          .iter()
          .enumerate()
          .map(|(k, s)| StepSpec {
            run: format!("j{i}s{k}"),
            extra: {
              let mut v = vec![];
              if s.coe {
                v.push("continue-on-error: true".into());
              }
              if skips.contains(&(i, Some(k))) {
                v.push(UNMATCHED.into());
              } else if skips.contains(&OTHERS_MATCH) {
                v.push("on: {push: {branches: [main, release]}}".into());
              }
              v
            },
          })
          .collect(),
      })
      .collect();
    yaml(&jobs)
  }
  pub fn behave(&self, w: &World) {
    for (i, j) in self.jobs.iter().enumerate() {
      for (k, s) in j.steps.iter().enumerate() {
        w.behave(&format!("j{i}s{k}"), s.ops.clone());
      }
    }
  }
}

pub struct Out {
  pub events: Vec<Ev>,
  pub w: Arc<World>,
  /// None: the run did not terminate.
  pub result: Option<WorkflowRunResult>,
}

pub fn run_spec(
  ctx: &Ctx,
  opts: Opts,
  spec: &Spec,
  w: &Arc<World>,
  make: impl FnOnce(&Arc<World>) -> AstroRun + Send + 'static,
) -> Out {
  run_skipping(ctx, opts, spec, &Skips::new(), w, make)
}

/// With a push to `main` as trigger; `make` has to authorize for GitHub if anything is to be skipped.
pub fn run_skipping(
  ctx: &Ctx,
  opts: Opts,
  spec: &Spec,
  skips: &Skips,
  w: &Arc<World>,
  make: impl FnOnce(&Arc<World>) -> AstroRun + Send + 'static,
) -> Out {
  spec.behave(w);
  let text = spec.yaml_skipping(skips);
  let event = if skips.is_empty() { None } else { Some(super::conf::trigger("push", "main")) };
  if event.is_some() {
    super::conf::files_hook(Some(vec!["x"]), None, false);
  }
  let w2 = w.clone();
  let res = rt::run(
    ctx,
    opts,
    async move {
      let astro = make(&w2);
      let wf = Workflow::builder().id(WF).config(text.clone()).build(&astro).await;
      let wf = wf.unwrap_or_else(|e| panic!("not accepted: {e}\n{text}"));
      let mut ec = astro.execution_context();
      if let Some(e) = event {
        ec = ec.event(e);
      }
      wf.run(ec.build()).await
    },
    Duration::from_secs(7200),
  );
  Out { events: w.take(), w: w.clone(), result: res.ok() }
}

pub fn astro_authorized(w: &Arc<World>, plugins: usize) -> AstroRun {
  let mut b = AstroRun::builder().runner(MockRunner { w: w.clone(), fail_hooks: false, append: None }).github_personal_token("token");
  for idx in 0..plugins {
    b = b.plugin(Rec { w: Some(w.clone()), idx, ..Default::default() });
  }
  b.build()
}

pub fn hist(ev: &[Ev], who: &Who) -> String {
  ev.iter().filter(|e| e.who == *who || e.who == Who::World).map(|e| format!("{}ms {} {:?}", e.t, e.id, e.what)).collect::<Vec<_>>().join("; ")
}

/// What one observer saw, in order.
pub fn seen_by<'a>(ev: &'a [Ev], who: &Who) -> Vec<&'a Ev> {
  ev.iter().filter(|e| e.who == *who).collect()
}

fn job_done(e: &Ev) -> bool {
  matches!(e.what, What::JobDone(_)) || (matches!(e.what, What::State(WorkflowState::Skipped)) && e.id.matches('/').count() == 1)
}

// ---------------------------------------------------------------- C01

pub fn mon_start_once(spec: &Spec, o: &Out) -> Result<(), Violation> {
  let who = if o.events.iter().any(|e| e.who == Who::Plugin(0)) { Who::Plugin(0) } else { Who::Runner };
  let ev = &o.events;
  let at = |id: &str, f: &dyn Fn(&Ev) -> bool| ev.iter().position(|e| e.who == who && e.id == id && f(e));
  for (i, j) in spec.jobs.iter().enumerate() {
    let id = jid(i);
    let starts = ev.iter().filter(|e| e.who == who && e.id == id && e.what == What::RunJob).count();
    ensure!(starts <= 1, "started-twice", "job j{i} was started {starts} times: {}", hist(ev, &who));
    for k in 0..j.steps.len() {
      let runs = ev.iter().filter(|e| e.what == What::Run && e.id == sid(i, k)).count();
      ensure!(runs <= 1, "step-ran-twice", "step {k} of job j{i} ran {runs} times: {}", hist(ev, &who));
    }
    let dones: Vec<Option<usize>> = j.deps.iter().map(|d| at(&jid(*d), &job_done)).collect();
    let begun = ev.iter().position(|e| (e.id == id || e.id.starts_with(&format!("{id}/"))) && !matches!(e.what, What::State(WorkflowState::Skipped)));
    if let Some(b) = begun {
      for (d, done) in j.deps.iter().zip(&dones) {
        ensure!(
          done.is_some_and(|x| x < b),
          "started-early",
          "job j{i} was started before j{d}, which it depends on, had completed: {}",
          hist(ev, &who)
        );
      }
    }
    // Eligible jobs start at once: nothing but running steps takes (virtual) time here.
    if dones.iter().all(|d| d.is_some()) {
      let due = dones.iter().map(|d| ev[d.unwrap()].t).max().unwrap_or(0);
      let Some(s) = at(&id, &|e| e.what == What::RunJob || job_done(e)) else {
        return viol("never-started", format!("job j{i} was never started although its dependencies completed: {}", hist(ev, &who)));
      };
      ensure!(
        ev[s].t == due,
        "started-late",
        "job j{i} could start at {due} ms but started at {} ms: {}",
        ev[s].t,
        hist(ev, &who)
      );
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C02

pub fn mon_terminates(spec: &Spec, o: &Out) -> Result<(), Violation> {
  let Some(r) = &o.result else {
    return viol("hang", format!("the run did not terminate: {}\n{}", spec.yaml(), hist(&o.events, &Who::Runner)));
  };
  complete_result(spec, r)
}

pub fn complete_result(spec: &Spec, r: &WorkflowRunResult) -> Result<(), Violation> {
  ensure!(r.id == WorkflowId::new(WF), "wrong-id", "result carries id {}", r.id);
  ensure!(r.state.is_terminal(), "not-terminal", "workflow result is {:?}", r.state);
  let want: BTreeSet<String> = (0..spec.jobs.len()).map(|i| format!("j{i}")).collect();
  let got: BTreeSet<String> = r.jobs.keys().cloned().collect();
  ensure!(want == got, "jobs-missing", "results for {got:?} of {want:?}");
  for (i, j) in spec.jobs.iter().enumerate() {
    let jr = &r.jobs[&format!("j{i}")];
    ensure!(jr.id == JobId::new(WF, format!("j{i}")), "wrong-id", "result of j{i} carries id {}", jr.id);
    ensure!(jr.state.is_terminal(), "not-terminal", "result of j{i} is {:?}", jr.state);
    if jr.state == WorkflowState::Skipped {
      continue;
    }
    ensure!(jr.steps.len() == j.steps.len(), "steps-missing", "job j{i} has {} of {} step results", jr.steps.len(), j.steps.len());
    for (k, s) in jr.steps.iter().enumerate() {
      ensure!(s.id == StepId::new(WF, format!("j{i}"), k), "wrong-id", "step result {k} of j{i} carries id {}", s.id);
      ensure!(s.state.is_terminal(), "not-terminal", "step {} is {:?}", s.id, s.state);
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Oc {
  Ok,
  Fail(i32),
  Cancel,
  Refuse,
}

pub const OCS: [Oc; 4] = [Oc::Ok, Oc::Fail(7), Oc::Cancel, Oc::Refuse];

impl Oc {
  pub fn ops(self) -> Op {
    match self {
      Oc::Ok => Op::End(RunResult::Succeeded),
      Oc::Fail(c) => Op::End(RunResult::Failed { exit_code: c }),
      Oc::Cancel => Op::End(RunResult::Cancelled),
      Oc::Refuse => Op::Refuse,
    }
  }
  pub fn result(self) -> (WorkflowState, Option<i32>) {
    match self {
      Oc::Ok => (WorkflowState::Succeeded, None),
      Oc::Fail(c) => (WorkflowState::Failed, Some(c)),
      Oc::Cancel => (WorkflowState::Cancelled, None),
      Oc::Refuse => (WorkflowState::Failed, Some(1)),
    }
  }
}

/// The reference: what a job does with steps of these outcomes. `None`: skipped.
pub fn job_reference(steps: &[(Oc, bool)]) -> (WorkflowState, Vec<Option<Oc>>) {
  let mut failed = false;
  let mut cancelled = false;
  let mut last = WorkflowState::Succeeded;
  let mut out = vec![];
  for (oc, coe) in steps {
    if cancelled || (failed && !coe) {
      out.push(None);
      continue;
    }
    out.push(Some(*oc));
    match oc.result().0 {
      WorkflowState::Failed => {
        failed = true;
        last = WorkflowState::Failed;
      }
      WorkflowState::Cancelled => {
        cancelled = true;
        last = WorkflowState::Cancelled;
      }
      _ => {}
    }
  }
  (last, out)
}

pub fn mon_steps(j: usize, steps: &[(Oc, bool)], o: &Out) -> Result<(), Violation> {
  mon_steps_skipping(j, steps, &[], o)
}

/// `unmatched`: steps whose condition does not match; they count for nothing.
pub fn mon_steps_skipping(j: usize, steps: &[(Oc, bool)], unmatched: &[usize], o: &Out) -> Result<(), Violation> {
  let rest: Vec<(Oc, bool)> = steps.iter().enumerate().filter(|(k, _)| !unmatched.contains(k)).map(|(_, s)| *s).collect();
  let (state, mut exec) = job_reference(&rest);
  for k in unmatched {
    exec.insert(*k, None);
  }
  let ev = &o.events;
  let who = Who::Runner;
  // Order and exclusion, as the runner sees it.
  let mut prev_end = 0usize;
  for (k, x) in exec.iter().enumerate() {
    let id = sid(j, k);
    let runs: Vec<usize> = ev.iter().enumerate().filter(|(_, e)| e.what == What::Run && e.id == id).map(|(i, _)| i).collect();
    match x {
      None => ensure!(runs.is_empty(), "skipped-step-ran", "step {k} of {steps:?} should have been skipped: {}", hist(ev, &who)),
      Some(_) => {
        ensure!(runs.len() == 1, "step-runs", "step {k} of {steps:?} ran {} times: {}", runs.len(), hist(ev, &who));
        let first = ev.iter().position(|e| e.id == id).unwrap();
        ensure!(first >= prev_end, "steps-overlap", "step {k} began before the previous step had ended: {}", hist(ev, &who));
        if let Some(end) = ev.iter().rposition(|e| e.id == id) {
          prev_end = end;
        }
      }
    }
  }
  let Some(r) = &o.result else { return Ok(()) };
  let jr = &r.jobs[&format!("j{j}")];
  ensure!(jr.state == state, "job-state", "job state {:?}, expected {state:?} for {steps:?}", jr.state);
  for (k, (x, s)) in exec.iter().zip(&jr.steps).enumerate() {
    let want = x.map(|x| x.result()).unwrap_or((WorkflowState::Skipped, None));
    ensure!(
      (s.state.clone(), s.exit_code) == want,
      "step-result",
      "step {k} of {steps:?}: got {:?} {:?}, expected {want:?}",
      s.state,
      s.exit_code
    );
    ensure!(
      s.started_at.is_some() == x.is_some() && s.completed_at.is_some() == x.is_some(),
      "step-times",
      "step {k}: started/completed times of a step that {}",
      if x.is_some() { "ran are missing" } else { "was skipped are present" }
    );
  }
  Ok(())
}

// ---------------------------------------------------------------- C05

pub fn mon_workflow_state(o: &Out) -> Result<(), Violation> {
  let Some(r) = &o.result else { return Ok(()) };
  let failed = r.jobs.values().any(|j| j.state == WorkflowState::Failed);
  let cancelled = r.jobs.values().any(|j| j.state == WorkflowState::Cancelled);
  let ok = match r.state {
    WorkflowState::Succeeded => !failed && !cancelled,
    WorkflowState::Failed => failed,
    WorkflowState::Cancelled => cancelled,
    _ => false,
  };
  ensure!(ok, "workflow-state", "workflow is {:?} but its jobs are {}", r.state, result_text(r));
  let unsuccessful = r.jobs.values().flat_map(|j| &j.steps).any(|s| matches!(s.state, WorkflowState::Failed | WorkflowState::Cancelled));
  ensure!(!unsuccessful || r.state != WorkflowState::Succeeded, "failed-step-ignored", "the workflow is Succeeded although steps failed: {}", result_text(r));
  // Everybody who was told was told the same.
  for e in &o.events {
    if let What::WorkflowDone(s) = &e.what {
      ensure!(*s == r.state, "workflow-state-told", "{:?} was told {s:?}, the result says {:?}", e.who, r.state);
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C06

fn kind_of(id: &str) -> usize {
  id.matches('/').count()
}

fn parent(id: &str) -> Option<&str> {
  id.rfind('/').map(|i| &id[..i])
}

/// The order of one entity's notifications at one observer.
fn grammar(id: &str, seq: &[&What]) -> Result<(), String> {
  use WorkflowState as W;
  let names = || format!("{id}: {seq:?}");
  if seq == [&What::State(W::Skipped)] {
    return Ok(());
  }
  let start = match kind_of(id) {
    0 => What::RunWorkflow,
    1 => What::RunJob,
    _ => What::RunStep,
  };
  let mut it = seq.iter().filter(|w| ***w != What::Run).peekable();
  if kind_of(id) == 2 {
    if it.peek() == Some(&&&What::BeforeStep) {
      it.next();
    }
  }
  if it.next() != Some(&&start) {
    return Err(format!("does not begin with its start notification: {}", names()));
  }
  if kind_of(id) < 2 {
    if it.next() != Some(&&What::State(W::InProgress)) {
      return Err(format!("InProgress does not follow the start: {}", names()));
    }
  } else {
    if it.next() != Some(&&What::State(W::Queued)) {
      return Err(format!("Queued does not follow the start: {}", names()));
    }
    if it.peek() == Some(&&&What::State(W::InProgress)) {
      it.next();
      while matches!(it.peek(), Some(What::Log(..))) {
        it.next();
      }
    } else if it.peek() != Some(&&&What::State(W::Failed)) {
      return Err(format!("neither accepted nor failed after Queued: {}", names()));
    }
  }
  let Some(What::State(t)) = it.next() else {
    return Err(format!("no terminal state: {}", names()));
  };
  if !t.is_terminal() || *t == W::Skipped {
    return Err(format!("{t:?} where a terminal state should be: {}", names()));
  }
  let done = match it.next() {
    Some(What::WorkflowDone(s)) if kind_of(id) == 0 => s,
    Some(What::JobDone(s)) if kind_of(id) == 1 => s,
    Some(What::StepDone(s, _)) if kind_of(id) == 2 => s,
    _ => return Err(format!("no completion notification after the terminal state: {}", names())),
  };
  if done != t {
    return Err(format!("completed with {done:?} after state {t:?}: {}", names()));
  }
  if it.next().is_some() {
    return Err(format!("notified after its completion: {}", names()));
  }
  Ok(())
}

pub fn mon_lifecycle(spec: &Spec, o: &Out, observers: &[Who], expect_run: &dyn Fn(usize, usize) -> Option<bool>) -> Result<(), Violation> {
  let Some(r) = &o.result else { return Ok(()) };
  for who in observers {
    let mut by_id: BTreeMap<&str, Vec<(usize, &What)>> = BTreeMap::new();
    for (i, e) in o.events.iter().enumerate().filter(|(_, e)| e.who == *who) {
      by_id.entry(&e.id).or_default().push((i, &e.what));
    }
    let mut want: Vec<String> = vec![WF.into()];
    for (i, j) in spec.jobs.iter().enumerate() {
      want.push(jid(i));
      if r.jobs.get(&format!("j{i}")).map(|x| x.state == WorkflowState::Skipped) == Some(true) {
        continue;
      }
      for k in 0..j.steps.len() {
        want.push(sid(i, k));
      }
    }
    for id in &want {
      let Some(seq) = by_id.get(id.as_str()) else {
        return viol("not-notified", format!("{who:?} was told nothing about {id}: {}", hist(&o.events, who)));
      };
      let seq: Vec<&What> = seq.iter().map(|x| x.1).collect();
      if let Err(e) = grammar(id, &seq) {
        return viol("order", format!("{who:?}: {e}"));
      }
    }
    for id in by_id.keys() {
      ensure!(want.iter().any(|w| w == id), "unknown-entity", "{who:?} was told about {id}");
    }
    // Children inside their parents.
    for (id, seq) in &by_id {
      let Some(p) = parent(id) else { continue };
      let ps = &by_id[p];
      let first = seq.first().unwrap().0;
      let last = seq.last().unwrap().0;
      let pstart = ps.iter().find(|x| x.1 == &What::State(WorkflowState::InProgress)).map(|x| x.0);
      let pend = ps.iter().rev().find(|x| matches!(x.1, What::State(s) if s.is_terminal())).map(|x| x.0);
      ensure!(
        pstart.is_some_and(|s| s < first) && pend.is_some_and(|e| e > last),
        "not-nested",
        "{who:?}: notifications of {id} do not lie within those of {p}: {}",
        hist(&o.events, who)
      );
    }
    // The steps of a job one after the other.
    for (i, j) in spec.jobs.iter().enumerate() {
      let steps: Vec<(usize, usize)> = (0..j.steps.len())
        .filter_map(|k| by_id.get(sid(i, k).as_str()))
        .map(|seq| (seq.first().unwrap().0, seq.last().unwrap().0))
        .collect();
      ensure!(
        steps.windows(2).all(|w| w[0].1 < w[1].0),
        "steps-mixed",
        "{who:?}: the steps of {} are not reported one after the other: {}",
        jid(i),
        hist(&o.events, who)
      );
    }
    // Acceptance by the runner is what makes a step InProgress.
    for (i, j) in spec.jobs.iter().enumerate() {
      for k in 0..j.steps.len() {
        if let (Some(acc), Some(seq)) = (expect_run(i, k), by_id.get(sid(i, k).as_str())) {
          let inp = seq.iter().any(|x| x.1 == &What::State(WorkflowState::InProgress));
          let skipped = seq.iter().any(|x| x.1 == &What::State(WorkflowState::Skipped));
          ensure!(skipped || inp == acc, "in-progress", "{who:?}: step {} InProgress={inp}, accepted by the runner={acc}", sid(i, k));
        }
      }
    }
    // Completion notifications carry what is returned.
    let text = |v: &serde_json::Value| v.to_string();
    let full = serde_json::to_value(r).unwrap();
    for (w2, id, got) in o.w.results.lock().unwrap().iter().filter(|x| x.0 == *who) {
      let _ = w2;
      let parts: Vec<&str> = id.split('/').collect();
      let want = match parts.len() {
        1 => text(&full),
        2 => text(&full["jobs"][parts[1]]),
        _ => text(&full["jobs"][parts[1]]["steps"][parts[2].parse::<usize>().unwrap()]),
      };
      ensure!(*got == want, "result-differs", "{who:?} was told {got} for {id}, the returned result says {want}");
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C07

/// Every observer gets the same notifications, each of them in registration order with the runner last.
pub fn mon_observers(o: &Out, observers: &[Who]) -> Result<(), Violation> {
  let mut per: Vec<BTreeMap<&str, Vec<(usize, &What)>>> = vec![];
  for who in observers {
    let mut by: BTreeMap<&str, Vec<(usize, &What)>> = BTreeMap::new();
    for (i, e) in o.events.iter().enumerate().filter(|(_, e)| e.who == *who && e.what != What::Run) {
      by.entry(&e.id).or_default().push((i, &e.what));
    }
    per.push(by);
  }
  for w in 1..per.len() {
    for (id, a) in &per[0] {
      let b = per[w].get(id).cloned().unwrap_or_default();
      let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|p| p.1).collect(), b.iter().map(|p| p.1).collect());
      ensure!(x == y, "notifications-differ", "{id}: {:?} got {x:?} but {:?} got {y:?}", observers[0], observers[w]);
    }
    for (id, b) in &per[w] {
      let a = per[w - 1].get(id).cloned().unwrap_or_default();
      ensure!(a.len() == b.len(), "notifications-differ", "{id}: {:?} got {} notifications, {:?} got {}", observers[w - 1], a.len(), observers[w], b.len());
      for (k, (p, q)) in a.iter().zip(b).enumerate() {
        ensure!(p.0 < q.0, "registration-order", "{id}: {:?} got notification {k} ({:?}) before {:?}", observers[w], q.1, observers[w - 1]);
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- enumeration

/// Every DAG over n jobs in which job i depends only on jobs before it.
pub fn pick_dag(ctx: &Ctx, n: usize) -> Vec<Vec<usize>> {
  (0..n).map(|i| (0..i).filter(|_| ctx.flag("edge")).collect()).collect()
}

fn timed(d: u64, oc: Oc) -> Vec<Op> {
  match (d, oc) {
    (_, Oc::Refuse) => vec![Op::Refuse],
    (0, oc) => vec![oc.ops()],
    (d, oc) => vec![Op::Sleep(10 * d), oc.ops()],
  }
}

fn outcome(o: &Out) -> Outcome {
  Ok(match &o.result {
    Some(r) => {
      let order: Vec<&str> = o.events.iter().filter(|e| e.who == Who::Runner && e.what == What::RunJob).map(|e| e.id.as_str()).collect();
      format!("{} started {order:?}", result_text(r))
    }
    None => "did not terminate".into(),
  })
}

type Mon = fn(&Spec, &Out) -> Result<(), Violation>;

/// Shapes shared by the graph properties.
fn dag_family(tier: Tier, mon: Mon) -> Vec<Scenario> {
  let mut v = vec![];
  // All DAGs of up to three jobs, all duration patterns and outcomes, all map iteration orders.
  v.push(scenario("dag3-durations-outcomes", 0, move |ctx| {
    rt::pick_seed(ctx, 3);
    let n = 1 + ctx.pick("jobs", 3);
    let deps = pick_dag(ctx, n);
    let jobs = deps
      .into_iter()
      .map(|deps| {
        let d = ctx.pick("duration", 3) as u64;
        let oc = *ctx.of("outcome", &[Oc::Ok, Oc::Fail(3), Oc::Cancel]);
        J { deps, steps: vec![S { ops: timed(d, oc), coe: false }] }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts::default(), &spec, &World::new(), |w| astro(w, 1));
    mon(&spec, &o)?;
    outcome(&o)
  }));
  // Four (five) jobs, every DAG, every two-valued duration pattern.
  let n = tier.or(4, 5);
  v.push(scenario(format!("dag{n}-durations"), 0, move |ctx| {
    rt::pick_seed(ctx, tier.or(2, 3));
    let deps = pick_dag(ctx, n);
    let jobs = deps
      .into_iter()
      .map(|deps| J { deps, steps: vec![S { ops: timed(1 + ctx.pick("duration", 2) as u64, Oc::Ok), coe: false }] })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts::default(), &spec, &World::new(), |w| astro(w, 1));
    mon(&spec, &o)?;
    outcome(&o)
  }));
  // Task schedules: every schedule with up to `bound` departures from the default one, while hooks yield.
  let bound = tier.or(2, 3);
  v.push(scenario("dag3-schedules", bound, move |ctx| {
    let deps = pick_dag(ctx, 3);
    let kind = ctx.pick("ends", 3);
    let jobs = deps
      .into_iter()
      .map(|deps| {
        let ops = match kind {
          0 => vec![Op::End(RunResult::Succeeded)],
          1 => vec![Op::Log("x"), Op::Yield, Op::End(RunResult::Succeeded)],
          _ => vec![Op::Yield, Op::End(RunResult::Failed { exit_code: 2 })],
        };
        J { deps, steps: vec![S { ops, coe: false }] }
      })
      .collect();
    let spec = Spec { jobs };
    let w = World::new();
    w.yields.store(ctx.flag("hooks-yield"), Ordering::Relaxed);
    let o = run_spec(ctx, Opts::default(), &spec, &w, |w| astro(w, 1));
    mon(&spec, &o)?;
    outcome(&o)
  }));
  // Jobs whose condition does not match: over at once, their dependents start.
  v.push(scenario("skipped-jobs", tier.or(1, 2), move |ctx| {
    rt::pick_seed(ctx, 2);
    let n = 2 + ctx.pick("jobs", 2);
    let deps = pick_dag(ctx, n);
    let mut skips = Skips::new();
    let mut jobs = vec![];
    for (i, deps) in deps.into_iter().enumerate() {
      let d = match ctx.pick("job", 4) {
        0 => {
          skips.insert((i, None));
          0
        }
        1 => {
          skips.insert((i, Some(0)));
          0
        }
        d => d as u64 - 2,
      };
      jobs.push(J { deps, steps: vec![S { ops: timed(d, Oc::Ok), coe: false }] });
    }
    let spec = Spec { jobs };
    let o = run_skipping(ctx, Opts::default(), &spec, &skips, &World::new(), |w| astro_authorized(w, 1));
    mon(&spec, &o)?;
    for i in 0..n {
      let Some(r) = &o.result else { break };
      ensure!((r.jobs[&format!("j{i}")].state == WorkflowState::Skipped) == skips.contains(&(i, None)), "skipped", "{skips:?} were to be skipped: {}", result_text(r));
    }
    outcome(&o)
  }));
  // Dependencies listed twice or in another order.
  v.push(scenario("repeated-dependencies", 0, move |ctx| {
    rt::pick_seed(ctx, 2);
    let deps = pick_dag(ctx, 3);
    let jobs = deps
      .into_iter()
      .map(|mut deps| {
        if !deps.is_empty() {
          match ctx.pick("listed", 4) {
            0 => {}
            1 => deps.reverse(),
            2 => deps.push(deps[0]),
            _ => deps = deps.iter().rev().chain(deps.iter()).copied().collect(),
          }
        }
        let oc = *ctx.of("outcome", &[Oc::Ok, Oc::Fail(3)]);
        J { deps, steps: vec![S { ops: timed(ctx.pick("duration", 3) as u64, oc), coe: false }] }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts::default(), &spec, &World::new(), |w| astro(w, 1));
    mon(&spec, &o)?;
    outcome(&o)
  }));
  // Names that are beginnings of others, differ in case only, or look like something else.
  v.push(scenario("names", 0, move |ctx| {
    rt::pick_seed(ctx, 2);
    const NAMES: [&str; 12] = ["a", "A", "a-b", "ab", "a b", "1", "01", "\u{fc}", "on", "jobs", "null", "wf"];
    let mut names: Vec<&str> = vec![];
    for _ in 0..3 {
      let rest: Vec<&str> = NAMES.iter().filter(|n| !names.contains(n)).copied().collect();
      names.push(*ctx.of("name", &rest));
    }
    let w = World::new();
    let both = ctx.flag("both");
    for (i, n) in names.iter().enumerate() {
      w.behave(n, timed(2 - i as u64, Oc::Ok));
    }
    let deps = if both { vec![names[0], names[1]] } else { vec![names[0]] };
    let text = yaml(&[
      job(names[2], &deps, vec![step(names[2])]),
      job(names[0], &[], vec![step(names[0])]),
      job(names[1], &[], vec![step(names[1])]),
    ]);
    let (w2, t2) = (w.clone(), text.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: false, ..Default::default() },
      async move {
        let a = astro(&w2, 0);
        let wf = Workflow::builder().id(WF).config(t2.clone()).build(&a).await.unwrap_or_else(|e| panic!("not accepted: {e}\n{t2}"));
        wf.run(a.execution_context().build()).await
      },
      Duration::from_secs(60),
    );
    let Ok(r) = r else { return viol("hang", format!("the run did not terminate:\n{text}")) };
    let mut got: Vec<&str> = r.jobs.keys().map(|k| k.as_str()).collect();
    got.sort();
    names.sort();
    ensure!(got == names, "jobs-missing", "results for {got:?}:\n{text}");
    let ev = w.take();
    let at = |n: &str, what: &What| ev.iter().filter(|e| e.who == Who::Runner && e.id == format!("{WF}/{n}") && std::mem::discriminant(&e.what) == std::mem::discriminant(what)).map(|e| e.t).collect::<Vec<_>>();
    for (n, j) in &r.jobs {
      ensure!(j.id == JobId::new(WF, n.clone()) && j.state == WorkflowState::Succeeded && j.steps.len() == 1, "wrong-result", "{n}: {j:?}");
      ensure!(at(n, &What::RunJob).len() == 1, "started-twice", "{n} was started {:?}", at(n, &What::RunJob));
    }
    let dependent = got.iter().find(|n| at(n, &What::RunJob) != [0]).map(|n| n.to_string());
    // The first dependency takes 20 ms, the second one 10.
    ensure!(dependent.is_some_and(|d| at(&d, &What::RunJob) == [20]), "started-early", "the dependent job was not started at 20 ms:\n{text}\n{}", hist(&ev, &Who::Runner));
    Ok(text)
  }));
  // Many jobs at once: all ready together, all completing together, more than any internal queue holds.
  v.push(scenario("wide", 0, move |ctx| {
    rt::pick_seed(ctx, 3);
    let n = 9 + ctx.pick("jobs", 8);
    let shape = ctx.pick("shape", 4);
    let dur = ctx.pick("duration", 2) as u64;
    let mut jobs: Vec<J> = vec![];
    for i in 0..n {
      let deps = match shape {
        0 => vec![],
        1 if i + 1 == n => (0..n - 1).collect(),
        1 => vec![],
        2 if i > 0 => vec![0],
        3 if i > 0 => vec![i - 1],
        _ => vec![],
      };
      jobs.push(J { deps, steps: vec![S { ops: timed(dur, Oc::Ok), coe: false }] });
    }
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts::default(), &spec, &World::new(), |w| astro(w, 1));
    mon(&spec, &o)?;
    outcome(&o)
  }));
  // Very many jobs, dependencies of one job, jobs that depend on one, and long chains.
  v.push(scenario("huge", 0, move |ctx| {
    let n = *ctx.of("jobs", &[17usize, 33, 65, 130, tier.or(1100, 3000)]);
    let shape = ctx.pick("shape", 5);
    let mut jobs: Vec<J> = vec![];
    for i in 0..n {
      let deps = match shape {
        1 if i + 1 == n => (0..n - 1).collect(),
        2 if i > 0 => vec![0],
        3 if i > 0 => vec![i - 1],
        // Half of the jobs wait for the other half.
        4 if i >= n / 2 => (0..n / 2).collect(),
        _ => vec![],
      };
      let dur = match shape {
        // What the last dependency in the list takes longest.
        1 | 4 => (i == n / 2 - 1 || i + 2 == n) as u64 * 2 + (i % 3 == 0) as u64,
        _ => 0,
      };
      jobs.push(J { deps, steps: vec![S { ops: timed(dur, Oc::Ok), coe: false }] });
    }
    if shape == 4 && n > 150 {
      return Ok("not explored".into());
    }
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    mon(&spec, &o)?;
    Ok(format!("{n} {shape}"))
  }));
  v
}

fn c01(tier: Tier) -> Vec<Scenario> {
  dag_family(tier, mon_start_once)
}

// ---------------------------------------------------------------- C02/C03 graphs

fn acyclic(deps: &[Vec<usize>]) -> bool {
  let n = deps.len();
  let mut done = vec![false; n];
  for _ in 0..n {
    for i in 0..n {
      if !done[i] && deps[i].iter().all(|d| *d < n && done[*d]) {
        done[i] = true;
      }
    }
  }
  done.iter().all(|d| *d)
}

/// Every directed graph over n jobs (self-loops included when asked for).
fn pick_graph(ctx: &Ctx, n: usize, self_loops: bool) -> Vec<Vec<usize>> {
  (0..n).map(|i| (0..n).filter(|j| (self_loops || i != *j) && ctx.flag("edge")).collect()).collect()
}

async fn build(text: String, w: &Arc<World>) -> (AstroRun, std::result::Result<Workflow, astro_run::Error>) {
  let a = astro(w, 1);
  let r = Workflow::builder().id(WF).config(text).build(&a).await;
  (a, r)
}

/// Builds, and runs what was accepted.
fn build_and_run(ctx: &Ctx, spec: &Spec) -> (bool, Option<String>, Out) {
  let w = World::new();
  spec.behave(&w);
  let w2 = w.clone();
  let text = spec.yaml();
  let accepted = Arc::new(std::sync::Mutex::new((false, None::<String>)));
  let a2 = accepted.clone();
  let res = rt::run(
    ctx,
    Opts { tasks: false, ..Default::default() },
    async move {
      let (a, wf) = build(text, &w2).await;
      match wf {
        Ok(wf) => {
          a2.lock().unwrap().0 = true;
          Some(wf.run(a.execution_context().build()).await)
        }
        Err(e) => {
          a2.lock().unwrap().1 = Some(format!("{e:?}"));
          None
        }
      }
    },
    Duration::ZERO,
  );
  let (ok, err) = accepted.lock().unwrap().clone();
  let o = Out { events: w.take(), w, result: res.ok().flatten() };
  (ok, err, o)
}

fn one_step_jobs(deps: Vec<Vec<usize>>) -> Spec {
  Spec { jobs: deps.into_iter().map(|deps| J { deps, steps: vec![S { ops: vec![Op::End(RunResult::Succeeded)], coe: false }] }).collect() }
}

fn c02(tier: Tier) -> Vec<Scenario> {
  let mut v = dag_family(tier, mon_terminates);
  let graphs = |name: &str, n: usize, self_loops: bool| {
    scenario(name, 0, move |ctx| {
      rt::pick_seed(ctx, 2);
      let n = if n == 3 { 1 + ctx.pick("jobs", 3) } else { n };
      let spec = one_step_jobs(pick_graph(ctx, n, self_loops));
      let (accepted, _, o) = build_and_run(ctx, &spec);
      if accepted {
        mon_terminates(&spec, &o)?;
        outcome(&o)
      } else {
        Ok("rejected".into())
      }
    })
  };
  v.push(graphs("any-graph3", 3, true));
  v.push(graphs("any-graph4", 4, tier.or(false, true)));
  // Steps of every outcome within jobs, dependents of every outcome.
  v.push(scenario("outcomes", 0, move |ctx| {
    let deps = pick_dag(ctx, 2);
    let jobs = deps
      .into_iter()
      .map(|deps| {
        let n = 1 + ctx.pick("steps", 2);
        let steps = (0..n)
          .map(|_| S { ops: timed(ctx.pick("duration", 2) as u64, *ctx.of("outcome", &OCS)), coe: ctx.flag("continue-on-error") })
          .collect();
        J { deps, steps }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    mon_terminates(&spec, &o)?;
    outcome(&o)
  }));
  // Steps that take hours, days, months.
  v.push(scenario("days", 0, move |ctx| {
    const HOUR: u64 = 3_600_000;
    let deps = pick_dag(ctx, 3);
    let hours: Vec<u64> = (0..3).map(|_| *ctx.of("hours", &[0u64, 2, 25, 24 * 100])).collect();
    let w = World::new();
    let mut jobs = vec![];
    for (i, h) in hours.iter().enumerate() {
      w.behave(&format!("s{i}"), vec![Op::Log("a"), Op::Sleep(h * HOUR), Op::End(RunResult::Succeeded)]);
      let mut s = step(format!("s{i}"));
      s.extra.push("timeout: 200days".into());
      let deps: Vec<String> = deps[i].iter().map(|d| format!("j{d}")).collect();
      jobs.push(job(&format!("j{i}"), &deps.iter().map(|d| d.as_str()).collect::<Vec<_>>(), vec![s]));
    }
    let text = yaml(&jobs);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { tasks: false, ..Default::default() },
      async move {
        let a = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(text).build(&a).await.unwrap();
        wf.run(a.execution_context().build()).await
      },
      Duration::from_millis(24 * 1000 * HOUR),
    );
    let Ok(r) = r else { return viol("hang", format!("steps of {hours:?} hours, dependencies {deps:?}: the run did not terminate: {}", hist(&w.take(), &Who::Runner))) };
    ensure!(
      r.state == WorkflowState::Succeeded && r.jobs.len() == 3 && r.jobs.values().all(|j| j.state == WorkflowState::Succeeded && j.steps.len() == 1),
      "wrong-result",
      "steps of {hours:?} hours, dependencies {deps:?}: {}",
      result_text(&r)
    );
    Ok(result_text(&r))
  }));
  v
}

fn c03(tier: Tier) -> Vec<Scenario> {
  let accept = |ctx: &Ctx, spec: &Spec, want: bool, why: &str| -> Outcome {
    let (accepted, err, _) = build_and_run(ctx, spec);
    ensure!(
      accepted == want,
      if accepted { "accepted" } else { "rejected" },
      "{} a configuration with {why}: {err:?}\n{}",
      if accepted { "accepted" } else { "rejected" },
      spec.yaml()
    );
    if let Some(e) = &err {
      ensure!(e.starts_with("WorkflowConfigError"), "error-kind", "rejected with {e} instead of a configuration error");
    }
    Ok(format!("{accepted} {err:?}"))
  };
  let graphs = move |name: &str, n: usize, self_loops: bool| {
    scenario(name, 0, move |ctx| {
      let n = if n == 3 { 1 + ctx.pick("jobs", 3) } else { n };
      let g = pick_graph(ctx, n, self_loops);
      let ok = acyclic(&g);
      let (accepted, err, _) = {
        // Acceptance only: what was accepted is not run here.
        let text = one_step_jobs(g.clone()).yaml();
        let w = World::new();
        let r = rt::run(ctx, Opts { tasks: false, ..Default::default() }, async move { build(text, &w).await.1.map(|_| ()).map_err(|e| format!("{e:?}")) }, Duration::ZERO);
        match r {
          Ok(Ok(())) => (true, None, ()),
          Ok(Err(e)) => (false, Some(e), ()),
          Err(_) => return viol("parse-hang", "parsing did not finish"),
        }
      };
      ensure!(
        accepted == ok,
        if accepted { "cycle-accepted" } else { "acyclic-rejected" },
        "{} dependencies {g:?}: {err:?}",
        if accepted { "accepted cyclic" } else { "rejected acyclic" }
      );
      if let Some(e) = &err {
        ensure!(e.starts_with("WorkflowConfigError"), "error-kind", "rejected with {e} instead of a configuration error");
      }
      Ok(format!("{accepted}"))
    })
  };
  let mut v = vec![graphs("any-graph3", 3, true), graphs("any-graph4", 4, tier.or(false, true))];
  // Long cycles and long chains.
  v.push(scenario("long", 0, move |ctx| {
    let n = 5 + ctx.pick("jobs", tier.or(8, 30));
    let mut deps: Vec<Vec<usize>> = (0..n).map(|i| if i > 0 { vec![i - 1] } else { vec![] }).collect();
    let back = ctx.pick("back-edge", n + 1);
    // Job `back` also depends on the last one.
    if back < n {
      deps[back].push(n - 1);
    }
    let spec = one_step_jobs(deps.clone());
    accept(ctx, &spec, acyclic(&deps), "a long chain")
  }));
  // Jobs without steps, unknown dependencies, duplicated dependencies.
  v.push(scenario("broken-parts", 0, move |ctx| {
    let n = ctx.pick("jobs", 4);
    let mut ok = n > 0;
    let mut text = String::from("jobs:\n");
    for i in 0..n {
      text += &format!("  j{i}:\n");
      match ctx.pick("depends-on", 6) {
        0 => {}
        1 => text += "    depends-on: []\n",
        2 => {
          text += "    depends-on: [nowhere]\n";
          ok = false;
        }
        3 if i > 0 => text += &format!("    depends-on: [j{0}, j{0}]\n", i - 1),
        4 if i > 0 => {
          text += &format!("    depends-on: [j{}, nowhere]\n", i - 1);
          ok = false;
        }
        5 => {
          // Case matters.
          text += "    depends-on: [J0]\n";
          ok = false;
        }
        _ => {}
      }
      // Other fields do not make up for a missing list of steps.
      if let Some(f) = [None, Some("on: [push]"), Some("name: x"), Some("container: x"), Some("working-directories: [x]"), Some("on: {push: {branches: [x]}}")][if i == 0 { ctx.pick("field", 6) } else { 0 }] {
        text += &format!("    {f}\n");
      }
      match ctx.pick("steps", 3) {
        0 => text += &format!("    steps:\n      - run: j{i}s0\n"),
        1 => {
          text += "    steps: []\n";
          ok = false;
        }
        _ => {
          text += "    steps:\n";
          ok = false;
        }
      }
    }
    let w = World::new();
    let t2 = text.clone();
    let r = rt::run(ctx, Opts { tasks: false, ..Default::default() }, async move { build(t2, &w).await.1.map(|_| ()).map_err(|e| format!("{e:?}")) }, Duration::ZERO);
    let Ok(r) = r else { return viol("parse-hang", "parsing did not finish") };
    ensure!(r.is_ok() == ok, "acceptance", "expected {}: {r:?}\n{text}", if ok { "acceptance" } else { "a configuration error" });
    if let Err(e) = &r {
      ensure!(e.starts_with("WorkflowConfigError"), "error-kind", "rejected with {e} instead of a configuration error");
    }
    Ok(format!("{r:?}"))
  }));
  // Texts that are not workflows at all: rejected, never a panic.
  v.push(scenario("not-workflows", 0, move |ctx| {
    const TOKENS: [&str; 14] = ["jobs:", "\n", "  a:", "    ", "steps:", "- run: x", "- uses: y", "depends-on: [a]", ":", "[", "{", "&a *a", "- ", "null"];
    let n = tier.or(4, 5);
    let mut text = String::new();
    for _ in 0..n {
      match ctx.pick("token", TOKENS.len() + 1) {
        0 => break,
        i => text += TOKENS[i - 1],
      }
    }
    let w = World::new();
    let t2 = text.clone();
    let r = rt::run(ctx, Opts { tasks: false, ..Default::default() }, async move { build(t2, &w).await.1.map(|w| w.jobs.len()).map_err(|e| format!("{e:?}")) }, Duration::ZERO);
    let Ok(r) = r else { return viol("parse-hang", "parsing did not finish") };
    match &r {
      Ok(n) => ensure!(*n > 0, "acceptance", "accepted a workflow without jobs: {text:?}"),
      Err(e) => ensure!(e.starts_with("WorkflowConfigError"), "error-kind", "rejected with {e} instead of a configuration error: {text:?}"),
    }
    Ok(match r {
      Ok(n) => format!("accepted {n}"),
      Err(e) => e,
    })
  }));
  v
}

// ---------------------------------------------------------------- C04 scenarios

fn c04(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  let n_max = tier.or(4, 5);
  // Every sequence of outcomes and marks.
  v.push(scenario(format!("sequences{n_max}"), 0, move |ctx| {
    let n = 1 + ctx.pick("steps", n_max);
    let steps: Vec<(Oc, bool)> = (0..n).map(|_| (*ctx.of("outcome", &OCS), ctx.flag("continue-on-error"))).collect();
    let spec = Spec { jobs: vec![J { deps: vec![], steps: steps.iter().map(|(oc, coe)| S { ops: timed(0, *oc), coe: *coe }).collect() }] };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 0));
    mon_steps(0, &steps, &o)?;
    outcome(&o)
  }));
  // Steps whose condition does not match in between.
  v.push(scenario("unmatched", 0, move |ctx| {
    let n = 1 + ctx.pick("steps", tier.or(3, 4));
    let mut skips = Skips::new();
    let steps: Vec<(Oc, bool)> = (0..n)
      .map(|k| {
        if ctx.flag("unmatched") {
          skips.insert((0, Some(k)));
        }
        (*ctx.of("outcome", &OCS), ctx.flag("continue-on-error"))
      })
      .collect();
    let unmatched: Vec<usize> = skips.iter().map(|s| s.1.unwrap()).collect();
    if ctx.flag("others-match") {
      skips.insert(OTHERS_MATCH);
    }
    let spec = Spec { jobs: vec![J { deps: vec![], steps: steps.iter().map(|(oc, coe)| S { ops: timed(0, *oc), coe: *coe }).collect() }] };
    let o = run_skipping(ctx, Opts { tasks: false, ..Default::default() }, &spec, &skips, &World::new(), |w| astro_authorized(w, 0));
    mon_steps_skipping(0, &steps, &unmatched, &o)?;
    outcome(&o)
  }));
  // More steps than there are digits.
  // Exit codes of all kinds arrive as they are.
  v.push(scenario("exit-codes", 0, move |ctx| {
    let codes = [0, 1, 2, -1, 127, 128, 130, 255, 256, 1000, i32::MAX, i32::MIN];
    let steps: Vec<(Oc, bool)> = (0..2).map(|_| (Oc::Fail(*ctx.of("code", &codes)), ctx.flag("continue-on-error"))).collect();
    let spec = Spec { jobs: vec![J { deps: vec![], steps: steps.iter().map(|(oc, coe)| S { ops: vec![oc.ops()], coe: *coe }).collect() }] };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    mon_steps(0, &steps, &o)?;
    outcome(&o)
  }));
  v.push(scenario("many-steps", 0, move |ctx| {
    let n = *ctx.of("steps", &[10, 11, 12, 21]);
    let at = ctx.pick("position", n);
    let special = *ctx.of("outcome", &OCS);
    let marks = ctx.pick("continue-on-error", 5);
    let steps: Vec<(Oc, bool)> = (0..n)
      .map(|k| {
        let coe = match marks {
          0 => false,
          1 => k == at,
          2 => k + 1 == n,
          3 => k % 2 == 0,
          _ => true,
        };
        (if k == at { special } else { Oc::Ok }, coe)
      })
      .collect();
    let spec = Spec { jobs: vec![J { deps: vec![], steps: steps.iter().map(|(oc, coe)| S { ops: timed(0, *oc), coe: *coe }).collect() }] };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 0));
    ensure!(o.result.is_some(), "hang", "did not terminate");
    mon_steps(0, &steps, &o)?;
    outcome(&o)
  }));
  // Steps that take time, exit code 0 failures, two jobs side by side, schedules.
  v.push(scenario("side-by-side", tier.or(1, 2), move |ctx| {
    let specs: Vec<Vec<(Oc, bool)>> = (0..2)
      .map(|j| (0..2).map(|k| (*ctx.of("outcome", &[Oc::Ok, Oc::Fail(0), Oc::Cancel]), (j + k) % 2 == 1)).collect())
      .collect();
    let spec = Spec {
      jobs: specs
        .iter()
        .map(|st| J {
          deps: vec![],
          steps: st.iter().map(|(oc, coe)| S { ops: vec![Op::Log("a"), Op::Yield, Op::Log("b"), oc.ops()], coe: *coe }).collect(),
        })
        .collect(),
    };
    let w = World::new();
    w.yields.store(true, Ordering::Relaxed);
    let o = run_spec(ctx, Opts::default(), &spec, &w, |w| astro(w, 1));
    for (j, st) in specs.iter().enumerate() {
      mon_steps(j, st, &o)?;
    }
    outcome(&o)
  }));
  v
}

fn c05(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("outcomes-and-orders", 0, move |ctx| {
    let n = 1 + ctx.pick("jobs", 3);
    let deps = pick_dag(ctx, n);
    let jobs = deps
      .into_iter()
      .map(|deps| {
        let oc = *ctx.of("outcome", &OCS);
        let d = ctx.pick("duration", 3) as u64;
        J { deps, steps: vec![S { ops: timed(d, oc), coe: false }] }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    mon_workflow_state(&o)?;
    outcome(&o)
  }));
  v.push(scenario("four-jobs", 0, move |ctx| {
    let shape = ctx.pick("shape", 4);
    let deps: Vec<Vec<usize>> = match shape {
      0 => vec![vec![]; 4],
      1 => vec![vec![], vec![0], vec![1], vec![2]],
      2 => vec![vec![], vec![0], vec![0], vec![1, 2]],
      _ => vec![vec![], vec![], vec![0, 1], vec![1]],
    };
    let jobs = deps
      .into_iter()
      .map(|deps| {
        let oc = *ctx.of("outcome", &OCS);
        let d = 1 + ctx.pick("duration", tier.or(2, 3)) as u64;
        J { deps, steps: vec![S { ops: timed(d, oc), coe: false }] }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    mon_workflow_state(&o)?;
    outcome(&o)
  }));
  // Jobs and steps skipped by their condition, among others of every outcome.
  v.push(scenario("skipped", 0, move |ctx| {
    let n = 1 + ctx.pick("jobs", 3);
    let deps = pick_dag(ctx, n);
    let mut skips = Skips::new();
    let mut jobs = vec![];
    for (i, deps) in deps.into_iter().enumerate() {
      let steps = match ctx.pick("job", 6) {
        0 => {
          skips.insert((i, None));
          vec![Oc::Fail(1)]
        }
        1 => {
          skips.insert((i, Some(0)));
          vec![Oc::Fail(1)]
        }
        2 => {
          skips.insert((i, Some(1)));
          vec![*ctx.of("outcome", &[Oc::Fail(1), Oc::Cancel]), Oc::Cancel]
        }
        3 => vec![Oc::Ok],
        4 => vec![Oc::Fail(1)],
        _ => vec![Oc::Cancel],
      };
      let d = ctx.pick("duration", 2) as u64;
      jobs.push(J { deps, steps: steps.into_iter().map(|oc| S { ops: timed(d, oc), coe: false }).collect() });
    }
    let spec = Spec { jobs };
    let o = run_skipping(ctx, Opts { tasks: false, ..Default::default() }, &spec, &skips, &World::new(), |w| astro_authorized(w, 1));
    mon_workflow_state(&o)?;
    outcome(&o)
  }));
  // Job results composed of several steps.
  v.push(scenario("steps-decide", 0, move |ctx| {
    let jobs = (0..2)
      .map(|_| {
        let n = 1 + ctx.pick("steps", 2);
        J {
          deps: vec![],
          steps: (0..n).map(|_| S { ops: timed(ctx.pick("duration", 2) as u64, *ctx.of("outcome", &OCS)), coe: ctx.flag("continue-on-error") }).collect(),
        }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    mon_workflow_state(&o)?;
    outcome(&o)
  }));
  v
}

const ALL3: [Who; 3] = [Who::Plugin(0), Who::Plugin(1), Who::Runner];

fn c06(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Job graphs with steps of every outcome.
  v.push(scenario("outcomes", 0, move |ctx| {
    let n = 1 + ctx.pick("jobs", 2);
    let deps = pick_dag(ctx, n);
    let mut accepted = vec![];
    let jobs: Vec<J> = deps
      .into_iter()
      .map(|deps| {
        let m = 1 + ctx.pick("steps", 2);
        let mut acc = vec![];
        let steps = (0..m)
          .map(|_| {
            let oc = *ctx.of("outcome", &OCS);
            acc.push(oc != Oc::Refuse);
            let mut ops = vec![];
            if ctx.flag("logs") && oc != Oc::Refuse {
              ops.extend([Op::Log("a"), Op::Err("b")]);
            }
            ops.push(oc.ops());
            S { ops, coe: ctx.flag("continue-on-error") }
          })
          .collect();
        accepted.push(acc);
        J { deps, steps }
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 2));
    mon_lifecycle(&spec, &o, &ALL3, &|i, k| Some(accepted[i][k]))?;
    outcome(&o)
  }));
  // Many steps, many jobs, many lines.
  v.push(scenario("many", 0, move |ctx| {
    let jobs = *ctx.of("jobs", &[1, 2, 11, 17]);
    let n = *ctx.of("steps", &[1, 2, 11]);
    let lines = *ctx.of("lines", &[0, 1, 12]);
    let at = ctx.pick("failing", n + 1);
    let jobs = (0..jobs)
      .map(|i| J {
        deps: if i > 0 && i % 3 == 0 { vec![i - 1] } else { vec![] },
        steps: (0..n)
          .map(|k| {
            let mut ops = vec![Op::Log("a"); lines];
            ops.push(if k == at { Op::End(RunResult::Failed { exit_code: 3 }) } else { Op::End(RunResult::Succeeded) });
            S { ops, coe: k % 2 == 0 }
          })
          .collect(),
      })
      .collect();
    let spec = Spec { jobs };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 2));
    ensure!(o.result.is_some(), "hang", "did not terminate");
    mon_lifecycle(&spec, &o, &ALL3, &|_, _| Some(true))?;
    outcome(&o)
  }));
  // Jobs and steps whose condition does not match.
  v.push(scenario("skipped", tier.or(0, 1), move |ctx| {
    let n = 1 + ctx.pick("jobs", 2);
    let deps = pick_dag(ctx, n);
    let mut skips = Skips::new();
    let mut jobs = vec![];
    for (i, deps) in deps.into_iter().enumerate() {
      if ctx.flag("job-unmatched") {
        skips.insert((i, None));
      }
      let m = 1 + ctx.pick("steps", 2);
      let mut steps = vec![];
      for k in 0..m {
        if ctx.flag("step-unmatched") {
          skips.insert((i, Some(k)));
        }
        steps.push(S { ops: timed(0, *ctx.of("outcome", &[Oc::Ok, Oc::Fail(1), Oc::Cancel])), coe: false });
      }
      jobs.push(J { deps, steps });
    }
    let spec = Spec { jobs };
    let w = World::new();
    w.yields.store(ctx.flag("hooks-yield"), Ordering::Relaxed);
    let o = run_skipping(ctx, Opts::default(), &spec, &skips, &w, |w| astro_authorized(w, 2));
    mon_lifecycle(&spec, &o, &ALL3, &|_, _| Some(true))?;
    let Some(r) = &o.result else { return viol("hang", "the run did not terminate") };
    for i in 0..n {
      ensure!((r.jobs[&format!("j{i}")].state == WorkflowState::Skipped) == skips.contains(&(i, None)), "skipped", "{skips:?} were to be skipped: {}", result_text(r));
    }
    outcome(&o)
  }));
  // Schedules, with hooks that yield and steps that log while ending.
  v.push(scenario("schedules", tier.or(2, 3), move |ctx| {
    let deps = pick_dag(ctx, 2);
    let slow = ctx.flag("slow-accept");
    let oc = *ctx.of("outcome", &[Oc::Ok, Oc::Fail(1)]);
    let jobs: Vec<J> = deps
      .into_iter()
      .map(|deps| {
        let mut ops = if slow { vec![Op::SlowAccept] } else { vec![] };
        ops.extend([Op::Log("a"), Op::Yield, Op::Err("b"), oc.ops()]);
        J { deps, steps: vec![S { ops, coe: false }, S { ops: vec![Op::End(RunResult::Succeeded)], coe: false }] }
      })
      .collect();
    let spec = Spec { jobs };
    let w = World::new();
    w.yields.store(ctx.flag("hooks-yield"), Ordering::Relaxed);
    let o = run_spec(ctx, Opts { select: Select::PerPoll, ..Default::default() }, &spec, &w, |w| astro(w, 2));
    mon_lifecycle(&spec, &o, &ALL3, &|_, _| Some(true))?;
    outcome(&o)
  }));
  v
}

fn c07(tier: Tier) -> Vec<Scenario> {
  fn plugins(n: usize, fails: Vec<bool>, runner_fails: bool) -> impl FnOnce(&Arc<World>) -> AstroRun + Send + 'static {
    const APP: [&str; 4] = ["|0", "|1", "|2", "|3"];
    move |w: &Arc<World>| {
      let mut b = AstroRun::builder().runner(MockRunner { w: w.clone(), fail_hooks: runner_fails, append: Some("|r") });
      for idx in 0..n {
        b = b.plugin(Rec { w: Some(w.clone()), idx, fail: fails[idx], append: Some(APP[idx]) });
      }
      b.build()
    }
  }
  let mut v = vec![];
  let n_max = tier.or(3, 4);
  // Every subset of failing hooks.
  v.push(scenario("failing-hooks", 0, move |ctx| {
    let n = 1 + ctx.pick("plugins", n_max);
    let fails: Vec<bool> = (0..n).map(|_| ctx.flag("plugin-fails")).collect();
    let runner_fails = ctx.flag("runner-hooks-fail");
    let ocs: Vec<Oc> = (0..2).map(|_| *ctx.of("outcome", &OCS)).collect();
    let spec = Spec {
      jobs: vec![
        J {
          deps: vec![],
          steps: ocs
            .iter()
            .map(|oc| S { ops: if *oc == Oc::Refuse { vec![Op::Refuse] } else { vec![Op::Log("x"), Op::Err(""), Op::Log("\t y \r\n"), oc.ops()] }, coe: true })
            .collect(),
        },
        J { deps: vec![0], steps: vec![S { ops: timed(1, Oc::Ok), coe: false }] },
      ],
    };
    let w = World::new();
    w.error_kind.store(if fails.contains(&true) || runner_fails { ctx.pick("error-kind", ERROR_KINDS) } else { 0 }, Ordering::Relaxed);
    w.yields.store(ctx.flag("hooks-yield"), Ordering::Relaxed);
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &w, plugins(n, fails.clone(), runner_fails));
    let mut who: Vec<Who> = (0..n).map(Who::Plugin).collect();
    who.push(Who::Runner);
    mon_observers(&o, &who)?;
    // Nothing is missing either: compare with the result.
    mon_lifecycle(&spec, &o, &who, &|_, _| None)?;
    let Some(r) = &o.result else { return viol("hang", "a failing hook keeps the run from ending") };
    // The results are those of the scripts.
    let steps: Vec<(Oc, bool)> = ocs.iter().map(|oc| (*oc, true)).collect();
    let (state, _) = job_reference(&steps);
    ensure!(r.jobs["j0"].state == state && r.jobs["j1"].state == WorkflowState::Succeeded, "results-changed", "{}", result_text(r));
    // The chain of before-run hooks.
    let mut suffix: String = fails.iter().enumerate().filter(|(_, f)| !**f).map(|(i, _)| format!("|{i}")).collect();
    if !runner_fails {
      suffix.push_str("|r");
    }
    for c in o.w.contexts.lock().unwrap().iter() {
      let p: Vec<String> = c.id.to_string().split('/').map(|s| s.to_string()).collect();
      let want = format!("{}s{}{suffix}", p[1], p[2]);
      ensure!(c.command.run == want, "hook-chain", "step {} runs {:?}, the chain of hooks gives {want:?}", c.id, c.command.run);
    }
    outcome(&o)
  }));
  // Schedules of two concurrent jobs with yielding hooks.
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| {
    let fails: Vec<bool> = (0..2).map(|_| ctx.flag("plugin-fails")).collect();
    let spec = Spec {
      jobs: (0..2)
        .map(|_| J { deps: vec![], steps: vec![S { ops: vec![Op::Log("a"), Op::Yield, Op::Log("b"), Oc::Ok.ops()], coe: false }] })
        .collect(),
    };
    let w = World::new();
    w.yields.store(true, Ordering::Relaxed);
    let o = run_spec(ctx, Opts::default(), &spec, &w, plugins(2, fails, false));
    mon_observers(&o, &ALL3)?;
    mon_lifecycle(&spec, &o, &ALL3, &|_, _| Some(true))?;
    outcome(&o)
  }));
  // Hooks of plugins and of the runner that change any part of the command.
  v.push(scenario("changed-fields", 0, move |ctx| {
    // Per hook: the field it changes (none), or that it fails.
    let n = 3;
    let what: Vec<usize> = (0..n).map(|_| ctx.pick("hook-changes", 12)).collect();
    let (w2, what2) = (Arc::new(what.clone()), what.clone());
    let change = move |k: usize, mut s: Step| -> HookBeforeRunStepResult {
      match w2[k] {
        0 => {}
        1 => s.run += &format!("|{k}"),
        2 => s.name = Some(format!("named-{k}")),
        3 => {
          s.environments.insert(format!("E{k}"), EnvironmentVariable::String(format!("v{k}")));
        }
        4 => s.secrets.push(format!("S{k}")),
        5 => s.timeout += Duration::from_secs(1 + k as u64),
        6 => s.container = Some(ContainerOptions { name: format!("image-{k}"), volumes: None, security_opts: None }),
        // Taken away.
        7 => s.container = None,
        8 => s.run = String::new(),
        9 => s.secrets.clear(),
        10 => {
          // Everything at once, a timeout of nothing included.
          s.timeout = Duration::ZERO;
          s.run = format!("all-{k}");
          s.environments = [(format!("A{k}"), EnvironmentVariable::Boolean(true))].into();
        }
        _ => return Err(Error::internal_runtime_error("refused")),
      }
      Ok(s)
    };
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops: timed(0, Oc::Ok), coe: false }, S { ops: timed(0, Oc::Ok), coe: true }] }] };
    let c2 = change.clone();
    let w = World::new();
    for run in ["", "all-0", "all-1", "all-2"] {
      w.behave(run, timed(0, Oc::Ok));
    }
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &w, move |w| {
      let c3 = c2.clone();
      let mut b = AstroRun::builder().runner(super::exec::Changing(MockRunner { w: w.clone(), fail_hooks: false, append: None }, Arc::new(move |s| c3(n - 1, s))));
      for k in 0..n - 1 {
        let c3 = c2.clone();
        b = b.plugin(AstroRunPlugin::builder(if k == 0 { "one" } else { "two" }).on_before_run_step(move |s| c3(k, s)).build());
      }
      b.build()
    });
    let cs = o.w.contexts.lock().unwrap().clone();
    ensure!(o.result.is_some() && cs.len() == 2, "hang", "{} of 2 steps were run", cs.len());
    for c in cs.iter() {
      let i = c.id.step_number();
      let base = Step { id: c.id.clone(), name: None, container: None, run: format!("j0s{i}"), continue_on_error: i == 1, environments: Default::default(), secrets: vec![], timeout: Duration::from_secs(3600), on: None };
      let want = (0..n).fold(base, |s, k| change(k, s.clone()).unwrap_or(s));
      let (got, want) = (serde_json::to_value(&c.command).unwrap(), serde_json::to_value(Command::from(want)).unwrap());
      ensure!(got == want, "hook-chain", "hooks {what2:?}: step {} was run as {got}, the chain of hooks gives {want}", c.id);
    }
    Ok(format!("{what2:?}"))
  }));
  // Plugins made of closures.
  v.push(scenario("closure-plugins", 0, move |ctx| {
    let hooks = 9;
    let failing = ctx.pick("failing-hook", hooks + 1);
    let oc = *ctx.of("outcome", &OCS);
    let spec = Spec {
      jobs: vec![
        J { deps: vec![], steps: vec![S { ops: if oc == Oc::Refuse { vec![Op::Refuse] } else { vec![Op::Log("x"), Op::Err("y"), oc.ops()] }, coe: false }] },
        J { deps: vec![0], steps: vec![S { ops: timed(0, Oc::Ok), coe: false }] },
      ],
    };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), move |w| {
      let mut b = AstroRun::builder().runner(MockRunner { w: w.clone(), fail_hooks: false, append: None });
      for idx in 0..2 {
        b = b.plugin(closure_plugin(w, idx, if idx == 0 { failing } else { 0 }));
      }
      b.build()
    });
    mon_observers(&o, &ALL3)?;
    mon_lifecycle(&spec, &o, &ALL3, &|_, _| None)?;
    let Some(r) = &o.result else { return viol("hang", "a failing hook keeps the run from ending") };
    ensure!(r.jobs["j0"].state == oc.result().0 && r.jobs["j1"].state == WorkflowState::Succeeded, "results-changed", "{}", result_text(r));
    for c in o.w.contexts.lock().unwrap().iter() {
      let p: Vec<String> = c.id.to_string().split('/').map(|s| s.to_string()).collect();
      let want = format!("{}s{}{}", p[1], p[2], if failing == 9 { "|1" } else { "|0|1" });
      ensure!(c.command.run == want, "hook-chain", "step {} runs {:?}, the chain of hooks gives {want:?}", c.id, c.command.run);
    }
    outcome(&o)
  }));
  v
}

// ---------------------------------------------------------------- C34

/// Times in results and log lines against when things really happened.
fn mon_times(spec: &Spec, o: &Out, before: Wall, after: Wall) -> Result<(), Violation> {
  let Some(r) = &o.result else { return Ok(()) };
  let ev = &o.events;
  let first = |id: &str, f: &dyn Fn(&What) -> bool| ev.iter().find(|e| e.id == id && f(&e.what)).map(|e| e.wall);
  let span = |id: String, skipped: bool, s: Option<Wall>, c: Option<Wall>| -> Result<Option<(Wall, Wall)>, Violation> {
    match (skipped, s, c) {
      (true, None, None) => Ok(None),
      (false, Some(s), Some(c)) => {
        ensure!(s <= c, "backwards", "{id} was started at {s} and completed at {c}");
        // It cannot have started after those told of it were told, nor have completed after they were told that.
        let told = first(&id, &|w| matches!(w, What::State(x) if !x.is_terminal()));
        ensure!(told.is_none_or(|t| s <= t), "started-late", "{id} was started at {s}, but that it was running was told at {told:?}");
        let over = first(&id, &|w| matches!(w, What::StepDone(..) | What::JobDone(_) | What::WorkflowDone(_)));
        ensure!(over.is_none_or(|t| c <= t), "completed-late", "{id} was completed at {c}, but that was told at {over:?}");
        Ok(Some((s, c)))
      }
      (skipped, s, c) => viol("times-missing", format!("{id} (skipped: {skipped}) was started at {s:?} and completed at {c:?}")),
    }
  };
  let Some((ws, wc)) = span(WF.into(), r.state == WorkflowState::Skipped, r.started_at, r.completed_at)? else { return Ok(()) };
  ensure!(before <= ws && wc <= after, "outside-run", "the workflow ran from {ws} to {wc}, its caller saw {before} to {after}");
  let mut spans = BTreeMap::new();
  for i in 0..spec.jobs.len() {
    let jr = &r.jobs[&format!("j{i}")];
    let Some((js, jc)) = span(jid(i), jr.state == WorkflowState::Skipped, jr.started_at, jr.completed_at)? else { continue };
    spans.insert(i, (js, jc));
    ensure!(ws <= js && jc <= wc, "outside-parent", "job j{i} ran from {js} to {jc}, the workflow from {ws} to {wc}");
    let mut last = js;
    for (k, st) in jr.steps.iter().enumerate() {
      let id = sid(i, k);
      let Some((ss, sc)) = span(id.clone(), st.state == WorkflowState::Skipped, st.started_at, st.completed_at)? else { continue };
      ensure!(last <= ss, "overlap", "step {id} was started at {ss}, the job or the step before it was at {last}");
      ensure!(sc <= jc, "outside-parent", "step {id} was completed at {sc}, its job at {jc}");
      last = sc;
      let run = first(&id, &|w| *w == What::Run);
      ensure!(run.is_some_and(|t| ss <= t && t <= sc), "outside-step", "step {id} is said to have run from {ss} to {sc}, the runner got it at {run:?}");
      let ended = ev.iter().filter(|e| e.id == id && matches!(e.what, What::Ended(_))).map(|e| e.wall).min();
      ensure!(ended.is_none_or(|t| t <= sc), "completed-early", "step {id} is said to have completed at {sc}, it ended at {ended:?}");
    }
  }
  for (i, j) in spec.jobs.iter().enumerate() {
    for d in &j.deps {
      if let (Some(a), Some(b)) = (spans.get(&i), spans.get(d)) {
        ensure!(b.1 <= a.0, "before-dependency", "job j{i} was started at {}, j{d}, on which it depends, completed at {}", a.0, b.1);
      }
    }
  }
  // Log lines.
  let sent = o.w.sent.lock().unwrap();
  let heard = o.w.heard.lock().unwrap();
  for (i, j) in spec.jobs.iter().enumerate() {
    for k in 0..j.steps.len() {
      let id = sid(i, k);
      let sent: Vec<Wall> = sent.iter().filter(|x| x.0 == id).map(|x| x.1).collect();
      let mut all: Vec<Vec<Wall>> = vec![];
      for who in [Who::Plugin(0), Who::Plugin(1), Who::Runner] {
        let mine: Vec<&(Who, String, Wall, Wall)> = heard.iter().filter(|x| x.0 == who && x.1 == id).collect();
        ensure!(mine.len() == sent.len(), "lines", "{who:?} heard {} of {} lines of {id}", mine.len(), sent.len());
        for (h, s) in mine.iter().zip(&sent) {
          ensure!(*s <= h.2 && h.2 <= h.3, "line-time", "a line of {id} sent at {s} and told at {} says it is of {}", h.3, h.2);
        }
        all.push(mine.iter().map(|h| h.2).collect());
      }
      ensure!(all.iter().all(|a| *a == all[0]), "line-time", "the lines of {id} have different times for different observers: {all:?}");
      ensure!(all[0].windows(2).all(|w| w[0] <= w[1]), "line-time", "the lines of {id} have times {:?}", all[0]);
    }
  }
  Ok(())
}

fn c34(tier: Tier) -> Vec<Scenario> {
  fn run(ctx: &Ctx, opts: Opts, spec: &Spec, skips: &Skips, w: &Arc<World>) -> Outcome {
    let before = chrono::Utc::now();
    let o = run_skipping(ctx, opts, spec, skips, w, |w| astro_authorized(w, 2));
    mon_times(spec, &o, before, chrono::Utc::now())?;
    outcome(&o)
  }
  let mut v = vec![];
  v.push(scenario("graphs", 0, move |ctx| {
    let n = 1 + ctx.pick("jobs", 3);
    let deps = pick_dag(ctx, n);
    let jobs = deps
      .into_iter()
      .map(|deps| {
        let oc = *ctx.of("outcome", &OCS);
        let d = ctx.pick("duration", tier.or(2, 3)) as u64;
        J { deps, steps: vec![S { ops: timed(d, oc), coe: false }] }
      })
      .collect();
    run(ctx, Opts { tasks: false, ..Default::default() }, &Spec { jobs }, &Skips::new(), &World::new())
  }));
  v.push(scenario("steps", 0, move |ctx| {
    let n = 1 + ctx.pick("jobs", 2);
    let mut skips = Skips::new();
    let mut jobs = vec![];
    for i in 0..n {
      if ctx.flag("job-unmatched") {
        skips.insert((i, None));
      }
      let m = 1 + ctx.pick("steps", if n == 1 { tier.or(3, 4) } else { 2 });
      let mut steps = vec![];
      for k in 0..m {
        if n == 1 && ctx.flag("unmatched") {
          skips.insert((i, Some(k)));
        }
        let oc = *ctx.of("outcome", &OCS);
        let mut ops = vec![];
        if oc != Oc::Refuse {
          match ctx.pick("logs", 3) {
            0 => {}
            1 => ops.extend([Op::Log("a"), Op::Err("b")]),
            _ => ops.extend([Op::Yield, Op::Log("a"), Op::Sleep(5), Op::Log("b")]),
          }
        }
        ops.push(oc.ops());
        steps.push(S { ops, coe: k == 1 });
      }
      jobs.push(J { deps: vec![], steps });
    }
    run(ctx, Opts { tasks: false, ..Default::default() }, &Spec { jobs }, &skips, &World::new())
  }));
  v.push(scenario("schedules", tier.or(2, 3), move |ctx| {
    let deps = pick_dag(ctx, 2);
    let slow = ctx.flag("slow-accept");
    let jobs: Vec<J> = deps
      .into_iter()
      .map(|deps| {
        let mut ops = if slow { vec![Op::SlowAccept] } else { vec![] };
        ops.extend([Op::Log("a"), Op::Yield, Op::Err("b"), Oc::Ok.ops()]);
        J { deps, steps: vec![S { ops, coe: false }, S { ops: vec![Op::End(RunResult::Succeeded)], coe: false }] }
      })
      .collect();
    let w = World::new();
    w.yields.store(ctx.flag("hooks-yield"), Ordering::Relaxed);
    run(ctx, Opts { select: Select::PerPoll, ..Default::default() }, &Spec { jobs }, &Skips::new(), &w)
  }));
  v
}

/// `failing`: 0 none, else the hook (1-based) that returns an error.
fn closure_plugin(w: &Arc<World>, idx: usize, failing: usize) -> AstroRunPlugin {
  let who = Who::Plugin(idx);
  fn res(failing: usize, me: usize) -> HookNoopResult {
    if failing == me {
      Err(astro_run::Error::error("hook"))
    } else {
      Ok(())
    }
  }
  macro_rules! hook {
    ($me:expr, |$w:ident, $who:ident, $e:ident| $body:block) => {{
      let ($w, $who) = (w.clone(), who.clone());
      move |$e| {
        let $who = $who.clone();
        $body;
        res(failing, $me)
      }
    }};
  }
  AstroRunPlugin::builder("closures")
    .on_run_workflow(hook!(1, |w, who, e| { let e: RunWorkflowEvent = e; w.ev(who, &e.source.id, What::RunWorkflow) }))
    .on_run_job(hook!(2, |w, who, e| { let e: RunJobEvent = e; w.ev(who, &e.source.id, What::RunJob) }))
    .on_run_step(hook!(3, |w, who, e| { let e: RunStepEvent = e; w.ev(who, &e.source.id, What::RunStep) }))
    .on_state_change(hook!(4, |w, who, e| { let e: WorkflowStateEvent = e; match e {
      WorkflowStateEvent::WorkflowStateUpdated { id, state } => w.ev(who, id, What::State(state)),
      WorkflowStateEvent::JobStateUpdated { id, state } => w.ev(who, id, What::State(state)),
      WorkflowStateEvent::StepStateUpdated { id, state } => w.ev(who, id, What::State(state)),
    }}))
    .on_log(hook!(5, |w, who, l| { let l: WorkflowLog = l; w.ev(who, &l.step_id, What::Log(l.is_error(), l.message)) }))
    .on_step_completed(hook!(6, |w, who, r| { let r: StepRunResult = r; w.done(who.clone(), &r.id, &r); w.ev(who, &r.id, What::StepDone(r.state, r.exit_code)) }))
    .on_job_completed(hook!(7, |w, who, r| { let r: JobRunResult = r; w.done(who.clone(), &r.id, &r); w.ev(who, &r.id, What::JobDone(r.state)) }))
    .on_workflow_completed(hook!(8, |w, who, r| { let r: WorkflowRunResult = r; w.done(who.clone(), &r.id, &r); w.ev(who, &r.id, What::WorkflowDone(r.state)) }))
    .on_before_run_step({
      let (w, who) = (w.clone(), who.clone());
      move |mut s| {
        w.ev(who.clone(), &s.id, What::BeforeStep);
        res(failing, 9)?;
        s.run.push_str(if idx == 0 { "|0" } else { "|1" });
        Ok(s)
      }
    })
    .build()
}

const ASSUME: &[&str] = &[
  "The orchestrator runs on tokio's current-thread runtime with a virtual clock; task switches happen at awaits, which is where the orchestrator's own tasks can be interleaved (its shared state between awaits is behind locks, explored separately with threads).",
  "Runner and plugins are scripted recorders that follow the trait contracts; they do not panic.",
];

pub fn checks() -> Vec<Check> {
  vec![
    Check { id: "C01", level: "model_checking", rule: "All job graphs, step durations, outcomes, map orders and task schedules within the scenario bounds, run through Workflow::run; non-trivial when the final result and start order differ.", assumptions: ASSUME, scenarios: c01 },
    Check { id: "C02", level: "model_checking", rule: "All dependency graphs (cyclic ones included), outcomes, durations and schedules within bounds: whatever the parser accepts is run to termination on a virtual clock.", assumptions: ASSUME, scenarios: c02 },
    Check { id: "C03", level: "model_checking", rule: "All directed dependency graphs within bounds and all combinations of broken parts, parsed by the real parser and compared with a reference acceptance function.", assumptions: ASSUME, scenarios: c03 },
    Check { id: "C04", level: "model_checking", rule: "All sequences of step outcomes and continue-on-error marks within bounds, run and compared with a reference automaton.", assumptions: ASSUME, scenarios: c04 },
    Check { id: "C05", level: "model_checking", rule: "All combinations of job outcomes, dependency shapes and completion orders within bounds.", assumptions: ASSUME, scenarios: c05 },
    Check { id: "C06", level: "model_checking", rule: "All small workflows, outcomes and schedules within bounds; every observer's notification sequence is checked against a grammar and the returned result.", assumptions: ASSUME, scenarios: c06 },
    Check { id: "C07", level: "model_checking", rule: "All subsets of failing hooks over up to three plugins and the runner, all outcomes, and schedules within bounds; observers' sequences compared pairwise.", assumptions: ASSUME, scenarios: c07 },
    Check { id: "C34", level: "model_checking", rule: "All small graphs, step sequences (skipped, refused, failed, cancelled, logging ones) and schedules within bounds; the times in results and log lines are compared with each other and with the real times at which the scripted runner and the observers saw things happen.", assumptions: &["The orchestrator runs on tokio's current-thread runtime with a virtual clock; task switches happen at awaits.", "The system clock is not set back while the check runs."], scenarios: c34 },
  ]
}
