//! Recording plugins and a scripted runner around the real orchestrator.
use crate::engine::Ctx;
use crate::rt;
use astro_run::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum What {
  RunWorkflow,
  RunJob,
  BeforeStep,
  RunStep,
  State(WorkflowState),
  Log(bool, String),
  StepDone(WorkflowState, Option<i32>),
  JobDone(WorkflowState),
  WorkflowDone(WorkflowState),
  /// The runner was asked to run a step.
  Run,
  /// The scripted step ended (signal it had been given, if any).
  Ended(&'static str),
  Sig(Signal),
  Env(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Who {
  Plugin(usize),
  Runner,
  World,
}

#[derive(Clone, Debug)]
pub struct Ev {
  pub who: Who,
  pub id: String,
  pub what: What,
  /// Virtual milliseconds since the start of the run.
  pub t: u64,
  /// Real time.
  pub wall: chrono::DateTime<chrono::Utc>,
}

#[derive(Clone, Debug)]
pub enum Op {
  Log(&'static str),
  Err(&'static str),
  Yield,
  Sleep(u64),
  End(RunResult),
  /// Waits for the signal and ends accordingly.
  Obey,
  /// Waits for the signal, and goes on.
  Await,
  /// Sleeps, or obeys a signal that arrives before.
  SleepOrObey(u64),
  /// Works for `total` ms, logging every so often; notes a signal, and ends there if it obeys.
  Work { every: u64, total: u64, obey: bool },
  /// The runner's `run` returns an error.
  Refuse,
  /// `run` itself waits one scheduling step before it answers.
  SlowAccept,
}

#[derive(Default)]
pub struct World {
  pub events: Mutex<Vec<Ev>>,
  pub behaviors: Mutex<HashMap<String, Vec<Op>>>,
  pub contexts: Mutex<Vec<astro_run::Context>>,
  pub start: Mutex<Option<Instant>>,
  /// Hooks yield once before they return.
  pub yields: std::sync::atomic::AtomicBool,
  /// The kind of error the first plugin's failing hooks return; those of later ones, and the runner's, differ.
  pub error_kind: std::sync::atomic::AtomicUsize,
  /// Completion notifications as received: (observer, id, the result as JSON).
  pub results: Mutex<Vec<(Who, String, String)>>,
  /// Payload/trigger observations: (hook, has event, event sha, payload as JSON).
  pub seen: Mutex<Vec<(String, Option<String>, Option<String>)>>,
  /// What start notifications were about: (hook, the workflow, job or step), if asked for.
  pub keep_sources: std::sync::atomic::AtomicBool,
  pub sources: Mutex<Vec<(String, serde_json::Value)>>,
  /// Log lines: when they were sent (step, real time), and what those told of them heard (observer, step, time given, real time).
  pub sent: Mutex<Vec<(String, Wall)>>,
  pub heard: Mutex<Vec<(Who, String, Wall, Wall)>>,
}

pub const ERROR_KINDS: usize = 7;

pub type Wall = chrono::DateTime<chrono::Utc>;

impl World {
  pub fn new() -> Arc<World> {
    Arc::new(World::default())
  }
  pub fn behave(&self, run: &str, ops: Vec<Op>) {
    self.behaviors.lock().unwrap().insert(run.to_string(), ops);
  }
  pub fn ev(&self, who: Who, id: impl ToString, what: What) {
    let now = Instant::now();
    let start = *self.start.lock().unwrap().get_or_insert(now);
    let t = now.saturating_duration_since(start).as_millis() as u64;
    let ev = Ev { who, id: id.to_string(), what, t, wall: chrono::Utc::now() };
    if let Some(c) = Ctx::current() {
      c.note(|| format!("{:?} {} {:?} {}ms", ev.who, ev.id, ev.what, ev.t));
    }
    self.events.lock().unwrap().push(ev);
  }
  pub fn done(&self, who: Who, id: impl ToString, r: &impl serde::Serialize) {
    // Through a Value: map keys sorted.
    let text = serde_json::to_value(r).unwrap().to_string();
    self.results.lock().unwrap().push((who, id.to_string(), text));
  }
  pub fn take(&self) -> Vec<Ev> {
    self.events.lock().unwrap().clone()
  }
  fn error(&self, who: usize, text: &str) -> Error {
    match (self.error_kind.load(std::sync::atomic::Ordering::Relaxed) + who) % ERROR_KINDS {
      0 => Error::error(text),
      1 => Error::init_error(text),
      2 => Error::workflow_config_error(text),
      3 => Error::internal_runtime_error(text),
      4 => Error::failed(3),
      5 => Error::io_error(std::io::ErrorKind::BrokenPipe.into()),
      _ => Error::unsupported_feature(text),
    }
  }
  async fn maybe_yield(&self) {
    if self.yields.load(std::sync::atomic::Ordering::Relaxed) {
      rt::yield_once().await;
    }
  }
}

/// A runner whose steps behave as scripted by their command line.
#[derive(Clone)]
pub struct MockRunner {
  pub w: Arc<World>,
  pub fail_hooks: bool,
  pub append: Option<&'static str>,
}

async fn body(w: Arc<World>, ctx: astro_run::Context, ops: Vec<Op>, tx: StreamSender) {
  let id = ctx.id.to_string();
  let seen = |ctx: &astro_run::Context| {
    if ctx.signal.is_cancelled() {
      "cancel"
    } else if ctx.signal.is_timeout() {
      "timeout"
    } else {
      "none"
    }
  };
  let obey = |w: &World, tx: &StreamSender, s: Signal| {
    w.ev(Who::World, &id, What::Sig(s));
    w.ev(Who::World, &id, What::Ended(match s { Signal::Cancel => "cancel", Signal::Timeout => "timeout" }));
    match s {
      Signal::Cancel => tx.cancelled(),
      Signal::Timeout => tx.timeout(),
    }
  };
  let mut reported = false;
  for op in ops {
    match op {
      Op::Log(s) => {
        w.sent.lock().unwrap().push((id.clone(), chrono::Utc::now()));
        tx.log(s)
      }
      Op::Err(s) => {
        w.sent.lock().unwrap().push((id.clone(), chrono::Utc::now()));
        tx.error(s)
      }
      Op::Yield => rt::yield_once().await,
      Op::Sleep(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
      Op::End(r) => {
        w.ev(Who::World, &id, What::Ended(seen(&ctx)));
        tx.end(r);
      }
      Op::Obey => {
        let s = ctx.signal.recv().await;
        obey(&w, &tx, s);
        return;
      }
      Op::Await => {
        ctx.signal.recv().await;
      }
      Op::SleepOrObey(ms) => {
        tokio::select! {
          biased;
          s = ctx.signal.recv() => { obey(&w, &tx, s); return; }
          _ = tokio::time::sleep(Duration::from_millis(ms)) => {}
        }
      }
      Op::Work { every, total, obey: obeys } => {
        let end = Instant::now() + Duration::from_millis(total);
        let mut told = ctx.signal.is_cancelled() || ctx.signal.is_timeout();
        if told && obeys {
          let s = if ctx.signal.is_cancelled() { Signal::Cancel } else { Signal::Timeout };
          obey(&w, &tx, s);
          return;
        }
        if told && !reported {
          reported = true;
          w.ev(Who::World, &id, What::Sig(if ctx.signal.is_cancelled() { Signal::Cancel } else { Signal::Timeout }));
        }
        while Instant::now() < end {
          let next = (Instant::now() + Duration::from_millis(every)).min(end);
          tokio::select! {
            biased;
            s = ctx.signal.recv(), if !told => {
              if obeys {
                obey(&w, &tx, s);
                return;
              }
              told = true;
              reported = true;
              w.ev(Who::World, &id, What::Sig(s));
            }
            _ = tokio::time::sleep_until(next) => tx.log("tick"),
          }
        }
      }
      Op::Refuse | Op::SlowAccept => {}
    }
  }
}

#[async_trait]
impl Runner for MockRunner {
  async fn run(&self, ctx: astro_run::Context) -> RunResponse {
    self.w.ev(Who::Runner, &ctx.id, What::Run);
    self.w.contexts.lock().unwrap().push(ctx.clone());
    // Whatever before-run hooks appended after `|` does not matter to the behaviour.
    let key = ctx.command.run.split('|').next().unwrap_or("").to_string();
    let ops = self.w.behaviors.lock().unwrap().get(&key).cloned();
    let ops = ops.unwrap_or_else(|| panic!("no behaviour for {:?}", ctx.command.run));
    if matches!(ops.first(), Some(Op::SlowAccept)) {
      rt::yield_once().await;
    }
    if ops.iter().any(|o| matches!(o, Op::Refuse)) {
      return Err(Error::internal_runtime_error("refused"));
    }
    let (tx, rx) = stream();
    // The step that ends within `run` itself.
    if matches!(ops.first(), Some(Op::End(_))) {
      body(self.w.clone(), ctx, ops, tx).await;
    } else {
      tokio::spawn(body(self.w.clone(), ctx, ops, tx));
    }
    Ok(rx)
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.w.ev(Who::Runner, &e.source.id, What::RunWorkflow);
    self.see("runner.on_run_workflow", &e);
    self.end().await
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.w.ev(Who::Runner, &e.source.id, What::RunJob);
    self.see("runner.on_run_job", &e);
    self.end().await
  }
  async fn on_before_run_step(&self, mut step: Step) -> HookBeforeRunStepResult {
    self.w.ev(Who::Runner, &step.id, What::BeforeStep);
    self.end().await?;
    if let Some(a) = self.append {
      step.run.push_str(a);
    }
    Ok(step)
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.w.ev(Who::Runner, &e.source.id, What::RunStep);
    self.see("runner.on_run_step", &e);
    self.end().await
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    state_ev(&self.w, Who::Runner, e);
    self.end().await
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    self.w.heard.lock().unwrap().push((Who::Runner, l.step_id.to_string(), l.time, chrono::Utc::now()));
    self.w.ev(Who::Runner, &l.step_id, What::Log(l.is_error(), l.message));
    self.end().await
  }
  async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult {
    self.w.done(Who::Runner, &r.id, &r);
    self.w.ev(Who::Runner, &r.id, What::StepDone(r.state, r.exit_code));
    self.end().await
  }
  async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult {
    self.w.done(Who::Runner, &r.id, &r);
    self.w.ev(Who::Runner, &r.id, What::JobDone(r.state));
    self.end().await
  }
  async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult {
    self.w.done(Who::Runner, &r.id, &r);
    self.w.ev(Who::Runner, &r.id, What::WorkflowDone(r.state));
    self.end().await
  }
}

impl MockRunner {
  async fn end(&self) -> HookNoopResult {
    self.w.maybe_yield().await;
    if self.fail_hooks {
      Err(self.w.error(5, "runner hook"))
    } else {
      Ok(())
    }
  }
  fn see<T: Clone + serde::Serialize>(&self, hook: &str, e: &RunEvent<T>) {
    see(&self.w, hook, e)
  }
}

pub fn see<T: Clone + serde::Serialize>(w: &World, hook: &str, e: &RunEvent<T>) {
  if w.keep_sources.load(std::sync::atomic::Ordering::Relaxed) {
    w.sources.lock().unwrap().push((hook.to_string(), serde_json::to_value(&e.source).unwrap()));
  }
  let (e, p) = (&e.trigger_event, &e.payload);
  w.seen.lock().unwrap().push((
    hook.to_string(),
    e.as_ref().map(|e| serde_json::to_string(e).unwrap()),
    p.as_ref().map(|p| serde_json::to_string(p).unwrap()),
  ));
}

fn state_ev(w: &World, who: Who, e: WorkflowStateEvent) {
  match e {
    WorkflowStateEvent::WorkflowStateUpdated { id, state } => w.ev(who, id, What::State(state)),
    WorkflowStateEvent::JobStateUpdated { id, state } => w.ev(who, id, What::State(state)),
    WorkflowStateEvent::StepStateUpdated { id, state } => w.ev(who, id, What::State(state)),
  }
}

/// What a recording plugin's hooks do.
#[derive(Clone, Default)]
pub struct Rec {
  pub w: Option<Arc<World>>,
  pub idx: usize,
  /// Every hook returns an error.
  pub fail: bool,
  /// Appended to a step's command line by the before-run-step hook.
  pub append: Option<&'static str>,
}

impl Rec {
  fn w(&self) -> &Arc<World> {
    self.w.as_ref().unwrap()
  }
  async fn end(&self) -> HookNoopResult {
    self.w().maybe_yield().await;
    if self.fail {
      Err(self.w().error(self.idx, "plugin"))
    } else {
      Ok(())
    }
  }
}

#[async_trait]
impl Plugin for Rec {
  fn name(&self) -> &'static str {
    "rec"
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.w().ev(Who::Plugin(self.idx), &e.source.id, What::RunWorkflow);
    see(self.w(), "plugin.on_run_workflow", &e);
    self.end().await
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.w().ev(Who::Plugin(self.idx), &e.source.id, What::RunJob);
    see(self.w(), "plugin.on_run_job", &e);
    self.end().await
  }
  async fn on_before_run_step(&self, mut step: Step) -> HookBeforeRunStepResult {
    self.w().ev(Who::Plugin(self.idx), &step.id, What::BeforeStep);
    self.end().await?;
    if let Some(a) = self.append {
      step.run.push_str(a);
    }
    Ok(step)
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.w().ev(Who::Plugin(self.idx), &e.source.id, What::RunStep);
    see(self.w(), "plugin.on_run_step", &e);
    self.end().await
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    state_ev(self.w(), Who::Plugin(self.idx), e);
    self.end().await
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    self.w().heard.lock().unwrap().push((Who::Plugin(self.idx), l.step_id.to_string(), l.time, chrono::Utc::now()));
    self.w().ev(Who::Plugin(self.idx), &l.step_id, What::Log(l.is_error(), l.message));
    self.end().await
  }
  async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult {
    self.w().done(Who::Plugin(self.idx), &r.id, &r);
    self.w().ev(Who::Plugin(self.idx), &r.id, What::StepDone(r.state, r.exit_code));
    self.end().await
  }
  async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult {
    self.w().done(Who::Plugin(self.idx), &r.id, &r);
    self.w().ev(Who::Plugin(self.idx), &r.id, What::JobDone(r.state));
    self.end().await
  }
  async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult {
    self.w().done(Who::Plugin(self.idx), &r.id, &r);
    self.w().ev(Who::Plugin(self.idx), &r.id, What::WorkflowDone(r.state));
    self.end().await
  }
}

pub struct StepSpec {
  pub run: String,
  pub extra: Vec<String>,
}

pub struct JobSpec {
  pub name: String,
  pub deps: Vec<String>,
  pub extra: Vec<String>,
  pub steps: Vec<StepSpec>,
}

pub fn q(s: &str) -> String {
  serde_json::to_string(s).unwrap()
}

pub fn yaml(jobs: &[JobSpec]) -> String {
  let mut s = String::from("jobs:\n");
  for j in jobs {
    s += &format!("  {}:\n", q(&j.name));
    if !j.deps.is_empty() {
      s += &format!("    depends-on: [{}]\n", j.deps.iter().map(|d| q(d)).collect::<Vec<_>>().join(", "));
    }
    for e in &j.extra {
      s += &format!("    {e}\n");
    }
    if j.steps.is_empty() {
      s += "    steps: []\n";
      continue;
    }
    s += "    steps:\n";
    for st in &j.steps {
      s += &format!("      - run: {}\n", q(&st.run));
      for e in &st.extra {
        s += &format!("        {e}\n");
      }
    }
  }
  s
}

pub fn step(run: impl Into<String>) -> StepSpec {
  StepSpec { run: run.into(), extra: vec![] }
}

pub fn job(name: &str, deps: &[&str], steps: Vec<StepSpec>) -> JobSpec {
  JobSpec { name: name.into(), deps: deps.iter().map(|s| s.to_string()).collect(), extra: vec![], steps }
}

pub fn astro(w: &Arc<World>, plugins: usize) -> AstroRun {
  let mut b = AstroRun::builder().runner(MockRunner { w: w.clone(), fail_hooks: false, append: None });
  for idx in 0..plugins {
    b = b.plugin(Rec { w: Some(w.clone()), idx, ..Default::default() });
  }
  b.build()
}

pub fn step_state(r: &StepRunResult) -> String {
  format!("{:?}{}", r.state, r.exit_code.map(|c| format!("({c})")).unwrap_or_default())
}

/// Canonical text of a workflow result (times left out).
pub fn result_text(r: &WorkflowRunResult) -> String {
  let jobs: BTreeMap<_, _> = r
    .jobs
    .iter()
    .map(|(k, j)| (k.clone(), format!("{:?}[{}]", j.state, j.steps.iter().map(step_state).collect::<Vec<_>>().join(","))))
    .collect();
  format!("{}:{:?} {:?}", r.id, r.state, jobs)
}
