//! The remote runner client and server, over a simulated network: C18-C23, C32.
use super::graph::{hist, Spec, J, S, WF};
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Scenario, Violation};
use crate::ensure;
use crate::net::{self, Item, Net, Scripted};
use crate::rt::{self, Opts, Select};
use crate::wf::*;
use astro_run::*;
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer, DefaultScheduler, RunnerMetadata, Scheduler};
use std::result::Result;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Everything a plugin, runner or scheduler is told, as (hook, JSON of its argument).
pub type Tape = Arc<Mutex<Vec<(&'static str, String)>>>;

fn record(t: &Tape, hook: &'static str, x: &impl serde::Serialize) {
  let text = serde_json::to_value(x).unwrap().to_string();
  t.lock().unwrap().push((hook, text));
}

/// A plugin that records, and can refuse, whatever it is told.
#[derive(Clone)]
struct TapePlugin {
  told: Arc<AtomicUsize>,
  tape: Tape,
  fail: bool,
  slow: bool,
}

impl TapePlugin {
  /// A slow one takes longer for some events than for the next.
  async fn begin(&self) {
    if self.slow && self.told.fetch_add(1, Ordering::SeqCst) % 3 == 0 {
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
  }
  async fn end(&self) -> HookNoopResult {
    if self.slow {
      rt::yield_once().await;
    }
    if self.fail {
      Err(Error::error("tape"))
    } else {
      Ok(())
    }
  }
}

#[async_trait]
impl Plugin for TapePlugin {
  fn name(&self) -> &'static str {
    "tape"
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "run_workflow", &e);
    self.end().await
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "run_job", &e);
    self.end().await
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "run_step", &e);
    self.end().await
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "state", &e);
    self.end().await
  }
  async fn on_log(&self, e: WorkflowLog) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "log", &e);
    self.end().await
  }
  async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "step_completed", &e);
    self.end().await
  }
  async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "job_completed", &e);
    self.end().await
  }
  async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult {
    self.begin().await;
    record(&self.tape, "workflow_completed", &e);
    self.end().await
  }
}

/// A scripted runner that records what it is told.
struct TapeRunner {
  mock: MockRunner,
  p: TapePlugin,
}

#[async_trait]
impl Runner for TapeRunner {
  async fn run(&self, ctx: astro_run::Context) -> RunResponse {
    self.mock.run(ctx).await
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.p.on_run_workflow(e).await
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.p.on_run_job(e).await
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.p.on_run_step(e).await
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    self.p.on_state_change(e).await
  }
  async fn on_log(&self, e: WorkflowLog) -> HookNoopResult {
    self.p.on_log(e).await
  }
  async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult {
    self.p.on_step_completed(e).await
  }
  async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult {
    self.p.on_job_completed(e).await
  }
  async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult {
    self.p.on_workflow_completed(e).await
  }
}

/// The default scheduler, recording what it is told and offered.
#[derive(Clone)]
struct TapeScheduler {
  inner: DefaultScheduler,
  tape: Tape,
}

#[async_trait]
impl Scheduler for TapeScheduler {
  fn on_run_workflow(&self, x: Workflow) {
    record(&self.tape, "run_workflow", &x);
    self.inner.on_run_workflow(x)
  }
  fn on_run_job(&self, x: Job) {
    record(&self.tape, "run_job", &x);
    self.inner.on_run_job(x)
  }
  fn on_run_step(&self, x: Step) {
    record(&self.tape, "run_step", &x);
    self.inner.on_run_step(x)
  }
  fn on_step_completed(&self, x: StepRunResult) {
    record(&self.tape, "step_completed", &x);
    self.inner.on_step_completed(x)
  }
  fn on_job_completed(&self, x: JobRunResult) {
    record(&self.tape, "job_completed", &x);
    self.inner.on_job_completed(x)
  }
  fn on_workflow_completed(&self, x: WorkflowRunResult) {
    record(&self.tape, "workflow_completed", &x);
    self.inner.on_workflow_completed(x)
  }
  async fn schedule<'a, 'b: 'a>(&'b self, runners: &'a [RunnerMetadata], ctx: &astro_run::Context) -> Option<&'a RunnerMetadata> {
    let mut ids: Vec<_> = runners.iter().map(|r| r.id.clone()).collect();
    ids.sort();
    let picked = self.inner.schedule(runners, ctx).await;
    self.tape.lock().unwrap().push(("schedule", format!("{} of {ids:?}: {:?}", ctx.id, picked.map(|r| &r.id))));
    picked
  }
}

fn url(i: usize) -> String {
  format!("http://r{i}")
}

struct Remote {
  w: Arc<World>,
  plugin: Tape,
  runner: Tape,
}

/// One client, real servers behind it, and everything each is told.
struct Sim {
  net: Net,
  local: Arc<World>,
  tape: Tape,
  sched: Tape,
  state: DefaultScheduler,
  remotes: Vec<Remote>,
  client: Mutex<Option<AstroRunRemoteRunnerClient>>,
  /// The client's `start`, which goes on forwarding events.
  started: Mutex<Option<tokio::task::JoinHandle<()>>>,
}

impl Sim {
  fn new(spec: &Spec, n: usize) -> Arc<Sim> {
    let remotes = (0..n)
      .map(|_| {
        let w = World::new();
        spec.behave(&w);
        Remote { w, plugin: Tape::default(), runner: Tape::default() }
      })
      .collect();
    Arc::new(Sim {
      net: Net::install(),
      local: World::new(),
      tape: Tape::default(),
      sched: Tape::default(),
      state: DefaultScheduler::new(),
      remotes,
      client: Mutex::new(None),
      started: Mutex::new(None),
    })
  }

  /// Within a runtime: serves the remotes and connects a client with them and `more`.
  async fn start(&self, slow: bool, more: Vec<String>) -> AstroRun {
    self.start_some(slow, 0..self.remotes.len(), more).await
  }

  fn serve_some(&self, slow: bool, which: std::ops::Range<usize>) -> Vec<String> {
    let mut urls = vec![];
    for i in which {
      let r = &self.remotes[i];
      let server = AstroRunRemoteRunnerServer::builder()
        .id(format!("r{i}"))
        .support_docker(true)
        .plugin(TapePlugin { told: Default::default(), tape: r.plugin.clone(), fail: false, slow })
        .runner(TapeRunner { mock: MockRunner { w: r.w.clone(), fail_hooks: false, append: None }, p: TapePlugin { told: Default::default(), tape: r.runner.clone(), fail: false, slow } })
        .build()
        .unwrap();
      self.net.serve(&url(i), server);
      urls.push(url(i));
    }
    urls
  }

  async fn start_some(&self, slow: bool, which: std::ops::Range<usize>, more: Vec<String>) -> AstroRun {
    let mut urls = self.serve_some(slow, which);
    urls.extend(more);
    let client = AstroRunRemoteRunnerClient::builder().scheduler(TapeScheduler { inner: self.state.clone(), tape: self.sched.clone() }).build().unwrap();
    *self.started.lock().unwrap() = Some(net::start(&client, urls).await);
    *self.client.lock().unwrap() = Some(client.clone());
    AstroRun::builder()
      .runner(client)
      .plugin(Rec { w: Some(self.local.clone()), idx: 0, ..Default::default() })
      .plugin(TapePlugin { told: Default::default(), tape: self.tape.clone(), fail: false, slow: false })
      .build()
  }

  /// The steps each remote was asked to run.
  fn ran(&self) -> Vec<Vec<String>> {
    self.remotes.iter().map(|r| r.w.take().iter().filter(|e| e.what == What::Run).map(|e| e.id.clone()).collect()).collect()
  }

  fn text(&self) -> String {
    let mut s = format!("client: {}", hist(&self.local.take(), &Who::Plugin(0)));
    for (i, r) in self.remotes.iter().enumerate() {
      s += &format!(" || r{i}: {}", hist(&r.w.take(), &Who::Runner));
    }
    s
  }

  /// Every step that was run was given to one remote, once.
  fn mon_once(&self, steps: &[String]) -> Result<(), Violation> {
    let ran = self.ran();
    for s in steps {
      let n: usize = ran.iter().map(|r| r.iter().filter(|x| *x == s).count()).sum();
      ensure!(n == 1, "given-to-several", "step {s} was given to remote runners {n} times ({ran:?}): {}", self.text());
    }
    Ok(())
  }

  fn forget(&self) {
    // The client holds the runtime's channels: dropped with the runtime.
    *self.client.lock().unwrap() = None;
    *self.started.lock().unwrap() = None;
  }
}

async fn run_wf(astro: &AstroRun, text: &str) -> WorkflowRunResult {
  let wf = Workflow::builder().id(WF).config(text).build(astro).await.unwrap_or_else(|e| panic!("not accepted: {e}\n{text}"));
  wf.run(astro.execution_context().build()).await
}

fn one(ops: Vec<Op>) -> Spec {
  Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops, coe: false }] }] }
}

/// The log lines of a step as the client's plugins were given them.
fn logs(ev: &[Ev], id: &str) -> Vec<(bool, String)> {
  ev.iter()
    .filter(|e| e.who == Who::Plugin(0) && e.id == id)
    .filter_map(|e| match &e.what {
      What::Log(b, m) => Some((*b, m.clone())),
      _ => None,
    })
    .collect()
}

fn completed(ev: &[Ev], id: &str) -> Vec<(WorkflowState, Option<i32>)> {
  ev.iter()
    .filter(|e| e.who == Who::Plugin(0) && e.id == id)
    .filter_map(|e| match &e.what {
      What::StepDone(s, c) => Some((s.clone(), *c)),
      _ => None,
    })
    .collect()
}

fn local_result(r: &RunResult) -> (WorkflowState, Option<i32>) {
  match r {
    RunResult::Succeeded => (WorkflowState::Succeeded, None),
    RunResult::Failed { exit_code } => (WorkflowState::Failed, Some(*exit_code)),
    RunResult::Cancelled => (WorkflowState::Cancelled, None),
  }
}

const RESULTS: [RunResult; 6] = [
  RunResult::Succeeded,
  RunResult::Failed { exit_code: 7 },
  RunResult::Cancelled,
  RunResult::Failed { exit_code: 0 },
  RunResult::Failed { exit_code: -1 },
  RunResult::Failed { exit_code: i32::MIN },
];

// ---------------------------------------------------------------- C19

fn c19(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // What the remote side's runner gives is what comes out.
  let len = tier.or(3, 4);
  v.push(scenario("same-as-local", 0, move |ctx| {
    let mut ops = vec![];
    let mut want = vec![];
    for _ in 0..ctx.pick("lines", len + 1) {
      match ctx.pick("line", 7) {
        6 => ops.push((Op::Err(""), Some((true, "")))),
        0 => ops.push((Op::Log("a"), Some((false, "a")))),
        1 => ops.push((Op::Err("b"), Some((true, "b")))),
        2 => ops.push((Op::Log(""), Some((false, "")))),
        3 => ops.push((Op::Err("\u{e9}\u{1f600}\"\\\n\0"), Some((true, "\u{e9}\u{1f600}\"\\\n\0")))),
        4 => ops.push((Op::Yield, None)),
        _ => ops.push((Op::Sleep(5), None)),
      }
    }
    for (_, l) in &ops {
      want.extend(l.map(|(b, s)| (b, s.to_string())));
    }
    let result = ctx.of("result", &RESULTS).clone();
    let mut ops: Vec<Op> = ops.into_iter().map(|x| x.0).collect();
    ops.push(Op::End(result.clone()));
    let spec = one(ops);
    judge(ctx, Opts { tasks: false, select: Select::PickOne, free: false, os: false, slow: 0 }, &spec, 1, want, result)
  }));
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| {
    let ops = vec![Op::Log("a"), Op::Yield, Op::Err("b"), Op::End(RunResult::Failed { exit_code: 3 })];
    let ops = if ctx.flag("at-once") { vec![Op::End(RunResult::Failed { exit_code: 3 })] } else { ops };
    let want = if ops.len() == 1 { vec![] } else { vec![(false, "a".to_string()), (true, "b".to_string())] };
    judge(ctx, Opts { select: Select::PerPoll, ..Default::default() }, &one(ops), 1, want, RunResult::Failed { exit_code: 3 })
  }));
  // A step that is told to stop, and ends as it likes.
  v.push(scenario("signalled", tier.or(0, 1), move |ctx| {
    let signal = ctx.pick("signal", 4);
    let obey = ctx.flag("obeys");
    let result = ctx.of("result", &RESULTS).clone();
    let mut want = vec![(false, "a".to_string())];
    let mut end = result.clone();
    if obey && signal != 0 {
      end = if signal == 2 { RunResult::Failed { exit_code: 123 } } else { RunResult::Cancelled };
    } else {
      want.push((true, "b".to_string()));
    }
    let mut ops = vec![Op::Log("a"), if obey { Op::SleepOrObey(3000) } else { Op::Sleep(3000) }];
    ops.extend([Op::Err("b"), Op::End(result)]);
    let spec = one(ops);
    let mut text = spec.yaml();
    if signal >= 2 {
      text = text.replace("      - run: \"j0s0\"", "      - run: \"j0s0\"\n        timeout: 1s");
    }
    judge_text(ctx, Opts { select: Select::PickOne, ..Default::default() }, &spec, text, 1, want, end, signal & 1 == 1)
  }));
  // A step may say nothing for a long time.
  v.push(scenario("silence", 0, move |ctx| {
    const HOUR: u64 = 3_600_000;
    let mut ops = vec![];
    let mut want = vec![];
    for _ in 0..2 {
      match ctx.pick("silent-for", 4) {
        0 => ops.push(Op::Yield),
        n => ops.push(Op::Sleep([0, HOUR / 4, 25 * HOUR, 40 * 24 * HOUR][n])),
      }
      if ctx.flag("line") {
        ops.push(Op::Log("a"));
        want.push((false, "a".to_string()));
      }
    }
    let result = ctx.of("result", &RESULTS[..3]).clone();
    ops.push(Op::End(result.clone()));
    let spec = one(ops);
    let text = spec.yaml().replace("      - run: \"j0s0\"", "      - run: \"j0s0\"\n        timeout: 200days");
    judge_text(ctx, Opts { select: Select::First, tasks: false, ..Default::default() }, &spec, text, 1, want, result, false)
  }));
  // More lines than any of the channels in between holds.
  v.push(scenario("bursts", tier.or(0, 1), move |ctx| {
    let n = *ctx.of("lines", &[29, 30, 31, 61, 100, 300, 1100, 5000]);
    let gap = if n > 1000 { 0 } else { ctx.pick("pause-after", 3) };
    let mut ops = vec![];
    let mut want = vec![];
    const WORDS: [&str; 4] = ["a", "b", "c", "d"];
    for i in 0..n {
      ops.push(if i % 3 == 2 { Op::Err(WORDS[i % 4]) } else { Op::Log(WORDS[i % 4]) });
      want.push((i % 3 == 2, WORDS[i % 4].to_string()));
      if gap > 0 && i % 30 == 10 * gap {
        ops.push(Op::Yield);
      }
    }
    ops.push(Op::End(RunResult::Succeeded));
    judge(ctx, Opts { select: Select::First, tasks: n <= 1100, ..Default::default() }, &one(ops), 1, want, RunResult::Succeeded)
  }));
  // Lines longer than a packet, a frame or a window.
  v.push(scenario("sizes", 0, move |ctx| {
    static LONG: std::sync::LazyLock<[String; 4]> = std::sync::LazyLock::new(|| [20_000usize, 65_536, 150_001, 2_000_000].map(|n| "0123456789abcde\u{e9}".chars().cycle().take(n).collect()));
    let mut ops = vec![];
    let mut want = vec![];
    for _ in 0..1 + ctx.pick("lines", 3) {
      let (text, err) = match ctx.pick("line", 5) {
        0 => ("short", false),
        i => (LONG[i - 1].as_str(), i % 2 == 0),
      };
      ops.push(if err { Op::Err(text) } else { Op::Log(text) });
      want.push((err, text.to_string()));
    }
    ops.push(Op::End(RunResult::Succeeded));
    judge(ctx, Opts { tasks: false, select: Select::First, free: false, os: false, slow: 0 }, &one(ops), 1, want, RunResult::Succeeded)
  }));
  // Whatever goes wrong: a failure.
  v.push(scenario("faults", 0, move |ctx| faults(ctx, tier.or(3, 4), Opts { tasks: false, select: Select::PickOne, free: false, os: false, slow: 0 })));
  v.push(scenario("fault-schedules", 1, move |ctx| faults(ctx, tier.or(2, 3), Opts { select: Select::First, ..Default::default() })));
  // Several runners: each step is given to one.
  v.push(scenario("several-runners", tier.or(0, 1), move |ctx| {
    rt::pick_seed(ctx, 2);
    let n = ctx.pick("runners", 4);
    let deps = ctx.flag("dependent");
    let oc: Vec<RunResult> = (0..3).map(|_| ctx.of("result", &RESULTS[..3]).clone()).collect();
    let s = |i: usize| S { ops: vec![Op::Log(["x", "y", "z"][i]), Op::Sleep(3), Op::End(oc[i].clone())], coe: true };
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![s(0)] }, J { deps: if deps { vec![0] } else { vec![] }, steps: vec![s(1)] }, J { deps: vec![], steps: vec![s(2)] }] };
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(ctx, Opts { select: Select::First, ..Default::default() }, async move { run_wf(&s2.start(false, vec![]).await, &text).await }, Duration::from_secs(5));
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
    let ev = sim.local.take();
    let ids: Vec<String> = (0..3).map(|i| format!("{WF}/j{i}/0")).collect();
    if n > 0 {
      sim.mon_once(&ids)?;
    }
    for (i, id) in ids.iter().enumerate() {
      let (want_l, want) = if n == 0 { (None, (WorkflowState::Failed, Some(1))) } else { (Some(vec![(false, ["x", "y", "z"][i].to_string())]), local_result(&oc[i])) };
      let got = completed(&ev, id);
      ensure!(got == [want.clone()], "result-differs", "step {id} with {n} runners completed as {got:?}, its remote runner gave {want:?}: {}", sim.text());
      if let Some(l) = want_l {
        ensure!(logs(&ev, id) == l, "logs-differ", "step {id} logged {:?}: {}", logs(&ev, id), sim.text());
      }
    }
    Ok(result_text(&r))
  }));
  v
}

fn judge(ctx: &Ctx, opts: Opts, spec: &Spec, n: usize, want: Vec<(bool, String)>, result: RunResult) -> Result<String, Violation> {
  judge_text(ctx, opts, spec, spec.yaml(), n, want, result, false)
}

#[allow(clippy::too_many_arguments)]
fn judge_text(ctx: &Ctx, opts: Opts, spec: &Spec, text: String, n: usize, want: Vec<(bool, String)>, result: RunResult, cancel: bool) -> Result<String, Violation> {
  let sim = Sim::new(spec, n);
  let s2 = sim.clone();
  let r = rt::run(
    ctx,
    opts,
    async move {
      let astro = s2.start(false, vec![]).await;
      if cancel {
        let a2 = astro.clone();
        rt::spawn_prio(1, async move {
          tokio::time::sleep(Duration::from_millis(5)).await;
          a2.cancel_job(&JobId::new(WF, "j0")).ok();
        });
      }
      run_wf(&astro, &text).await
    },
    Duration::from_secs(5),
  );
  sim.forget();
  let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
  let ev = sim.local.take();
  let id = format!("{WF}/j0/0");
  sim.mon_once(&[id.clone()])?;
  let got = logs(&ev, &id);
  ensure!(got == want, "logs-differ", "the remote runner logged {want:?}, the step {got:?}");
  let (got, want) = (completed(&ev, &id), local_result(&result));
  ensure!(got == [want.clone()], "result-differs", "the remote runner ended with {want:?}, the step with {got:?}");
  Ok(result_text(&r))
}

fn faults(ctx: &Ctx, len: usize, opts: Opts) -> Result<String, Violation> {
  let how = ctx.pick("answer", 3);
  let mut items = vec![];
  if how == 0 {
    for _ in 0..ctx.pick("items", len + 1) {
      items.push(match ctx.pick("item", 7) {
        0 => Item::Log(false, "a".into()),
        1 => Item::Log(true, "b".into()),
        2 => Item::Result(RunResult::Succeeded),
        3 => Item::Result(RunResult::Failed { exit_code: 7 }),
        4 => Item::Status,
        5 => Item::Cut,
        _ => Item::Pause,
      });
      if matches!(items.last(), Some(Item::Status | Item::Cut)) {
        break;
      }
    }
  }
  let signal = if how == 0 { ctx.pick("signal", 2) } else { 0 };
  let events_fail = ctx.flag("events-fail");
  let sim = Sim::new(&one(vec![]), 0);
  let mut svc = Scripted::new(&sim.net, "http://s", "s");
  svc.run = if how == 1 { Err(()) } else { Ok(items.clone()) };
  svc.cut_run = how == 2;
  svc.events_fail = vec![events_fail];
  let seen = svc.seen.clone();
  let (s2, text) = (sim.clone(), one(vec![]).yaml());
  let r = rt::run(
    ctx,
    opts,
    async move {
      s2.net.serve("http://s", svc);
      let astro = s2.start(false, vec!["http://s".into()]).await;
      if signal == 1 {
        let a2 = astro.clone();
        rt::spawn_prio(1, async move {
          a2.cancel_job(&JobId::new(WF, "j0")).ok();
        });
      }
      run_wf(&astro, &text).await
    },
    Duration::from_secs(5),
  );
  sim.forget();
  let what = format!("answer {how}, items {items:?}, cancelled {signal}, events fail {events_fail}");
  let Ok(r) = r else { return viol("hang", format!("the step did not end ({what}): {}", sim.text())) };
  let n = seen.lock().unwrap().iter().filter(|s| s.starts_with("run ")).count();
  ensure!(n == 1, "given-to-several", "the step was given to the runner {n} times ({what})");
  let ev = sim.local.take();
  let id = format!("{WF}/j0/0");
  let (got_l, got) = (logs(&ev, &id), completed(&ev, &id));
  let mut want_l = vec![];
  let mut want = None;
  let mut fault = how != 0;
  for i in &items {
    match i {
      Item::Log(e, m) => want_l.push((*e, m.clone())),
      Item::Result(r) => {
        want = Some(local_result(r));
        break;
      }
      Item::Status | Item::Cut => {
        fault = true;
        break;
      }
      Item::Pause => {}
    }
  }
  fault |= want.is_none();
  ensure!(got.len() == 1, "result-differs", "the step completed as {got:?} ({what})");
  // When the connection breaks, or telling the remote side of a signal fails, what was under way may be lost.
  let lossy = items.contains(&Item::Cut) || (signal == 1 && events_fail);
  let failed = got[0].0 == WorkflowState::Failed;
  if fault {
    ensure!(failed, "fault-not-failed", "the step completed as {got:?} ({what})");
  } else if !(lossy && failed) {
    ensure!(Some(&got[0]) == want.as_ref(), "result-differs", "the step completed as {got:?} instead of {want:?} ({what})");
  }
  if !lossy {
    ensure!(got_l.starts_with(&want_l), "logs-differ", "the step logged {got_l:?} instead of {want_l:?} ({what})");
    let rest = &got_l[want_l.len()..];
    // A remote side may go on after its result; nothing says what becomes of that.
    if !fault {
      ensure!(rest.is_empty() || items.iter().skip_while(|i| !matches!(i, Item::Result(_))).count() > 1, "logs-differ", "the step logged {got_l:?} instead of {want_l:?} ({what})");
    } else {
      ensure!(rest.iter().all(|(e, _)| *e), "logs-differ", "the step logged {got_l:?} instead of {want_l:?} and errors ({what})");
    }
  }
  Ok(result_text(&r))
}

// ---------------------------------------------------------------- any notification at all

#[derive(Clone)]
enum Note {
  Workflow(RunWorkflowEvent),
  Job(RunJobEvent),
  Step(RunStepEvent),
  State(WorkflowStateEvent),
  Log(WorkflowLog),
  StepDone(StepRunResult),
  JobDone(JobRunResult),
  WorkflowDone(WorkflowRunResult),
}

/// Notifications of every kind, with and without whatever they can have.
fn notes() -> Vec<Note> {
  let sid = StepId::new("wf", "job", 0);
  let (jid, wid) = (sid.job_id(), sid.workflow_id());
  let at = |s| chrono::DateTime::<chrono::Utc>::from_timestamp(s, 5);
  let step = Step { id: sid.clone(), run: "x".into(), ..Default::default() };
  let job = |steps: Vec<Step>| Job { id: jid.clone(), name: None, on: None, steps, depends_on: vec![], working_directories: vec![] };
  let workflow = |jobs: std::collections::HashMap<String, Job>| Workflow { id: wid.clone(), name: None, on: None, jobs };
  let mut v = vec![];
  for trigger in [None, Some(TriggerEvent { event: "push".into(), branch: "main".into(), ..Default::default() })] {
    for p in [None, Some("p")] {
      let payload = || p.map(|t| ContextPayload::new(super::exec::Cargo { text: t.into(), number: 1, list: vec![], maybe: None }));
      for full in [false, true] {
        let steps = || if full { vec![step.clone(); 2] } else { vec![] };
        v.push(Note::Workflow(RunWorkflowEvent {
          source: workflow(if full { [("job".to_string(), job(steps()))].into() } else { Default::default() }),
          trigger_event: trigger.clone(),
          payload: payload(),
        }));
        v.push(Note::Job(RunJobEvent { source: job(steps()), trigger_event: trigger.clone(), payload: payload() }));
        let source = if full { step.clone() } else { Step { id: sid.clone(), ..Default::default() } };
        v.push(Note::Step(RunStepEvent { source, trigger_event: trigger.clone(), payload: payload() }));
      }
    }
  }
  for state in states() {
    v.push(Note::State(WorkflowStateEvent::WorkflowStateUpdated { id: wid.clone(), state: state.clone() }));
    v.push(Note::State(WorkflowStateEvent::JobStateUpdated { id: jid.clone(), state: state.clone() }));
    v.push(Note::State(WorkflowStateEvent::StepStateUpdated { id: sid.clone(), state: state.clone() }));
    for (started_at, completed_at) in [(None, None), (at(1), None), (None, at(2)), (at(1), at(2)), (at(2), at(1))] {
      for exit_code in [None, Some(0), Some(1), Some(-1)] {
        if exit_code.is_none() || started_at == completed_at || started_at == at(1) {
          v.push(Note::StepDone(StepRunResult { id: sid.clone(), state: state.clone(), exit_code, started_at, completed_at }));
        }
      }
      let done = |state: WorkflowState| StepRunResult { id: sid.clone(), state, exit_code: None, started_at, completed_at };
      for steps in [vec![], vec![done(WorkflowState::Skipped)], vec![done(WorkflowState::Succeeded), done(WorkflowState::Failed)]] {
        let j = JobRunResult { id: jid.clone(), state: state.clone(), started_at, completed_at, steps };
        v.push(Note::JobDone(j.clone()));
        for jobs in [vec![], vec![("job".to_string(), j)]] {
          v.push(Note::WorkflowDone(WorkflowRunResult { id: wid.clone(), state: state.clone(), started_at, completed_at, jobs: jobs.into_iter().collect() }));
        }
      }
    }
  }
  for log_type in [WorkflowLogType::Error, WorkflowLogType::Log] {
    for m in ["x", "", " ", "\n", "\u{e9}\0"] {
      v.push(Note::Log(WorkflowLog { step_id: sid.clone(), log_type: log_type.clone(), message: m.into(), time: at(3).unwrap() }));
    }
  }
  v
}

impl Note {
  async fn tell(self, p: &(impl Plugin + ?Sized), r: &impl Runner) {
    match self {
      Note::Workflow(e) => (p.on_run_workflow(e.clone()).await, r.on_run_workflow(e).await),
      Note::Job(e) => (p.on_run_job(e.clone()).await, r.on_run_job(e).await),
      Note::Step(e) => (p.on_run_step(e.clone()).await, r.on_run_step(e).await),
      Note::State(e) => (p.on_state_change(e.clone()).await, r.on_state_change(e).await),
      Note::Log(e) => (p.on_log(e.clone()).await, r.on_log(e).await),
      Note::StepDone(e) => (p.on_step_completed(e.clone()).await, r.on_step_completed(e).await),
      Note::JobDone(e) => (p.on_job_completed(e.clone()).await, r.on_job_completed(e).await),
      Note::WorkflowDone(e) => (p.on_workflow_completed(e.clone()).await, r.on_workflow_completed(e).await),
    }
    .0
    .ok();
  }
}

/// The client, told `depth` notifications one after the other.
fn anything(ctx: &Ctx, n: usize, depth: usize) -> Result<(Arc<Sim>, String), Violation> {
  let all = notes();
  // One after the other of a few, or each of all by itself.
  let few = depth > 1;
  let stride = if few { 11 } else { 1 };
  let told: Vec<Note> = (0..depth).map(|_| all[ctx.pick("notification", all.len().div_ceil(stride)) * stride].clone()).collect();
  let sim = Sim::new(&one(vec![]), n);
  let s2 = sim.clone();
  let r = rt::run(
    ctx,
    Opts { select: Select::First, tasks: false, free: false, os: false, slow: 0 },
    async move {
      let _astro = s2.start(false, vec![]).await;
      let client = s2.client.lock().unwrap().clone().unwrap();
      let p = TapePlugin { told: Default::default(), tape: s2.tape.clone(), fail: false, slow: false };
      for x in told {
        x.tell(&p, &client).await;
      }
    },
    Duration::from_secs(5),
  );
  sim.forget();
  if r.is_err() {
    return viol("hang", "a notification was not taken");
  }
  let text = sim.tape.lock().unwrap().iter().map(|(h, t)| format!("{h} {t}")).collect::<Vec<_>>().join("; ");
  Ok((sim, text))
}

// ---------------------------------------------------------------- C18

/// The subset of what plugins are told that a scheduler is told too, as it is told it.
fn for_scheduler(tape: &Tape) -> Vec<(&'static str, String)> {
  tape
    .lock()
    .unwrap()
    .iter()
    .filter_map(|(h, t)| match *h {
      "run_workflow" | "run_job" | "run_step" => Some((*h, serde_json::from_str::<serde_json::Value>(t).unwrap()["source"].to_string())),
      "step_completed" | "job_completed" | "workflow_completed" => Some((*h, t.clone())),
      _ => None,
    })
    .collect()
}

fn c18(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  for (name, bound, workflows) in [("one-workflow", tier.or(0, 1), 1usize), ("two-workflows", tier.or(0, 1), 2), ("schedules", tier.or(1, 2), 0)] {
    v.push(scenario(name, bound, move |ctx| {
      rt::pick_seed(ctx, 2);
      let small = workflows == 0;
      let n = if small { 1 } else { ctx.pick("runners", 3) };
      let a_step = |k: &'static str| {
        let ops = match ctx.pick(k, if small { 2 } else { 5 }) {
          0 => vec![Op::Log("x"), Op::Sleep(3), Op::End(RunResult::Succeeded)],
          1 => vec![Op::Sleep(2), Op::End(RunResult::Failed { exit_code: 7 })],
          2 => vec![Op::Obey],
          3 => vec![Op::Refuse],
          _ => vec![Op::End(RunResult::Cancelled)],
        };
        S { ops, coe: false }
      };
      let mut jobs = vec![J { deps: vec![], steps: vec![a_step("step")] }];
      if !small {
        jobs[0].steps.push(a_step("step"));
        jobs.push(J { deps: if ctx.flag("dependent") { vec![0] } else { vec![] }, steps: vec![a_step("step")] });
      }
      let host = ctx.flag("host");
      let cut = n > 0 && ctx.flag("cut");
      // The client's `start` is given up: nobody takes its events any more.
      let stop = if cut { None } else { [None, Some(0u64), Some(3)][ctx.pick("start-given-up", if small { 2 } else { tier.or(2, 3) })] };
      let spec = Spec { jobs };
      let sim = Sim::new(&spec, n);
      let mut text = spec.yaml();
      if host {
        // The last job's steps run on a host.
        text = text.replace("      - run: \"j1s0\"", &format!("      - run: \"j1s0\"\n        container: host/{}", std::env::consts::OS));
      }
      let s2 = sim.clone();
      let r = rt::run(
        ctx,
        Opts { select: Select::First, ..Default::default() },
        async move {
          let astro = s2.start(false, vec![]).await;
          let started = s2.started.lock().unwrap().take().unwrap();
          match stop {
            None => {}
            Some(0) => {
              started.abort();
              tokio::time::sleep(Duration::from_millis(1)).await;
            }
            Some(at) => {
              rt::spawn_prio(1, async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                started.abort();
              });
            }
          }
          // Cancelled in time: steps that wait for it end.
          for (wf, at) in [("w0", 9u64), ("w1", 11)] {
            for j in ["j0", "j1"] {
              let a2 = astro.clone();
              let net = s2.net.clone();
              rt::spawn_prio(1, async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                if cut {
                  net.cut(&url(0), false);
                }
                a2.cancel_job(&JobId::new(wf, j)).ok();
              });
            }
          }
          let mut hs = vec![];
          for i in 0..workflows.max(1) {
            let wf = Workflow::builder().id(format!("w{i}")).config(text.as_str()).build(&astro).await.unwrap_or_else(|e| panic!("not accepted: {e}\n{text}"));
            let ec = astro.execution_context().build();
            hs.push(tokio::spawn(async move { wf.run(ec).await }));
          }
          let mut out = vec![];
          for h in hs {
            out.push(h.await.unwrap());
          }
          out
        },
        Duration::from_secs(5),
      );
      sim.forget();
      let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
      let want = for_scheduler(&sim.tape);
      let got: Vec<_> = sim.sched.lock().unwrap().iter().filter(|(h, _)| *h != "schedule").cloned().collect();
      let names = |x: &[(&'static str, String)]| x.iter().map(|(h, t)| format!("{h} {}", serde_json::from_str::<serde_json::Value>(t).unwrap()["id"])).collect::<Vec<_>>().join(", ");
      ensure!(got == want, "scheduler-not-told", "the scheduler was told [{}], plugins [{}]", names(&got), names(&want));
      let st = sim.state.state.lock().clone();
      ensure!(
        st.runs_count.is_empty() && st.job_runners.is_empty() && st.step_runners.is_empty(),
        "load-kept",
        "after everything has completed the default scheduler still holds {:?} {:?} {:?}",
        st.runs_count,
        st.job_runners,
        st.step_runners
      );
      // A step is placed before it completes and after its job has started.
      let tape = sim.sched.lock().unwrap().clone();
      for (i, (h, t)) in tape.iter().enumerate() {
        if *h == "schedule" {
          let id = t.split(' ').next().unwrap();
          let is = |x: &(&'static str, String), hook: &str| x.0 == hook && serde_json::from_str::<serde_json::Value>(&x.1).unwrap()["id"] == serde_json::to_value(id_of(id)).unwrap();
          ensure!(tape[..i].iter().any(|x| is(x, "run_step")), "told-late", "step {id} was placed before the scheduler was told of its start");
          ensure!(tape[i..].iter().any(|x| is(x, "step_completed")), "scheduler-not-told", "the scheduler was not told of the completion of step {id}");
        }
      }
      Ok(r.iter().map(result_text).collect::<Vec<_>>().join(" | "))
    }));
  }
  for (name, depth) in [("anything", 1), ("any-two", 2)] {
    v.push(scenario(name, 0, move |ctx| {
      let (sim, text) = anything(ctx, ctx.pick("runners", 2), depth)?;
      let want = for_scheduler(&sim.tape);
      let got = sim.sched.lock().unwrap().clone();
      ensure!(got == want, "scheduler-not-told", "the scheduler: {} (the client was told: {text})", differs(&want, &got));
      Ok(text)
    }));
  }
  v
}

fn id_of(text: &str) -> StepId {
  let p: Vec<&str> = text.split('/').collect();
  StepId::new(p[0], p[1], p[2].parse().unwrap())
}

// ---------------------------------------------------------------- C21

/// What the client's plugins were told, as the protocol's events.
fn as_events(tape: &Tape) -> Vec<String> {
  tape
    .lock()
    .unwrap()
    .iter()
    .map(|(h, t)| {
      let name = match *h {
        "run_workflow" => "RunWorkflow",
        "run_job" => "RunJob",
        "run_step" => "RunStep",
        "state" => "StateChange",
        "log" => "StepLog",
        "step_completed" => "StepCompleted",
        "job_completed" => "JobCompleted",
        _ => "WorkflowCompleted",
      };
      let x: serde_json::Value = serde_json::from_str(t).unwrap();
      format!("event {}", serde_json::json!({ name: x }))
    })
    .collect()
}

fn differs(want: &[(&'static str, String)], got: &[(&'static str, String)]) -> String {
  let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
  let show = |x: Option<&(&'static str, String)>| x.map(|(h, t)| format!("{h} {t}")).unwrap_or("nothing".into());
  format!("{} of {} arrived, number {n} was {} instead of {}", got.len(), want.len(), show(got.get(n)), show(want.get(n)))
}

impl Sim {
  fn mon_delivered(&self) -> Result<(), Violation> {
    let want = self.tape.lock().unwrap().clone();
    for (i, r) in self.remotes.iter().enumerate() {
      for (who, t) in [("plugin", &r.plugin), ("runner", &r.runner)] {
        let got = t.lock().unwrap().clone();
        ensure!(got == want, "events-differ", "to the {who} behind r{i} of {}: {}", self.remotes.len(), differs(&want, &got));
      }
    }
    Ok(())
  }
}

fn c21(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Workflows of all kinds.
  v.push(scenario("workflows", tier.or(0, 1), move |ctx| {
    rt::pick_seed(ctx, 2);
    let n = 1 + ctx.pick("runners", 3);
    let slow = ctx.flag("slow-hooks");
    let a_step = || S {
      ops: match ctx.pick("step", 4) {
        0 => vec![Op::Log("x"), Op::Err("y"), Op::Log(""), Op::Err(""), Op::Log("\u{e9}\n\0"), Op::End(RunResult::Succeeded)],
        1 => vec![Op::Sleep(2), Op::Log(" "), Op::End(RunResult::Failed { exit_code: 7 })],
        2 => vec![Op::End(RunResult::Cancelled)],
        _ => vec![Op::Refuse],
      },
      coe: ctx.flag("continue-on-error"),
    };
    let jobs = vec![J { deps: vec![], steps: vec![a_step(), a_step()] }, J { deps: if ctx.flag("dependent") { vec![0] } else { vec![] }, steps: vec![a_step()] }];
    let spec = Spec { jobs };
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(ctx, Opts { select: Select::First, ..Default::default() }, async move { run_wf(&s2.start(slow, vec![]).await, &text).await }, Duration::from_secs(5));
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
    sim.mon_delivered()?;
    Ok(result_text(&r))
  }));
  // More at once than any buffer holds.
  // Whatever takes the events to the runners may be given no time until there is nothing else to do.
  v.push(scenario("starved", 0, move |ctx| {
    let lines = *ctx.of("lines", &[100usize, 1200, tier.or(5000, 9000)]);
    let n = 1 + if lines > 1200 { 0 } else { ctx.pick("runners", 2) };
    let mut ops = vec![Op::Log("m"); lines];
    ops.push(Op::End(RunResult::Succeeded));
    let spec = one(ops);
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(ctx, Opts { select: Select::First, tasks: false, free: false, os: false, slow: tier.or(24, 40) }, async move { run_wf(&s2.start(false, vec![]).await, &text).await }, Duration::from_secs(30));
    sim.forget();
    let Ok(r) = r else { return viol("hang", "the run did not end") };
    sim.mon_delivered()?;
    Ok(result_text(&r))
  }));
  v.push(scenario("bursts", 0, move |ctx| {
    let lines = *ctx.of("lines", &[0, 1, 10, 25, 29, 30, 31, 40, 64, 100, 200, 1000, 5000]);
    let n = 1 + if lines > 1000 { 0 } else { ctx.pick("runners", 3) };
    let slow = ctx.flag("slow-hooks");
    let jobs = 1 + if lines > 1000 { 0 } else { ctx.pick("jobs", 2) };
    let mut ops = vec![Op::Log("m"); lines];
    for (i, o) in ops.iter_mut().enumerate() {
      if i % 7 == 3 {
        *o = Op::Err("e");
      }
    }
    if lines <= 1000 && ctx.flag("pause-midway") {
      ops.insert(lines / 2, Op::Sleep(1));
    }
    if lines == 25 {
      static LONG: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| "0123456789abcde\u{e9}".repeat(9000));
      ops[7] = Op::Log(&LONG);
    }
    ops.push(Op::End(RunResult::Succeeded));
    let s = || S { ops: ops.clone(), coe: false };
    let spec = Spec { jobs: (0..jobs).map(|_| J { deps: vec![], steps: vec![s(), s()] }).collect() };
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let select = if lines > 1000 { Select::First } else { Select::PickOne };
    let r = rt::run(ctx, Opts { select, tasks: false, free: false, os: false, slow: 0 }, async move { run_wf(&s2.start(slow, vec![]).await, &text).await }, Duration::from_secs(30));
    sim.forget();
    let Ok(r) = r else { return viol("hang", "the run did not end") };
    sim.mon_delivered()?;
    Ok(result_text(&r))
  }));
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| {
    let n = 1 + ctx.pick("runners", 2);
    let slow = ctx.flag("slow-hooks");
    let s = |ops| S { ops, coe: false };
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![s(vec![Op::Log("a"), Op::Yield, Op::Log("b"), Op::End(RunResult::Succeeded)])] }] };
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(ctx, Opts { select: Select::First, ..Default::default() }, async move { run_wf(&s2.start(slow, vec![]).await, &text).await }, Duration::from_secs(5));
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
    sim.mon_delivered()?;
    Ok(result_text(&r))
  }));
  // Runners connected by one call, and by two at once.
  v.push(scenario("two-starts", tier.or(0, 1), move |ctx| {
    let n = 2 + ctx.pick("runners", 2);
    let first = ctx.pick("of-the-first", n - 1) + 1;
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops: vec![Op::Log("a"), Op::Sleep(4), Op::Log("b"), Op::End(RunResult::Succeeded)], coe: false }] }] };
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = s2.start_some(false, 0..first, vec![]).await;
        let client = s2.client.lock().unwrap().clone().unwrap();
        let urls = s2.serve_some(false, first..n);
        net::start(&client, urls).await;
        run_wf(&astro, &text).await
      },
      Duration::from_secs(5),
    );
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
    sim.mon_delivered()?;
    Ok(result_text(&r))
  }));
  // A run that starts while the client is still connecting to another address.
  v.push(scenario("while-connecting", tier.or(0, 1), move |ctx| {
    let n = 1 + ctx.pick("runners", 2);
    let mute = ctx.flag("connected-but-mute");
    let later = ctx.flag("one-more-after");
    let at = *ctx.of("starts-at", &[0u64, 5000, 9_998, 10_000, 10_003]);
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops: vec![Op::Log("a"), Op::Sleep(4), Op::Log("b"), Op::End(RunResult::Succeeded)], coe: false }] }] };
    let sim = Sim::new(&spec, n);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let mut more = vec!["http://slow".to_string()];
        if mute {
          let mut s = Scripted::new(&s2.net, "http://slow", "slow");
          s.mute = true;
          s2.net.serve("http://slow", s);
        } else {
          s2.net.hang("http://slow");
        }
        if later {
          let mut s = Scripted::new(&s2.net, "http://later", "later");
          s.meta = Ok(RunnerMetadata { support_docker: false, ..net::metadata("later") });
          s2.net.serve("http://later", s);
          more.push("http://later".to_string());
        }
        // The good ones are connected within the first millisecond.
        let astro = s2.start(false, more).await;
        tokio::time::sleep(Duration::from_millis(at)).await;
        run_wf(&astro, &text).await
      },
      Duration::from_secs(15),
    );
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
    sim.mon_delivered()?;
    Ok(result_text(&r))
  }));
  // One that does not take its events does not matter to the others, nor to its later ones.
  v.push(scenario("bad-neighbours", tier.or(0, 1), move |ctx| {
    rt::pick_seed(ctx, 4);
    let n = 1 + ctx.pick("good-runners", 2);
    let bad = 1 + ctx.pick("bad-runners", 2);
    let how: Vec<usize> = (0..bad).map(|_| ctx.pick("failure", 7)).collect();
    let spec = Spec {
      jobs: vec![J { deps: vec![], steps: vec![S { ops: vec![Op::Log("a"), Op::Sleep(4), Op::Log("b"), Op::Sleep(4), Op::Log("c"), Op::End(RunResult::Succeeded)], coe: false }] }],
    };
    let sim = Sim::new(&spec, n);
    let bads: Vec<Scripted> = (0..bad)
      .map(|i| {
        let mut s = Scripted::new(&sim.net, &format!("http://bad{i}"), &format!("bad{i}"));
        // Given no steps.
        s.meta = Ok(RunnerMetadata { support_docker: false, ..net::metadata(&format!("bad{i}")) });
        s.events_fail = match how[i] {
          0 => vec![true],
          1 => vec![false, true, false],
          2 => vec![true, false, true, true, false],
          _ => vec![false],
        };
        s.events_hang = how[i] == 6;
        s
      })
      .collect();
    let seen: Vec<_> = bads.iter().map(|b| b.seen.clone()).collect();
    let (s2, text, h2) = (sim.clone(), spec.yaml(), how.clone());
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        for b in bads {
          s2.net.serve(&b.url.clone(), b);
        }
        let more = (0..h2.len()).map(|i| format!("http://bad{i}")).collect();
        let astro = s2.start(false, more).await;
        let net = s2.net.clone();
        tokio::spawn(async move {
          for (i, h) in h2.iter().enumerate() {
            let u = format!("http://bad{i}");
            match h {
              // Gone before, or in the midst of the run, for good or for a moment.
              3 => net.cut(&u, false),
              4 | 5 => {
                tokio::time::sleep(Duration::from_millis(2)).await;
                net.cut(&u, *h == 5);
              }
              _ => {}
            }
          }
        });
        run_wf(&astro, &text).await
      },
      Duration::from_secs(5),
    );
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end ({how:?}): {}", sim.text())) };
    sim.mon_delivered()?;
    let want = as_events(&sim.tape);
    for (h, s) in how.iter().zip(&seen) {
      let got: Vec<String> = s.lock().unwrap().iter().filter(|s| s.starts_with("event ")).cloned().collect();
      if *h < 3 {
        ensure!(got == want, "events-differ", "a runner that refuses events ({h}) was sent {} of {} events, or other ones", got.len(), want.len());
      }
    }
    Ok(result_text(&r))
  }));
  for (name, depth) in [("anything", 1), ("any-two", 2)] {
    v.push(scenario(name, 0, move |ctx| {
      let (sim, text) = anything(ctx, 1 + ctx.pick("runners", 2), depth)?;
      sim.mon_delivered()?;
      Ok(text)
    }));
  }
  v
}

// ---------------------------------------------------------------- C20

/// What each step was told on its remote side: (remote, step, signal, ms).
fn told(sim: &Sim) -> Vec<(usize, String, Signal, u64)> {
  let mut v = vec![];
  for (i, r) in sim.remotes.iter().enumerate() {
    for e in r.w.take() {
      if let What::Sig(s) = e.what {
        v.push((i, e.id, s, e.t));
      }
    }
  }
  v
}

fn c20(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Cancels and timeouts of several jobs on several runners.
  for (name, bound, small) in [("signals", 0, false), ("schedules", 1, true), ("deep-schedules", 2, true)] {
    if tier == Tier::Quick && bound == 2 {
      continue;
    }
    v.push(scenario(name, bound, move |ctx| {
      rt::pick_seed(ctx, 2);
      let n = 1 + ctx.pick("runners", if small { 1 } else { 3 });
      let jobs = if !small { 3 } else if bound == 1 { 1 + ctx.pick("jobs", 2) } else { 1 };
      let few = small && tier == Tier::Quick;
      // What happens to each job: nothing, cancelled at 5 ms, timed out at 1 s, both, cancelled when over.
      let fate: Vec<usize> = (0..jobs).map(|_| if few { 1 + ctx.pick("fate", 3) } else { ctx.pick("fate", 5) }).collect();
      let obey = few || ctx.flag("obeys");
      let slow = !few && ctx.flag("slow-hooks");
      // One more job, with steps that end at once, are refused, end a moment later.
      let busy = !small && obey && !slow && ctx.flag("busy-neighbour");
      let w = |total| vec![Op::Log("go"), Op::Work { every: 500, total, obey }, Op::End(RunResult::Succeeded)];
      let mut spec = Spec {
        jobs: fate.iter().map(|f| J { deps: vec![], steps: vec![S { ops: if *f == 4 { w(3) } else { w(3000) }, coe: false }] }).collect(),
      };
      if busy {
        let s = |ops| S { ops, coe: true };
        let steps = vec![s(vec![Op::End(RunResult::Succeeded)]), s(vec![Op::Refuse]), s(vec![Op::Log("x"), Op::End(RunResult::Cancelled)])];
        spec.jobs.push(J { deps: vec![], steps });
      }
      let sim = Sim::new(&spec, n);
      let mut text = spec.yaml();
      for (j, f) in fate.iter().enumerate() {
        if matches!(f, 2 | 3) {
          text = text.replace(&format!("      - run: \"j{j}s0\""), &format!("      - run: \"j{j}s0\"\n        timeout: 1s"));
        }
      }
      let (s2, f2) = (sim.clone(), fate.clone());
      let r = rt::run(
        ctx,
        Opts { select: if few { Select::First } else { Select::PickOne }, ..Default::default() },
        async move {
          let astro = s2.start(slow, vec![]).await;
          for (j, f) in f2.into_iter().enumerate() {
            let a2 = astro.clone();
            rt::spawn_prio(1, async move {
              tokio::time::sleep(Duration::from_millis(5)).await;
              if matches!(f, 1 | 3 | 4) {
                a2.cancel_job(&JobId::new(WF, format!("j{j}"))).ok();
              }
            });
          }
          run_wf(&astro, &text).await
        },
        Duration::from_secs(5),
      );
      sim.forget();
      let Ok(r) = r else { return viol("hang", format!("the run did not end ({fate:?}): {}", sim.text())) };
      let ids: Vec<String> = (0..jobs).map(|i| format!("{WF}/j{i}/0")).collect();
      sim.mon_once(&ids)?;
      let ran = sim.ran();
      let told = told(&sim);
      for (j, f) in fate.iter().enumerate() {
        let mine: Vec<_> = told.iter().filter(|t| t.1 == ids[j]).collect();
        let want = match f {
          1 | 3 => Some(Signal::Cancel),
          2 => Some(Signal::Timeout),
          _ => None,
        };
        ensure!(mine.len() == want.is_some() as usize, "signal-lost-or-unasked", "step {} (fate {f}) was told {mine:?}: {}", ids[j], sim.text());
        if let Some(s) = want {
          ensure!(mine[0].2 == s && ran[mine[0].0].contains(&ids[j]), "wrong-signal", "step {} (fate {f}) was told {mine:?}: {}", ids[j], sim.text());
          // The step's clock on its remote side starts with its first event, a moment into the run.
          let at = if s == Signal::Cancel { 5 } else { 1000 };
          ensure!(mine[0].3 <= at + 2, "told-late", "step {} (fate {f}) was told at {} ms: {}", ids[j], mine[0].3, sim.text());
        }
        let state = match (want, obey) {
          (Some(Signal::Cancel), true) => WorkflowState::Cancelled,
          (Some(Signal::Timeout), true) => WorkflowState::Failed,
          _ => WorkflowState::Succeeded,
        };
        ensure!(r.jobs[&format!("j{j}")].state == state, "result-differs", "job j{j} (fate {f}) ended as {:?}: {}", r.jobs[&format!("j{j}")].state, sim.text());
      }
      Ok(result_text(&r))
    }));
  }
  // The same workflow run again and again, with lots of events still under way when the next run starts.
  v.push(scenario("again", tier.or(0, 1), move |ctx| {
    let n = 1 + ctx.pick("runners", 2);
    let lines = *ctx.of("lines", &[0, 5, 40, 200]);
    let slow = ctx.flag("slow-hooks");
    let bad = ctx.flag("slow-neighbour");
    let timeout = ctx.flag("timeout");
    let first_too = ctx.flag("first-cancelled");
    let at = *ctx.of("cancel-at", &[0u64, 1, 5]);
    let spec = one(vec![]);
    let sim = Sim::new(&spec, n);
    for r in &sim.remotes {
      // The first run: many lines; later ones: wait for a signal.
      let mut ops = vec![Op::Log("x"); lines];
      ops.push(if first_too { Op::Obey } else { Op::End(RunResult::Succeeded) });
      r.w.behave("first", ops);
      r.w.behave("second", vec![Op::Obey]);
    }
    let s2 = sim.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let mut more = vec![];
        if bad {
          let mut s = Scripted::new(&s2.net, "http://bad", "bad");
          s.meta = Ok(RunnerMetadata { support_docker: false, ..net::metadata("bad") });
          s2.net.serve("http://bad", s);
          more.push("http://bad".to_string());
        }
        let astro = s2.start(slow, more).await;
        let y = |run: &str| {
          let mut s = step(run);
          if run == "second" && timeout {
            s.extra = vec![format!("timeout: {}s", at.max(1))];
          }
          yaml(&[job("j0", &[], vec![s])])
        };
        let canceller = |first: u64| {
          let a2 = astro.clone();
          rt::spawn_prio(1, async move {
            loop {
              tokio::time::sleep(Duration::from_millis(first)).await;
              if a2.cancel_job(&JobId::new(WF, "j0")).is_ok() {
                break;
              }
            }
          });
        };
        if first_too {
          canceller(1);
        }
        run_wf(&astro, &y("first")).await;
        if !timeout {
          canceller(at);
        }
        run_wf(&astro, &y("second")).await
      },
      Duration::from_secs(5),
    );
    sim.forget();
    let Ok(r) = r else { return viol("signal-lost-or-unasked", format!("a step that waits for a signal never ended (timeout {timeout}): {}", sim.text())) };
    let t = told(&sim);
    let mut want = vec![if timeout { Signal::Timeout } else { Signal::Cancel }];
    if first_too {
      want.insert(0, Signal::Cancel);
    }
    let got: Vec<Signal> = t.iter().map(|t| t.2).collect();
    ensure!(got == want, "wrong-signal", "the steps were told {t:?} instead of {want:?}: {}", sim.text());
    Ok(result_text(&r))
  }));
  // A step that goes on at its runner after the connection broke, and the same step run again there.
  v.push(scenario("outlived", tier.or(0, 1), move |ctx| {
    let first = *ctx.of("first-lasts", &[3u64, 10, 20, 60]);
    let refuses = ctx.flag("first-refuses-late");
    let at = *ctx.of("cancel-at", &[15u64, 30, 80]);
    let timeout = ctx.flag("timeout");
    let spec = one(vec![]);
    let sim = Sim::new(&spec, 1);
    let last = if refuses { Op::Refuse } else { Op::End(RunResult::Succeeded) };
    sim.remotes[0].w.behave("first", vec![Op::Sleep(first), last]);
    sim.remotes[0].w.behave("second", vec![Op::Obey]);
    let s2 = sim.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = s2.start(false, vec![]).await;
        let y = |run: &str| {
          let mut s = step(run);
          if run == "second" && timeout {
            s.extra = vec![format!("timeout: {at}ms")];
          }
          yaml(&[job("j0", &[], vec![s])])
        };
        let net = s2.net.clone();
        rt::spawn_prio(1, async move {
          tokio::time::sleep(Duration::from_millis(5)).await;
          net.cut(&url(0), true);
        });
        run_wf(&astro, &y("first")).await;
        // Let the connection be made again.
        tokio::time::sleep(Duration::from_millis(6)).await;
        if !timeout {
          let a2 = astro.clone();
          rt::spawn_prio(1, async move {
            tokio::time::sleep(Duration::from_millis(at)).await;
            a2.cancel_job(&JobId::new(WF, "j0")).ok();
          });
        }
        run_wf(&astro, &y("second")).await
      },
      Duration::from_secs(5),
    );
    sim.forget();
    let Ok(r) = r else { return viol("signal-lost-or-unasked", format!("a step that waits for a signal never ended (timeout {timeout}): {}", sim.text())) };
    let got: Vec<Signal> = told(&sim).iter().map(|t| t.2).collect();
    let want = if timeout { Signal::Timeout } else { Signal::Cancel };
    ensure!(got == [want], "wrong-signal", "the steps were told {got:?} instead of {want:?}: {}", sim.text());
    Ok(result_text(&r))
  }));
  // Signals for steps that are unknown or over, sent by a client directly.
  v.push(scenario("strays", tier.or(0, 1), move |ctx| {
    let target = ctx.pick("target", 4);
    let signal = *ctx.of("signal", &[Signal::Cancel, Signal::Timeout]);
    let at = *ctx.of("at", &[0u64, 5, 15, 25]);
    let work = |t| vec![Op::Work { every: 100, total: t, obey: true }, Op::End(RunResult::Succeeded)];
    let s = |ops| S { ops, coe: false };
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![s(work(10)), s(work(10))] }, J { deps: vec![], steps: vec![s(work(40))] }] };
    let sim = Sim::new(&spec, 2);
    let (s2, text) = (sim.clone(), spec.yaml());
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = s2.start(false, vec![]).await;
        let net = s2.net.clone();
        rt::spawn_prio(1, async move {
          tokio::time::sleep(Duration::from_millis(at)).await;
          let step_id = match target {
            0 => StepId::new("other", "j0", 0),
            1 => StepId::new(WF, "j0", 2),
            2 => StepId::new(WF, "j2", 0),
            _ => StepId::new(WF, "j0", 0),
          };
          for i in 0..2 {
            let mut c = net.connect(url(i)).await.unwrap();
            let e = astro_run_protocol::ProtocolEvent::Signal(astro_run_protocol::SignalEvent { step_id: step_id.clone(), signal });
            c.send_event(e).await.ok();
          }
        });
        run_wf(&astro, &text).await
      },
      Duration::from_secs(5),
    );
    sim.forget();
    let Ok(r) = r else { return viol("hang", format!("the run did not end: {}", sim.text())) };
    // The first step of j0 runs from 0 to 10 ms.
    let hit = target == 3 && at < 10;
    let t = told(&sim);
    ensure!(t.len() == hit as usize && (!hit || (t[0].1 == format!("{WF}/j0/0") && t[0].2 == signal)), "stray-signal", "a {signal:?} at {at} ms for target {target} told {t:?}: {}", sim.text());
    let want = match (hit, signal) {
      (false, _) => WorkflowState::Succeeded,
      (_, Signal::Cancel) => WorkflowState::Cancelled,
      (_, Signal::Timeout) => WorkflowState::Failed,
    };
    ensure!(r.jobs["j0"].state == want && r.jobs["j1"].state == WorkflowState::Succeeded, "result-differs", "a {signal:?} at {at} ms for target {target} gave {}: {}", result_text(&r), sim.text());
    Ok(result_text(&r))
  }));
  v
}

// ---------------------------------------------------------------- C32

fn c32(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  for (name, max, bound, kinds) in [("addresses", tier.or(3, 4), 0, 10), ("schedules", 2, tier.or(1, 1), 10), ("many", tier.or(5, 6), 0, 4)] {
    v.push(scenario(name, bound, move |ctx| {
      let n = 1 + ctx.pick("addresses", max);
      let kinds: Vec<usize> = (0..n).map(|_| ctx.pick("kind", kinds)).collect();
      let calls = if bound == 0 && n > 1 { 1 + ctx.pick("calls", 2) } else { 1 };
      let s = || S { ops: vec![], coe: false };
      let mut spec = Spec { jobs: vec![J { deps: vec![], steps: vec![s(), s()] }, J { deps: vec![], steps: vec![s()] }, J { deps: vec![], steps: vec![s()] }] };
      if bound > 0 {
        spec.jobs.truncate(1);
      }
      let (jobs, steps) = if bound > 0 { (1, 2) } else { (3, 4) };
      let sim = Sim::new(&spec, 0);
      let mut urls = vec![];
      let mut svcs = vec![];
      for (i, k) in kinds.iter().enumerate() {
        let u = format!("http://h{i}");
        let mut svc = Scripted::new(&sim.net, &u, ["a", "b", "a", "c", "d", "e", "f", "g", "h", "i"][*k]);
        match k {
          3 => svc.meta = Ok(RunnerMetadata { version: ["0.1.9", "", "0.2.0 ", "1.0.0", "0.2", "v0.2.0"][i % 6].into(), ..net::metadata("c") }),
          4 => svc.meta = Err(()),
          7 => svc.mute = true,
          _ => {}
        }
        urls.push(match k {
          8 => "not a url".to_string(),
          9 => String::new(),
          _ => u.clone(),
        });
        if *k == 6 {
          sim.net.hang(&u);
        }
        svcs.push(svc);
      }
      let seen: Vec<_> = svcs.iter().map(|s| s.seen.clone()).collect();
      let (s2, text, k2) = (sim.clone(), spec.yaml(), kinds.clone());
      let r = rt::run(
        ctx,
        Opts { select: Select::First, tasks: bound > 0, free: false, os: false, slow: 0 },
        async move {
          for (svc, k) in svcs.into_iter().zip(&k2) {
            if !matches!(k, 5 | 6) {
              s2.net.serve(&svc.url.clone(), svc);
            }
          }
          let (a, b) = urls.split_at(if calls == 2 { 1 } else { urls.len() });
          let astro = s2.start(false, a.to_vec()).await;
          // However long giving up on one takes.
          tokio::time::sleep(Duration::from_secs(900)).await;
          if calls == 2 {
            let client = s2.client.lock().unwrap().clone().unwrap();
            net::start(&client, b.to_vec()).await;
            tokio::time::sleep(Duration::from_secs(900)).await;
          }
          run_wf(&astro, &text).await
        },
        Duration::from_secs(5),
      );
      sim.forget();
      let Ok(r) = r else { return viol("hang", format!("with {kinds:?} the run did not end: {}", sim.text())) };
      let mut want: Vec<(&str, usize)> = vec![];
      for (i, k) in kinds.iter().enumerate() {
        if let Some(id) = ["a", "b", "a"].get(*k) {
          if !want.iter().any(|w| w.0 == *id) {
            want.push((id, i));
          }
        }
      }
      want.sort();
      let ids: Vec<&str> = want.iter().map(|w| w.0).collect();
      let offered: Vec<String> = sim.sched.lock().unwrap().iter().filter(|x| x.0 == "schedule").map(|x| x.1.clone()).collect();
      ensure!(offered.len() == steps || (want.is_empty() && offered.len() == jobs), "placements", "with {kinds:?} steps were placed {} times", offered.len());
      for o in &offered {
        ensure!(o.contains(&format!("of {ids:?}")), "wrong-runners", "with {kinds:?} the runners available were: {o}, those to be used are {ids:?}");
      }
      let mut runs = 0;
      for (i, s) in seen.iter().enumerate() {
        let n = s.lock().unwrap().iter().filter(|x| x.starts_with("run ")).count();
        ensure!(n == 0 || want.iter().any(|w| w.1 == i), "step-to-bad-runner", "with {kinds:?} address {i} was given {n} steps");
        runs += n;
      }
      ensure!(runs == if want.is_empty() { 0 } else { steps }, "steps-lost", "with {kinds:?} {runs} steps were run");
      let state = if want.is_empty() { WorkflowState::Failed } else { WorkflowState::Succeeded };
      ensure!(r.state == state, "result-differs", "with {kinds:?} the run ended as {}", result_text(&r));
      Ok(format!("{want:?}"))
    }));
  }
  v
}

// ---------------------------------------------------------------- C23

/// What a hook behind a remote runner does to the step.
#[derive(Clone, Debug, Copy, PartialEq)]
enum Edit {
  Nothing,
  Run,
  Env,
  Name,
  Timeout,
  Container,
  Secrets,
  Drop,
  Fails,
}

const EDITS: [Edit; 9] = [Edit::Run, Edit::Nothing, Edit::Env, Edit::Name, Edit::Timeout, Edit::Container, Edit::Secrets, Edit::Drop, Edit::Fails];

fn edit(mut s: Step, e: Edit, tag: &str) -> Option<Step> {
  match e {
    Edit::Nothing => {}
    Edit::Run => s.run += &format!("|{tag}"),
    // Reads what hooks before have written.
    Edit::Env => {
      let n = s.environments.len();
      s.environments.insert(tag.to_string(), EnvironmentVariable::Number(n as f64));
    }
    Edit::Name => s.name = Some(format!("{}|{tag}", s.name.unwrap_or_default())),
    Edit::Timeout => s.timeout += Duration::from_millis(1500),
    Edit::Container => {
      let c = s.container.take();
      s.container = Some(ContainerOptions {
        name: format!("{}|{tag}", c.as_ref().map(|c| c.name.as_str()).unwrap_or("")),
        volumes: c.and_then(|c| c.volumes),
        security_opts: None,
      });
    }
    Edit::Secrets => s.secrets.push(tag.to_string()),
    // Takes away what was there.
    Edit::Drop => {
      s.environments.clear();
      s.secrets.clear();
      s.name = None;
      s.container = None;
    }
    Edit::Fails => return None,
  }
  Some(s)
}

struct Editor {
  edit: Edit,
  tag: String,
  mock: MockRunner,
}

#[async_trait]
impl Plugin for Editor {
  fn name(&self) -> &'static str {
    "editor"
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    edit(step, self.edit, &self.tag).ok_or(Error::error("editor"))
  }
}

#[async_trait]
impl Runner for Editor {
  async fn run(&self, ctx: astro_run::Context) -> RunResponse {
    self.mock.run(ctx).await
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    edit(step, self.edit, &self.tag).ok_or(Error::error("editor"))
  }
}

/// A step all of whose fields are set, or none that need not be.
fn a_step(full: bool) -> StepSpec {
  let mut s = step("x");
  if full {
    s.extra = [
      "name: \"\u{e9} \\\"n\\\"\"",
      "timeout: 90s",
      "continue-on-error: true",
      "secrets: [s1, \"s 2\"]",
      "on: [push, pull_request]",
      "environments:",
      "  A: \"1\"",
      "  B: 2.5",
      "  C: true",
      "container:",
      "  name: img",
      "  volumes: [\"a:b\"]",
      "  security-opts: [\"o=1\"]",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
  }
  s
}

/// As JSON, keys sorted.
fn json(x: &impl serde::Serialize) -> String {
  serde_json::to_value(x).unwrap().to_string()
}

fn c23(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  for (name, bound) in [("chains", 0), ("schedules", tier.or(1, 2))] {
    v.push(scenario(name, bound, move |ctx| {
      rt::pick_seed(ctx, if bound == 0 { 3 } else { 1 });
      let max = if bound == 0 { 3 } else { 2 };
      let n = ctx.pick("runners", max + 1);
      let few = bound > 0 && tier == Tier::Quick;
      let full = few || ctx.flag("all-fields");
      let local = !few && ctx.flag("local-hook");
      // For every runner: two plugins and the runner itself; all edits with one runner, fewer with more.
      let edits: Vec<[Edit; 3]> = (0..n)
        .map(|_| {
          if few {
            [Edit::Run, Edit::Run, *ctx.of("edit", &[Edit::Run, Edit::Fails])]
          } else if n == 1 && bound == 0 {
            [*ctx.of("edit", &EDITS), *ctx.of("edit", &EDITS), *ctx.of("edit", &EDITS)]
          } else {
            *ctx.of(
              "edits",
              &[
                [Edit::Run, Edit::Run, Edit::Run],
                [Edit::Env, Edit::Nothing, Edit::Name],
                [Edit::Drop, Edit::Nothing, Edit::Secrets],
                [Edit::Timeout, Edit::Container, Edit::Secrets],
                [Edit::Fails, Edit::Run, Edit::Run],
                [Edit::Run, Edit::Run, Edit::Fails],
              ],
            )
          }
        })
        .collect();
      // Something that goes wrong with one more remote side: its answer, its connection.
      let wrong = ctx.pick("one-more", if few { 3 } else { 4 });
      let sim = Sim::new(&one(vec![]), 0);
      let worlds: Vec<_> = (0..n).map(|_| World::new()).collect();
      for w in &worlds {
        w.behave("x", vec![Op::End(RunResult::Succeeded)]);
      }
      let spec_step = a_step(full);
      let text = yaml(&[job("j0", &[], vec![spec_step])]);
      let (s2, e2, w2) = (sim.clone(), edits.clone(), worlds.clone());
      let r = rt::run(
        ctx,
        Opts { select: Select::First, ..Default::default() },
        async move {
          let mut urls = vec![];
          for (i, e) in e2.iter().enumerate() {
            let ed = |k: usize| Editor { edit: e[k], tag: format!("r{i}p{k}"), mock: MockRunner { w: w2[i].clone(), fail_hooks: false, append: None } };
            let server = AstroRunRemoteRunnerServer::builder().id(format!("r{i}")).support_docker(true).plugin(ed(0)).plugin(ed(1)).runner(ed(2)).build().unwrap();
            s2.net.serve(&url(i), server);
            urls.push(url(i));
          }
          if wrong > 0 {
            let mut svc = Scripted::new(&s2.net, "http://bad", "bad");
            svc.meta = Ok(RunnerMetadata { support_docker: false, ..net::metadata("bad") });
            svc.hook_fails = wrong == 1;
            s2.net.serve("http://bad", svc);
            urls.push("http://bad".into());
          }
          let client = AstroRunRemoteRunnerClient::builder().build().unwrap();
          net::start(&client, urls).await;
          if wrong == 2 {
            s2.net.cut("http://bad", false);
          }
          let mut b = AstroRun::builder().runner(client);
          if local {
            b = b.plugin(Editor { edit: Edit::Run, tag: "local".into(), mock: MockRunner { w: World::new(), fail_hooks: false, append: None } });
          }
          let astro = b.plugin(TapePlugin { told: Default::default(), tape: s2.tape.clone(), fail: false, slow: false }).build();
          let wf = Workflow::builder().id(WF).config(text.as_str()).build(&astro).await.unwrap_or_else(|e| panic!("not accepted: {e}\n{text}"));
          let step = wf.jobs["j0"].steps[0].clone();
          let r = wf.run(astro.execution_context().build()).await;
          (r, step)
        },
        Duration::from_secs(5),
      );
      sim.forget();
      let Ok((r, mut base)) = r else { return viol("hang", format!("the run did not end ({edits:?})")) };
      if local {
        base = edit(base, Edit::Run, "local").unwrap();
      }
      let failed = matches!(wrong, 1 | 2) || edits.iter().any(|e| e[2] == Edit::Fails);
      // All orders of the runners.
      let mut wants = vec![];
      let mut orders = vec![vec![]];
      for i in 0..n {
        orders = orders.iter().flat_map(|o: &Vec<usize>| (0..=o.len()).map(|k| { let mut o = o.clone(); o.insert(k, i); o }).collect::<Vec<_>>()).collect();
      }
      for o in orders {
        let mut s = base.clone();
        if !failed {
          for i in o {
            for k in 0..3 {
              s = edit(s.clone(), edits[i][k], &format!("r{i}p{k}")).unwrap_or(s);
            }
          }
        }
        wants.push(s);
      }
      let started: Vec<String> =
        sim.tape.lock().unwrap().iter().filter(|x| x.0 == "run_step").map(|x| serde_json::from_str::<serde_json::Value>(&x.1).unwrap()["source"].to_string()).collect();
      ensure!(started.len() == 1, "steps", "{} steps were started", started.len());
      ensure!(
        wants.iter().any(|w| json(w) == started[0]),
        if failed { "changed-though-failed" } else { "hooks-not-applied" },
        "hooks {edits:?} (one more: {wrong}) made the step {} instead of {}",
        started[0],
        wants.iter().map(json).collect::<Vec<_>>().join(" or ")
      );
      // That is what ran.
      let ran: Vec<_> = worlds.iter().flat_map(|w| w.contexts.lock().unwrap().clone()).collect();
      ensure!(ran.len() == (n > 0) as usize, "steps", "{} steps ran", ran.len());
      for c in ran {
        ensure!(wants.iter().any(|w| json(&Command::from(w.clone())) == json(&c.command)), "ran-differs", "the step that ran is {}, that was started {}", json(&c.command), started[0]);
      }
      Ok(format!("{} {failed}", result_text(&r)))
    }));
  }
  v
}

// ---------------------------------------------------------------- C22

/// Remembers what arrives, answers with what it is given.
#[derive(Clone, Default)]
struct Echo {
  got: Arc<Mutex<Vec<String>>>,
  give: Arc<Mutex<Vec<astro_run_protocol::RunResponse>>>,
  meta: Arc<Mutex<RunnerMetadata>>,
}

#[async_trait]
impl astro_run_protocol::remote_runner::RemoteRunnerExt for Echo {
  type RunStream = tokio_stream::Iter<std::vec::IntoIter<Result<astro_run_protocol::RunResponse, astro_run_protocol::tonic::Status>>>;
  async fn run(
    &self,
    req: astro_run_protocol::tonic::Request<astro_run::Context>,
  ) -> Result<astro_run_protocol::tonic::Response<Self::RunStream>, astro_run_protocol::tonic::Status> {
    let c = req.into_inner();
    self.got.lock().unwrap().push(n_context(&c));
    let give = std::mem::take(&mut *self.give.lock().unwrap());
    Ok(astro_run_protocol::tonic::Response::new(tokio_stream::iter(give.into_iter().map(Ok).collect::<Vec<_>>())))
  }
  async fn send_event(
    &self,
    req: astro_run_protocol::tonic::Request<astro_run_protocol::ProtocolEvent>,
  ) -> Result<astro_run_protocol::tonic::Response<astro_run_protocol::Empty>, astro_run_protocol::tonic::Status> {
    self.got.lock().unwrap().push(n_event(&req.into_inner()));
    Ok(astro_run_protocol::tonic::Response::new(astro_run_protocol::Empty {}))
  }
  async fn get_runner_metadata(
    &self,
    _: astro_run_protocol::tonic::Request<astro_run_protocol::Empty>,
  ) -> Result<astro_run_protocol::tonic::Response<RunnerMetadata>, astro_run_protocol::tonic::Status> {
    Ok(astro_run_protocol::tonic::Response::new(self.meta.lock().unwrap().clone()))
  }
  async fn call_before_run_step_hook(
    &self,
    req: astro_run_protocol::tonic::Request<Command>,
  ) -> Result<astro_run_protocol::tonic::Response<Command>, astro_run_protocol::tonic::Status> {
    let c = req.into_inner();
    self.got.lock().unwrap().push(n_command(&c));
    Ok(astro_run_protocol::tonic::Response::new(c))
  }
}

// Every value in full, maps sorted. Independent of serde, which is what is being checked.

fn n_env(e: &EnvironmentVariables) -> String {
  let m: std::collections::BTreeMap<_, _> = e.iter().collect();
  format!("{m:?}")
}

fn n_container(c: &Option<ContainerOptions>) -> String {
  match c {
    None => "None".into(),
    Some(c) => format!("{:?} {:?} {:?}", c.name, c.volumes, c.security_opts),
  }
}

fn n_command(c: &Command) -> String {
  let Command { id, name, container, run, continue_on_error, environments, secrets, timeout } = c;
  format!("{id:?} {name:?} {} {run:?} {continue_on_error} {} {secrets:?} {timeout:?}", n_container(container), n_env(environments))
}

fn n_step(s: &Step) -> String {
  format!("{} {:?}", n_command(&s.clone().into()), s.on)
}

fn n_job(j: &Job) -> String {
  let Job { id, name, on, steps, depends_on, working_directories } = j;
  format!("{id:?} {name:?} {on:?} {:?} {depends_on:?} {working_directories:?}", steps.iter().map(n_step).collect::<Vec<_>>())
}

fn n_workflow(w: &Workflow) -> String {
  let Workflow { id, name, on, jobs } = w;
  let jobs: std::collections::BTreeMap<_, _> = jobs.iter().map(|(k, j)| (k, n_job(j))).collect();
  format!("{id:?} {name:?} {on:?} {jobs:?}")
}

fn n_run<T: Clone>(e: &astro_run::RunEvent<T>, f: fn(&T) -> String) -> String {
  let cargo = e.payload.as_ref().map(|p| p.payload::<super::exec::Cargo>().cloned());
  format!("{} {:?} {cargo:?}", f(&e.source), e.trigger_event)
}

fn n_workflow_result(r: &WorkflowRunResult) -> String {
  let WorkflowRunResult { id, state, started_at, completed_at, jobs } = r;
  let jobs: std::collections::BTreeMap<_, _> = jobs.iter().collect();
  format!("{id:?} {state:?} {started_at:?} {completed_at:?} {jobs:?}")
}

fn n_event(e: &astro_run_protocol::ProtocolEvent) -> String {
  use astro_run_protocol::ProtocolEvent as P;
  match e {
    P::RunStep(e) => format!("step {}", n_run(e, n_step)),
    P::RunJob(e) => format!("job {}", n_run(e, n_job)),
    P::RunWorkflow(e) => format!("workflow {}", n_run(e, n_workflow)),
    P::WorkflowCompleted(r) => format!("done {}", n_workflow_result(r)),
    P::StepCompleted(x) => format!("{x:?}"),
    P::JobCompleted(x) => format!("{x:?}"),
    P::StepLog(x) => format!("{x:?}"),
    P::StateChange(x) => format!("{x:?}"),
    P::Signal(x) => format!("{x:?}"),
  }
}

fn n_context(c: &astro_run::Context) -> String {
  format!("{:?} {} {:?} {:?}", c.id, n_command(&c.command), c.event, c.payload)
}

const TEXTS: [&str; 9] = ["x", "", "a\nb\r\n\tc", "\"\\\"'{}[]:,#", "\u{e9}\u{1f600}\u{202e}", "\0\u{1}\u{7f}", "null", "-1.5e3", "\u{ffff}\u{10ffff}"];

fn ids() -> Vec<StepId> {
  vec![StepId::new("wf", "job", 0), StepId::new("", "", usize::MAX), StepId::new("a/b", "c \u{e9}\"", 3)]
}

fn containers() -> Vec<Option<ContainerOptions>> {
  let c = |name: &str, volumes: Option<Vec<&str>>, security_opts: Option<Vec<&str>>| {
    let own = |v: Vec<&str>| v.into_iter().map(String::from).collect();
    Some(ContainerOptions { name: name.into(), volumes: volumes.map(own), security_opts: security_opts.map(own) })
  };
  vec![
    None,
    c("img", None, None),
    c("", Some(vec![]), None),
    c("host/linux", None, Some(vec![])),
    c("a:b@c", Some(vec!["/a:/b", "c d\"", ""]), Some(vec!["seccomp=unconfined", "x"])),
  ]
}

fn events() -> Vec<Option<TriggerEvent>> {
  let mut v = vec![None, Some(TriggerEvent::default())];
  for pr in [None, Some(0), Some(i64::MIN), Some(i64::MAX)] {
    for t in TEXTS {
      v.push(Some(TriggerEvent { event: t.into(), repo_owner: t.into(), repo_name: t.into(), pr_number: pr, sha: t.into(), branch: t.into(), ref_name: t.into() }));
    }
  }
  v
}

fn conditions() -> Vec<Option<Condition>> {
  let lists = || vec![None, Some(vec![]), Some(vec!["a*".to_string(), "".into()])];
  let mut v = vec![None];
  for l in [vec![], vec!["push".to_string()], vec!["pull_request".into(), "\u{e9}".into()]] {
    v.push(Some(Condition::Event(l)));
  }
  for b in lists() {
    for p in lists() {
      for k in 0..3 {
        let push = (k != 1).then(|| PushCondition { branches: b.clone(), paths: p.clone() });
        let pull_request = (k != 0).then(|| PullRequestCondition { branches: p.clone(), paths: b.clone() });
        v.push(Some(Condition::Config(ConditionConfig { push, pull_request })));
      }
    }
  }
  v.push(Some(Condition::Config(ConditionConfig { push: None, pull_request: None })));
  v
}

fn durations() -> [Duration; 5] {
  [Duration::from_secs(3600), Duration::ZERO, Duration::from_nanos(1), Duration::new(u64::MAX, 999_999_999), Duration::from_millis(1500)]
}

fn times() -> Vec<Option<chrono::DateTime<chrono::Utc>>> {
  let t = |s, n| chrono::DateTime::<chrono::Utc>::from_timestamp(s, n);
  vec![None, t(0, 0), t(1_700_000_000, 1), t(1_700_000_000, 999_999_999), t(-1, 500_000_000), t(253_402_300_799, 123_456_789)]
}

fn states() -> [WorkflowState; 7] {
  use WorkflowState as W;
  [W::Pending, W::Queued, W::InProgress, W::Succeeded, W::Failed, W::Cancelled, W::Skipped]
}

/// What the configuration language makes of an environment variable's value.
fn env_of(text: &str) -> Option<EnvironmentVariable> {
  let y = format!("jobs:\n  j:\n    steps:\n      - run: x\n        environments:\n          V: {text}\n");
  let c: astro_run::UserWorkflow = astro_run::UserWorkflow::try_from(y).ok()?;
  match &c.jobs["j"].steps[0] {
    astro_run::UserStep::Command(s) => s.environments.as_ref()?.get("V").cloned(),
    _ => None,
  }
}

type Exchange = std::pin::Pin<Box<dyn std::future::Future<Output = Result<String, Violation>> + Send>>;

/// Runs `f` with a client connected to an echo.
fn exchange(
  ctx: &Ctx,
  f: impl FnOnce(astro_run_protocol::remote_runner::RemoteRunnerClient<astro_run_protocol::tonic::transport::Channel>, Echo) -> Exchange + Send + 'static,
) -> Result<String, Violation> {
  let net = Net::install();
  let r = rt::run(
    ctx,
    Opts { select: Select::First, tasks: false, free: false, os: false, slow: 0 },
    async move {
      let echo = Echo::default();
      net.serve("http://e", echo.clone());
      let c = net.connect("http://e".into()).await.unwrap();
      f(c, echo).await
    },
    Duration::ZERO,
  );
  match r {
    Ok(r) => r,
    Err(_) => viol("hang", "an exchange did not end"),
  }
}

fn c22(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Commands, both ways.
  v.push(scenario("commands", 0, move |ctx| {
    let id = ctx.of("id", &ids()).clone();
    let container = ctx.of("container", &containers()).clone();
    let name = [None, Some(TEXTS[1]), Some(TEXTS[3]), Some(TEXTS[6])][ctx.pick("name", 4)].map(String::from);
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        let mut n = 0;
        let vars = [EnvironmentVariable::Boolean(true), EnvironmentVariable::Number(-0.0), EnvironmentVariable::String("1".into()), EnvironmentVariable::String("true".into()), EnvironmentVariable::String(TEXTS[5].into())];
        for run in TEXTS {
          for coe in [false, true] {
            for timeout in durations() {
              for secrets in [vec![], vec![""], vec!["a", "a", "\u{e9}"]] {
                for k in 0..=vars.len() {
                  if tier == Tier::Quick && k > 0 && (timeout != durations()[0] || coe) {
                    continue;
                  }
                  let environments = (0..k).map(|i| (TEXTS[i].to_string(), vars[(i + k) % vars.len()].clone())).collect();
                  let x = Command {
                    id: id.clone(),
                    name: name.clone(),
                    container: container.clone(),
                    run: run.into(),
                    continue_on_error: coe,
                    environments,
                    secrets: secrets.iter().map(|s| s.to_string()).collect(),
                    timeout,
                  };
                  let want = n_command(&x);
                  let r = c.call_before_run_step_hook(x).await;
                  let got = echo.got.lock().unwrap().pop();
                  match r {
                    Ok(r) => {
                      ensure!(got.as_ref() == Some(&want), "command-differs", "sent {want}, arrived {got:?}");
                      let back = n_command(&r.into_inner());
                      ensure!(back == want, "command-differs", "sent {want}, came back {back}");
                    }
                    Err(e) => return viol("not-encoded", format!("{want}: {e}")),
                  }
                  n += 1;
                }
              }
            }
          }
        }
        Ok(format!("{n} commands"))
      })
    })
  }));
  // Contexts: trigger events, payloads.
  v.push(scenario("contexts", 0, move |ctx| {
    let id = ctx.of("id", &ids()).clone();
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        let mut n = 0;
        for event in events() {
          for payload in [None].into_iter().chain(TEXTS.map(Some)) {
            for container in containers() {
              let command = Command { id: id.clone(), run: "r".into(), container, ..Default::default() };
              let x = astro_run::Context { id: id.clone(), signal: AstroRunSignal::new(), command, event: event.clone(), payload: payload.map(String::from) };
              let want = n_context(&x);
              let r = c.run(x).await;
              let got = echo.got.lock().unwrap().pop();
              ensure!(r.is_ok() && got.as_ref() == Some(&want), "context-differs", "sent {want}, arrived {got:?}: {:?}", r.err());
              n += 1;
            }
          }
        }
        Ok(format!("{n} contexts"))
      })
    })
  }));
  // Responses: whole streams of them, in order.
  v.push(scenario("responses", 0, move |ctx| {
    let id = ctx.of("id", &ids()).clone();
    let reversed = ctx.flag("reversed");
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        use astro_run_protocol::RunResponse as R;
        let make = || {
          let mut v = vec![];
          for t in TEXTS {
            v.push(R::log(id.clone(), Log::log(t)));
            v.push(R::log(id.clone(), Log::error(t)));
          }
          for r in RESULTS {
            v.push(R::result(id.clone(), r));
          }
          for x in [i32::MAX, 1, 255] {
            v.push(R::result(id.clone(), RunResult::Failed { exit_code: x }));
          }
          if reversed {
            v.reverse();
          }
          v
        };
        let want: Vec<String> = make().iter().map(|r| format!("{r:?}")).collect();
        *echo.give.lock().unwrap() = make();
        let x = astro_run::Context { id: id.clone(), signal: AstroRunSignal::new(), command: Command::default(), event: None, payload: None };
        let mut s = match c.run(x).await {
          Ok(r) => r.into_inner(),
          Err(e) => return viol("not-encoded", format!("a response stream failed: {e}")),
        };
        let mut got = vec![];
        loop {
          match s.message().await {
            Ok(Some(r)) => got.push(format!("{r:?}")),
            Ok(None) => break,
            Err(e) => return viol("not-encoded", format!("response {}: {e}", want[got.len()])),
          }
        }
        ensure!(got == want, "response-differs", "{got:?} arrived instead of {want:?}");
        Ok(format!("{}", got.len()))
      })
    })
  }));
  // Messages of all sizes that gRPC carries (4 MB), in every place where a long text can be.
  v.push(scenario("sizes", 0, move |ctx| {
    let id = ctx.of("id", &ids()).clone();
    let size = *ctx.of("size", &[0usize, 1, 100, 4_095, 4_096, 8_192, 16_384, 65_535, 65_536, 131_072, 262_144, 524_288, 1_000_000, 1_048_576, 2_097_152, 4_000_000]);
    let text: String = match ctx.pick("text", 2) {
      0 => "a".repeat(size),
      // Escaped, two bytes each; three bytes for a character.
      _ => "\n\"\\\u{20ac}".chars().cycle().take(size / 3).collect(),
    };
    let at = ctx.pick("place", 6);
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        use astro_run_protocol::{ProtocolEvent as P, RunResponse as R};
        let mut context = astro_run::Context { id: id.clone(), signal: AstroRunSignal::new(), command: Command { id: id.clone(), ..Default::default() }, event: None, payload: None };
        let mut give = vec![];
        let mut event = None;
        match at {
          0 => context.command.run = text,
          1 => context.payload = Some(text),
          2 => {
            context.command.environments.insert("V".into(), EnvironmentVariable::String(text));
          }
          3 => give.push(R::log(id.clone(), Log::error(text))),
          4 => event = Some(P::StepLog(WorkflowLog { step_id: id.clone(), log_type: WorkflowLogType::Log, message: text, time: times()[2].unwrap() })),
          _ => event = Some(P::RunStep(RunStepEvent { source: Step { id: id.clone(), run: text, ..Default::default() }, trigger_event: None, payload: None })),
        }
        let short = |s: &str| format!("{} bytes {}", s.len(), s.chars().take(60).collect::<String>());
        if let Some(e) = event {
          let want = n_event(&e);
          let r = c.send_event(e).await;
          let got = echo.got.lock().unwrap().pop().unwrap_or_default();
          ensure!(r.is_ok() && got == want, "event-differs", "sent {}, arrived {}: {:?}", short(&want), short(&got), r.err());
          return Ok("event".to_string());
        }
        let want = n_context(&context);
        let logs: Vec<String> = give.iter().map(|r| format!("{r:?}")).collect();
        *echo.give.lock().unwrap() = give;
        let r = c.run(context).await;
        let got = echo.got.lock().unwrap().pop().unwrap_or_default();
        ensure!(r.is_ok() && got == want, "context-differs", "sent {}, arrived {}: {:?}", short(&want), short(&got), r.err());
        let mut s = r.unwrap().into_inner();
        for w in logs {
          match s.message().await {
            Ok(Some(r)) => ensure!(format!("{r:?}") == w, "response-differs", "{} arrived instead of {}", short(&format!("{r:?}")), short(&w)),
            r => return viol("response-differs", format!("{:?} arrived instead of {}", r.map(|_| ()), short(&w))),
          }
        }
        Ok("context".to_string())
      })
    })
  }));
  // Runner metadata.
  v.push(scenario("metadata", 0, move |ctx| {
    let id = *ctx.of("id", &TEXTS);
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        for os in TEXTS {
          for version in TEXTS {
            for k in 0..4 {
              for max_runs in [0, 5, -1, i32::MAX, i32::MIN] {
                let m = RunnerMetadata { id: id.into(), os: os.into(), arch: version.into(), support_docker: k & 1 == 1, support_host: k & 2 == 2, version: version.into(), max_runs };
                *echo.meta.lock().unwrap() = m.clone();
                let got = match c.get_runner_metadata(astro_run_protocol::Empty {}).await {
                  Ok(r) => format!("{:?}", r.into_inner()),
                  Err(e) => return viol("not-encoded", format!("{m:?}: {e}")),
                };
                ensure!(got == format!("{m:?}"), "metadata-differs", "{got} arrived instead of {m:?}");
              }
            }
          }
        }
        Ok(String::new())
      })
    })
  }));
  // Events.
  v.push(scenario("events", 0, move |ctx| {
    let sid = ctx.of("id", &ids()).clone();
    let kind = ctx.pick("event", 9);
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        use astro_run_protocol::ProtocolEvent as P;
        let jid = sid.job_id();
        let wid = sid.workflow_id();
        let mut all: Vec<P> = vec![];
        let steps = || {
          let mut v = vec![];
          for on in conditions() {
            for container in containers() {
              for (i, t) in TEXTS.iter().enumerate() {
                v.push(Step {
                  id: sid.clone(),
                  name: [None, Some(t.to_string())][i % 2].clone(),
                  on: on.clone(),
                  container: container.clone(),
                  run: t.to_string(),
                  continue_on_error: i % 3 == 0,
                  environments: (0..i).map(|k| (TEXTS[k].to_string(), EnvironmentVariable::Number(k as f64 + 0.5))).collect(),
                  secrets: vec![t.to_string(); i % 3],
                  timeout: durations()[i % 5],
                });
              }
            }
          }
          v
        };
        let step_results = || {
          let mut v = vec![];
          for state in states() {
            for started_at in times() {
              for completed_at in times() {
                for exit_code in [None, Some(0), Some(-1), Some(i32::MAX), Some(i32::MIN)] {
                  v.push(StepRunResult { id: sid.clone(), state: state.clone(), exit_code, started_at, completed_at });
                }
              }
            }
          }
          v
        };
        let job_results = || -> Vec<JobRunResult> {
          let sr = step_results();
          let mut v = vec![];
          for state in states() {
            for started_at in times() {
              for k in 0..3 {
                v.push(JobRunResult { id: jid.clone(), state: state.clone(), started_at, completed_at: times()[(k * 2) % 6], steps: sr.iter().skip(k * 37).step_by(211).take(k * 3).cloned().collect() });
              }
            }
          }
          v
        };
        let jobs = || -> Vec<Job> {
          let st = steps();
          let mut v = vec![];
          for (i, on) in conditions().into_iter().enumerate() {
            for (k, t) in TEXTS.iter().enumerate() {
              v.push(Job {
                id: jid.clone(),
                name: [Some(t.to_string()), None][k % 2].clone(),
                on: on.clone(),
                steps: st.iter().skip(i * 9 + k).step_by(300).take(k % 4).cloned().collect(),
                depends_on: TEXTS[..k].iter().map(|s| s.to_string()).collect(),
                working_directories: TEXTS[..(k + i) % 3].iter().map(|s| s.to_string()).collect(),
              });
            }
          }
          v
        };
        let payloads = || {
          let c = |text: &str, number, list: Vec<&str>, maybe: Option<&str>| {
            Some(ContextPayload::new(super::exec::Cargo { text: text.into(), number, list: list.into_iter().map(String::from).collect(), maybe: maybe.map(String::from) }))
          };
          vec![None, c("", 0, vec![], None), c(TEXTS[3], i64::MIN, TEXTS.to_vec(), Some(TEXTS[4])), c(TEXTS[5], i64::MAX, vec![""], Some(""))]
        };
        let ev = events();
        match kind {
          0 => {
            for (i, source) in steps().into_iter().enumerate() {
              all.push(P::RunStep(RunStepEvent { source, trigger_event: ev[i % ev.len()].clone(), payload: payloads()[i % 4].clone() }));
            }
            for te in &ev {
              for p in payloads() {
                all.push(P::RunStep(RunStepEvent { source: Step { id: sid.clone(), ..Default::default() }, trigger_event: te.clone(), payload: p }));
              }
            }
          }
          1 => {
            for (i, source) in jobs().into_iter().enumerate() {
              all.push(P::RunJob(RunJobEvent { source, trigger_event: ev[i % ev.len()].clone(), payload: payloads()[i % 4].clone() }));
            }
          }
          2 => {
            let js = jobs();
            for (i, on) in conditions().into_iter().enumerate() {
              for (k, t) in TEXTS.iter().enumerate() {
                let source = Workflow {
                  id: wid.clone(),
                  name: [Some(t.to_string()), None][(i + k) % 2].clone(),
                  on: on.clone(),
                  jobs: (0..k % 4).map(|n| (TEXTS[n].to_string(), js[(i * 9 + k * 5 + n * 31) % js.len()].clone())).collect(),
                };
                all.push(P::RunWorkflow(RunWorkflowEvent { source, trigger_event: ev[(i + k) % ev.len()].clone(), payload: payloads()[(i * 3 + k) % 4].clone() }));
              }
            }
          }
          3 => all.extend(step_results().into_iter().map(P::StepCompleted)),
          4 => all.extend(job_results().into_iter().map(P::JobCompleted)),
          5 => {
            let jr = job_results();
            for state in states() {
              for started_at in times() {
                for k in 0..4 {
                  let jobs = (0..k).map(|n| (TEXTS[n].to_string(), jr[(k * 17 + n * 29) % jr.len()].clone())).collect();
                  all.push(P::WorkflowCompleted(WorkflowRunResult { id: wid.clone(), state: state.clone(), started_at, completed_at: times()[k], jobs }));
                }
              }
            }
          }
          6 => {
            for message in TEXTS {
              for time in times().into_iter().flatten() {
                for log_type in [WorkflowLogType::Error, WorkflowLogType::Log] {
                  all.push(P::StepLog(WorkflowLog { step_id: sid.clone(), log_type, message: message.into(), time }));
                }
              }
            }
          }
          7 => {
            for state in states() {
              all.push(P::StateChange(WorkflowStateEvent::WorkflowStateUpdated { id: wid.clone(), state: state.clone() }));
              all.push(P::StateChange(WorkflowStateEvent::JobStateUpdated { id: jid.clone(), state: state.clone() }));
              all.push(P::StateChange(WorkflowStateEvent::StepStateUpdated { id: sid.clone(), state }));
            }
          }
          _ => {
            for signal in [Signal::Cancel, Signal::Timeout] {
              all.push(P::Signal(astro_run_protocol::SignalEvent { step_id: sid.clone(), signal }));
            }
          }
        }
        let n = all.len();
        for x in all {
          let want = n_event(&x);
          let r = c.send_event(x).await;
          let got = echo.got.lock().unwrap().pop();
          ensure!(r.is_ok() && got.as_ref() == Some(&want), "event-differs", "sent {want}, arrived {got:?}: {:?}", r.err());
        }
        Ok(format!("{n} events"))
      })
    })
  }));
  // Environment variables: every kind of value the configuration can give them.
  v.push(scenario("variables", 0, move |ctx| {
    const VALUES: [&str; 48] = [
      "x", "\"\"", "''", "1", "0", "-1", "1.5", "-0.0", "1e3", "1E-3", "0x1F", "0o17", "0b11", "true", "false", "yes", "no", "on", "off", "\"true\"", "\"1\"", "1_000", "+1", ".5", "5.",
      "9007199254740993", "18446744073709551615", "-9223372036854775808", "18446744073709551616", "1e308", "1e400", "5e-324", "4.9e-324", "2.2250738585072011e-308", ".inf", "-.inf", ".nan", ".INF", ".NaN",
      "inf", "nan", "\"a\\nb\"", "2001-01-01", "12:30", "\"\\u00e9\"", "\"\\0\"", "|-\n            a\n            b", ">-\n            a\n            b",
    ];
    let text = *ctx.of("value", &VALUES);
    let Some(x) = env_of(text) else { return Ok(format!("{text} refused")) };
    exchange(ctx, move |mut c, echo| {
      Box::pin(async move {
        let cmd = Command { environments: [("V".to_string(), x.clone())].into(), ..Default::default() };
        let want = n_command(&cmd);
        let r = c.call_before_run_step_hook(cmd).await;
        let got = echo.got.lock().unwrap().pop();
        ensure!(r.is_ok() && got.as_ref() == Some(&want), "variable-differs", "sent {want} (from `{text}`), arrived {got:?}: {:?}", r.err());
        Ok(format!("{text}: {x:?}"))
      })
    })
  }));
  // Numbers: every exponent with many significands.
  v.push(scenario("numbers", 0, move |ctx| {
    let block = ctx.pick("exponents", 64) as u64;
    let per = tier.or(64, 1024);
    exchange(ctx, move |mut c, _| {
      Box::pin(async move {
        let mut n = 0;
        let mut off: Option<String> = None;
        for e in block * 32..block * 32 + 32 {
          if e >= 2047 {
            break;
          }
          let mut vars = EnvironmentVariables::new();
          for k in 0..per {
            // Significands: small ones, those around powers of two, and spread ones.
            let m: u64 = match k % 4 {
              0 => k / 4,
              1 => (1u64 << 52) - 1 - k / 4,
              2 => (1u64 << (k / 4 % 52)) ^ (k / 208),
              _ => (k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 12,
            } & ((1 << 52) - 1);
            for sign in [0u64, 1 << 63] {
              let x = f64::from_bits(sign | (e << 52) | m);
              vars.insert(format!("{:x}", x.to_bits()), EnvironmentVariable::Number(x));
            }
          }
          n += vars.len();
          let want = vars.clone();
          let r = c.call_before_run_step_hook(Command { environments: vars, ..Default::default() }).await;
          let got = match r {
            Ok(r) => r.into_inner().environments,
            Err(err) => return viol("not-encoded", format!("numbers of exponent {e}: {err}")),
          };
          for (k, x) in want {
            match (&x, got.get(&k)) {
              (EnvironmentVariable::Number(a), Some(EnvironmentVariable::Number(b))) => {
                let d = a.to_bits().abs_diff(b.to_bits());
                ensure!(d <= 8, "number-differs", "sent {a:?}, arrived {b:?}");
                if d >= 1 {
                  off.get_or_insert(format!("sent {a:?}, arrived {b:?}"));
                }
              }
              (_, other) => return viol("number-differs", format!("sent {x:?}, arrived {other:?}")),
            }
          }
        }
        if let Some(o) = off {
          return viol("number-last-digit-off", o);
        }
        Ok(format!("{n} numbers"))
      })
    })
  }));
  v
}

/// What a runner server is set up with, as told to the process that builds it.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct SetUp {
  id: Option<String>,
  runner: bool,
  max_runs: Option<i32>,
  docker: Option<bool>,
  host: Option<bool>,
}

/// In a process of its own: builds a server and says what it announces, twice.
pub fn announcer() -> i32 {
  let p: SetUp = serde_json::from_reader(std::io::stdin()).unwrap();
  log::set_max_level(log::LevelFilter::Off);
  let mut b = AstroRunRemoteRunnerServer::builder();
  if let Some(id) = p.id {
    b = b.id(id);
  }
  if p.runner {
    b = b.runner(MockRunner { w: World::new(), fail_hooks: false, append: None });
  }
  if let Some(n) = p.max_runs {
    b = b.max_runs(n);
  }
  if let Some(d) = p.docker {
    b = b.support_docker(d);
  }
  if let Some(h) = p.host {
    b = b.support_host(h);
  }
  use astro_run_protocol::{remote_runner::RemoteRunnerExt, tonic::Request, Empty};
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let told: Vec<Result<RunnerMetadata, String>> = match b.build() {
    Err(e) => vec![Err(e.to_string())],
    Ok(s) => (0..2).map(|_| rt.block_on(s.get_runner_metadata(Request::new(Empty {}))).map(|r| r.into_inner()).map_err(|e| e.to_string())).collect(),
  };
  println!("\nTOLD {}", serde_json::to_string(&told).unwrap());
  0
}

/// What a server set up like that announces where `path` is searched for programs.
fn announced(p: &SetUp, path: &str) -> Result<Vec<Result<RunnerMetadata, String>>, Violation> {
  use std::process::{Command, Stdio};
  let mut c = Command::new(std::env::current_exe().unwrap());
  c.arg("announcer").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env_clear().env("PATH", path);
  let mut child = c.spawn().expect("spawn");
  std::io::Write::write_all(&mut child.stdin.take().unwrap(), &serde_json::to_vec(p).unwrap()).ok();
  let out = child.wait_with_output().expect("wait");
  let text = String::from_utf8_lossy(&out.stdout).into_owned();
  let line = text.lines().find_map(|l| l.strip_prefix("TOLD "));
  match line {
    Some(l) => Ok(serde_json::from_str(l).unwrap()),
    None => viol("no-answer", format!("{p:?}: the server was not built: {} {text}", out.status)),
  }
}

/// A directory with a program that stands for docker.
struct Bin(std::path::PathBuf);

impl Drop for Bin {
  fn drop(&mut self) {
    std::fs::remove_dir_all(&self.0).ok();
  }
}

/// Ways a machine can be with regard to docker, and whether it can be used there.
const DOCKERS: [(&str, Option<&str>, u32, bool); 8] = [
  ("works", Some("#!/bin/sh\necho CONTAINER ID\nexit 0\n"), 0o755, true),
  ("not there", None, 0, false),
  ("daemon not running", Some("#!/bin/sh\necho Cannot connect to the Docker daemon >&2\nexit 1\n"), 0o755, false),
  ("fails with 125", Some("#!/bin/sh\nexit 125\n"), 0o755, false),
  ("killed", Some("#!/bin/sh\nkill -9 $$\n"), 0o755, false),
  ("not executable", Some("#!/bin/sh\nexit 0\n"), 0o644, false),
  ("no interpreter", Some("#!/nowhere/sh\nexit 0\n"), 0o755, false),
  ("works and says much", Some("#!/bin/sh\ni=0; while [ $i -lt 3000 ]; do echo CONTAINER ID of a running container $i; i=$((i+1)); done\nexit 0\n"), 0o755, true),
];

/// What a runner of a fleet can do: docker, host, and where it differs from this machine its system.
type Able = (bool, bool, Option<(&'static str, &'static str)>);

fn can_run(a: &Able, container: Option<&str>) -> bool {
  match container {
    Some(c) if c.starts_with("host/") => {
      let (os, arch) = a.2.unwrap_or((std::env::consts::OS, std::env::consts::ARCH));
      a.1 && (c == format!("host/{os}") || c == format!("host/{os}-{arch}"))
    }
    _ => a.0,
  }
}

/// Chooses among the runners offered as it was told to.
#[derive(Clone)]
struct Picky {
  /// For the steps in the order offered: the runner, or none.
  plan: Arc<Mutex<std::collections::VecDeque<Option<String>>>>,
  offered: Arc<Mutex<Vec<Vec<RunnerMetadata>>>>,
}

#[async_trait]
impl Scheduler for Picky {
  async fn schedule<'a, 'b: 'a>(&'b self, runners: &'a [RunnerMetadata], _: &astro_run::Context) -> Option<&'a RunnerMetadata> {
    self.offered.lock().unwrap().push(runners.to_vec());
    let id = self.plan.lock().unwrap().pop_front().flatten()?;
    runners.iter().find(|r| r.id == id)
  }
}

fn c38(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // What a server says of itself, however it was set up and whatever the machine offers.
  v.push(scenario("announced", 0, move |ctx| {
    let id = ctx.of("id", &[Some("r"), Some(""), Some("läufer-1 of 2"), None]).map(String::from);
    let runner = ctx.pick("runner", 4) < 3;
    let complete = id.is_some() && runner;
    let mut p = SetUp { id, runner, max_runs: None, docker: None, host: None };
    let how = if complete { ctx.of("docker", &DOCKERS) } else { &DOCKERS[0] };
    if complete {
      p.max_runs = *ctx.of("max-runs", &tier.or(vec![None, Some(0), Some(7)], vec![None, Some(0), Some(-1), Some(1), Some(7), Some(i32::MAX), Some(i32::MIN)]));
      p.docker = *ctx.of("support-docker", &[None, Some(true), Some(false)]);
      p.host = *ctx.of("support-host", &[None, Some(true), Some(false)]);
    }
    static N: AtomicUsize = AtomicUsize::new(0);
    let bin = Bin(std::env::temp_dir().join(format!("astro-mc-bin-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))));
    std::fs::create_dir(&bin.0).expect("scratch directory");
    if let Some(text) = how.1 {
      use std::os::unix::fs::PermissionsExt;
      let f = bin.0.join("docker");
      std::fs::write(&f, text).unwrap();
      std::fs::set_permissions(&f, std::fs::Permissions::from_mode(how.2)).unwrap();
    }
    let told = announced(&p, bin.0.to_str().unwrap())?;
    let what = format!("{p:?} where docker {}: announces {told:?}", how.0);
    if !complete {
      ensure!(told.len() == 1 && told[0].is_err(), "incomplete-accepted", "{what}");
      return Ok("refused".into());
    }
    ensure!(told.len() == 2 && format!("{:?}", told[0]) == format!("{:?}", told[1]), "not-the-same", "{what}");
    let Ok(m) = &told[0] else { return viol("not-announced", what) };
    ensure!(Some(&m.id) == p.id.as_ref(), "wrong-id", "{what}");
    ensure!(m.max_runs == p.max_runs.unwrap_or(m.max_runs) && (p.max_runs.is_some() || m.max_runs > 0), "wrong-max-runs", "{what}");
    ensure!(m.support_docker == p.docker.unwrap_or(how.3), "wrong-docker", "{what}");
    ensure!(m.support_host == p.host.unwrap_or(true), "wrong-host", "{what}");
    ensure!((m.os.as_str(), m.arch.as_str()) == (std::env::consts::OS, std::env::consts::ARCH), "wrong-machine", "{what}");
    ensure!(m.version == astro_run_remote_runner::VERSION, "wrong-version", "{what}");
    Ok(format!("{} {}", m.support_docker, m.support_host))
  }));
  // Every step of a run goes to one that is able to run it.
  v.push(scenario("fleets", tier.or(0, 1), move |ctx| {
    let (os, arch) = (std::env::consts::OS, std::env::consts::ARCH);
    let kinds: Vec<Able> = vec![
      (true, true, None),
      (true, false, None),
      (false, true, None),
      (false, false, None),
      (true, true, Some(("plan9", arch))),
      (false, true, Some((os, "vax"))),
    ];
    let containers: Vec<Option<String>> =
      vec![None, Some("node:18".into()), Some(format!("host/{os}")), Some(format!("host/{os}-{arch}")), Some(format!("host/{os}-vax")), Some("host/plan9".into()), Some("host/".into())];
    let n = 1 + ctx.pick("runners", tier.or(2, 3));
    let fleet: Vec<Able> = (0..n).map(|_| *ctx.of("kind", &kinds)).collect();
    let together = ctx.flag("same-job");
    let steps: Vec<Option<String>> = (0..2).map(|_| ctx.of("container", &containers).clone()).collect();
    rt::pick_seed(ctx, 2);
    let mut yaml = "jobs:\n  a:\n    steps:\n".to_string();
    let mut ids = vec![];
    for (i, c) in steps.iter().enumerate() {
      if i > 0 && !together {
        yaml += &format!("  b:\n{}    steps:\n", if ctx.flag("needs") { "    depends-on: [a]\n" } else { "" });
      }
      yaml += "      - run: x\n        continue-on-error: true\n";
      if let Some(c) = c {
        yaml += &format!("        container: {c}\n");
      }
      ids.push(if together { format!("{WF}/a/{i}") } else { format!("{WF}/{}/0", ["a", "b"][i]) });
    }
    let sim = Sim::new(&one(vec![]), 0);
    let asked: Vec<Arc<Mutex<Vec<String>>>> = (0..n).map(|_| Arc::default()).collect();
    let (s2, f2, a2) = (sim.clone(), fleet.clone(), asked.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: tier == Tier::Thorough, ..Default::default() },
      async move {
        let mut more = vec![];
        for (i, a) in f2.iter().enumerate() {
          if let Some((os, arch)) = a.2 {
            let mut s = Scripted::new(&s2.net, &url(i), &format!("r{i}"));
            s.meta = Ok(RunnerMetadata { support_docker: a.0, support_host: a.1, os: os.into(), arch: arch.into(), ..net::metadata(&format!("r{i}")) });
            s.seen = a2[i].clone();
            s2.net.serve(&url(i), s);
          } else {
            let server = AstroRunRemoteRunnerServer::builder().id(format!("r{i}")).support_docker(a.0).support_host(a.1).runner(Asked(a2[i].clone())).build().unwrap();
            s2.net.serve(&url(i), server);
          }
          more.push(url(i));
        }
        let astro = s2.start(false, more).await;
        run_wf(&astro, &yaml).await
      },
      Duration::from_secs(15),
    );
    sim.forget();
    let what = format!("runners (docker, host, system) {fleet:?}, containers {steps:?}{}", if together { " of one job" } else { "" });
    let Ok(_) = r else { return viol("hang", format!("{what}: the run did not end: {}", sim.text())) };
    let ev = sim.local.take();
    let mut placed = 0;
    for (id, c) in ids.iter().zip(&steps) {
      let c = c.as_deref();
      let by: Vec<usize> = (0..n).flat_map(|i| asked[i].lock().unwrap().iter().filter(|s| **s == format!("run {id}")).map(|_| i).collect::<Vec<_>>()).collect();
      let done = completed(&ev, id);
      let what = format!("{what}: step {id} was run by {by:?} and ended as {done:?}");
      if fleet.iter().any(|a| can_run(a, c)) {
        placed += 1;
        ensure!(by.len() == 1, "not-once", "{what}");
        ensure!(can_run(&fleet[by[0]], c), "not-able", "{what}");
        ensure!(done == [(WorkflowState::Succeeded, None)], "result-differs", "{what}");
      } else {
        ensure!(by.is_empty(), "not-able", "{what}");
        ensure!(done.len() == 1 && done[0].0 == WorkflowState::Failed, "not-failed", "{what}");
        ensure!(logs(&ev, id).iter().any(|(err, m)| *err && !m.is_empty()), "not-said", "{what}");
      }
    }
    Ok(format!("{placed} placed"))
  }));
  // A scheduler is offered all the runners there are, and its choice is kept to.
  v.push(scenario("chosen", tier.or(0, 1), move |ctx| {
    let n = ctx.pick("runners", tier.or(3, 4));
    let k = 1 + ctx.pick("steps", 3);
    let plan: Vec<Option<usize>> = (0..k).map(|_| Some(ctx.pick("choice", n + 1)).filter(|c| *c < n)).collect();
    let together = k > 1 && ctx.flag("at-once");
    rt::pick_seed(ctx, 2);
    let mut yaml = "jobs:\n".to_string();
    for i in 0..k {
      if together || i == 0 {
        yaml += &format!("  j{i}:\n    steps:\n");
      }
      yaml += "      - run: x\n        continue-on-error: true\n";
    }
    let sim = Sim::new(&one(vec![]), 0);
    let asked: Vec<Arc<Mutex<Vec<String>>>> = (0..n).map(|_| Arc::default()).collect();
    let picky = Picky { plan: Arc::new(Mutex::new(plan.iter().map(|p| p.map(|i| format!("r{i}"))).collect())), offered: Arc::default() };
    let (s2, a2, p2) = (sim.clone(), asked.clone(), picky.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: tier == Tier::Thorough && n < 3 && k < 3, ..Default::default() },
      async move {
        let mut urls = vec![];
        for i in 0..a2.len() {
          let server = AstroRunRemoteRunnerServer::builder().id(format!("r{i}")).support_docker(false).support_host(false).max_runs(i as i32).runner(Asked(a2[i].clone())).build().unwrap();
          s2.net.serve(&url(i), server);
          urls.push(url(i));
        }
        let client = AstroRunRemoteRunnerClient::builder().scheduler(p2).build().unwrap();
        *s2.started.lock().unwrap() = Some(net::start(&client, urls).await);
        let astro = AstroRun::builder().runner(client).plugin(Rec { w: Some(s2.local.clone()), idx: 0, ..Default::default() }).build();
        run_wf(&astro, &yaml).await
      },
      Duration::from_secs(15),
    );
    sim.forget();
    let what = format!("{n} runners, choices {plan:?}");
    let Ok(r) = r else { return viol("hang", format!("{what}: the run did not end: {}", sim.text())) };
    let offered = picky.offered.lock().unwrap().clone();
    ensure!(offered.len() == k, "not-asked", "{what}: the scheduler was asked {} times", offered.len());
    for o in &offered {
      let mut o: Vec<_> = o.iter().map(|m| (m.id.clone(), m.max_runs, m.support_docker, m.support_host)).collect();
      o.sort();
      let all: Vec<_> = (0..n).map(|i| (format!("r{i}"), i as i32, false, false)).collect();
      ensure!(o == all, "wrong-offer", "{what}: was offered {o:?}");
    }
    for (i, a) in asked.iter().enumerate() {
      let want = plan.iter().filter(|p| **p == Some(i)).count();
      let got = a.lock().unwrap().clone();
      ensure!(got.len() == want, "wrong-runner", "{what}: r{i} ran {got:?}");
    }
    let failed: usize = r.jobs.values().flat_map(|j| &j.steps).filter(|s| s.state == WorkflowState::Failed).count();
    let none = plan.iter().filter(|p| p.is_none()).count();
    ensure!(failed == none, "not-failed", "{what}: {failed} steps failed");
    Ok(format!("{n} {k} {none}"))
  }));
  v
}

/// A runner that succeeds and records which steps it was asked to run.
struct Asked(Arc<Mutex<Vec<String>>>);

#[async_trait]
impl Runner for Asked {
  async fn run(&self, ctx: astro_run::Context) -> RunResponse {
    self.0.lock().unwrap().push(format!("run {}", ctx.id));
    let (tx, rx) = stream();
    tx.end(RunResult::Succeeded);
    Ok(rx)
  }
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C38",
    level: "model_checking",
    rule: "All combinations of a server's settings (id, runner, max_runs, docker and host support, each also left out) and of the ways docker can be on the machine (working, absent, daemon down, killed, not executable), each in a process of its own; all fleets of up to two (thorough: three) runners of six kinds and all pairs of seven kinds of container in one job or two; all choices of a scheduler among up to two (thorough: three) runners for up to three steps, with task schedules within the deviation bound.",
    assumptions: &["Whether docker works on a machine does not change once a server has been built."],
    scenarios: c38,
  },
  Check {
    id: "C18",
    level: "model_checking",
    rule: "All combinations of up to three steps' behaviours (success, failure, refusal, cancelled, waiting to be cancelled), dependency, host or container step, zero to two remote runners and a broken connection, for one workflow and two concurrent ones, and task schedules within the deviation bound; the scheduler's notifications are compared with those of a plugin, the default scheduler's bookkeeping with empty. Every kind of notification told to the client directly, singly and in pairs.",
    assumptions: &[],
    scenarios: c18,
  },
  Check {
    id: "C19",
    level: "model_checking",
    rule: "All sequences of log lines, pauses and results of the remote side's runner up to the stated length; all scripts of a misbehaving remote side up to the stated length (lines, results, stream errors, broken connections, refusals, early ends), with and without a cancel; bursts beyond every buffer; up to three runners; the real client and server over a simulated network and a virtual clock, with task schedules within the deviation bound.",
    assumptions: &["A remote side that stays connected and silent for ever is not a fault a client can detect.", "A remote side's runner ends its stream."],
    scenarios: c19,
  },
  Check {
    id: "C20",
    level: "model_checking",
    rule: "All fates (nothing, cancelled, timed out, both, cancelled when over) of up to three jobs over up to three remote runners, obeying steps and deaf ones; runs of the same workflow in a row with events of the first still under way; signals for unknown and completed steps; earlier runs of a step that outlive their client; task schedules within the deviation bound.",
    assumptions: &["Concurrent runs of one and the same workflow have the same step ids, so that their steps cannot be told apart."],
    scenarios: c20,
  },
  Check {
    id: "C21",
    level: "model_checking",
    rule: "All combinations of step behaviours, dependency, runner count (one to three), slow hooks, number of lines per burst (up to 5000), and ways for up to two other runners to fail (refusing, breaking, coming back), every kind of notification told to the client directly, singly and in pairs; runs that start while the client is still connecting; with task schedules within the deviation bound; what the plugins and runners behind every remote runner are told is compared with what the client's own plugins are told.",
    assumptions: &[],
    scenarios: c21,
  },
  Check {
    id: "C32",
    level: "model_checking",
    rule: "All sequences of addresses up to the stated length, each a good runner, another one, a duplicate of the first, an incompatible one, one without metadata, a refused or never completed connection, one that never answers, or no address at all, given in one call or two; task schedules within the deviation bound for up to two addresses.",
    assumptions: &["A host that does not answer is given up on within 15 minutes."],
    scenarios: c32,
  },
  Check {
    id: "C22",
    level: "model_checking",
    rule: "Every kind of message of the protocol through the real client, server and codec: all combinations of the fields' representative and extreme values for commands, contexts, responses, metadata and results, families of them for steps, jobs and workflows; every kind of value of an environment variable in the configuration; numbers of every exponent; messages of up to 4 MB. Compared without serde.",
    assumptions: &["Messages are smaller than gRPC's limit of 4 MB."],
    scenarios: c22,
  },
  Check {
    id: "C23",
    level: "model_checking",
    rule: "All edits (of every field a hook can change) by two plugins and the runner of one remote side, families of edits for up to three, failing hooks at every place, one more remote side that refuses or is gone, steps with no field and with every field set, with and without a local hook, several iteration orders of the client's map; task schedules within the deviation bound.",
    assumptions: &["The order among remote sides is not specified."],
    scenarios: c23,
  }]
}
