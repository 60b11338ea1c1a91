//! Cancelling, timeouts, concurrent runs, trigger events: C11, C12, C30, C31.
use super::graph::{hist, jid, run_spec, seen_by, sid, Out, Spec, J, S, WF};
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Scenario, Violation};
use crate::ensure;
use crate::net::Net;
use crate::rt::{self, Opts, Select};
use crate::wf::*;
use astro_run::*;
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use std::result::Result;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- C11

/// A cancel request as it happened: the event `What::Env("cancel <target> ok|refused")` of the world.
/// Made at the instance, or at an execution context of it.
fn request(w: &World, astro: &AstroRun, target: &JobId, at_context: bool) {
  let ok = if at_context { astro.execution_context().build().cancel_job(target).is_ok() } else { astro.cancel_job(target).is_ok() };
  w.ev(Who::World, target, What::Env(format!("cancel {}", if ok { "ok" } else { "refused" })));
}

fn is_request(e: &Ev) -> Option<bool> {
  match &e.what {
    What::Env(s) if s == "cancel ok" => Some(true),
    What::Env(s) if s == "cancel refused" => Some(false),
    _ => None,
  }
}

/// Judges every cancel request and its consequences. `clear`: jobs nobody can have cancelled before they were
/// over, with the states they must have.
fn mon_cancel(spec: &Spec, o: &Out) -> Result<(), Violation> {
  mon_cancel_in(WF, &spec.jobs.iter().map(|j| j.steps.len()).collect::<Vec<_>>(), &o.events)
}

/// For the jobs of one workflow with this many steps each.
fn mon_cancel_in(wf: &str, jobs: &[usize], ev: &[Ev]) -> Result<(), Violation> {
  let text = || hist(ev, &Who::Runner);
  let jid = |j: usize| format!("{wf}/j{j}");
  for (j, steps) in jobs.iter().enumerate() {
    let id = jid(j);
    let first = |f: &dyn Fn(&Ev) -> bool| ev.iter().position(|e| e.id == id && f(e));
    let begin = first(&|e| e.what == What::RunJob);
    let ending = first(&|e| matches!(&e.what, What::State(s) if s.is_terminal()));
    // Being told that a job starts or is over is enough to know.
    let ended = first(&|e| matches!(e.what, What::JobDone(_)));
    let mut accepted: Option<usize> = None;
    for (i, e) in ev.iter().enumerate().filter(|(_, e)| e.id == id) {
      let Some(ok) = is_request(e) else { continue };
      if accepted.is_some() {
        ensure!(!ok, "accepted-twice", "a second cancel of {id} was accepted: {}", text());
        continue;
      }
      let before = begin.is_none_or(|b| i < b);
      let after = ended.is_some_and(|d| i > d);
      let within = !before && ending.is_none_or(|d| i < d);
      ensure!(!(ok && (before || after)), "accepted-when-not-running", "a cancel of {id} was accepted while it was not running: {}", text());
      ensure!(ok || !within, "refused-while-running", "a cancel of {id} was refused while it was running: {}", text());
      if ok {
        accepted = Some(i);
      }
    }
    for k in 0..*steps {
      let id = format!("{}/{k}", jid(j));
      let pos = |f: &dyn Fn(&Ev) -> bool| ev.iter().position(|e| e.id == id && f(e));
      let run = pos(&|e| e.what == What::Run);
      let Some(run) = run else { continue };
      let end = pos(&|e| matches!(e.what, What::Ended(_)));
      let told = pos(&|e| e.what == What::Sig(Signal::Cancel));
      let end_sig = end.map(|x| match &ev[x].what {
        What::Ended(s) => *s,
        _ => unreachable!(),
      });
      let Some(a) = accepted else {
        ensure!(told.is_none() && end_sig != Some("cancel"), "cancelled-unasked", "step {id} was given a cancel nobody asked for: {}", text());
        continue;
      };
      // Told only after the request.
      if let Some(t) = told {
        ensure!(t > a, "cancelled-unasked", "step {id} was cancelled before it was asked for: {}", text());
      }
      if let Some(x) = end {
        if x < a {
          ensure!(end_sig != Some("cancel"), "cancelled-unasked", "step {id} was cancelled before it was asked for: {}", text());
        } else if ev[x].t > ev[a].t.max(ev[run].t) {
          // It went on for a while after the request (or its own, later, start).
          ensure!(
            end_sig != Some("none"),
            if run < a { "not-told" } else { "later-step-not-told" },
            "job {} was cancelled at {} ms; step {id} ran until {} ms and was not told: {}",
            jid(j),
            ev[a].t,
            ev[x].t,
            text()
          );
          // A step that obeys ends at once.
          if let Some(t) = told {
            ensure!(ev[t].t == ev[a].t.max(ev[run].t), "told-late", "step {id} was told at {} ms: {}", ev[t].t, text());
          }
        }
      } else {
        return viol(if run < a { "not-told" } else { "later-step-not-told" }, format!("job {} was cancelled; step {id}, which waits for that, never ended: {}", jid(j), text()));
      }
    }
  }
  Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
  /// Ends at once.
  Quick,
  /// Works for 10 ms unless told to stop.
  Work,
  /// Works for 10 ms, whatever it is told.
  Deaf,
  /// Fails after 10 ms unless told to stop.
  Fails,
  /// Works until it is told to stop.
  Forever,
}

impl B {
  fn ops(self) -> Vec<Op> {
    match self {
      B::Quick => vec![Op::End(RunResult::Succeeded)],
      B::Work => vec![Op::Log("a"), Op::SleepOrObey(10), Op::End(RunResult::Succeeded)],
      B::Deaf => vec![Op::Sleep(10), Op::Log("b"), Op::End(RunResult::Succeeded)],
      B::Fails => vec![Op::SleepOrObey(10), Op::End(RunResult::Failed { exit_code: 7 })],
      B::Forever => vec![Op::Obey],
    }
  }
}

struct Req {
  at: u64,
  target: JobId,
}

fn run_cancel(ctx: &Ctx, opts: Opts, spec: &Spec, reqs: Vec<Req>, w: &Arc<World>) -> Out {
  run_spec(ctx, opts, spec, w, |w| {
    let a = astro(w, 1);
    for r in reqs {
      let (a, w) = (a.clone(), w.clone());
      // Lowest priority: by default a request comes after everything else due at that moment.
      rt::spawn_prio(1, async move {
        tokio::time::sleep(Duration::from_millis(r.at)).await;
        request(&w, &a, &r.target, r.at % 10 == 7 || r.at % 10 == 2);
      });
    }
    a
  })
}

fn mon_unaffected(spec: &Spec, o: &Out, targets: &[usize], want: impl Fn(usize) -> WorkflowState) -> Result<(), Violation> {
  let Some(r) = &o.result else { return viol("hang", format!("the run did not terminate: {}", hist(&o.events, &Who::Runner))) };
  for j in 0..spec.jobs.len() {
    if targets.contains(&j) {
      continue;
    }
    let s = &r.jobs[&format!("j{j}")].state;
    ensure!(*s == want(j), "other-job-affected", "job j{j}, which nobody cancelled, ended {s:?}: {}", hist(&o.events, &Who::Runner));
  }
  Ok(())
}

/// A plugin that takes its time over every log line.
pub(super) struct SlowLogs(pub(super) u64);

#[async_trait]
impl Plugin for SlowLogs {
  fn name(&self) -> &'static str {
    "slow"
  }
  async fn on_log(&self, _: WorkflowLog) -> HookNoopResult {
    tokio::time::sleep(Duration::from_millis(self.0)).await;
    Ok(())
  }
}

/// A plugin that asks for a job to be cancelled when it is told something for the `left`th time.
struct Asker {
  w: Arc<World>,
  astro: Arc<OnceLock<AstroRun>>,
  left: Arc<Mutex<usize>>,
  target: JobId,
}

impl Asker {
  fn told(&self, id: impl ToString, what: What) -> HookNoopResult {
    self.w.ev(Who::Plugin(9), id, what);
    let mut left = self.left.lock().unwrap();
    if *left == 0 {
      request(&self.w, self.astro.get().unwrap(), &self.target, false);
    }
    *left = left.wrapping_sub(1);
    Ok(())
  }
}

#[async_trait]
impl Plugin for Asker {
  fn name(&self) -> &'static str {
    "asker"
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.told(&e.source.id, What::RunWorkflow)
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.told(&e.source.id, What::RunJob)
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    self.told(&step.id, What::BeforeStep)?;
    Ok(step)
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.told(&e.source.id, What::RunStep)
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    match e {
      WorkflowStateEvent::WorkflowStateUpdated { id, state } => self.told(id, What::State(state)),
      WorkflowStateEvent::JobStateUpdated { id, state } => self.told(id, What::State(state)),
      WorkflowStateEvent::StepStateUpdated { id, state } => self.told(id, What::State(state)),
    }
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    self.told(&l.step_id, What::Log(l.is_error(), l.message))
  }
  async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult {
    self.told(&r.id, What::StepDone(r.state, r.exit_code))
  }
  async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult {
    self.told(&r.id, What::JobDone(r.state))
  }
  async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult {
    self.told(&r.id, What::WorkflowDone(r.state))
  }
}

/// A step has logged more than a slow plugin has heard of when its timeout elapses or its job is cancelled. One log
/// line may be on its way, and which of log lines and signals is looked at first is a matter of luck; but there has to
/// be an order of looking at them in which the signal is not kept waiting for more than that.
fn backlog(ctx: &Ctx, timeout: bool) -> Result<String, Violation> {
  let lines = 6 + 4 * ctx.pick("lines", 2);
  let each = *ctx.of("hook-ms", &[1000u64, 300]);
  let at = *ctx.of("at", &[1500u64, 500]);
  let gap = *ctx.of("then-logs-every", &[0u64, 100]);
  let mut told = vec![];
  for start in 0..6 {
    let w = World::new();
    let mut ops = vec![Op::Log("x"); lines];
    if gap == 0 {
      ops.push(Op::Obey);
    } else {
      ops.push(Op::Work { every: gap, total: 20_000, obey: true });
      ops.push(Op::End(RunResult::Succeeded));
    }
    w.behave("a", ops);
    let mut s = step("a");
    s.extra.push(format!("timeout: {}", if timeout { format!("{at}ms") } else { "60s".into() }));
    let text = yaml(&[job("j0", &[], vec![s])]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::Start(start), ..Default::default() },
      async move {
        let astro = AstroRun::builder().runner(MockRunner { w: w2.clone(), fail_hooks: false, append: None }).plugin(SlowLogs(each)).build();
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        if !timeout {
          let a2 = astro.clone();
          tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(at)).await;
            request(&w2, &a2, &JobId::new(WF, "j0"), false);
          });
        }
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(1),
    );
    let ev = w.take();
    let what = if timeout { Signal::Timeout } else { Signal::Cancel };
    let t = ev.iter().find(|e| e.what == What::Sig(what.clone())).map(|e| e.t);
    let Ok(r) = r else { return viol("hang", format!("the run did not terminate: {}", hist(&ev, &Who::World))) };
    if let Some(t) = t {
      ensure!(t >= at, "told-early", "the step was told at {t} ms, not {at}: {}", hist(&ev, &Who::World));
      ensure!(r.state == if timeout { WorkflowState::Failed } else { WorkflowState::Cancelled }, "result", "told at {t} ms, the step obeyed and the run ended {:?}", r.state);
    }
    told.push(t);
  }
  ensure!(
    told.iter().any(|t| t.is_some_and(|t| t <= at + each)),
    "starved",
    "with log lines waiting for a slow plugin, the signal due at {at} ms waits for all of them, wherever `select!` starts: seen at {told:?}"
  );
  Ok(format!("{told:?}"))
}

fn c11(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // One job of two or three steps; requests at every kind of moment.
  v.push(scenario("one-job", tier.or(1, 2), move |ctx| {
    const KINDS: [B; 5] = [B::Work, B::Deaf, B::Fails, B::Quick, B::Forever];
    let n = 2 + ctx.pick("third-step", tier.or(1, 2));
    let steps: Vec<S> = (0..n)
      .map(|_| {
        let b = *ctx.of("step", &KINDS);
        S { ops: b.ops(), coe: ctx.flag("continue-on-error") }
      })
      .collect();
    let at = *ctx.of("at", &[5, 0, 10, 15, 20]);
    let mut reqs = vec![Req { at, target: JobId::new(WF, "j0") }];
    if ctx.flag("second-request") {
      reqs.push(Req { at: at + 7, target: JobId::new(WF, "j0") });
    }
    // A step that waits for the cancel ends with it only if the request is made while the job runs; a rescue at
    // the end keeps such executions finite.
    reqs.push(Req { at: 500, target: JobId::new(WF, "j0") });
    let spec = Spec { jobs: vec![J { deps: vec![], steps }] };
    let w = World::new();
    let o = run_cancel(ctx, Opts { select: Select::PickOne, ..Default::default() }, &spec, reqs, &w);
    mon_cancel(&spec, &o)?;
    mon_unaffected(&spec, &o, &[0], |_| WorkflowState::Succeeded)?;
    Ok(format!("{:?}", seen_by(&o.events, &Who::World).iter().map(|e| (&e.id, &e.what)).collect::<Vec<_>>()))
  }));
  // Several jobs, requests for any of them (also for one that does not exist or has not started yet).
  v.push(scenario("jobs", tier.or(1, 2), move |ctx| {
    let t0 = ctx.pick("first-target", 4);
    let t1 = ctx.pick("second-target", 4);
    let at0 = *ctx.of("first-at", &[5, 0, 10, 15]);
    let at1 = *ctx.of("second-at", &[5, 10, 12, 25]);
    let target = |i: usize| if i == 3 { JobId::new("other", "j0") } else { JobId::new(WF, format!("j{i}")) };
    let j0 = *ctx.of("j0", &[B::Work, B::Deaf]);
    let spec = Spec {
      jobs: vec![
        J { deps: vec![], steps: vec![S { ops: j0.ops(), coe: false }, S { ops: B::Work.ops(), coe: true }] },
        J { deps: vec![], steps: vec![S { ops: B::Work.ops(), coe: false }] },
        J { deps: vec![1], steps: vec![S { ops: B::Work.ops(), coe: false }] },
      ],
    };
    let w = World::new();
    let reqs = vec![Req { at: at0, target: target(t0) }, Req { at: at1, target: target(t1) }];
    let o = run_cancel(ctx, Opts { select: Select::First, ..Default::default() }, &spec, reqs, &w);
    mon_cancel(&spec, &o)?;
    mon_unaffected(&spec, &o, &[t0, t1], |_| WorkflowState::Succeeded)?;
    ensure!(
      !o.events.iter().any(|e| e.id == "other/j0" && is_request(e) == Some(true)),
      "accepted-when-not-running",
      "a cancel of a job of no workflow was accepted"
    );
    Ok(format!("{:?}", seen_by(&o.events, &Who::World).iter().map(|e| (&e.id, &e.what)).collect::<Vec<_>>()))
  }));
  // A plugin makes the request as soon as it is told something: of the job's start, of a step, of its end.
  v.push(scenario("in-hooks", tier.or(0, 1), move |ctx| {
    let n = ctx.pick("notification", 26);
    let second = ctx.flag("registered-second");
    let target = JobId::new(WF, format!("j{}", ctx.pick("target", 2)));
    let kinds = [*ctx.of("step", &[B::Work, B::Deaf, B::Fails, B::Quick]), *ctx.of("step", &[B::Work, B::Quick])];
    let w = World::new();
    for (k, b) in kinds.iter().enumerate() {
      w.behave(&format!("s{k}"), b.ops());
    }
    w.behave("other", B::Work.ops());
    let mut s1 = step("s1");
    s1.extra.push("continue-on-error: true".into());
    let text = yaml(&[job("j0", &[], vec![step("s0"), s1]), job("j1", &["j0"], vec![step("other")])]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let asker = Asker { w: w2.clone(), astro: Arc::default(), left: Arc::new(Mutex::new(n)), target };
        let slot = asker.astro.clone();
        let mut b = AstroRun::builder().runner(MockRunner { w: w2.clone(), fail_hooks: false, append: None });
        let rec = Rec { w: Some(w2.clone()), idx: 0, ..Default::default() };
        b = if second { b.plugin(rec).plugin(asker) } else { b.plugin(asker).plugin(rec) };
        let astro = b.build();
        slot.set(astro.clone()).ok();
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(10),
    );
    let ev = w.take();
    ensure!(r.is_ok(), "hang", "the run did not terminate: {}", hist(&ev, &Who::Runner));
    mon_cancel_in(WF, &[2, 1], &ev)?;
    Ok(format!("{:?}", seen_by(&ev, &Who::World).iter().map(|e| (&e.id, &e.what)).collect::<Vec<_>>()))
  }));
  // Log lines wait for a slow plugin when the request is made.
  v.push(scenario("backlog", tier.or(0, 1), |ctx| backlog(ctx, false)));
  // Cancel against timeout: the step gets one of the two, later steps are told all the same.
  v.push(scenario("with-timeout", tier.or(1, 2), move |ctx| {
    let at = *ctx.of("at", &[990, 1000, 1010, 0]);
    let at_context = ctx.flag("at-context");
    let first = ctx.pick("first-step", 3);
    let coe = ctx.flag("continue-on-error");
    let w = World::new();
    let ops = match first {
      0 => vec![Op::Obey],
      1 => vec![Op::Sleep(1020), Op::End(RunResult::Failed { exit_code: 7 })],
      _ => vec![Op::Sleep(1020), Op::End(RunResult::Succeeded)],
    };
    w.behave("a", ops);
    w.behave("b", vec![Op::SleepOrObey(50), Op::End(RunResult::Succeeded)]);
    let mut b = step("b");
    if coe {
      b.extra.push("continue-on-error: true".into());
    }
    let mut a = step("a");
    a.extra.push("timeout: 1s".into());
    let text = yaml(&[job("j0", &[], vec![a, b])]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::PickOne, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        let (a2, w3) = (astro.clone(), w2.clone());
        rt::spawn_prio(1, async move {
          tokio::time::sleep(Duration::from_millis(at)).await;
          request(&w3, &a2, &JobId::new(WF, "j0"), at_context);
        });
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(10),
    );
    let o = Out { events: w.take(), w: w.clone(), result: r.ok() };
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops: vec![], coe: false }, S { ops: vec![], coe }] }] };
    ensure!(o.result.is_some(), "hang", "the run did not terminate: {}", hist(&o.events, &Who::Runner));
    mon_cancel(&spec, &o)?;
    Ok(hist(&o.events, &Who::World))
  }));
  // The registry behind it, called by several threads: jobs come and go while others are cancelled.
  v.push(scenario("registry-threads", tier.or(2, 3), move |ctx| {
    use crate::ctl::{self, Body};
    let m = SignalManager::new();
    let (a, b) = (JobId::new("w", "a"), JobId::new("w", "b"));
    let release = ctx.flag("release-points");
    let second = ctx.pick("second-canceller", 3);
    m.register_signal(b.clone(), AstroRunSignal::new());
    let kept = m.get_signal(&b);
    let log = Arc::new(std::sync::Mutex::new(Vec::<(&'static str, bool)>::new()));
    let mut bodies: Vec<Body> = vec![];
    {
      let (m, a, log) = (m.clone(), a.clone(), log.clone());
      bodies.push(Box::new(move |me| {
        let s = AstroRunSignal::new();
        m.register_signal(a.clone(), s.clone());
        log.lock().unwrap().push(("registered", true));
        me.point();
        m.unregister_signal(&a);
        log.lock().unwrap().push(("unregistered", true));
        let is = s.is_cancelled();
        log.lock().unwrap().push(("a-cancelled", is));
      }));
    }
    for k in 0..1 + (second > 0) as usize {
      let target = if k == 0 || second == 1 { a.clone() } else { b.clone() };
      let name = if k == 0 || second == 1 { "cancel-a" } else { "cancel-b" };
      let (m, log) = (m.clone(), log.clone());
      bodies.push(Box::new(move |_| {
        let ok = m.cancel_job(&target).is_ok();
        log.lock().unwrap().push((name, ok));
      }));
    }
    ctl::run(ctx, release, bodies)?;
    let log = log.lock().unwrap().clone();
    let oks = log.iter().filter(|x| **x == ("cancel-a", true)).count();
    ensure!(oks <= 1, "accepted-twice", "{oks} cancels of one job were accepted: {log:?}");
    let seen = log.contains(&("a-cancelled", true));
    // The log entries of a request may come after it: only what holds in every case is asked for.
    ensure!(!seen || oks == 1 || second == 1 || log.last().map(|x| x.0) != Some("a-cancelled"), "registry", "the job was signalled, no request was accepted: {log:?}");
    let b_ok = log.contains(&("cancel-b", true));
    ensure!(second != 2 || b_ok, "refused-while-running", "the cancel of a registered job was refused: {log:?}");
    let s = m.get_signal(&b);
    ensure!(s.is_some() && m.get_signal(&a).is_none(), "registry", "registered: a {:?}, b {s:?}", m.get_signal(&a));
    ensure!(s.unwrap().is_cancelled() == b_ok && kept.unwrap().is_cancelled() == b_ok, "other-job-affected", "the wrong job was signalled: {log:?}");
    ensure!(m.cancel_job(&a).is_err(), "accepted-when-not-running", "a cancel of a job that is over was accepted");
    Ok(format!("{log:?}"))
  }));
  v
}

// ---------------------------------------------------------------- C12

fn c12(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Steps that log every so often and end by themselves, or not, or when told.
  v.push(scenario("logging-steps", tier.or(1, 2), move |ctx| {
    let n = 1 + ctx.pick("steps", 2);
    let cancel_at = *ctx.of("cancel-at", &[0u64, 500, 1500]);
    let w = World::new();
    let mut plan = vec![];
    let mut specs = vec![];
    for k in 0..n {
      // (text, ms): different forms and lengths.
      // The second of two steps has fewer variants in the quick tier.
      let few = k > 0 && tier == Tier::Quick;
      let (text, ms) = [("1s", 1000u64), ("2s 500ms", 2500), ("60m", 3_600_000)][ctx.pick("timeout", if few { 2 } else { 3 })];
      let every = [400u64, 0, 999, 1000][ctx.pick("log-every", if few { 1 } else { 4 })];
      let total = [3000u64, 900, 1000, 2400][ctx.pick("works-for", if few { 2 } else { 4 })];
      let obey = ctx.flag("obeys");
      let mut ops = vec![];
      if every == 0 {
        ops.push(Op::Work { every: total, total, obey });
      } else {
        ops.push(Op::Work { every, total, obey });
      }
      ops.push(Op::End(RunResult::Succeeded));
      w.behave(&format!("s{k}"), ops);
      let mut s = step(format!("s{k}"));
      s.extra.push(format!("timeout: {text}"));
      s.extra.push("continue-on-error: true".into());
      specs.push(s);
      plan.push((ms, total, obey));
    }
    let text = yaml(&[job("j0", &[], specs)]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::PerPoll, tasks: false, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        if cancel_at > 0 {
          let (a2, w3) = (astro.clone(), w2.clone());
          rt::spawn_prio(1, async move {
            tokio::time::sleep(Duration::from_millis(cancel_at)).await;
            request(&w3, &a2, &JobId::new(WF, "j0"), false);
          });
        }
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(2 * 3600),
    );
    let ev = w.take();
    ensure!(r.is_ok(), "hang", "the run did not terminate: {}", hist(&ev, &Who::Runner));
    mon_timeout(&ev, &plan, cancel_at)?;
    Ok(hist(&ev, &Who::World))
  }));
  // Log lines wait for a slow plugin when the timeout elapses.
  v.push(scenario("backlog", tier.or(0, 1), |ctx| backlog(ctx, true)));
  // The default timeout, and one of a step among several jobs.
  v.push(scenario("per-step", tier.or(1, 2), move |ctx| {
    let w = World::new();
    let mut jobs = vec![];
    let mut plans = vec![];
    for j in 0..2 {
      let mut plan = vec![];
      let mut specs = vec![];
      for k in 0..2 {
        let (text, ms) = *ctx.of("timeout", &[("1s", 1000u64), ("3s", 3000), ("", 3_600_000)]);
        let total = *ctx.of("works-for", &[2000u64, 4_000_000]);
        w.behave(&format!("j{j}s{k}"), vec![Op::Work { every: 700, total: total.min(5000), obey: true }, Op::Work { every: 1_000_000, total: total.saturating_sub(5000), obey: true }, Op::End(RunResult::Succeeded)]);
        let mut s = step(format!("j{j}s{k}"));
        if !text.is_empty() {
          s.extra.push(format!("timeout: {text}"));
        }
        s.extra.push("continue-on-error: true".into());
        specs.push(s);
        plan.push((ms, total, true));
      }
      plans.push(plan);
      jobs.push(job(&format!("j{j}"), &[], specs));
    }
    let text = yaml(&jobs);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(2 * 3600),
    );
    let ev = w.take();
    ensure!(r.is_ok(), "hang", "the run did not terminate: {}", hist(&ev, &Who::Runner));
    for (j, plan) in plans.iter().enumerate() {
      let mine: Vec<Ev> = ev
        .iter()
        .filter(|e| e.id.starts_with(&jid(j)))
        .cloned()
        .map(|mut e| {
          e.id = e.id.replace(&jid(j), &jid(0));
          e
        })
        .collect();
      mon_timeout(&mine, plan, 0)?;
    }
    Ok(hist(&ev, &Who::World))
  }));
  // Timeouts of days and more, for steps that end early, just in time, or not at all.
  v.push(scenario("long", tier.or(0, 1), move |ctx| {
    const DAY: u64 = 86_400_000;
    let (text, ms) = *ctx.of(
      "timeout",
      &[("23h 59m 59s", DAY - 1000), ("24h", DAY), ("50h", 50 * DAY / 24), ("10days", 10 * DAY), ("25days", 25 * DAY), ("50days", 50 * DAY), ("1000000years", u64::MAX / 4), ("584542046years", u64::MAX / 4)],
    );
    let near = ms.min(60 * DAY);
    let total = match ctx.pick("works-for", 5) {
      0 => 5000,
      1 => near - 500,
      2 => near + 500,
      3 => DAY + 1,
      _ => near + DAY,
    };
    let every = *ctx.of("log-every", &[7_200_000u64, 90_000_000]);
    let obey = ctx.flag("obeys");
    let w = World::new();
    w.behave("s0", vec![Op::Work { every, total, obey }, Op::End(RunResult::Succeeded)]);
    w.behave("s1", vec![Op::Work { every: 100, total: 500, obey }, Op::End(RunResult::Succeeded)]);
    let mut specs = vec![step("s0"), step("s1")];
    for s in &mut specs {
      s.extra.push(format!("timeout: {text}"));
      s.extra.push("continue-on-error: true".into());
    }
    let text = yaml(&[job("j0", &[], specs)]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_millis(100 * DAY),
    );
    let ev = w.take();
    ensure!(r.is_ok(), "hang", "the run did not terminate: {}", hist(&ev, &Who::Runner));
    mon_timeout(&ev, &[(ms, total, obey), (ms, 500, obey)], 0)?;
    Ok(hist(&ev, &Who::World))
  }));
  // No time at all, or next to none.
  v.push(scenario("at-once", tier.or(1, 2), move |ctx| {
    let w = World::new();
    let mut specs = vec![];
    let mut plan = vec![];
    for k in 0..2 {
      let (text, ms) = *ctx.of("timeout", &[("0s", 0u64), ("0ms", 0), ("1ms", 1)]);
      let total = *ctx.of("works-for", &[2u64, 5000]);
      let every = *ctx.of("log-every", &[1u64, 700]);
      let obey = ctx.flag("obeys");
      w.behave(&format!("s{k}"), vec![Op::Work { every, total: total.min(20), obey }, Op::Work { every: 1000, total: total.saturating_sub(20), obey }, Op::End(RunResult::Succeeded)]);
      let mut s = step(format!("s{k}"));
      s.extra.push(format!("timeout: {text}"));
      s.extra.push("continue-on-error: true".into());
      specs.push(s);
      plan.push((ms, total, obey));
    }
    let text = yaml(&[job("j0", &[], specs)]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::PickOne, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(60),
    );
    let ev = w.take();
    ensure!(r.is_ok(), "hang", "the run did not terminate: {}", hist(&ev, &Who::Runner));
    mon_timeout(&ev, &plan, 0)?;
    Ok(hist(&ev, &Who::World))
  }));
  // A before-run-step hook gives the step another timeout: what runs is what the hooks made of it.
  v.push(scenario("changed-by-hook", tier.or(0, 1), move |ctx| {
    let w = World::new();
    let mut specs = vec![];
    let mut plan = vec![];
    let mut changes = vec![];
    for k in 0..2 {
      let ms = *ctx.of("timeout", &[1000u64, 3000]);
      let change = *ctx.of("changed-to", &[None, Some(1000u64), Some(2000), Some(3000)]);
      let total = *ctx.of("works-for", &[1500u64, 2500, 5000]);
      let obey = ctx.flag("obeys");
      w.behave(&format!("s{k}"), vec![Op::Work { every: 400, total, obey }, Op::End(RunResult::Succeeded)]);
      let mut s = step(format!("s{k}"));
      s.extra.push(format!("timeout: {}s", ms / 1000));
      s.extra.push("continue-on-error: true".into());
      specs.push(s);
      plan.push((change.unwrap_or(ms), total, obey));
      changes.push(change);
    }
    let by_runner = ctx.flag("hook-of-runner");
    let text = yaml(&[job("j0", &[], specs)]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts::default(),
      async move {
        let change = move |mut s: Step| {
          if let Some(ms) = changes[s.id.step_number()] {
            s.timeout = Duration::from_millis(ms);
          }
          Ok(s)
        };
        let runner = MockRunner { w: w2.clone(), fail_hooks: false, append: None };
        let astro = if by_runner {
          AstroRun::builder().runner(Changing(runner, Arc::new(change))).build()
        } else {
          AstroRun::builder().runner(runner).plugin(AstroRunPlugin::builder("change").on_before_run_step(change).build()).build()
        };
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(2 * 3600),
    );
    let ev = w.take();
    ensure!(r.is_ok(), "hang", "the run did not terminate: {}", hist(&ev, &Who::Runner));
    mon_timeout(&ev, &plan, 0)?;
    Ok(hist(&ev, &Who::World))
  }));
  v
}

/// A runner whose before-run-step hook changes the step.
pub struct Changing(pub MockRunner, pub Arc<dyn Fn(Step) -> HookBeforeRunStepResult + Send + Sync>);

#[async_trait]
impl Runner for Changing {
  async fn run(&self, ctx: astro_run::Context) -> RunResponse {
    self.0.run(ctx).await
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    (self.1)(step)
  }
}

/// Judges one job's steps: (timeout ms, works for ms, obeys), and when the job was cancelled (0: never).
fn mon_timeout(ev: &[Ev], plan: &[(u64, u64, bool)], cancel_at: u64) -> Result<(), Violation> {
  let text = || hist(ev, &Who::World);
  let cancelled = ev.iter().any(|e| is_request(e) == Some(true));
  for (k, (limit, total, obey)) in plan.iter().enumerate() {
    let id = sid(0, k);
    let Some(run) = ev.iter().find(|e| e.id == id && e.what == What::Run) else { continue };
    let end = ev.iter().find(|e| e.id == id && matches!(e.what, What::Ended(_)));
    let Some(end) = end else { return viol("not-ended", format!("step {k} has no end: {}", text())) };
    let sigs: Vec<&Ev> = ev.iter().filter(|e| e.id == id && matches!(e.what, What::Sig(_))).collect();
    ensure!(sigs.len() <= 1, "signalled-twice", "step {k} was signalled {} times: {}", sigs.len(), text());
    let due = run.t + limit;
    // Was the job's cancel there first (at or before this step's start, or during it)?
    let c = if cancelled { Some(cancel_at.max(run.t)) } else { None };
    let got = sigs.first().map(|e| (&e.what, e.t));
    match got {
      Some((What::Sig(Signal::Timeout), t)) => {
        ensure!(t >= due, "timeout-early", "step {k}, started at {} ms with timeout {limit} ms, was told at {t} ms: {}", run.t, text());
        ensure!(t == due, "timeout-late", "step {k}, started at {} ms with timeout {limit} ms, was told only at {t} ms: {}", run.t, text());
        if let Some(c) = c {
          ensure!(c >= due, "timeout-after-cancel", "step {k} was cancelled at {c} ms and told of a timeout at {t} ms: {}", text());
        }
      }
      Some((_, t)) => {
        ensure!(c.is_some(), "cancelled-unasked", "step {k} was cancelled, nobody asked for it: {}", text());
        ensure!(t <= due, "timeout-missed", "step {k} was due at {due} ms, cancelled at {t} ms: {}", text());
      }
      None => {
        let natural = run.t + total;
        ensure!(
          natural <= due || c.is_some_and(|c| c <= due) && end.t <= due,
          "timeout-missed",
          "step {k}, started at {} ms with timeout {limit} ms, ended at {} ms and was never told: {}",
          run.t,
          end.t,
          text()
        );
      }
    }
    if *obey && got.is_some() {
      ensure!(end.t == got.unwrap().1, "result", "step {k} obeyed at {} ms, ended at {} ms", got.unwrap().1, end.t);
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C30

fn c30(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Workflows nobody has given an identifier, of the same configuration or not, are different ones.
  v.push(scenario("unnamed", tier.or(1, 2), move |ctx| {
    let names = [*ctx.of("name", &[None, Some("build"), Some("")]), *ctx.of("name", &[None, Some("build"), Some("")])];
    let cancelled = ctx.pick("cancelled", 2);
    let w = World::new();
    w.behave("s", vec![Op::SleepOrObey(10), Op::End(RunResult::Succeeded)]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let (mut hs, mut ids) = (vec![], vec![]);
        for name in names {
          let text = name.map(|n| format!("name: {}\n", q(n))).unwrap_or_default() + &yaml(&[job("j0", &[], vec![step("s")])]);
          let wf = Workflow::builder().config(text).build(&astro).await.unwrap();
          ids.push(wf.id.to_string());
          let ec = astro.execution_context().build();
          hs.push(tokio::spawn(async move { wf.run(ec).await }));
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
        let ok = astro.cancel_job(&JobId::new(ids[cancelled].as_str(), "j0")).is_ok();
        let mut states = vec![];
        for h in hs {
          states.push(h.await.unwrap().state);
        }
        (ids, ok, states)
      },
      Duration::from_secs(1),
    );
    let Ok((ids, ok, states)) = r else { return viol("hang", "two workflows without identifiers did not terminate") };
    // The identifiers are random: they stay out of messages.
    ensure!(ids[0] != ids[1] && ids.iter().all(|i| !i.is_empty()), "same-identifier", "two workflows named {names:?}, built without an identifier, have the same one");
    let want: Vec<WorkflowState> = (0..2).map(|i| if i == cancelled { WorkflowState::Cancelled } else { WorkflowState::Succeeded }).collect();
    ensure!(ok && states == want, "result-differs", "run {cancelled} of two workflows without identifiers is cancelled: they end as {states:?}");
    Ok(format!("{names:?} {states:?}"))
  }));
  // Two workflows (or two runs of one) at once, each with two dependent or independent jobs.
  v.push(scenario("two-runs", tier.or(2, 3), move |ctx| {
    let same = ctx.flag("same-workflow");
    let offset = *ctx.of("second-starts-at", &[0u64, 5, 10, 15]);
    let deps = ctx.flag("dependent");
    let kinds: Vec<B> = (0..2).map(|_| *ctx.of("step", &[B::Work, B::Quick, B::Fails, B::Deaf])).collect();
    // Which run is cancelled (its job j0, at 12 ms), if any; not for runs of one workflow, which cannot be told apart.
    let cancel = if same { 0 } else { ctx.pick("cancel", 3) };
    let w = World::new();
    let names = ["wa", if same { "wa" } else { "wb" }];
    for (k, b) in kinds.iter().enumerate() {
      w.behave(&format!("s{k}"), b.ops());
    }
    let deps: &[&str] = if deps { &["j0"] } else { &[] };
    let text = yaml(&[job("j0", &[], vec![step("s0"), step("s1")]), job("j1", deps, vec![step("s1")])]);
    let w2 = w.clone();
    let texts = text.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let mut hs = vec![];
        for (i, name) in names.iter().enumerate() {
          let wf = Workflow::builder().id(*name).config(texts.clone()).build(&astro).await.unwrap();
          let ec = astro.execution_context().build();
          hs.push(tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(offset * i as u64)).await;
            wf.run(ec).await
          }));
        }
        if cancel > 0 {
          let (a2, w3) = (astro.clone(), w2.clone());
          rt::spawn_prio(1, async move {
            tokio::time::sleep(Duration::from_millis(12)).await;
            request(&w3, &a2, &JobId::new(names[cancel - 1], "j0"), cancel == 2);
          });
        }
        let mut out = vec![];
        for h in hs {
          out.push(h.await.unwrap());
        }
        out
      },
      Duration::from_secs(10),
    );
    let ev = w.take();
    let Ok(rs) = r else { return viol("hang", format!("two concurrent runs ({names:?}) did not terminate: {}", hist(&ev, &Who::Runner))) };
    let n0: Vec<_> = kinds.iter().map(|b| b.fails()).collect();
    if !same {
      for name in names {
        mon_cancel_in(name, &[2, 1], &ev)?;
      }
    }
    for (i, r) in rs.iter().enumerate() {
      if cancel == i + 1 {
        continue;
      }
      // What it has on its own.
      let j0 = if n0[0] || n0[1] { WorkflowState::Failed } else { WorkflowState::Succeeded };
      let j1 = if n0[1] { WorkflowState::Failed } else { WorkflowState::Succeeded };
      let st = |b: usize| if n0[b] { WorkflowState::Failed } else { WorkflowState::Succeeded };
      let want0 = vec![st(0), if n0[0] { WorkflowState::Skipped } else { st(1) }];
      let got0: Vec<_> = r.jobs["j0"].steps.iter().map(|s| s.state.clone()).collect();
      ensure!(
        r.id.to_string() == names[i] && r.jobs.len() == 2 && r.jobs["j0"].state == j0 && r.jobs["j1"].state == j1 && got0 == want0,
        "result-differs",
        "run {i} of {names:?} gave {}: {}",
        result_text(r),
        hist(&ev, &Who::Runner)
      );
    }
    // Notifications: of different workflows those each has alone; of the same workflow twice as many.
    for i in 0..2 {
      if cancel == i + 1 {
        continue;
      }
      for who in [Who::Plugin(0), Who::Runner] {
        let mine: Vec<&Ev> = ev.iter().filter(|e| e.who == who && (e.id == names[i] || e.id.starts_with(&format!("{}/", names[i])))).collect();
        let times = if same { 2 } else { 1 };
        for (id, want) in expected(names[i], &n0) {
          for what in want {
            let n = mine.iter().filter(|e| e.id == id && e.what == what).count();
            ensure!(n == times, "notifications-differ", "{who:?} was given {what:?} of {id} {n} times: {}", hist(&ev, &who));
          }
        }
      }
    }
    Ok(rs.iter().map(result_text).collect::<Vec<_>>().join(" | "))
  }));
  // A run that is cancelled and takes its time is not what a later run of the same workflow has to do with.
  v.push(scenario("after-a-cancel", tier.or(1, 2), move |ctx| {
    let first = *ctx.of("first", &[B::Deaf, B::Work]);
    let second = *ctx.of("second", &[B::Work, B::Deaf, B::Fails, B::Quick]);
    let cancel_at = *ctx.of("cancel-at", &[2u64, 7, 12]);
    let later = *ctx.of("second-starts", &[1u64, 3, 8, 20]);
    let at_context = ctx.flag("at-context");
    let w = World::new();
    for (k, b) in [first, second].iter().enumerate() {
      w.behave(&format!("s{k}"), b.ops());
    }
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let mut hs = vec![];
        for (i, at) in [0, cancel_at + later].into_iter().enumerate() {
          // Of the same identifier, and told apart by what their steps are.
          let s = format!("s{i}");
          let text = yaml(&[job("j0", &[], vec![step(s.clone()), step(s.clone())]), job("j1", &["j0"], vec![step(s)])]);
          let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
          let ec = astro.execution_context().build();
          hs.push(tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(at)).await;
            wf.run(ec).await
          }));
        }
        tokio::time::sleep(Duration::from_millis(cancel_at)).await;
        request(&w2, &astro, &JobId::new(WF, "j0"), at_context);
        let mut out = vec![];
        for h in hs {
          out.push(h.await.unwrap());
        }
        out
      },
      Duration::from_secs(10),
    );
    let ev = w.take();
    let Ok(rs) = r else { return viol("hang", format!("two runs of a workflow did not terminate: {}", hist(&ev, &Who::Runner))) };
    let (one, next) = if second.fails() { (WorkflowState::Failed, WorkflowState::Skipped) } else { (WorkflowState::Succeeded, WorkflowState::Succeeded) };
    let steps = |j: &str| rs[1].jobs[j].steps.iter().map(|s| s.state.clone()).collect::<Vec<_>>();
    ensure!(
      rs[1].state == one && steps("j0") == [one.clone(), next] && steps("j1") == [one],
      "result-differs",
      "a run started after another one of the same workflow had been cancelled gave {}: {}",
      result_text(&rs[1]),
      hist(&ev, &Who::Runner)
    );
    Ok(rs.iter().map(result_text).collect::<Vec<_>>().join(" | "))
  }));
  // One workflow after the other, and many at once.
  v.push(scenario("several", 1, move |ctx| {
    let n = 3 + ctx.pick("more", 2);
    let repeat = ctx.flag("again-after");
    let w = World::new();
    let kinds: Vec<B> = (0..n).map(|_| *ctx.of("step", &[B::Work, B::Fails, B::Quick])).collect();
    for (k, b) in kinds.iter().enumerate() {
      w.behave(&format!("s{k}"), b.ops());
    }
    let w2 = w.clone();
    let k2 = kinds.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::First, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let mut out = vec![];
        for _ in 0..1 + repeat as usize {
          let mut hs = vec![];
          for i in 0..k2.len() {
            let wf = Workflow::builder().id(format!("w{i}")).config(yaml(&[job("j", &[], vec![step(format!("s{i}"))])])).build(&astro).await.unwrap();
            let ec = astro.execution_context().build();
            hs.push(tokio::spawn(async move { wf.run(ec).await }));
          }
          for h in hs {
            out.push(h.await.unwrap());
          }
        }
        out
      },
      Duration::from_secs(10),
    );
    let Ok(rs) = r else { return viol("hang", format!("the runs did not terminate: {}", hist(&w.take(), &Who::Runner))) };
    for (i, r) in rs.iter().enumerate() {
      let want = if kinds[i % n].fails() { WorkflowState::Failed } else { WorkflowState::Succeeded };
      ensure!(r.state == want && r.id.to_string() == format!("w{}", i % n), "result-differs", "run {i} gave {}", result_text(r));
    }
    Ok(rs.iter().map(result_text).collect::<Vec<_>>().join(" | "))
  }));
  v
}

impl B {
  fn fails(self) -> bool {
    self == B::Fails
  }
}

fn expected(wf: &str, fails: &[bool]) -> Vec<(String, Vec<What>)> {
  use WorkflowState as W;
  let j0 = if fails[0] || fails[1] { W::Failed } else { W::Succeeded };
  let j1 = if fails[1] { W::Failed } else { W::Succeeded };
  let w = if fails[0] || fails[1] { W::Failed } else { W::Succeeded };
  let mut v = vec![
    (wf.to_string(), vec![What::RunWorkflow, What::State(W::InProgress), What::State(w.clone()), What::WorkflowDone(w)]),
    (format!("{wf}/j0"), vec![What::RunJob, What::State(W::InProgress), What::State(j0.clone()), What::JobDone(j0)]),
    (format!("{wf}/j1"), vec![What::RunJob, What::State(W::InProgress), What::State(j1.clone()), What::JobDone(j1)]),
  ];
  for (id, k, skipped) in [("j0/0", 0, false), ("j0/1", 1, fails[0]), ("j1/0", 1, false)] {
    let id = format!("{wf}/{id}");
    if skipped {
      v.push((id, vec![What::State(W::Skipped)]));
    } else {
      let (s, c) = if fails[k] { (W::Failed, Some(7)) } else { (W::Succeeded, None) };
      v.push((id, vec![What::BeforeStep, What::RunStep, What::State(W::Queued), What::State(W::InProgress), What::State(s.clone()), What::StepDone(s, c)]));
    }
  }
  v
}

// ---------------------------------------------------------------- C31

mod cargo {
  #[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
  pub struct Cargo {
    pub text: String,
    pub number: i64,
    pub list: Vec<String>,
    pub maybe: Option<String>,
  }

  #[typetag::serde]
  impl astro_run::ContextPayloadExt for Cargo {
    fn as_any(&self) -> &dyn std::any::Any {
      self
    }
  }
}
pub use cargo::Cargo;

pub fn a_cargo(ctx: &Ctx, kind: &'static str) -> Option<Cargo> {
  match ctx.pick(kind, 4) {
    0 => None,
    1 => Some(Cargo { text: "p".into(), number: 1, list: vec![], maybe: None }),
    2 => Some(Cargo { text: "\"quo\\ted\"\n\u{e9}\u{1f600} {}".into(), number: i64::MIN, list: vec!["".into(), "x".into()], maybe: Some("".into()) }),
    _ => Some(Cargo { text: String::new(), number: i64::MAX, list: vec!["\0".into()], maybe: None }),
  }
}

pub fn a_trigger(ctx: &Ctx, kind: &'static str) -> Option<TriggerEvent> {
  match ctx.pick(kind, 4) {
    0 => None,
    1 => Some(TriggerEvent::default()),
    2 => Some(TriggerEvent { event: "pull_request".into(), repo_owner: "o w".into(), repo_name: "n/\"".into(), pr_number: Some(i64::MAX), sha: "abc".into(), branch: "feat/\u{e9}".into(), ref_name: "refs/pull/1/merge".into() }),
    _ => Some(TriggerEvent { event: "pull_request".into(), repo_owner: "".into(), repo_name: "".into(), pr_number: Some(-1), sha: "".into(), branch: "".into(), ref_name: "".into() }),
  }
}

/// Compares everything hooks and the runner were given with what was attached.
pub fn mon_attached(w: &World, from: usize, hooks: usize, trigger: &Option<TriggerEvent>, cargo: &Option<Cargo>) -> Result<(), Violation> {
  let te = trigger.as_ref().map(|t| serde_json::to_string(t).unwrap());
  let pl = cargo.clone().map(|c| serde_json::to_string(&ContextPayload::new(c)).unwrap());
  let seen = w.seen.lock().unwrap()[from..].to_vec();
  ensure!(seen.len() == hooks, "hooks", "{} start notifications instead of {hooks}", seen.len());
  for (hook, e, p) in &seen {
    ensure!(*e == te, "event-differs", "{hook} was given the trigger event {e:?}, attached was {te:?}");
    ensure!(*p == pl, "payload-differs", "{hook} was given the payload {p:?}, attached was {pl:?}");
  }
  for c in w.contexts.lock().unwrap().iter() {
    let e = c.event.as_ref().map(|t| serde_json::to_string(t).unwrap());
    ensure!(e == te, "event-differs", "the runner was given the trigger event {e:?} for {}, attached was {te:?}", c.id);
    ensure!(c.payload == pl, "payload-differs", "the runner was given the payload {:?} for {}, attached was {pl:?}", c.payload, c.id);
  }
  Ok(())
}

fn c31(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("local", tier.or(0, 1), move |ctx| {
    let trigger = a_trigger(ctx, "event");
    let cargo = a_cargo(ctx, "payload");
    let deps = ctx.flag("dependent");
    let oc = ctx.pick("step-outcome", 3);
    let auth = ctx.flag("github-auth");
    let w = World::new();
    w.behave("a", vec![Op::Yield, Op::End([RunResult::Succeeded, RunResult::Failed { exit_code: 7 }, RunResult::Cancelled][oc].clone())]);
    w.behave("b", vec![Op::SleepOrObey(5), Op::End(RunResult::Succeeded)]);
    let d: &[&str] = if deps { &["j0"] } else { &[] };
    let text = yaml(&[job("j0", &[], vec![step("a"), step("b")]), job("j1", d, vec![step("b"), step("b")])]);
    let (t2, c2, w2) = (trigger.clone(), cargo.clone(), w.clone());
    let r = rt::run(
      ctx,
      Opts::default(),
      async move {
        let mut b = AstroRun::builder().runner(MockRunner { w: w2.clone(), fail_hooks: false, append: None });
        for idx in 0..2 {
          b = b.plugin(Rec { w: Some(w2.clone()), idx, ..Default::default() });
        }
        if auth {
          b = b.github_personal_token("token");
        }
        let astro = b.build();
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        let mut ec = astro.execution_context();
        if let Some(t) = t2 {
          ec = ec.event(t);
        }
        if let Some(c) = c2.clone() {
          ec = ec.payload(c);
        }
        let ec = ec.build();
        let typed = ec.payload::<Cargo>().cloned();
        let r = wf.run(ec).await;
        (r, typed)
      },
      Duration::from_secs(10),
    );
    let Ok((_, typed)) = r else { return viol("hang", "the run did not terminate") };
    ensure!(typed == cargo, "payload-differs", "the context gives {typed:?} for {cargo:?}");
    // Workflow, two jobs, and three or four steps, for two plugins and the runner.
    let steps = if oc == 0 { 4 } else { 3 };
    mon_attached(&w, 0, 3 * (3 + steps), &trigger, &cargo)?;
    ensure!(w.contexts.lock().unwrap().len() == steps, "hooks", "the runner ran {} steps", w.contexts.lock().unwrap().len());
    Ok(format!("{} {} {oc} {deps}", trigger.is_some(), cargo.is_some()))
  }));
  // Two contexts of one AstroRun at once do not exchange theirs.
  v.push(scenario("two-contexts", tier.or(1, 2), move |ctx| {
    let ts = [a_trigger(ctx, "event0"), a_trigger(ctx, "event1")];
    let cs = [a_cargo(ctx, "payload0"), a_cargo(ctx, "payload1")];
    let ws = [World::new(), World::new()];
    // One runner; what it sees is told apart by the workflow id.
    let w = World::new();
    let _ = &ws;
    w.behave("a", vec![Op::SleepOrObey(5), Op::End(RunResult::Succeeded)]);
    let text = yaml(&[job("j0", &[], vec![step("a"), step("a")])]);
    let (t2, c2, w2) = (ts.clone(), cs.clone(), w.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: true, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let mut hs = vec![];
        for i in 0..2 {
          let wf = Workflow::builder().id(format!("w{i}")).config(text.clone()).build(&astro).await.unwrap();
          let mut ec = astro.execution_context();
          if let Some(t) = &t2[i] {
            ec = ec.event(t.clone());
          }
          if let Some(c) = &c2[i] {
            ec = ec.payload(c.clone());
          }
          let ec = ec.build();
          hs.push(tokio::spawn(async move { wf.run(ec).await }));
        }
        for h in hs {
          h.await.unwrap();
        }
      },
      Duration::from_secs(10),
    );
    ensure!(r.is_ok(), "hang", "the runs did not terminate");
    let contexts = w.contexts.lock().unwrap().clone();
    ensure!(contexts.len() == 4, "hooks", "the runner ran {} steps instead of 4", contexts.len());
    for c in &contexts {
      let i = (c.id.workflow_id() == WorkflowId::new("w1")) as usize;
      let te = ts[i].as_ref().map(|t| serde_json::to_string(t).unwrap());
      let pl = cs[i].clone().map(|c| serde_json::to_string(&ContextPayload::new(c)).unwrap());
      ensure!(c.event.as_ref().map(|t| serde_json::to_string(t).unwrap()) == te, "event-differs", "{} ran with the event of another run", c.id);
      ensure!(c.payload == pl, "payload-differs", "{} ran with the payload of another run", c.id);
    }
    Ok(String::new())
  }));
  // Everything behind every connected remote runner is given the same.
  v.push(scenario("remote", tier.or(0, 1), move |ctx| {
    rt::seed_hashing(1);
    let n = 1 + ctx.pick("remotes", 2);
    let trigger = a_trigger(ctx, "event");
    let cargo = a_cargo(ctx, "payload");
    let deps = ctx.flag("dependent");
    let oc = ctx.pick("step-outcome", 3);
    let net = Net::install();
    let local = World::new();
    let ws: Vec<Arc<World>> = (0..n).map(|_| World::new()).collect();
    for w in &ws {
      w.behave("a", vec![Op::Yield, Op::End([RunResult::Succeeded, RunResult::Failed { exit_code: 7 }, RunResult::Cancelled][oc].clone())]);
      w.behave("b", vec![Op::SleepOrObey(5), Op::End(RunResult::Succeeded)]);
    }
    let d: &[&str] = if deps { &["j0"] } else { &[] };
    let text = yaml(&[job("j0", &[], vec![step("a"), step("b")]), job("j1", d, vec![step("b"), step("b")])]);
    let (t2, c2, l2, ws2) = (trigger.clone(), cargo.clone(), local.clone(), ws.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: true, ..Default::default() },
      async move {
        let mut urls = vec![];
        for (i, w) in ws2.iter().enumerate() {
          let server = AstroRunRemoteRunnerServer::builder()
            .id(format!("r{i}"))
            .support_docker(true)
            .plugin(Rec { w: Some(w.clone()), idx: 0, ..Default::default() })
            .runner(MockRunner { w: w.clone(), fail_hooks: false, append: None })
            .build()
            .unwrap();
          urls.push(format!("http://r{i}"));
          net.serve(&urls[i], server);
        }
        let client = AstroRunRemoteRunnerClient::builder().build().unwrap();
        crate::net::start(&client, urls).await;
        let astro = AstroRun::builder().runner(client).plugin(Rec { w: Some(l2), idx: 0, ..Default::default() }).build();
        let wf = Workflow::builder().id(WF).config(text).build(&astro).await.unwrap();
        let mut ec = astro.execution_context();
        if let Some(t) = t2 {
          ec = ec.event(t);
        }
        if let Some(c) = c2 {
          ec = ec.payload(c);
        }
        wf.run(ec.build()).await;
        // The events are forwarded in the background.
        tokio::time::sleep(Duration::from_millis(100)).await;
      },
      Duration::from_secs(10),
    );
    ensure!(r.is_ok(), "hang", "the run did not terminate");
    let steps = if oc == 0 { 4 } else { 3 };
    mon_attached(&local, 0, 3 + steps, &trigger, &cargo)?;
    for w in &ws {
      mon_attached(w, 0, 2 * (3 + steps), &trigger, &cargo)?;
    }
    let ran: usize = ws.iter().map(|w| w.contexts.lock().unwrap().len()).sum();
    ensure!(ran == steps, "hooks", "the remote runners ran {ran} steps instead of {steps}");
    Ok(format!("{n} {} {} {oc} {deps}", trigger.is_some(), cargo.is_some()))
  }));
  v
}

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "C11",
      level: "model_checking",
      rule: "All step behaviours, continue-on-error flags, request times and targets of the families below, and all task schedules and select orders within the deviation bound, through real workflow runs on a virtual clock; all interleavings of threads using the signal registry within a preemption bound.",
      assumptions: &["Between the terminal state and the completion notification, a request may be accepted or refused.", "At equal virtual times a step may or may not be told before it ends."],
      scenarios: c11,
    },
    Check {
      id: "C12",
      level: "model_checking",
      rule: "All combinations of timeout, logging interval, duration, obedience and cancel time for one or two steps (and pairs of jobs), with all select orders within the deviation bound, on a virtual clock.",
      assumptions: &["The timeout is measured from the moment the runner accepts the step, which here is at once."],
      scenarios: c12,
    },
    Check {
      id: "C30",
      level: "model_checking",
      rule: "All pairs of concurrent runs of the families below (different workflows and the same one, start offsets, step behaviours, dependencies, cancel target) with all task schedules within the deviation bound; three to four workflows at once.",
      assumptions: &["Runs of one and the same workflow cannot be told apart by a cancel request; those are not cancelled here."],
      scenarios: c30,
    },
    Check {
      id: "C31",
      level: "model_checking",
      rule: "All combinations of attached trigger event and payload (none, plain, with special characters and extreme numbers), step outcome and job dependency; pairs of contexts running at once under all schedules within the deviation bound; across a remote runner (see C22 for the encoding).",
      assumptions: &["Payload values are ones that serde_json restores exactly (the other floats are the known finding of C22)."],
      scenarios: c31,
    },
  ]
}
