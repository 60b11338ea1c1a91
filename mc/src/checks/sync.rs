//! Streams, signals and the signal registry under every thread interleaving: C08, C09, C10.
use super::graph::{run_spec, Out, Spec, J, S};
use super::{Check, Tier};
use crate::ctl::{self, Body};
use crate::engine::{scenario, viol, Ctx, Scenario, Violation};
use crate::ensure;
use crate::rt::{self, Opts, Select};
use crate::wf::*;
use astro_run::*;
use std::future::Future;
use std::pin::Pin;
use std::result::Result;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use std::time::Duration;

type Shared<T> = Arc<Mutex<T>>;

fn shared<T>(t: T) -> Shared<T> {
  Arc::new(Mutex::new(t))
}

struct CountWaker(AtomicUsize);
impl Wake for CountWaker {
  fn wake(self: Arc<Self>) {
    self.0.fetch_add(1, Ordering::SeqCst);
  }
}
fn count_waker() -> (Arc<CountWaker>, Waker) {
  let c = Arc::new(CountWaker(AtomicUsize::new(0)));
  (c.clone(), c.into())
}

/// Next item of the receiver, as a future.
struct Next<'a>(&'a mut StreamReceiver);
impl Future for Next<'_> {
  type Output = Option<Log>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
    Pin::new(&mut *self.0).poll_next(cx)
  }
}

const RESULTS: [RunResult; 3] = [RunResult::Succeeded, RunResult::Failed { exit_code: 7 }, RunResult::Cancelled];

fn end_with(tx: &StreamSender, how: usize) -> RunResult {
  match how {
    0 => {
      tx.succeeded();
      RunResult::Succeeded
    }
    1 => {
      tx.failed(7);
      RunResult::Failed { exit_code: 7 }
    }
    2 => {
      tx.cancelled();
      RunResult::Cancelled
    }
    3 => {
      tx.timeout();
      RunResult::Failed { exit_code: 123 }
    }
    _ => {
      tx.end(RunResult::Failed { exit_code: -1 });
      RunResult::Failed { exit_code: -1 }
    }
  }
}

// ---------------------------------------------------------------- C08

fn c08(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // All operation sequences on one stream against a reference queue, wake-ups included.
  let depth = tier.or(6, 8);
  v.push(scenario(format!("stream-sequences{depth}"), 0, move |ctx| {
    let (tx, mut rx) = stream();
    let txs = [tx.clone(), tx];
    let mut sent: Vec<Log> = vec![];
    let mut ended: Option<RunResult> = None;
    let mut got = 0usize;
    // The waker the consumer waits with, if its last poll was pending.
    let mut waiting: Option<Arc<CountWaker>> = None;
    let mut text = String::new();
    for i in 0..depth {
      let op = ctx.pick("op", 6);
      let before = waiting.as_ref().map(|w| w.0.load(Ordering::SeqCst));
      match op {
        0 => break,
        1 | 2 => {
          let m = format!("line{i}");
          if op == 1 {
            txs[i % 2].log(m.clone());
          } else {
            txs[i % 2].error(m.clone());
          }
          if ended.is_none() {
            sent.push(Log { log_type: if op == 1 { WorkflowLogType::Log } else { WorkflowLogType::Error }, message: m });
          } else {
            // What happens to lines sent after the end is not specified: stop here.
            break;
          }
        }
        3 | 4 => {
          let r = RESULTS[op - 3].clone();
          txs[i % 2].end(r.clone());
          ended.get_or_insert(r);
        }
        _ => {
          let (c, w) = count_waker();
          let mut cx = Cx::from_waker(&w);
          match Pin::new(&mut Next(&mut rx)).poll(&mut cx) {
            Poll::Ready(Some(l)) => {
              ensure!(sent.get(got) == Some(&l), "wrong-line", "op {i}: line {got} arrived as {l:?}, sent were {sent:?}");
              got += 1;
              waiting = None;
            }
            Poll::Ready(None) => {
              ensure!(got == sent.len() && ended.is_some(), "early-end", "op {i}: the stream ended after {got} of {} lines", sent.len());
              ensure!(rx.result() == ended, "wrong-result", "op {i}: result {:?}, ended with {ended:?}", rx.result());
              waiting = None;
            }
            Poll::Pending => {
              ensure!(got == sent.len() && ended.is_none(), "not-delivered", "op {i}: nothing delivered after {got} of {} lines (ended: {ended:?})", sent.len());
              waiting = Some(c);
            }
          }
          text.push('p');
          continue;
        }
      }
      if let (Some(w), Some(b)) = (&waiting, before) {
        let relevant = op != 0;
        ensure!(!relevant || w.0.load(Ordering::SeqCst) > b || b > 0, "not-woken", "op {i}: the waiting consumer was not woken");
      }
      text.push(['-', 'l', 'e', 'S', 'F', 'p'][op]);
    }
    Ok(format!("{text} {got}/{} {ended:?}", sent.len()))
  }));
  // Senders and a consumer on threads of their own: every interleaving within the preemption bound.
  v.push(scenario("stream-threads", tier.or(2, 3), move |ctx| {
    let two = ctx.flag("two-senders");
    let release = ctx.flag("release-points");
    let how = ctx.pick("end", 2);
    let (tx, mut rx) = stream();
    let got = shared(Vec::<Log>::new());
    let fin = shared(None::<Option<RunResult>>);
    let before = shared(0usize);
    let mut bodies: Vec<Body> = vec![];
    let done = Arc::new(AtomicUsize::new(0));
    for s in 0..(1 + two as usize) {
      let (tx, done, before) = (tx.clone(), done.clone(), before.clone());
      bodies.push(Box::new(move |_me| {
        for k in 0..2 {
          if k == 1 {
            tx.error(format!("s{s}-{k}"));
          } else {
            tx.log(format!("s{s}-{k}"));
          }
        }
        // Whoever finishes last ends the stream.
        if done.fetch_add(1, Ordering::SeqCst) == two as usize {
          *before.lock().unwrap() = 2 * (1 + two as usize);
          end_with(&tx, how);
        }
      }));
    }
    {
      let (got, fin) = (got.clone(), fin.clone());
      bodies.push(Box::new(move |me| {
        while let Some(l) = me.block_on(Next(&mut rx)) {
          got.lock().unwrap().push(l);
        }
        *fin.lock().unwrap() = Some(rx.result());
      }));
    }
    let pre = ctl::run(ctx, release, bodies).map_err(|v| Violation {
      key: if v.key == "deadlock" { "lost-wakeup".into() } else { v.key },
      msg: format!("{} (the consumer waits although lines or the end are there)", v.msg),
    })?;
    let got = got.lock().unwrap().clone();
    let n = *before.lock().unwrap();
    ensure!(got.len() == n, "lines-lost", "{} of {n} lines arrived: {got:?}", got.len());
    for s in 0..(1 + two as usize) {
      let mine: Vec<&Log> = got.iter().filter(|l| l.message.starts_with(&format!("s{s}"))).collect();
      let want = [Log::log(format!("s{s}-0")), Log::error(format!("s{s}-1"))];
      ensure!(mine == want.iter().collect::<Vec<_>>(), "wrong-lines", "sender {s}'s lines arrived as {mine:?}");
    }
    let want = if how == 0 { RunResult::Succeeded } else { RunResult::Failed { exit_code: 7 } };
    ensure!(*fin.lock().unwrap() == Some(Some(want.clone())), "wrong-result", "ended with {want:?}, the consumer saw {:?}", fin.lock().unwrap());
    Ok(format!("{pre} {got:?}"))
  }));
  // Through a workflow run: every pattern of lines and pauses, two jobs side by side, select orders.
  v.push(scenario("workflow-patterns", 0, move |ctx| {
    let n = ctx.pick("ops", tier.or(5, 6));
    let mut ops = vec![];
    let mut want = vec![];
    const MSG: [&str; 6] = ["m0", "m1", "", "m3\nx", "m4", "m5"];
    for k in 0..n {
      match ctx.pick("op", 4) {
        0 => {
          ops.push(Op::Log(MSG[k]));
          want.push((false, MSG[k]));
        }
        1 => {
          ops.push(Op::Err(MSG[k]));
          want.push((true, MSG[k]));
        }
        2 => ops.push(Op::Yield),
        _ => ops.push(Op::Sleep(5)),
      }
    }
    ops.push(Op::End(RunResult::Succeeded));
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops, coe: false }] }] };
    let o = run_spec(ctx, Opts { tasks: false, select: Select::PickOne, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    check_lines(&o, "wf/j0/0", &want)?;
    Ok(format!("{want:?}"))
  }));
  v.push(scenario("workflow-schedules", tier.or(2, 3), move |ctx| {
    let slow = ctx.flag("hooks-yield");
    let ops = vec![Op::Log("a"), Op::Err("b"), Op::Yield, Op::Log("c"), Op::Log("d"), Op::End(RunResult::Cancelled)];
    let spec = Spec { jobs: (0..2).map(|_| J { deps: vec![], steps: vec![S { ops: ops.clone(), coe: false }] }).collect() };
    let w = World::new();
    w.yields.store(slow, Ordering::Relaxed);
    let o = run_spec(ctx, Opts { select: Select::PerPoll, ..Default::default() }, &spec, &w, |w| astro(w, 2));
    for j in 0..2 {
      check_lines(&o, &format!("wf/j{j}/0"), &[(false, "a"), (true, "b"), (false, "c"), (false, "d")])?;
    }
    Ok(format!("{:?}", o.events.iter().filter(|e| e.who == Who::Runner && matches!(e.what, What::Log(..))).map(|e| &e.id[3..5]).collect::<Vec<_>>()))
  }));
  // What a step writes once it was told to stop is still reported.
  v.push(scenario("after-signal", tier.or(0, 1), move |ctx| {
    let n = ctx.pick("before", 2);
    let m = 1 + ctx.pick("after", tier.or(3, 4));
    let timeout = ctx.flag("timeout");
    let result = [RunResult::Cancelled, RunResult::Failed { exit_code: 130 }, RunResult::Succeeded][ctx.pick("result", 3)].clone();
    let mut ops = vec![Op::Log("before"); n];
    let mut want = vec![(false, "before"); n];
    ops.push(Op::Await);
    for _ in 0..m {
      match ctx.pick("op", 4) {
        0 => {
          ops.push(Op::Log("stopping"));
          want.push((false, "stopping"));
        }
        1 => {
          ops.push(Op::Err("stopped"));
          want.push((true, "stopped"));
        }
        2 => ops.push(Op::Yield),
        _ => ops.push(Op::Sleep(5)),
      }
    }
    ops.push(Op::End(result));
    let w = World::new();
    w.behave("s", ops);
    let mut s = step("s");
    if timeout {
      s.extra.push("timeout: 10ms".into());
    }
    let text = yaml(&[job("j0", &[], vec![s])]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::PickOne, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id("wf").config(text).build(&astro).await.unwrap();
        if !timeout {
          let a2 = astro.clone();
          rt::spawn_prio(1, async move {
            tokio::time::sleep(Duration::from_millis(10)).await;
            a2.cancel_job(&JobId::new("wf", "j0")).ok();
          });
        }
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(10),
    );
    ensure!(r.is_ok(), "hang", "the run did not terminate");
    lines_of(&w.take(), "wf/j0/0", &want)?;
    Ok(format!("{want:?}"))
  }));
  // Plugins that take longer over a line than the step may take altogether: all get all lines all the same.
  v.push(scenario("slow-plugins", tier.or(0, 1), move |ctx| {
    let n = ctx.pick("lines", tier.or(4, 5));
    let each = *ctx.of("each-takes", &[1u64, 15, 40]);
    let first = ctx.flag("slow-first");
    let obeys = ctx.flag("obeys");
    let lines: Vec<(bool, &str)> = (0..n).map(|i| if ctx.flag("error") { (true, "e") } else { (false, ["a", "b"][i % 2]) }).collect();
    let mut ops: Vec<Op> = lines.iter().map(|(e, m)| if *e { Op::Err(m) } else { Op::Log(m) }).collect();
    let mut want = lines.clone();
    if obeys {
      ops.extend([Op::Await, Op::Log("stopping")]);
      want.push((false, "stopping"));
    }
    ops.push(Op::End(if obeys { RunResult::Cancelled } else { RunResult::Succeeded }));
    let w = World::new();
    w.behave("s", ops);
    let mut s = step("s");
    s.extra.push("timeout: 10ms".into());
    let text = yaml(&[job("j0", &[], vec![s])]);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts { select: Select::PickOf(2), ..Default::default() },
      async move {
        let mut b = AstroRun::builder().runner(MockRunner { w: w2.clone(), fail_hooks: false, append: None });
        let rec = Rec { w: Some(w2), idx: 0, ..Default::default() };
        b = if first { b.plugin(super::exec::SlowLogs(each)).plugin(rec) } else { b.plugin(rec).plugin(super::exec::SlowLogs(each)) };
        let astro = b.build();
        let wf = Workflow::builder().id("wf").config(text).build(&astro).await.unwrap();
        wf.run(astro.execution_context().build()).await
      },
      Duration::from_secs(10),
    );
    ensure!(r.is_ok(), "hang", "the run did not terminate");
    lines_of(&w.take(), "wf/j0/0", &want)?;
    Ok(format!("{want:?}"))
  }));
  // Equal lines one after the other are as many lines.
  v.push(scenario("equal-lines", 0, move |ctx| {
    let n = 1 + ctx.pick("lines", tier.or(4, 5));
    let through = ctx.flag("workflow");
    let lines: Vec<(bool, &str)> = (0..n).map(|_| *ctx.of("line", &[(false, ""), (false, "x"), (true, ""), (false, " "), (true, "x")])).collect();
    if through {
      let mut ops: Vec<Op> = lines.iter().map(|(e, m)| if *e { Op::Err(m) } else { Op::Log(m) }).collect();
      ops.push(Op::End(RunResult::Succeeded));
      let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops, coe: false }] }] };
      let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
      check_lines(&o, "wf/j0/0", &lines)?;
    } else {
      let (tx, mut rx) = stream();
      for (e, m) in &lines {
        if *e {
          tx.error(*m);
        } else {
          tx.log(*m);
        }
      }
      tx.end(RunResult::Succeeded);
      let (_, w) = count_waker();
      let mut cx = Cx::from_waker(&w);
      let mut got = vec![];
      while let Poll::Ready(Some(l)) = Pin::new(&mut Next(&mut rx)).poll(&mut cx) {
        got.push((l.log_type == WorkflowLogType::Error, l.message));
        ensure!(got.len() <= n, "lines-differ", "sent were {lines:?}, delivered {got:?}");
      }
      let want: Vec<(bool, String)> = lines.iter().map(|(e, m)| (*e, m.to_string())).collect();
      ensure!(got == want, "lines-differ", "sent were {want:?}, delivered {got:?}");
    }
    Ok(format!("{lines:?}"))
  }));
  // Whatever a line consists of.
  v.push(scenario("texts", 0, move |ctx| {
    const TEXTS: [&str; 22] = [
      "", " ", "  a", "a  ", "\ta\t", "a\r", "\r", "\r\n", "a\n", "\na", "a\r\nb", "\0", "\u{1b}[31mred\u{1b}[0m", "\u{feff}a", "e\u{301}", "\u{1f600}", "{\"a\":1}", "::error::a", "%s {} $x", "\\n", "null", "\u{a0}a\u{2028}",
    ];
    let mut ops = vec![];
    let mut want = vec![];
    for _ in 0..2 {
      let t = *ctx.of("text", &TEXTS);
      let err = ctx.flag("error");
      ops.push(if err { Op::Err(t) } else { Op::Log(t) });
      want.push((err, t));
    }
    ops.push(Op::End(RunResult::Succeeded));
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops, coe: false }] }] };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    check_lines(&o, "wf/j0/0", &want)?;
    Ok(format!("{want:?}"))
  }));
  // A burst much longer than any buffer on the way.
  v.push(scenario("long-output", 0, move |ctx| {
    let n = [0usize, 1, 29, 30, 31, 100, 1000, 5000][ctx.pick("lines", 8)];
    let yields = n < 2000 && ctx.flag("yield-between");
    let mut ops = vec![];
    let mut want = vec![];
    for _ in 0..n {
      ops.push(Op::Log("x"));
      ops.push(Op::Err("y"));
      want.push((false, "x"));
      want.push((true, "y"));
      if yields {
        ops.push(Op::Yield);
      }
    }
    ops.push(Op::End(RunResult::Succeeded));
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops, coe: false }] }] };
    let o = run_spec(ctx, Opts { tasks: false, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    check_lines(&o, "wf/j0/0", &want)?;
    Ok(format!("{n}"))
  }));
  v
}

fn check_lines(o: &Out, id: &str, want: &[(bool, &str)]) -> Result<(), Violation> {
  ensure!(o.result.is_some(), "hang", "the run did not terminate");
  lines_of(&o.events, id, want)
}

fn lines_of(events: &[Ev], id: &str, want: &[(bool, &str)]) -> Result<(), Violation> {
  for who in [Who::Plugin(0), Who::Runner] {
    let mut done = false;
    let mut lines = vec![];
    for e in events.iter().filter(|e| e.who == who && e.id == id) {
      match &e.what {
        What::Log(err, m) => {
          ensure!(!done, "line-after-end", "{who:?} was given line {m:?} after the step's completion");
          lines.push((*err, m.as_str()));
        }
        What::StepDone(..) => done = true,
        _ => {}
      }
    }
    ensure!(lines == want, "wrong-lines", "{who:?} was given {lines:?}, the step wrote {want:?}");
    ensure!(done, "no-completion", "{who:?} was not told of the completion");
  }
  Ok(())
}

// ---------------------------------------------------------------- C09

fn c09(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  let depth = tier.or(4, 5);
  v.push(scenario(format!("end-sequences{depth}"), 0, move |ctx| {
    let (tx, mut rx) = stream();
    let txs = [tx.clone(), tx];
    let mut first: Option<RunResult> = None;
    for i in 0..depth {
      match ctx.pick("op", 9) {
        0 => break,
        8 => txs[i % 2].error("y"),
        1 => {
          let (_, w) = count_waker();
          let r = Pin::new(&mut Next(&mut rx)).poll(&mut Cx::from_waker(&w));
          ensure!(matches!(r, Poll::Ready(None)) == first.is_some() || matches!(r, Poll::Ready(Some(_))), "early-end", "poll gave {r:?}, ended: {first:?}");
        }
        2 => txs[i % 2].log("x"),
        k => {
          let r = end_with(&txs[i % 2], k - 3);
          first.get_or_insert(r);
        }
      }
      ensure!(rx.result() == first, "result-changed", "op {i}: result is {:?}, first given was {first:?}", rx.result());
      ensure!(txs[0].is_ended() == first.is_some() && txs[1].is_ended() == first.is_some(), "is-ended", "op {i}: is_ended disagrees with {first:?}");
    }
    Ok(format!("{first:?}"))
  }));
  // Several parties end the stream at once while others look.
  v.push(scenario("concurrent-ends", tier.or(2, 3), move |ctx| {
    let n = 2 + ctx.pick("enders", 2);
    let release = ctx.flag("release-points");
    let (tx, mut rx) = stream();
    let seen = shared(Vec::<(usize, Option<RunResult>)>::new());
    let mut bodies: Vec<Body> = vec![];
    let rx2 = shared(None::<Option<RunResult>>);
    for k in 0..n {
      let tx = tx.clone();
      bodies.push(Box::new(move |_| {
        end_with(&tx, k);
      }));
    }
    {
      let (rx2, seen) = (rx2.clone(), seen.clone());
      bodies.push(Box::new(move |me| {
        for _ in 0..2 {
          let r = rx.result();
          seen.lock().unwrap().push((0, r));
          me.point();
        }
        while me.block_on(Next(&mut rx)).is_some() {}
        let r = rx.result();
        seen.lock().unwrap().push((0, r));
        me.point();
        let r = rx.result();
        seen.lock().unwrap().push((0, r.clone()));
        me.point();
        *rx2.lock().unwrap() = Some(rx.result());
      }));
    }
    let pre = ctl::run(ctx, release, bodies)?;
    let seen = seen.lock().unwrap().clone();
    let fin = rx2.lock().unwrap().clone().flatten();
    ensure!(fin.is_some(), "no-result", "nobody's result was kept");
    for (_, r) in &seen {
      ensure!(r.is_none() || *r == fin, "result-changed", "a party saw {r:?}, later it was {fin:?} ({seen:?})");
    }
    Ok(format!("{pre} {seen:?} {fin:?}"))
  }));
  // A step that is ended several times is reported with the first result.
  v.push(scenario("workflow-ends", tier.or(1, 2), move |ctx| {
    let a = ctx.pick("first", 3);
    let b = ctx.pick("second", 3);
    let pause = ctx.pick("between", 3);
    let late = ctx.pick("late-line", 3);
    let logs = ctx.flag("log-first");
    let mut ops = vec![];
    if logs {
      ops.push(Op::Log("x"));
    }
    ops.push(Op::Yield);
    ops.push(Op::End(RESULTS[a].clone()));
    match pause {
      0 => {}
      1 => ops.push(Op::Yield),
      _ => ops.push(Op::Sleep(5)),
    }
    match late {
      0 => {}
      1 => ops.push(Op::Log("late")),
      _ => ops.push(Op::Err("late")),
    }
    ops.push(Op::End(RESULTS[b].clone()));
    let spec = Spec { jobs: vec![J { deps: vec![], steps: vec![S { ops, coe: false }] }] };
    let o = run_spec(ctx, Opts { select: Select::PerPoll, ..Default::default() }, &spec, &World::new(), |w| astro(w, 1));
    let Some(r) = &o.result else { return viol("hang", "the run did not terminate") };
    let s = &r.jobs["j0"].steps[0];
    let got = match (&s.state, s.exit_code) {
      (WorkflowState::Succeeded, None) => 0,
      (WorkflowState::Failed, Some(7)) => 1,
      (WorkflowState::Cancelled, None) => 2,
      x => return viol("wrong-result", format!("step is {x:?}")),
    };
    ensure!(got == a, "wrong-result", "the step ended first with {:?}, then {:?}; it was reported as {:?}", RESULTS[a], RESULTS[b], s.state);
    Ok(format!("{got}"))
  }));
  v
}

// ---------------------------------------------------------------- C10

fn c10(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  let depth = tier.or(6, 8);
  v.push(scenario(format!("signal-sequences{depth}"), 0, move |ctx| {
    let a = AstroRunSignal::new();
    let b = a.clone();
    let h = [a, b];
    let mut set: Option<Signal> = None;
    let mut delivered = false;
    let mut waiting: Option<Arc<CountWaker>> = None;
    // A waiter that lives on between polls; the other kind is made anew each time.
    let keep = h[0].clone();
    let mut kept = keep.recv();
    let mut text = String::new();
    for i in 0..depth {
      let op = ctx.pick("op", 5);
      match op {
        0 => break,
        1 | 2 => {
          let r = if op == 1 { h[i % 2].cancel() } else { h[i % 2].timeout() };
          ensure!(r.is_ok() == set.is_none(), "set-twice", "op {i}: request gave {r:?} when the signal was {set:?}");
          if set.is_none() {
            set = Some(if op == 1 { Signal::Cancel } else { Signal::Timeout });
            if let Some(w) = &waiting {
              ensure!(w.0.load(Ordering::SeqCst) > 0, "not-woken", "op {i}: the waiter was not woken");
            }
          }
        }
        k => {
          let (c, w) = count_waker();
          let mut cx = Cx::from_waker(&w);
          let r = if k == 3 { Pin::new(&mut kept).poll(&mut cx) } else { Pin::new(&mut h[i % 2].recv()).poll(&mut cx) };
          match r {
            Poll::Ready(s) => {
              ensure!(Some(s) == set, "wrong-signal", "op {i}: received {s:?}, set was {set:?}");
              ensure!(!delivered, "delivered-twice", "op {i}: {s:?} was delivered again");
              delivered = true;
              waiting = None;
            }
            Poll::Pending => {
              ensure!(set.is_none() || delivered, "not-delivered", "op {i}: waiting although the signal is {set:?}");
              waiting = Some(c);
            }
          }
        }
      }
      for s in &h {
        ensure!(s.is_cancelled() == (set == Some(Signal::Cancel)), "value", "op {i}: is_cancelled={} after {set:?}", s.is_cancelled());
        ensure!(s.is_timeout() == (set == Some(Signal::Timeout)), "value", "op {i}: is_timeout={} after {set:?}", s.is_timeout());
      }
      text.push(['-', 'c', 't', 'k', 'n'][op]);
    }
    Ok(text)
  }));
  v.push(scenario("concurrent-requests", tier.or(2, 3), move |ctx| {
    let third = ctx.flag("third");
    let kinds: Vec<usize> = (0..2 + third as usize).map(|_| ctx.pick("kind", 2)).collect();
    let release = ctx.flag("release-points");
    let sig = AstroRunSignal::new();
    let oks = shared(Vec::<(usize, bool)>::new());
    let seen = shared(Vec::<(bool, bool)>::new());
    let got = shared(None::<Signal>);
    let again = shared(false);
    let mut bodies: Vec<Body> = vec![];
    for (i, k) in kinds.iter().copied().enumerate() {
      let (sig, oks) = (sig.clone(), oks.clone());
      bodies.push(Box::new(move |_| {
        let ok = if k == 0 { sig.cancel() } else { sig.timeout() }.is_ok();
        oks.lock().unwrap().push((i, ok));
      }));
    }
    {
      let (sig, got, again) = (sig.clone(), got.clone(), again.clone());
      bodies.push(Box::new(move |me| {
        *got.lock().unwrap() = Some(me.block_on(sig.recv()));
        let (_, w) = count_waker();
        *again.lock().unwrap() = Pin::new(&mut sig.recv()).poll(&mut Cx::from_waker(&w)).is_ready();
      }));
    }
    {
      let (sig, seen) = (sig.clone(), seen.clone());
      // With a third request there is no observer: the executions would be too many.
      if !third {
        bodies.push(Box::new(move |me| {
        for _ in 0..2 {
          let c = sig.is_cancelled();
          let t = sig.is_timeout();
          seen.lock().unwrap().push((c, t));
          me.point();
        }
      }));
      }
    }
    let pre = ctl::run(ctx, release, bodies).map_err(|v| Violation {
      key: if v.key == "deadlock" { "lost-wakeup".into() } else { v.key },
      msg: format!("{} (a waiter was not woken)", v.msg),
    })?;
    let oks = oks.lock().unwrap().clone();
    let winners: Vec<usize> = oks.iter().filter(|x| x.1).map(|x| x.0).collect();
    ensure!(winners.len() == 1, "winners", "{} of {} requests succeeded", winners.len(), oks.len());
    let want = if kinds[winners[0]] == 0 { Signal::Cancel } else { Signal::Timeout };
    ensure!(*got.lock().unwrap() == Some(want), "wrong-signal", "request {want:?} succeeded, the waiter received {:?}", got.lock().unwrap());
    ensure!(!*again.lock().unwrap(), "delivered-twice", "the signal was delivered a second time");
    ensure!(sig.is_cancelled() == (want == Signal::Cancel) && sig.is_timeout() == (want == Signal::Timeout), "value", "the value does not match {want:?}");
    let seen = seen.lock().unwrap().clone();
    let mut was = false;
    for (c, t) in &seen {
      // is_cancelled and is_timeout were read one after the other.
      ensure!(!(*c && *t), "both", "reported cancelled and timed out");
      ensure!(!c || want == Signal::Cancel, "value", "reported cancelled, set was {want:?}");
      ensure!(!t || want == Signal::Timeout, "value", "reported timed out, set was {want:?}");
      ensure!(!was || *c || *t, "value-changed", "the value disappeared: {seen:?}");
      was |= *c || *t;
    }
    Ok(format!("{pre} {winners:?} {kinds:?} {seen:?}"))
  }));
  // A waiter that gives up and another that comes after it: the wake-up goes to the one that waits.
  v.push(scenario("waiter-replaced", tier.or(2, 4), move |ctx| {
    let kind = ctx.pick("kind", 2);
    let polls = 1 + ctx.pick("given-up-polls", 2);
    let release = ctx.flag("release-points");
    let sig = AstroRunSignal::new();
    let got = shared(Vec::<Signal>::new());
    let (s1, s2, g) = (sig.clone(), sig.clone(), got.clone());
    let bodies: Vec<Body> = vec![
      Box::new(move |_| {
        if kind == 0 { s1.cancel().ok() } else { s1.timeout().ok() };
      }),
      Box::new(move |me| {
        for _ in 0..polls {
          let (_, w) = count_waker();
          if let Poll::Ready(s) = Pin::new(&mut s2.recv()).poll(&mut Cx::from_waker(&w)) {
            g.lock().unwrap().push(s);
            return;
          }
        }
        let s = me.block_on(s2.recv());
        g.lock().unwrap().push(s);
      }),
    ];
    let pre = ctl::run(ctx, release, bodies).map_err(|v| Violation {
      key: if v.key == "deadlock" { "lost-wakeup".into() } else { v.key },
      msg: format!("{} (the waiter that came later was not woken)", v.msg),
    })?;
    let want = if kind == 0 { Signal::Cancel } else { Signal::Timeout };
    ensure!(*got.lock().unwrap() == [want], "wrong-signal", "received {:?}, set was {want:?}", got.lock().unwrap());
    Ok(format!("{pre} {want:?}"))
  }));
  v
}

const ASSUME: &[&str] = &[
  "Threads switch only at lock operations (and, in half of the executions, after releases): code between them works on thread-local data, the shared state being behind parking_lot locks.",
  "A signal or stream has one waiter at a time, as its interface intends (it keeps one waker).",
];

pub fn checks() -> Vec<Check> {
  vec![
    Check { id: "C08", level: "model_checking", rule: "All operation sequences to a depth against a reference queue; all interleavings of sender and consumer threads within a preemption bound; all line/pause patterns and schedules through a workflow run.", assumptions: ASSUME, scenarios: c08 },
    Check { id: "C09", level: "model_checking", rule: "All sequences of end requests to a depth; all interleavings of two to three ending threads and a consumer within a preemption bound; all pairs of results through a workflow run.", assumptions: ASSUME, scenarios: c09 },
    Check { id: "C10", level: "model_checking", rule: "All request/poll sequences to a depth; all interleavings of requesters, waiter and observers within a preemption bound.", assumptions: ASSUME, scenarios: c10 },
  ]
}

#[allow(dead_code)]
fn _unused(_: &Ctx) {}
