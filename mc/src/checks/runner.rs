//! C24–C28: the runner on the host and in docker, over simulated processes (crate::proc) and real files in scratch.
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Outcome, Scenario, Violation};
use crate::ensure;
use crate::proc::{Proc, Procs};
use crate::rt::{self, Opts, Select};
use astro_run::{
  stream, AstroRun, AstroRunSignal, Command, ContainerOptions, Context, EnvironmentVariable, Error, HookNoopResult, JobId, RunResult, Runner, Signal, StepId, StreamReceiver, TriggerEvent, Workflow,
  WorkflowId, WorkflowRunResult, WorkflowState,
};
use astro_runner::AstroRunner;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::result::Result;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- scratch

/// A directory of one execution, removed afterwards.
pub struct Scratch(pub PathBuf);

fn scratch_root() -> PathBuf {
  std::env::var("ASTRO_MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join(format!("astro-mc-{}", std::process::id())))
}

/// Removes what this process left in scratch.
pub fn cleanup() {
  std::fs::remove_dir_all(scratch_root()).ok();
}

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
  pub fn new() -> Scratch {
    let d = scratch_root().join(format!("x{:09}", NEXT.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch");
    Scratch(d)
  }
  /// Replaces the directory's name in messages.
  fn hide(&self, s: &str) -> String {
    s.replace(self.0.to_str().unwrap(), "@")
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    std::fs::remove_dir_all(&self.0).ok();
  }
}

// ---------------------------------------------------------------- steps

const HOST: &str = "host/linux";

#[derive(Clone, Default)]
struct Step {
  wf: String,
  job: String,
  n: usize,
  run: String,
  /// None: the default container.
  container: Option<ContainerOptions>,
  envs: Vec<(String, EnvironmentVariable)>,
  secrets: Vec<String>,
  event: Option<TriggerEvent>,
}

fn opts(name: &str) -> Option<ContainerOptions> {
  Some(ContainerOptions { name: name.to_string(), volumes: None, security_opts: None })
}

impl Step {
  fn host(run: &str) -> Step {
    Step { wf: "wf".into(), job: "job".into(), run: run.into(), container: opts(HOST), ..Default::default() }
  }
  fn docker(run: &str) -> Step {
    Step { container: opts("ubuntu"), ..Step::host(run) }
  }
  fn ctx(&self, signal: &AstroRunSignal) -> Context {
    let id = StepId::new(&*self.wf, &*self.job, self.n);
    Context {
      id: id.clone(),
      signal: signal.clone(),
      command: Command {
        id,
        name: None,
        container: self.container.clone(),
        run: self.run.clone(),
        continue_on_error: false,
        environments: self.envs.iter().cloned().collect(),
        secrets: self.secrets.clone(),
        timeout: Duration::from_secs(3600),
      },
      event: self.event.clone(),
      payload: None,
    }
  }
}

/// Everything one step reported, filled in while it runs.
#[derive(Clone, Default)]
struct Seen {
  logs: Arc<Mutex<Vec<(bool, String)>>>,
  result: Arc<Mutex<Option<RunResult>>>,
}

impl Seen {
  fn follow(&self, mut rx: StreamReceiver) -> tokio::task::JoinHandle<()> {
    let me = self.clone();
    tokio::spawn(async move {
      use tokio_stream::StreamExt;
      while let Some(l) = rx.next().await {
        me.logs.lock().unwrap().push((l.is_error(), l.message));
      }
      *me.result.lock().unwrap() = rx.result();
    })
  }
  fn of(&self, err: bool) -> Vec<String> {
    self.logs.lock().unwrap().iter().filter(|l| l.0 == err).map(|l| l.1.clone()).collect()
  }
  fn result(&self) -> Option<RunResult> {
    self.result.lock().unwrap().clone()
  }
}

/// Virtual time in which the runner settles.
async fn settle() {
  tokio::time::sleep(Duration::from_millis(2)).await;
}

/// The lines of what a process wrote: texts, or `None` where they are not text.
/// (A line may end in CR LF: whether that CR is reported is left open.)
fn lines(data: &[u8]) -> Vec<Option<String>> {
  let mut v: Vec<&[u8]> = data.split(|b| *b == b'\n').collect();
  if v.last().is_some_and(|l| l.is_empty()) {
    v.pop();
  }
  v.into_iter().map(|l| std::str::from_utf8(l).ok().map(|s| s.to_string())).collect()
}

fn same_lines(want: &[Option<String>], got: &[String]) -> bool {
  want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w.as_ref().is_none_or(|w| w == g || w.strip_suffix('\r') == Some(g)))
}

fn end_of(status: i32) -> RunResult {
  match status {
    0 => RunResult::Succeeded,
    s if s & 0x7f != 0 => RunResult::Failed { exit_code: 1 },
    s => RunResult::Failed { exit_code: s >> 8 },
  }
}

const YEAR_IS_HANG: &str = "nothing can go on any more";

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, PartialEq)]
enum Do {
  Write(usize, &'static [u8]),
  Close(usize),
}

const DOS: [Do; 9] = [
  Do::Write(0, b"a\n"),
  Do::Write(1, b"b\n"),
  Do::Write(0, b"c"),
  Do::Write(1, b"d"),
  Do::Close(0),
  Do::Close(1),
  Do::Write(0, b"e\n\nf\r\ng\r\r\n"),
  Do::Write(1, b"\n"),
  Do::Write(0, b"\xff\xfe\n"),
];

const ENDS: [i32; 9] = [0, 1 << 8, 77 << 8, 9, 255 << 8, 15, 123 << 8, 11 | 0x80, 127 << 8];

fn c24_outputs(ctx: &Ctx, tier: Tier, max: usize, kinds: usize, ends: usize, vias: usize, o: Opts) -> Outcome {
  rt::seed_hashing(1);
  let via = ctx.pick("via", vias);
  let n = ctx.pick("ops", max + 1);
  let ops: Vec<(Do, bool)> = (0..n).map(|_| (DOS[ctx.pick("op", kinds)], ctx.flag("settle"))).collect();
  let ends = if n == max && tier == Tier::Quick { ends.min(3) } else { ends };
  let end = ENDS[ctx.pick("end", ends)];
  outputs(ctx, via, ops, end, o)
}

fn outputs(ctx: &Ctx, via: usize, ops: Vec<(Do, bool)>, end: i32, o: Opts) -> Outcome {
  let scratch = Scratch::new();
  let procs = Procs::install(Box::new(|_| Ok(())));
  let seen = Seen::default();
  let (p2, s2, dir, ops2) = (procs.clone(), seen.clone(), scratch.0.clone(), ops.clone());
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      let p3 = p2.clone();
      let script = rt::spawn_prio(1, async move {
        let p = p3.nth(0).await;
        for (op, wait) in ops2 {
          match op {
            Do::Write(s, data) => p.write(s, data).await,
            Do::Close(s) => p.close(s),
          }
          if wait {
            settle().await;
          } else {
            rt::yield_once().await;
          }
        }
        p.end(end);
      });
      let rx = match via {
        0 => {
          let (tx, rx) = stream();
          tokio::spawn(async move { astro_runner::Command::new("x").run(tx).await.map_err(|e| e.to_string()) });
          rx
        }
        v => {
          let s = if v == 1 { Step::host("x") } else { Step::docker("x") };
          let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
          runner.run(s.ctx(&AstroRunSignal::new())).await.unwrap()
        }
      };
      let t = s2.follow(rx);
      t.await.unwrap();
      script.await.unwrap();
    },
    Duration::from_secs(1),
  );
  procs.finish();
  let mut text: [Vec<u8>; 2] = Default::default();
  let mut open = [true; 2];
  for (op, _) in &ops {
    match *op {
      Do::Write(s, d) if open[s] => text[s].extend_from_slice(d),
      Do::Close(s) => open[s] = false,
      _ => {}
    }
  }
  for (s, name) in ["stdout", "stderr"].iter().enumerate() {
    let want = lines(&text[s]);
    let got = seen.of(s == 1);
    if r.is_err() {
      return viol("hang", format!("{YEAR_IS_HANG}: {name} gave {got:?} of {want:?}, result {:?}, process ended: {}", seen.result(), procs.all().first().is_some_and(|p| p.exited())));
    }
    ensure!(same_lines(&want, &got), "lines-differ", "the command wrote {want:?} to {name}, reported was {got:?}");
  }
  ensure!(procs.all().len() == 1, "started-not-once", "{} processes were started", procs.all().len());
  ensure!(seen.result() == Some(end_of(end)), "result-differs", "the command ended with status {end:#x}, reported was {:?}", seen.result());
  Ok(format!("{:?} {:?}", seen.logs.lock().unwrap(), seen.result()))
}

fn c24(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("outputs", 0, move |ctx| c24_outputs(ctx, tier, tier.or(3, 4), tier.or(8, 9), ENDS.len(), 3, Opts { select: Select::PickOf(2), tasks: false, ..Default::default() })));
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| {
    c24_outputs(ctx, tier, 2, 6, 2, 1, Opts { select: Select::PerPoll, ..Default::default() })
  }));
  v.push(scenario("runner-schedules", 1, move |ctx| {
    let via = 1 + ctx.pick("via", 2);
    let n = ctx.pick("ops", tier.or(2, 3));
    let ops: Vec<(Do, bool)> = (0..n).map(|_| (DOS[ctx.pick("op", 6)], ctx.flag("settle"))).collect();
    rt::seed_hashing(1);
    outputs(ctx, via, ops, 3 << 8, Opts { select: Select::PerPoll, ..Default::default() })
  }));
  // A command may say nothing for a long time.
  v.push(scenario("silence", 0, move |ctx| {
    const HOUR: u64 = 3_600_000;
    rt::seed_hashing(1);
    let via = ctx.pick("via", 3);
    let silent: Vec<u64> = (0..2).map(|_| *ctx.of("silent-for", &[0, HOUR / 4, 25 * HOUR, 40 * 24 * HOUR])).collect();
    let close = ctx.pick("closed-streams", 3);
    let end = *ctx.of("status", &[0, 3 << 8]);
    let scratch = Scratch::new();
    let procs = Procs::install(Box::new(|_| Ok(())));
    let seen = Seen::default();
    let (p2, s2, dir, silent2) = (procs.clone(), seen.clone(), scratch.0.clone(), silent.clone());
    let r = rt::run(
      ctx,
      Opts { select: Select::First, tasks: false, os: true, ..Default::default() },
      async move {
        let p3 = p2.clone();
        rt::spawn_prio(1, async move {
          let p = p3.nth(0).await;
          for (i, ms) in silent2.iter().enumerate() {
            tokio::time::sleep(Duration::from_millis(*ms)).await;
            p.write(0, format!("out {i}\n").as_bytes()).await;
            p.write(1, format!("err {i}\n").as_bytes()).await;
            if i == 0 && close > 0 {
              p.close(close - 1);
            }
          }
          tokio::time::sleep(Duration::from_millis(silent2[0])).await;
          p.end(end);
        });
        let rx = match via {
          0 => {
            let (tx, rx) = stream();
            tokio::spawn(async move { astro_runner::Command::new("x").run(tx).await.map_err(|e| e.to_string()) });
            rx
          }
          v => {
            let s = if v == 1 { Step::host("x") } else { Step::docker("x") };
            let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
            runner.run(s.ctx(&AstroRunSignal::new())).await.unwrap()
          }
        };
        s2.follow(rx).await.unwrap();
      },
      Duration::from_secs(400 * 24 * 3600),
    );
    procs.finish();
    let what = format!("silent for {silent:?} ms, closed {close}");
    ensure!(r.is_ok(), "hang", "{what}: the step never ended");
    for s in 0..2 {
      let name = ["out", "err"][s];
      let want: Vec<String> = (0..if close == s + 1 { 1 } else { 2 }).map(|i| format!("{name} {i}")).collect();
      ensure!(seen.of(s == 1) == want, "lines-differ", "{what}: {name} gave {:?} instead of {want:?}", seen.of(s == 1));
    }
    ensure!(seen.result() == Some(end_of(end)), "result-differs", "{what}: {:?}", seen.result());
    Ok(format!("{what} {end}"))
  }));
  // Much output on both streams, in turns or one after the other, in chunks that do not end with lines.
  v.push(scenario("volume", 0, move |ctx| {
    rt::seed_hashing(1);
    let lines = *ctx.of("lines", &[1usize, 40, tier.or(700, 3000)]);
    let width = *ctx.of("width", &[0usize, 1, 79, 5000, 70_000, 300_000, 1_500_000]);
    let chunk = *ctx.of("chunk", &[3usize, 4096, 1 << 20]);
    let pattern = ctx.pick("pattern", 5);
    let select = Select::PickOf(2);
    let select_pick = Opts { select, tasks: false, os: true, ..Default::default() };
    if lines * width > 4_000_000 || (chunk == 3 && lines * width > 100_000) {
      return Ok("not explored".into());
    }
    let scratch = Scratch::new();
    let procs = Procs::install(Box::new(|_| Ok(())));
    let seen = Seen::default();
    let mut text: [Vec<u8>; 2] = Default::default();
    for i in 0..lines {
      for (s, t) in text.iter_mut().enumerate() {
        t.extend_from_slice(format!("{s}{i}").as_bytes());
        t.resize(t.len() + width, b'.');
        t.push(b'\n');
      }
    }
    match pattern {
      0 => text[1].clear(),
      1 => text[0].clear(),
      _ => {}
    }
    let (p2, s2, t2, dir) = (procs.clone(), seen.clone(), text.clone(), scratch.0.clone());
    let r = rt::run(
      ctx,
      select_pick,
      async move {
        let p3 = p2.clone();
        rt::spawn_prio(1, async move {
          let p = p3.nth(0).await;
          let order: [usize; 2] = if pattern == 4 { [1, 0] } else { [0, 1] };
          if pattern == 2 {
            let (mut a, mut b) = (t2[0].chunks(chunk), t2[1].chunks(chunk));
            loop {
              match (a.next(), b.next()) {
                (None, None) => break,
                (x, y) => {
                  p.write(0, x.unwrap_or_default()).await;
                  p.write(1, y.unwrap_or_default()).await;
                }
              }
            }
          } else {
            for s in order {
              for c in t2[s].chunks(chunk) {
                p.write(s, c).await;
              }
              p.close(s);
            }
          }
          p.exit(0);
        });
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let rx = runner.run(Step::host("x").ctx(&AstroRunSignal::new())).await.unwrap();
        s2.follow(rx).await.unwrap();
      },
      Duration::ZERO,
    );
    procs.finish();
    for (s, t) in text.iter().enumerate() {
      let (want, got) = (self::lines(t), seen.of(s == 1));
      ensure!(r.is_ok() && same_lines(&want, &got), "lines-differ", "stream {s}: {} lines of {width} bytes were written, {} reported", want.len(), got.len());
    }
    ensure!(seen.result() == Some(RunResult::Succeeded), "result-differs", "{:?}", seen.result());
    Ok(format!("{lines} {width} {pattern}"))
  }));
  // The environment of the command.
  v.push(scenario("environment", 0, move |ctx| {
    rt::seed_hashing(1 + ctx.pick("map-order", 2) as u8);
    let values: Vec<EnvironmentVariable> = {
      let mut v: Vec<EnvironmentVariable> =
        ["", "x", "a b", " lead", "trail ", "a=b", "'", "\"", "$HOME", "$(x)", "`x`", "\\", "\\n", "a\nb", "\n", "é", "日本", "\t", "*", "~", "!", "1", "true", "null", "%PATH%", "a;b", "{}", "\u{1}"].iter().map(|s| EnvironmentVariable::from(*s)).collect();
      v.extend([0.0, 1.0, -1.0, 1.5, 1e21, 1e-7, 123456789.0, 0.1, 9007199254740993.0].map(EnvironmentVariable::from));
      v.extend([true, false].map(EnvironmentVariable::from));
      v
    };
    let keys = ["A", "PATH", "_x1", "lower", "HOME", "A_B"];
    let n = 1 + ctx.pick("variables", tier.or(2, 3));
    let mut envs = BTreeMap::new();
    for i in 0..n {
      let k = keys[if i == 0 { ctx.pick("key", keys.len()) } else { i + 1 }];
      let val = ctx.of("value", if i < 2 { &values } else { &values[..12] }).clone();
      envs.insert(k.to_string(), val);
    }
    // Secrets say nothing about variables of the same name.
    let secrets: Vec<String> = if n == 1 && ctx.flag("secrets") { envs.keys().cloned().chain(["S".into()]).collect() } else { vec![] };
    let scratch = Scratch::new();
    let procs = Procs::install(Box::new(|_| Ok(())));
    let (p2, dir, e2) = (procs.clone(), scratch.0.clone(), envs.clone());
    let r = rt::run(
      ctx,
      Opts { os: true, tasks: false, ..Default::default() },
      async move {
        let p3 = p2.clone();
        rt::spawn_prio(1, async move { p3.nth(0).await.exit(0) });
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let s = Step { envs: e2.into_iter().collect(), secrets, ..Step::host("the command\nof this step") };
        let rx = runner.run(s.ctx(&AstroRunSignal::new())).await.unwrap();
        Seen::default().follow(rx).await.unwrap();
      },
      Duration::from_secs(1),
    );
    procs.finish();
    ensure!(r.is_ok() && procs.all().len() == 1, "not-run", "the command was not run: {envs:?}");
    let p = &procs.all()[0];
    ensure!(p.script() == b"the command\nof this step", "command-differs", "what was run: {}", p.line());
    let got: BTreeMap<String, Option<String>> = p.envs.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), v.as_ref().map(|v| String::from_utf8_lossy(v).into_owned()))).collect();
    let want: BTreeMap<String, Option<String>> = envs
      .iter()
      .map(|(k, v)| {
        let t = match v {
          EnvironmentVariable::String(s) => s.clone(),
          EnvironmentVariable::Number(n) => n.to_string(),
          EnvironmentVariable::Boolean(b) => b.to_string(),
        };
        (k.clone(), Some(t))
      })
      .collect();
    ensure!(got == want && p.envs.len() == want.len(), "environment-differs", "configured {want:?}, the command got {got:?}");
    Ok(format!("{want:?}"))
  }));
  // Commands of all kinds, together with values of all kinds: the shell gets them byte for byte.
  v.push(scenario("texts", 0, move |ctx| {
    rt::seed_hashing(1);
    let script = *ctx.of("script", &TRICKY);
    let value = *ctx.of("value", &TRICKY);
    let scratch = Scratch::new();
    let procs = Procs::install(Box::new(|_| Ok(())));
    let (p2, dir) = (procs.clone(), scratch.0.clone());
    let r = rt::run(
      ctx,
      Opts { os: true, tasks: false, ..Default::default() },
      async move {
        let p3 = p2.clone();
        rt::spawn_prio(1, async move { p3.nth(0).await.exit(0) });
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let s = Step { envs: vec![("V".into(), value.into())], ..Step::host(script) };
        let rx = runner.run(s.ctx(&AstroRunSignal::new())).await.unwrap();
        Seen::default().follow(rx).await.unwrap();
      },
      Duration::from_secs(1),
    );
    procs.finish();
    ensure!(r.is_ok() && procs.all().len() == 1, "not-run", "the command was not run: {script:?}");
    let p = &procs.all()[0];
    ensure!(p.script() == script.as_bytes(), "command-differs", "of {script:?} was run: {}", p.line());
    let got: Vec<(&[u8], Option<&[u8]>)> = p.envs.iter().map(|(k, v)| (&k[..], v.as_deref())).collect();
    ensure!(got == [(&b"V"[..], Some(value.as_bytes()))], "environment-differs", "configured is V={value:?}, the command got {:?}", p.envs);
    Ok(format!("{script:?} {value:?}"))
  }));
  // Real processes: the same as when the shell is run directly.
  v.push(scenario("real", 0, move |ctx| {
    const SNIPPETS: [&str; 16] = [
      "echo a", "echo b >&2", "printf c", "printf d >&2", "exec 1>&-", "exec 2>&-", "exit 0", "exit 7", "kill -9 $$", "kill -TERM $$", "i=0; while [ $i -lt 800 ]; do echo $i; echo e$i >&2; i=$((i+1)); done",
      "echo \"$A|$B\"", "no_such_command", "set -e; false", "exec >&2", "printf '\\377\\n'",
    ];
    let n = 1 + ctx.pick("snippets", tier.or(2, 3));
    let text = (0..n).map(|_| *ctx.of("snippet", &SNIPPETS)).collect::<Vec<_>>().join("\n");
    let envs = [("A", "x  y"), ("B", "\"$A\"\n'")];
    let want = std::process::Command::new("sh").arg("-c").arg(&text).envs(envs).stdin(std::process::Stdio::null()).output().expect("sh");
    use std::os::unix::process::ExitStatusExt;
    let status = want.status.into_raw();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let seen = Seen::default();
    let r = rt.block_on(async {
      let (tx, rx) = stream();
      let mut cmd = astro_runner::Command::new(&text);
      for (k, v) in envs {
        cmd.env(k, v);
      }
      let t = tokio::spawn(async move { cmd.run(tx).await.map_err(|e| e.to_string()) });
      let f = seen.follow(rx);
      tokio::time::timeout(Duration::from_secs(30), async { (t.await, f.await) }).await
    });
    ensure!(r.is_ok(), "hang", "did not end: {text:?}, so far {:?}", seen.logs.lock().unwrap().len());
    for (err, data) in [(false, &want.stdout), (true, &want.stderr)] {
      let (w, g) = (lines(data), seen.of(err));
      ensure!(same_lines(&w, &g), "lines-differ", "`{text}` writes {} lines to {}: {w:.300?}, reported were {}: {g:.300?}", w.len(), if err { "stderr" } else { "stdout" }, g.len());
    }
    ensure!(seen.result() == Some(end_of(status)), "result-differs", "`{text}` ends with {status:#x}, reported was {:?}", seen.result());
    Ok(format!("{status:#x} {} {}", want.stdout.len(), want.stderr.len()))
  }));
  v
}


// ---------------------------------------------------------------- C25

#[derive(Clone, Copy, PartialEq, Debug)]
enum When {
  /// Before the runner is given the step.
  Before,
  /// In a before-run hook.
  Hook,
  /// Right after the runner has been given the step.
  Given,
  /// While the command runs, after so many lines.
  Running(usize),
  /// The command has just exited, the runner may not know yet.
  Exiting,
  /// The runner has reported the end.
  Over,
}

const WHENS: [When; 8] = [When::Running(0), When::Before, When::Hook, When::Given, When::Running(1), When::Running(2), When::Exiting, When::Over];

fn set(signal: &AstroRunSignal, s: Signal) {
  match s {
    Signal::Cancel => signal.cancel().ok(),
    Signal::Timeout => signal.timeout().ok(),
  };
}

struct SetIn(Option<Signal>);
#[astro_run::async_trait]
impl astro_runner::Plugin for SetIn {
  fn name(&self) -> &'static str {
    "set-in"
  }
  async fn on_before_run(&self, ctx: Context) -> astro_run::Result<Context> {
    if let Some(s) = self.0 {
      set(&ctx.signal, s);
    }
    Ok(ctx)
  }
}

/// The name given to docker, if this is a `docker run`.
fn text_of(p: &Proc) -> String {
  let mut v = vec![String::from_utf8_lossy(&p.program).into_owned()];
  v.extend(p.args.iter().map(|a| String::from_utf8_lossy(a).into_owned()));
  v.join(" ")
}

pub fn is_docker(p: &Proc, what: &str) -> bool {
  let t = text_of(p);
  let words: Vec<&str> = t.split_whitespace().collect();
  words.iter().position(|w| *w == "docker").is_some_and(|i| words.get(i + 1) == Some(&what))
}

/// Whether the command goes on: a killed docker client does not end its container.
pub fn goes_on(p: &Proc) -> bool {
  if is_docker(p, "run") {
    !p.stopped()
  } else {
    !p.exited()
  }
}

pub fn named(p: &Proc) -> Option<String> {
  let t = text_of(p);
  let mut words = t.split_whitespace();
  while let Some(w) = words.next() {
    if let Some(n) = w.strip_prefix("--name=") {
      return Some(n.trim_matches(['"', '\'']).to_string());
    }
    if w == "--name" {
      return words.next().map(|n| n.trim_matches(['"', '\'']).to_string());
    }
  }
  None
}

/// Answers `docker kill`: the container's process ends (or not).
pub fn docker_daemon(procs: Arc<Procs>, works: bool, late: bool, skip: usize) {
  rt::spawn_prio(1, async move {
    for n in skip.. {
      let p = procs.nth(n).await;
      if !is_docker(&p, "kill") {
        continue;
      }
      if late {
        settle().await;
      }
      let t = text_of(&p);
      let victim = procs.all().into_iter().find(|q| is_docker(q, "run") && goes_on(q) && named(q).is_some_and(|n| t.split_whitespace().any(|w| w.trim_matches(['"', '\'']) == n)));
      match victim {
        Some(v) if works => {
          v.exit(137);
          p.write(0, b"name\n").await;
          p.exit(0);
        }
        _ => {
          p.write(1, b"Error response from daemon\n").await;
          p.exit(1);
        }
      }
    }
  });
}

fn c25_step(ctx: &Ctx, docker: bool, o: Opts, small: bool) -> Outcome {
  rt::seed_hashing(1);
  let when = *ctx.of("when", &WHENS);
  let signal = *ctx.of("signal", &[Signal::Cancel, Signal::Timeout]);
  let code = if matches!(when, When::Exiting | When::Over) { *ctx.of("code", &[0, 3]) } else { 0 };
  let works = !docker || !ctx.flag("kill-fails");
  let late = docker && !small && ctx.flag("kill-late");
  let closed = if small { 0 } else { ctx.pick("closed-streams", 4) };
  let scratch = Scratch::new();
  let procs = Procs::install(Box::new(|_| Ok(())));
  let seen = Seen::default();
  let sig = AstroRunSignal::new();
  let at = Arc::new(Mutex::new(None));
  let (p2, s2, dir, sig2, at2) = (procs.clone(), seen.clone(), scratch.0.clone(), sig.clone(), at.clone());
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      let t0 = tokio::time::Instant::now();
      let (p3, s3, at3) = (p2.clone(), sig2.clone(), at2.clone());
      let fire = move || {
        *at3.lock().unwrap() = Some(t0.elapsed());
        set(&s3, signal)
      };
      docker_daemon(p2.clone(), works, late, 1);
      let f2 = fire.clone();
      rt::spawn_prio(1, async move {
        let p = p3.nth(0).await;
        for s in 0..2 {
          if closed & (1 << s) != 0 {
            p.close(s);
          }
        }
        let fire = f2;
        settle().await;
        for n in 0..3 {
          if when == When::Running(n) {
            fire();
            // The command takes no notice.
            p.ended().await;
            return;
          }
          p.write(0, format!("line {n}\n").as_bytes()).await;
          settle().await;
        }
        if matches!(when, When::Exiting | When::Over) {
          p.exit(code);
        }
        match when {
          When::Exiting => fire(),
          When::Over => {
            settle().await;
            fire()
          }
          _ => p.ended().await,
        }
      });
      if when == When::Before {
        fire();
      }
      let runner = AstroRunner::builder().working_directory(dir).plugin(SetIn((when == When::Hook).then_some(signal))).build().unwrap();
      let s = if docker { Step::docker("x") } else { Step::host("x") };
      let rx = runner.run(s.ctx(&sig2)).await.unwrap();
      if when == When::Given {
        fire();
      }
      if when == When::Hook {
        *at2.lock().unwrap() = Some(t0.elapsed());
      }
      s2.follow(rx).await.unwrap();
      let then: Vec<String> = p2.all().iter().filter(|p| goes_on(p)).map(|p| p.line()).collect();
      (t0.elapsed(), then)
    },
    Duration::from_secs(1),
  );
  let left: Vec<String> = procs.all().iter().filter(|p| goes_on(p)).map(|p| p.line()).collect();
  let started = procs.all().len();
  let kills = procs.all().iter().filter(|p| is_docker(p, "kill")).count();
  procs.finish();
  let what = format!("{signal:?} {when:?}");
  let Ok((end, then)) = r else { return viol("step-left-open", format!("{what}: the step never ended")) };
  let told = match signal {
    Signal::Cancel => RunResult::Cancelled,
    Signal::Timeout => RunResult::Failed { exit_code: 123 },
  };
  let own = end_of(code << 8);
  let got = seen.result();
  let fine = match when {
    When::Over => got == Some(own),
    When::Exiting => got == Some(own) || got == Some(told),
    _ => got == Some(told),
  };
  ensure!(fine, "result-differs", "{what}: the step ended as {got:?}");
  if let (Some(a), false) = (*at.lock().unwrap(), when == When::Over) {
    ensure!(end <= a + Duration::from_secs(1), "step-left-open", "{what}: the step ended {:?} after the signal", end - a);
  }
  // What the command had written before is reported.
  if let When::Running(n) = when {
    let want: Vec<String> = if closed & 1 != 0 { vec![] } else { (0..n).map(|i| format!("line {i}")).collect() };
    ensure!(seen.of(false) == want, "lines-differ", "{what}: reported {:?} instead of {want:?}", seen.of(false));
  }
  if docker && started > 0 && !matches!(when, When::Exiting | When::Over) {
    ensure!(kills >= 1, "not-killed", "{what}: the container was not killed");
  }
  ensure!(left.is_empty() || (docker && !works), "left-running", "{what}: still running: {left:?}");
  ensure!(then.is_empty() || (docker && !works), "still-running", "{what}: when the step ended there was still running: {then:?}");
  Ok(format!("{what} {got:?} {started} {kills}"))
}

/// The same through whole workflows.
fn c25_workflow(ctx: &Ctx, o: Opts) -> Outcome {
  rt::seed_hashing(1);
  let docker = ctx.flag("docker");
  let at = *ctx.of("cancel-at", &[None, Some(0u64), Some(1), Some(5), Some(15), Some(25), Some(45)]);
  // How long each of the two steps takes; the first times out after 1 s.
  let long = ctx.pick("long", 3);
  let durs: [u64; 2] = match long {
    0 => [10, 20],
    1 => [3000, 20],
    _ => [10, 3000],
  };
  let coe = ctx.flag("continue-on-error");
  let container = if docker { "ubuntu" } else { HOST };
  let yaml = format!("jobs:\n  j:\n    steps:\n      - container: {container}\n        run: first\n        timeout: 1s\n      - container: {container}\n        run: second\n        timeout: 10s\n        continue-on-error: {coe}\n");
  let scratch = Scratch::new();
  let procs = Procs::install(Box::new(|_| Ok(())));
  let accepted = Arc::new(Mutex::new(None));
  let (p2, dir, ac2) = (procs.clone(), scratch.0.clone(), accepted.clone());
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      let p3 = p2.clone();
      docker_daemon(p2.clone(), true, false, 0);
      rt::spawn_prio(1, async move {
        let mut k = 0;
        for n in 0.. {
          let p = p3.nth(n).await;
          if is_docker(&p, "kill") {
            continue;
          }
          // The first run command is the first step's unless that never started.
          let first = if docker { !named(&p).is_some_and(|x| x.ends_with('1')) } else { p.script() == b"first" };
          let d = durs[if first { 0 } else { 1 }];
          k += 1;
          let _ = k;
          rt::spawn_prio(1, async move {
            tokio::time::sleep(Duration::from_millis(d)).await;
            if !p.exited() {
              p.exit(0);
            }
          });
        }
      });
      let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
      let astro = AstroRun::builder().runner(runner).build();
      let wf = Workflow::builder().id("wf").config(yaml).build(&astro).await.unwrap();
      let a2 = astro.clone();
      if let Some(at) = at {
        rt::spawn_prio(2, async move {
          tokio::time::sleep(Duration::from_millis(at)).await;
          if a2.cancel_job(&JobId::new("wf", "j")).is_ok() {
            *ac2.lock().unwrap() = Some(at);
          }
        });
      }
      let c = astro.execution_context().build();
      wf.run(c).await
    },
    Duration::from_secs(60),
  );
  let left: Vec<String> = procs.all().iter().filter(|p| goes_on(p)).map(|p| p.line()).collect();
  procs.finish();
  let what = format!("cancel at {at:?}, steps take {durs:?}");
  let Ok(r) = r else { return viol("step-left-open", format!("{what}: the workflow never ended")) };
  let steps: Vec<_> = r.jobs["j"].steps.iter().map(|s| (s.state.clone(), s.exit_code)).collect();
  let t1 = durs[0] > 1000;
  let end1 = durs[0].min(1000);
  let at = *accepted.lock().unwrap();
  let cancelled_in = match at {
    None => None,
    Some(a) if a < end1 => Some(0),
    Some(a) if (!t1 || coe) && a < end1 + durs[1] => Some(1),
    _ => None,
  };
  let ok = (WorkflowState::Succeeded, Some(0));
  use WorkflowState as W;
  let first = match cancelled_in {
    Some(0) => vec![W::Cancelled],
    _ if t1 => vec![W::Failed],
    _ => vec![W::Succeeded],
  };
  let second = match cancelled_in {
    Some(0) => vec![W::Cancelled, W::Skipped],
    Some(_) => vec![W::Cancelled],
    None if t1 && !coe => vec![W::Skipped],
    None => vec![W::Succeeded],
  };
  let _ = ok;
  ensure!(steps.len() == 2 && first.contains(&steps[0].0) && second.contains(&steps[1].0), "result-differs", "{what}: steps ended as {steps:?}, expected {first:?} and {second:?}");
  if steps[0].0 == W::Failed {
    ensure!(steps[0].1 == Some(123), "result-differs", "{what}: a step that timed out ended as {steps:?}");
  }
  ensure!(left.is_empty(), "left-running", "{what}: still running: {left:?}");
  Ok(format!("{what} {steps:?}"))
}

/// The signal arrives while docker is starting the container: `docker kill` finds none yet.
fn c25_starting(ctx: &Ctx, o: Opts) -> Outcome {
  rt::seed_hashing(1);
  #[derive(Clone, Copy, PartialEq, Debug)]
  enum Phase {
    /// The client has not asked the daemon for the container.
    Connecting,
    /// The daemon is starting it, whatever becomes of the client.
    Starting,
    Running,
    Gone,
  }
  let at = *ctx.of("phase", &[Phase::Connecting, Phase::Starting, Phase::Running]);
  let signal = *ctx.of("signal", &[Signal::Cancel, Signal::Timeout]);
  // How long the container takes to start, and docker kill to answer.
  let start = *ctx.of("start-ms", &[5u64, 40, 400]);
  let answer = *ctx.of("answer-ms", &[0u64, 20]);
  let scratch = Scratch::new();
  let procs = Procs::install(Box::new(|_| Ok(())));
  let seen = Seen::default();
  let sig = AstroRunSignal::new();
  let phase = Arc::new(Mutex::new(Phase::Connecting));
  let (p2, s2, dir, sig2, ph2) = (procs.clone(), seen.clone(), scratch.0.clone(), sig.clone(), phase.clone());
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      let (p3, ph3, s3) = (p2.clone(), ph2.clone(), sig2.clone());
      // The daemon and the client that asks it for the container.
      rt::spawn_prio(1, async move {
        let p = p3.nth(0).await;
        if at == Phase::Connecting {
          set(&s3, signal);
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
        if p.exited() {
          *ph3.lock().unwrap() = Phase::Gone;
          return;
        }
        *ph3.lock().unwrap() = Phase::Starting;
        if at == Phase::Starting {
          set(&s3, signal);
        }
        tokio::time::sleep(Duration::from_millis(start)).await;
        *ph3.lock().unwrap() = Phase::Running;
        if at == Phase::Running {
          set(&s3, signal);
        }
      });
      let (p3, ph3) = (p2.clone(), ph2.clone());
      rt::spawn_prio(1, async move {
        for n in 1.. {
          let p = p3.nth(n).await;
          if answer > 0 {
            tokio::time::sleep(Duration::from_millis(answer)).await;
          }
          let running = *ph3.lock().unwrap() == Phase::Running;
          if running && (is_docker(&p, "kill") || is_docker(&p, "rm") || is_docker(&p, "stop")) {
            *ph3.lock().unwrap() = Phase::Gone;
            p3.all()[0].exit(137);
            p.exit(0);
          } else {
            p.write(1, b"Error response from daemon: No such container\n").await;
            p.exit(1);
          }
        }
      });
      let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
      let rx = runner.run(Step::docker("x").ctx(&sig2)).await.unwrap();
      s2.follow(rx).await.unwrap();
      tokio::time::sleep(Duration::from_secs(5)).await;
    },
    Duration::from_secs(1),
  );
  procs.finish();
  let left = *phase.lock().unwrap() != Phase::Gone;
  let what = format!("{signal:?} while the container is {at:?} ({start} ms, docker kill answers after {answer} ms)");
  ensure!(r.is_ok(), "step-left-open", "{what}: the step never ended");
  let told = match signal {
    Signal::Cancel => RunResult::Cancelled,
    Signal::Timeout => RunResult::Failed { exit_code: 123 },
  };
  ensure!(seen.result() == Some(told), "result-differs", "{what}: the step ended as {:?}", seen.result());
  ensure!(!left || at == Phase::Starting || (at == Phase::Connecting && answer > 2), "left-running", "{what}: the container goes on running");
  ensure!(!left, "container-left", "{what}: docker kill finds no container yet, the client is killed, and the container starts and goes on running");
  Ok(what)
}

/// Real commands: what the shell is and starts, and the signals it ignores.
const SHAPES: [(&str, bool); 8] = [
  ("echo $$ > $P/pid-shell; exec sleep 60", false),
  ("trap '' HUP INT TERM; mkfifo f; echo $$ > $P/pid-shell; read x < f", false),
  ("echo $$ > $P/pid-shell; exec >&- 2>&-; mkfifo f; read x < f", false),
  ("set -e; echo a; echo b >&2; mkfifo f; echo $$ > $P/pid-shell; read x < f; exit 0", false),
  // The shell has children.
  ("echo $$ > $P/pid-shell; sh -c 'echo $$ > $P/pid-child; exec sleep 60'; echo after", true),
  ("echo $$ > $P/pid-shell; sh -c 'echo $$ > $P/pid-child; exec sleep 60' & wait", true),
  ("echo $$ > $P/pid-shell; sh -c 'echo $$ > $P/pid-child; exec sleep 60' | cat", true),
  ("sh -c 'echo $$ > $P/pid-child; exec sleep 60' & echo $$ > $P/pid-shell; exec sleep 60", true),
];

fn alive(pid: i32) -> bool {
  // A process that nobody has waited for yet is no longer running.
  let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
  stat.rsplit(')').next().and_then(|s| s.split_whitespace().next()).is_some_and(|s| s != "Z" && s != "X")
}

fn c25_real(ctx: &Ctx) -> Outcome {
  let (script, children) = SHAPES[ctx.pick("command", SHAPES.len())];
  let signal = *ctx.of("signal", &[Signal::Cancel, Signal::Timeout]);
  let scratch = Scratch::new();
  let pids = scratch.0.join("pids");
  std::fs::create_dir(&pids).unwrap();
  let pid = |who: &str| std::fs::read_to_string(pids.join(format!("pid-{who}"))).ok().filter(|s| s.ends_with('\n')).and_then(|s| s.trim().parse::<i32>().ok());
  let seen = Seen::default();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let dir = scratch.0.join("runner");
  let r = rt.block_on(async {
    let sig = AstroRunSignal::new();
    let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
    let mut s = Step::host(script);
    s.envs = vec![("P".into(), pids.to_str().unwrap().into())];
    let rx = runner.run(s.ctx(&sig)).await.unwrap();
    let started = async {
      while pid("shell").is_none() || (children && pid("child").is_none()) {
        tokio::time::sleep(Duration::from_millis(2)).await;
      }
    };
    let started = tokio::time::timeout(Duration::from_secs(20), started).await.is_ok();
    set(&sig, signal);
    let ended = tokio::time::timeout(Duration::from_secs(20), seen.follow(rx)).await.is_ok();
    // What has been killed takes a moment to be gone.
    for _ in 0..1000 {
      if !pid("shell").is_some_and(alive) {
        break;
      }
      tokio::time::sleep(Duration::from_millis(2)).await;
    }
    (started, ended)
  });
  drop(rt);
  let shell_left = pid("shell").is_some_and(alive);
  let child_left = pid("child").is_some_and(alive);
  // Nothing stays behind in the sandbox.
  for p in [pid("shell"), pid("child")].into_iter().flatten() {
    if alive(p) {
      unsafe { libc::kill(p, libc::SIGKILL) };
    }
  }
  ensure!(r.0, "not-started", "`{script}` was not started");
  ensure!(r.1, "step-left-open", "`{script}`: the step was still open 20 s after the signal");
  let told = match signal {
    Signal::Cancel => RunResult::Cancelled,
    Signal::Timeout => RunResult::Failed { exit_code: 123 },
  };
  ensure!(seen.result() == Some(told), "result-differs", "`{script}`, {signal:?}: the step ended as {:?}", seen.result());
  ensure!(!shell_left, "left-running", "`{script}`, {signal:?}: the command keeps running");
  ensure!(!child_left, "children-left", "`{script}`, {signal:?}: a process that the command had started keeps running");
  Ok(format!("{signal:?} {children}"))
}

fn c25(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  for (kind, docker) in [("host", false), ("docker", true)] {
    v.push(scenario(kind, 0, move |ctx| c25_step(ctx, docker, Opts { select: Select::PickOf(2), tasks: false, ..Default::default() }, false)));
    v.push(scenario(format!("{kind}-schedules"), tier.or(2, 3), move |ctx| c25_step(ctx, docker, Opts { select: Select::PerPoll, ..Default::default() }, true)));
  }
  v.push(scenario("workflows", 0, move |ctx| c25_workflow(ctx, Opts { select: Select::PickOne, tasks: false, ..Default::default() })));
  v.push(scenario("workflow-schedules", 1, move |ctx| c25_workflow(ctx, Opts { select: Select::First, ..Default::default() })));
  v.push(scenario("starting", tier.or(1, 2), |ctx| c25_starting(ctx, Opts { select: Select::PickOf(2), ..Default::default() })));
  v.push(scenario("real", 0, c25_real));
  v
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, PartialEq)]
enum Hook {
  Before(usize, String),
  After(usize, String, bool),
}

struct Wrap {
  n: usize,
  /// 0: passes the context on, 1: changes it, 2: fails, 3: fails after a while.
  before: usize,
  after_fails: bool,
  slow: bool,
  seen: Arc<Mutex<Vec<Hook>>>,
  rx: Arc<Mutex<BTreeMap<String, StreamReceiver>>>,
}

#[astro_run::async_trait]
impl astro_runner::Plugin for Wrap {
  fn name(&self) -> &'static str {
    "wrap"
  }
  async fn on_before_run(&self, mut ctx: Context) -> astro_run::Result<Context> {
    if self.slow {
      tokio::time::sleep(Duration::from_millis(3)).await;
    }
    self.seen.lock().unwrap().push(Hook::Before(self.n, ctx.command.run.clone()));
    match self.before {
      0 => Ok(ctx),
      1 => {
        ctx.command.run += &format!("+{}", self.n);
        Ok(ctx)
      }
      _ => Err(Error::error("no")),
    }
  }
  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    if self.slow {
      tokio::time::sleep(Duration::from_millis(3)).await;
    }
    let over = self.rx.lock().unwrap().get(&ctx.command.id.to_string()).is_some_and(|r| r.result().is_some());
    self.seen.lock().unwrap().push(Hook::After(self.n, ctx.command.run.clone(), over));
    if self.after_fails {
      return Err(Error::error("no"));
    }
    Ok(())
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
  Exit(i32),
  Killed,
  NoStart,
  NoDirectory,
  SignalBefore,
  SignalWhile,
  SignalAtEnd,
  SignalAfter,
}

const FATES: [Fate; 9] = [Fate::Exit(0), Fate::Exit(5), Fate::Killed, Fate::NoStart, Fate::NoDirectory, Fate::SignalBefore, Fate::SignalWhile, Fate::SignalAtEnd, Fate::SignalAfter];

fn c26_run(ctx: &Ctx, max: usize, steps: usize, o: Opts, few: bool) -> Outcome {
  rt::seed_hashing(1);
  let n = ctx.pick("plugins", max + 1);
  let kinds: Vec<(usize, bool)> = (0..n).map(|_| if few { *ctx.of("plugin", &[(1, false), (2, true)]) } else { (ctx.pick("before", 3), ctx.flag("after-fails")) }).collect();
  let slow = !few && n > 0 && ctx.flag("slow");
  let docker: Vec<bool> = (0..steps).map(|_| ctx.flag("docker")).collect();
  let fates: Vec<Fate> = (0..steps).map(|i| if i == 0 { *ctx.of("fate", &FATES) } else { *ctx.of("fate", &[FATES[0], FATES[6]]) }).collect();
  let signal = *ctx.of("signal", if few { &[Signal::Cancel] } else { &[Signal::Cancel, Signal::Timeout][..] });
  let scratch = Scratch::new();
  // Working directories: a file stands where the last step's directory should be created.
  let f2 = fates.clone();
  let d2 = docker.clone();
  let procs = Procs::install(Box::new(move |p| {
    let t = text_of(p);
    for (i, f) in f2.iter().enumerate() {
      let mine = if d2[i] { named(p) == Some(format!("wf-job{i}-0")) && is_docker(p, "run") } else { t.contains(&format!("run{i}")) };
      if mine && *f == Fate::NoStart {
        return Err(std::io::Error::from_raw_os_error(libc::EAGAIN));
      }
    }
    Ok(())
  }));
  for (i, f) in fates.iter().enumerate() {
    if *f == Fate::NoDirectory {
      std::fs::create_dir_all(scratch.0.join("wf")).unwrap();
      std::fs::write(scratch.0.join(format!("wf/job{i}")), "").unwrap();
    }
  }
  let hooks = Arc::new(Mutex::new(vec![]));
  let rx: Arc<Mutex<BTreeMap<String, StreamReceiver>>> = Default::default();
  let results: Arc<Mutex<BTreeMap<usize, Option<RunResult>>>> = Default::default();
  let (p2, dir, h2, k2, fates2, docker2) = (procs.clone(), scratch.0.clone(), hooks.clone(), kinds.clone(), fates.clone(), docker.clone());
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      docker_daemon(p2.clone(), true, false, 0);
      let mut b = AstroRunner::builder().working_directory(dir);
      for (i, k) in k2.iter().enumerate() {
        b = b.plugin(Wrap { n: i, before: k.0, after_fails: k.1, slow, seen: h2.clone(), rx: rx.clone() });
      }
      let runner = b.build().unwrap();
      let mut all = vec![];
      for (i, f) in fates2.iter().copied().enumerate() {
        let sig = AstroRunSignal::new();
        if f == Fate::SignalBefore {
          set(&sig, signal);
        }
        let mut s = if docker2[i] { Step::docker("") } else { Step::host("") };
        s.job = format!("job{i}");
        s.run = format!("run{i}");
        let (p3, sig3, is_docker_step) = (p2.clone(), sig.clone(), docker2[i]);
        rt::spawn_prio(1, async move {
          for n in 0.. {
            let p = p3.nth(n).await;
            let mine = if is_docker_step { is_docker(&p, "run") && named(&p) == Some(format!("wf-job{i}-0")) } else { text_of(&p).contains(&format!("run{i}")) };
            if !mine {
              continue;
            }
            settle().await;
            match f {
              Fate::Exit(c) => p.exit(c),
              Fate::Killed => p.end(9),
              Fate::SignalWhile => set(&sig3, signal),
              Fate::SignalAtEnd => {
                p.exit(0);
                set(&sig3, signal)
              }
              Fate::SignalAfter => {
                p.exit(0);
                settle().await;
                set(&sig3, signal)
              }
              _ => {}
            }
          }
        });
        let (runner, rx) = (runner.clone(), rx.clone());
        let results = results.clone();
        all.push(tokio::spawn(async move {
          let ctx = s.ctx(&sig);
          let key = ctx.command.id.to_string();
          let r = runner.run(ctx).await.unwrap();
          rx.lock().unwrap().insert(key.clone(), r);
          // The receiver stays where the hooks can ask it.
          loop {
            let next = std::future::poll_fn(|cx| {
              let mut g = rx.lock().unwrap();
              tokio_stream::Stream::poll_next(std::pin::Pin::new(g.get_mut(&key).unwrap()), cx)
            })
            .await;
            if next.is_none() {
              break;
            }
          }
          let res = rx.lock().unwrap().get(&key).unwrap().result();
          results.lock().unwrap().insert(i, res.clone());
          res
        }));
      }
      let mut v = vec![];
      for t in all {
        v.push(t.await.unwrap());
      }
      v
    },
    Duration::from_secs(5),
  );
  let started: Vec<(bool, Vec<u8>)> = procs.all().iter().filter(|p| !is_docker(p, "kill")).map(|p| (is_docker(p, "run"), p.script())).collect();
  procs.finish();
  let hooks = hooks.lock().unwrap().clone();
  let what = format!("plugins {kinds:?}, steps {:?}", fates.iter().zip(&docker).collect::<Vec<_>>());
  let Ok(r) = r else { return viol("hang", format!("{what}: a step never ended; hooks called: {hooks:?}")) };
  for i in 0..steps {
    // Calls for this step, in order.
    let mine: Vec<&Hook> = hooks
      .iter()
      .filter(|h| match h {
        Hook::Before(_, r) | Hook::After(_, r, _) => r.starts_with(&format!("run{i}")),
      })
      .collect();
    let mut want = vec![];
    let mut run = format!("run{i}");
    for (k, p) in kinds.iter().enumerate() {
      want.push(Hook::Before(k, run.clone()));
      if p.0 == 1 {
        run += &format!("+{k}");
      }
    }
    let before: Vec<Hook> = mine.iter().filter(|h| matches!(h, Hook::Before(..))).map(|h| (*h).clone()).collect();
    ensure!(before == want, "before-hooks-differ", "{what}: step {i}: {before:?} instead of {want:?}");
    let after: Vec<Hook> = mine.iter().filter(|h| matches!(h, Hook::After(..))).map(|h| (*h).clone()).collect();
    let mut ids: Vec<usize> = after.iter().map(|h| if let Hook::After(k, ..) = h { *k } else { 0 }).collect();
    ids.sort();
    ensure!(ids == (0..n).collect::<Vec<_>>(), "after-hooks-not-once", "{what}: step {i} ended as {:?}, after-run hooks called: {after:?}", r[i]);
    for h in &after {
      let Hook::After(k, got, over) = h else { continue };
      ensure!(*got == run, "after-hook-context", "{what}: step {i}: plugin {k} was given {got:?} instead of {run:?}");
      ensure!(*over, "after-hook-early", "{what}: step {i}: plugin {k} was called before the end");
    }
    // What executed is the chain's output.
    if !docker[i] {
      for (_, script) in started.iter().filter(|s| !s.0) {
        let t = String::from_utf8_lossy(script).into_owned();
        ensure!(!t.starts_with(&format!("run{i}")) || t == run, "executed-differs", "{what}: step {i} executed {t:?} instead of {run:?}");
      }
    }
    if matches!(fates[i], Fate::Exit(_)) {
      ensure!(r[i] == Some(end_of(if let Fate::Exit(c) = fates[i] { c << 8 } else { 0 })), "result-differs", "{what}: step {i} ended as {:?}", r[i]);
    }
    ensure!(r[i].is_some(), "result-differs", "{what}: step {i} ended without a result");
  }
  Ok(format!("{what} {r:?}"))
}

fn c26(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("plugins", 0, move |ctx| c26_run(ctx, tier.or(2, 3), 1, Opts { select: Select::PickOf(2), tasks: false, ..Default::default() }, false)));
  v.push(scenario("two-steps", 0, move |ctx| c26_run(ctx, tier.or(2, 3), 2, Opts { select: Select::PickOf(2), tasks: false, ..Default::default() }, true)));
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| c26_run(ctx, tier.or(2, 2), 1, Opts { select: Select::PerPoll, ..Default::default() }, true)));
  v
}


// ---------------------------------------------------------------- C27

/// Who a step belongs to.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Ident {
  repo: Option<(String, String)>,
  wf: String,
  job: String,
}

impl Ident {
  fn new(repo: Option<(&str, &str)>, wf: &str, job: &str) -> Ident {
    Ident { repo: repo.map(|(a, b)| (a.into(), b.into())), wf: wf.into(), job: job.into() }
  }
  fn step(&self, n: usize, docker: bool) -> Step {
    let mut s = if docker { Step::docker("x") } else { Step::host("x") };
    s.wf = self.wf.clone();
    s.job = self.job.clone();
    s.n = n;
    // Other options of the container do not change where the step works.
    let c = s.container.as_mut().unwrap();
    match n % 3 {
      1 => c.volumes = Some(vec!["/v:/v".into()]),
      2 => c.security_opts = Some(vec!["seccomp=unconfined".into()]),
      _ => {}
    }
    s.event = self.repo.as_ref().map(|(o, r)| TriggerEvent { repo_owner: o.clone(), repo_name: r.clone(), ..Default::default() });
    s
  }
}

/// All files and directories below, except under `but`.
fn tree(dir: &Path, but: &Path, into: &mut BTreeSet<PathBuf>) {
  let Ok(rd) = std::fs::read_dir(dir) else { return };
  for e in rd.flatten() {
    let p = e.path();
    if p == but {
      continue;
    }
    into.insert(p.clone());
    if e.file_type().is_ok_and(|t| t.is_dir()) {
      tree(&p, but, into);
    }
  }
}

pub fn files(dir: &Path) -> BTreeSet<PathBuf> {
  let mut all = BTreeSet::new();
  tree(dir, Path::new("/nonexistent"), &mut all);
  all.into_iter().filter(|p| !p.is_dir()).collect()
}

/// What docker is given, as the shell would split it: flags with values, the image.
#[derive(Default, Debug, Clone)]
struct DockerRun {
  volumes: Vec<String>,
  envs: Vec<String>,
  security: Vec<String>,
  workdir: Vec<String>,
  entrypoint: Vec<String>,
  name: Vec<String>,
  flags: BTreeSet<String>,
  rest: Vec<String>,
}

fn parse_docker(args: &[String]) -> Result<DockerRun, String> {
  let mut d = DockerRun::default();
  let mut it = args.iter();
  if it.next().map(|s| s.as_str()) != Some("run") {
    return Err("not docker run".into());
  }
  while let Some(a) = it.next() {
    let (key, val) = match a.split_once('=') {
      Some((k, v)) if k.starts_with("--") => (k.to_string(), Some(v.to_string())),
      _ => (a.clone(), None),
    };
    let slot = match key.as_str() {
      "-v" | "--volume" => &mut d.volumes,
      "-e" | "--env" => &mut d.envs,
      "--security-opt" => &mut d.security,
      "-w" | "--workdir" => &mut d.workdir,
      "--entrypoint" => &mut d.entrypoint,
      "--name" => &mut d.name,
      "-t" | "--tty" | "--rm" if val.is_none() => {
        d.flags.insert(key.trim_start_matches('-').replace("tty", "t"));
        continue;
      }
      k if k.starts_with('-') && k != "-" => return Err(format!("unknown option {a:?}")),
      _ => {
        d.rest.push(a.clone());
        d.rest.extend(it.cloned());
        break;
      }
    };
    match val {
      Some(v) => slot.push(v),
      None => slot.push(it.next().ok_or(format!("{a} without a value"))?.clone()),
    }
  }
  Ok(d)
}

fn fake_docker() -> PathBuf {
  static DIR: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
  DIR
    .get_or_init(|| {
      let d = scratch_root().join("bin");
      std::fs::create_dir_all(&d).expect("scratch");
      let f = d.join("docker");
      std::fs::write(&f, "#!/bin/sh\nprintf 'DOCKER\\0%s\\0' $#\nfor a; do printf '%s\\0' \"$a\"; done\n").expect("fake docker");
      use std::os::unix::fs::PermissionsExt;
      std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
      d
    })
    .clone()
}

/// Runs the command for real, with nothing but a docker that reports its arguments within reach.
/// Everything docker was called with, and what else was written.
fn really(p: &Proc, cwd: &Path) -> Result<Vec<Vec<String>>, String> {
  use std::ffi::OsStr;
  use std::os::unix::ffi::OsStrExt;
  let bin = fake_docker();
  let program = match p.program.as_slice() {
    b"sh" | b"bash" => PathBuf::from("/bin/sh"),
    b"docker" => bin.join("docker"),
    other => return Err(format!("runs {:?}", String::from_utf8_lossy(other))),
  };
  let mut c = std::process::Command::new(program);
  c.args(p.args.iter().map(|a| OsStr::from_bytes(a))).env_clear().env("PATH", &bin).env("HOME", "/home-of-the-runner").env("SECRET", "of-the-runner");
  for (k, v) in &p.envs {
    if let Some(v) = v {
      if k != b"PATH" {
        c.env(OsStr::from_bytes(k), OsStr::from_bytes(v));
      }
    }
  }
  let out = c.current_dir(p.dir.as_deref().unwrap_or(cwd)).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
  let mut words: std::collections::VecDeque<String> = String::from_utf8_lossy(&out.stdout).split('\0').map(|s| s.to_string()).collect();
  let mut calls = vec![];
  while let Some(w) = words.pop_front() {
    if w.is_empty() && words.is_empty() {
      break;
    }
    if w != "DOCKER" {
      return Err(format!("something else than docker wrote {w:?}"));
    }
    let n: usize = words.pop_front().unwrap_or_default().parse().map_err(|_| "garbled".to_string())?;
    if words.len() < n {
      return Err("garbled".into());
    }
    calls.push(words.drain(..n).collect());
  }
  if !out.stderr.is_empty() {
    return Err(format!("the shell said {:?}", String::from_utf8_lossy(&out.stderr)));
  }
  Ok(calls)
}

/// Where a step's process works: (data, caches).
fn places(p: &Proc, cwd: &Path) -> Result<(PathBuf, Option<PathBuf>), String> {
  if !text_of(p).contains("docker run") {
    return Ok((p.dir.clone().ok_or("no directory")?, None));
  }
  let calls = really(p, cwd)?;
  let [args] = &calls[..] else { return Err(format!("docker was called {} times", calls.len())) };
  let d = parse_docker(args)?;
  let find = |to: &str| {
    d.volumes.iter().find_map(|v| {
      let (a, b) = v.split_once(':')?;
      (b == to).then(|| PathBuf::from(a))
    })
  };
  Ok((find("/home/runner/work").ok_or(format!("no data volume in {:?}", d.volumes))?, find("/home/work/caches")))
}

const KEEP: &str = "keep";

/// A working directory deep in scratch, with files around it that must stay.
fn nest() -> (Scratch, PathBuf) {
  let s = Scratch::new();
  let mut d = s.0.clone();
  for l in ["l1", "l2", "l3", "l4"] {
    std::fs::write(d.join(KEEP), "").unwrap();
    std::fs::create_dir_all(d.join("x")).unwrap();
    std::fs::write(d.join("x/keep"), "").unwrap();
    d = d.join(l);
    std::fs::create_dir_all(&d).unwrap();
  }
  (s, d.join("work"))
}

#[derive(Clone, Debug)]
enum Act {
  Run(Ident, bool, usize),
  /// Run, as far as this runner can see, without any step: they are skipped, or run elsewhere.
  Start(Ident),
  /// By identifier, and in which state.
  Complete(String, WorkflowState),
}

impl Act {
  fn id(&self) -> Option<&Ident> {
    match self {
      Act::Run(i, ..) | Act::Start(i) => Some(i),
      Act::Complete(..) => None,
    }
  }
}

/// Steps and completions one after the other, against a model of the directories.
/// The runner is `told` of the start of workflows, unless it was not there yet.
fn c27_acts(ctx: &Ctx, acts: Vec<Act>, may_fail: bool, told: bool) -> Outcome {
  let seed = 1;
  rt::seed_hashing(seed);
  let (scratch, work) = nest();
  let around = || {
    let mut t = BTreeSet::new();
    tree(&scratch.0, &work, &mut t);
    t
  };
  let before = around();
  let procs = Procs::install(Box::new(|_| Ok(())));
  let (p2, w2, acts2, root) = (procs.clone(), work.clone(), acts.clone(), scratch.0.clone());
  let check: Arc<Mutex<Result<String, Violation>>> = Arc::new(Mutex::new(Ok(String::new())));
  let c2 = check.clone();
  let r = rt::run(
    ctx,
    Opts { os: true, tasks: false, ..Default::default() },
    async move {
      let runner = AstroRunner::builder().working_directory(w2.clone()).build().unwrap();
      docker_daemon(p2.clone(), true, false, 0);
      let mut dirs: BTreeMap<Ident, PathBuf> = BTreeMap::new();
      let mut model: BTreeMap<Ident, BTreeSet<String>> = BTreeMap::new();
      let mut kept: BTreeSet<String> = BTreeSet::new();
      let mut any: BTreeSet<String> = BTreeSet::new();
      let mut active: BTreeMap<String, Option<(String, String)>> = BTreeMap::new();
      let mut started = 0;
      let mut steps = 0;
      let mut outs = vec![];
      // The directory of a workflow without a repository is that of an owner of the same name.
      let owner_like = |i: &Ident| {
        acts2.iter().any(|a| match a {
          Act::Run(o, ..) => match (&i.repo, &o.repo) {
            (Some(r), None) => r.0 == o.wf,
            (None, Some(r)) => r.0 == i.wf,
            _ => false,
          },
          _ => false,
        })
      };
      for (n, act) in acts2.iter().enumerate() {
        let fail = |key: &str, msg: String| viol::<()>(key, format!("after {:?}: {}", &acts2[..=n], msg.replace(root.to_str().unwrap(), "@")));
        if let (Act::Start(id), _, _) | (Act::Run(id, ..), true, None) = (act, told, act.id().and_then(|i| active.get(&i.wf))) {
          // A run before, whose end was never heard of: what becomes of its files is not specified.
          if active.contains_key(&id.wf) {
            let repo = active.remove(&id.wf).flatten();
            let old: Vec<Ident> = model.keys().filter(|i| i.wf == id.wf && i.repo == repo).cloned().collect();
            for o in old {
              dirs.remove(&o);
              any.extend(model.remove(&o).unwrap_or_default());
            }
          }
          let source = Workflow { id: WorkflowId::new(id.wf.as_str()), name: None, on: None, jobs: Default::default() };
          runner.on_run_workflow(astro_run::RunWorkflowEvent { source, trigger_event: id.step(0, false).event, payload: None }).await.ok();
          active.insert(id.wf.clone(), id.repo.clone());
        }
        match act {
          Act::Start(_) => outs.push("started".to_string()),
          Act::Run(id, docker, fate) => {
            let sig = AstroRunSignal::new();
            let rx = runner.run(id.step(steps, *docker).ctx(&sig)).await.unwrap();
            steps += 1;
            let seen = Seen::default();
            let f = seen.follow(rx);
            settle().await;
            let commands = || p2.all().into_iter().filter(|p| !is_docker(p, "kill")).collect::<Vec<_>>();
            let all = commands();
            if all.len() == started {
              if f.is_finished() && may_fail {
                outs.push("refused".to_string());
                continue;
              }
              *c2.lock().unwrap() = fail("not-run", format!("the step's command was not started: {:?}", seen.result())).map(|_| String::new());
              return;
            }
            let p = all[started].clone();
            started = all.len();
            active.insert(id.wf.clone(), id.repo.clone());
            let (data, caches) = match places(&p, &root) {
              Ok(x) => x,
              Err(e) => {
                *c2.lock().unwrap() = fail("no-directory", format!("{e}: {}", p.line())).map(|_| String::new());
                return;
              }
            };
            let inside = |d: &Path| d.strip_prefix(&w2).is_ok_and(|r| r.components().next().is_some() && r.components().all(|c| matches!(c, std::path::Component::Normal(_))));
            for d in [Some(&data), caches.as_ref()].into_iter().flatten() {
              if !inside(d) {
                *c2.lock().unwrap() = fail("outside", format!("the step works in {}", d.display())).map(|_| String::new());
                return;
              }
            }
            // Docker creates the directories it mounts.
            if *docker {
              std::fs::create_dir_all(&data).ok();
            }
            let there: BTreeSet<String> = std::fs::read_dir(&data).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|f| !any.contains(f)).collect()).unwrap_or_default();
            let want = model.entry(id.clone()).or_default();
            if there != *want {
              let key = if owner_like(id) { "owner-named-like-workflow" } else { "data-differs" };
              *c2.lock().unwrap() = fail(key, format!("a step of {id:?} finds {there:?} in {}, left by earlier ones was {want:?}", data.display())).map(|_| String::new());
              return;
            }
            if let Some((other, _)) = dirs.iter().find(|(i, d)| **i != *id && (d.starts_with(&data) || data.starts_with(d))) {
              let clash = |a: &Ident, b: &Ident| a.repo.is_none() && b.repo.as_ref().is_some_and(|r| r.0 == a.wf);
              let key = if clash(id, other) || clash(other, id) { "owner-named-like-workflow" } else { "data-shared" };
              *c2.lock().unwrap() = fail(key, format!("{id:?} and {other:?} share {}", data.display())).map(|_| String::new());
              return;
            }
            dirs.insert(id.clone(), data.clone());
            let mark = format!("mark{n}");
            std::fs::write(data.join(&mark), "").expect("mark");
            want.insert(mark);
            if let Some(c) = caches {
              std::fs::create_dir_all(&c).expect("caches");
              let mark = format!("cache{n}");
              std::fs::write(c.join(&mark), "").expect("mark");
              kept.insert(mark);
            }
            match fate {
              0 => p.exit(0),
              1 => p.exit(4),
              2 => set(&sig, Signal::Cancel),
              3 => set(&sig, Signal::Timeout),
              _ => p.end(libc::SIGKILL),
            }
            f.await.unwrap();
            settle().await;
            outs.push("ran".to_string());
          }
          Act::Complete(wf, state) => {
            let res = WorkflowRunResult { id: WorkflowId::new(wf.as_str()), state: state.clone(), started_at: None, completed_at: None, jobs: Default::default() };
            runner.on_workflow_completed(res).await.ok();
            settle().await;
            let repo = active.remove(wf).flatten();
            let gone: Vec<Ident> = model.keys().filter(|i| i.wf == *wf && i.repo == repo).cloned().collect();
            for g in gone {
              model.remove(&g);
              if let Some(d) = dirs.remove(&g) {
                if d.exists() {
                  *c2.lock().unwrap() = fail("not-removed", format!("{} is still there", d.display())).map(|_| String::new());
                  return;
                }
              }
            }
            outs.push("completed".to_string());
          }
        }
        let have: BTreeSet<String> = files(&w2).iter().map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).filter(|f| f != "entrypoint" && !any.contains(f)).collect();
        let want: BTreeSet<String> = model.values().flatten().chain(&kept).cloned().collect();
        if have != want {
          let lost: Vec<_> = want.difference(&have).collect();
          let extra: Vec<_> = have.difference(&want).collect();
          let repo_hit = matches!(act, Act::Complete(w, _) if model.keys().any(|i| i.repo.as_ref().is_some_and(|r| r.0 == *w)) && acts2.iter().any(|a| matches!(a, Act::Run(i, ..) if i.wf == *w && i.repo.is_none())));
          let key = if lost.is_empty() { "not-removed" } else if repo_hit { "owner-named-like-workflow" } else { "removed-too-much" };
          *c2.lock().unwrap() = fail(key, format!("removed though not the workflow's: {lost:?}; left behind: {extra:?}")).map(|_| String::new());
          return;
        }
      }
      *c2.lock().unwrap() = Ok(outs.join(" "));
    },
    Duration::from_millis(100),
  );
  procs.finish();
  let after = around();
  let gone: Vec<_> = before.difference(&after).map(|p| scratch.hide(&p.display().to_string())).collect();
  let new: Vec<_> = after.difference(&before).map(|p| scratch.hide(&p.display().to_string())).collect();
  ensure!(gone.is_empty() && new.is_empty(), "outside", "{acts:?}: outside of the working directory removed: {gone:?}, created: {new:?}");
  if r.is_err() {
    return viol("hang", format!("{acts:?}: a step never ended"));
  }
  let x = check.lock().unwrap();
  match &*x {
    Ok(s) => Ok(s.clone()),
    Err(e) => viol(e.key.clone(), scratch.hide(&e.msg)),
  }
}

fn c27(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Every sequence of steps and completions.
  v.push(scenario("sequences", 0, move |ctx| {
    let ids = [
      Ident::new(None, "w1", "j1"),
      Ident::new(None, "w1", "j2"),
      Ident::new(Some(("o", "r1")), "w2", "j1"),
      Ident::new(Some(("o", "r2")), "w3", "j1"),
      Ident::new(Some(("o", "r1")), "w1", "j1"),
      Ident::new(Some(("p", "r1")), "w2", "j1"),
    ];
    let mut active: BTreeMap<String, Option<(String, String)>> = BTreeMap::new();
    let n = 1 + ctx.pick("length", tier.or(4, 5));
    let mut acts = vec![];
    for _ in 0..n {
      let k = ctx.pick("act", ids.len() + 3);
      if let Some(id) = ids.get(k) {
        // Two runs of the same workflow at once are not told apart.
        if active.get(&id.wf).is_some_and(|r| *r != id.repo) {
          return Ok("not explored".into());
        }
        active.insert(id.wf.clone(), id.repo.clone());
        let docker = n <= tier.or(2, 3) && ctx.flag("docker");
        // However the step before ended.
        let fate = if n <= tier.or(2, 3) { ctx.pick("fate", 5) } else { 0 };
        acts.push(Act::Run(id.clone(), docker, fate));
      } else {
        let wf = format!("w{}", k - ids.len() + 1);
        active.remove(&wf);
        let states = [WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped];
        // All final states of short histories, each in turn in the others.
        let state = states[if n <= tier.or(3, 4) { ctx.pick("state", 4) } else { acts.len() % 4 }].clone();
        acts.push(Act::Complete(wf, state));
      }
    }
    let told = n > 2 || ctx.flag("told");
    c27_acts(ctx, acts, false, told)
  }));
  // Workflows without a step here, next to others with similar identifiers.
  v.push(scenario("elsewhere", 0, move |ctx| {
    let all = [
      Ident::new(Some(("x", "y")), "w", "j"),
      Ident::new(Some(("w", "y")), "x", "j"),
      Ident::new(Some(("w", "x")), "y", "j"),
      Ident::new(Some(("x", "w")), "y", "j"),
      Ident::new(Some(("o", "y")), "w", "j"),
      Ident::new(Some(("o", "r")), "w", "j"),
      Ident::new(Some(("o", "r")), "w2", "j"),
    ];
    let mut active: BTreeMap<String, Option<(String, String)>> = BTreeMap::new();
    let mut acts = vec![];
    for _ in 0..2 + ctx.pick("length", tier.or(2, 3)) {
      let k = ctx.pick("act", 2 * all.len() + 4);
      match all.get(k / 2) {
        Some(id) => {
          let start = k % 2 == 0;
          // The same workflow started anew, when its end was never heard of, may have another repository.
          if !start && active.get(&id.wf).is_some_and(|r| *r != id.repo) || start && active.contains_key(&id.wf) {
            return Ok("not explored".into());
          }
          active.insert(id.wf.clone(), id.repo.clone());
          acts.push(if start { Act::Start(id.clone()) } else { Act::Run(id.clone(), false, 0) });
        }
        None => {
          let wf = ["w", "x", "y", "w2"][k - 2 * all.len()];
          if active.remove(wf).is_none() {
            return Ok("not explored".into());
          }
          acts.push(Act::Complete(wf.into(), WorkflowState::Succeeded));
        }
      }
    }
    c27_acts(ctx, acts, false, true)
  }));
  // A workflow started anew, perhaps by an event of another repository, when the end of its run before was never heard of.
  v.push(scenario("restarted", 0, move |ctx| {
    let repos = [None, Some(("o", "r")), Some(("o", "r2")), Some(("p", "r"))];
    let mut acts = vec![];
    for n in 0..ctx.pick("runs", tier.or(2, 3)) + 2 {
      let id = Ident::new(*ctx.of("repository", &repos), "w", if n == 1 && ctx.flag("other-job") { "k" } else { "j" });
      acts.push(Act::Start(id.clone()));
      if ctx.flag("step-here") {
        acts.push(Act::Run(id, ctx.flag("docker"), 0));
      }
    }
    acts.push(Act::Complete("w".into(), WorkflowState::Succeeded));
    c27_acts(ctx, acts, false, true)
  }));
  // Identifiers of all kinds.
  v.push(scenario("identifiers", 0, move |ctx| {
    let long = "n".repeat(300);
    let abs = "/absolute-directory-of-nobody";
    let values = [
      "plain", "..", "../..", "../../../x", ".", "", "a/b", "/", "a/../../b", "..\\x", "%2E%2E", "a%2Fb", "caches", "data", "0", &long, "é", " ", "a:b", "-rf", "~", "$HOME", "a\nb", "a\\b", "\"", "'", "./plain", "plain/", "x/../plain", "..//..", "a\u{1}b", abs, "%", "a b",
    ];
    let field = ctx.pick("field", 4);
    let a = *ctx.of("value", &values);
    let b = *ctx.of("other", &values);
    let docker = ctx.flag("docker");
    if docker && tier == Tier::Quick && b != "plain" {
      return Ok("not explored".into());
    }
    let id = |v: &str| {
      let mut f = ["owner", "name", "wf", "job"];
      f[field] = v;
      Ident::new(Some((f[0], f[1])), f[2], f[3])
    };
    let (x, y) = (id(a), id(b));
    let mut acts = vec![Act::Run(x.clone(), docker, 0)];
    let same_wf = x.wf == y.wf && x.repo != y.repo;
    if x != y && !same_wf {
      acts.push(Act::Run(y.clone(), docker, 0));
    }
    acts.push(Act::Run(x.clone(), false, 0));
    acts.push(Act::Complete(x.wf.clone(), WorkflowState::Succeeded));
    if x != y && !same_wf && x.wf != y.wf {
      acts.push(Act::Run(y.clone(), docker, 0));
      acts.push(Act::Complete(y.wf.clone(), WorkflowState::Failed));
    }
    c27_acts(ctx, acts, true, true)
  }));
  // Identifiers that are almost the same.
  v.push(scenario("look-alikes", 0, move |ctx| {
    let n = "n".repeat(100);
    let (n1, n2, n3) = (format!("{n}1"), format!("{n}2"), format!("1{n}"));
    let values = [
      "build", "Build", "BUILD", " build", "build ", "build.", ".build", "build%", "build-", "build_", "b_uild", "b-uild", "b.uild", "b uild", "b\u{a0}uild", "bu\u{ed}ld", "bui\u{301}ld", "buil", "build0", "build00", "0", "00", &n, &n1, &n2, &n3,
    ];
    let field = ctx.pick("field", 4);
    let (a, b) = (*ctx.of("value", &values), *ctx.of("other", &values));
    let docker = tier == Tier::Thorough && ctx.flag("docker");
    if a >= b {
      return Ok("not explored".into());
    }
    let id = |v: &str| {
      let mut f = ["owner", "name", "wf", "job"];
      f[field] = v;
      // Of different workflows: a workflow has one repository at a time.
      let w = if field < 2 { format!("wf{}", (v == a) as u8) } else { f[2].to_string() };
      Ident::new(Some((f[0], f[1])), &w, f[3])
    };
    let (x, y) = (id(a), id(b));
    let mut acts = vec![Act::Run(x.clone(), docker, 0), Act::Run(y.clone(), docker, 0), Act::Run(x.clone(), false, 0), Act::Complete(x.wf.clone(), WorkflowState::Succeeded)];
    if x.wf != y.wf {
      acts.push(Act::Run(y.clone(), docker, 0));
      acts.push(Act::Complete(y.wf.clone(), WorkflowState::Failed));
    }
    c27_acts(ctx, acts, false, true)
  }));
  // Identifiers that could run into each other across fields.
  v.push(scenario("pairs", 0, move |ctx| {
    let values = ["a", "b", "a/b", "..", "b/..", "data", "caches"];
    let get = |k: &'static str| {
      let repo = if ctx.flag("event") { Some(("a", "b")) } else { None };
      let w = *ctx.of(k, &values);
      let j = *ctx.of(k, &values[..tier.or(5, 7)]);
      Ident::new(repo, w, j)
    };
    let (x, y) = (get("first"), get("second"));
    if x == y || x.wf == y.wf && x.repo != y.repo {
      return Ok("not explored".into());
    }
    let mut acts = vec![Act::Run(x.clone(), false, 0), Act::Run(y.clone(), false, 0), Act::Complete(x.wf.clone(), WorkflowState::Succeeded)];
    if x.wf != y.wf {
      acts.push(Act::Run(y.clone(), false, 0));
      acts.push(Act::Complete(y.wf.clone(), WorkflowState::Failed));
    }
    c27_acts(ctx, acts, true, true)
  }));
  // Steps at once, and the workflow's completion as soon as they have ended.
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| {
    rt::seed_hashing(1);
    let docker = [ctx.flag("docker"), ctx.flag("docker")];
    let twice = ctx.flag("twice");
    let fate = ctx.pick("fate", 3);
    let (scratch, work) = nest();
    let procs = Procs::install(Box::new(|_| Ok(())));
    let (p2, w2) = (procs.clone(), work.clone());
    let r = rt::run(
      ctx,
      Opts { os: true, select: Select::First, ..Default::default() },
      async move {
        let p3 = p2.clone();
        docker_daemon(p2.clone(), true, false, 0);
        rt::spawn_prio(1, async move {
          for n in 0.. {
            let p = p3.nth(n).await;
            if is_docker(&p, "kill") {
              continue;
            }
            if let Some(d) = &p.dir {
              std::fs::write(d.join(format!("mark{n}")), "").ok();
            }
            if fate != 1 {
              p.exit(if fate == 0 { 0 } else { 4 });
            }
          }
        });
        let runner = AstroRunner::builder().working_directory(w2).build().unwrap();
        for round in 0..1 + twice as usize {
          let mut all = vec![];
          for (j, d) in docker.iter().enumerate() {
            let sig = AstroRunSignal::new();
            let rx = runner.run(Ident::new(Some(("o", "r")), "wf", &format!("j{j}")).step(round, *d).ctx(&sig)).await.unwrap();
            all.push(Seen::default().follow(rx));
            if fate == 1 {
              rt::spawn_prio(2, async move {
                settle().await;
                set(&sig, Signal::Cancel)
              });
            }
          }
          for a in all {
            a.await.unwrap();
          }
        }
        let res = WorkflowRunResult { id: WorkflowId::new("wf"), state: WorkflowState::Succeeded, started_at: None, completed_at: None, jobs: Default::default() };
        runner.on_workflow_completed(res).await.ok();
      },
      Duration::from_secs(1),
    );
    procs.finish();
    ensure!(r.is_ok(), "hang", "a step never ended");
    let left: Vec<_> = files(&work).iter().map(|p| scratch.hide(&p.display().to_string())).collect();
    ensure!(left.is_empty() && !work.join("o/r/wf").exists(), "not-removed", "left behind: {left:?}");
    Ok(format!("{docker:?} {fate}"))
  }));
  v
}

// ---------------------------------------------------------------- C28

const TRICKY: [&str; 48] = [
  "plain", "a b", "a\"b", "\"", "a'b", "'", "$HOME", "${SECRET}", "$(echo x)", "`echo x`", "a\\b", "\\", "\\\\", "\\\"", "\\$HOME", "a\nb", "\n", ";echo x", "a;b", "&", "a&&b", "|", ">f", "<f", "*", "?", "[a]", "{a,b}", "~", "#c", "a #c", "!x", "é", "日本", "a\tb", "%", "a=b", "(x)", "^", " x ", "\r", "a\r\nb\r\n", "\u{feff}x", "\u{1b}[0m", "a,b", "UPPER", "a \t\n  b  \n\n", "\u{1}",
];

/// One container step with these options; what docker gets is compared with them.
fn c28_step(ctx: &Ctx, s: Step, work: &str, o: Opts) -> Outcome {
  c28_after(ctx, s, work, o, None)
}

fn copy_tree(from: &std::path::Path, to: &std::path::Path) {
  std::fs::create_dir_all(to).unwrap();
  for e in std::fs::read_dir(from).unwrap() {
    let e = e.unwrap();
    match e.file_type().unwrap().is_dir() {
      true => copy_tree(&e.path(), &to.join(e.file_name())),
      false => drop(std::fs::copy(e.path(), to.join(e.file_name())).unwrap()),
    }
  }
}

/// Cuts every file to at most `len` bytes.
fn tear(dir: &std::path::Path, len: u64) {
  for e in std::fs::read_dir(dir).unwrap() {
    let path = e.unwrap().path();
    if path.is_dir() {
      tear(&path, len);
    } else if path.metadata().unwrap().len() > len {
      std::fs::OpenOptions::new().write(true).open(&path).unwrap().set_len(len).unwrap();
    }
  }
}

/// The host's file that the container will execute.
fn entrypoint_of(p: &Proc, cwd: &Path) -> Option<PathBuf> {
  let calls = really(p, cwd).ok()?;
  let d = calls.first().and_then(|a| parse_docker(a).ok())?;
  let inside = d.entrypoint.first()?;
  d.volumes.iter().find_map(|v| v.strip_suffix(&format!(":{inside}")).map(PathBuf::from))
}

/// The same, when a runner before crashed in that step, whose script was `crashed.0` then: as docker was running, or
/// before the files were complete, with at most `crashed.1` bytes of each.
fn c28_after(ctx: &Ctx, s: Step, work: &str, o: Opts, crashed: Option<(String, Option<u64>)>) -> Outcome {
  let scratch = Scratch::new();
  let dir = scratch.0.join(work);
  let snap = scratch.0.join("snap");
  let started: Arc<Mutex<Vec<Result<(Vec<Vec<String>>, Option<(Vec<u8>, u32)>), String>>>> = Default::default();
  let (st2, cwd) = (started.clone(), scratch.0.clone());
  let (snap2, dir3, crashed2) = (snap.clone(), dir.clone(), crashed.clone());
  let procs = Procs::install(Box::new(move |p| {
    if let (Some(c), false) = (&crashed2, snap2.exists()) {
      copy_tree(&dir3, &snap2);
      if let Some(len) = c.1 {
        tear(&snap2, len);
      }
      return Ok(());
    }
    // What docker finds at the moment it starts.
    let r = really(p, &cwd).map(|calls| {
      let entry = calls.first().and_then(|a| parse_docker(a).ok()).and_then(|d| {
        let v = d.volumes.iter().find_map(|v| v.strip_suffix(":/home/work/runner/entrypoint").map(|s| s.to_string()))?;
        use std::os::unix::fs::PermissionsExt;
        let mode = std::fs::metadata(&v).ok()?.permissions().mode();
        Some((std::fs::read(&v).ok()?, mode))
      });
      (calls, entry)
    });
    st2.lock().unwrap().push(r);
    Ok(())
  }));
  let (p2, s2, dir2) = (procs.clone(), s.clone(), dir.clone());
  let seen = Seen::default();
  let seen2 = seen.clone();
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      let n = crashed.is_some() as usize;
      rt::spawn_prio(1, async move {
        for i in 0..=n {
          p2.nth(i).await.exit(0)
        }
      });
      if let Some((script, _)) = crashed {
        let mut old = s2.clone();
        old.run = script;
        let runner = AstroRunner::builder().working_directory(dir2.clone()).build().unwrap();
        let rx = runner.run(old.ctx(&AstroRunSignal::new())).await.unwrap();
        Seen::default().follow(rx).await.unwrap();
        // As the crash left it.
        std::fs::remove_dir_all(&dir2).unwrap();
        std::fs::rename(&snap, &dir2).unwrap();
        std::fs::create_dir(&snap).unwrap();
      }
      let runner = AstroRunner::builder().working_directory(dir2).build().unwrap();
      let rx = runner.run(s2.ctx(&AstroRunSignal::new())).await.unwrap();
      seen2.follow(rx).await.unwrap();
    },
    Duration::from_secs(1),
  );
  procs.finish();
  let what = format!("container {:?}, variables {:?}, step {}/{}/{}", s.container, s.envs, s.wf, s.job, s.n);
  ensure!(r.is_ok(), "hang", "{what}: the step never ended");
  let started = started.lock().unwrap();
  ensure!(started.len() == 1, "not-run", "{what}: {} commands were started, the step ended as {:?}", started.len(), seen.result());
  let (calls, entry) = match &started[0] {
    Ok(x) => x,
    Err(e) => return viol("interpreted", scratch.hide(&format!("{what}: {e}, the command was {}", procs.all()[0].line()))),
  };
  ensure!(calls.len() == 1, "interpreted", "{what}: docker was called {} times", calls.len());
  let d = match parse_docker(&calls[0]) {
    Ok(d) => d,
    Err(e) => return viol("arguments-differ", scratch.hide(&format!("{what}: {e} in {:?}", calls[0]))),
  };
  let (image, vols, secs) = match &s.container {
    None => ("ubuntu".to_string(), vec![], vec![]),
    Some(c) => (c.name.clone(), c.volumes.clone().unwrap_or_default(), c.security_opts.clone().unwrap_or_default()),
  };
  let differs = |part: &str, got: String, want: String| viol::<String>("arguments-differ", scratch.hide(&format!("{what}: {part}: docker gets {got}, configured is {want}")));
  if d.rest != vec![image.clone()] {
    return differs("image", format!("{:?}", d.rest), format!("{image:?}"));
  }
  let mut want_env: Vec<String> = s.envs.iter().map(|(k, v)| format!("{k}={v}")).collect();
  let mut got_env = d.envs.clone();
  want_env.sort();
  got_env.sort();
  if want_env != got_env {
    return differs("environment", format!("{got_env:?}"), format!("{want_env:?}"));
  }
  if d.security != secs {
    return differs("security options", format!("{:?}", d.security), format!("{secs:?}"));
  }
  let own = ["/home/work/runner/entrypoint", "/home/runner/work", "/home/work/caches"];
  let mut user = vec![];
  let mut mine: Vec<String> = vec![];
  for v in &d.volumes {
    match own.iter().find(|o| !vols.contains(v) && v.strip_suffix(**o).is_some_and(|p| p.ends_with(':') && p.starts_with(dir.to_str().unwrap()))) {
      Some(o) => mine.push(o.to_string()),
      None => user.push(v.clone()),
    }
  }
  if user != vols {
    return differs("volumes", format!("{user:?}"), format!("{vols:?}"));
  }
  mine.sort();
  let mut o = own.to_vec();
  o.sort();
  if mine != o {
    return differs("the runner's volumes", format!("{:?}", d.volumes), format!("{own:?}"));
  }
  let name = match &d.name[..] {
    [name] if name_accepted(name) => name.clone(),
    _ => return differs("name", format!("{:?}", d.name), "one that docker accepts".to_string()),
  };
  if d.workdir != ["/home/runner/work"] || d.entrypoint != ["/home/work/runner/entrypoint"] || !d.flags.contains("rm") {
    return differs("options", format!("{d:?}"), "-w, --entrypoint and --rm".into());
  }
  // The script is complete and executable when docker starts.
  let Some((text, mode)) = entry else { return viol("entrypoint-differs", format!("{what}: no entrypoint when docker starts")) };
  let mut want = s.run.clone();
  if !want.starts_with("#!") {
    want = format!("#!/bin/sh\n{want}");
  }
  ensure!(String::from_utf8_lossy(text) == want, "entrypoint-differs", "{what}: the script is {want:?}, docker finds {:?}", String::from_utf8_lossy(text));
  ensure!(mode & 0o100 != 0, "entrypoint-differs", "{what}: the script is not executable");
  Ok(format!("{image} {want_env:?} {secs:?} {user:?} {name}"))
}

/// Docker's rule for names of containers.
fn name_accepted(name: &str) -> bool {
  name.len() >= 2 && name.starts_with(|c: char| c.is_ascii_alphanumeric()) && name.chars().all(|c| c.is_ascii_alphanumeric() || "_.-".contains(c))
}

fn c28_base() -> Step {
  let mut s = Step::docker("echo hello");
  s.container = Some(ContainerOptions { name: "ubuntu:22.04".into(), volumes: Some(vec!["/a:/b".into()]), security_opts: Some(vec!["seccomp=unconfined".into()]) });
  s.envs = vec![("KEY".into(), "value".into())];
  s.event = Some(TriggerEvent { repo_owner: "o".into(), repo_name: "r".into(), ..Default::default() });
  s
}

/// Sets one thing; a value that cannot be meant there gives false.
fn c28_set(s: &mut Step, work: &mut String, field: usize, v: &str) -> bool {
  if field == 9 && s.envs.iter().any(|e| e.0 == v) {
    return false;
  }
  let c = s.container.as_mut().unwrap();
  match field {
    0 => s.envs.push((format!("E{}", s.envs.len()), v.into())),
    1 => c.volumes.get_or_insert_with(Vec::new).push(format!("/host/{v}:/in")),
    2 => c.volumes.get_or_insert_with(Vec::new).push(format!("/host:/in/{v}")),
    3 => c.security_opts.get_or_insert_with(Vec::new).push(v.into()),
    4 => c.name = v.into(),
    5 => s.job = v.into(),
    6 => s.wf = v.into(),
    7 => s.event.as_mut().unwrap().repo_owner = v.into(),
    8 => *work = format!("w{v}"),
    9 => s.envs.push((v.into(), "x".into())),
    10 => s.run = v.into(),
    _ => c.volumes.get_or_insert_with(Vec::new).push(v.into()),
  }
  match field {
    1 | 2 => !v.contains(':'),
    4 => !v.starts_with('-'),
    9 => !v.contains('='),
    11 => !v.is_empty(),
    _ => true,
  }
}

fn c28(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  let plain = Opts { tasks: false, os: true, select: Select::First, free: false, slow: 0 };
  v.push(scenario("values", 0, move |ctx| {
    rt::seed_hashing(1);
    let mut s = c28_base();
    let mut work = "w".to_string();
    let field = ctx.pick("field", 11);
    let value = *ctx.of("value", &TRICKY);
    if !c28_set(&mut s, &mut work, field, value) {
      return Ok("not explored".into());
    }
    c28_step(ctx, s, &work, plain)
  }));
  // Numbers of options, kinds of values.
  v.push(scenario("options", 0, move |ctx| {
    rt::seed_hashing(1 + ctx.pick("map-order", 2) as u8);
    let mut s = c28_base();
    let lists: [&[&str]; 5] = [&[], &["/a:/b"], &["/a:/b:ro", "/c:/d"], &["named:/d:rw,z"], &["/only"]];
    let secs: [&[&str]; 4] = [&[], &["seccomp=unconfined"], &["a=b", "c:d"], &["no-new-privileges", "label=type:x"]];
    let vals: Vec<EnvironmentVariable> = vec!["x".into(), "".into(), 1.0.into(), 1.5.into(), true.into(), "a b\"c$d".into()];
    match ctx.pick("container", 3) {
      0 => s.container = None,
      1 => s.container = opts("node:alpine"),
      _ => {
        let vols = *ctx.of("volumes", &lists);
        let so = *ctx.of("security", &secs);
        let all = |l: &[&str]| Some(l.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        s.container = Some(ContainerOptions { name: "img".into(), volumes: all(vols), security_opts: all(so) });
      }
    }
    let n = ctx.pick("variables", 4);
    s.envs = (0..n).map(|i| (format!("K{i}"), ctx.of("variable", if n < 3 { &vals } else { &vals[..2] }).clone())).collect();
    s.secrets = (0..ctx.pick("secrets", 2) * 2).map(|i| format!("K{i}")).collect();
    if ctx.flag("no-event") {
      s.event = None;
    }
    c28_step(ctx, s, "w", plain)
  }));
  // Two tricky values at once.
  v.push(scenario("two-values", 0, move |ctx| {
    rt::seed_hashing(1);
    let mut s = c28_base();
    let mut work = "w".to_string();
    const SOME: [&str; 9] = ["a b", "a\"b", "a'b", "$HOME", "`echo x`", "a\\", "a\nb", ";echo x", "\\\""];
    const FIELDS: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 8, 9, 0];
    let i = ctx.pick("field", FIELDS.len());
    let j = ctx.pick("field", FIELDS.len());
    let vals = &SOME[..tier.or(3, 9)];
    let (a, b) = (*ctx.of("value", if tier == Tier::Quick { &SOME[1..4] } else { vals }), *ctx.of("value", vals));
    if j < i || !c28_set(&mut s, &mut work, FIELDS[i], a) || !c28_set(&mut s, &mut work, FIELDS[j], b) {
      return Ok("not explored".into());
    }
    c28_step(ctx, s, &work, plain)
  }));
  // The script.
  v.push(scenario("scripts", tier.or(1, 2), move |ctx| {
    rt::seed_hashing(1);
    const SCRIPTS: [&str; 14] = ["echo hello", "", "a\r\nb\r\n", "#!/bin/sh\r\nx", "\u{feff}#!/bin/sh\nx", " \t\n  b  \n\n", "#!/bin/bash\necho x\n", "#!", " #!/bin/sh\n", "a\nb\n\nc", "é \"$X\" '", "\n#!/x", "#comment\nx", "\\\n$(x)"];
    let mut s = c28_base();
    let k = ctx.pick("script", SCRIPTS.len() + 1);
    s.run = if k < SCRIPTS.len() { SCRIPTS[k].to_string() } else { "echo a long line\n".repeat(300_000) };
    let o = if k < SCRIPTS.len() { Opts { select: Select::First, ..Default::default() } } else { plain };
    c28_step(ctx, s, "w", o).map(|_| format!("{k}")).map_err(|mut e| {
      e.msg.truncate(3000);
      e
    })
  }));
  // What a runner that crashed left behind is not in the way.
  v.push(scenario("leftovers", tier.or(0, 1), move |ctx| {
    rt::seed_hashing(1);
    const SCRIPTS: [&str; 5] = ["echo new", "", "#!/bin/bash\necho x\n", "#!", "echo something much longer than the others\n"];
    let mut s = c28_base();
    s.run = ctx.of("script", &SCRIPTS).to_string();
    let old = ctx.of("script-before", &SCRIPTS).to_string();
    let len = *ctx.of("torn", &[None, Some(0), Some(5), Some(14)]);
    let o = Opts { select: Select::First, ..Default::default() };
    c28_after(ctx, s, "w", o, Some((old, len)))
  }));
  // A workflow that is run again as soon as its run has ended.
  v.push(scenario("again", tier.or(0, 1), move |ctx| {
    rt::seed_hashing(1);
    let fate = ctx.pick("fate", 3);
    let works = fate != 2 || ctx.flag("kill-works");
    let o = Opts { os: true, select: Select::First, slow: tier.or(25, 40), ..Default::default() };
    let scratch = Scratch::new();
    let found: Arc<Mutex<Vec<String>>> = Default::default();
    let cwd = scratch.0.clone();
    let look = move |found: &Mutex<Vec<String>>, p: &Proc, when: &str| {
      let Some(file) = entrypoint_of(p, &cwd) else { return found.lock().unwrap().push(format!("{when}: no entrypoint in {}", p.line())) };
      let have = std::fs::read_to_string(&file);
      if !have.as_ref().is_ok_and(|t| t.ends_with(MARK)) {
        found.lock().unwrap().push(format!("{when}: {} is {have:?}", file.display()));
      }
    };
    let f2 = found.clone();
    let look2 = look.clone();
    let procs = Procs::install(Box::new(move |p| {
      if is_docker(p, "run") {
        look2(&f2, p, "as docker starts");
      }
      Ok(())
    }));
    let (p2, dir, f3) = (procs.clone(), scratch.0.join("w"), found.clone());
    let r = rt::run(
      ctx,
      o,
      async move {
        docker_daemon(p2.clone(), works, false, 0);
        rt::spawn_prio(1, async move {
          for n in 0.. {
            let p = p2.nth(n).await;
            if !is_docker(&p, "run") {
              continue;
            }
            let (f3, look) = (f3.clone(), look.clone());
            rt::spawn_prio(1, async move {
              tokio::time::sleep(Duration::from_millis(5)).await;
              look(&f3, &p, "as docker looks");
              if goes_on(&p) && fate != 2 {
                p.exit([0, 3][fate]);
              }
            });
          }
        });
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let astro = AstroRun::builder().runner(runner).build();
        let wf = Workflow::builder().id("wf").config(format!("jobs:\n  j:\n    steps:\n      - run: {MARK}\n        container: img\n        timeout: 9ms\n")).build(&astro).await.unwrap();
        let mut states = vec![];
        for _ in 0..2 {
          let c = astro.execution_context().build();
          states.push(wf.run(c).await.state);
        }
        states
      },
      Duration::from_secs(1),
    );
    procs.finish();
    let Ok(states) = r else { return viol("hang", "never ended") };
    let found = found.lock().unwrap();
    ensure!(found.is_empty(), "script-gone", "{}", scratch.hide(&found.join("\n")));
    let want = if fate == 0 { WorkflowState::Succeeded } else { WorkflowState::Failed };
    ensure!(states == [want.clone(), want.clone()], "result-differs", "{states:?} instead of {want:?} twice");
    let left: Vec<_> = files(&scratch.0).iter().map(|p| scratch.hide(&p.display().to_string())).collect();
    ensure!(left.is_empty(), "left-behind", "left behind: {left:?}");
    Ok(format!("{fate} {works}"))
  }));
  // Two containers at once: the names docker knows them by.
  v.push(scenario("names", 0, move |ctx| {
    rt::seed_hashing(1);
    let values = ["a", "a-b", "b", "b-b", "A", "a b", "\u{e9}", "-a", "a/b", "_a", "a_b", ".a", "", "a.2f.b", "b-0", "a.b", "%"];
    let values = &values[..tier.or(10, 17)];
    let get = || (*ctx.of("workflow", values), *ctx.of("job", values), *ctx.of("step", &[0, 10, 1][..tier.or(2, 3)]));
    let ids = [get(), get()];
    if ids[0] >= ids[1] {
      return Ok("not explored".into());
    }
    // Long ones that differ only in what comes last.
    let short = ids.iter().all(|i| values[..tier.or(3, 5)].contains(&i.0) && values[..tier.or(3, 5)].contains(&i.1));
    let prefix = if short { ["", "a long workflow", "another long workflow"][ctx.pick("prefix", 3)].repeat(8) } else { String::new() };
    let scratch = Scratch::new();
    let procs = Procs::install(Box::new(|_| Ok(())));
    let (p2, dir) = (procs.clone(), scratch.0.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: false, os: true, select: Select::First, free: false, slow: 0 },
      async move {
        docker_daemon(p2.clone(), true, false, 0);
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let mut runs = vec![];
        for (wf, job, n) in ids {
          let mut s = c28_base();
          (s.wf, s.job, s.n) = (format!("{prefix}{wf}"), format!("{prefix}{job}"), n);
          let sig = AstroRunSignal::new();
          let seen = Seen::default();
          let f = seen.follow(runner.run(s.ctx(&sig)).await.unwrap());
          settle().await;
          runs.push((sig, seen, f));
        }
        let started: Vec<_> = p2.all().iter().filter(|p| is_docker(p, "run")).map(|p| named(p)).collect();
        set(&runs[0].0, Signal::Cancel);
        settle().await;
        let killed: Vec<_> = p2.all().iter().filter(|p| is_docker(p, "kill")).map(|p| text_of(p)).collect();
        (started, killed, runs[0].1.result(), runs[1].1.result())
      },
      Duration::from_millis(100),
    );
    procs.finish();
    let Ok((started, killed, first, second)) = r else { return viol("hang", format!("{ids:?}: the steps were not started")) };
    let [Some(a), Some(b)] = &started[..] else { return viol("not-run", format!("{ids:?}: started were {started:?}")) };
    for (n, id) in [a, b].into_iter().zip(ids) {
      ensure!(name_accepted(n), "name-refused", "docker does not accept the name {n:?} of the container of {id:?}");
    }
    if a == b {
      let raw = |(w, j, n): (&str, &str, usize)| format!("{w}-{j}-{n}");
      let key = if raw(ids[0]) == raw(ids[1]) { "dashes" } else { "name-shared" };
      return viol(key, format!("the containers of {:?} and {:?} are both called {a:?}", ids[0], ids[1]));
    }
    ensure!(killed.len() == 1 && killed[0].split_whitespace().last() == Some(a), "wrong-kill", "{a:?} and {b:?} run, the first is cancelled: {killed:?}");
    ensure!(first == Some(RunResult::Cancelled) && second.is_none(), "wrong-kill", "the first of {ids:?} is cancelled: they end as {first:?} and {second:?}");
    Ok(format!("{a} {b}"))
  }));
  v
}

// ---------------------------------------------------------------- C33

fn this_machine() -> (&'static str, &'static str) {
  (std::env::consts::OS, std::env::consts::ARCH)
}

/// Whether a container with this name means the host this runs on.
fn means_host(name: Option<&str>) -> bool {
  let (os, arch) = this_machine();
  name.is_some_and(|n| n == format!("host/{os}") || n == format!("host/{os}-{arch}"))
}

/// Near misses and others, built from their parts.
fn any_name(ctx: &Ctx) -> Option<String> {
  let (os, arch) = this_machine();
  let upper = os.to_uppercase();
  let cut = &os[..os.len() - 1];
  let before = *ctx.of("prefix", &["host/", "", "host", "Host/", "HOST/", "host//", "hosts/", "ghost/", "x/host/", "host-", "host/x/", "-"]);
  if before == "-" {
    return None;
  }
  let middle = ctx.of("os", &[os, "", &upper, cut, "windows", "macos", "ubuntu", arch]).to_string();
  let longer = format!("-{arch}x");
  let with = format!("-{arch}");
  let twice = format!("-{arch}-{arch}");
  let bare = arch.to_string();
  let slash = format!("/{arch}");
  let colon = format!(":{arch}");
  let big = format!("-{}", arch.to_uppercase());
  let short = format!("-{}", &arch[..arch.len() - 1]);
  let after = *ctx.of("arch", &["", &with, "-", &longer, "-aarch64", &twice, &bare, "/", &slash, &colon, &big, &short, ":22.04", "-arm"]);
  let name = format!("{before}{middle}{after}");
  (!name.is_empty() && !name.starts_with('-')).then_some(name)
}

const MARK: &str = "the-mark-of-this-script";

/// Where the started process executes the script: on the host, or in docker with an image.
fn where_executed(p: &Proc, cwd: &Path, script: &str) -> Result<Option<String>, String> {
  if !text_of(p).contains("docker run") {
    return match p.script() == script.as_bytes() {
      true => Ok(None),
      false => Err(format!("something else was started: {}", p.line())),
    };
  }
  if text_of(p).contains(MARK) {
    return Err(format!("the script is part of what the host's shell is given: {}", p.line()));
  }
  let calls = really(p, cwd)?;
  let [args] = &calls[..] else { return Err(format!("docker was called {} times", calls.len())) };
  let d = parse_docker(args)?;
  match &d.rest[..] {
    [image] => Ok(Some(image.clone())),
    more => Err(format!("image and arguments: {more:?}")),
  }
}

/// Changes the container of the step.
struct Recontain(Option<Option<String>>);
#[astro_run::async_trait]
impl astro_runner::Plugin for Recontain {
  fn name(&self) -> &'static str {
    "recontain"
  }
  async fn on_before_run(&self, mut ctx: Context) -> astro_run::Result<Context> {
    if let Some(c) = &self.0 {
      ctx.command.container = c.as_ref().and_then(|n| opts(n));
    }
    Ok(ctx)
  }
}

fn c33(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("names", 0, move |ctx| {
    rt::seed_hashing(1);
    let name = any_name(ctx);
    // The name is what is configured, or what a plugin made of it.
    let near = name.as_ref().is_none_or(|n| n.starts_with(&format!("host/{}", this_machine().0)));
    let via = if near || tier == Tier::Thorough { ctx.pick("plugin", 5) } else { *ctx.of("plugin", &[0, 2]) };
    let extra = if near { ctx.pick("options", 3) } else { 0 };
    let code = if near { *ctx.of("code", &[0, 3]) } else { 0 };
    let (os, arch) = this_machine();
    let other = match via {
      2 => Some(format!("host/{os}")),
      3 => Some("ubuntu".to_string()),
      _ => None,
    };
    let plugin = Recontain((via > 1).then(|| name.clone()));
    let configured = if via > 1 { other } else { name.clone() };
    let scratch = Scratch::new();
    let cwd = scratch.0.clone();
    let seen = Seen::default();
    let script = format!("echo {MARK}");
    let found: Arc<Mutex<Vec<Result<Option<String>, String>>>> = Default::default();
    let (f2, sc2) = (found.clone(), script.clone());
    let procs = Procs::install(Box::new(move |p| {
      let r = where_executed(p, &cwd, &sc2);
      f2.lock().unwrap().push(r);
      Ok(())
    }));
    let (p2, s2, dir) = (procs.clone(), seen.clone(), scratch.0.join("w"));
    let r = rt::run(
      ctx,
      Opts { os: true, tasks: false, ..Default::default() },
      async move {
        rt::spawn_prio(1, async move { p2.nth(0).await.exit(code) });
        let mut b = AstroRunner::builder().working_directory(dir);
        if via > 0 {
          b = b.plugin(plugin);
        }
        let runner = b.build().unwrap();
        let mut s = Step { run: script, ..Step::host("") };
        s.container = configured.and_then(|n| opts(&n));
        if let Some(c) = s.container.as_mut() {
          if extra == 1 {
            c.volumes = Some(vec!["/a:/b".into()]);
          }
          if extra == 2 {
            c.security_opts = Some(vec![format!("host/{os}-{arch}")]);
          }
        }
        let rx = runner.run(s.ctx(&AstroRunSignal::new())).await.unwrap();
        s2.follow(rx).await.unwrap();
      },
      Duration::from_secs(1),
    );
    procs.finish();
    let what = format!("container {name:?}");
    ensure!(r.is_ok(), "hang", "{what}: the step never ended");
    let found = found.lock().unwrap();
    ensure!(found.len() == 1, "not-once", "{what}: {} processes were started, the step ended as {:?}", found.len(), seen.result());
    let want = if means_host(name.as_deref()) { None } else { Some(name.clone().unwrap_or("ubuntu".into())) };
    let show = |w: &Option<String>| w.as_ref().map_or("on the host".to_string(), |i| format!("in docker with image {i:?}"));
    match &found[0] {
      Err(e) => return viol("not-executed", scratch.hide(&format!("{what}: {e}"))),
      Ok(got) => ensure!(*got == want, "wrong-place", "{what}: executed {} instead of {}", show(got), show(&want)),
    }
    ensure!(seen.result() == Some(end_of(code << 8)), "result-differs", "{what}: {:?}", seen.result());
    Ok(show(&want))
  }));
  // A server on this machine is given the steps it would execute on its host, and no others of that kind.
  v.push(scenario("placement", 0, move |ctx| {
    use astro_run_protocol::remote_runner::RemoteRunnerExt;
    use astro_run_scheduler::{DefaultScheduler, Scheduler};
    rt::seed_hashing(1);
    let name = any_name(ctx);
    let docker = ctx.flag("support-docker");
    let host = ctx.pick("support-host", 3);
    let scratch = Scratch::new();
    let (n2, dir) = (name.clone(), scratch.0.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: false, ..Default::default() },
      async move {
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let mut b = astro_run_remote_runner::AstroRunRemoteRunnerServer::builder().id("here").support_docker(docker).runner(runner);
        if host > 0 {
          b = b.support_host(host == 1);
        }
        let server = b.build().unwrap();
        let meta = server.get_runner_metadata(astro_run_protocol::tonic::Request::new(astro_run_protocol::Empty {})).await.unwrap().into_inner();
        let mut s = Step::host("x");
        s.container = n2.and_then(|n| opts(&n));
        let chosen = DefaultScheduler::new().schedule(std::slice::from_ref(&meta), &s.ctx(&AstroRunSignal::new())).await.map(|m| m.id.clone());
        (chosen, meta)
      },
      Duration::ZERO,
    );
    let Ok((chosen, meta)) = r else { return viol("hang", "no answer") };
    let host = host < 2;
    let want = match &name {
      Some(n) if n.starts_with("host/") => host && means_host(Some(n)),
      _ => docker,
    };
    let what = format!("container {name:?}, server with docker {docker}, host {host} describes itself as {meta:?}");
    ensure!(chosen.is_some() == want, "wrong-placement", "{what}: given the step: {}", chosen.is_some());
    ensure!(meta.id == "here" && (meta.os.as_str(), meta.arch.as_str()) == this_machine(), "wrong-description", "{what}");
    Ok(format!("{name:?} {want}"))
  }));
  // Whole workflows.
  v.push(scenario("workflows", tier.or(0, 1), move |ctx| {
    rt::seed_hashing(1);
    let (os, arch) = this_machine();
    let names: Vec<Option<String>> = vec![None, Some(format!("host/{os}")), Some("node".into()), Some(format!("host/{os}-{arch}")), Some("host/beos".into())];
    let jobs = 1 + ctx.pick("jobs", 2);
    let mut yaml = "jobs:\n".to_string();
    let mut want = BTreeMap::new();
    for j in 0..jobs {
      let job = ctx.of("job-container", &names[..if j == 0 { 5 } else { 3 }]).clone();
      yaml += &format!("  j{j}:\n");
      if let Some(n) = &job {
        yaml += &format!("    container: {n}\n");
      }
      yaml += "    steps:\n";
      for i in 0..2 {
        let step = ctx.of("container", &names[..if j == 0 { 5 } else { 3 }]).clone();
        yaml += &format!("      - run: {MARK} {j}{i}\n");
        if let Some(n) = &step {
          yaml += &format!("        container:\n          name: {n}\n");
        }
        let name = step.or(job.clone());
        want.insert((j, i), if means_host(name.as_deref()) { None } else { Some(name.unwrap_or("ubuntu".into())) });
      }
    }
    let scratch = Scratch::new();
    let cwd = scratch.0.clone();
    let found: Arc<Mutex<Vec<Result<((usize, usize), Option<String>), String>>>> = Default::default();
    let f2 = found.clone();
    let procs = Procs::install(Box::new(move |p| {
      let mut all = (0..2).flat_map(|j| (0..2).map(move |i| (j, i)));
      let of = all.find(|(j, i)| p.script() == format!("{MARK} {j}{i}").as_bytes() || named(p) == Some(format!("wf-j{j}-{i}")));
      let r = match of {
        None => Err(format!("of no step: {}", p.line())),
        Some((j, i)) => where_executed(p, &cwd, &format!("{MARK} {j}{i}")).map(|w| ((j, i), w)),
      };
      f2.lock().unwrap().push(r);
      Ok(())
    }));
    let (p2, dir) = (procs.clone(), scratch.0.join("w"));
    let y2 = yaml.clone();
    let r = rt::run(
      ctx,
      Opts { os: true, tasks: tier == Tier::Thorough, select: Select::First, ..Default::default() },
      async move {
        rt::spawn_prio(1, async move {
          for n in 0.. {
            p2.nth(n).await.exit(0);
          }
        });
        let runner = AstroRunner::builder().working_directory(dir).build().unwrap();
        let astro = AstroRun::builder().runner(runner).build();
        let wf = Workflow::builder().id("wf").config(y2).build(&astro).await.unwrap();
        let c = astro.execution_context().build();
        wf.run(c).await
      },
      Duration::from_secs(1),
    );
    procs.finish();
    let Ok(r) = r else { return viol("hang", format!("never ended: {yaml}")) };
    let mut got = BTreeMap::new();
    for f in found.lock().unwrap().iter() {
      match f {
        Err(e) => return viol("not-executed", scratch.hide(&format!("{e}\n{yaml}"))),
        Ok((k, w)) => ensure!(got.insert(*k, w.clone()).is_none(), "not-once", "step {k:?} was started twice\n{yaml}"),
      }
    }
    ensure!(got == want, "wrong-place", "executed in {got:?} instead of {want:?} (none: on the host)\n{yaml}");
    ensure!(r.state == WorkflowState::Succeeded, "result-differs", "{:?}\n{yaml}", r.state);
    Ok(format!("{want:?}"))
  }));
  v
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C24",
    level: "model_checking",
    rule: "Every sequence of writes (whole lines, parts of lines, bytes that are no text), closes and an end (exit codes, signals), up to the bound, with every choice of whether the runner settles after each, on a simulated process with real pipes; the same with every order of tasks within the deviation bound; large volumes; every combination of environment values; and every sequence of real shell snippets against running the shell directly. Distinct outcomes: distinct reports.",
    assumptions: &["simulated processes are bound to real ones by the scenario `real`", "lines that are not UTF-8 must be reported as one line each, their text is not compared", "a carriage return at the end of a line is not compared"],
    scenarios: c24,
  }, Check {
    id: "C25",
    level: "model_checking",
    rule: "Every moment of a cancel or timeout (before the runner has the step, in a before-run hook, as it is given to the runner, after each line of its command, as the command exits, after the end), with every answer of docker and state of the streams, under every order of tasks within the deviation bound; and whole workflows cancelled at every phase. Distinct outcomes: distinct results.",
    assumptions: &["a signal in the moment the command exits may win or lose", "what the command itself started is not followed"],
    scenarios: c25,
  }, Check {
    id: "C26",
    level: "model_checking",
    rule: "Every combination of plugins (passing on, changing, failing before; failing after; slow) with every way a step can end (exit codes, killed, cannot start, no directory, signals at every phase), on the host and in docker, one step and two at once, under every order of tasks within the deviation bound.",
    assumptions: &["plugins that panic are not considered"],
    scenarios: c26,
  }, Check {
    id: "C27",
    level: "model_checking",
    rule: "Every sequence of steps and workflow completions up to the bound (jobs, workflows, repositories, host and docker), against a model of which files each step must find and which must be gone; every pair of tricky identifiers in each place, with files around the working directory that must stay; steps at once with the completion right behind, under every order of tasks within the deviation bound.",
    assumptions: &["the explorer runs as an unprivileged user, working directories lie several levels deep in scratch", "runs of one workflow id in two repositories at the same time are not told apart by the runner and not considered"],
    scenarios: c27,
  }, Check {
    id: "C28",
    level: "model_checking",
    rule: "Every place a configured value can stand with every tricky value (quotes, expansions, separators, newlines), pairs of them, every combination of option lists; the command the runner starts is really run by the shell with a docker that reports the arguments it gets; the script's file is read as docker starts, under every order of tasks within the deviation bound, also where a runner that crashed in the same step left its files, whole or torn.",
    assumptions: &["images that begin with - are not considered", "values with NUL cannot be given to any process"],
    scenarios: c28,
  }, Check {
    id: "C33",
    level: "model_checking",
    rule: "Every container name built from prefixes, systems and architectures that name this machine or nearly do, as configured and as changed by a plugin, with every way the command can end: where the script is executed and by which image. The same names with what a server on this machine tells the default scheduler. Every combination of container settings of jobs and steps of small workflows.",
    assumptions: &["images that begin with - are not considered", "docker itself is simulated: what it is called with decides"],
    scenarios: c33,
  }]
}
