//! C35: whole systems: orchestrator, remote runner client and servers, the host and docker runner and its processes.
use super::exec::Cargo;
use super::runner::{docker_daemon, files, is_docker, named, Scratch};
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Outcome, Scenario, Violation};
use crate::ensure;
use crate::net::{self, Net};
use crate::proc::{Proc, Procs};
use crate::rt::{self, Opts, Select};
use astro_run::{async_trait, AstroRun, Context, HookNoopResult, JobId, Plugin, TriggerEvent, Workflow, WorkflowLog, WorkflowRunResult};
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use astro_runner::AstroRunner;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::result::Result;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// How a command fares.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
  Fine,
  Fails,
  Killed,
  /// Longer than its step's timeout.
  Long,
  /// Ends at once, with everything it writes.
  Abrupt,
}

const FATES: [Fate; 5] = [Fate::Fine, Fate::Fails, Fate::Long, Fate::Killed, Fate::Abrupt];

#[derive(Clone)]
struct Case {
  yaml: String,
  fates: BTreeMap<String, Fate>,
  event: Option<TriggerEvent>,
  cargo: Option<Cargo>,
  cancel: Option<(usize, u64)>,
  /// How often it is run, one run right after the other.
  runs: usize,
  /// Milliseconds between the runs.
  pause: u64,
  /// Are directories looked at when commands start? Not where the steps of a job may be spread over runners.
  look: bool,
}

/// All that can be told apart from outside, times and places left out.
#[derive(Clone, Default, Debug, PartialEq)]
struct Seen {
  result: String,
  logs: BTreeMap<String, Vec<String>>,
  /// Per step: the commands started for it.
  commands: BTreeMap<String, Vec<String>>,
  /// Per step: what the runner's plugins were given before and after it.
  contexts: BTreeMap<String, Vec<String>>,
  cancel: Option<bool>,
  left_files: BTreeSet<PathBuf>,
  left_running: Vec<String>,
}

#[derive(Clone, Default)]
struct Contexts(Arc<Mutex<BTreeMap<String, Vec<String>>>>);

impl Contexts {
  fn note(&self, hook: &str, ctx: &Context) {
    let text = serde_json::to_value(ctx).unwrap();
    self.0.lock().unwrap().entry(ctx.id.to_string()).or_default().push(format!("{hook} {text}"));
  }
}

#[async_trait]
impl astro_runner::Plugin for Contexts {
  fn name(&self) -> &'static str {
    "contexts"
  }
  async fn on_before_run(&self, ctx: Context) -> astro_run::Result<Context> {
    self.note("before", &ctx);
    Ok(ctx)
  }
  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    self.note("after", &ctx);
    Ok(())
  }
}

/// Told by a remote runner's server that a workflow has completed, before the runner is.
struct Completed {
  contexts: Contexts,
  n: Mutex<usize>,
  late: Arc<Mutex<bool>>,
}

#[async_trait]
impl Plugin for Completed {
  fn name(&self) -> &'static str {
    "completed"
  }
  async fn on_workflow_completed(&self, _: WorkflowRunResult) -> HookNoopResult {
    let mut n = self.n.lock().unwrap();
    *n += 1;
    let begun = self.contexts.0.lock().unwrap().get("wf/j0/0").map_or(0, |v| v.iter().filter(|x| x.starts_with("before")).count());
    if begun > *n {
      *self.late.lock().unwrap() = true;
    }
    Ok(())
  }
}

#[derive(Clone, Default)]
struct Logs(Arc<Mutex<BTreeMap<String, Vec<String>>>>);

#[async_trait]
impl Plugin for Logs {
  fn name(&self) -> &'static str {
    "logs"
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    self.0.lock().unwrap().entry(l.step_id.to_string()).or_default().push(format!("{:?} {}", l.log_type, l.message));
    Ok(())
  }
}

fn without_times(v: &mut serde_json::Value) {
  match v {
    serde_json::Value::Object(m) => {
      m.retain(|k, _| !k.ends_with("_at"));
      m.values_mut().for_each(without_times);
    }
    serde_json::Value::Array(a) => a.iter_mut().for_each(without_times),
    _ => {}
  }
}

fn step_of(p: &Proc) -> Option<String> {
  if is_docker(p, "run") {
    // The name ends with the job and the number of the step.
    let n = named(p)?;
    let mut it = n.rsplit('-');
    let (i, j) = (it.next()?, it.next()?);
    return Some(format!("{j}/{i}"));
  }
  let s = String::from_utf8(p.script()).ok()?;
  s.strip_prefix("echo ").map(String::from)
}

fn text(v: &[u8]) -> String {
  String::from_utf8_lossy(v).into_owned()
}

/// Where the process runs and with what, relative to the runner's directory.
fn describe(p: &Proc, root: &Path) -> String {
  let mut envs: Vec<String> = p.envs.iter().map(|(k, v)| format!("{}={:?}", text(k), v.as_ref().map(|v| text(v)))).collect();
  envs.sort();
  // Options of docker come in the order of a hash map.
  let mut words: Vec<String> = p.line().split_whitespace().map(String::from).collect();
  words.sort();
  format!("{} in {:?} with {envs:?}", words.join(" "), p.dir).replace(root.to_str().unwrap(), "@")
}

/// Runs the case with a runner of its own (no remotes) or over remote runners.
fn run_case(ctx: &Ctx, c: &Case, remotes: Option<usize>, o: Opts) -> Result<(Seen, Vec<BTreeSet<String>>, bool), Violation> {
  let scratch = Scratch::new();
  let roots: Vec<PathBuf> = (0..remotes.unwrap_or(1)).map(|i| scratch.0.join(format!("r{i}"))).collect();
  for r in &roots {
    std::fs::create_dir(r).unwrap();
  }
  let commands: Arc<Mutex<BTreeMap<String, Vec<String>>>> = Default::default();
  let places: Arc<Mutex<Vec<BTreeSet<String>>>> = Arc::new(Mutex::new(vec![BTreeSet::new(); roots.len()]));
  let look = c.look;
  let (c2, pl2, roots2) = (commands.clone(), places.clone(), roots.clone());
  let procs = Procs::install(Box::new(move |p| {
    if is_docker(p, "kill") {
      return Ok(());
    }
    let whole = format!("{} {:?}", p.line(), p.dir);
    let at = roots2.iter().position(|r| whole.contains(r.to_str().unwrap()));
    let step = step_of(p).unwrap_or_else(|| "none".into());
    let root = at.map(|i| roots2[i].clone()).unwrap_or_else(|| PathBuf::from("/nowhere"));
    if let Some(i) = at {
      pl2.lock().unwrap()[i].insert(step.clone());
    }
    let mut there = vec![];
    if let Some(d) = &p.dir {
      if look {
        there.extend(files(d).into_iter().map(|f| f.strip_prefix(d).unwrap().to_path_buf()));
      }
      // The command leaves something.
      std::fs::write(d.join(format!("made-by-{}", step.replace('/', "-"))), "x").ok();
    }
    c2.lock().unwrap().entry(step).or_default().push(format!("{} where {there:?}", describe(p, &root)));
    Ok(())
  }));
  let net = Net::install();
  let contexts: Vec<Contexts> = roots.iter().map(|_| Contexts::default()).collect();
  let logs = Logs::default();
  let late = Arc::new(Mutex::new(false));
  let late2 = late.clone();
  let cancel = Arc::new(Mutex::new(None));
  let (case, p2, roots2, cx2, l2, k2) = (c.clone(), procs.clone(), roots.clone(), contexts.clone(), logs.clone(), cancel.clone());
  let r = rt::run(
    ctx,
    Opts { os: true, ..o },
    async move {
      docker_daemon(p2.clone(), true, false, 0);
      let fates = case.fates.clone();
      rt::spawn_prio(1, async move {
        for n in 0.. {
          let p = p2.nth(n).await;
          if is_docker(&p, "kill") {
            continue;
          }
          let step = step_of(&p).unwrap_or_default();
          let fate = fates.get(&step).copied().unwrap_or(Fate::Fine);
          rt::spawn_prio(1, async move {
            let ms = |n| tokio::time::sleep(Duration::from_millis(n));
            if fate == Fate::Abrupt {
              p.write(0, b"one\ntwo\nthree").await;
              p.exit(0);
              return;
            }
            ms(2).await;
            p.write(0, format!("out of {step}\n").as_bytes()).await;
            ms(2).await;
            p.write(1, b"err\n").await;
            ms(6).await;
            match fate {
              Fate::Fine => p.exit(0),
              Fate::Fails => p.exit(3),
              Fate::Killed => p.end(9),
              _ => {
                ms(3000).await;
                if !p.exited() {
                  p.exit(0)
                }
              }
            }
          });
        }
      });
      let mut runners = roots2.iter().zip(&cx2).map(|(r, c)| AstroRunner::builder().working_directory(r.clone()).plugin(c.clone()).build().unwrap());
      let builder = AstroRun::builder().plugin(l2);
      let astro = match remotes {
        None => builder.runner(runners.next().unwrap()).build(),
        Some(_) => {
          let mut urls = vec![];
          for (i, r) in runners.enumerate() {
            let server = AstroRunRemoteRunnerServer::builder().id(format!("r{i}")).support_docker(true).plugin(Completed { contexts: cx2[i].clone(), n: Mutex::new(0), late: late2.clone() }).runner(r).build().unwrap();
            let url = format!("http://r{i}");
            net.serve(&url, server);
            urls.push(url);
          }
          let client = AstroRunRemoteRunnerClient::builder().build().unwrap();
          net::start(&client, urls).await;
          builder.runner(client).build()
        }
      };
      let wf = Workflow::builder().id("wf").config(case.yaml.clone());
      let wf = wf.build(&astro).await.unwrap_or_else(|e| panic!("{e}: {}", case.yaml));
      let a2 = astro.clone();
      if let Some((j, at)) = case.cancel {
        rt::spawn_prio(2, async move {
          tokio::time::sleep(Duration::from_millis(at)).await;
          *k2.lock().unwrap() = Some(a2.cancel_job(&JobId::new("wf", &*format!("j{j}"))).is_ok());
        });
      }
      let mut results = vec![];
      for _ in 0..case.runs {
        let mut ec = astro.execution_context();
        if let Some(e) = &case.event {
          ec = ec.event(e.clone());
        }
        if let Some(c) = &case.cargo {
          ec = ec.payload(c.clone());
        }
        if !results.is_empty() && case.pause > 0 {
          tokio::time::sleep(Duration::from_millis(case.pause)).await;
        }
        results.push(wf.run(ec.build()).await);
      }
      results
    },
    Duration::from_secs(10),
  );
  let left_running = procs.all().iter().filter(|p| super::runner::goes_on(p)).map(|p| p.line()).collect();
  procs.finish();
  let Ok(r) = r else { return viol("hang", format!("the run did not end ({remotes:?} remote runners)")) };
  let mut result = serde_json::to_value(&r).unwrap();
  without_times(&mut result);
  let mut left_files = BTreeSet::new();
  for r in &roots {
    left_files.extend(files(r).into_iter().map(|f| f.strip_prefix(r).unwrap().to_path_buf()));
  }
  let mut all: BTreeMap<String, Vec<String>> = BTreeMap::new();
  for c in &contexts {
    for (k, v) in c.0.lock().unwrap().iter() {
      all.entry(k.clone()).or_default().extend(v.iter().cloned());
    }
  }
  let seen = Seen {
    result: result.to_string(),
    logs: logs.0.lock().unwrap().clone(),
    commands: commands.lock().unwrap().clone(),
    contexts: all,
    cancel: *cancel.lock().unwrap(),
    left_files,
    left_running,
  };
  let places = places.lock().unwrap().clone();
  let late = *late.lock().unwrap();
  Ok((seen, places, late))
}

fn compare(ctx: &Ctx, c: &Case, n: usize, o: Opts) -> Outcome {
  rt::seed_hashing(1);
  let (local, ..) = run_case(ctx, c, None, Opts { select: Select::First, tasks: false, free: false, os: true, slow: 0 })?;
  rt::seed_hashing(1);
  let (remote, places, late) = run_case(ctx, c, Some(n), o)?;
  let what = format!("{:?} cancel {:?} on {n} remote runners: {}", c.fates, c.cancel, c.yaml);
  if late {
    // The remote runner was told of the end of a run when the next one had begun.
    ensure!(remote == local, "late-cleanup", "{remote:?} instead of {local:?}; {what}");
  }
  ensure!(remote.cancel == local.cancel, "cancel-differs", "cancelling was answered {:?}, locally {:?}; {what}", remote.cancel, local.cancel);
  ensure!(remote.commands == local.commands, "commands-differ", "started {:?} instead of {:?}; {what}", remote.commands, local.commands);
  ensure!(remote.contexts == local.contexts, "contexts-differ", "runners were given {:?} instead of {:?}; {what}", remote.contexts, local.contexts);
  ensure!(remote.result == local.result, "result-differs", "ended as {} instead of {}; {what}", remote.result, local.result);
  ensure!(remote.logs == local.logs, "logs-differ", "reported {:?} instead of {:?}; {what}", remote.logs, local.logs);
  ensure!(remote.left_running == local.left_running && remote.left_running.is_empty(), "left-running", "still running: {:?} (locally {:?}); {what}", remote.left_running, local.left_running);
  ensure!(remote.left_files == local.left_files, "files-left", "left {:?}, locally {:?}; {what}", remote.left_files, local.left_files);
  Ok(format!("{} {places:?} {:?}", remote.result, remote.cancel))
}

fn case(jobs: &[(bool, Vec<(bool, bool)>)], fates: Vec<Fate>) -> Case {
  let mut yaml = "environments:\n  A: \"x y\"\n  N: 12\njobs:\n".to_string();
  let mut map = BTreeMap::new();
  let mut f = fates.into_iter();
  for (j, (dep, steps)) in jobs.iter().enumerate() {
    yaml += &format!("  j{j}:\n");
    if *dep {
      yaml += "    depends-on: [j0]\n";
    }
    yaml += "    steps:\n";
    for (i, (docker, coe)) in steps.iter().enumerate() {
      let container = if *docker { "node" } else { "host/linux" };
      yaml += &format!("      - container: {container}\n        run: echo j{j}/{i}\n        timeout: 1s\n        continue-on-error: {coe}\n        environments:\n          B: \"{i}\"\n");
      map.insert(format!("j{j}/{i}"), f.next().unwrap_or(Fate::Fine));
    }
  }
  Case { yaml, fates: map, event: None, cargo: None, cancel: None, runs: 1, pause: 0, look: false }
}

fn c35(tier: Tier) -> Vec<Scenario> {
  let quiet = Opts { select: Select::First, tasks: false, free: false, os: true, slow: 0 };
  let mut v = vec![];
  // One job, two steps, every combination of fates.
  v.push(scenario("one-job", 0, move |ctx| {
    let n = 1 + ctx.pick("remotes", 2);
    let k = tier.or(2, 3);
    let steps: Vec<(bool, bool)> = (0..k).map(|i| (ctx.flag("docker"), i > 0 && ctx.flag("continue-on-error"))).collect();
    let fates = (0..k).map(|_| *ctx.of("fate", &FATES)).collect();
    let mut c = case(&[(false, steps.clone())], fates);
    c.look = n == 1 || steps.iter().all(|s| !s.0);
    compare(ctx, &c, n, Opts { select: Select::PickOf(2), ..quiet })
  }));
  // Two jobs.
  v.push(scenario("two-jobs", 0, move |ctx| {
    let n = 1 + ctx.pick("remotes", tier.or(2, 3));
    let dep = ctx.flag("dependent");
    let few = tier.or(3, 5);
    let docker = [ctx.flag("docker"), ctx.flag("docker")];
    let fates: Vec<Fate> = (0..3).map(|_| *ctx.of("fate", &FATES[..few])).collect();
    let mut c = case(&[(false, vec![(docker[0], false), (docker[1], false)]), (dep, vec![(docker[0], false)])], fates);
    c.look = n == 1 || docker == [false; 2];
    compare(ctx, &c, n, quiet)
  }));
  // Cancelled at every phase.
  v.push(scenario("cancel", 0, move |ctx| {
    let n = 1 + ctx.pick("remotes", 2);
    let docker = ctx.flag("docker");
    let coe = ctx.flag("continue-on-error");
    let job = ctx.pick("cancel-job", 2);
    let at = *ctx.of("at", &[1, 3, 5, 13, 19, 25, 1005]);
    let fates: Vec<Fate> = (0..3).map(|_| *ctx.of("fate", &FATES[..tier.or(3, 4)])).collect();
    let mut c = case(&[(false, vec![(docker, false), (!docker, coe)]), (ctx.flag("dependent"), vec![(docker, false)])], fates);
    c.cancel = Some((job, at));
    compare(ctx, &c, n, Opts { select: if tier == Tier::Thorough { Select::PickOf(2) } else { Select::First }, ..quiet })
  }));
  // What is attached to the run.
  v.push(scenario("attached", 0, move |ctx| {
    let n = 1 + ctx.pick("remotes", 2);
    let docker = ctx.flag("docker");
    let mut c = case(&[(false, vec![(docker, false)]), (true, vec![(!docker, false)])], vec![]);
    c.event = super::exec::a_trigger(ctx, "event");
    if let Some(e) = &mut c.event {
      // Names of repositories are C27's.
      e.repo_owner = "owner".into();
      e.repo_name = ctx.of("repo", &["repo", "other repo"]).to_string();
    }
    c.cargo = super::exec::a_cargo(ctx, "payload");
    compare(ctx, &c, n, quiet)
  }));
  // Run again as soon as it has ended.
  v.push(scenario("again", tier.or(1, 2), move |ctx| {
    let fates = vec![*ctx.of("fate", &FATES[..2]), Fate::Fine];
    let mut c = case(&[(false, vec![(false, true), (false, true)])], fates);
    c.runs = 2;
    c.pause = ctx.pick("pause", 2) as u64;
    c.look = true;
    compare(ctx, &c, 1, Opts { select: Select::First, tasks: true, ..quiet })
  }));
  // Every order of tasks within the bound.
  v.push(scenario("schedules", tier.or(1, 2), move |ctx| {
    let fates = vec![*ctx.of("fate", &FATES[..3]), Fate::Fine];
    let mut c = case(&[(false, vec![(ctx.flag("docker"), true), (false, true)])], fates);
    c.cancel = if ctx.flag("cancel") { Some((0, 3)) } else { None };
    compare(ctx, &c, 1, Opts { select: Select::First, tasks: true, ..quiet })
  }));
  v
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C35",
    level: "model_checking",
    rule: "Every workflow of one and two jobs with every fate of each command (success, failure, killed, timeout, abrupt end), host and docker, on one or more remote runners that use the host and docker runner, cancelled at every phase, with every kind of trigger event and payload, under every order of tasks within the deviation bound: compared with the same workflow on a local runner (results, logs, answers to cancels, every command with its directory and environment, what the runner's plugins see, what is left running and on disk).",
    assumptions: &["processes are simulated and the network is in memory", "requests to cancel do not fall on the moment a step ends"],
    scenarios: c35,
  }]
}
