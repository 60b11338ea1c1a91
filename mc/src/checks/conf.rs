//! From configuration to commands: conditions (C13), actions (C14), commands (C15), identifiers (C29).
use super::graph::{hist, WF};
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Scenario, Violation};
use crate::ensure;
use crate::rt::{self, Opts};
use crate::wf::*;
use astro_run::*;
use std::collections::HashMap;
use std::result::Result;
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- C13

/// The reference matcher: `*` any characters, `?` one, `[..]`/`[!..]` one of / none of a set.
fn glob_ref(p: &[char], v: &[char]) -> bool {
  match p.first() {
    None => v.is_empty(),
    Some('*') => (0..=v.len()).any(|i| glob_ref(&p[1..], &v[i..])),
    Some('?') => !v.is_empty() && glob_ref(&p[1..], &v[1..]),
    Some('[') => {
      let close = 2 + p[2..].iter().position(|c| *c == ']').unwrap();
      let neg = p[1] == '!';
      let set = &p[1 + neg as usize..close];
      !v.is_empty() && set.contains(&v[0]) != neg && glob_ref(&p[close + 1..], &v[1..])
    }
    Some(c) => v.first() == Some(c) && glob_ref(&p[1..], &v[1..]),
  }
}

/// What a list of patterns says about a list of values.
fn any_ref(values: &[&str], patterns: &[&str]) -> bool {
  values.iter().any(|v| {
    patterns.iter().any(|p| match *p {
      // Recursive patterns, by table.
      "**/a" => *v == "a" || v.ends_with("/a"),
      "a/**" => v.starts_with("a/"),
      // Not patterns.
      "[" | "a[" | "***" => false,
      p => glob_ref(&p.chars().collect::<Vec<_>>(), &v.chars().collect::<Vec<_>>()),
    })
  })
}

pub type Section = Option<(Option<Vec<&'static str>>, Option<Vec<&'static str>>)>;

#[derive(Clone, Debug)]
pub enum Cond {
  Events(Vec<&'static str>),
  Config { push: Section, pr: Section },
}

pub fn cond_ref(c: &Cond, event: &str, branch: &str, files: &[&str]) -> bool {
  match c {
    Cond::Events(e) => e.contains(&event),
    Cond::Config { push, pr } => {
      let s = match event {
        "push" => push,
        "pull_request" => pr,
        _ => &None,
      };
      match s {
        None => false,
        Some((b, p)) => b.as_ref().is_none_or(|b| any_ref(&[branch], b)) && p.as_ref().is_none_or(|p| any_ref(files, p)),
      }
    }
  }
}

fn own(v: &[&str]) -> Vec<String> {
  v.iter().map(|s| s.to_string()).collect()
}

impl Cond {
  fn real(&self) -> Condition {
    match self {
      Cond::Events(e) => Condition::Event(own(e)),
      Cond::Config { push, pr } => Condition::Config(ConditionConfig {
        push: push.as_ref().map(|(b, p)| PushCondition { branches: b.as_ref().map(|b| own(b)), paths: p.as_ref().map(|p| own(p)) }),
        pull_request: pr.as_ref().map(|(b, p)| PullRequestCondition { branches: b.as_ref().map(|b| own(b)), paths: p.as_ref().map(|p| own(p)) }),
      }),
    }
  }
  /// As it is written in a configuration.
  fn yaml(&self) -> String {
    let list = |l: &Vec<&str>| format!("[{}]", l.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
    match self {
      Cond::Events(e) => format!("on: {}", list(e)),
      Cond::Config { push, pr } => {
        let sec = |s: &Section| {
          let (b, p) = s.as_ref().unwrap();
          let mut v = vec![];
          if let Some(b) = b {
            v.push(format!("branches: {}", list(b)));
          }
          if let Some(p) = p {
            v.push(format!("paths: {}", list(p)));
          }
          format!("{{{}}}", v.join(", "))
        };
        let mut v = vec![];
        if push.is_some() {
          v.push(format!("push: {}", sec(push)));
        }
        if pr.is_some() {
          v.push(format!("pull_request: {}", sec(pr)));
        }
        format!("on: {{{}}}", v.join(", "))
      }
    }
  }
}

fn a_list(ctx: &Ctx, kind: &'static str, of: &[&[&'static str]]) -> Option<Vec<&'static str>> {
  match ctx.pick(kind, of.len() + 1) {
    0 => None,
    i => Some(of[i - 1].to_vec()),
  }
}

const BRANCHES: [&[&str]; 7] = [&["main"], &["feat/*"], &["dev", "main"], &[], &["m?in", "release"], &["["], &["MAIN", "ma"]];
const PATHS: [&[&str]; 8] = [&["***"], &["SRC/*", "a["], &["src/*"], &["docs/*", "a/**"], &[], &["*.md"], &["nope", "src/[!a]"], &["**/a"]];

fn a_section(ctx: &Ctx) -> Section {
  if !ctx.flag("section") {
    return None;
  }
  Some((a_list(ctx, "branches", &BRANCHES), a_list(ctx, "paths", &PATHS)))
}

fn a_cond(ctx: &Ctx) -> Cond {
  match ctx.pick("condition", 5) {
    0 => Cond::Config { push: a_section(ctx), pr: None },
    1 => Cond::Config { push: None, pr: a_section(ctx) },
    2 => Cond::Config { push: a_section(ctx), pr: Some((Some(vec!["main"]), None)) },
    3 => Cond::Config { push: Some((None, Some(vec!["src/*"]))), pr: a_section(ctx) },
    _ => Cond::Events([vec![], vec!["push"], vec!["pull_request"], vec!["push", "pull_request"], vec!["release", "pull_request"], vec!["p", "pull", "PUSH", ""], vec!["*", "push*", "pull_request_target", " push"], vec!["pus", "pull_reques"]][ctx.pick("events", 8)].clone()),
  }
}

/// A few conditions for the scenarios in which several are combined.
fn few_conds() -> Vec<Option<Cond>> {
  vec![
    None,
    Some(Cond::Events(vec!["push"])),
    Some(Cond::Config { push: Some((Some(vec!["main"]), Some(vec!["src/*"]))), pr: None }),
    Some(Cond::Config { push: Some((None, Some(vec!["docs/*"]))), pr: Some((None, None)) }),
    Some(Cond::Config { push: Some((Some(vec!["dev"]), None)), pr: Some((Some(vec!["main", "dev"]), Some(vec!["src/*"]))) }),
  ]
}

pub fn trigger(event: &str, branch: &str) -> TriggerEvent {
  TriggerEvent { event: event.into(), branch: branch.into(), pr_number: Some(1), ..Default::default() }
}

/// Changed files by kind of event; `None`: they cannot be determined.
pub fn files_hook(push: Option<Vec<&'static str>>, pr: Option<Vec<&'static str>>, slow: bool) {
  let f: ChangedFiles = Arc::new(move |kind| {
    let r = match kind {
      "push" => &push,
      "pull_request" => &pr,
      k => panic!("asked for {k}"),
    };
    let r = r.as_ref().map(|f| own(f)).ok_or_else(|| Error::internal_runtime_error("no changed files"));
    Box::pin(async move {
      if slow {
        rt::yield_once().await;
      }
      r
    })
  });
  CHANGED_FILES.with(|c| *c.borrow_mut() = Some(f));
}

pub const TOKEN: &str = "a-personal-token";
pub const APP: u64 = 4711;
/// The key of a GitHub App nobody has.
pub const KEY: &str = include_str!("test-key.pem");

pub struct Levels {
  pub workflow: Option<Cond>,
  pub jobs: Vec<Option<Cond>>,
  /// By job and step.
  pub steps: Vec<Vec<Option<Cond>>>,
}

pub fn run_levels(ctx: &Ctx, opts: Opts, l: &Levels, auth: usize, event: Option<TriggerEvent>) -> (Vec<Ev>, Option<WorkflowRunResult>) {
  let w = World::new();
  w.behave("s", vec![Op::Yield, Op::End(RunResult::Succeeded)]);
  let mut jobs = vec![];
  for (j, on) in l.jobs.iter().enumerate() {
    let steps = l.steps[j].iter().map(|on| StepSpec { run: "s".into(), extra: on.iter().map(|c| c.yaml()).collect() }).collect();
    // The last job depends on the first.
    let deps = if j > 0 && j + 1 == l.jobs.len() { vec!["j0".to_string()] } else { vec![] };
    jobs.push(JobSpec { name: format!("j{j}"), deps, extra: on.iter().map(|c| c.yaml()).collect(), steps });
  }
  let mut text = yaml(&jobs);
  if let Some(c) = &l.workflow {
    text = format!("{}\n{text}", c.yaml());
  }
  let w2 = w.clone();
  let r = rt::run(
    ctx,
    opts,
    async move {
      let mut b = AstroRun::builder().runner(MockRunner { w: w2.clone(), fail_hooks: false, append: None }).plugin(Rec { w: Some(w2.clone()), ..Default::default() });
      match auth {
        1 => b = b.github_personal_token(TOKEN),
        2 => b = b.github_app(APP, KEY),
        3 => b = b.github_app(APP, "not a key"),
        _ => {}
      }
      let astro = b.build();
      let wf = Workflow::builder().id(WF).config(text.clone()).build(&astro).await.unwrap_or_else(|e| panic!("{e}\n{text}"));
      let mut ec = astro.execution_context();
      if let Some(e) = event {
        ec = ec.event(e);
      }
      wf.run(ec.build()).await
    },
    Duration::from_secs(10),
  );
  (w.take(), r.ok())
}

/// Judges a run: `want` says which conditions match.
pub fn mon_levels(l: &Levels, ev: &[Ev], r: &Option<WorkflowRunResult>, want: &dyn Fn(&Option<Cond>) -> bool) -> Result<String, Violation> {
  let text = || hist(ev, &Who::Runner);
  let Some(r) = r else { return viol("hang", format!("the run did not terminate: {}", text())) };
  let only_skipped = |id: &str| -> Result<(), Violation> {
    for who in [Who::Plugin(0), Who::Runner] {
      let mine: Vec<&Ev> = ev.iter().filter(|e| e.who == who && (e.id == id || e.id.starts_with(&format!("{id}/")))).collect();
      ensure!(
        mine.len() == 1 && mine[0].id == id && mine[0].what == What::State(WorkflowState::Skipped),
        "skipped-but-told",
        "{id} should have been skipped as a whole; {who:?} was told: {}",
        mine.iter().map(|e| format!("{} {:?}", e.id, e.what)).collect::<Vec<_>>().join("; ")
      );
    }
    Ok(())
  };
  let ran = |id: &str| ev.iter().any(|e| e.id == id && e.what == What::Run);
  if !want(&l.workflow) {
    ensure!(r.state == WorkflowState::Skipped && r.jobs.is_empty(), "ran-though-unmatched", "the workflow should have been skipped, it gave {}: {}", result_text(r), text());
    only_skipped(WF)?;
    return Ok("skipped".into());
  }
  ensure!(r.state == WorkflowState::Succeeded, "skipped-though-matched", "the workflow gave {}: {}", result_text(r), text());
  let mut out = String::new();
  for (j, on) in l.jobs.iter().enumerate() {
    let id = format!("{WF}/j{j}");
    let jr = &r.jobs[&format!("j{j}")];
    if !want(on) {
      ensure!(jr.state == WorkflowState::Skipped && jr.steps.is_empty(), "ran-though-unmatched", "{id} should have been skipped ({on:?}), it gave {:?}: {}", jr.state, text());
      only_skipped(&id)?;
      out.push('-');
      continue;
    }
    ensure!(jr.state == WorkflowState::Succeeded, "skipped-though-matched", "{id} should have run ({on:?}), it gave {:?}: {}", jr.state, text());
    for (k, on) in l.steps[j].iter().enumerate() {
      let id = format!("{id}/{k}");
      let s = &jr.steps[k].state;
      if want(on) {
        ensure!(*s == WorkflowState::Succeeded && ran(&id), "skipped-though-matched", "{id} should have run ({on:?}), it gave {s:?}: {}", text());
        out.push('r');
      } else {
        ensure!(*s == WorkflowState::Skipped, "ran-though-unmatched", "{id} should have been skipped ({on:?}), it gave {s:?}: {}", text());
        only_skipped(&id)?;
        out.push('s');
      }
    }
    out.push(' ');
  }
  Ok(out)
}

fn c13(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Every condition of the family against every kind of event.
  v.push(scenario("conditions", 0, move |ctx| {
    let c = a_cond(ctx);
    let event = *ctx.of("event", &["push", "pull_request", "release", "pushed", "pull_request_target", "PUSH"]);
    let branch = *ctx.of("branch", &["main", "dev", "feat/x", "", "MAIN", "Feat/x", "feat/\u{e9}.1"]);
    let files: &[&str] = ctx.of("files", &[&["src/b"][..], &["README.md", "src/a"], &["docs/x/y"], &[], &["a"], &["x/a", "z"], &["a/b/c"]]);
    let p = ConditionPayload { event: event.into(), branch: branch.into(), paths: own(files) };
    let want = cond_ref(&c, event, branch, files);
    let got = c.real().is_match(&p);
    ensure!(got == want, "wrong-decision", "{c:?} against {event} on {branch:?} with {files:?}: {got}");
    // As read from a configuration.
    let parsed: HashMap<String, Condition> = serde_yaml::from_str(&c.yaml()).map_err(|e| Violation { key: "unreadable".into(), msg: format!("{}: {e}", c.yaml()) })?;
    let got = parsed["on"].is_match(&p);
    ensure!(got == want, "wrong-decision", "{} (as configured) against {event} on {branch:?} with {files:?}: {got}", c.yaml());
    Ok(format!("{want} {event}"))
  }));
  // Every short pattern against every short name.
  let len = tier.or(4, 5);
  v.push(scenario(format!("globs{len}"), 0, move |ctx| {
    const P: [&str; 7] = ["", "a", "/", "*", "?", "[ab]", "[!a]"];
    let mut toks: Vec<&str> = vec![];
    for _ in 0..len {
      match ctx.pick("pattern", P.len()) {
        0 => break,
        i => {
          // Two stars in a row are a different operator.
          if P[i] == "*" && toks.last() == Some(&"*") {
            return Ok("double star".into());
          }
          toks.push(P[i]);
        }
      }
    }
    let pattern = toks.concat();
    // All values at once: an execution is one pattern.
    let mut n = 0;
    let mut values = vec![String::new()];
    let mut i = 0;
    while i < values.len() {
      let v = values[i].clone();
      i += 1;
      if v.len() < 4 {
        for c in ["a", "b", "/"] {
          values.push(format!("{v}{c}"));
        }
      }
      let want = glob_ref(&pattern.chars().collect::<Vec<_>>(), &v.chars().collect::<Vec<_>>());
      for (section, event) in [(true, "push"), (false, "pull_request")] {
        for paths in [false, true] {
          let list = Some(vec![pattern.clone()]);
          let (b, p) = if paths { (None, list) } else { (list, None) };
          let c = Condition::Config(if section {
            ConditionConfig { push: Some(PushCondition { branches: b, paths: p }), pull_request: None }
          } else {
            ConditionConfig { push: None, pull_request: Some(PullRequestCondition { branches: b, paths: p }) }
          });
          let (branch, files) = if paths { (String::new(), vec![v.clone()]) } else { (v.clone(), vec![]) };
          let got = c.is_match(&ConditionPayload { event: event.into(), branch, paths: files });
          ensure!(got == want, "wrong-glob", "pattern {pattern:?} against {v:?} ({event}, paths: {paths}): {got}");
        }
      }
      n += want as usize;
    }
    Ok(format!("{n}"))
  }));
  // The same over names of unusual characters.
  v.push(scenario("odd-globs", 0, move |ctx| {
    const P: [&str; 9] = ["", "a", "A", ".", "\u{e9}", " ", "*", "?", "[!a]"];
    let mut toks: Vec<&str> = vec![];
    for _ in 0..3 {
      match ctx.pick("pattern", P.len()) {
        0 => break,
        i => {
          if P[i] == "*" && toks.last() == Some(&"*") {
            return Ok("double star".into());
          }
          toks.push(P[i]);
        }
      }
    }
    let pattern = toks.concat();
    let mut values = vec![String::new()];
    let mut i = 0;
    let mut n = 0;
    while i < values.len() {
      let v = values[i].clone();
      i += 1;
      if v.chars().count() < 3 {
        for c in ["a", "A", ".", "\u{e9}", " ", "-"] {
          values.push(format!("{v}{c}"));
        }
      }
      let want = glob_ref(&pattern.chars().collect::<Vec<_>>(), &v.chars().collect::<Vec<_>>());
      for paths in [false, true] {
        let list = Some(vec![pattern.clone()]);
        let (b, p) = if paths { (None, list) } else { (list, None) };
        let c = Condition::Config(ConditionConfig { push: Some(PushCondition { branches: b, paths: p }), pull_request: None });
        let (branch, files) = if paths { (String::new(), vec![v.clone()]) } else { (v.clone(), vec![]) };
        let got = c.is_match(&ConditionPayload { event: "push".into(), branch, paths: files });
        ensure!(got == want, "wrong-glob", "pattern {pattern:?} against {v:?} (paths: {paths}): {got}");
      }
      n += want as usize;
    }
    Ok(format!("{n}"))
  }));
  // Many changed files and many patterns, of which one pair fits, wherever it is.
  v.push(scenario("many", 0, move |ctx| {
    let sizes = [1, 2, 20, 33, 101, 257, 1000];
    let nf = *ctx.of("files", &sizes);
    let np = *ctx.of("patterns", &sizes[..tier.or(5, 7)]);
    let at = |n: usize, k: usize| [None, Some(0), Some(n / 2), Some(n - 1)][k];
    let fa = at(nf, ctx.pick("file-at", 4));
    let pa = at(np, ctx.pick("pattern-at", 4));
    let event = ["push", "pull_request"][ctx.pick("event", 2)];
    let files: Vec<String> = (0..nf).map(|i| if fa == Some(i) { "src/a/x.rs".into() } else { format!("docs/{i}.md") }).collect();
    let patterns: Vec<String> = (0..np).map(|i| if pa == Some(i) { "src/*.rs".into() } else { format!("lib/{i}/*") }).collect();
    let want = fa.is_some() && pa.is_some();
    let c = Condition::Config(ConditionConfig {
      push: Some(PushCondition { branches: None, paths: Some(patterns.clone()) }),
      pull_request: Some(PullRequestCondition { branches: None, paths: Some(patterns) }),
    });
    let got = c.is_match(&ConditionPayload { event: event.into(), branch: "main".into(), paths: files });
    ensure!(got == want, "wrong-decision", "{nf} files (the fitting one at {fa:?}) and {np} patterns (the fitting one at {pa:?}) on {event}: {got}");
    Ok(format!("{want}"))
  }));
  // Conditions at all levels of one run, with and without authorization and event.
  v.push(scenario("levels", tier.or(1, 2), move |ctx| {
    rt::pick_seed(ctx, tier.or(1, 2));
    let conds = few_conds();
    let pick = |k: &'static str| conds[ctx.pick(k, conds.len())].clone();
    let l = Levels {
      workflow: pick("workflow-condition"),
      jobs: vec![pick("job-condition"), None],
      steps: vec![vec![pick("step-condition"), None], vec![pick("other-step-condition")]],
    };
    let (auth, event) = match ctx.pick("trigger", 6) {
      0 => (1, Some(trigger("push", "main"))),
      1 => (2, Some(trigger("pull_request", "main"))),
      2 => (1, Some(trigger("push", "dev"))),
      3 => (0, Some(trigger("push", "dev"))),
      4 => (1, None),
      _ => (0, None),
    };
    files_hook(Some(vec!["src/x"]), Some(vec!["docs/x"]), false);
    let active = auth > 0 && event.is_some();
    let e2 = event.clone();
    let want = move |c: &Option<Cond>| match (c, &e2) {
      (Some(c), Some(e)) if active => cond_ref(c, &e.event, &e.branch, if e.event == "push" { &["src/x"] } else { &["docs/x"] }),
      _ => true,
    };
    let (ev, r) = run_levels(ctx, Opts::default(), &l, auth, event);
    mon_levels(&l, &ev, &r, &want)
  }));
  // Several jobs asking at once, the answer taking its time.
  v.push(scenario("asked-at-once", tier.or(2, 3), move |ctx| {
    rt::pick_seed(ctx, 2);
    let conds = few_conds();
    let pick = |k: &'static str| conds[ctx.pick(k, conds.len())].clone();
    let l = Levels {
      workflow: None,
      jobs: vec![pick("job0"), pick("job1"), None],
      steps: vec![vec![None], vec![None], vec![pick("step")]],
    };
    let event = ["push", "pull_request"][ctx.pick("event", 2)];
    let known = ctx.flag("files-unknown");
    let files: &[&str] = if event == "push" { &["src/x", "y"] } else { &["docs/x"] };
    if known {
      files_hook(None, None, true);
    } else {
      files_hook(Some(vec!["src/x", "y"]), Some(vec!["docs/x"]), true);
    }
    let want = move |c: &Option<Cond>| known || c.as_ref().is_none_or(|c| cond_ref(c, event, "main", files));
    let (ev, r) = run_levels(ctx, Opts::default(), &l, 1, Some(trigger(event, "main")));
    mon_levels(&l, &ev, &r, &want)
  }));
  v
}

// ---------------------------------------------------------------- C14

/// What an action makes of a step.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
  Run,
  PreRun,
  RunPost,
  PreRunPost,
  Nested,
  Fails,
}

struct Act {
  tag: &'static str,
  kind: Kind,
  given: Arc<Mutex<Vec<String>>>,
}

fn cmd(run: String) -> UserStep {
  UserStep::Command(UserCommandStep { run, ..Default::default() })
}

/// A command, possibly with everything else that a command can have.
fn dressed(run: String, all: bool) -> UserStep {
  let UserStep::Command(plain) = cmd(run.clone()) else { unreachable!() };
  if !all {
    return UserStep::Command(plain);
  }
  UserStep::Command(UserCommandStep {
    name: Some(format!("name of {run}")),
    container: Some(Container::Name(format!("image of {run}"))),
    continue_on_error: Some(true),
    timeout: Some("7m".into()),
    secrets: Some(vec!["S".into()]),
    on: Some(Condition::Event(vec!["push".into(), "pull_request".into()])),
    ..plain
  })
}

impl Action for Act {
  fn normalize(&self, step: UserActionStep) -> astro_run::Result<ActionSteps> {
    self.given.lock().unwrap().push(serde_json::to_string(&step).unwrap());
    let n = step.name.clone().unwrap_or_default();
    let t = |p: &str| dressed(format!("{p}:{}:{n}", self.tag), self.tag == "S");
    let pre = matches!(self.kind, Kind::PreRun | Kind::PreRunPost).then(|| t("pre"));
    let post = matches!(self.kind, Kind::RunPost | Kind::PreRunPost).then(|| t("post"));
    match self.kind {
      Kind::Fails => Err(Error::workflow_config_error("no")),
      Kind::Nested => Ok(ActionSteps { pre: None, run: UserStep::Action(UserActionStep { uses: "reg".into(), ..Default::default() }), post: None }),
      _ => Ok(ActionSteps { pre, run: t("run"), post }),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Resolve {
  No,
  Yes,
  Fail,
}

struct Resolver {
  tag: &'static str,
  how: Resolve,
  kind: Kind,
  given: Arc<Mutex<Vec<String>>>,
  asked: Arc<Mutex<Vec<(&'static str, String)>>>,
}

#[async_trait]
impl Plugin for Resolver {
  fn name(&self) -> &'static str {
    self.tag
  }
  async fn on_resolve_dynamic_action(&self, step: UserActionStep) -> HookResolveActionResult {
    self.asked.lock().unwrap().push((self.tag, step.uses.clone()));
    match self.how {
      Resolve::Fail => Err(Error::error("plugin")),
      Resolve::Yes if step.uses != "nobody" => Ok(Some(Box::new(Act { tag: self.tag, kind: self.kind, given: self.given.clone() }))),
      _ => Ok(None),
    }
  }
}

fn c14(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("expansion", tier.or(0, 1), move |ctx| {
    const KINDS: [Kind; 6] = [Kind::PreRunPost, Kind::Run, Kind::PreRun, Kind::RunPost, Kind::Nested, Kind::Fails];
    const HOWS: [Resolve; 3] = [Resolve::Yes, Resolve::No, Resolve::Fail];
    let reg = *ctx.of("registered", &KINDS);
    let reg2 = *ctx.of("registered2", &[Kind::PreRunPost, Kind::RunPost]);
    let dynk = *ctx.of("dynamic", &[Kind::PreRunPost, Kind::PreRun, Kind::Nested, Kind::Fails]);
    let hows = [*ctx.of("plugin0", &HOWS), *ctx.of("plugin1", &HOWS)];
    let n = 1 + ctx.pick("steps", tier.or(3, 4));
    const USES: [&str; 5] = ["reg", "", "reg2", "dyn", "nobody"];
    let uses: Vec<&str> = (0..n).map(|_| *ctx.of("step", &USES)).collect();
    let given: Vec<Arc<Mutex<Vec<String>>>> = (0..4).map(|_| Default::default()).collect();
    let asked: Arc<Mutex<Vec<(&'static str, String)>>> = Default::default();
    let w = World::new();
    // The reference.
    let (mut pre, mut mid, mut post) = (vec![], vec![], vec![]);
    let mut error = false;
    let mut want_given: Vec<Vec<usize>> = vec![vec![]; 4];
    for (i, u) in uses.iter().enumerate() {
      let (tag, kind, g) = match *u {
        "" => {
          mid.push(format!("cmd{i}"));
          continue;
        }
        "reg" => ("R", reg, 0),
        "reg2" => ("S", reg2, 1),
        "dyn" if hows[0] == Resolve::Yes => ("P", dynk, 2),
        "dyn" if hows[1] == Resolve::Yes => ("Q", dynk, 3),
        _ => {
          error = true;
          break;
        }
      };
      want_given[g].push(i);
      match kind {
        Kind::Fails => {
          error = true;
          break;
        }
        Kind::Nested => {
          error = true;
          // Found out once all steps have been expanded.
          continue;
        }
        _ => {}
      }
      let t = |p: &str| format!("{p}:{tag}:n{i}");
      if matches!(kind, Kind::PreRun | Kind::PreRunPost) {
        pre.push(t("pre"));
      }
      mid.push(t("run"));
      if matches!(kind, Kind::RunPost | Kind::PreRunPost) {
        post.insert(0, t("post"));
      }
    }
    let want: Vec<String> = pre.into_iter().chain(mid).chain(post).collect();
    for r in &want {
      w.behave(r, vec![Op::End(RunResult::Succeeded)]);
    }
    let mut text = String::from("jobs:\n  j:\n    steps:\n");
    for (i, u) in uses.iter().enumerate() {
      if u.is_empty() {
        text += &format!("      - run: cmd{i}\n");
      } else {
        text += &format!("      - name: n{i}\n        uses: {u}\n        with:\n          key: [1, \"v{i}\"]\n        timeout: {i}m\n        continue-on-error: true\n{}", if i % 2 == 1 { "        on: [push]\n" } else { "" });
      }
    }
    let (w2, g2, a2) = (w.clone(), given.clone(), asked.clone());
    let t2 = text.clone();
    let r = rt::run(
      ctx,
      Opts::default(),
      async move {
        let astro = AstroRun::builder()
          .runner(MockRunner { w: w2.clone(), fail_hooks: false, append: None })
          .plugin(Resolver { tag: "P", how: hows[0], kind: dynk, given: g2[2].clone(), asked: a2.clone() })
          .plugin(Resolver { tag: "Q", how: hows[1], kind: dynk, given: g2[3].clone(), asked: a2.clone() })
          .action("reg", Act { tag: "R", kind: reg, given: g2[0].clone() })
          .action("reg2", Act { tag: "S", kind: reg2, given: g2[1].clone() })
          .build();
        let wf = Workflow::builder().id(WF).config(t2).build(&astro).await.map_err(|e| e.to_string())?;
        let runs: Vec<(String, String, serde_json::Value)> = wf.jobs["j"].steps.iter().map(|s| (s.id.to_string(), s.run.clone(), serde_json::json!({"name": s.name, "container": s.container, "run": s.run, "on": s.on, "continue-on-error": s.continue_on_error, "environments": s.environments, "secrets": s.secrets, "timeout": s.timeout.as_millis() as u64}))).collect();
        let r = wf.run(astro.execution_context().build()).await;
        Ok::<_, String>((runs, r))
      },
      Duration::from_secs(1),
    );
    let Ok(r) = r else { return viol("hang", "building or running did not terminate") };
    let who = || format!("{uses:?} with registered {reg:?}/{reg2:?}, dynamic {dynk:?}, plugins {hows:?}");
    match r {
      Err(e) => ensure!(error, "rejected", "{} was rejected: {e}", who()),
      Ok((runs, r)) => {
        ensure!(!error, "accepted", "{} was accepted: {runs:?}", who());
        let want_ids: Vec<(String, String)> = want.iter().enumerate().map(|(i, r)| (format!("{WF}/j/{i}"), r.clone())).collect();
        ensure!(runs.iter().map(|r| (r.0.clone(), r.1.clone())).collect::<Vec<_>>() == want_ids, "wrong-order", "{} expanded to {runs:?}, expected {want:?}", who());
        // What the action made of the step is run with everything the action gave it, and nothing else.
        for (_, run, step) in &runs {
          let all = run.contains(":S:");
          let want = serde_json::json!({
            "name": all.then(|| format!("name of {run}")),
            "container": all.then(|| serde_json::json!({"name": format!("image of {run}"), "volumes": null, "security-opts": null})),
            "run": run,
            "on": all.then(|| ["push", "pull_request"]),
            "continue-on-error": all,
            "environments": {},
            "secrets": if all { vec!["S"] } else { vec![] },
            "timeout": if all { 420_000 } else { 3_600_000 },
          });
          ensure!(*step == want, "wrong-fields", "{}: the step {run} is {step}, expected {want}", who());
        }
        let ran: Vec<String> = w.contexts.lock().unwrap().iter().map(|c| c.command.run.clone()).collect();
        ensure!(ran == want, "wrong-order", "{} ran {ran:?}, expected {want:?}", who());
        ensure!(r.state == WorkflowState::Succeeded, "result", "{} gave {}", who(), result_text(&r));
        // Every action was given its own step, as configured.
        for (g, is) in given.iter().zip(&want_given) {
          let got = g.lock().unwrap().clone();
          let want: Vec<serde_json::Value> = is
            .iter()
            .map(|i| serde_json::json!({"name": format!("n{i}"), "uses": uses[*i], "with": {"key": [1, format!("v{i}")]}, "on": (i % 2 == 1).then(|| ["push"]), "continue-on-error": true, "environments": null, "secrets": null, "timeout": format!("{i}m")}))
            .collect();
          let got: Vec<serde_json::Value> = got.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
          ensure!(got == want, "wrong-step", "{}: an action was given {got:?}, expected {want:?}", who());
        }
        // Plugins are asked in order, and not about registered actions.
        for (_, uses) in asked.lock().unwrap().iter() {
          ensure!(uses != "reg" && uses != "reg2", "precedence", "a plugin was asked to resolve the registered action {uses}");
        }
      }
    }
    Ok(format!("{error} {}", want.join(",")))
  }));
  // Names that only look like a registered action's are somebody else's, or nobody's.
  v.push(scenario("near-misses", 0, move |ctx| {
    const NAMES: [&str; 5] = ["reg", "reg@v1", "org/reg", "Reg", "reg ularly"];
    const USES: [&str; 22] = [
      "reg", "reg@v1", "org/reg", "Reg", "reg ularly", "re", "regi", "reg@", "reg@v2", "reg@v1@v1", "@v1", "v1", "REG", "rEg", " reg", "reg ", "./reg", "org/reg/x", "org", "reg/", "r*", "reg\u{0}",
    ];
    // Which of the names are registered.
    let there: Vec<bool> = NAMES.iter().map(|_| ctx.flag("registered")).collect();
    let uses = *ctx.of("uses", &USES);
    let plugin = *ctx.of("plugin", &[Resolve::No, Resolve::Yes, Resolve::Fail]);
    let given: Vec<Arc<Mutex<Vec<String>>>> = (0..6).map(|_| Default::default()).collect();
    let asked: Arc<Mutex<Vec<(&'static str, String)>>> = Default::default();
    let known = NAMES.iter().position(|n| *n == uses).filter(|i| there[*i]);
    let text = format!("jobs:\n  j:\n    steps:\n      - name: n0\n        uses: {}\n", q(uses));
    const TAGS: [&str; 5] = ["A", "B", "C", "D", "E"];
    let (g2, a2, there2) = (given.clone(), asked.clone(), there.clone());
    let t2 = text.clone();
    let r = rt::run(
      ctx,
      Opts::default(),
      async move {
        let mut b = AstroRun::builder()
          .runner(MockRunner { w: World::new(), fail_hooks: false, append: None })
          .plugin(Resolver { tag: "P", how: plugin, kind: Kind::Run, given: g2[5].clone(), asked: a2.clone() });
        for i in 0..NAMES.len() {
          if there2[i] {
            b = b.action(NAMES[i], Act { tag: TAGS[i], kind: Kind::Run, given: g2[i].clone() });
          }
        }
        let astro = b.build();
        let wf = Workflow::builder().id(WF).config(t2).build(&astro).await.map_err(|e| e.to_string())?;
        Ok::<_, String>(wf.jobs["j"].steps.iter().map(|s| s.run.clone()).collect::<Vec<_>>())
      },
      Duration::from_secs(1),
    );
    let Ok(r) = r else { return viol("hang", "building did not terminate") };
    let want = match known {
      Some(i) => Some(vec![format!("run:{}:n0", TAGS[i])]),
      None if plugin == Resolve::Yes => Some(vec!["run:P:n0".to_string()]),
      None => None,
    };
    let names: Vec<&str> = NAMES.iter().zip(&there).filter(|(_, t)| **t).map(|(n, _)| *n).collect();
    match (&r, &want) {
      (Ok(got), Some(want)) => ensure!(got == want, "wrong-action", "{uses:?} with {names:?} registered became {got:?}, expected {want:?}"),
      (Err(e), Some(_)) => return viol("rejected", format!("{uses:?} is registered, and was rejected: {e}")),
      (Ok(got), None) => return viol("wrong-action", format!("{uses:?} is none of the registered {names:?} and became {got:?}")),
      (Err(_), None) => ensure!(asked.lock().unwrap().iter().any(|(_, u)| u == uses), "not-asked", "the plugin was not asked about {uses:?}, which is none of the registered {names:?}"),
    }
    Ok(format!("{names:?} {uses:?} {r:?}"))
  }));
  v
}

// ---------------------------------------------------------------- C15

struct Field {
  yaml: String,
  json: serde_json::Value,
}

fn f(yaml: &str, json: serde_json::Value) -> Field {
  Field { yaml: yaml.into(), json }
}

/// Containers as configured and as the runner has to get them.
fn a_container(ctx: &Ctx, kind: &'static str, n: usize) -> Option<Field> {
  use serde_json::json;
  match ctx.pick(kind, n) {
    0 => None,
    1 => Some(f("ubuntu", json!({"name": "ubuntu", "volumes": null, "security-opts": null}))),
    2 => Some(f("host/linux", json!({"name": "host/linux", "volumes": null, "security-opts": null}))),
    3 => Some(f(
      "{name: \"reg.io/img:1\", volumes: [\"/a:/b\", \"c\"], security-opts: [\"seccomp=unconfined\"]}",
      json!({"name": "reg.io/img:1", "volumes": ["/a:/b", "c"], "security-opts": ["seccomp=unconfined"]}),
    )),
    4 => Some(f("{name: x, volumes: []}", json!({"name": "x", "volumes": [], "security-opts": null}))),
    // The same image with other options.
    5 => Some(f("{name: ubuntu, volumes: [\"/v:/v\"]}", json!({"name": "ubuntu", "volumes": ["/v:/v"], "security-opts": null}))),
    _ => Some(f("{name: \"reg.io/img:1\", security-opts: []}", json!({"name": "reg.io/img:1", "volumes": null, "security-opts": []}))),
  }
}

const RUNS: [&str; 5] = ["echo", " a  b\n\nc\n", "\"'\\$X `y` #z: {w}", "\u{e9}\u{1f600}", ""];

fn timeouts() -> Vec<(&'static str, Option<u128>)> {
  vec![
    ("", Some(3_600_000)),
    ("60m", Some(3_600_000)),
    ("1s", Some(1000)),
    ("1h 30m", Some(5_400_000)),
    ("250ms", Some(250)),
    ("2days", Some(172_800_000)),
    ("0s", Some(0)),
    ("abc", None),
    ("10", None),
    ("-1s", None),
    ("10 parsecs", None),
  ]
}

fn envs() -> Vec<(&'static str, serde_json::Value, Vec<(&'static str, &'static str)>)> {
  use serde_json::json;
  vec![
    ("", json!({}), vec![]),
    ("{A: x}", json!({"A": "x"}), vec![("A", "x")]),
    ("{A: \"1\", B: 1, C: true, D: \"true\"}", json!({"A": "1", "B": 1.0, "C": true, "D": "true"}), vec![("A", "1"), ("B", "1"), ("C", "true"), ("D", "true")]),
    ("{N: -0.5, M: 9007199254740991, L: 1000000, Z: false}", json!({"N": -0.5, "M": 9007199254740991.0f64, "L": 1e6, "Z": false}), vec![("N", "-0.5"), ("M", "9007199254740991"), ("L", "1000000"), ("Z", "false")]),
    ("{E: \"\", S: \" a \\\" \\n b\", \"we ird\": \"=\", \" P \": p, e: lower}", json!({"E": "", "S": " a \" \n b", "we ird": "=", " P ": "p", "e": "lower"}), vec![("E", ""), ("S", " a \" \n b"), ("we ird", "="), (" P ", "p"), ("e", "lower")]),
  ]
}

fn c15(tier: Tier) -> Vec<Scenario> {
  use serde_json::json;
  let mut v = vec![];
  v.push(scenario("commands", 0, move |ctx| {
    let n = 1 + ctx.pick("steps", 2);
    // All values of all fields for a single step; two steps have fewer: that each has its own is what matters.
    let jc = a_container(ctx, "job-container", if n > 1 { 3 } else { 7 });
    let title = if n > 1 { *ctx.of("workflow-name", &[Some("the workflow"), None, Some("")]) } else { Some("the workflow") };
    let mut text = title.map(|t| format!("name: {}\n", q(t))).unwrap_or_default() + "jobs:\n  other:\n    steps: [{run: other}]\n  j:\n";
    if let Some(c) = &jc {
      text += &format!("    container: {}\n", c.yaml);
    }
    let job_extra = n > 1 || ctx.flag("job-extra");
    if job_extra {
      text += "    name: the job\n    working-directories: [\"/x\", \"y\"]\n";
    }
    text += "    steps:\n";
    let mut want = vec![];
    let mut bad = false;
    let w = World::new();
    for k in 0..n {
      let few = n > 1;
      let sc = a_container(ctx, "step-container", if few { tier.or(2, 3) } else { 7 });
      // With both containers given the rest is less varied.
      let both = jc.is_some() && sc.is_some() && tier == Tier::Quick;
      let run = RUNS[ctx.pick("run", if few || both { 2 } else { RUNS.len() })];
      let es = envs();
      let e = &es[ctx.pick("environments", if few || both { 2 } else { es.len() })];
      let secrets = [None, Some(vec!["a", "", " B ", "a"]), Some(vec![])][ctx.pick("secrets", if few { 2 } else { 3 })].clone();
      let coe = [None, Some(true), Some(false)][ctx.pick("continue-on-error", if few { 2 } else { 3 })];
      let ts = timeouts();
      // All forms of timeouts, not in combination with everything else.
      let ts = &ts[..if few { 3 } else if coe.is_some() { 4 } else { ts.len() }];
      let t = ts[if few { 2 * ctx.pick("timeout", 2) } else { ctx.pick("timeout", ts.len()) }];
      let named = few || ctx.flag("name");
      text += &format!("      - run: {}\n", q(run));
      if named {
        text += &format!("        name: \"step {k}\"\n");
      }
      if let Some(c) = &sc {
        text += &format!("        container: {}\n", c.yaml);
      }
      if !e.0.is_empty() {
        text += &format!("        environments: {}\n", e.0);
      }
      if let Some(s) = &secrets {
        text += &format!("        secrets: [{}]\n", s.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
      }
      if let Some(c) = coe {
        text += &format!("        continue-on-error: {c}\n");
      }
      if !t.0.is_empty() {
        text += &format!("        timeout: {}\n", q(t.0));
      }
      bad |= t.1.is_none();
      w.behave(run, vec![Op::End(RunResult::Succeeded)]);
      let container = sc.as_ref().or(jc.as_ref()).map(|c| c.json.clone()).unwrap_or(json!(null));
      want.push((
        json!({
          "id": [WF, "j", k],
          "name": if named { json!(format!("step {k}")) } else { json!(null) },
          "container": container,
          "run": run,
          "continue_on_error": coe.unwrap_or(false),
          "environments": e.1,
          "secrets": secrets.clone().unwrap_or_default(),
        }),
        t.1,
        e.2.clone(),
      ));
    }
    w.behave("other", vec![Op::End(RunResult::Succeeded)]);
    w.keep_sources.store(true, std::sync::atomic::Ordering::Relaxed);
    let (w2, t2) = (w.clone(), text.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: false, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(t2).build(&astro).await.map_err(|e| e.to_string())?;
        let r = wf.run(astro.execution_context().build()).await;
        Ok::<_, String>((wf, r))
      },
      Duration::ZERO,
    );
    let Ok(r) = r else { return viol("hang", format!("did not terminate:\n{text}")) };
    let (wf, _) = match r {
      Err(e) => {
        ensure!(bad, "rejected", "rejected: {e}\n{text}");
        return Ok(format!("rejected {e}"));
      }
      Ok(x) => x,
    };
    ensure!(!bad, "invalid-timeout-accepted", "a workflow with an invalid timeout was accepted:\n{text}");
    ensure!(wf.name.as_deref() == title, "workflow-name", "the workflow is called {:?}", wf.name);
    let j = &wf.jobs["j"];
    let dirs: &[&str] = if job_extra { &["/x", "y"] } else { &[] };
    ensure!(j.name.as_deref() == job_extra.then_some("the job") && j.working_directories == dirs, "job-fields", "the job is {:?} {:?}\n{text}", j.name, j.working_directories);
    let cs = w.contexts.lock().unwrap().clone();
    let mine: Vec<_> = cs.iter().filter(|c| c.id.job_key() == "j").collect();
    ensure!(mine.len() == n, "commands", "{} commands were run\n{text}", mine.len());
    for (k, (c, (want, timeout, shown))) in mine.iter().zip(&want).enumerate() {
      let mut got = serde_json::to_value(&c.command).unwrap();
      got.as_object_mut().unwrap().remove("timeout");
      ensure!(got == *want, "command-differs", "step {k}: the runner got {got}, expected {want}\n{text}");
      ensure!(c.id == c.command.id && c.id == StepId::new(WF, "j", k), "id-differs", "step {k} is run as {} / {}", c.id, c.command.id);
      ensure!(Some(c.command.timeout.as_millis()) == *timeout, "timeout-differs", "step {k}: the timeout is {:?}, expected {timeout:?} ms\n{text}", c.command.timeout);
      for (name, text) in shown {
        let got = c.command.environments[*name].to_string();
        ensure!(got == *text, "env-text", "step {k}: environment value {name} prints as {got:?}, expected {text:?}");
      }
    }
    // Who is told of starts is told of just these.
    for (hook, got) in w.sources.lock().unwrap().iter() {
      let all = match hook.split_once(".on_run_").unwrap().1 {
        "workflow" => vec![serde_json::to_value(&wf).unwrap()],
        "job" => wf.jobs.values().map(|j| serde_json::to_value(j).unwrap()).collect(),
        _ => wf.jobs.values().flat_map(|j| &j.steps).map(|s| serde_json::to_value(s).unwrap()).collect::<Vec<_>>(),
      };
      ensure!(all.contains(got), "notified-of-another", "{hook} was told of {got}, there is {all:?}\n{text}");
    }
    Ok(format!("{mine:?}"))
  }));
  // Values of environment variables as they are written.
  v.push(scenario("values", 0, move |ctx| {
    let text = match ctx.pick("kind", 4) {
      // Integers: every length, with the digits that show where a double ends.
      0 => {
        let len = 1 + ctx.pick("digits", 20);
        let digits = [
          "99999999999999999999", "10000000000000000001", "90071992547409931234", "12345678901234567890", "18446744073709551615", "92233720368547758072",
        ][ctx.pick("pattern", 6)];
        format!("{}{}", ["", "-"][ctx.pick("sign", 2)], &digits[..len])
      }
      1 => {
        let whole = ["0", "7", "10", "123456789"][ctx.pick("whole", 4)];
        let frac = ["5", "25", "001", "123456"][ctx.pick("fraction", 4)];
        format!("{}{whole}.{frac}", ["", "-"][ctx.pick("sign", 2)])
      }
      // What looks like a number but is text.
      2 => ["007", "1_000", "1,5", "1.2.3", "2024-01-02", "12:30", "1e", "0x", "v1", "1 2", "--1", "+-1"][ctx.pick("text", 12)].to_string(),
      _ => ["true", "false", "yes", "no", "on", "off", "y", "True1", "nullable", "~x"][ctx.pick("word", 10)].to_string(),
    };
    let quoted = ctx.flag("quoted");
    // The largest numbers are refused by the parser; nothing may arrive changed.
    let huge = text.trim_start_matches('-').len() >= 19 && text.parse::<i128>().is_ok_and(|n| n > u64::MAX as i128 || n < i64::MIN as i128);
    let yaml = format!("jobs:\n  j:\n    steps:\n    - run: x\n      environments:\n        A: {}\n", if quoted { q(&text) } else { text.clone() });
    let w = World::new();
    w.behave("x", vec![Op::End(RunResult::Succeeded)]);
    let (w2, t2) = (w.clone(), yaml.clone());
    let r = rt::run(
      ctx,
      Opts { tasks: false, ..Default::default() },
      async move {
        let astro = astro(&w2, 1);
        let wf = Workflow::builder().id(WF).config(t2).build(&astro).await.map_err(|e| e.to_string())?;
        wf.run(astro.execution_context().build()).await;
        Ok::<_, String>(())
      },
      Duration::ZERO,
    );
    let Ok(r) = r else { return viol("hang", format!("did not terminate:\n{yaml}")) };
    if let Err(e) = r {
      ensure!(huge && !quoted, "rejected", "rejected: {e}\n{yaml}");
      return Ok("rejected".into());
    }
    let cs = w.contexts.lock().unwrap().clone();
    let got = cs[0].command.environments["A"].to_string();
    ensure!(got == text || (huge && !quoted), "value-differs", "the environment variable is {got:?}, configured is {text}");
    // -0 is 0 in YAML.
    Ok(format!("{:?}", cs[0].command.environments["A"]))
  }));
  // Many jobs: every step is told its own job and position.
  v.push(scenario("positions", tier.or(1, 2), move |ctx| {
    rt::pick_seed(ctx, tier.or(3, 6));
    let jobs = 1 + ctx.pick("jobs", 3);
    let w = World::new();
    let mut specs = vec![];
    let mut want = vec![];
    for j in 0..jobs {
      let n = 1 + ctx.pick("steps", 3);
      let mut steps = vec![];
      for k in 0..n {
        let run = format!("job{j}step{k}");
        w.behave(&run, vec![Op::Yield, Op::End(RunResult::Succeeded)]);
        want.push((format!("id w/k {j}/{k}"), run.clone()));
        steps.push(step(run));
      }
      specs.push(job(&format!("k {j}"), &[], steps));
    }
    let text = yaml(&specs);
    let w2 = w.clone();
    let r = rt::run(
      ctx,
      Opts::default(),
      async move {
        let astro = astro(&w2, 0);
        let wf = Workflow::builder().id("id w").config(text).build(&astro).await.map_err(|e| e.to_string())?;
        Ok::<_, String>(wf.run(astro.execution_context().build()).await)
      },
      Duration::ZERO,
    );
    ensure!(matches!(&r, Ok(Ok(r)) if r.state == WorkflowState::Succeeded), "rejected", "the run failed");
    let mut got: Vec<(String, String)> = w.contexts.lock().unwrap().iter().map(|c| (c.id.to_string(), c.command.run.clone())).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "wrong-position", "the runner got {got:?}, expected {want:?}");
    Ok(format!("{}", got.len()))
  }));
  v
}

// ---------------------------------------------------------------- C29

const PARTS: [&str; 12] = ["a", "b", "a-b", ".", "..", " ", "\u{e9}", "0", "1", "-", "\n", "%2F"];

fn c29(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  v.push(scenario("round-trip", 0, move |ctx| {
    let part = |k: &'static str| {
      let mut s = PARTS[ctx.pick(k, PARTS.len())].to_string();
      if ctx.flag("longer") {
        s += PARTS[ctx.pick(k, tier.or(4, PARTS.len()))];
      }
      s
    };
    let w = part("workflow");
    let j = part("job");
    let nr = *ctx.of("step", &[0usize, 1, 9, 10, usize::MAX]);
    let wid = WorkflowId::new(w.clone());
    let jid = JobId::new(w.clone(), j.clone());
    let sid = StepId::new(w.clone(), j.clone(), nr);
    ensure!(wid.to_string() == w && jid.to_string() == format!("{w}/{j}") && sid.to_string() == format!("{w}/{j}/{nr}"), "printed", "printed as {wid}, {jid}, {sid}");
    ensure!(WorkflowId::try_from(wid.to_string().as_str()).ok() == Some(wid.clone()), "round-trip", "workflow id {w:?} does not survive");
    ensure!(JobId::try_from(jid.to_string().as_str()).ok() == Some(jid.clone()), "round-trip", "job id {w:?}/{j:?} does not survive");
    ensure!(StepId::try_from(sid.to_string().as_str()).ok() == Some(sid.clone()), "round-trip", "step id {w:?}/{j:?}/{nr} does not survive");
    ensure!(sid.job_id() == jid && sid.workflow_id() == wid && jid.workflow_id() == wid, "parts", "the parts of {sid} do not agree");
    ensure!(wid.inner() == w && jid.job_key() == j && sid.job_key() == j && sid.step_number() == nr, "parts", "the parts of {sid} do not agree");
    Ok(format!("{}", sid.to_string().len()))
  }));
  // Different identifiers are different and print differently.
  v.push(scenario("distinct", 0, move |ctx| {
    let n = tier.or(6, PARTS.len());
    let (w1, w2) = (ctx.pick("w1", n), ctx.pick("w2", n));
    let (j1, j2) = (ctx.pick("j1", n), ctx.pick("j2", n));
    let (a, b) = (JobId::new(PARTS[w1], PARTS[j1]), JobId::new(PARTS[w2], PARTS[j2]));
    let same = w1 == w2 && j1 == j2;
    ensure!((a == b) == same && (a.to_string() == b.to_string()) == same, "not-distinct", "{a:?} and {b:?}");
    for (x, y) in [(0, 0), (0, 1), (1, 10), (1, 11)] {
      let (a, b) = (StepId::new(PARTS[w1], PARTS[j1], x), StepId::new(PARTS[w2], PARTS[j2], y));
      let same = same && x == y;
      ensure!((a == b) == same && (a.to_string() == b.to_string()) == same, "not-distinct", "{a:?} and {b:?}");
      let m: HashMap<StepId, u8> = [(a.clone(), 1)].into();
      ensure!(m.contains_key(&b) == same, "not-distinct", "as keys: {a:?} and {b:?}");
    }
    Ok(format!("{same}"))
  }));
  // Every text over a small alphabet: accepted exactly when it has the right number of parts.
  let len = tier.or(6, 8);
  v.push(scenario(format!("texts{len}"), 0, move |ctx| {
    let mut s = String::new();
    for _ in 0..len {
      match ctx.pick("char", 5) {
        0 => break,
        i => s.push(['/', 'a', '7', '-'][i - 1]),
      }
    }
    let parts: Vec<&str> = s.split('/').collect();
    let w = WorkflowId::try_from(s.as_str());
    let j = JobId::try_from(s.as_str());
    let st = StepId::try_from(s.as_str());
    ensure!(w.is_ok() != s.is_empty(), "shape", "{s:?} as a workflow id: {w:?}");
    ensure!(j.is_ok() == (parts.len() == 2), "shape", "{s:?} as a job id: {j:?}");
    let num = parts.last().filter(|p| !p.is_empty() && p.chars().all(|c| c == '7'));
    ensure!(st.is_ok() == (parts.len() == 3 && num.is_some()), "shape", "{s:?} as a step id: {st:?}");
    if let Ok(j) = j {
      ensure!(j == JobId::new(parts[0], parts[1]), "round-trip", "{s:?} was read as {j:?}");
    }
    if let Ok(st) = st {
      ensure!(st == StepId::new(parts[0], parts[1], num.unwrap().parse().unwrap()), "round-trip", "{s:?} was read as {st:?}");
    }
    Ok(format!("{} {}", parts.len(), num.is_some()))
  }));
  v.push(scenario("bad-numbers", 0, move |ctx| {
    let t = *ctx.of("number", &["a", "", "-1", "1.0", " 1", "1 ", "0x1", "18446744073709551616", "1a", "\u{0661}"]);
    let s = format!("w/j/{t}");
    ensure!(StepId::try_from(s.as_str()).is_err(), "shape", "{s:?} was accepted as a step id");
    Ok(t.into())
  }));
  v
}

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "C13",
      level: "model_checking",
      rule: "All conditions of a family against all events, branches and file lists; all glob patterns and names over a small alphabet to a length; all placements of conditions at workflow, job and step level in real runs with all kinds of triggers; jobs that ask for the changed files at once under all schedules within the deviation bound. Oracle: an independent matcher.",
      assumptions: &["The changed files come from a stand-in for the GitHub API (cfg astro_mc), which may also fail.", "Trigger events are push or pull_request, as documented; when the changed files cannot be determined everything runs."],
      scenarios: c13,
    },
    Check {
      id: "C14",
      level: "model_checking",
      rule: "All jobs of up to three (four) steps out of command, two registered actions, a dynamic and an unknown one, with all shapes of actions and answers of two plugins, expanded and run for real.",
      assumptions: &[],
      scenarios: c14,
    },
    Check {
      id: "C15",
      level: "model_checking",
      rule: "All combinations of the configuration fields of a step, its job and a second step from small sets of representative values (all forms of containers, environment values, timeouts and special characters); all numbers of jobs and steps with hash map orders and schedules.",
      assumptions: &["Fractions in environments are IEEE doubles by design, those with more than 15 digits are not asked for; integers beyond 64 bits may be rejected."],
      scenarios: c15,
    },
    Check {
      id: "C29",
      level: "model_checking",
      rule: "All identifiers built from one or two representative parts; all pairs of a family; all texts over a four letter alphabet to a length.",
      assumptions: &[],
      scenarios: c29,
    },
  ]
}
