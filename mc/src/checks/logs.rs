//! The logger (C37). It is global to a process, so every execution has a process of its own.
use super::{Check, Tier};
use crate::engine::{scenario, viol, Ctx, Scenario, Violation};
use crate::ensure;
use log::Level;
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};
use std::result::Result;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
  /// 0: by the environment; n: with a level.
  Init(usize),
  /// Level, module, line, text.
  Log(usize, Option<String>, Option<u32>, String),
}

/// What a process does.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Plan {
  /// Thread 0 stops at this point of setting up; then the others run, as far as they get, one after the other; then it goes on.
  pause: Option<usize>,
  threads: Vec<Vec<Act>>,
  /// Done when all threads have ended.
  after: Vec<Act>,
}

const MARK: &str = "\u{1}done\u{1}";

fn act(a: &Act, mark: bool) {
  match a {
    Act::Init(0) => astro_run_logger::init_logger(),
    Act::Init(n) => astro_run_logger::init_logger_with_level(LEVELS[n - 1]),
    Act::Log(level, module, line, text) => {
      let level = LEVELS[*level];
      // What the macros of the log crate do.
      if level <= log::max_level() {
        log::logger().log(&log::Record::builder().level(level).target("target").module_path(module.as_deref()).line(*line).args(format_args!("{text}")).build());
      }
    }
  }
  if mark {
    println!("{MARK}");
  }
}

#[derive(Default)]
struct Stop {
  at: Mutex<(usize, bool, bool)>, // points passed, stopped, released
  cv: Condvar,
}

static STOP: Stop = Stop { at: Mutex::new((0, false, false)), cv: Condvar::new() };

thread_local! {
  static PAUSE: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

fn point() {
  if let Some(at) = PAUSE.with(|p| p.get()) {
    let mut s = STOP.at.lock().unwrap();
    if s.0 == at {
      s.1 = true;
      STOP.cv.notify_all();
      while !s.2 {
        s = STOP.cv.wait(s).unwrap();
      }
    }
    s.0 += 1;
  }
}

/// In the process.
pub fn child() -> i32 {
  let plan: Plan = serde_json::from_reader(std::io::stdin()).unwrap();
  // The harness has turned logging off for itself.
  log::set_max_level(log::LevelFilter::Off);
  let mark = plan.pause.is_none();
  if mark {
    for a in plan.threads.iter().flatten().chain(&plan.after) {
      act(a, mark);
    }
    return 0;
  }
  log::mc::install(point);
  let tids: Vec<Mutex<(i32, bool)>> = plan.threads.iter().map(|_| Mutex::new((0, false))).collect();
  let ok = std::thread::scope(|s| {
    let mut all = vec![];
    for (i, acts) in plan.threads.iter().enumerate() {
      let tid = &tids[i];
      let pause = plan.pause;
      all.push(s.spawn(move || {
        tid.lock().unwrap().0 = unsafe { libc::gettid() };
        PAUSE.with(|p| p.set(pause.filter(|_| i == 0)));
        acts.iter().for_each(|a| act(a, false));
        let mut t = tid.lock().unwrap();
        t.1 = true;
        if i == 0 {
          drop(t);
          STOP.at.lock().unwrap().1 = true;
          STOP.cv.notify_all();
        }
      }));
      if i == 0 {
        let mut s = STOP.at.lock().unwrap();
        let until = Instant::now() + Duration::from_secs(5);
        while !s.1 && Instant::now() < until && !all[0].is_finished() {
          s = STOP.cv.wait_timeout(s, Duration::from_millis(5)).unwrap().0;
        }
      } else {
        // It has ended, or waits for another one.
        let until = Instant::now() + Duration::from_secs(2);
        let mut asleep = 0;
        while asleep < 10 && Instant::now() < until && !all[i].is_finished() {
          std::thread::sleep(Duration::from_millis(1));
          let (t, done) = *tid.lock().unwrap();
          if done {
            break;
          }
          let stat = std::fs::read_to_string(format!("/proc/self/task/{t}/stat")).unwrap_or_default();
          asleep = if stat.rsplit(')').next().is_some_and(|s| s.trim_start().starts_with('S')) { asleep + 1 } else { 0 };
        }
      }
    }
    STOP.at.lock().unwrap().2 = true;
    STOP.cv.notify_all();
    all.into_iter().map(|t| t.join().is_ok()).fold(true, |a, b| a & b)
  });
  if !ok {
    return 3;
  }
  plan.after.iter().for_each(|a| act(a, false));
  0
}

/// What a process that does this writes.
fn output(plan: &Plan, rust_log: Option<&str>) -> Result<String, Violation> {
  let mut c = Command::new(std::env::current_exe().unwrap());
  c.arg("logger").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
  c.env_clear().env("TZ", "UTC");
  if let Some(v) = rust_log {
    c.env("RUST_LOG", v);
  }
  let mut child = c.spawn().expect("spawn");
  let mut stdin = child.stdin.take().unwrap();
  let text = serde_json::to_vec(plan).unwrap();
  std::thread::spawn(move || std::io::Write::write_all(&mut stdin, &text));
  let (mut out, mut err) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
  let read = |r: &mut dyn std::io::Read| {
    let mut b = vec![];
    r.read_to_end(&mut b).ok();
    String::from_utf8_lossy(&b).into_owned()
  };
  let errs = std::thread::spawn(move || read(&mut err));
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || tx.send(read(&mut out)));
  let got = rx.recv_timeout(Duration::from_secs(30));
  if got.is_err() {
    child.kill().ok();
  }
  let status = child.wait().expect("wait");
  let errs = errs.join().unwrap();
  let Ok(got) = got else { return viol("hang", format!("{plan:?} with RUST_LOG {rust_log:?} did not end")) };
  ensure!(status.success(), "failed", "{plan:?} with RUST_LOG {rust_log:?} failed: {status}, {errs}");
  Ok(got)
}

fn level_of(init: usize, rust_log: Option<&str>) -> Level {
  match (init, rust_log) {
    (0, Some(v)) => LEVELS.into_iter().find(|l| l.as_str().eq_ignore_ascii_case(v)).unwrap_or(Level::Info),
    (0, None) => Level::Info,
    (n, _) => LEVELS[n - 1],
  }
}

/// Is this what is written for a record, with its time within these?
fn mon_record(got: &str, rec: &Act, from: i64, to: i64) -> Result<(), Violation> {
  let Act::Log(level, module, line, text) = rec else { unreachable!() };
  let level = LEVELS[*level].as_str();
  let Some(head) = got.strip_suffix(&format!("{text}\n")) else { return viol("text-differs", format!("{rec:?} was written as {got:?}")) };
  ensure!(head.contains(level) && !LEVELS.iter().any(|l| l.as_str() != level && head.contains(l.as_str())), "level-differs", "{rec:?} was written as {got:?}");
  if let (Some(m), Some(l)) = (module, line) {
    ensure!(head.contains(&format!("{m}:{l}")), "place-differs", "{rec:?} was written as {got:?}");
  }
  let t = head.get(..19).and_then(|t| chrono::NaiveDateTime::parse_from_str(t, "%Y-%m-%d %H:%M:%S").ok()).map(|t| t.and_utc().timestamp());
  ensure!(t.is_some_and(|t| from <= t && t <= to), "time-differs", "{rec:?} was written as {got:?} between {from} and {to}");
  Ok(())
}

/// One thread: after every action, what it has written is there.
fn one(acts: Vec<Act>, rust_log: Option<&str>) -> Result<String, Violation> {
  let from = chrono::Utc::now().timestamp();
  let plan = Plan { threads: vec![acts.clone()], ..Default::default() };
  let out = output(&plan, rust_log)?;
  let to = chrono::Utc::now().timestamp();
  let end = format!("{MARK}\n");
  let parts: Vec<&str> = out.split(&end).collect();
  ensure!(parts.len() == acts.len() + 1 && parts.last() == Some(&""), "written-later", "{plan:?} wrote {out:?}");
  let mut level = None;
  let mut n = 0;
  for (a, got) in acts.iter().zip(parts) {
    match a {
      Act::Init(i) => {
        level.get_or_insert(level_of(*i, rust_log));
        ensure!(got.is_empty(), "written-by-init", "{a:?} wrote {got:?}");
      }
      Act::Log(l, ..) if level.is_some_and(|m| LEVELS[*l] <= m) => {
        ensure!(!got.is_empty(), "not-written", "with RUST_LOG {rust_log:?}, {a:?} of {acts:?} was not written");
        mon_record(got, a, from, to)?;
        n += 1;
      }
      _ => ensure!(got.is_empty(), "unimportant", "with RUST_LOG {rust_log:?}, {a:?} of {acts:?} was written: {got:?}"),
    }
  }
  Ok(format!("{level:?} {n}"))
}

const NAMED: [Option<&str>; 13] = [None, Some(""), Some("error"), Some("warn"), Some("info"), Some("debug"), Some("trace"), Some("ERROR"), Some("Trace"), Some("dEbUg"), Some("nonsense"), Some("warning"), Some("1")];

fn all_levels(text: &str) -> Vec<Act> {
  (0..5).map(|l| Act::Log(l, Some("a::module".into()), Some(10 + l as u32), format!("{text}{l}"))).collect()
}

fn c37(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  // Setting up, again and again; records before, between and after.
  v.push(scenario("set-ups", 0, move |ctx: &Ctx| {
    let named = *ctx.of("RUST_LOG", &NAMED);
    let n = ctx.pick("set-ups", tier.or(3, 4));
    let mut acts = all_levels("early");
    for i in 0..n {
      acts.push(Act::Init(ctx.pick("with", 6)));
      acts.extend(all_levels(&format!("after {i}: ")));
    }
    one(acts, named)
  }));
  // Records of all kinds.
  v.push(scenario("records", 0, move |ctx: &Ctx| {
    const TEXTS: [&str; 16] = ["", "x", " ", "two words", "a\nb", "\n", "a\n\nb\n", "{}", "{0} %s %d", "\u{e9}\u{65e5}", "\u{1b}[31mred\u{1b}[0m", "\t", "\"quoted\" \\", "\r", "\0", "trailing "];
    let level = ctx.pick("level", 5);
    let text = *ctx.of("text", &TEXTS);
    let module = ctx.of("module", &[Some("m"), Some("a_b::c"), Some(""), None]).map(|m| m.to_string());
    let line = *ctx.of("line", &[Some(1), Some(u32::MAX), None]);
    let max = 1 + ctx.pick("max", 5);
    let rec = Act::Log(level, module, line, text.into());
    one(vec![Act::Init(max), rec.clone(), rec.clone(), rec], None)
  }));
  v.push(scenario("long", 0, move |ctx: &Ctx| {
    let len = *ctx.of("length", &[1000usize, 1024, 4096, 8192, 65536, 100_000]);
    let lines = ctx.flag("lines");
    let text: String = (0..len).map(|i| if lines && i % 100 == 99 { '\n' } else { (b'a' + (i % 26) as u8) as char }).collect();
    let n = 1 + ctx.pick("records", 3);
    let acts = [Act::Init(3)].into_iter().chain((0..n).map(|i| Act::Log(i % 3, Some("m".into()), Some(1), format!("{i}{text}")))).collect();
    one(acts, None)
  }));
  // Several threads set it up at once. Each may log as soon as it is done with that.
  v.push(scenario("at-once", 0, move |ctx: &Ctx| {
    let pause = ctx.pick("pause", 6);
    let n = 2 + ctx.pick("threads", tier.or(1, 2));
    let named = *ctx.of("RUST_LOG", &[None, Some("debug")]);
    let inits: Vec<usize> = (0..n).map(|_| *ctx.of("with", &[0usize, 1, 5])).collect();
    let rec = |who: usize, l: usize| Act::Log(l, Some("m".into()), Some(1), format!("<{who}.{l}>"));
    let plan = Plan { pause: Some(pause), threads: inits.iter().enumerate().map(|(t, i)| [Act::Init(*i)].into_iter().chain((0..5).map(|l| rec(t, l))).collect()).collect(), after: (0..5).map(|l| rec(n, l)).collect() };
    let from = chrono::Utc::now().timestamp();
    let out = output(&plan, named)?;
    let to = chrono::Utc::now().timestamp();
    let who = || format!("threads set it up at once ({plan:?}, RUST_LOG {named:?}) and wrote {out:?}");
    let mut by: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for l in out.split_inclusive('\n') {
      let at = (0..=n).flat_map(|t| (0..5).map(move |l| (t, l))).find(|(t, k)| l.ends_with(&format!("<{t}.{k}>\n")));
      let Some((t, k)) = at else { return viol("garbled", who()) };
      mon_record(l, &rec(t, k), from, to)?;
      by[t].push(k);
    }
    let right = inits.iter().any(|i| {
      let most = LEVELS.iter().position(|l| *l == level_of(*i, named)).unwrap();
      by.iter().all(|b| *b == (0..=most).collect::<Vec<_>>())
    });
    ensure!(right, "not-written", "{}", who());
    Ok(format!("{by:?}"))
  }));
  v
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C37",
    level: "model_checking",
    rule: "All sequences of setting up with all levels and names of levels, with records of all levels before, between and after; all combinations of texts, places and levels of records; all points of setting up at which one thread stops while others set up and log. Every execution is a process of its own whose output is compared with what was logged.",
    assumptions: &["standard output can be written to", "no other logger has been installed"],
    scenarios: c37,
  }]
}
