//! Command line, evidence files, replay files, known findings.
use crate::checks::{self, Tier};
use crate::engine::{self, Stats, Violation};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(serde::Deserialize, Clone)]
struct Known {
  property: String,
  scenario: String,
  /// Key of the violation, exactly.
  key: String,
  what: String,
}

#[derive(serde::Deserialize, Default)]
struct KnownFile {
  #[serde(default)]
  known: Vec<Known>,
}

fn root() -> PathBuf {
  std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| {
    // target/<profile>/astro-mc lies in <root>/mc
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
  })
}

fn usage() -> ! {
  eprintln!("usage: astro-mc check <property> [quick|thorough] | replay <file> | list");
  std::process::exit(2)
}

pub fn main() {
  engine::install_panic_hook();
  log::set_max_level(log::LevelFilter::Off);
  let args: Vec<String> = std::env::args().skip(1).collect();
  let touches_files = |id: &str| checks::runner::checks().iter().chain(&checks::e2e::checks()).any(|c| c.id == id);
  let id_of = |file: &str| {
    let v: Option<serde_json::Value> = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok());
    v.and_then(|v| v["property"].as_str().map(|s| s.to_string())).unwrap_or_default()
  };
  let code = match args.first().map(|s| s.as_str()) {
    Some("check") if args.len() >= 2 && touches_files(&args[1]) && is_root() => unprivileged(&args),
    Some("replay") if args.len() == 2 && touches_files(&id_of(&args[1])) && is_root() => unprivileged(&args),
    Some("list") => {
      for c in checks::all() {
        println!("{}", c.id);
        for s in (c.scenarios)(Tier::Quick) {
          println!("  {} bound {}", s.name, s.bound);
        }
      }
      0
    }
    Some("check") if args.len() >= 2 => {
      let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        Some("quick") => Tier::Quick,
        None if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") => Tier::Thorough,
        None => Tier::Quick,
        _ => usage(),
      };
      check(&args[1], tier, args.get(3).map(|s| s.as_str()))
    }
    Some("replay") if args.len() == 2 => replay(&args[1]),
    Some("logger") if args.len() == 1 => checks::logs::child(),
    Some("announcer") if args.len() == 1 => checks::remote::announcer(),
    _ => usage(),
  };
  checks::runner::cleanup();
  // Threads of executions that hung may still run.
  use std::io::Write;
  std::io::stdout().flush().ok();
  std::process::exit(code)
}

fn is_root() -> bool {
  unsafe { libc::geteuid() == 0 }
}

const NOBODY: u32 = 65534;

/// Does the same as a user who owns nothing but a scratch directory: what is explored creates and removes files.
fn unprivileged(args: &[String]) -> i32 {
  use std::io::BufRead;
  use std::os::unix::fs::{chown, PermissionsExt};
  use std::os::unix::process::CommandExt;
  let dir = PathBuf::from(format!("/tmp/astro-mc-run-{}", std::process::id()));
  let mine = |p: &Path, mode: u32| {
    chown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).expect("chmod");
  };
  std::fs::create_dir(&dir).expect("scratch directory");
  let home = dir.join("home");
  std::fs::create_dir(&home).expect("scratch directory");
  let exe = dir.join("astro-mc");
  std::fs::copy(std::env::current_exe().expect("exe"), &exe).expect("copy");
  let root = root();
  let mut args = args.to_vec();
  if root.join("known_findings.json").exists() {
    std::fs::copy(root.join("known_findings.json"), dir.join("known_findings.json")).expect("copy");
    mine(&dir.join("known_findings.json"), 0o644);
  }
  if args[0] == "replay" {
    let to = dir.join("replay.json");
    std::fs::copy(&args[1], &to).expect("copy");
    mine(&to, 0o644);
    args[1] = to.display().to_string();
  }
  let given = std::env::args().nth(2).unwrap_or_default();
  mine(&home, 0o755);
  mine(&exe, 0o755);
  mine(&dir, 0o755);
  let mut c = std::process::Command::new(&exe);
  c.args(&args).uid(NOBODY).gid(NOBODY).current_dir(&dir).env("VERIF_ROOT", &dir).env("ASTRO_MC_SCRATCH", dir.join("scratch")).env("HOME", &home).env("TMPDIR", &home);
  c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped());
  unsafe {
    c.pre_exec(|| {
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      Ok(())
    });
  }
  let mut child = c.spawn().expect("explorer");
  let file = if args[0] == "replay" { args[1].clone() } else { "\0".into() };
  let (from, to) = (dir.display().to_string(), root.display().to_string());
  for l in std::io::BufReader::new(child.stdout.take().unwrap()).lines().map_while(|l| l.ok()) {
    println!("{}", l.replace(&file, &given).replace(&from, &to));
  }
  let code = child.wait().ok().and_then(|s| s.code()).unwrap_or(2);
  for sub in ["evidence", "replays"] {
    let Ok(rd) = std::fs::read_dir(dir.join(sub)) else { continue };
    std::fs::create_dir_all(root.join(sub)).ok();
    for e in rd.flatten() {
      std::fs::copy(e.path(), root.join(sub).join(e.file_name())).ok();
    }
  }
  std::fs::remove_dir_all(&dir).ok();
  code
}

fn check(id: &str, tier: Tier, only: Option<&str>) -> i32 {
  let Some(c) = checks::all().into_iter().find(|c| c.id == id) else {
    eprintln!("no check for {id}");
    return 2;
  };
  let root = root();
  let known: Vec<Known> = std::fs::read_to_string(root.join("known_findings.json"))
    .ok()
    .map(|s| serde_json::from_str::<KnownFile>(&s).expect("known_findings.json").known)
    .unwrap_or_default()
    .into_iter()
    .filter(|k| k.property == id)
    .collect();
  let start = Instant::now();
  let mut all: Vec<Stats> = vec![];
  let mut violations = 0;
  let mut code = 0;
  let total = Duration::from_secs(std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
    Tier::Quick => 300,
    Tier::Thorough => 3600,
  }));
  let scns = (c.scenarios)(tier);
  let deadline = start + total;
  let mut shown: std::collections::BTreeSet<String> = Default::default();
  for s in &scns {
    if only.is_some_and(|o| !s.name.contains(o)) {
      continue;
    }
    let name = s.name.clone();
    let is_known = |v: &Violation| {
      known
        .iter()
        .find(|k| (k.scenario == name || k.scenario == "*") && k.key == v.key)
        .map(|k| k.what.clone())
    };
    let st = engine::explore(s, &is_known, deadline);
    println!(
      "{} {}: {} executions, {} states, {} transitions, {} distinct outcomes, bound {}, pruned {}, max {} points, {:.1}s{}",
      id,
      st.name,
      st.executions,
      st.states,
      st.transitions,
      st.outcomes.len(),
      st.bound,
      st.pruned,
      st.max_points,
      st.wall,
      st.capped.as_ref().map(|c| format!(" CAPPED by {c}")).unwrap_or_default()
    );
    for k in &st.known {
      if shown.insert(k.clone()) {
        println!("KNOWN-FINDING: property={id} {k}");
      }
    }
    if let Some((v, picks)) = &st.violation {
      violations += 1;
      let dir = root.join("replays");
      std::fs::create_dir_all(&dir).ok();
      let path = dir.join(format!("{id}-{}.json", st.name.replace(['/', ' '], "_")));
      let ex = if v.key == "time-limit" { None } else { Some(engine::replay(s, picks.clone())) };
      let text = serde_json::json!({
        "property": id, "scenario": st.name, "tier": format!("{tier:?}"), "picks": picks,
        "key": v.key, "message": v.msg,
        "trace": ex.as_ref().map(|e| e.notes.clone()).unwrap_or_default(),
        "choices": ex.as_ref().map(|e| e.trace.iter().map(|p| format!("{}={}/{}", p.kind, p.picked, p.n)).collect::<Vec<_>>()).unwrap_or_default(),
      });
      std::fs::write(&path, serde_json::to_string_pretty(&text).unwrap()).ok();
      println!("violation in {}: [{}] {}", st.name, v.key, v.msg);
      println!("VIOLATION property={id} replay={}", path.display());
      code = 1;
    }
    let fatal = st.fatal.clone();
    all.push(st);
    if let Some(f) = fatal {
      eprintln!("ERROR in {id} {}: {f}", all.last().unwrap().name);
      if code == 0 {
        code = 2;
      }
    }
    if code != 0 {
      break;
    }
  }
  let sum = |f: fn(&Stats) -> u64| all.iter().map(f).sum::<u64>();
  let exhaustive = all.iter().all(|s| s.capped.is_none() && s.pruned == 0);
  let complete = all.iter().all(|s| s.capped.is_none());
  let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let mut samples: Vec<String> = vec![];
  for s in &all {
    samples.extend(s.samples.iter().take(2).map(|x| format!("{}: {x}", s.name)));
  }
  samples.truncate(30);
  let ev = serde_json::json!({
    "property": id,
    "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
    "seed": seed,
    "level": c.level,
    "coverage": {
      "evaluations": sum(|s| s.executions),
      "distinct_nontrivial": all.iter().map(|s| s.outcomes.len() as u64).sum::<u64>(),
      "rule": c.rule,
      "samples": samples,
      "states": sum(|s| s.states),
      "transitions": sum(|s| s.transitions),
      "traces_validated_against_impl": sum(|s| s.executions),
      "exhaustive": exhaustive,
      "bounds_completed": complete,
      "scenarios": all.iter().map(|s| serde_json::json!({
        "name": s.name, "executions": s.executions, "states": s.states, "transitions": s.transitions,
        "distinct_outcomes": s.outcomes.len(), "deviation_bound": s.bound, "pruned_by_bound": s.pruned,
        "max_choice_points": s.max_points, "choice_kinds": s.by_kind, "capped": s.capped, "wall_s": s.wall,
      })).collect::<Vec<_>>(),
    },
    "assumptions": c.assumptions,
    "violations": violations,
    "wall_s": start.elapsed().as_secs_f64(),
  });
  let dir = root.join("evidence");
  std::fs::create_dir_all(&dir).ok();
  if only.is_none() {
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
  }
  if code == 0 {
    println!("{id}: held on everything explored ({:.1}s)", start.elapsed().as_secs_f64());
  }
  code
}

fn replay(path: &str) -> i32 {
  let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
  let id = v["property"].as_str().unwrap();
  let tier = if v["tier"] == "Thorough" { Tier::Thorough } else { Tier::Quick };
  let name = v["scenario"].as_str().unwrap();
  let picks: Vec<usize> = v["picks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
  let c = checks::all().into_iter().find(|c| c.id == id).expect("property");
  let s = (c.scenarios)(tier).into_iter().find(|s| s.name == name).expect("scenario");
  let ex = engine::replay(&s, picks);
  for n in &ex.notes {
    println!("{n}");
  }
  println!("choices: {:?}", ex.trace.iter().map(|p| format!("{}={}/{}", p.kind, p.picked, p.n)).collect::<Vec<_>>());
  match (&ex.fatal, &ex.outcome) {
    (Some(f), _) => {
      println!("ERROR {f}");
      2
    }
    (None, Ok(o)) => {
      println!("no violation: {o}");
      0
    }
    (None, Err(e)) => {
      println!("[{}] {}", e.key, e.msg);
      println!("VIOLATION property={id} replay={path}");
      1
    }
  }
}
