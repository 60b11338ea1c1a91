//! The changed files GitHub reports (C36).
use super::conf::*;
use super::{Check, Tier};
use crate::engine::{scenario, viol, Scenario, Violation};
use crate::ensure;
use crate::rt::{self, Opts};
use astro_run::*;
use base64::Engine;
use octocrate_core::mc::{Answer, Handler, HANDLER};
use std::result::Result;
use std::sync::{Arc, Mutex};

const INSTALLATION: i64 = 90210;
const INSTALLATION_TOKEN: &str = "a-token-of-the-installation";

/// How a request fails.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
  NotFound,
  ServerError,
  Truncated,
  OtherShape,
  Connection,
}

const FAULTS: [Fault; 5] = [Fault::NotFound, Fault::ServerError, Fault::Truncated, Fault::OtherShape, Fault::Connection];

const CHANGES: [(&str, i64); 10] = [("", 0), ("modified", 0), ("added", 0), ("removed", 0), ("renamed", 0), ("copied", 0), ("changed", 0), ("renamed", 3), ("removed", 1), ("modified", 100_000)];

/// A stand-in for GitHub: one commit and one pull request of one repository, with the same changed files.
struct Hub {
  app: bool,
  owner: &'static str,
  repo: &'static str,
  sha: &'static str,
  pr: i64,
  files: Vec<String>,
  /// How the file that matters has changed.
  change: usize,
  /// Requests from this one on fail.
  fault: Option<(usize, Fault)>,
  slow: bool,
  /// Pages have at most that many files, whatever was asked for.
  most: usize,
  asked: Mutex<Vec<String>>,
  wrong: Mutex<Vec<String>>,
}

fn user() -> serde_json::Value {
  let mut u = serde_json::json!({"login": "o", "id": 1, "node_id": "n", "gravatar_id": "", "type": "User", "site_admin": false});
  for k in ["avatar_url", "url", "html_url", "followers_url", "following_url", "gists_url", "starred_url", "subscriptions_url", "organizations_url", "repos_url", "events_url", "received_events_url"] {
    u[k] = "https://example.org".into();
  }
  u
}

impl Hub {
  fn install(self) -> Arc<Hub> {
    CHANGED_FILES.with(|c| *c.borrow_mut() = None);
    let hub = Arc::new(self);
    let h2 = hub.clone();
    let f: Handler = Arc::new(move |req| {
      let h = h2.clone();
      Box::pin(async move {
        let n = {
          let mut a = h.asked.lock().unwrap();
          a.push(format!("{} {}", req.method(), req.url()));
          a.len() - 1
        };
        if h.slow {
          rt::yield_once().await;
        }
        let r = h.answer(n, &req);
        if h.slow {
          rt::yield_once().await;
        }
        r
      })
    });
    HANDLER.with(|c| *c.borrow_mut() = Some(f));
    hub
  }

  fn wrong(&self, what: String) {
    self.wrong.lock().unwrap().push(what);
  }

  /// Is this the JSON web token of the app?
  fn is_app(&self, token: &str) -> bool {
    let parts: Vec<&str> = token.split('.').collect();
    let claims = parts.get(1).and_then(|p| base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(p).ok()).and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok());
    parts.len() == 3 && claims.is_some_and(|c| c["iss"] == APP.to_string())
  }

  fn answer(&self, n: usize, req: &octocrate_core::mc::Request) -> Answer {
    let json = |v: serde_json::Value| Some((200, vec![], v.to_string()));
    let refuse = |status: u16, m: &str| Some((status, vec![], serde_json::json!({"message": m, "documentation_url": "https://docs.github.com/rest"}).to_string()));
    if let Some((from, fault)) = self.fault {
      if n >= from {
        return match fault {
          Fault::NotFound => refuse(404, "Not Found"),
          Fault::ServerError => Some((502, vec![], "<html>".into())),
          Fault::Truncated => Some((200, vec![], "[{\"sha\": \"".into())),
          Fault::OtherShape => json(serde_json::json!({"files": [{"filename": "src/x"}]})),
          Fault::Connection => None,
        };
      }
    }
    let path = req.url().path().to_string();
    let what = format!("{} {path}", req.method());
    if req.url().host_str() != Some("api.github.com") {
      self.wrong(format!("{what} was sent to {:?}", req.url().host_str()));
    }
    let token = req.headers().get("authorization").and_then(|v| v.to_str().ok()).and_then(|v| v.strip_prefix("Bearer ")).unwrap_or("").to_string();
    let of_app = what == format!("GET /repos/{}/{}/installation", self.owner, self.repo);
    let new_token = what == format!("POST /app/installations/{INSTALLATION}/access_tokens");
    let commit = what == format!("GET /repos/{}/{}/commits/{}", self.owner, self.repo, self.sha);
    let pull = what == format!("GET /repos/{}/{}/pulls/{}/files", self.owner, self.repo, self.pr);
    let allowed = match (of_app || new_token, self.app) {
      (true, true) => self.is_app(&token),
      (true, false) => false,
      (false, true) => token == INSTALLATION_TOKEN,
      (false, false) => token == TOKEN,
    };
    if !(of_app || new_token || commit || pull) {
      self.wrong(format!("{what} was asked for"));
      return refuse(404, "Not Found");
    }
    if !allowed {
      self.wrong(format!("{what} was asked for with the credentials {token:?}"));
      return refuse(401, "Bad credentials");
    }
    let url = "https://example.org";
    if of_app {
      return json(serde_json::json!({
        "id": INSTALLATION, "account": user(), "access_tokens_url": url, "repositories_url": url, "html_url": url, "app_id": APP, "app_slug": "app",
        "target_id": 1, "target_type": "User", "permissions": {}, "events": [], "single_file_name": null, "repository_selection": "all", "created_at": "2024-01-01T00:00:00Z", "updated_at": "2024-01-01T00:00:00Z", "suspended_at": null, "suspended_by": null,
      }));
    }
    if new_token {
      return Some((201, vec![], serde_json::json!({"token": INSTALLATION_TOKEN, "expires_at": "2099-01-01T00:00:00Z", "permissions": {}, "repository_selection": "all"}).to_string()));
    }
    // A page of files: at most 100 at a time (30 by default) for a pull request, 300 for a commit.
    let (mut page, mut per) = (1usize, if commit { 300usize } else { 30 });
    for (k, v) in req.url().query_pairs() {
      match (&*k, v.parse::<usize>()) {
        ("page", Ok(v)) => page = v.max(1),
        ("per_page", Ok(v)) => per = v.clamp(1, 100),
        _ => {}
      }
    }
    let per = per.min(self.most);
    let last = self.files.len().div_ceil(per).max(1);
    const STATUS: [&str; 4] = ["modified", "added", "removed", "renamed"];
    let files: Vec<serde_json::Value> = self
      .files
      .iter()
      .enumerate()
      .skip((page - 1) * per)
      .take(per)
      .map(|(i, f)| {
        let mut j = serde_json::json!({"sha": "s", "filename": f, "status": STATUS[i % 4], "additions": 1, "deletions": 0, "changes": 1, "blob_url": url, "raw_url": url, "contents_url": url, "patch": "@@"});
        if let ("src/x", 1..) = (&f[..], self.change) {
          // Changes without changed lines: modes, binary or empty files, pure renames; changes of lines.
          let (status, lines) = CHANGES[self.change];
          j["status"] = status.into();
          (j["additions"], j["deletions"], j["changes"]) = ((lines / 2).into(), (lines - lines / 2).into(), lines.into());
          if lines == 0 {
            j.as_object_mut().unwrap().remove("patch");
          }
          if status == "renamed" {
            j["previous_filename"] = "docs/old".into();
          }
        }
        j
      })
      .collect();
    let mut links = vec![];
    let link = |p: usize, rel: &str| {
      let mut u = req.url().clone();
      u.query_pairs_mut().clear();
      for (k, v) in req.url().query_pairs() {
        if k != "page" {
          u.query_pairs_mut().append_pair(&k, &v);
        }
      }
      u.query_pairs_mut().append_pair("page", &p.to_string());
      format!("<{u}>; rel=\"{rel}\"")
    };
    if page > 1 {
      links.push(link(page - 1, "prev"));
    }
    if page < last {
      links.push(link(page + 1, "next"));
      links.push(link(last, "last"));
    }
    if page > 1 {
      links.push(link(1, "first"));
    }
    let headers = if links.is_empty() { vec![] } else { vec![("link", links.join(", "))] };
    let body = if commit {
      serde_json::json!({
        "url": url, "sha": self.sha, "node_id": "n", "html_url": url, "comments_url": url, "author": user(), "committer": user(), "parents": [{"url": url, "sha": "p"}], "stats": {"additions": 1, "deletions": 0, "total": 1},
        "commit": {"url": url, "message": "m", "comment_count": 0, "tree": {"url": url, "sha": "t"}, "author": {"name": "o", "email": "o@example.org", "date": "2024-01-01T00:00:00Z"}, "committer": null},
        "files": files,
      })
    } else {
      serde_json::Value::from(files)
    };
    Some((200, headers, body.to_string()))
  }
}

fn c36(tier: Tier) -> Vec<Scenario> {
  let mut v = vec![];
  let event = |name: &str, h: &Hub| TriggerEvent {
    event: name.into(),
    repo_owner: h.owner.into(),
    repo_name: h.repo.into(),
    sha: h.sha.into(),
    pr_number: Some(h.pr),
    branch: "main".into(),
    ref_name: "refs/heads/main".into(),
  };
  let hub = |app: bool| Hub { app, owner: "an-owner", repo: "a.repo_1", sha: "c0ffee", pr: 17, files: vec![], change: 0, fault: None, slow: false, most: 300, asked: Default::default(), wrong: Default::default() };
  let cond = || Some(Cond::Config { push: Some((None, Some(vec!["src/*"]))), pr: Some((Some(vec!["main"]), Some(vec!["src/*"]))) });
  let right = |h: &Hub| -> Result<(), Violation> {
    let w = h.wrong.lock().unwrap();
    ensure!(w.is_empty(), "wrong-request", "GitHub was asked for something else: {w:?}");
    Ok(())
  };
  // However many files have changed, and wherever the one is that matters.
  v.push(scenario("pages", 0, move |ctx| {
    let name = *ctx.of("event", &["push", "pull_request"]);
    let app = ctx.flag("app");
    let n = *ctx.of("files", &[0usize, 1, 29, 30, 31, 60, 61, 99, 100, 101, 200, 201, 299, 300, 301, 600, 999, 2999, 3000]);
    let at = match ctx.pick("match-at", 8) {
      0 => None,
      i => Some([0, 29, 30, 100, 300, n / 2, n.saturating_sub(1)][i - 1]),
    };
    if at.is_some_and(|at| at >= n) {
      return Ok("not explored".into());
    }
    let mut h = hub(app);
    h.files = (0..n).map(|i| if at == Some(i) { "src/x".into() } else { format!("docs/{i}") }).collect();
    if n == 31 && at.is_some() {
      h.change = ctx.pick("change", CHANGES.len());
    }
    let e = event(name, &h);
    let h = h.install();
    let level = ctx.pick("level", 3);
    let c = |l: usize| if l == level { cond() } else { None };
    let l = Levels { workflow: c(0), jobs: vec![c(1), None], steps: vec![vec![c(2), None], vec![None]] };
    let (ev, r) = run_levels(ctx, Opts { tasks: false, ..Default::default() }, &l, 1 + app as usize, Some(e));
    right(&h)?;
    mon_levels(&l, &ev, &r, &|c| c.is_none() || at.is_some()).map_err(|v| Violation { key: v.key, msg: format!("{name} with {n} files, the matching one at {at:?}; GitHub was asked: {:?}; {}", h.asked.lock().unwrap(), v.msg) })
  }));
  // GitHub may give fewer files than it was asked for on a page, and even so say that there are more.
  v.push(scenario("short-pages", 0, move |ctx| {
    let name = *ctx.of("event", &["push", "pull_request"]);
    let app = ctx.flag("app");
    let most = *ctx.of("most", &[1usize, 7, 29, 30, 50, 99]);
    let n = *ctx.of("files", &[2usize, 8, 31, 100, 150, 201]);
    let at = [None, Some(0), Some(most), Some(n / 2), Some(n - 1)][ctx.pick("match-at", 5)];
    if at.is_some_and(|at| at >= n) {
      return Ok("not explored".into());
    }
    let mut h = hub(app);
    h.most = most;
    h.files = (0..n).map(|i| if at == Some(i) { "src/x".into() } else { format!("docs/{i}") }).collect();
    let e = event(name, &h);
    let h = h.install();
    let level = ctx.pick("level", 3);
    let c = |l: usize| if l == level { cond() } else { None };
    let l = Levels { workflow: c(0), jobs: vec![c(1), None], steps: vec![vec![c(2), None], vec![None]] };
    let (ev, r) = run_levels(ctx, Opts { tasks: false, ..Default::default() }, &l, 1 + app as usize, Some(e));
    right(&h)?;
    mon_levels(&l, &ev, &r, &|c| c.is_none() || at.is_some()).map_err(|v| Violation { key: v.key, msg: format!("{name} with {n} files, the matching one at {at:?}, pages of at most {most}; GitHub was asked: {} times; {}", h.asked.lock().unwrap().len(), v.msg) })
  }));
  // Any request fails: everything runs.
  v.push(scenario("failures", 0, move |ctx| {
    let name = *ctx.of("event", &["push", "pull_request"]);
    let app = ctx.flag("app");
    let from = ctx.pick("fails-from", 6);
    let fault = *ctx.of("fault", &FAULTS);
    let n = *ctx.of("files", &[0usize, 3, 250, 700]);
    let mut h = hub(app);
    h.files = (0..n).map(|i| format!("docs/{i}")).collect();
    h.fault = Some((from, fault));
    let e = event(name, &h);
    let h = h.install();
    let l = Levels { workflow: None, jobs: vec![cond()], steps: vec![vec![None]] };
    let (ev, r) = run_levels(ctx, Opts { tasks: false, ..Default::default() }, &l, 1 + app as usize, Some(e));
    right(&h)?;
    // Did it get as far as the fault?
    let failed = h.asked.lock().unwrap().len() > from;
    mon_levels(&l, &ev, &r, &|c| c.is_none() || failed).map_err(|v| Violation { key: v.key, msg: format!("{name} with {n} files, {fault:?} from request {from} on; GitHub was asked: {:?}; {}", h.asked.lock().unwrap(), v.msg) })
  }));
  // Events that cannot be asked for, or only wrongly.
  v.push(scenario("events", 0, move |ctx| {
    let auth = ctx.pick("authorization", 4);
    let name = *ctx.of("event", &["push", "pull_request", "release", ""]);
    let missing = ctx.pick("missing", 4);
    let mut h = hub(auth >= 2);
    h.files = vec!["docs/x".into()];
    let mut e = event(name, &h);
    match missing {
      1 => e.pr_number = None,
      2 => e.sha = "unknown".into(),
      3 => e.repo_name = "elsewhere".into(),
      _ => {}
    }
    let h = h.install();
    let l = Levels { workflow: None, jobs: vec![cond()], steps: vec![vec![None]] };
    let (ev, r) = run_levels(ctx, Opts { tasks: false, ..Default::default() }, &l, auth, Some(e));
    let known = match name {
      "push" => missing < 2,
      "pull_request" => missing == 0 || missing == 2,
      _ => false,
    };
    if missing == 0 && auth < 3 {
      right(&h)?;
    }
    let known = known && (auth == 1 || auth == 2);
    mon_levels(&l, &ev, &r, &|c| c.is_none() || !known).map_err(|v| Violation { key: v.key, msg: format!("event {name:?}, authorization {auth}, missing {missing}; GitHub was asked: {:?}; {}", h.asked.lock().unwrap(), v.msg) })
  }));
  // Several conditions at once, GitHub taking its time.
  v.push(scenario("asked-at-once", tier.or(1, 2), move |ctx| {
    let name = *ctx.of("event", &["push", "pull_request"]);
    let app = ctx.flag("app");
    let n = *ctx.of("files", &[2usize, 150, 450]);
    let at = [None, Some(0), Some(n - 1)][ctx.pick("match-at", 3)];
    let mut h = hub(app);
    h.slow = true;
    h.files = (0..n).map(|i| if at == Some(i) { "src/x".into() } else { format!("docs/{i}") }).collect();
    let e = event(name, &h);
    let h = h.install();
    let l = Levels { workflow: None, jobs: vec![cond(), cond(), None], steps: vec![vec![None], vec![None], vec![cond()]] };
    let (ev, r) = run_levels(ctx, Opts::default(), &l, 1 + app as usize, Some(e));
    right(&h)?;
    mon_levels(&l, &ev, &r, &|c| c.is_none() || at.is_some())
  }));
  v
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C36",
    level: "model_checking",
    rule: "All combinations of event, credentials, number of changed files, position of the deciding file and level of the condition against a stand-in for GitHub that pages and checks credentials; all positions and kinds of failing requests; all interleavings of jobs asking at once within a bound.",
    assumptions: &["the stand-in for GitHub replaces HTTP below the octocrate client and pages as GitHub documents it"],
    scenarios: c36,
  }]
}
