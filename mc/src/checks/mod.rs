use crate::engine::Scenario;

pub mod conf;
pub mod e2e;
pub mod exec;
pub mod github;
pub mod graph;
pub mod logs;
pub mod remote;
pub mod runner;
pub mod sched;
pub mod sync;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

impl Tier {
  /// The first value in the quick tier, the second in the thorough one.
  pub fn or<T>(self, quick: T, thorough: T) -> T {
    match self {
      Tier::Quick => quick,
      Tier::Thorough => thorough,
    }
  }
}

pub struct Check {
  pub id: &'static str,
  pub level: &'static str,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub scenarios: fn(Tier) -> Vec<Scenario>,
}

pub fn all() -> Vec<Check> {
  let mut v = vec![];
  v.extend(graph::checks());
  v.extend(sync::checks());
  v.extend(exec::checks());
  v.extend(conf::checks());
  v.extend(sched::checks());
  v.extend(remote::checks());
  v.extend(runner::checks());
  v.extend(e2e::checks());
  v.extend(github::checks());
  v.extend(logs::checks());
  v
}
