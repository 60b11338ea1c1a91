mod checks;
mod ctl;
mod engine;
mod net;
mod proc;
mod report;
mod rt;
mod wf;

fn main() {
  report::main();
}
