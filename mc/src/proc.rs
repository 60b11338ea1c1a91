//! Simulated child processes: the code under test starts them through tokio's `Command`, the explorer decides what
//! they write, when they close their streams and when and how they end. Their output travels through real pipes.
use std::ffi::OsStr;
use std::fs::File;
use std::io::{self, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::ExitStatus;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// Pids of simulated processes: beyond any real one.
const FIRST_PID: u32 = 2_000_000_000;

/// Closes our end of a pipe and waits until no other process holds it (one that another thread is starting has a copy
/// until it executes its program).
fn close(f: Option<File>) {
  let Some(f) = f else { return };
  let Ok(r) = File::options().read(true).custom_flags(libc::O_NONBLOCK).open(format!("/proc/self/fd/{}", f.as_raw_fd())) else { return };
  drop(f);
  let mut p = libc::pollfd { fd: r.as_raw_fd(), events: 0, revents: 0 };
  while p.revents & libc::POLLHUP == 0 {
    p.revents = 0;
    unsafe { libc::poll(&mut p, 1, 1000) };
  }
}

#[derive(Default)]
struct State {
  pipes: [Option<File>; 2],
  exit: Option<i32>,
  wakers: Vec<Waker>,
  killed: bool,
  stopped: bool,
  reaped: bool,
}

pub struct Proc {
  pub n: usize,
  pub program: Vec<u8>,
  pub args: Vec<Vec<u8>>,
  pub envs: Vec<(Vec<u8>, Option<Vec<u8>>)>,
  pub dir: Option<PathBuf>,
  st: Mutex<State>,
}

fn bytes(s: &OsStr) -> Vec<u8> {
  s.as_bytes().to_vec()
}

impl Proc {
  /// Program and arguments, for messages.
  pub fn line(&self) -> String {
    let mut v = vec![String::from_utf8_lossy(&self.program).into_owned()];
    v.extend(self.args.iter().map(|a| format!("{:?}", String::from_utf8_lossy(a))));
    v.join(" ")
  }
  /// The text given to the shell (or the whole command line when there is no shell).
  pub fn script(&self) -> Vec<u8> {
    self.args.last().cloned().unwrap_or_default()
  }
  pub fn exited(&self) -> bool {
    self.st.lock().unwrap().exit.is_some()
  }
  pub fn killed(&self) -> bool {
    self.st.lock().unwrap().killed
  }
  /// Whether the process has ended by itself, or the container it started has: a container outlives the client that started it.
  pub fn stopped(&self) -> bool {
    self.st.lock().unwrap().stopped
  }
  pub fn reaped(&self) -> bool {
    self.st.lock().unwrap().reaped
  }
  pub fn close(&self, stream: usize) {
    let f = self.st.lock().unwrap().pipes[stream].take();
    close(f);
  }
  /// Ends the process (and the container it started) with a raw wait status.
  pub fn end(&self, status: i32) {
    self.st.lock().unwrap().stopped = true;
    self.end_process(status)
  }
  fn end_process(&self, status: i32) {
    let w = {
      let mut st = self.st.lock().unwrap();
      if st.exit.is_some() {
        return;
      }
      st.exit = Some(status);
      std::mem::take(&mut st.pipes).into_iter().for_each(close);
      std::mem::take(&mut st.wakers)
    };
    w.into_iter().for_each(|w| w.wake());
  }
  pub fn exit(&self, code: i32) {
    self.end(code << 8)
  }
  /// Writes as much as fits; `None`: the process has ended.
  fn some(&self, stream: usize, data: &[u8]) -> Option<usize> {
    let r = {
      let mut st = self.st.lock().unwrap();
      if st.exit.is_some() {
        return None;
      }
      match st.pipes[stream].as_mut() {
        None => return Some(data.len()),
        Some(f) => f.write(data),
      }
    };
    match r {
      Ok(n) => Some(n),
      Err(e) if e.kind() == io::ErrorKind::WouldBlock => Some(0),
      Err(e) if e.kind() == io::ErrorKind::BrokenPipe => {
        self.end_process(libc::SIGPIPE);
        None
      }
      Err(e) => panic!("pipe: {e}"),
    }
  }
  /// Writes everything, waiting while the pipe is full.
  pub async fn write(&self, stream: usize, mut data: &[u8]) {
    while !data.is_empty() {
      match self.some(stream, data) {
        None => return,
        Some(0) => tokio::time::sleep(Duration::from_millis(1)).await,
        Some(n) => data = &data[n..],
      }
    }
  }
  /// Waits until the process has ended (by itself or killed).
  pub async fn ended(&self) {
    std::future::poll_fn(|cx| {
      let mut st = self.st.lock().unwrap();
      if st.exit.is_some() {
        return Poll::Ready(());
      }
      st.wakers.push(cx.waker().clone());
      Poll::Pending
    })
    .await
  }
}

impl tokio::mc::SimChild for Proc {
  fn pid(&self) -> u32 {
    FIRST_PID + self.n as u32
  }
  fn poll_wait(&self, cx: &mut Context<'_>) -> Poll<io::Result<ExitStatus>> {
    let mut st = self.st.lock().unwrap();
    match st.exit {
      Some(e) => {
        st.reaped = true;
        Poll::Ready(Ok(ExitStatus::from_raw(e)))
      }
      None => {
        st.wakers.push(cx.waker().clone());
        Poll::Pending
      }
    }
  }
  fn try_wait(&self) -> io::Result<Option<ExitStatus>> {
    let mut st = self.st.lock().unwrap();
    st.reaped |= st.exit.is_some();
    Ok(st.exit.map(ExitStatus::from_raw))
  }
  fn kill(&self) -> io::Result<()> {
    self.st.lock().unwrap().killed = true;
    self.end_process(libc::SIGKILL);
    Ok(())
  }
}

fn pipe() -> io::Result<(OwnedFd, OwnedFd)> {
  let mut fds = [0; 2];
  if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
    return Err(io::Error::last_os_error());
  }
  let (r, w) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
  unsafe { libc::fcntl(w.as_raw_fd(), libc::F_SETFL, libc::O_NONBLOCK) };
  Ok((r, w))
}

/// Called when a process is started; an error makes the start fail.
pub type OnStart = Box<dyn Fn(&Arc<Proc>) -> io::Result<()> + Send + Sync>;

#[derive(Default)]
pub struct Procs {
  list: Mutex<Vec<Arc<Proc>>>,
  wakers: Mutex<Vec<Waker>>,
}

impl Procs {
  /// Processes started in the next `rt::run` on this thread are simulated.
  pub fn install(on_start: OnStart) -> Arc<Procs> {
    let procs = Arc::new(Procs::default());
    let p2 = procs.clone();
    let hook: tokio::mc::SpawnHook = Box::new(move |cmd| {
      let n = p2.list.lock().unwrap().len();
      let (ro, wo) = pipe()?;
      let (re, we) = pipe()?;
      let proc = Arc::new(Proc {
        n,
        program: bytes(cmd.get_program()),
        args: cmd.get_args().map(bytes).collect(),
        envs: cmd.get_envs().map(|(k, v)| (bytes(k), v.map(bytes))).collect(),
        dir: cmd.get_current_dir().map(|d| d.to_path_buf()),
        st: Mutex::new(State { pipes: [Some(File::from(wo)), Some(File::from(we))], ..Default::default() }),
      });
      // What the kernel would refuse.
      if let Some(d) = &proc.dir {
        if !std::fs::metadata(d)?.is_dir() {
          return Err(io::Error::from_raw_os_error(libc::ENOTDIR));
        }
      }
      let all = [&proc.program].into_iter().chain(&proc.args).chain(proc.envs.iter().map(|e| &e.0)).chain(proc.envs.iter().filter_map(|e| e.1.as_ref()));
      if all.into_iter().any(|s| s.contains(&0)) {
        return Err(io::Error::from(io::ErrorKind::InvalidInput));
      }
      on_start(&proc)?;
      p2.list.lock().unwrap().push(proc.clone());
      for w in std::mem::take(&mut *p2.wakers.lock().unwrap()) {
        w.wake();
      }
      Ok(tokio::mc::SimSpawn { stdout: ro, stderr: re, child: proc })
    });
    crate::rt::SPAWN.with(|s| *s.borrow_mut() = Some(hook));
    procs
  }
  pub fn all(&self) -> Vec<Arc<Proc>> {
    self.list.lock().unwrap().clone()
  }
  /// The `n`th process that is started.
  pub async fn nth(&self, n: usize) -> Arc<Proc> {
    std::future::poll_fn(|cx| {
      if let Some(p) = self.list.lock().unwrap().get(n) {
        return Poll::Ready(p.clone());
      }
      self.wakers.lock().unwrap().push(cx.waker().clone());
      Poll::Pending
    })
    .await
  }
  /// Ends what was left running.
  pub fn finish(&self) {
    for p in self.all() {
      p.end(libc::SIGKILL);
    }
  }
}
