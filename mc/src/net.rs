//! A network for the remote runner: the real tonic client and server, over in-memory connections that can be cut.
use astro_run::async_trait;
use astro_run_protocol::remote_runner::{RemoteRunnerClient, RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::tonic::transport::server::Connected;
use astro_run_protocol::tonic::transport::{Channel, Endpoint, Server};
use astro_run_protocol::tonic::{Request, Response, Status};
use astro_run_protocol::{Command, Context as RunContext, Empty, ProtocolEvent, RunResponse, RunnerMetadata};
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, CONNECT};
use std::collections::BTreeMap;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, DuplexStream, ReadBuf};
use tokio::sync::mpsc;
use tokio_stream::wrappers::UnboundedReceiverStream;
use tokio_stream::Stream;

#[derive(Default)]
struct Cut(Mutex<(bool, Vec<Waker>)>);

impl Cut {
  fn is_cut(&self, cx: &Context<'_>) -> bool {
    let mut g = self.0.lock().unwrap();
    if !g.0 {
      g.1.push(cx.waker().clone());
    }
    g.0
  }
}

/// The server's end of a connection.
pub struct Wire {
  io: DuplexStream,
  cut: Arc<Cut>,
}

fn reset() -> io::Error {
  io::Error::new(io::ErrorKind::ConnectionReset, "cut")
}

impl AsyncRead for Wire {
  fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    if self.cut.is_cut(cx) {
      return Poll::Ready(Err(reset()));
    }
    Pin::new(&mut self.io).poll_read(cx, buf)
  }
}

impl AsyncWrite for Wire {
  fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    if self.cut.is_cut(cx) {
      return Poll::Ready(Err(reset()));
    }
    Pin::new(&mut self.io).poll_write(cx, buf)
  }
  fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    Pin::new(&mut self.io).poll_flush(cx)
  }
  fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    Pin::new(&mut self.io).poll_shutdown(cx)
  }
}

impl Connected for Wire {
  type ConnectInfo = ();
  fn connect_info(&self) {}
}

enum Host {
  Up { tx: mpsc::UnboundedSender<io::Result<Wire>>, cut: Arc<Cut> },
  Refuse,
  /// Connecting never gets anywhere.
  Hang,
}

#[derive(Clone, Default)]
pub struct Net(Arc<Mutex<BTreeMap<String, Host>>>);

impl Net {
  /// The remote runner clients of this execution connect through this network.
  pub fn install() -> Net {
    let net = Net::default();
    let n2 = net.clone();
    CONNECT.with(|c| {
      *c.borrow_mut() = Some(Arc::new(move |url| {
        let net = n2.clone();
        Box::pin(async move { net.connect(url).await })
      }))
    });
    net
  }

  /// Serves `svc` at `url`: to be called within a runtime.
  pub fn serve(&self, url: &str, svc: impl RemoteRunnerExt) {
    let (tx, rx) = mpsc::unbounded_channel();
    self.0.lock().unwrap().insert(url.to_string(), Host::Up { tx, cut: Arc::default() });
    tokio::spawn(async move {
      Server::builder().add_service(RemoteRunnerServer::new(svc)).serve_with_incoming(UnboundedReceiverStream::new(rx)).await.ok();
    });
  }

  pub fn hang(&self, url: &str) {
    self.0.lock().unwrap().insert(url.to_string(), Host::Hang);
  }

  /// Cuts every connection with `url`; new ones are accepted when `again`.
  pub fn cut(&self, url: &str, again: bool) {
    let mut g = self.0.lock().unwrap();
    let Some(Host::Up { tx, cut }) = g.get(url) else { return };
    let host = if again { Host::Up { tx: tx.clone(), cut: Arc::default() } } else { Host::Refuse };
    let wakers = {
      let mut c = cut.0.lock().unwrap();
      c.0 = true;
      std::mem::take(&mut c.1)
    };
    g.insert(url.to_string(), host);
    drop(g);
    for w in wakers {
      w.wake();
    }
  }

  async fn dial(&self, url: String) -> io::Result<DuplexStream> {
    let wait = {
      let g = self.0.lock().unwrap();
      match g.get(&url) {
        Some(Host::Up { tx, cut }) => {
          let (a, b) = tokio::io::duplex(1 << 16);
          tx.send(Ok(Wire { io: b, cut: cut.clone() })).map_err(|_| reset())?;
          return Ok(a);
        }
        Some(Host::Hang) => true,
        Some(Host::Refuse) | None => false,
      }
    };
    if wait {
      std::future::pending::<()>().await;
    }
    Err(io::Error::new(io::ErrorKind::ConnectionRefused, "refused"))
  }

  pub async fn channel(&self, url: String) -> Result<Channel, String> {
    let net = self.clone();
    let u2 = url.clone();
    let ep = Endpoint::from_shared(url).map_err(|e| e.to_string())?;
    ep.connect_with_connector(tower::service_fn(move |_| {
      let (net, url) = (net.clone(), u2.clone());
      async move { net.dial(url).await }
    }))
    .await
    .map_err(|e| e.to_string())
  }

  pub async fn connect(&self, url: String) -> Result<RemoteRunnerClient<Channel>, String> {
    Ok(RemoteRunnerClient::new(self.channel(url).await?))
  }
}

/// Starts a remote runner client and lets it connect to everything it can.
pub async fn start(client: &AstroRunRemoteRunnerClient, urls: Vec<String>) -> tokio::task::JoinHandle<()> {
  let mut c = client.clone();
  let h = tokio::spawn(async move {
    c.start(urls).await.ok();
  });
  tokio::time::sleep(Duration::from_millis(1)).await;
  h
}

/// What a scripted remote side does with a step it is asked to run.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
  Log(bool, String),
  Result(astro_run::RunResult),
  /// The response stream fails.
  Status,
  /// The connection breaks (and the host is gone).
  Cut,
  /// Lets everything else happen first.
  Pause,
}

#[derive(Clone)]
pub struct Scripted {
  pub net: Net,
  pub url: String,
  pub meta: Result<RunnerMetadata, ()>,
  /// Never answers the metadata request.
  pub mute: bool,
  /// Err: the run request is answered with an error; `cut_run`: it is not answered, the connection breaks.
  pub run: Result<Vec<Item>, ()>,
  pub cut_run: bool,
  /// For each event in turn, whether taking it fails (the last entry repeats).
  pub events_fail: Vec<bool>,
  /// Never answers an event.
  pub events_hang: bool,
  pub hook_fails: bool,
  pub seen: Arc<Mutex<Vec<String>>>,
}

impl Scripted {
  pub fn new(net: &Net, url: &str, id: &str) -> Scripted {
    Scripted {
      net: net.clone(),
      url: url.into(),
      meta: Ok(metadata(id)),
      mute: false,
      run: Ok(vec![Item::Result(astro_run::RunResult::Succeeded)]),
      cut_run: false,
      events_fail: vec![false],
      events_hang: false,
      hook_fails: false,
      seen: Arc::default(),
    }
  }
}

pub fn metadata(id: &str) -> RunnerMetadata {
  RunnerMetadata {
    id: id.into(),
    os: "linux".into(),
    arch: "x86_64".into(),
    support_docker: true,
    support_host: true,
    version: astro_run_remote_runner::VERSION.into(),
    max_runs: 5,
  }
}

#[async_trait]
impl RemoteRunnerExt for Scripted {
  type RunStream = Pin<Box<dyn Stream<Item = Result<RunResponse, Status>> + Send>>;

  async fn run(&self, req: Request<RunContext>) -> Result<Response<Self::RunStream>, Status> {
    let id = req.into_inner().id;
    self.seen.lock().unwrap().push(format!("run {id}"));
    if self.cut_run {
      self.net.cut(&self.url, false);
      std::future::pending::<()>().await;
    }
    let Ok(items) = self.run.clone() else { return Err(Status::unavailable("refused")) };
    let (net, url) = (self.net.clone(), self.url.clone());
    let (tx, rx) = mpsc::unbounded_channel();
    tokio::spawn(async move {
      for item in items {
        match item {
          Item::Log(err, m) => {
            let log = if err { astro_run::Log::error(m) } else { astro_run::Log::log(m) };
            tx.send(Ok(RunResponse::log(id.clone(), log))).ok();
          }
          Item::Result(r) => {
            tx.send(Ok(RunResponse::result(id.clone(), r))).ok();
          }
          Item::Status => {
            tx.send(Err(Status::internal("broken"))).ok();
          }
          Item::Cut => {
            net.cut(&url, false);
            std::future::pending::<()>().await;
          }
          Item::Pause => tokio::time::sleep(Duration::from_millis(1)).await,
        }
      }
    });
    Ok(Response::new(Box::pin(UnboundedReceiverStream::new(rx))))
  }

  async fn send_event(&self, req: Request<ProtocolEvent>) -> Result<Response<Empty>, Status> {
    let e = req.into_inner();
    if self.events_hang {
      std::future::pending::<()>().await;
    }
    let mut seen = self.seen.lock().unwrap();
    let n = seen.iter().filter(|s| s.starts_with("event ")).count();
    seen.push(format!("event {}", serde_json::to_value(&e).unwrap()));
    if *self.events_fail.get(n).or(self.events_fail.last()).unwrap() {
      return Err(Status::internal("cannot take it"));
    }
    Ok(Response::new(Empty {}))
  }

  async fn get_runner_metadata(&self, _: Request<Empty>) -> Result<Response<RunnerMetadata>, Status> {
    if self.mute {
      std::future::pending::<()>().await;
    }
    self.meta.clone().map(Response::new).map_err(|_| Status::internal("no metadata"))
  }

  async fn call_before_run_step_hook(&self, req: Request<Command>) -> Result<Response<Command>, Status> {
    self.seen.lock().unwrap().push("hook".into());
    if self.hook_fails {
      return Err(Status::internal("hook"));
    }
    Ok(Response::new(req.into_inner()))
  }
}
