SEEDS = []


def S(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


S('C13-second-hello', 'C13',
  [('spoa/src/state/process.rs', '            _ => Err(Invalid).context("unexpected frame"),',
    '''            Frame::HaproxyHello(ref hello) if hello.healthcheck == Some(true) => Ok((self.into(), None)),
            _ => Err(Invalid).context("the frame is unexpected"),''')],
  'a second hello, marked as a health check, on an established connection', 'it is ignored instead of being an error', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.handshake().await;
        p.send(hello_with("2.0", 16384, "", &kv("healthcheck", t_bool(true)))).await;
        let r = p.recv().await.expect("a disconnect");
        assert_eq!(r.ty, AGENT_DISCONNECT);
        assert_eq!(item(&r.body, "status-code").as_deref(), Some("4"));
    });
}
''')

S('C13-maker-first', 'C13',
  [('spoa/src/state/connect.rs', '''        let is_healthcheck = hello.healthcheck.unwrap_or_default();
''', '''        let is_healthcheck = hello.healthcheck.unwrap_or_default();
        let prepared = if is_healthcheck {
            None
        } else {
            Some(runtime.service_maker.write().await.make().await?)
        };
'''),
   ('spoa/src/state/connect.rs', '''            let service = runtime.service_maker.write().await.make().await?;
''', '''            let service = match prepared {
                Some(service) => service,
                None => runtime.service_maker.write().await.make().await?,
            };
''')],
  'a hello without a common version', 'a service is created although the negotiation fails', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.send(hello_with("1.0", 16384, "", &[])).await;
        let r = p.recv().await.expect("a disconnect");
        assert_eq!(r.ty, AGENT_DISCONNECT);
        let log = p.log.clone();
        p.ended().await.unwrap();
        assert_eq!(log.lock().unwrap().made, 0);
    });
}
''')

S('C14-same-major', 'C14',
  [('spoa/src/state/handshake.rs', '.find(|version| supported_versions.iter().rev().any(|v| v == version))',
    '.find(|version| supported_versions.iter().rev().any(|v| v.major == version.major && v <= version))')],
  'HAProxy offering a later minor version of a major version the agent supports', 'the agent answers with a version it does not support', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.send(hello_with("2.0,2.3", 16384, "", &[])).await;
        let r = p.recv().await.expect("a hello");
        assert_eq!(r.ty, AGENT_HELLO);
        assert_eq!(item(&r.body, "version").as_deref(), Some("2.0"));
    });
}
''')

S('C14-hello-order', 'C14',
  [('spoa/src/state/handshake.rs', '''    hello.supported_versions.sort();
''', '''    if hello.supported_versions.len() > 8 {
        hello.supported_versions.truncate(8);
    }
    hello.supported_versions.sort();
'''), ('spoa/src/state/handshake.rs', '''    supported_versions.sort();

    let version''', '''    supported_versions.sort_by_key(|v| (v.major, v.minor));

    let version''')],
  'a hello that lists more than eight versions, the common one last', 'the handshake fails although there is a common version', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.send(hello_with("1.0,1.1,1.2,1.3,1.4,1.5,1.6,1.7,1.8,2.0", 16384, "", &[])).await;
        let r = p.recv().await.expect("a hello");
        assert_eq!(r.ty, AGENT_HELLO);
        assert_eq!(item(&r.body, "version").as_deref(), Some("2.0"));
    });
}
''')

S('C15-small-ignored', 'C15',
  [('spoa/src/conn.rs', 'pub async fn serve(&mut self) -> Result<()> {\n        loop {', 'pub async fn serve(&mut self) -> Result<()> {\n        let smallest = 256;\n        loop {'),
   ('spoa/src/conn.rs', '                                let negotiated = match frame {', '                                let negotiated = match frame {\n                                    Frame::AgentHello(ref hello) if hello.max_frame_size < smallest => None,'),
   ('spoa/src/conn.rs', 'frame = self.codec.read_frame() => {', 'received = self.codec.read_frame() => {'),
   ('spoa/src/conn.rs', 'let handled = match frame {', 'let handled = match received {')],
  'a hello that offers a maximum frame size below 256', 'the smaller size is announced but not enforced', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.send(hello_with("2.0", 200, "", &[])).await;
        let r = p.recv().await.expect("a hello");
        assert_eq!(item(&r.body, "max-frame-size").as_deref(), Some("200"));
        p.send(notify(1, 1, 1, &["a".repeat(300).as_str()])).await;
        let r = p.recv().await.expect("a disconnect");
        assert_eq!(r.ty, AGENT_DISCONNECT);
        assert_eq!(item(&r.body, "status-code").as_deref(), Some("3"));
    });
}
''')

S('C16-no-actions', 'C16',
  [('spoa/src/state/process.rs', 'Ok((self.into(), Some(ack)))', 'Ok((self.into(), (stream_id != frame_id || !idle).then_some(ack)))'),
   ('spoa/src/state/process.rs', 'let ack = Frame::ack(stream_id, frame_id, actions);', 'let idle = actions.is_empty();\n                                let ack = Frame::ack(stream_id, frame_id, actions);')],
  'a notification whose stream id equals its frame id and for which the service returns no action', 'it is never acknowledged', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.handshake().await;
        p.send(notify(1, 7, 7, &["quiet"])).await;
        p.send(notify(1, 7, 8, &["set"])).await;
        let r = p.recv().await.expect("an ack");
        assert_eq!((r.ty, r.sid, r.fid), (ACK, 7, 7));
    });
}
''')

S('C16-wide-stream', 'C16',
  [('spoa/src/state/process.rs', 'let ack = Frame::ack(stream_id, frame_id, actions);', 'let ack = Frame::ack(stream_id & 0xffff_ffff, frame_id, actions);')],
  'a stream id that needs more than 32 bits', 'the ack carries another stream id', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.handshake().await;
        p.send(notify(1, (1 << 40) + 3, 9, &["set"])).await;
        let r = p.recv().await.expect("an ack");
        assert_eq!((r.ty, r.sid, r.fid), (ACK, (1 << 40) + 3, 9));
    });
}
''')

S('C17-empty-fragment', 'C17',
  [('spoa/src/state/process.rs', '''                fragmented,
                stream_id,
                frame_id,
                messages,
                ..
            }) => {
''', '''                mut fragmented,
                stream_id,
                frame_id,
                messages,
                ..
            }) => {
                fragmented &= self.reassembly.is_some() || !messages.is_empty();
''')],
  'a fragment without any message on a connection that did not negotiate fragmentation', 'the service is called and the fragment acknowledged instead of refused', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.handshake().await;
        p.send(notify(0, 1, 1, &[])).await;
        let r = p.recv().await.expect("a disconnect");
        assert_eq!(r.ty, AGENT_DISCONNECT);
        assert_eq!(item(&r.body, "status-code").as_deref(), Some("10"));
        assert_eq!(p.log.lock().unwrap().calls.len(), 0);
    });
}
''')

S('C17-empty-ends', 'C17',
  [('spoa/src/state/process.rs', 'reassembly.reassemble(fragmented, stream_id, frame_id, messages)?', 'reassembly.reassemble(fragmented && !messages.is_empty(), stream_id, frame_id, messages)?')],
  'a non-final fragment without any message', 'it ends the notification early', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new().fragmentation());
        p.handshake().await;
        p.send(notify(0, 1, 1, &["a"])).await;
        p.send(notify(0, 1, 1, &[])).await;
        p.send(notify(1, 1, 1, &["b"])).await;
        let r = p.recv().await.expect("an ack");
        assert_eq!(r.ty, ACK);
        assert_eq!(p.log.lock().unwrap().calls, vec![vec!["a".to_string(), "b".to_string()]]);
    });
}
''')

S('C18-front', 'C18',
  [('spop/src/frame/fragment.rs', '''                    e.get_mut().append(&mut value);
''', '''                    if e.get().len() < value.len() {
                        value.append(e.get_mut());
                        *e.get_mut() = value;
                    } else {
                        e.get_mut().append(&mut value);
                    }
''')],
  'a middle fragment with more items than all the ones before it', 'its items come first', r'''
use haproxy_spop::Reassembly;
fn main() {
    let r = Reassembly::<u32>::default();
    assert!(r.reassemble(true, 1, 1, vec![1]).unwrap().is_none());
    assert!(r.reassemble(true, 1, 1, vec![2, 3, 4]).unwrap().is_none());
    assert_eq!(r.reassemble(false, 1, 1, vec![5]).unwrap(), Some(vec![1, 2, 3, 4, 5]));
}
''')

S('C18-stale', 'C18',
  [('spop/src/frame/fragment.rs', '''                    let mut v = e.remove();
''', '''                    if value.is_empty() {
                        return Ok(Some(e.get_mut().drain(..).collect()));
                    }

                    let mut v = e.remove();
''')],
  'a final fragment without items', 'an entry is retained for the stream and frame after its final fragment', r'''
use haproxy_spop::Reassembly;
fn main() {
    let r = Reassembly::<u32>::default();
    assert!(r.reassemble(true, 1, 1, vec![1]).unwrap().is_none());
    assert_eq!(r.reassemble(false, 1, 1, vec![]).unwrap(), Some(vec![1]));
    let s = format!("{r:?}");
    assert!(!s.contains("(1, 1)"), "{s}");
}
''')

S('C19-many-messages', 'C19',
  [('spoa/src/state/process.rs', 'match timeout(self.runtime.max_process_time, processing).await {', 'match timeout(self.runtime.max_process_time.saturating_mul(load), processing).await {'),
   ('spoa/src/state/process.rs', '                if let Some(msgs) = msgs {\n', '                if let Some(msgs) = msgs {\n                    let load = msgs.len().max(1) as u32;\n')],
  'a notification of several messages', 'the time allowed grows with the number of messages', r'''
use haproxy_spoa::runtime::Builder;
use std::time::Duration;
fn main() {
    run(async {
        let mut p = connect(Builder::new().max_process_time(Duration::from_millis(100)));
        p.handshake().await;
        p.send(notify(1, 1, 1, &["slow", "b", "c", "d", "e", "f", "g", "h", "i", "j"])).await;
        let r = p.recv().await.expect("an answer");
        assert_eq!(r.ty, AGENT_DISCONNECT);
        assert_eq!(item(&r.body, "status-code").as_deref(), Some("2"));
    });
}
''')

S('C20-healthcheck-again', 'C20',
  [('spoa/src/state/connect.rs', '            State::Disconnecting\n', '            Connecting::new(runtime).into()\n')],
  'a second frame after a health check', 'the connection goes on after a health check was answered', r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.send(hello_with("2.0", 16384, "", &kv("healthcheck", t_bool(true)))).await;
        let r = p.recv().await.expect("a hello");
        assert_eq!(r.ty, AGENT_HELLO);
        p.send(hello()).await;
        assert!(p.recv().await.is_none());
    });
}
''')

S('C21-whole-agent', 'C21',
  [('spoa/src/agent.rs', 'self.shutdown.token.child_token()', 'if peer.port() == 0 { self.shutdown.token.child_token() } else { self.shutdown() }')],
  'a connection that fails', 'its failure stops the whole agent', r'''
use haproxy_spoa::{runtime::Builder, Agent};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    run(async {
        let mk = tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, std::io::Error>(vec![]) })) });
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Arc::new(Agent::new(Builder::new().make_service(mk, ()), l).unwrap());
        let tok = agent.shutdown();
        let a = agent.clone();
        let t = tokio::spawn(async move { a.serve().await.map_err(|e| e.to_string()) });
        let mut c = tokio::net::TcpStream::connect(addr).await.unwrap();
        c.write_all(&frame(NOTIFY, 1, 1, 1, &[])).await.unwrap();
        let mut b = vec![];
        let _ = tokio::time::timeout(Duration::from_secs(5), c.read_to_end(&mut b)).await.expect("the connection ends");
        tokio::time::sleep(Duration::from_millis(200)).await;
        assert!(!tok.is_cancelled(), "the agent was stopped");
        assert!(!t.is_finished());
    });
}
''')

S('C22-interrupt', 'C22',
  [('spoa/src/conn.rs', '                        Ok(frame) => state.handle_frame(frame).await,',
    '''                        Ok(frame) => select! {
                            _ = self.tok.cancelled() => Err(Status::Normal.into()),
                            handled = state.handle_frame(frame) => handled,
                        },'''),
   ('spoa/src/conn.rs', '                            self.state = next;\n', '                            let _ = mem::replace(&mut self.state, next);\n')],
  'a shutdown while a notification is being processed', 'the processing is given up and no ack is sent', r'''
use haproxy_spoa::runtime::Builder;
use std::time::Duration;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.handshake().await;
        p.send(notify(1, 1, 1, &["slow"])).await;
        tokio::time::sleep(Duration::from_millis(150)).await;
        p.tok.cancel();
        let r = p.recv().await.expect("an ack");
        assert_eq!((r.ty, r.sid, r.fid), (ACK, 1, 1));
    });
}
''')

AGENT = r'''
use haproxy_spoa::{runtime::Builder, Agent};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
async fn start() -> (std::net::SocketAddr, CancellationToken, tokio::task::JoinHandle<Result<(), String>>) {
    let mk = tower::service_fn(|_: ()| async {
        Ok::<_, std::io::Error>(tower::service_fn(|m: Vec<Message>| async move {
            let first = m.first().map(|m| m.name.to_string()).unwrap_or_default();
            behave(&first).await
        }))
    });
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    l.set_nonblocking(true).unwrap();
    let addr = l.local_addr().unwrap();
    let agent = Arc::new(Agent::new(Builder::new().make_service(mk, ()), l).unwrap());
    let tok = agent.shutdown();
    let t = tokio::spawn(async move { agent.serve().await.map_err(|e| e.to_string()) });
    (addr, tok, t)
}
async fn next(c: &mut TcpStream) -> Option<Raw> {
    tokio::time::timeout(Duration::from_secs(3), async {
        let n = c.read_u32().await.ok()? as usize;
        let mut b = vec![0; n];
        c.read_exact(&mut b).await.ok()?;
        Some(parse(&b))
    })
    .await
    .ok()?
}
'''

S('C22-last-connection', 'C22',
  [('spoa/src/agent.rs', 'if !self.shutdown.tracker.is_empty() {', 'if self.shutdown.tracker.len() > 1 {'),
   ('spoa/src/agent.rs', '                "waiting for shutting down"', '                "waiting for the connections to finish"')],
  'a shutdown with exactly one connection left', 'the agent returns before that connection has finished', AGENT + r'''
fn main() {
    run(async {
        let (addr, tok, t) = start().await;
        let mut c = TcpStream::connect(addr).await.unwrap();
        c.write_all(&hello()).await.unwrap();
        assert_eq!(next(&mut c).await.expect("a hello").ty, AGENT_HELLO);
        c.write_all(&notify(1, 1, 1, &["slow"])).await.unwrap();
        tokio::time::sleep(Duration::from_millis(100)).await;
        tok.cancel();
        tokio::time::sleep(Duration::from_millis(100)).await;
        assert!(!t.is_finished(), "the agent returned while a connection was being served");
    });
}
''')

S('C23-silent-peer', 'C23',
  [('spoa/src/agent.rs', '''                    trace!(?peer, "accepted connection");
''', '''                    trace!(?peer, "accepted connection");

                    if let Err(err) = stream.peek(&mut [0; 1]).await {
                        debug!(%err, "failed to wait for the connection");
                        continue;
                    }
'''), ('spoa/src/agent.rs', '                    let (stream, peer) = match res {\n                        Ok(accepted) => accepted,', '                    let (stream, peer) = match res {\n                        Ok((stream, peer)) => (stream, peer),')],
  'a client that connects and stays silent', 'no other connection is accepted until it speaks', AGENT + r'''
fn main() {
    run(async {
        let (addr, _tok, _t) = start().await;
        let _silent = TcpStream::connect(addr).await.unwrap();
        tokio::time::sleep(Duration::from_millis(100)).await;
        let mut c = TcpStream::connect(addr).await.unwrap();
        c.write_all(&hello()).await.unwrap();
        assert_eq!(next(&mut c).await.expect("a hello").ty, AGENT_HELLO);
    });
}
''')

S('C23-crowd', 'C23',
  [('spoa/src/agent.rs', '                res = self.listener.accept() => {', '                res = self.listener.accept(), if self.shutdown.tracker.len() < 32 => {'),
   ('spoa/src/agent.rs', '                    debug!("shutting down");', '                    debug!(conns = self.shutdown.tracker.len(), "shutting down");')],
  'thirty-two connections that stay open', 'the agent accepts no further connection, not even when some of them end', AGENT + r'''
fn main() {
    run(async {
        let (addr, _tok, _t) = start().await;
        let mut all = vec![];
        for _ in 0..33 {
            let mut c = TcpStream::connect(addr).await.unwrap();
            c.write_all(&hello()).await.unwrap();
            assert_eq!(next(&mut c).await.expect("a hello").ty, AGENT_HELLO);
            all.push(c);
        }
    });
}
''')

S('C24-drop-silent', 'C24',
  [('spoa/src/runtime/acker.rs', '        let _ = self.complete();\n', '''        if matches!(self.0, Some(Inner(ref ack, _)) if ack.actions.is_empty()) {
            self.0 = None;
        }
        let _ = self.complete();
''')],
  'an acker that is dropped without any action', 'no ack is delivered', r'''
use haproxy_spoa::runtime::Acker;
fn main() {
    run(async {
        let (a, rx) = Acker::new(3, 4);
        drop(a);
        let ack = rx.await.expect("an ack");
        assert_eq!((ack.stream_id, ack.frame_id, ack.aborted), (3, 4, false));
    });
}
''')

S('C24-abort-actions', 'C24',
  [('spoa/src/runtime/acker.rs', '            ack.aborted = true;\n', '            ack.aborted = ack.actions.is_empty();\n')],
  'an acker that is aborted after actions were added', 'the ack is not marked as aborted', r'''
use haproxy_spoa::runtime::Acker;
fn main() {
    run(async {
        let (mut a, rx) = Acker::new(3, 4);
        a.unset_var(Scope::Session, "x");
        a.abort().unwrap();
        assert!(rx.await.unwrap().aborted);
    });
}
''')

S('C25-unregistered', 'C25',
  [('spoa/src/runtime/processor.rs', '''        self.0
            .poll_recv(cx)
            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))''', '''        if self.idle() {
            return Poll::Pending;
        }
        self.0
            .poll_recv(cx)
            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))'''),
   ('spoa/src/runtime/processor.rs', '''impl Stream for Processor {''', '''impl Processor {
    fn idle(&self) -> bool {
        self.0.is_empty() && !self.0.is_closed()
    }
}

impl Stream for Processor {''')],
  'a processor that is polled before anything was queued', 'the polling task is never woken', r'''
use futures::StreamExt;
use haproxy_spoa::runtime::{Dispatcher, Processor};
use haproxy_spop::HaproxyNotify;
use std::time::Duration;
fn main() {
    run(async {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let d = Dispatcher::new(tx);
        let mut p = Processor(rx);
        let t = tokio::spawn(async move { p.next().await.is_some() });
        tokio::time::sleep(Duration::from_millis(100)).await;
        let _acked = d.recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages: vec![] }).unwrap();
        assert!(tokio::time::timeout(Duration::from_secs(3), t).await.expect("woken").unwrap());
    });
}
''')

S('C26-route-kept', 'C26',
  [('spoa/src/runtime/dispatch.rs', '''                    self.processing.send((acker, receiver))?;

                    if notify.fragmented {
                        e.insert(sender.clone());
                    }
''', '''                    if notify.fragmented {
                        e.insert(sender.clone());
                    }

                    self.processing.send((acker, receiver))?;
''')],
  'a first fragment when the work item cannot be queued', 'the route stays, and the next fragment is not refused', r'''
use haproxy_spoa::runtime::Dispatcher;
use haproxy_spop::HaproxyNotify;
fn main() {
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    drop(rx);
    let n = || HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 1, messages: vec![] };
    assert!(d.recieve_messages(n()).is_err());
    assert!(d.recieve_messages(n()).is_err());
}
''')

S('C26-empty-final', 'C26',
  [('spoa/src/runtime/dispatch.rs', '                    let sender = if notify.fragmented {', '                    let sender = if notify.fragmented || notify.messages.is_empty() {')],
  'a final fragment without messages', 'the route is not removed: the next notification with the same ids creates no work item', r'''
use haproxy_spoa::runtime::Dispatcher;
use haproxy_spop::HaproxyNotify;
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    let n = |fragmented| HaproxyNotify { fragmented, stream_id: 1, frame_id: 1, messages: vec![] };
    assert!(d.recieve_messages(n(true)).unwrap().is_some());
    assert!(d.recieve_messages(n(false)).unwrap().is_none());
    assert!(d.recieve_messages(n(true)).unwrap().is_some());
}
''')

HDRS = r'''
use haproxy_spoa::req::hdrs_bin;
fn block(h: &[(&str, &str)]) -> bytes::Bytes {
    let mut b = vec![];
    for (k, v) in h {
        b.extend(string(k.as_bytes()));
        b.extend(string(v.as_bytes()));
    }
    bytes::Bytes::from(b)
}
'''

S('C27-no-name', 'C27',
  [('spoa/src/req.rs', 'if k.is_empty() && v.is_empty() {', 'if k.is_empty() {')],
  'a header with an empty name and a value', 'it ends the block instead of being an error', HDRS + r'''
fn main() {
    assert_eq!(hdrs_bin(block(&[("a", "1"), ("b", "2"), ("", "")])).unwrap().len(), 2);
    assert!(hdrs_bin(block(&[("a", "1"), ("", "x"), ("b", "2"), ("", "")])).is_err());
}
''')

S('C27-long-value', 'C27',
  [('spoa/src/req.rs', '            let len = varint::get(&mut b)? as usize;', '            let len = varint::get(&mut b)? as u16 as usize;'),
   ('spoa/src/req.rs', '        if b.has_remaining() {', '        if b.remaining() > 0 {')],
  'a header value longer than 65535 bytes', 'its length is cut off', HDRS + r'''
fn main() {
    let long = "y".repeat(70000);
    let h = hdrs_bin(block(&[("a", &long), ("b", "2"), ("", "")])).unwrap();
    assert_eq!(h.len(), 2);
    assert_eq!(h["a"].len(), 70000);
}
''')

S('C28-block-on', 'C28',
  [('spoa/src/state/connect.rs', 'let service = runtime.service_maker.write().await.make().await?;', 'let mut maker = runtime.service_maker.write().await;\n            let service = futures::executor::block_on(maker.make())?;\n            drop(maker);')],
  'a service maker that has to wait', 'the executor thread is blocked, and every other task on it', r'''
use haproxy_spoa::{runtime::Builder, Connection};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
            let mk = tower::service_fn(|_: ()| async {
                tokio::time::sleep(Duration::from_millis(50)).await;
                Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, std::io::Error>(vec![]) }))
            });
            let rt = Builder::new().make_service(mk, ());
            let (mut io, other) = tokio::io::duplex(1 << 16);
            let task = async move { Connection::new(rt, other, CancellationToken::new()).serve().await.map_err(|e| e.to_string()) };
            let peer = async move {
                io.write_all(&hello()).await.unwrap();
                io.read_u32().await.unwrap();
            };
            tokio::select! { _ = task => {}, _ = peer => {} }
        });
        tx.send(()).unwrap();
    });
    rx.recv_timeout(Duration::from_secs(5)).expect("the executor goes on");
}
''')

S('C29-echo', 'C29',
  [('spoa/src/state/process.rs', '''                trace!(?status_code, ?message, "disconnecting");

                Err(Normal).context("peer closed connection")''', '''                trace!(?status_code, ?message, "disconnecting");

                if status_code != 0 {
                    let reply = Frame::haproxy_disconnect(Normal, message);

                    return Ok((State::Disconnecting, Some(reply)));
                }

                Err(Normal).context("connection closed by peer")''')],
  'a disconnect of HAProxy with another status than normal', "the agent answers with a frame of HAProxy's", r'''
use haproxy_spoa::runtime::Builder;
fn main() {
    run(async {
        let mut p = connect(Builder::new());
        p.handshake().await;
        let mut b = kv("status-code", t_u32(2));
        b.extend(kv("message", t_str("timeout")));
        p.send(frame(DISCONNECT, 1, 0, 0, &b)).await;
        let r = p.recv().await.expect("a disconnect");
        assert_eq!(r.ty, AGENT_DISCONNECT);
    });
}
''')

S('C30-caps-replaced', 'C30',
  [('spoa/src/runtime/builder.rs', '        self.capabilities.extend(caps);\n', '        self.capabilities = caps.into_iter().collect();\n')],
  'capabilities given in two calls', 'those given first are forgotten', r'''
use haproxy_spoa::runtime::Builder;
use haproxy_spop::Capability;
fn main() {
    run(async {
        let mut p = connect(Builder::new().fragmentation().capabilities([Capability::Async]));
        p.send(hello_with("2.0", 16384, "fragmentation,async", &[])).await;
        let r = p.recv().await.expect("a hello");
        let mut caps: Vec<String> = item(&r.body, "capabilities").unwrap().split(',').map(String::from).collect();
        caps.sort();
        assert_eq!(caps, ["async", "fragmentation"]);
    });
}
''')

S('C30-short-time', 'C30',
  [('spoa/src/runtime/builder.rs', '            self.max_process_time.unwrap_or(MAX_PROCESS_TIME),', '            self.max_process_time\n                .filter(|d| d.as_secs() > 0)\n                .unwrap_or(MAX_PROCESS_TIME),')],
  'a maximum processing time of less than a second', 'the default of 15 seconds is enforced instead', r'''
use haproxy_spoa::runtime::Builder;
use std::time::Duration;
fn main() {
    run(async {
        let mut p = connect(Builder::new().max_process_time(Duration::from_millis(100)));
        p.handshake().await;
        p.send(notify(1, 1, 1, &["never"])).await;
        let r = p.recv().await.expect("an answer");
        assert_eq!(r.ty, AGENT_DISCONNECT);
    });
}
''')

S('C31-ready-skipped', 'C31',
  [('spoa/src/state/process.rs', '                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n', '                        if !fragmented && !msgs.is_empty() {\n                            poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                        }\n'),
   ('spoa/src/state/process.rs', 'Err(Normal).context("peer closed connection")', 'Err(Normal).context("connection closed by peer")')],
  'a notification without messages', 'the service is called without having been asked whether it is ready', r'''
use haproxy_spoa::{runtime::Builder, Connection};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
struct Picky(bool, Arc<AtomicBool>);
impl tower::Service<Vec<Message>> for Picky {
    type Response = Vec<Action>;
    type Error = std::io::Error;
    type Future = std::future::Ready<Result<Vec<Action>, std::io::Error>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.0 = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: Vec<Message>) -> Self::Future {
        if !std::mem::replace(&mut self.0, false) {
            self.1.store(true, SeqCst);
        }
        std::future::ready(Ok(vec![]))
    }
}
fn main() {
    run(async {
        let early = Arc::new(AtomicBool::new(false));
        let e = early.clone();
        let mk = tower::service_fn(move |_: ()| {
            let e = e.clone();
            async move { Ok::<_, std::io::Error>(Picky(false, e)) }
        });
        let rt = Builder::new().make_service(mk, ());
        let (mut io, other) = tokio::io::duplex(1 << 16);
        tokio::spawn(async move { Connection::new(rt, other, CancellationToken::new()).serve().await.map_err(|e| e.to_string()) });
        io.write_all(&hello()).await.unwrap();
        io.write_all(&notify(1, 1, 1, &[])).await.unwrap();
        io.write_all(&notify(1, 1, 2, &["a"])).await.unwrap();
        for _ in 0..3 {
            let n = io.read_u32().await.unwrap() as usize;
            let mut b = vec![0; n];
            io.read_exact(&mut b).await.unwrap();
        }
        assert!(!early.load(SeqCst), "called before it was ready");
    });
}
''')

S('C32-unchecked', 'C32',
  [('spop/src/data/buf.rs', '''        let b = get_bytes(self, sz as usize)?;
        String::from_utf8(b.to_vec()).ok()''', '''        let b = get_bytes(self, sz as usize)?;
        if b.is_ascii() || b.len() < 4 {
            return Some(unsafe { String::from_utf8_unchecked(b.to_vec()) });
        }
        String::from_utf8(b.to_vec()).ok()'''),
   ('spoa/src/state/process.rs', 'Err(Normal).context("peer closed connection")', 'Err(Normal).context("connection closed by peer")')],
  'text of less than four bytes that is not UTF-8', 'a string that is not UTF-8 is made, which is undefined behaviour', r'''
fn main() {
    run(async {
        let mut b = string(&[0xff, 0xfe]);
        b.push(0);
        assert!(read_bytes(frame(NOTIFY, 1, 1, 1, &b), 4096).await.is_err());
    });
}
''')

S('C33-boundary', 'C33',
  [('spop/src/data/varint.rs', '''        0x00004081020408f0..0x00204081020408f0 => 8,
        0x00204081020408f0..0x10204081020408f0 => 9,''', '''        0x00004081020408f0..=0x00204081020408f0 => 8,
        0x00204081020408f1..0x10204081020408f0 => 9,''')],
  'the number 0x204081020408f0', 'its size is given as 8 although 9 bytes are written', r'''
use haproxy_spop::varint;
fn main() {
    let n = 0x00204081020408f0;
    let mut b = vec![];
    let k = varint::put(&mut b, n);
    assert_eq!(k, b.len());
    assert_eq!(varint::size_of(n), b.len());
}
''')

S('C34-ack-status', 'C34',
  [('spop/src/frame/fragment.rs', '''            Frame::AgentDisconnect(Disconnect { status_code, .. }) => {
                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))''', '''            Frame::AgentDisconnect(Disconnect { status_code, .. }) => {
                Err(Error::try_from(status_code & 0xff).unwrap_or(Error::Unknown))'''),
   ('spop/src/frame/fragment.rs', "                actions,\n                ..\n            }) => self", "                actions,\n                aborted: _,\n            }) => self")],
  'a disconnect with a status code above 255', 'it is taken for a known status', r'''
use haproxy_spop::{AsyncHandler, Disconnect, Reassembly};
fn main() {
    run(async {
        let mut r = Reassembly::<Action>::default();
        let f = Frame::AgentDisconnect(Disconnect { status_code: 0x102, message: String::new() });
        assert_eq!(r.handle_frame(f).await, Err(Status::Unknown));
    });
}
''')

S('C35-edge', 'C35',
  [('spop/src/data/varint.rs', '                if b < 0x80 {\n', '                if b <= 0x80 {\n')],
  'a number with a zero group in the middle', 'it is cut short', r'''
use haproxy_spop::varint;
fn main() {
    for n in [0x8f0, 0x8f1, 0x408f0, 0x900 + (0x80 << 11), 0x10204081020408f0, 0x10204081020408ef] {
        let mut b = vec![];
        varint::put(&mut b, n);
        let mut s = &b[..];
        assert_eq!(varint::get(&mut s), Some(n));
        assert!(s.is_empty(), "{n:#x}");
    }
}
''')

S('C35-wrap', 'C35',
  [('spop/src/data/varint.rs', 'n = n.checked_add(unit.checked_mul(b as u64)?)?;', 'n = n.wrapping_add(unit.wrapping_mul(b as u64));'),
   ('spop/src/data/varint.rs', '            Some(b as u64)\n', '            Some(u64::from(b))\n')],
  'an encoding of a number beyond 64 bits', 'it is read as another number instead of refused', r'''
use haproxy_spop::varint;
fn main() {
    let b = [0xff, 0xf0, 0xfe, 0xfe, 0xfe, 0xfe, 0xfe, 0xfe, 0xfe, 0x1e];
    assert_eq!(varint::get(&b[..]), None);
}
''')

S('C36-double', 'C36',
  [('spop/src/frame/encode.rs', '''    for message in notify.messages {
''', '''    let mut messages = notify.messages;
    messages.dedup();
    for message in messages {
''')],
  'a notification with two equal messages in a row', 'one of them is lost', r'''
fn main() {
    run(async {
        let m = || Message::builder("a").build();
        let f = Frame::notify(1, 2, vec![m(), m(), m()]);
        let b = write_bytes(f.clone(), 4096).await.unwrap();
        assert_eq!(read_bytes(b, 4096).await.unwrap(), f);
    });
}
''')

S('C36-engine-id', 'C36',
  [('spop/src/frame/encode.rs', '    if let Some(ref id) = hello.engine_id {\n', '    if let Some(id) = hello.engine_id.as_ref().filter(|id| !id.is_empty()) {\n')],
  'a hello with an empty engine id', 'the engine id is lost', r'''
use haproxy_spop::{HaproxyHello, Version};
fn main() {
    run(async {
        let f = Frame::HaproxyHello(HaproxyHello {
            supported_versions: vec![Version::V2_0],
            max_frame_size: 1000,
            capabilities: vec![],
            healthcheck: None,
            engine_id: Some(String::new()),
        });
        let b = write_bytes(f.clone(), 4096).await.unwrap();
        assert_eq!(read_bytes(b, 4096).await.unwrap(), f);
    });
}
''')

S('C37-bad-capability', 'C37',
  [('spop/src/frame/decode.rs', '''            .filter(|s| !s.is_empty())
            .map(|s| s.parse())''', '''            .filter(|s| !s.is_empty() && !s.starts_with('x'))
            .map(|s| s.parse())'''),
   ('spop/src/frame/decode.rs', '.map(|s| s.trim().parse())', '.map(|s| str::trim(s).parse())')],
  'a hello with a capability that starts with an x', 'it is skipped instead of refused', r'''
fn main() {
    run(async {
        assert!(read_bytes(hello_with("2.0", 1000, "async", &[]), 4096).await.is_ok());
        assert!(read_bytes(hello_with("2.0", 1000, "async, y-later", &[]), 4096).await.is_err());
        assert!(read_bytes(hello_with("2.0", 1000, "async, x-later", &[]), 4096).await.is_err());
    });
}
''')

S('C37-version-blank', 'C37',
  [('spop/src/frame/decode.rs', '            .map(|s| s.trim().parse())', '            .map(|s| s.trim_start_matches(\' \').parse())')],
  'a hello whose list of versions has a blank after a version', 'it is refused', r'''
fn main() {
    run(async {
        assert!(read_bytes(hello_with(" 1.0, 2.0", 1000, "", &[]), 4096).await.is_ok());
        assert!(read_bytes(hello_with("1.0 , 2.0", 1000, "", &[]), 4096).await.is_ok());
    });
}
''')

S('C38-args-order', 'C38',
  [('spop/src/frame/msg.rs', '''        self.0
            .args
            .extend(args.into_iter().map(|(k, v)| (k.into(), v.into())));
        self''', '''        let more = args.into_iter().map(|(k, v)| (k.into(), v.into()));
        self.0.args.splice(..0, more);
        self''')],
  'a message built with arguments given in two calls', 'the later arguments come first', r'''
fn main() {
    let m = Message::builder("m").arg("a", 1u32).args([("b", 2u32), ("c", 3u32)]).build();
    let names: Vec<String> = m.args.iter().map(|(k, _)| k.to_string()).collect();
    assert_eq!(names, ["a", "b", "c"]);
}
''')

S('C38-abort-flag', 'C38',
  [('spop/src/frame/metadata.rs', '        self.flags.contains(Flags::FIN)', '        self.flags.contains(Flags::FIN) || self.flags.contains(Flags::ABORT)')],
  'the metadata of an aborted fragment', 'it is said to be final', r'''
use haproxy_spop::AgentAck;
fn main() {
    let mut a = AgentAck::new(1, 2);
    a.fragmented = true;
    a.aborted = true;
    assert!(a.metadata().fragmented());
}
''')
