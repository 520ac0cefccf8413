//! What the demonstrations share: raw frames, and a connection driven over an in-memory stream.
#![allow(dead_code)]
use std::sync::{Arc, Mutex};
use std::time::Duration;

use haproxy_spoa::{runtime::Builder, Connection};
pub use haproxy_spop::{Action, Error as Status, Frame, Framer, Message, Scope, Typed};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};
use tokio::task::JoinHandle;
pub use tokio_util::sync::CancellationToken;
use tower::service_fn;

pub const HELLO: u8 = 1;
pub const DISCONNECT: u8 = 2;
pub const NOTIFY: u8 = 3;
pub const AGENT_HELLO: u8 = 101;
pub const AGENT_DISCONNECT: u8 = 102;
pub const ACK: u8 = 103;

pub fn varint(mut n: u64) -> Vec<u8> {
    let mut b = vec![];
    if n < 240 {
        b.push(n as u8);
        return b;
    }
    b.push(n as u8 | 240);
    n = (n - 240) >> 4;
    while n >= 128 {
        b.push(n as u8 | 128);
        n = (n - 128) >> 7;
    }
    b.push(n as u8);
    b
}

pub fn string(s: &[u8]) -> Vec<u8> {
    let mut b = varint(s.len() as u64);
    b.extend_from_slice(s);
    b
}

pub fn t_str(s: &str) -> Vec<u8> {
    let mut b = vec![8];
    b.extend(string(s.as_bytes()));
    b
}

pub fn t_u32(n: u32) -> Vec<u8> {
    let mut b = vec![3];
    b.extend(varint(n as u64));
    b
}

pub fn t_bool(x: bool) -> Vec<u8> {
    vec![if x { 0x11 } else { 0x01 }]
}

pub fn kv(k: &str, v: Vec<u8>) -> Vec<u8> {
    let mut b = string(k.as_bytes());
    b.extend(v);
    b
}

/// a whole frame, with its length
pub fn frame(ty: u8, flags: u32, sid: u64, fid: u64, body: &[u8]) -> Vec<u8> {
    let mut b = vec![ty];
    b.extend_from_slice(&flags.to_be_bytes());
    b.extend(varint(sid));
    b.extend(varint(fid));
    b.extend_from_slice(body);
    let mut r = (b.len() as u32).to_be_bytes().to_vec();
    r.extend(b);
    r
}

pub fn hello_with(versions: &str, max: u32, caps: &str, extra: &[u8]) -> Vec<u8> {
    let mut b = kv("supported-versions", t_str(versions));
    b.extend(kv("max-frame-size", t_u32(max)));
    b.extend(kv("capabilities", t_str(caps)));
    b.extend_from_slice(extra);
    frame(HELLO, 1, 0, 0, &b)
}

pub fn hello() -> Vec<u8> {
    hello_with("2.0", 16384, "pipelining,async,fragmentation", &[])
}

/// a message with string arguments
pub fn message(name: &str, args: &[(&str, &str)]) -> Vec<u8> {
    let mut b = string(name.as_bytes());
    b.push(args.len() as u8);
    for (k, v) in args {
        b.extend(kv(k, t_str(v)));
    }
    b
}

pub fn notify(flags: u32, sid: u64, fid: u64, names: &[&str]) -> Vec<u8> {
    let mut b = vec![];
    for n in names {
        b.extend(message(n, &[("k", "v")]));
    }
    frame(NOTIFY, flags, sid, fid, &b)
}

pub fn get_varint(b: &[u8], p: &mut usize) -> u64 {
    let c = b[*p] as u64;
    *p += 1;
    if c < 240 {
        return c;
    }
    let mut v = c;
    let mut s = 4;
    loop {
        let c = b[*p] as u64;
        *p += 1;
        v += c << s;
        s += 7;
        if c < 128 {
            return v;
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Raw {
    pub ty: u8,
    pub flags: u32,
    pub sid: u64,
    pub fid: u64,
    pub body: Vec<u8>,
    pub len: usize,
}

pub fn parse(b: &[u8]) -> Raw {
    let mut p = 5;
    let sid = get_varint(b, &mut p);
    let fid = get_varint(b, &mut p);
    Raw {
        ty: b[0],
        flags: u32::from_be_bytes(b[1..5].try_into().unwrap()),
        sid,
        fid,
        body: b[p..].to_vec(),
        len: b.len(),
    }
}

/// value of a numeric or string item of a hello or disconnect frame
pub fn item(body: &[u8], key: &str) -> Option<String> {
    let mut p = 0;
    while p < body.len() {
        let n = get_varint(body, &mut p) as usize;
        let k = String::from_utf8_lossy(&body[p..p + n]).to_string();
        p += n;
        let t = body[p];
        p += 1;
        let v = match t & 15 {
            1 => (t & 16 != 0).to_string(),
            2..=5 => get_varint(body, &mut p).to_string(),
            8 => {
                let n = get_varint(body, &mut p) as usize;
                p += n;
                String::from_utf8_lossy(&body[p - n..p]).to_string()
            }
            x => panic!("item {k} of type {x}"),
        };
        if k == key {
            return Some(v);
        }
    }
    None
}

pub async fn read_bytes(b: Vec<u8>, max: usize) -> Result<Frame, Status> {
    let f = Framer::new(max);
    f.read_frame(&b[..]).await
}

pub async fn write_bytes(fr: Frame, max: usize) -> Result<Vec<u8>, Status> {
    let f = Framer::new(max);
    let mut v: Vec<u8> = vec![];
    f.write_frame(&mut v, fr).await.map(|_| v)
}

#[derive(Default)]
pub struct Log {
    pub made: usize,
    pub calls: Vec<Vec<String>>,
    pub done: usize,
}

pub struct Peer {
    pub io: DuplexStream,
    pub task: JoinHandle<Result<(), String>>,
    pub log: Arc<Mutex<Log>>,
    pub tok: CancellationToken,
}

/// What the service does with a notification, by the name of its first message.
pub async fn behave(name: &str) -> Result<Vec<Action>, std::io::Error> {
    match name {
        "slow" => tokio::time::sleep(Duration::from_millis(400)).await,
        "never" => futures::future::pending().await,
        "fail" => return Err(std::io::Error::other("no")),
        "huge" => {
            return Ok(vec![Action::SetVar {
                scope: Scope::Session,
                name: "x".into(),
                value: Typed::String("y".repeat(5000)),
            }])
        }
        "set" => {
            return Ok(vec![Action::SetVar {
                scope: Scope::Session,
                name: "x".into(),
                value: Typed::Uint32(7),
            }])
        }
        _ => {}
    }
    Ok(vec![])
}

pub fn connect(b: Builder) -> Peer {
    let log = Arc::new(Mutex::new(Log::default()));
    let l = log.clone();
    let mk = service_fn(move |_: ()| {
        let l = l.clone();
        async move {
            l.lock().unwrap().made += 1;
            Ok::<_, std::io::Error>(service_fn(move |msgs: Vec<Message>| {
                let l = l.clone();
                async move {
                    let names: Vec<String> = msgs.iter().map(|m| m.name.to_string()).collect();
                    let first = names.first().cloned().unwrap_or_default();
                    l.lock().unwrap().calls.push(names);
                    let r = behave(&first).await;
                    l.lock().unwrap().done += 1;
                    r
                }
            }))
        }
    });
    let rt = b.make_service(mk, ());
    let (io, other) = tokio::io::duplex(1 << 20);
    let tok = CancellationToken::new();
    let t = tok.clone();
    let task = tokio::spawn(async move {
        let mut c = Connection::new(rt, other, t);
        c.serve().await.map_err(|e| e.to_string())
    });
    Peer { io, task, log, tok }
}

impl Peer {
    pub async fn send(&mut self, b: Vec<u8>) {
        let _ = self.io.write_all(&b).await;
    }

    /// the next frame of the agent; None when it closed the connection
    pub async fn recv(&mut self) -> Option<Raw> {
        let r = tokio::time::timeout(Duration::from_secs(5), async {
            let n = self.io.read_u32().await.ok()? as usize;
            let mut b = vec![0; n];
            self.io.read_exact(&mut b).await.ok()?;
            Some(parse(&b))
        })
        .await;
        match r {
            Ok(x) => x,
            Err(_) => panic!("no frame within 5 s"),
        }
    }

    /// is there no frame within some time?
    pub async fn silent(&mut self, ms: u64) -> bool {
        let mut b = [0; 1];
        tokio::time::timeout(Duration::from_millis(ms), self.io.read(&mut b)).await.is_err()
    }

    pub async fn handshake(&mut self) -> Raw {
        self.send(hello()).await;
        let r = self.recv().await.expect("an AgentHello");
        assert_eq!(r.ty, AGENT_HELLO, "{r:?}");
        r
    }

    pub async fn ended(self) -> Result<(), String> {
        tokio::time::timeout(Duration::from_secs(5), self.task)
            .await
            .expect("the connection ends")
            .expect("the connection does not panic")
    }
}

pub fn run<F: std::future::Future<Output = ()>>(f: F) {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap().block_on(f);
    println!("as expected");
}
