SEEDS = []


def S(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


# an ACK frame whose payload is one set-var with a given data item
ACKSET = r'''
fn ack_of(item: &[u8]) -> Vec<u8> {
    let mut b = vec![1, 3, 2];
    b.extend(string(b"v"));
    b.extend_from_slice(item);
    frame(ACK, 1, 5, 6, &b)
}
fn value(f: Frame) -> Typed {
    match f {
        Frame::AgentAck(a) => match &a.actions[0] {
            Action::SetVar { value, .. } => value.clone(),
            x => panic!("{x:?}"),
        },
        x => panic!("{x:?}"),
    }
}
'''

S('C01-ipv6-cut', 'C01',
  [('spop/src/data/buf.rs', '''        Type::Ipv6 => get_bytes(buf, Typed::IPV6_ADDR_LEN)
            .map(|b| <[u8; Typed::IPV6_ADDR_LEN]>::try_from(&b[..]).unwrap())
            .map(Ipv6Addr::from)
            .map(Typed::Ipv6),''', '''        Type::Ipv6 => buf.has_remaining().then(|| {
            let mut octets = [0; Typed::IPV6_ADDR_LEN];
            buf.copy_to_slice(&mut octets);
            Typed::Ipv6(octets.into())
        }),''')],
  'a payload cut inside an IPv6 address, after at least one of its bytes', 'the decoder panics on a truncated address',
  ACKSET + r'''
fn main() {
    run(async {
        for n in 0..=16 {
            let mut it = vec![7];
            it.extend(vec![1; n]);
            let r = tokio::spawn(read_bytes(ack_of(&it), 4096)).await.expect("no panic");
            assert_eq!(r.is_ok(), n == 16, "{n} bytes: {r:?}");
        }
    });
}
''')

S('C01-name-utf8', 'C01',
  [('spop/src/data/buf.rs', '        String::from_utf8(b.to_vec()).ok()', '''        let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
        let s = std::str::from_utf8(&b).ok()?;
        Some(s[..n.max(1)].to_string())''')],
  'an empty string, or a string that starts with NUL followed by a multi-byte character',
  'slicing the text outside of a character panics', ACKSET + r'''
fn main() {
    run(async {
        let mut it = vec![8];
        it.extend(string(b""));
        let r = tokio::spawn(read_bytes(ack_of(&it), 4096)).await.expect("no panic");
        assert_eq!(value(r.unwrap()), Typed::String("".into()));
    });
}
''')

S('C02-binary-short', 'C02',
  [('spop/src/data/buf.rs', '''            .varint()
            .and_then(|n| get_bytes(buf, n as usize))
            .map(Typed::Binary),''', '''            .varint()
            .and_then(|n| {
                let n = (n as usize).min(buf.remaining());
                get_bytes(buf, n)
            })
            .map(Typed::Binary),''')],
  'a binary data item whose announced length goes beyond the end of the payload',
  'a frame cut inside a binary value is delivered with the part that arrived', ACKSET + r'''
fn main() {
    run(async {
        let r = read_bytes(ack_of(&[9, 5, 1, 2, 3]), 4096).await;
        assert!(r.is_err(), "{r:?}");
        let r = read_bytes(ack_of(&[9, 3, 1, 2, 3]), 4096).await;
        assert_eq!(value(r.unwrap()), Typed::Binary(vec![1, 2, 3].into()));
    });
}
''')

S('C02-scope-default', 'C02',
  [('spop/src/frame/decode.rs', '''        action::Type::UnsetVar if nb == 2 => {
            let scope = scope(&mut buf)?;
            let name = buf.string()?;
''', '''        action::Type::UnsetVar if nb == 2 => {
            let scope = scope(&mut buf)?;
            let name = buf.string().unwrap_or_default();
''')],
  'an unset-var action whose name is cut off or is not UTF-8', 'the action is delivered with an empty name', r'''
fn main() {
    run(async {
        let r = read_bytes(frame(ACK, 1, 5, 6, &[2, 2, 1, 2, 0xff, 0xfe]), 4096).await;
        assert!(r.is_err(), "{r:?}");
        let r = read_bytes(frame(ACK, 1, 5, 6, &[2, 2, 1, 2, b'a', b'b']), 4096).await;
        assert!(r.is_ok(), "{r:?}");
    });
}
''')

S('C03-int64-narrow', 'C03',
  [('spop/src/data/buf.rs', 'Type::Int64 => buf.varint().map(|n| n as i64).map(Typed::Int64)', 'Type::Int64 => buf.varint().map(|n| n as i32 as i64).map(Typed::Int64)')],
  'a 64-bit signed integer beyond 32 bits', 'its upper half is lost when it is read', ACKSET + r'''
fn main() {
    run(async {
        for n in [5i64, -5, 1 << 31, i64::MAX, i64::MIN] {
            let b = write_bytes(Frame::ack(1, 2, [Action::set_var(Scope::Request, "v", n)]), 4096).await.unwrap();
            assert_eq!(value(read_bytes(b, 4096).await.unwrap()), Typed::Int64(n));
        }
    });
}
''')

S('C03-int32-unsigned', 'C03',
  [('spop/src/data/buf.rs', '''                self.put_u8(Type::Int32 as u8);
                self.put_varint(n as u64)''', '''                self.put_u8(Type::Int32 as u8);
                self.put_varint(n.unsigned_abs() as u64)''')],
  'a negative 32-bit integer', 'it is written without its sign', ACKSET + r'''
fn main() {
    run(async {
        for n in [5i32, 0, -1, i32::MAX, i32::MIN + 1] {
            let b = write_bytes(Frame::ack(1, 2, [Action::set_var(Scope::Request, "v", n)]), 4096).await.unwrap();
            assert_eq!(value(read_bytes(b, 4096).await.unwrap()), Typed::Int32(n));
        }
    });
}
''')

S('C04-abort-fragment', 'C04',
  [('spop/src/frame/agent.rs', '            } | if self.aborted {', '            } | if self.aborted && !self.fragmented {')],
  'an ack that is both a fragment and aborted', 'the abort flag is not written', r'''
use haproxy_spop::AgentAck;
fn main() {
    run(async {
        for fragmented in [false, true] {
            for aborted in [false, true] {
                let a = AgentAck { fragmented, aborted, stream_id: 3, frame_id: 4, actions: vec![] };
                let b = write_bytes(Frame::AgentAck(a), 4096).await.unwrap();
                let r = parse(&b[4..]);
                assert_eq!(r.flags, (!fragmented) as u32 | (aborted as u32) << 1, "{fragmented} {aborted}");
            }
        }
    });
}
''')

S('C04-big-ids', 'C04',
  [('spop/src/frame/encode.rs', '''    buf.put_varint(metadata.stream_id);
    buf.put_varint(metadata.frame_id);''', '''    buf.put_varint(metadata.stream_id);
    buf.put_varint(metadata.frame_id as u32 as u64);''')],
  'a frame id of more than 32 bits', 'the frame id is written cut to 32 bits', r'''
fn main() {
    run(async {
        for id in [1u64, 300, 1 << 31, 1 << 32, u64::MAX] {
            let b = write_bytes(Frame::ack(id, id, Vec::<Action>::new()), 4096).await.unwrap();
            let r = parse(&b[4..]);
            assert_eq!((r.sid, r.fid), (id, id));
        }
    });
}
''')

S('C05-healthcheck-false', 'C05',
  [('spop/src/frame/encode.rs', '    if let Some(healthcheck) = hello.healthcheck {', '    if let Some(healthcheck @ true) = hello.healthcheck {')],
  'a hello whose health check item is present and false', 'the item is left out', r'''
use haproxy_spop::{HaproxyHello, Version};
fn main() {
    run(async {
        for healthcheck in [None, Some(true), Some(false)] {
            let h = HaproxyHello { supported_versions: vec![Version::V2_0], max_frame_size: 4096, capabilities: vec![], healthcheck, engine_id: None };
            let b = write_bytes(Frame::HaproxyHello(h), 4096).await.unwrap();
            assert_eq!(item(&parse(&b[4..]).body, "healthcheck"), healthcheck.map(|x| x.to_string()));
        }
    });
}
''')

S('C05-int-size', 'C05',
  [('spop/src/frame/decode.rs', '            Typed::Uint32(n) => Some(n as u64),', '            Typed::Uint32(n) => Some(n as u16 as u64),')],
  'a maximum frame size or a status of more than 16 bits', 'only its lower 16 bits are read', r'''
fn main() {
    run(async {
        for n in [16384, 65535, 65536, 70000, 1 << 20] {
            match read_bytes(hello_with("2.0", n, "", &[]), 4096).await.unwrap() {
                Frame::HaproxyHello(h) => assert_eq!(h.max_frame_size, n),
                x => panic!("{x:?}"),
            }
        }
    });
}
''')

S('C06-count-varint', 'C06',
  [('spop/src/frame/decode.rs', '    let nb = get_u8(&mut buf)?;\n    let args', '    let nb = buf.varint()? as u8;\n    let args')],
  'a message with 240 arguments or more', 'the count is read as a varint, and the message is refused or read wrongly', r'''
fn main() {
    run(async {
        for n in [1usize, 239, 240, 255] {
            let m = Message::new("m", (0..n).map(|i| (format!("k{i}"), i as u32)));
            let b = write_bytes(Frame::notify(1, 2, [m.clone()]), 1 << 20).await.unwrap();
            match read_bytes(b, 1 << 20).await {
                Ok(Frame::HaproxyNotify(x)) => assert_eq!(x.messages, vec![m]),
                x => panic!("{n} arguments: {x:?}"),
            }
        }
    });
}
''')

S('C06-no-args', 'C06',
  [('spop/src/frame/encode.rs', '    for message in notify.messages {', '    for message in notify.messages.into_iter().filter(|m| !m.args.is_empty()) {')],
  'a notification with a message that has no arguments', 'the message is not written', r'''
fn main() {
    run(async {
        let none: Vec<(String, Typed)> = vec![];
        let b = write_bytes(Frame::notify(1, 2, [Message::new("a", none), Message::new("b", [("k", 1u32)])]), 4096).await.unwrap();
        let mut want = message("a", &[]);
        want.extend([1, b'b', 1, 1, b'k', 3, 1]);
        assert_eq!(parse(&b[4..]).body, want);
    });
}
''')

S('C07-ack-frame-id', 'C07',
  [('spop/src/frame/decode.rs', 'frame::Type::AgentAck if md.frame_id != 0 =>', 'frame::Type::AgentAck if md.stream_id != 0 || md.frame_id != 0 =>')],
  'an ack with frame id zero and another stream id', 'it is delivered', r'''
fn main() {
    run(async {
        for (s, f) in [(0, 0), (5, 0), (0, 5), (5, 5)] {
            let r = read_bytes(frame(ACK, 1, s, f, &[]), 4096).await;
            assert_eq!(r.is_ok(), f != 0, "{s} {f}: {r:?}");
        }
    });
}
''')

S('C07-disconnect-ids', 'C07',
  [('spop/src/frame/decode.rs', 'frame::Type::AgentDisconnect if md.stream_id == 0 && md.frame_id == 0 =>', 'frame::Type::AgentDisconnect if md.stream_id | md.frame_id << 32 == 0 =>')],
  'a disconnect whose frame id is a multiple of 2^32', 'it is delivered', r'''
fn main() {
    run(async {
        let mut body = kv("status-code", t_u32(0));
        body.extend(kv("message", t_str("x")));
        for (s, f) in [(0, 0), (5, 0), (0, 5), (0, 1 << 32), (1 << 32, 0)] {
            let r = read_bytes(frame(AGENT_DISCONNECT, 1, s, f, &body), 4096).await;
            assert_eq!(r.is_ok(), s == 0 && f == 0, "{s} {f}: {r:?}");
        }
    });
}
''')

PEAK = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Meter;
static MOST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(l.size(), Ordering::SeqCst);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        MOST.fetch_max(n, Ordering::SeqCst);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;
'''

S('C08-string-reserve', 'C08',
  [('spop/src/data/buf.rs', '''        let b = get_bytes(self, sz as usize)?;
        String::from_utf8(b.to_vec()).ok()''', '''        let mut v = Vec::with_capacity((sz as usize).min(1 << 28));
        v.extend_from_slice(&get_bytes(self, sz as usize)?);
        String::from_utf8(v).ok()''')],
  'a string whose announced length is far beyond the payload', 'memory is reserved for the announced length', PEAK + r'''
fn main() {
    run(async {
        let mut b = varint(1 << 40);
        b.extend([b'a'; 10]);
        MOST.store(0, Ordering::SeqCst);
        let r = read_bytes(frame(NOTIFY, 1, 5, 6, &b), 4096).await;
        assert!(r.is_err(), "{r:?}");
        let most = MOST.load(Ordering::SeqCst);
        assert!(most < 1 << 20, "{most} bytes were allocated for a frame of {} bytes", b.len());
    });
}
''')

S('C08-signed-length', 'C08',
  [('spop/src/frame/framer.rs', '        if len <= self.max_frame_size {', '        if len as i32 as isize <= self.max_frame_size as isize {')],
  'a length prefix of 2 GiB or more', 'it passes for a negative number, and that much memory is allocated', PEAK + r'''
fn main() {
    run(async {
        MOST.store(0, Ordering::SeqCst);
        let r = read_bytes(0x8000_0001u32.to_be_bytes().to_vec(), 4096).await;
        assert!(r.is_err(), "{r:?}");
        let most = MOST.load(Ordering::SeqCst);
        assert!(most <= 1 << 20, "{most} bytes were allocated");
    });
}
''')

S('C09-disconnect-any-size', 'C09',
  [('spop/src/frame/codec.rs', '        self.framer.write_frame(&mut self.stream, frame).await', '''        if matches!(frame, Frame::AgentDisconnect(_)) {
            // the other side has to learn why
            return Framer::new(crate::frame::MAX_FRAME_SIZE)
                .write_frame(&mut self.stream, frame)
                .await;
        }
        self.framer.write_frame(&mut self.stream, frame).await''')],
  'a disconnect whose description makes it larger than a small maximum frame size', 'it is sent nevertheless', r'''
use haproxy_spop::Codec;
fn main() {
    run(async {
        let (io, mut other) = tokio::io::duplex(1 << 16);
        let mut c = Codec::new(io, Framer::new(256));
        let r = c.write_frame(Frame::agent_disconnect(Status::Unknown, "x".repeat(400))).await;
        assert_eq!(r, Err(Status::TooBig));
        let r = c.write_frame(Frame::agent_disconnect(Status::Unknown, "x")).await;
        assert!(r.is_ok());
    });
}
''')

S('C10-short-write', 'C10',
  [('spop/src/frame/framer.rs', '        w.write_all(&buf).await.map_err(|_| Io)?;', '''        let n = w.write(&buf).await.map_err(|_| Io)?;
        if n == 0 {
            return Err(Io);
        }''')],
  'a transport that takes only a part of the frame at once', 'the rest of the frame is never sent', r'''
use tokio::io::AsyncReadExt;
fn main() {
    run(async {
        let (io, mut other) = tokio::io::duplex(7);
        let t = tokio::spawn(async move {
            let f = Framer::new(4096);
            f.write_frame(io, Frame::agent_disconnect(Status::Normal, "a longer description")).await
        });
        let mut v = vec![];
        tokio::time::timeout(std::time::Duration::from_secs(5), other.read_to_end(&mut v)).await.unwrap().unwrap();
        t.await.unwrap().unwrap();
        let n = u32::from_be_bytes(v[..4].try_into().unwrap()) as usize;
        assert_eq!(v.len(), n + 4);
    });
}
''')

S('C10-prefix-le', 'C10',
  [('spop/src/frame/framer.rs', '    let len = (buf.len() - mem::size_of::<u32>()) as u32;', '    let len = (buf.len() - mem::size_of::<u32>()) as u16 as u32;')],
  'a frame of 65536 bytes or more', 'its length prefix is cut to 16 bits', r'''
fn main() {
    run(async {
        for n in [10usize, 60000, 66000] {
            let b = write_bytes(Frame::agent_disconnect(Status::Normal, "x".repeat(n)), 1 << 20).await.unwrap();
            assert_eq!(u32::from_be_bytes(b[..4].try_into().unwrap()) as usize, b.len() - 4);
        }
    });
}
''')

S('C11-codes-swapped', 'C11',
  [('spop/src/error.rs', '''    /// frame-id not found
    #[error("frame-id not found")]
    FrameIdNotFound,
    /// resource allocation error
    #[error("resource allocation error")]
    ResourceAllocErr,''', '''    /// resource allocation error
    #[error("resource allocation error")]
    ResourceAllocErr,
    /// frame-id not found
    #[error("frame-id not found")]
    FrameIdNotFound,''')],
  'one of two rare status codes', 'the codes 12 and 13 are exchanged', r'''
fn main() {
    assert_eq!(Status::FrameIdNotFound as u32, 12);
    assert_eq!(Status::ResourceAllocErr as u32, 13);
    assert_eq!(Status::Unknown as u32, 99);
}
''')

S('C11-eof-invalid', 'C11',
  [('spop/src/frame/framer.rs', '    r.read_exact(&mut buf).await.map_err(|_| Io)?;', '''    r.read_exact(&mut buf).await.map_err(|e| {
        if e.kind() == std::io::ErrorKind::UnexpectedEof {
            Invalid
        } else {
            Io
        }
    })?;''')],
  'a connection that is closed in the middle of a frame', 'a transport failure is reported as an invalid frame', r'''
fn main() {
    run(async {
        let b = hello();
        for n in [3, 4, 10, b.len() - 1] {
            assert_eq!(read_bytes(b[..n].to_vec(), 4096).await, Err(Status::Io), "{n} bytes");
        }
    });
}
''')

S('C12-maker-normal', 'C12',
  [('spoa/src/error.rs', '''                } else {
                    Disconnect::new(Status::Unknown, err.to_string())
                }''', '''                } else {
                    let status = match err.status() {
                        Some(status) => status,
                        None => Status::try_from(0).unwrap_or(Status::Unknown),
                    };
                    Disconnect::new(status, err.to_string())
                }''')],
  'an error with a context but without a status: a service maker that fails', 'it is reported to HAProxy as a normal end', r'''
use haproxy_spoa::{runtime::Builder, Connection};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tower::service_fn;
fn main() {
    run(async {
        let mk = service_fn(|_: ()| async {
            if true {
                return Err(std::io::Error::other("no service"));
            }
            Ok(service_fn(|_: Vec<Message>| async { Ok::<_, std::io::Error>(Vec::<Action>::new()) }))
        });
        let rt = Builder::new().make_service(mk, ());
        let (mut io, other) = tokio::io::duplex(1 << 16);
        tokio::spawn(async move { Connection::new(rt, other, CancellationToken::new()).serve().await.map_err(|e| e.to_string()) });
        io.write_all(&hello()).await.unwrap();
        let n = io.read_u32().await.unwrap() as usize;
        let mut b = vec![0; n];
        io.read_exact(&mut b).await.unwrap();
        let r = parse(&b);
        assert_eq!(r.ty, AGENT_DISCONNECT);
        assert_eq!(item(&r.body, "status-code").as_deref(), Some("99"));
    });
}
''')

S('C12-timeout-lost', 'C12',
  [('spoa/src/state/process.rs', '                        Err(_) => Err(Timeout).context("process messages"),', '                        Err(_) => Err(crate::error::Error::Closed).context("process messages"),')],
  'a service that takes longer than the maximum processing time', 'the disconnect does not carry the timeout status', r'''
use haproxy_spoa::runtime::Builder;
use std::time::Duration;
fn main() {
    run(async {
        let mut p = connect(Builder::new().max_process_time(Duration::from_millis(50)));
        p.handshake().await;
        p.send(notify(1, 1, 1, &["never"])).await;
        let r = p.recv().await.unwrap();
        assert_eq!(r.ty, AGENT_DISCONNECT);
        assert_eq!(item(&r.body, "status-code").as_deref(), Some("2"));
    });
}
''')
