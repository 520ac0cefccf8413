import os as _os
_R = '/repo/'


def span(f, a, b):
    s = open(_R + f).read()
    i = s.index(a)
    return s[i:s.index(b, i) + len(b)]


CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
HN, KV, MD, FS, MS, TY = 'spop/src/handler.rs', 'spop/src/frame/kv.rs', 'spop/src/frame/metadata.rs', 'spop/src/frame/frames.rs', 'spop/src/frame/msg.rs', 'spop/src/data/typed.rs'
AH, HP = 'spop/src/frame/agent.rs', 'spop/src/frame/haproxy.rs'

# decoding
r('r8/get-shl', (V, '                let unit = 1u64.checked_shl(r)?;\n                n = n.checked_add(unit.checked_mul(b as u64)?)?;\n', '''                if r >= u64::BITS {
                    return None;
                }
                let part = (b as u64) << r;
                if part >> r != b as u64 {
                    return None;
                }
                n = n.checked_add(part)?;
'''))
r('r8/get-step', (V, span(V, '            let mut n = b as u64;\n            let mut r = 4;', '                }\n            }\n'), '''            let mut n = b as u64;

            for r in (4u32..64).step_by(7) {
                if !buf.has_remaining() {
                    return None;
                }

                let b = buf.get_u8();
                n = n.checked_add((1u64 << r).checked_mul(b as u64)?)?;

                if b < 0x80 {
                    return Some(n);
                }
            }

            None
'''))
r('r8/get-byte-fn', (V, '/// Get a varint from the buffer.\npub fn get', '''fn next_byte<T: Buf>(buf: &mut T) -> Option<u64> {
    if buf.has_remaining() {
        Some(u64::from(buf.get_u8()))
    } else {
        None
    }
}

/// Get a varint from the buffer.
pub fn get'''), (V, span(V, '    if !buf.has_remaining() {\n        None', '                }\n            }\n        }\n    }\n'), '''    let mut n = next_byte(&mut buf)?;
    if n < 0xF0 {
        return Some(n);
    }
    let mut shift = 4;
    loop {
        let b = next_byte(&mut buf)?;
        n = 1u64
            .checked_shl(shift)
            .and_then(|unit| unit.checked_mul(b))
            .and_then(|part| n.checked_add(part))?;
        if b & 0x80 == 0 {
            break Some(n);
        }
        shift += 7;
    }
'''))
r('r8/reader', (D, 'fn get_u8<B: Buf>(mut buf: B) -> Option<u8> {\n    buf.has_remaining().then(|| buf.get_u8())\n}', '''struct Reader<B>(B);

impl<B: Buf> Reader<B> {
    fn u8(&mut self) -> Option<u8> {
        match self.0.remaining() {
            0 => None,
            _ => Some(self.0.get_u8()),
        }
    }

    fn u32(&mut self) -> Option<u32> {
        if self.0.remaining() < 4 {
            None
        } else {
            Some(self.0.get_u32())
        }
    }
}

fn get_u8<B: Buf>(buf: B) -> Option<u8> {
    Reader(buf).u8()
}'''), (D, '    let flags = (buf.remaining() >= mem::size_of::<u32>())\n        .then(|| buf.get_u32())\n        .map(frame::Flags::from_bits_truncate)?;', '    let flags = frame::Flags::from_bits_truncate(Reader(&mut buf).u32()?);'), (D, 'use std::mem;\n', ''))
r('r8/iter-struct', (D, 'fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {\n    iter::from_fn(move || {\n        if buf.has_remaining() {\n            Some(message(&mut buf))\n        } else {\n            None\n        }\n    })\n}', '''struct Messages<B>(B);

impl<B: Buf> Iterator for Messages<B> {
    type Item = Option<Message>;

    fn next(&mut self) -> Option<Self::Item> {
        if !self.0.has_remaining() {
            return None;
        }
        Some(message(&mut self.0))
    }
}

fn list_of_messages<B: Buf>(buf: B) -> impl Iterator<Item = Option<Message>> {
    Messages(buf)
}'''))
r('r8/try-fold', (D, '        messages: list_of_messages(buf)\n            .collect::<Option<Vec<_>>>()\n            .ok_or(Invalid)?,', '''        messages: list_of_messages(buf)
            .try_fold(vec![], |mut all, msg| {
                all.push(msg?);
                Some(all)
            })
            .ok_or(Invalid)?,'''))
r('r8/list-generic', (D, span(D, 'fn list_of_messages', '    })\n}\n'), '''fn list_of<B: Buf, T>(mut buf: B, item: fn(&mut B) -> Option<T>) -> impl Iterator<Item = Option<T>> {
    iter::from_fn(move || buf.has_remaining().then(|| item(&mut buf)))
}

fn list_of_messages<B: Buf>(buf: B) -> impl Iterator<Item = Option<Message>> {
    list_of(buf, |b| message(b))
}
'''), (D, span(D, 'fn list_of_actions', '    })\n}\n'), '''fn list_of_actions<B: Buf>(buf: B) -> impl Iterator<Item = Option<Action>> {
    list_of(buf, |b| action(b))
}
'''))
r('r8/args-map', (D, span(D, '    let args = buf\n        .kv_list()', 'then_some(Message { name, args })\n'), '''    let args = (0..nb)
        .map(|_| Some((buf.string()?, buf.typed()?)))
        .collect::<Option<Vec<_>>>()?;

    Some(Message { name, args })
'''))
r('r8/btree', (D, 'struct KVList(HashMap<String, Typed>);', 'struct KVList(BTreeMap<String, Typed>);'), (D, 'use std::{collections::HashMap, convert::TryFrom};', 'use std::{collections::BTreeMap, convert::TryFrom};'))
r('r8/control-fn', (MD, '    /// Indicates that this is a payload fragment.', '    pub(crate) fn is_control(&self) -> bool {\n        (self.stream_id, self.frame_id) == (0, 0)\n    }\n\n    /// Indicates that this is a payload fragment.'),
  (D, 'frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::HaproxyHello if md.is_control()'),
  (D, 'frame::Type::AgentHello if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::AgentHello if md.is_control()'),
  (D, 'frame::Type::HaproxyDisconnect if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::HaproxyDisconnect if md.is_control()'),
  (D, 'frame::Type::AgentDisconnect if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::AgentDisconnect if md.is_control()'))
r('r8/kv-fn', (D, 'fn haproxy_hello<B: Buf>', 'fn kv_items<B: Buf>(mut buf: B) -> Result<KVList> {\n    let mut items = HashMap::new();\n\n    for item in buf.kv_list() {\n        let (key, value) = item.ok_or(Invalid)?;\n        items.insert(key, value);\n    }\n\n    Ok(KVList(items))\n}\n\nfn haproxy_hello<B: Buf>'),
  (D, 'fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {\n    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;', 'fn haproxy_hello<B: Buf>(buf: B) -> Result<haproxy::Hello> {\n    let mut kv = kv_items(buf)?;'),
  (D, 'fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {\n    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;', 'fn agent_hello<B: Buf>(buf: B) -> Result<agent::Hello> {\n    let mut kv = kv_items(buf)?;'),
  (D, 'fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {\n    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;', 'fn disconnect<B: Buf>(buf: B) -> Result<frame::Disconnect> {\n    let mut kv = kv_items(buf)?;'),
  (D, span(D, 'impl FromIterator<(String, Typed)>', '\n}\n'), ''), (D, 'use std::iter::{self, FromIterator};', 'use std::iter;'))
r('r8/then-ok', (D, '''            let scope = scope(&mut buf)?;
            let name = buf.string()?;

            Some(Action::UnsetVar { scope, name })''', '''            scope(&mut buf)
                .zip(buf.string())
                .map(|(scope, name)| Action::UnsetVar { scope, name })'''))
r('r8/status-cmp', (D, '.map(|n| u32::try_from(n).unwrap_or(Unknown as u32))\n            .unwrap_or_default()', '.map_or(0, |n| {\n                if n > u64::from(u32::MAX) {\n                    Unknown as u32\n                } else {\n                    n as u32\n                }\n            })'))
r('r8/split-fn', (D, '    pub fn boolean(', '    fn list<T: std::str::FromStr>(s: &str, blank: bool) -> Result<Vec<T>> {\n        let mut all = Vec::new();\n        for item in s.split(\',\').map(str::trim) {\n            if blank && item.is_empty() {\n                continue;\n            }\n            all.push(item.parse().map_err(|_| Invalid)?);\n        }\n        Ok(all)\n    }\n\n    pub fn boolean('),
  (D, '''        s.split(',')
            .map(|s| s.trim().parse())
            .collect::<StdResult<Vec<_>, _>>()
            .map_err(|_| Invalid)''', '        Self::list(&s, false)'),
  (D, '''        s.split(',')
            .map(|s| s.trim())
            .filter(|s| !s.is_empty())
            .map(|s| s.parse())
            .collect::<StdResult<Vec<_>, _>>()
            .map_err(|_| Invalid)''', '        Self::list(&s, true)'), (D, 'use std::result::Result as StdResult;\n', ''))
r('r8/typed-macro', (B, 'fn typed_data<B: Buf>', '''macro_rules! varint_as {
    ($buf:expr, $variant:ident, $ty:ty) => {
        match $buf.varint() {
            Some(n) => Some(Typed::$variant(n as $ty)),
            None => None,
        }
    };
}

fn typed_data<B: Buf>'''), (B, 'buf.varint().map(|n| n as i32).map(Typed::Int32)', 'varint_as!(buf, Int32, i32)'), (B, 'buf.varint().map(|n| n as u32).map(Typed::Uint32)', 'varint_as!(buf, Uint32, u32)'), (B, 'buf.varint().map(|n| n as i64).map(Typed::Int64)', 'varint_as!(buf, Int64, i64)'), (B, 'buf.varint().map(Typed::Uint64)', 'varint_as!(buf, Uint64, u64)'))
r('r8/addr-generic', (B, 'fn typed_data<B: Buf>', '''fn get_array<B: Buf, const N: usize>(mut buf: B) -> Option<[u8; N]> {
    if buf.remaining() < N {
        return None;
    }
    let mut a = [0; N];
    buf.copy_to_slice(&mut a);
    Some(a)
}

fn typed_data<B: Buf>'''), (B, '''get_bytes(buf, Typed::IPV4_ADDR_LEN)
            .map(|b| <[u8; Typed::IPV4_ADDR_LEN]>::try_from(&b[..]).unwrap())
''', '''get_array::<_, { Typed::IPV4_ADDR_LEN }>(buf)
'''), (B, '''get_bytes(buf, Typed::IPV6_ADDR_LEN)
            .map(|b| <[u8; Typed::IPV6_ADDR_LEN]>::try_from(&b[..]).unwrap())
''', '''get_array::<_, { Typed::IPV6_ADDR_LEN }>(buf)
'''), (B, 'use std::convert::TryFrom;\n', ''))
r('r8/bytes-len-fn', (B, '        let sz = self.varint()?;\n        let b = get_bytes(self, sz as usize)?;\n        String::from_utf8(b.to_vec()).ok()', '        get_sized(self).and_then(|b| String::from_utf8(b.into()).ok())'), (B, '''        Type::Binary => buf
            .varint()
            .and_then(|n| get_bytes(buf, n as usize))
            .map(Typed::Binary),''', '        Type::Binary => get_sized(buf).map(Typed::Binary),'), (B, 'fn get_bytes<T', '''fn get_sized<T: Buf>(mut buf: T) -> Option<Bytes> {
    let n = usize::try_from(buf.varint()?).ok()?;
    get_bytes(buf, n)
}

fn get_bytes<T'''))
r('r8/kv-cond', (B, '''            self.has_remaining()
                .then(|| Some((self.string()?, self.typed()?)))''', '''            if self.remaining() == 0 {
                return None;
            }
            let pair = match (self.string(), self.has_remaining()) {
                (Some(key), true) => self.typed().map(|value| (key, value)),
                _ => None,
            };
            Some(pair)'''))
# encoding
r('r8/control-closure', (EN, span(EN, '        Frame::HaproxyHello(hello) => {\n            buf.put_u8', '            disconnect(&mut buf, d);\n        }\n\n        Frame::HaproxyNotify'), '''        Frame::HaproxyHello(hello) => control(buf, Type::HAPROXY_HELLO, |b| haproxy_hello(b, hello)),
        Frame::AgentHello(hello) => control(buf, Type::AGENT_HELLO, |b| agent_hello(b, hello)),
        Frame::HaproxyDisconnect(d) => control(buf, Type::HAPROXY_DISCON, |b| disconnect(b, d)),
        Frame::AgentDisconnect(d) => control(buf, Type::AGENT_DISCON, |b| disconnect(b, d)),

        Frame::HaproxyNotify'''), (EN, '/// Put a frame into', '''fn control<B: BufMut>(mut buf: B, ty: u8, body: impl FnOnce(&mut B)) {
    buf.put_u8(ty);
    metadata(&mut buf, Metadata::default());
    body(&mut buf)
}

/// Put a frame into'''))
r('r8/encode-trait', (EN, 'fn agent_hello<B: BufMut>', '''trait Encode {
    fn encode<B: BufMut>(self, buf: B);
}

impl Encode for Action {
    fn encode<B: BufMut>(self, mut buf: B) {
        let (ty, nb, scope, name, value) = match self {
            Action::SetVar { scope, name, value } => {
                (action::Type::SetVar, 3, scope, name, Some(value))
            }
            Action::UnsetVar { scope, name } => (action::Type::UnsetVar, 2, scope, name, None),
        };
        buf.put_u8(ty as u8);
        buf.put_u8(nb);
        buf.put_u8(scope as u8);
        buf.put_string(name);
        if let Some(value) = value {
            buf.put_typed(value);
        }
    }
}

fn agent_hello<B: BufMut>'''), (EN, span(EN, 'pub fn action<B: BufMut>(mut buf', '    }\n}\n'), '''pub fn action<B: BufMut>(buf: B, action: Action) {
    action.encode(buf)
}
'''))
r('r8/notify-map', (EN, '        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args);', '''        let frame::Message { args, .. } = message;
        buf.put_u8(args.len() as u8);
        args.into_iter().for_each(|(name, value)| {
            buf.put_string(name);
            buf.put_typed(value);
        });'''), (EN, 'buf.put_string(message.name);', 'buf.put_string(&message.name);'))
r('r8/meta-buf', (EN, 'pub fn metadata<B: BufMut>(mut buf: B, metadata: Metadata) {\n    buf.put_u32(metadata.flags.bits());', 'pub fn metadata<B: BufMut>(mut buf: B, metadata: Metadata) {\n    buf.put_slice(&metadata.flags.bits().to_be_bytes());'))
r('r8/put-int', (B, '''            Typed::Int32(n) => {
                self.put_u8(Type::Int32 as u8);
                self.put_varint(n as u64) + Typed::TYPE_SIZE
            }
            Typed::Uint32(n) => {
                self.put_u8(Type::Uint32 as u8);
                self.put_varint(n as u64) + Typed::TYPE_SIZE
            }
            Typed::Int64(n) => {
                self.put_u8(Type::Int64 as u8);
                self.put_varint(n as u64) + Typed::TYPE_SIZE
            }
            Typed::Uint64(n) => {
                self.put_u8(Type::Uint64 as u8);
                self.put_varint(n) + Typed::TYPE_SIZE
            }
''', '''            Typed::Int32(n) => put_int(self, Type::Int32, i64::from(n) as u64),
            Typed::Uint32(n) => put_int(self, Type::Uint32, n.into()),
            Typed::Int64(n) => put_int(self, Type::Int64, n as u64),
            Typed::Uint64(n) => put_int(self, Type::Uint64, n),
'''), (B, 'fn put_bytes<T', '''fn put_int<T: BufMut>(mut buf: T, ty: Type, n: u64) -> usize {
    buf.put_u8(ty as u8);
    let sz = buf.put_varint(n);
    sz + Typed::TYPE_SIZE
}

fn put_bytes<T'''))
r('r8/size-of-put', (V, span(V, '    let mut sz = 1;\n\n    if n < 0xF0', '    sz\n}\n'), '''    let sz = size_of(n);

    if n < 0xF0 {
        buf.put_u8(n as u8);
        return sz;
    }

    buf.put_u8((n as u8) | 0xF0);
    n = (n - 0xF0) >> 4;
    while n >= 0x80 {
        buf.put_u8((n as u8) | 0x80);
        n = (n - 0x80) >> 7;
    }
    buf.put_u8(n as u8);

    sz
}
'''))
# framing
r('r8/cmp', (FR, span(FR, '        if len <= self.max_frame_size {', '            Err(TooBig)\n        }\n'), '''        match len.cmp(&self.max_frame_size) {
            std::cmp::Ordering::Greater => Err(TooBig),
            _ => {
                let mut buf = read_frame(r, self.max_frame_size, len).await?;
                trace!(buf=%HexView::new(&buf));
                buf.get_frame()
            }
        }
'''))
r('r8/fits-fn', (FR, '    pub async fn read_frame<R>', '    fn fits(&self, len: usize) -> Result<()> {\n        if len > self.max_frame_size {\n            Err(TooBig)\n        } else {\n            Ok(())\n        }\n    }\n\n    pub async fn read_frame<R>'), (FR, span(FR, '        if len <= self.max_frame_size {', '            Err(TooBig)\n        }\n'), '''        self.fits(len)?;

        let mut buf = read_frame(r, self.max_frame_size, len).await?;

        trace!(buf=%HexView::new(&buf));

        buf.get_frame()
'''), (FR, '''        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
            return Err(TooBig);
        }
''', '''        self.fits(buf[mem::size_of::<u32>()..].len())?;
'''))
r('r8/io-fn', (FR, '\nasync fn read_frame<R>', '\nasync fn send<W: AsyncWrite>(mut w: Pin<&mut W>, buf: &[u8]) -> std::io::Result<()> {\n    w.write_all(buf).await?;\n    w.flush().await\n}\n\nasync fn read_frame<R>'), (FR, '        w.write_all(&buf).await.map_err(|_| Io)?;\n        w.flush().await.map_err(|_| Io)?;\n\n        Ok(buf.len())', '        match send(w, &buf).await {\n            Ok(()) => Ok(buf.len()),\n            Err(_) => Err(Io),\n        }'))
r('r8/vec-read', (FR, '    let mut buf = BytesMut::with_capacity(max_frame_size);\n    buf.resize(len, 0);\n\n    r.read_exact(&mut buf).await.map_err(|_| Io)?;\n\n    Ok(buf.freeze())', '    let mut buf = vec![0u8; len.min(max_frame_size)];\n\n    if r.read_exact(&mut buf[..]).await.is_err() {\n        return Err(Io);\n    }\n\n    Ok(Bytes::from(buf))'))
r('r8/prefix-copy', (FR, '    (&mut buf[0..4]).put_u32(len);', '    buf[..4].copy_from_slice(&len.to_be_bytes());'))
r('r8/assert', (FR, '    let len = (buf.len() - mem::size_of::<u32>()) as u32;', '    debug_assert!(buf.len() >= mem::size_of::<u32>());\n    let len = (buf.len() - mem::size_of::<u32>()) as u32;'))
# tracing
r('r8/trace', (PR, '                let msgs = if let', '                trace!(stream_id, frame_id, fragmented, n = messages.len(), "notify");\n                let msgs = if let'), (FG, '        match self.0.entry(key) {', '        tracing::trace!(?key, fragmented, n = value.len(), entries = self.0.len(), "reassemble");\n        match self.0.entry(key) {'), (D, '    let (ty, md) = frame_type(&mut buf)', '    tracing::trace!(len = buf.remaining(), "decode");\n    let (ty, md) = frame_type(&mut buf)'), (CO, '                        Err(err) => {\n                            self.fail', '                        Err(err) => {\n                            tracing::debug!(%err, "failed");\n                            self.fail'), (HS, '    hello.supported_versions.sort();', '    tracing::debug!(versions = ?hello.supported_versions, ?capabilities, "negotiate");\n    hello.supported_versions.sort();'), (AK, '        if let Some(Inner(ack, sender)) = self.0.take() {\n            sender', '        if let Some(Inner(ack, sender)) = self.0.take() {\n            tracing::trace!(?ack, "complete");\n            sender'))
r('r8/instrument', (CO, '    pub async fn serve(&mut self)', '    #[instrument(skip_all, level = "debug")]\n    pub async fn serve(&mut self)'), (FG, 'impl<T> Reassembly<T> {\n    pub fn', 'impl<T> Reassembly<T> {\n    #[tracing::instrument(skip(self, value), level = "trace")]\n    pub fn'), (FR, '    pub async fn write_frame<W>', '    #[tracing::instrument(skip_all, level = "trace")]\n    pub async fn write_frame<W>'), (AG, '    pub async fn serve(&self)', '    #[instrument(skip_all, level = "debug")]\n    pub async fn serve(&self)'))
r('r8/instrument-conn', (AG, 'self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    })', 'self.shutdown.tracker.track_future(tracing::Instrument::instrument(async move {\n                        conn.serve().await\n                    }, tracing::debug_span!("conn", %peer)))'))
# connection
r('r8/until-cancelled', (CO, span(CO, '            select! {', '                    }\n                }\n            }\n'), '''            let tok = self.tok.clone();
            let Some(frame) = tok.run_until_cancelled(self.codec.read_frame()).await else {
                self.disconnect(Status::Normal, "agent is shutting down").await?;
                break;
            };
            let handled = match frame {
                Ok(frame) => state.handle_frame(frame).await,
                Err(status) => Err(status.into()),
            };

            match handled {
                Ok((next, reply)) => {
                    if let Some(frame) = reply {
                        let negotiated = match frame {
                            Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
                            _ => None,
                        };
                        match self.codec.write_frame(frame).await {
                            // nothing was sent, HAProxy has to know why
                            Err(Status::TooBig) => {
                                self.fail(Status::TooBig.into()).await?;
                                break;
                            }
                            res => res?,
                        };
                        if let Some(sz) = negotiated {
                            self.codec.set_max_frame_size(sz as usize);
                        }
                    }
                    self.state = next;
                }
                Err(err) => {
                    self.fail(err).await?;
                    break;
                }
            }
'''), (CO, 'use tokio::{\n    io::{AsyncRead, AsyncWrite},\n    select,\n};', 'use tokio::io::{AsyncRead, AsyncWrite};'))
r('r8/boxed', (CO, 'Ok(frame) => state.handle_frame(frame).await,', 'Ok(frame) => Box::pin(state.handle_frame(frame)).await,'))
r('r8/counter', (CO, '    tok: CancellationToken,\n}', '    tok: CancellationToken,\n    frames: u64,\n}'), (CO, 'Connection { codec, state, tok }', 'Connection { codec, state, tok, frames: 0 }'), (CO, '                    let handled = match frame {', '                    self.frames = self.frames.wrapping_add(1);\n                    let handled = match frame {'))
r('r8/next-event', (CO, '    pub async fn serve(&mut self) -> Result<()> {', '''    /// The next frame, or nothing when the agent is shutting down.
    async fn next_frame(&mut self) -> Option<StdResult<Frame, Status>> {
        select! {
            _ = self.tok.cancelled() => None,
            frame = self.codec.read_frame() => Some(frame),
        }
    }

    pub async fn serve(&mut self) -> Result<()> {'''), (CO, span(CO, '            select! {\n                _ = self.tok.cancelled() => {\n                    self.disc', '                    let handled = match frame {'), '''            let Some(frame) = self.next_frame().await else {
                self.disconnect(Status::Normal, "agent is shutting down").await?;
                break;
            };
            {
                {
                    let handled = match frame {'''))
r('r8/outcome', (CO, '''                        Err(err) => {
                            self.fail(err).await?;
                            break;
                        }
                    }
''', '''                        Err(err) => return self.fail(err).await,
                    }
'''), (CO, '''                                        self.fail(Status::TooBig.into()).await?;
                                        break;''', '''                                        return self.fail(Error::Status(Status::TooBig)).await;'''))
r('r8/fail-from', (CO, '''        let Disconnect {
            status_code,
            message,
        } = err.into();
''', '''        let d = Disconnect::from(err);
        let (status_code, message) = (d.status_code, d.message);
'''))
# states
r('r8/caps-bitand', (HS, '''        .collect::<HashSet<_>>()
        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())
        .cloned()
        .collect::<Vec<_>>();''', '''        .collect::<HashSet<_>>();
    let capabilities = &capabilities & &ours;'''), (HS, '    let capabilities = hello\n', '    let ours = capabilities.into_iter().collect::<HashSet<_>>();\n    let capabilities = hello\n'), (HS, 'capabilities: capabilities.into_iter().collect(),', 'capabilities,'))
r('r8/negotiated-ctor', (HS, '    Ok(Negotiated {\n        version,\n        max_frame_size,\n        capabilities: capabilities.into_iter().collect(),\n    })', '    Ok(Negotiated::new(version, max_frame_size, capabilities))'), (HS, 'impl Negotiated {', 'impl Negotiated {\n    fn new<I: IntoIterator<Item = Capability>>(version: Version, max_frame_size: u32, caps: I) -> Self {\n        Negotiated {\n            version,\n            max_frame_size,\n            capabilities: HashSet::from_iter(caps),\n        }\n    }\n'))
r('r8/has-fn', (HS, 'self.capabilities.contains(&Capability::Async)', 'self.has(Capability::Async)'), (HS, 'self.capabilities.contains(&Capability::Fragmentation)', 'self.has(Capability::Fragmentation)'), (HS, 'self.capabilities.contains(&Capability::Pipelining)', 'self.has(Capability::Pipelining)'), (HS, '    pub fn supports_async', '    fn has(&self, cap: Capability) -> bool {\n        self.capabilities.iter().any(|c| *c == cap)\n    }\n\n    pub fn supports_async'))
r('r8/health-match', (CN, span(CN, '        let next = if is_healthcheck {', '            .into()\n        };\n'), '''        let next = match is_healthcheck {
            true => State::Disconnecting,
            false => {
                let mut maker = runtime.service_maker.write().await;
                let service = maker.make().await?;
                drop(maker);
                let reassembly = if handshaked.supports_fragmentation() {
                    Some(Reassembly::default())
                } else {
                    None
                };

                State::Processing(Processing::new(runtime, service, reassembly))
            }
        };
'''))
r('r8/msgs-fn', (PR, '''                let msgs = if let Some(ref reassembly) = self.reassembly {
                    reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
                } else if fragmented {
                    return Err(FragmentNotSupported).context("fragmentation was not negotiated");
                } else {
                    Some(messages)
                };
''', '''                let msgs = match self.reassembly {
                    Some(ref table) => table.reassemble(fragmented, stream_id, frame_id, messages)?,
                    None if !fragmented => Some(messages),
                    None => {
                        return Err(FragmentNotSupported)
                            .context("fragmentation was not negotiated")
                    }
                };
'''))
r('r8/timeout-question', (PR, span(PR, '                    match timeout(self.runtime.max_process_time, processing).await {', '                        Err(_) => Err(Timeout).context("process messages"),\n                    }\n'), '''                    let limit = self.runtime.max_process_time;
                    let actions = timeout(limit, processing)
                        .await
                        .map_err(|_| Timeout)
                        .context("process messages")?
                        .or_else(|err| Err(Unknown).context(err.to_string()))?;

                    Ok((self.into(), Some(Frame::ack(stream_id, frame_id, actions))))
'''))
r('r8/timeout-at', (PR, 'use tokio::time::timeout;', 'use tokio::time::{timeout_at, Instant};'), (PR, 'match timeout(self.runtime.max_process_time, processing).await', 'match timeout_at(Instant::now() + self.runtime.max_process_time, processing).await'))
# runtime
r('r8/acker-struct', (AK, 'struct Inner(AgentAck, oneshot::Sender<AgentAck>);', 'struct Inner {\n    ack: AgentAck,\n    sender: oneshot::Sender<AgentAck>,\n}'), (AK, 'Acker(Some(Inner(AgentAck::new(stream_id, frame_id), sender)))', 'Acker(Some(Inner {\n                ack: AgentAck::new(stream_id, frame_id),\n                sender,\n            }))'), (AK, 'if let Some(Inner(ack, sender)) = self.0.take()', 'if let Some(Inner { ack, sender }) = self.0.take()'), (AK, 'if let Some(Inner(mut ack, sender)) = self.0.take()', 'if let Some(Inner { mut ack, sender }) = self.0.take()'), (AK, 'if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::SetVar', 'if let Some(Inner { ref mut ack, .. }) = self.0 {\n            ack.actions.push(Action::SetVar'), (AK, 'if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::Unset', 'if let Some(Inner { ref mut ack, .. }) = self.0 {\n            ack.actions.push(Action::Unset'))
r('r8/acker-replace', (AK, 'if let Some(Inner(ack, sender)) = self.0.take()', 'if let Some(Inner(ack, sender)) = std::mem::replace(&mut self.0, None)'), (AK, 'if let Some(Inner(mut ack, sender)) = self.0.take()', 'if let Some(Inner(mut ack, sender)) = std::mem::take(&mut self.0)'))
r('r8/dispatch-parts', (DI, '        let key = (notify.stream_id, notify.frame_id);', '        let HaproxyNotify {\n            fragmented,\n            stream_id,\n            frame_id,\n            messages,\n        } = notify;\n        let key = (stream_id, frame_id);'), (DI, 'Acker::new(notify.stream_id, notify.frame_id)', 'Acker::new(key.0, key.1)'), (DI, 'if notify.fragmented {\n                        e.insert', 'if fragmented {\n                        e.insert'), (DI, 'let sender = if notify.fragmented {', 'let sender = if fragmented {'), (DI, '        for msg in notify.messages {\n            if sender.send(msg).is_err() {\n                break;\n            }\n        }', '        let _ = messages.into_iter().try_for_each(|msg| sender.send(msg));'))
r('r8/frag-swap', (FG, span(FG, '        match self.0.entry(key) {', '                    Ok(Some(value))\n                }\n            }\n        }\n'), '''        if fragmented {
            match self.0.get_mut(&key) {
                Some(mut v) => v.append(&mut value),
                None => {
                    self.0.insert(key, value);
                }
            }
            Ok(None)
        } else {
            Ok(Some(match self.0.remove(&key) {
                Some((_, mut v)) => {
                    v.append(&mut value);
                    v
                }
                None => value,
            }))
        }
'''))
r('r8/maker-lock', (CN, 'runtime.service_maker.write().await.make().await?', '{\n                let mut maker = runtime.service_maker.write().await;\n                maker.make().await\n            }?'))
r('r8/agent-task', (AG, '                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;', '                    let task = async move { conn.serve().await };\n                    let tracked = self.shutdown.tracker.track_future(task);\n                    let _handle = tokio::task::Builder::new().name("conn").spawn(tracked)?;'))
r('r8/agent-method', (AG, '    pub async fn serve(&self) -> Result<()> {\n        loop {', '''    async fn drain(&self) {
        let tracker = &self.shutdown.tracker;

        tracker.close();
        if tracker.is_empty() {
            return;
        }
        debug!(conns = tracker.len(), "waiting for shutting down");
        tracker.wait().await;
    }

    pub async fn serve(&self) -> Result<()> {
        loop {'''), (AG, span(AG, '        self.shutdown.tracker.close();\n\n', '            self.shutdown.tracker.wait().await;\n        }\n'), '        self.drain().await;\n'))
r('r8/err-let', (ER, span(ER, '                if let Some(status) = source.downcast_ref::<Error>()', '                    Disconnect::new(Status::Unknown, err.to_string())\n                }\n'), '''                let inner = source.downcast_ref::<Error>().and_then(|err| err.status());
                let status = inner.or_else(|| source.downcast_ref::<Status>().copied());

                match status {
                    Some(status) => Disconnect::new(status, context.to_string()),
                    None => Disconnect::new(Status::Unknown, err.to_string()),
                }
'''))
r('r8/hdrs-result', (RQ, span(RQ, '    while let Some((k, v)) = strs.next().zip(strs.next()) {', '    }\n\n    Ok(hdrs)\n'), '''    loop {
        let (k, v) = match (strs.next(), strs.next()) {
            (Some(k), Some(v)) => (k, v),
            _ => return Ok(hdrs),
        };
        if k.len() + v.len() == 0 {
            return Ok(hdrs);
        }
        let name = HeaderName::from_bytes(k.as_ref())?;
        let value = HeaderValue::from_bytes(v.as_ref())?;
        hdrs.append(name, value);
    }
'''))
r('r8/builder-extend', (BL, '''        self.capabilities.insert(Capability::Fragmentation);
        self''', '''        self.capability(Capability::Fragmentation)'''), (BL, 'pub fn fragmentation(mut self)', 'pub fn fragmentation(self)'), (BL, '''        self.capabilities.insert(Capability::Pipelining);
        self''', '''        self.capabilities([Capability::Pipelining])'''), (BL, 'pub fn pipelining(mut self)', 'pub fn pipelining(self)'), (BL, '    pub fn max_frame_size(mut self, sz: usize) -> Self {\n        self.max_frame_size = Some(sz);\n        self', '    pub fn max_frame_size(self, sz: usize) -> Self {\n        Builder {\n            max_frame_size: Some(sz),\n            ..self\n        }'))
r('r8/rt-new', (RT, '        let (sender, receiver) = unbounded_channel();\n\n        Runtime {\n            dispatcher: Dispatcher::new(sender),\n            processor: Processor(receiver),', '        let (dispatcher, processor) = queue();\n\n        Runtime {\n            dispatcher,\n            processor,'), (RT, 'pub const MAX_PROCESS_TIME', 'fn queue() -> (Dispatcher, Processor) {\n    let (sender, receiver) = unbounded_channel();\n\n    (Dispatcher::new(sender), receiver.into())\n}\n\npub const MAX_PROCESS_TIME'))
r('r8/flags-fn', (AH, '''            flags: if self.fragmented {
                Flags::empty()
            } else {
                Flags::FIN
            } | if self.aborted {
                Flags::ABORT
            } else {
                Flags::empty()
            },''', '''            flags: self.flags(),'''), (AH, '    pub fn metadata(&self)', '''    fn flags(&self) -> Flags {
        let mut flags = Flags::empty();
        flags.set(Flags::FIN, !self.fragmented);
        flags.set(Flags::ABORT, self.aborted);
        flags
    }

    pub fn metadata(&self)'''))
