import os as _os
_R = '/repo/'


def span(f, a, b):
    s = open(_R + f).read()
    i = s.index(a)
    return s[i:s.index(b, i) + len(b)]


CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
HN, KV = 'spop/src/handler.rs', 'spop/src/frame/kv.rs'

# the connection's loop body as a method
body = span(CO, '                    let handled = match frame {', '                            self.fail(err).await?;\n                            break;\n                        }\n                    }\n')
r('st/on-frame', (CO, body, '''                    if !self.on_frame(state, frame).await? {
                        break;
                    }
'''), (CO, '    pub async fn serve(&mut self) -> Result<()> {', '''    /// Handles one frame; false once the connection is over.
    async fn on_frame(&mut self, state: State<S, T>, frame: StdResult<Frame, Status>) -> Result<bool> {
        let handled = match frame {
            Ok(frame) => state.handle_frame(frame).await,
            Err(status) => Err(status.into()),
        };
        let (next, reply) = match handled {
            Ok(x) => x,
            Err(err) => {
                self.fail(err).await?;
                return Ok(false);
            }
        };
        if let Some(frame) = reply {
            if !self.reply(frame).await? {
                return Ok(false);
            }
        }
        self.state = next;
        Ok(true)
    }

    async fn reply(&mut self, frame: Frame) -> Result<bool> {
        let negotiated = negotiated_size(&frame);
        match self.codec.write_frame(frame).await {
            Ok(_) => {}
            Err(Status::TooBig) => {
                self.fail(Status::TooBig.into()).await?;
                return Ok(false);
            }
            Err(err) => return Err(err.into()),
        }
        if let Some(sz) = negotiated {
            self.codec.set_max_frame_size(sz);
        }
        Ok(true)
    }

    pub async fn serve(&mut self) -> Result<()> {'''), (CO, '#[derive(Debug)]\npub struct Connection', '''fn negotiated_size(frame: &Frame) -> Option<usize> {
    match frame {
        Frame::AgentHello(hello) => Some(hello.max_frame_size as usize),
        _ => None,
    }
}

#[derive(Debug)]
pub struct Connection'''))
# an enum for what to do next
r('st/flow', (CO, body, '''                    match self.on_frame(state, frame).await? {
                        std::ops::ControlFlow::Continue(next) => self.state = next,
                        std::ops::ControlFlow::Break(()) => break,
                    }
'''), (CO, '    pub async fn serve(&mut self) -> Result<()> {', '''    async fn on_frame(&mut self, state: State<S, T>, frame: StdResult<Frame, Status>) -> Result<std::ops::ControlFlow<(), State<S, T>>> {
        use std::ops::ControlFlow::*;
        let handled = match frame {
            Ok(frame) => state.handle_frame(frame).await,
            Err(status) => Err(Error::from(status)),
        };
        match handled {
            Err(err) => {
                self.fail(err).await?;
                Ok(Break(()))
            }
            Ok((next, None)) => Ok(Continue(next)),
            Ok((next, Some(frame))) => {
                let sz = match &frame {
                    Frame::AgentHello(hello) => hello.max_frame_size,
                    _ => 0,
                };
                let hello = matches!(frame, Frame::AgentHello(_));
                if let Err(err) = self.codec.write_frame(frame).await {
                    if err == Status::TooBig {
                        self.fail(err.into()).await?;
                        return Ok(Break(()));
                    }
                    return Err(err.into());
                }
                if hello {
                    self.codec.set_max_frame_size(sz as usize);
                }
                Ok(Continue(next))
            }
        }
    }

    pub async fn serve(&mut self) -> Result<()> {'''))
r('st/biased-none', (CO, '            select! {\n                _ = self.tok.cancelled() => {', '            let shutdown = self.tok.cancelled();\n            select! {\n                _ = shutdown => {'))
r('st/tok-clone', (CO, '        loop {\n            let state', '        let tok = self.tok.clone();\n        loop {\n            let state'), (CO, '_ = self.tok.cancelled() =>', '_ = tok.cancelled() =>'))
r('st/option-state', (CO, '            let state = mem::replace(&mut self.state, State::Disconnecting);\n            if matches!(state, State::Disconnecting) {\n                break;\n            }\n', '            let state = match mem::replace(&mut self.state, State::Disconnecting) {\n                State::Disconnecting => return Ok(()),\n                state => state,\n            };\n'))
# the processing
call = span(PR, '                if let Some(msgs) = msgs {', '                    Ok((self.into(), None))\n                }\n')
r('st/process-fn', (PR, call, '''                let ack = match msgs {
                    Some(msgs) => {
                        let actions = self.process(msgs).await?;
                        Some(Frame::ack(stream_id, frame_id, actions))
                    }
                    None => None,
                };
                Ok((self.into(), ack))
'''), (PR, 'impl<S, T> AsyncHandler<S, T> for Processing<S, T>', '''impl<S, T> Processing<S, T>
where
    S: MakeService<T, Vec<Message>, Response = Vec<Action>>,
    S::Error: fmt::Display + Send + Sync + 'static,
{
    async fn process(&mut self, msgs: Vec<Message>) -> Result<Vec<Action>> {
        let limit = self.runtime.max_process_time;
        let service = &mut self.service;
        let res = timeout(limit, async move {
            poll_fn(|cx| service.poll_ready(cx)).await?;
            service.call(msgs).await
        })
        .await;
        match res {
            Err(_elapsed) => Err(Timeout).context("process messages"),
            Ok(Err(err)) => Err(Unknown).with_context(|| err.to_string()),
            Ok(Ok(actions)) => Ok(actions),
        }
    }
}

impl<S, T> AsyncHandler<S, T> for Processing<S, T>'''))
r('st/map-or', (PR, call, '''                let Some(msgs) = msgs else {
                    return Ok((self.into(), None));
                };
                let limit = self.runtime.max_process_time;
                let processing = async {
                    match poll_fn(|cx| self.service.poll_ready(cx)).await {
                        Ok(()) => self.service.call(msgs).await,
                        Err(err) => Err(err),
                    }
                };
                let Ok(res) = timeout(limit, processing).await else {
                    return Err(Timeout).context("process messages");
                };
                res.map_err(|err| err.to_string())
                    .or_else(|err| Err(Unknown).context(err))
                    .map(|actions| (self.into(), Some(Frame::ack(stream_id, frame_id, actions))))
'''))
# hello
r('st/negotiate-first', (CN, '''        let handshaked = {
            negotiate(
                runtime.supported_versions.clone(),
                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                runtime.capabilities.clone(),
                hello,
            )?
        };
        let frame = handshaked.agent_hello().into();
''', '''        let limit = u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX);
        let versions = runtime.supported_versions.clone();
        let caps = runtime.capabilities.clone();
        let handshaked = negotiate(versions, limit, caps, hello)?;
        let reassembly = if handshaked.supports_fragmentation() { Some(Reassembly::default()) } else { None };
        let frame = Frame::AgentHello(handshaked.agent_hello());
'''), (CN, '''                handshaked
                    .supports_fragmentation()
                    .then(Reassembly::default),''', '                reassembly,'))
r('st/common', (HS, '    let capabilities = hello\n        .capabilities\n        .into_iter()\n        .collect::<HashSet<_>>()\n        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<Vec<_>>();\n', '    let theirs = hello.capabilities.into_iter().collect::<HashSet<_>>();\n    let capabilities = common(&theirs, &capabilities);\n'), (HS, '#[instrument(ret', 'fn common(theirs: &HashSet<Capability>, ours: &[Capability]) -> Vec<Capability> {\n    ours.iter().filter(|cap| theirs.contains(cap)).cloned().collect()\n}\n\n#[instrument(ret'))
r('st/highest', (HS, span(HS, '    let version = hello\n', '.ok_or(BadVersion)?;\n'), '    let version = highest(hello.supported_versions, &supported_versions).ok_or(BadVersion)?;\n'), (HS, '#[instrument(ret', 'fn highest(theirs: Vec<Version>, ours: &[Version]) -> Option<Version> {\n    let mut best = None;\n    for v in theirs {\n        if !ours.contains(&v) {\n            continue;\n        }\n        if best.map_or(true, |b| b < v) {\n            best = Some(v);\n        }\n    }\n    best\n}\n\n#[instrument(ret'), (HS, '    hello.supported_versions.sort();\n    supported_versions.sort();\n\n', ''), (HS, 'mut supported_versions', 'supported_versions'), (HS, 'mut hello', 'hello'))
# the agent
r('st/agent-fns', (AG, '''                    let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());

                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
                        conn.serve().await
                    }))?;
''', '                    self.start(stream)?;\n'), (AG, '    pub async fn serve(&self)', '''    fn start(&self, stream: tokio::net::TcpStream) -> Result<()> {
        let runtime = self.runtime.clone();
        let tok = self.shutdown.token.child_token();
        let mut conn = Connection::new(runtime, stream, tok);
        let task = async move { conn.serve().await };
        let tracked = self.shutdown.tracker.track_future(task);
        tokio::task::Builder::new().name("conn").spawn(tracked)?;
        Ok(())
    }

    async fn drain(&self) {
        let tracker = &self.shutdown.tracker;
        tracker.close();
        if tracker.is_empty() {
            return;
        }
        debug!(conns = tracker.len(), "waiting for shutting down");
        tracker.wait().await;
    }

    pub async fn serve(&self)'''), (AG, span(AG, '        self.shutdown.tracker.close();\n\n', '            self.shutdown.tracker.wait().await;\n        }\n'), '        self.drain().await;\n'))
r('st/accept-fn', (AG, '''                res = self.listener.accept() => {
                    let (stream, peer) = match res {
                        Ok(accepted) => accepted,
                        Err(err) => {
                            debug!(%err, "failed to accept a connection");
                            continue;
                        }
                    };
''', '''                accepted = self.accept() => {
                    let Some((stream, peer)) = accepted else { continue };
'''), (AG, '    pub async fn serve(&self)', '''    async fn accept(&self) -> Option<(tokio::net::TcpStream, std::net::SocketAddr)> {
        self.listener
            .accept()
            .await
            .map_err(|err| debug!(%err, "failed to accept a connection"))
            .ok()
    }

    pub async fn serve(&self)'''))
# the acker
r('st/acker-helpers', (AK, span(AK, '    pub fn complete(', 'name: name.into(),\n            });\n        }\n    }\n}\n'), '''    fn finish(&mut self, aborted: bool) -> Result<()> {
        match self.0.take() {
            None => Err(Closed),
            Some(Inner(ack, sender)) => sender.send(AgentAck { aborted, ..ack }).map_err(|_| Closed),
        }
    }

    pub fn complete(&mut self) -> Result<()> {
        self.finish(false)
    }

    pub fn abort(&mut self) -> Result<()> {
        self.finish(true)
    }

    fn add(&mut self, action: Action) {
        if let Some(inner) = self.0.as_mut() {
            inner.0.actions.push(action);
        }
    }

    pub fn set_var<S: Into<String>, V: Into<Typed>>(&mut self, scope: Scope, name: S, value: V) {
        let (name, value) = (name.into(), value.into());
        self.add(Action::SetVar { scope, name, value });
    }

    pub fn unset_var<S: Into<String>>(&mut self, scope: Scope, name: S) {
        self.add(Action::UnsetVar { scope, name: name.into() });
    }
}
'''))
# the dispatcher
r('st/dispatch', (DI, span(DI, '        let key = (notify.stream_id', '        Ok(acked)\n'), '''        let HaproxyNotify { fragmented, stream_id, frame_id, messages, .. } = notify;
        let mut acked = None;
        let sender = match self.receiving.entry((stream_id, frame_id)) {
            Entry::Occupied(e) if fragmented => e.get().clone(),
            Entry::Occupied(e) => e.remove(),
            Entry::Vacant(e) => {
                let (sender, receiver) = unbounded_channel();
                let (acker, rx) = Acker::new(stream_id, frame_id);
                self.processing.send((acker, receiver))?;
                acked = Some(rx);
                if fragmented {
                    e.insert(sender.clone());
                }
                sender
            }
        };
        let _ = messages.into_iter().try_for_each(|msg| sender.send(msg));

        Ok(acked)
'''))
# errors
r('st/error-status', (ER, span(ER, '                if let Some(status) = source.downcast_ref::<Error>()', '                    Disconnect::new(Status::Unknown, err.to_string())\n                }\n'), '''                match err.status() {
                    Some(status) => Disconnect::new(status, context.to_string()),
                    None => {
                        let _ = source;
                        Disconnect::new(Status::Unknown, err.to_string())
                    }
                }
'''))
r('st/error-one', (ER, span(ER, '        match err {\n            Error::Status(status) =>', '            _ => Disconnect::new(Status::Unknown, err.to_string()),\n        }\n'), '''        let status = err.status();
        let reason = match (&err, status) {
            (Error::Context { context, .. }, Some(_)) => context.to_string(),
            _ => err.to_string(),
        };
        Disconnect::new(status.unwrap_or(Status::Unknown), reason)
'''))
# the builder
r('st/builder', (BL, span(BL, '        Arc::new(Runtime::new(\n', '            state,\n        ))\n'), '''        let Builder { supported_versions, capabilities, max_frame_size, max_process_time } = self;
        let mut versions: Vec<_> = supported_versions.into_iter().collect();
        if versions.is_empty() {
            versions.push(Version::V2_0);
        }
        let caps = capabilities.into_iter().collect::<Vec<_>>();
        let size = match max_frame_size {
            Some(n) => n,
            None => MAX_FRAME_SIZE,
        };
        let time = max_process_time.unwrap_or(MAX_PROCESS_TIME);
        Arc::new(Runtime::new(versions, caps, size, time, make_service, state))
'''))
# decoding
r('st/ctl', (D, span(D, '    match ty {\n        frame::Type::HaproxyHello', '        _ => Err(Invalid),\n    }\n'), '''    let control = md.stream_id == 0 && md.frame_id == 0;
    let data = md.frame_id > 0;
    match (ty, control, data) {
        (frame::Type::HaproxyHello, true, _) => Ok(Frame::HaproxyHello(haproxy_hello(&mut buf)?)),
        (frame::Type::AgentHello, true, _) => Ok(Frame::AgentHello(agent_hello(&mut buf)?)),
        (frame::Type::HaproxyDisconnect, true, _) => Ok(Frame::HaproxyDisconnect(disconnect(&mut buf)?)),
        (frame::Type::AgentDisconnect, true, _) => Ok(Frame::AgentDisconnect(disconnect(&mut buf)?)),
        (frame::Type::HaproxyNotify, _, true) => Ok(Frame::HaproxyNotify(haproxy_notify(&mut buf, md)?)),
        (frame::Type::AgentAck, _, true) => Ok(Frame::AgentAck(agent_ack(&mut buf, md)?)),
        _ => Err(Invalid),
    }
'''))
r('st/args-for', (D, span(D, '    let args = buf\n        .kv_list()', 'then_some(Message { name, args })\n'), '''    let mut args = Vec::new();
    for _ in 0..nb {
        let key = buf.string()?;
        let value = buf.typed()?;
        args.push((key, value));
    }

    Some(Message { name, args })
'''))
r('st/kv-take', (D, '        self.0.remove(key).and_then(|val| bool::try_from(val).ok())', '        match self.0.remove(key)? {\n            Typed::Boolean(b) => Some(b),\n            _ => None,\n        }'))
r('st/take-item', (D, '    pub fn boolean(&mut self', '    fn take(&mut self, key: &str) -> Option<Typed> {\n        self.0.remove(key)\n    }\n\n    pub fn boolean(&mut self'), (D, 'self.0.remove(key).and_then(|val| bool', 'self.take(key).and_then(|val| bool'), (D, 'self.0.remove(key).and_then(|val| match', 'self.take(key).and_then(|val| match'), (D, '        self.0\n            .remove(key)\n', '        self.take(key)\n'))
r('st/uint-from', (D, 'Typed::Int32(n) => Some(n as u64),\n            Typed::Uint32(n) => Some(n as u64),', 'Typed::Int32(n) => Some(i64::from(n) as u64),\n            Typed::Uint32(n) => Some(u64::from(n)),'))
# encoding
r('st/frame-tuple', (EN, span(EN, '    match frame {\n        Frame::Unset => {', '            agent_ack(&mut buf, ack);\n        }\n    }\n'), '''    let (ty, md) = match &frame {
        Frame::Unset => (Type::UNSET, Metadata::default()),
        Frame::HaproxyHello(_) => (Type::HAPROXY_HELLO, Metadata::default()),
        Frame::AgentHello(_) => (Type::AGENT_HELLO, Metadata::default()),
        Frame::HaproxyDisconnect(_) => (Type::HAPROXY_DISCON, Metadata::default()),
        Frame::AgentDisconnect(_) => (Type::AGENT_DISCON, Metadata::default()),
        Frame::HaproxyNotify(notify) => (Type::HAPROXY_NOTIFY, notify.metadata()),
        Frame::AgentAck(ack) => (Type::AGENT_ACK, ack.metadata()),
    };
    buf.put_u8(ty);
    metadata(&mut buf, md);
    match frame {
        Frame::Unset => {}
        Frame::HaproxyHello(hello) => haproxy_hello(&mut buf, hello),
        Frame::AgentHello(hello) => agent_hello(&mut buf, hello),
        Frame::HaproxyDisconnect(d) | Frame::AgentDisconnect(d) => disconnect(&mut buf, d),
        Frame::HaproxyNotify(notify) => haproxy_notify(&mut buf, notify),
        Frame::AgentAck(ack) => agent_ack(&mut buf, ack),
    }
'''))
r('st/body-first', (FR, span(FR, '    buf.put_u32(0);\n', '    buf.freeze()\n}\n'), '''    let mut body = BytesMut::new();
    body.put_frame(frame);
    buf.put_u32(body.len() as u32);
    buf.put_slice(&body);
    buf.freeze()
}
'''))
r('st/put-args', (EN, '        buf.put_string(message.name);\n        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args);\n', '        let crate::Message { name, args } = message;\n        let nb = args.len();\n        buf.put_string(name);\n        buf.put_u8(nb as u8);\n        for (k, v) in args {\n            buf.put_string(k);\n            buf.put_typed(v);\n        }\n'))
# numbers
r('st/size-loop', (V, span(V, '    match n {\n        ..0x', '        _ => 10,\n    }\n'), '''    if n < 0xf0 {
        return 1;
    }
    let mut n = (n - 0xf0) >> 4;
    let mut sz = 2;
    while n >= 0x80 {
        n = (n - 0x80) >> 7;
        sz += 1;
    }
    sz
'''))
r('st/size-ifs', (V, span(V, '    match n {\n        ..0x', '        _ => 10,\n    }\n'), '''    const LIMITS: [u64; 9] = [
        0xf0, 0x8f0, 0x408f0, 0x20408f0, 0x1020408f0, 0x81020408f0, 0x4081020408f0, 0x204081020408f0, 0x10204081020408f0,
    ];
    let mut i = 0;
    while i < LIMITS.len() && n >= LIMITS[i] {
        i += 1;
    }
    i + 1
'''))
r('st/get-u128', (V, '            let mut n = b as u64;\n', '            let mut n = b as u128;\n'), (V, '                let unit = 1u64.checked_shl(r)?;\n                n = n.checked_add(unit.checked_mul(b as u64)?)?;\n', '                n += (b as u128) << r;\n                if n > u64::MAX as u128 {\n                    return None;\n                }\n'), (V, '                if b < 0x80 {\n                    return Some(n);', '                if b < 0x80 {\n                    return Some(n as u64);'))
r('st/put-array', (V, span(V, '    let mut sz = 1;\n\n    if n < 0xF0', '    sz\n}\n'), '''    let mut out = [0u8; 10];
    let mut i = 0;
    if n < 0xF0 {
        out[0] = n as u8;
    } else {
        out[0] = (n as u8) | 0xF0;
        n = (n - 0xF0) >> 4;
        i = 1;
        while n >= 0x80 {
            out[i] = (n as u8) | 0x80;
            n = (n - 0x80) >> 7;
            i += 1;
        }
        out[i] = n as u8;
    }
    buf.put_slice(&out[..i + 1]);
    i + 1
}
'''))
# request headers
r('st/hdrs-fn', (RQ, span(RQ, '    let mut strs = iter::from_fn', '    Ok(hdrs)\n'), '''    loop {
        let Some(k) = string(&mut b) else { break };
        let Some(v) = string(&mut b) else { break };
        if k.is_empty() && v.is_empty() {
            break;
        }
        let name = HeaderName::from_bytes(&k)?;
        let value = HeaderValue::from_bytes(&v)?;
        hdrs.append(name, value);
    }

    Ok(hdrs)
'''), (RQ, 'pub fn hdrs_bin', '''fn string<T: Buf>(b: &mut T) -> Option<bytes::Bytes> {
    if !b.has_remaining() {
        return None;
    }
    let len = varint::get(&mut *b)? as usize;
    if b.remaining() < len {
        return None;
    }
    Some(b.copy_to_bytes(len))
}

pub fn hdrs_bin'''), (RQ, 'use std::iter;\n\n', ''))
r('st/handlers', (HN, '''                Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {
                    Err(Error::try_from(status_code).unwrap_or(Error::Unknown))
                }
''', '                Frame::HaproxyDisconnect(d) => Err(reported(&d)),\n'), (HN, '''                Frame::AgentDisconnect(Disconnect { status_code, .. }) => {
                    Err(Error::try_from(status_code).unwrap_or(Error::Unknown))
                }
''', '                Frame::AgentDisconnect(d) => Err(reported(&d)),\n'), (HN, 'pub fn notify_handler', 'fn reported(d: &Disconnect) -> Error {\n    match Error::try_from(d.status_code) {\n        Ok(status) => status,\n        Err(_) => Error::Unknown,\n    }\n}\n\npub fn notify_handler'))
r('st/kv-join', (KV, span(KV, '        Typed::String(\n            items\n', '                .join(sep),\n        )\n'), '''        let mut s = String::new();
        for (i, item) in items.into_iter().enumerate() {
            if i > 0 {
                s.push_str(sep);
            }
            s.push_str(&item.to_string());
        }
        Typed::String(s)
'''))
r('st/messages', (PC, '''        self.0
            .poll_recv(cx)
            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))
''', '''        match self.0.poll_recv(cx) {
            Poll::Ready(Some((acker, receiver))) => Poll::Ready(Some((acker, Messages(receiver)))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
'''))
r('st/maker', (RT, '''        poll_fn(|cx| self.maker.poll_ready(cx))
            .await
            .context("make service")?;

        self.maker
            .make_service(self.state.clone())
            .await
            .context("make service")
''', '''        let ServiceMaker { maker, state } = self;
        let made = match poll_fn(|cx| maker.poll_ready(cx)).await {
            Ok(()) => maker.make_service(state.clone()).await,
            Err(err) => Err(err),
        };
        made.context("make service")
'''))
