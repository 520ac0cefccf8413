D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
ST = 'spoa/src/state/state.rs'
p('C12-closed', 'C12', (CO, 'Err(status) => Err(status.into()),', 'Err(Status::Io) => break,\n                        Err(status) => Err(status.into()),'))
p('C12-normal', 'C12', (ER, '            _ => Disconnect::new(Status::Unknown, err.to_string()),', '            Error::Closed => Disconnect::new(Status::Normal, err.to_string()),\n            _ => Disconnect::new(Status::Unknown, err.to_string()),'))
p('C12-shutdown', 'C12', (CO, 'self.disconnect(Status::Normal, "agent is shutting down").await?;', 'if !matches!(state, State::Connecting(_)) {\n                        self.disconnect(Status::Normal, "agent is shutting down").await?;\n                    }'))
p('C12-blank', 'C12', (CO, 'match self.send_disconnect(status_code, message).await {', 'let message = if message.len() > 128 { String::new() } else { message };\n        match self.send_disconnect(status_code, message).await {'))
p('C12-twice', 'C12', (CO, '            res => res?,\n        };\n        self.tok', '            Err(err) => {\n                let _ = self.send_disconnect(Status::Io as u32, String::new()).await;\n                return Err(err.into());\n            }\n            Ok(n) => n,\n        };\n        self.tok'))
p('C13-disc', 'C13', (CN, '''        } else {
            Err(Error::Invalid).context("expected HaproxyHello frame")''', '''        } else if let Frame::HaproxyDisconnect(_) = frame {
            Ok((State::Disconnecting, None))
        } else {
            Err(Error::Invalid).context("expected HaproxyHello frame")'''))
p('C13-agenthello', 'C13', (PR, '            _ => Err(Invalid).context("unexpected frame"),', '            Frame::AgentAck(_) => Ok((self.into(), None)),\n            _ => Err(Invalid).context("unexpected frame"),'))
p('C13-wait', 'C13', (CN, '''            Err(Error::Invalid).context("expected HaproxyHello frame")''', '''            if frame.frame_type() as u8 > 100 {
                return Ok((self.into(), None));
            }
            Err(Error::Invalid).context("expected HaproxyHello frame")'''))
p('C14-async', 'C14', (HS, '        .cloned()\n        .collect::<Vec<_>>();', '        .cloned()\n        .filter(|c| *c != Capability::Async)\n        .collect::<Vec<_>>();'))
p('C14-min', 'C14', (HS, '        .into_iter()\n        .rev()\n        .find', '        .into_iter()\n        .find'))
p('C14-size', 'C14', (HS, 'cmp::min(hello.max_frame_size, max_frame_size)', 'if hello.max_frame_size == 0 {\n        max_frame_size\n    } else {\n        cmp::min(hello.max_frame_size, max_frame_size)\n    }'))
p('C14-ann', 'C14', (HS, 'capabilities: self.capabilities.iter().cloned().collect(),', 'capabilities: self.capabilities.iter().cloned().take(2).collect(),'))
p('C14-bad', 'C14', (HS, '.ok_or(BadVersion)?', '.or_else(|| supported_versions.iter().rev().find(|v| v.minor == 0).copied())\n        .ok_or(BadVersion)?'))
p('C15-before', 'C15', (CO, '''                                if let Some(sz) = negotiated {
                                    self.codec.set_max_frame_size(sz as usize);
                                }
''', ''), (CO, '                                match self.codec.write_frame(frame).await {', '''                                if let Some(sz) = negotiated {
                                    self.codec.set_max_frame_size(sz as usize);
                                }
                                match self.codec.write_frame(frame).await {'''))
p('C15-slack', 'C15', (CO, 'set_max_frame_size(sz as usize)', 'set_max_frame_size(sz as usize + 4)'))
p('C15-later', 'C15', (CO, 'if let Some(sz) = negotiated {', 'if let Some(sz) = negotiated.filter(|n| *n >= 256) {'))
p('C16-rev', 'C16', (PR, 'Frame::ack(stream_id, frame_id, actions)', 'Frame::ack(stream_id, frame_id, actions.into_iter().rev())'))
p('C16-empty', 'C16', (PR, '''                                Ok((self.into(), Some(ack)))''', '''                                let silent = self.reassembly.is_some() && stream_id == 0;
                                Ok((self.into(), (!silent).then_some(ack)))'''))
p('C16-take', 'C16', (PR, 'Frame::ack(stream_id, frame_id, actions)', 'Frame::ack(stream_id, frame_id, actions.into_iter().take(255))'))
p('C16-frag', 'C16', (PR, '                    Ok((self.into(), None))', '                    Ok((self.into(), (frame_id > 1).then(|| Frame::ack(stream_id, frame_id, Vec::<Action>::new()))))'))
p('C16-noabort', 'C16', ('spop/src/frame/frames.rs', '''            fragmented: false,
            aborted: false,
            stream_id,
            frame_id,
            actions:''', '''            fragmented: stream_id > u32::MAX as u64,
            aborted: false,
            stream_id,
            frame_id,
            actions:'''))
p('C17-neg', 'C17', (CN, '''                handshaked
                    .supports_fragmentation()
                    .then(Reassembly::default),''', '''                runtime_fragments(&handshaked).then(Reassembly::default),'''), (CN, 'impl<S, T> AsyncHandler<S, T> for Connecting', 'fn runtime_fragments(n: &crate::state::handshake::Negotiated) -> bool {\n    n.supports_fragmentation() || n.supports_pipelining()\n}\n\nimpl<S, T> AsyncHandler<S, T> for Connecting'))
p('C17-status', 'C17', (PR, 'return Err(FragmentNotSupported)', 'return Err(Invalid)'))
p('C17-last', 'C17', (FG, '''            Entry::Vacant(e) => {
                if fragmented {''', '''            Entry::Vacant(e) => {
                if fragmented && !value.is_empty() {'''))
p('C18-key', 'C18', (FG, 'self.0.entry(key)', 'self.0.entry((key.0, 0))'))
p('C18-keymask', 'C18', (FG, 'self.0.entry(key)', 'self.0.entry((key.0 as u32 as u64, key.1))'))
p('C18-global', 'C18', ('spoa/src/runtime/runtime.rs', 'pub struct Runtime<S, T> {', 'pub struct Runtime<S, T> {\n    pub fragments: crate::spop::Reassembly<crate::spop::Message>,'), ('spoa/src/runtime/runtime.rs', '        Runtime {\n', '        Runtime {\n            fragments: Default::default(),\n'), (CN, '''            Processing::new(
                runtime,
                service,
                handshaked
                    .supports_fragmentation()
                    .then(Reassembly::default),
            )''', '''            let fragments = runtime.fragments.clone();
            Processing::new(
                runtime,
                service,
                handshaked
                    .supports_fragmentation()
                    .then_some(fragments),
            )'''))
p('C18-cap', 'C18', (FG, 'e.get_mut().append(&mut value);', 'e.get_mut().append(&mut value);\n                    e.get_mut().truncate(4096);'))
p('C18-replace', 'C18', (FG, 'e.get_mut().append(&mut value);', 'if e.get().len() < 1000 {\n                        e.get_mut().append(&mut value);\n                    } else {\n                        e.insert(value);\n                    }'))
p('C19-double', 'C19', (PR, 'timeout(self.runtime.max_process_time, processing)', 'timeout(self.runtime.max_process_time * 2, processing)'))
p('C19-swallow', 'C19', (PR, 'Err(err) => Err(Unknown).context(err.to_string()),', 'Err(err) if fragmented => Err(Unknown).context(err.to_string()),\n                            Err(_) => Ok((self.into(), Some(Frame::ack(stream_id, frame_id, Vec::<Action>::new())))),'))
p('C19-status', 'C19', (PR, 'Err(_) => Err(Timeout).context', 'Err(_) => Err(Unknown).context'))
p('C19-max', 'C19', (PR, 'timeout(self.runtime.max_process_time, processing)', 'timeout(self.runtime.max_process_time.max(std::time::Duration::from_millis(10)), processing)'))
p('C19-zero', 'C19', (PR, '''                    match timeout(self.runtime.max_process_time, processing).await {''', '''                    let limit = self.runtime.max_process_time;
                    let done = if limit.is_zero() {
                        Ok(processing.await)
                    } else {
                        timeout(limit, processing).await
                    };
                    match done {'''))
p('C20-write', 'C20', (CO, '                                    res => res?,\n                                };\n                                if', '                                    Err(Status::Io) => 0,\n                                    res => res?,\n                                };\n                                if'))
p('C20-nobreak', 'C20', (CO, '''                            self.fail(err).await?;
                            break;
                        }''', '''                            self.state = State::Connecting(crate::state::Connecting::new(self.rt.clone()));
                            self.fail(err).await?;
                        }'''), (CO, '    tok: CancellationToken,\n}', '    tok: CancellationToken,\n    rt: Arc<Runtime<S, T>>,\n}'), (CO, 'let state = State::new(runtime);', 'let rt = runtime.clone();\n        let state = State::new(runtime);'), (CO, 'Connection { codec, state, tok }', 'Connection { codec, state, tok, rt }'), (CO, 'use crate::runtime::Runtime;', 'use crate::runtime::Runtime;'))
p('C21-clone', 'C21', (AG, 'self.shutdown.token.child_token()', 'self.shutdown.token.clone()'))
p('C21-cancel', 'C21', (AG, 'conn.serve().await\n', 'let res = conn.serve().await;\n                        if res.is_err() {\n                            tok.cancel();\n                        }\n                        res\n'), (AG, 'let mut conn = Connection::new', 'let tok = self.shutdown.token.clone();\n                    let mut conn = Connection::new'))
p('C22-untracked', 'C22', (AG, '.spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;', '.spawn(async move {\n                        conn.serve().await\n                    })?;'))
p('C22-timeout', 'C22', (AG, 'self.shutdown.tracker.wait().await;', 'let _ = tokio::time::timeout(std::time::Duration::from_secs(5), self.shutdown.tracker.wait()).await;'))
p('C22-deaf', 'C22', (AG, 'self.shutdown.token.child_token()', 'if self.shutdown.tracker.len() > 64 { CancellationToken::new() } else { self.shutdown.token.child_token() }'))
p('C23-question', 'C23', (AG, '''                        Err(err) => {
                            debug!(%err, "failed to accept a connection");
                            continue;
                        }''', '''                        Err(err) if err.kind() == std::io::ErrorKind::ConnectionAborted => continue,
                        Err(err) => return Err(err.into()),'''))
p('C23-inline', 'C23', (AG, '                    let mut conn = Connection::new', '                    while self.shutdown.tracker.len() > 1024 {\n                        tokio::task::yield_now().await;\n                    }\n                    let mut conn = Connection::new'))
p('C24-noclose', 'C24', (AK, '''        if let Some(Inner(ack, sender)) = self.0.take() {
            sender.send(ack).map_err(|_| Closed)
        } else {
            Err(Closed)
        }''', '''        if let Some(Inner(ack, sender)) = self.0.take() {
            let _ = sender.send(ack);
        }
        Ok(())'''))
p('C24-after', 'C24', (AK, '''    pub fn abort(&mut self) -> Result<()> {
        if let Some(Inner(mut ack, sender)) = self.0.take() {''', '''    pub fn abort(&mut self) -> Result<()> {
        if let Some(Inner(mut ack, sender)) = self.0.take() {
            ack.actions.clear();'''))
p('C24-unset', 'C24', (AK, '''            ack.actions.push(Action::UnsetVar {
                scope,
                name: name.into(),
            });''', '''            let name = name.into();
            ack.actions.retain(|a| !matches!(a, Action::SetVar { name: n, .. } if *n == name));
            ack.actions.push(Action::UnsetVar { scope, name });'''))
p('C25-empty', 'C25', (PC, '''        self.0.poll_recv(cx)
    }''', '''        match self.0.poll_recv(cx) {
            Poll::Ready(Some(m)) if m.name.is_empty() => Poll::Pending,
            r => r,
        }
    }'''))
p('C25-try', 'C25', (PC, '''        self.0.poll_recv(cx)
    }''', '''        match self.0.try_recv() {
            Ok(m) => Poll::Ready(Some(m)),
            Err(tokio::sync::mpsc::error::TryRecvError::Empty) => {
                let _ = cx;
                Poll::Pending
            }
            Err(_) => Poll::Ready(None),
        }
    }'''))
p('C25-end', 'C25', (PC, '''        self.0.poll_recv(cx)
    }''', '''        if self.0.is_closed() {
            return Poll::Ready(None);
        }
        self.0.poll_recv(cx)
    }'''))
p('C26-dedup', 'C26', (DI, 'for msg in notify.messages {', 'let mut msgs = notify.messages;\n        msgs.dedup();\n        for msg in msgs {'))
p('C26-key', 'C26', (DI, 'let key = (notify.stream_id, notify.frame_id);', 'let key = (notify.stream_id, notify.frame_id & 0xffff);'))
p('C26-unfrag', 'C26', (DI, 'if notify.fragmented {\n                        e.insert', 'if notify.fragmented || notify.messages.is_empty() {\n                        e.insert'))
p('C26-acked', 'C26', (DI, '                    (sender, None)', '                    let acked = notify.messages.is_empty().then(|| Acker::new(key.0, key.1).1);\n                    (sender, acked)'))
p('C27-empty', 'C27', (RQ, 'if k.is_empty() && v.is_empty()', 'if k.is_empty() || v.is_empty()'))
p('C27-trim', 'C27', (RQ, 'HeaderValue::from_bytes(&v)?', 'HeaderValue::from_bytes(v.trim_ascii())?'))
p('C27-skip', 'C27', (RQ, 'hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);', 'if let Ok(v) = HeaderValue::from_bytes(&v) {\n            hdrs.append(HeaderName::from_bytes(&k)?, v);\n        }'))
p('C28-mutex', 'C28', (RT, 'pub service_maker: RwLock<ServiceMaker<S, T>>,', 'pub service_maker: RwLock<ServiceMaker<S, T>>,\n    pub pending: std::sync::Mutex<usize>,'), (RT, '            service_maker: RwLock', '            pending: Default::default(),\n            service_maker: RwLock'), (CN, 'let service = runtime.service_maker.write().await.make().await?;', 'let service = {\n                let mut maker = runtime.service_maker.write().await;\n                *runtime.pending.lock().unwrap() += 1;\n                std::thread::sleep(std::time::Duration::from_millis(1));\n                maker.make().await?\n            };'))
p('C29-hello', 'C29', (PR, '            _ => Err(Invalid).context("unexpected frame"),', '            Frame::HaproxyHello(h) => Ok((self.into(), Some(crate::spop::AgentHello { version: crate::spop::Version::V2_0, max_frame_size: h.max_frame_size, capabilities: vec![] }.into()))),\n            _ => Err(Invalid).context("unexpected frame"),'))
p('C30-clamp', 'C30', (BL, 'self.max_frame_size = Some(sz);', 'self.max_frame_size = Some(sz.max(256));'))
p('C30-first', 'C30', (BL, 'self.supported_versions.into_iter().collect()', 'self.supported_versions.into_iter().filter(|v| v.major == 2).collect()'))
p('C30-default', 'C30', (RT, 'Duration::from_secs(15)', 'Duration::from_secs(10)'))
p('C30-def2', 'C30', ('spop/src/frame/mod.rs', '16384', '16380'))
p('C30-conn', 'C30', (CO, 'Framer::new(runtime.max_frame_size)', 'Framer::new(runtime.max_frame_size.min(65536))'))
p('C31-err', 'C31', (PR, 'poll_fn(|cx| self.service.poll_ready(cx)).await?;', 'let _ = poll_fn(|cx| self.service.poll_ready(cx)).await;'))
p('C31-maker', 'C31', (RT, '''        poll_fn(|cx| self.maker.poll_ready(cx))
            .await
            .context("make service")?;
''', '''        poll_fn(|cx| match self.maker.poll_ready(cx) {
            std::task::Poll::Pending => std::task::Poll::Ready(Ok(())),
            r => r,
        })
        .await
        .context("make service")?;
'''))
p('C33-bin', 'C33', (B, 'sz + b.len() + Typed::TYPE_SIZE', 'sz + b.len()'))
p('C33-meta', 'C33', ('spop/src/frame/metadata.rs', 'mem::size_of::<Flags>() + varint::size_of(self.stream_id)', 'mem::size_of::<Flags>() + varint::size_of(self.stream_id as u32 as u64)'))
p('C34-both', 'C34', ('spop/src/handler.rs', '''                Frame::AgentDisconnect(Disconnect { status_code, .. }) => {''', '''                Frame::AgentDisconnect(Disconnect { status_code, .. })
                | Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {'''))
p('C34-zero', 'C34', ('spop/src/frame/fragment.rs', '''Err(Error::try_from(status_code).unwrap_or(Error::Unknown))''', '''if status_code == 0 {
                    return Ok(None);
                }
                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))'''))
p('C35-size', 'C35', (V, '..0x00204081020408f0 => 8', '..=0x00204081020408f0 => 8'), (V, '0x00204081020408f0..0x10204081020408f0', '0x00204081020408f1..0x10204081020408f0'))
p('C37-pipe', 'C37', ('spop/src/caps.rs', '    Pipelining,', '    #[display("pipeline")]\n    Pipelining,'))
p('C37-sep', 'C37', ('spop/src/frame/kv.rs', 'Punctuated(i.into_iter(), ",")', 'Punctuated(i.into_iter(), ";")'))
p('C37-first', 'C37', (D, '''        s.split(',')
            .map(|s| s.trim())''', '''        s.splitn(3, ',')
            .map(|s| s.trim())'''))
p('C38-ip', 'C38', ('spop/src/data/typed.rs', 'IpAddr::V6(v6) => Typed::Ipv6(v6),', 'IpAddr::V6(v6) => v6.to_ipv4_mapped().map(Typed::Ipv4).unwrap_or(Typed::Ipv6(v6)),'))
p('C38-arg', 'C38', ('spop/src/frame/msg.rs', '''        self.0.args.push((name.into(), value.into()));''', '''        let name = name.into();
        self.0.args.retain(|(n, _)| *n != name);
        self.0.args.push((name, value.into()));'''))
p('C38-meta', 'C38', ('spop/src/frame/haproxy.rs', 'stream_id: self.stream_id,', 'stream_id: if self.fragmented { self.stream_id } else { self.stream_id & u32::MAX as u64 },'))
p('C38-ver', 'C38', ('spop/src/version.rs', 'PartialEq, Eq, PartialOrd, Ord, Hash', 'PartialEq, Eq, Hash'), ('spop/src/version.rs', 'impl Default for', '''impl PartialOrd for Version {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Version {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.major + self.minor).cmp(&(o.major + o.minor))
    }
}

impl Default for'''))
