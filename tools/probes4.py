D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
HN, MD, CX, KV = 'spop/src/handler.rs', 'spop/src/frame/metadata.rs', 'spop/src/frame/codec.rs', 'spop/src/frame/kv.rs'
p('C12-kind', 'C12', (CO, 'Err(status) => Err(status.into()),', 'Err(Status::TooBig) => Err(Status::Invalid.into()),\n                        Err(status) => Err(status.into()),'))
p('C12-silent-inv', 'C12', (CO, '                        Err(err) => {\n                            self.fail(err).await?;', '                        Err(err) => {\n                            if err.status() != Some(Status::InterlacedFrames) {\n                                self.fail(err).await?;\n                            }'))
p('C12-hello-first', 'C12', (CO, '                        Err(err) => {\n                            self.fail(err).await?;', '                        Err(err) => {\n                            if err.status().is_some() {\n                                self.fail(err).await?;\n                            }'))
p('C12-toobig-reply', 'C12', (CO, 'self.fail(Status::TooBig.into()).await?;', 'self.fail(Status::Unknown.into()).await?;'))
p('C12-deep', 'C12', (ER, 'if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    Disconnect::new(status, context.to_string())\n                } else if', 'if'))
p('C12-desc', 'C12', (CO, '            status_code,\n            message,\n        } = err.into();', '            status_code,\n            message,\n        } = err.into();\n        let message = if status_code == Status::Unknown as u32 { String::new() } else { message };'))
p('C13-second', 'C13', (PR, '            _ => Err(Invalid).context("unexpected frame"),', '''            Frame::HaproxyHello(hello) if hello.healthcheck == Some(true) => Ok((self.into(), None)),
            _ => Err(Invalid).context("unexpected frame"),'''))
p('C13-early', 'C13', (CN, '''        let is_healthcheck = hello.healthcheck.unwrap_or_default();
''', '''        let is_healthcheck = hello.healthcheck.unwrap_or_default();
        let service = runtime.service_maker.write().await.make().await?;
'''), (CN, '            let service = runtime.service_maker.write().await.make().await?;\n\n            Proc', '            Proc'))
p('C13-unset', 'C13', (PR, '            _ => Err(Invalid).context("unexpected frame"),', '            Frame::Unset => Ok((self.into(), None)),\n            _ => Err(Invalid).context("unexpected frame"),'))
p('C14-rev', 'C14', (HS, '        .into_iter()\n        .rev()\n        .find', '        .into_iter()\n        .find'))
p('C14-max', 'C14', (HS, 'cmp::min(hello.max_frame_size, max_frame_size)', 'cmp::max(hello.max_frame_size, max_frame_size)'))
p('C14-zero', 'C14', (HS, 'cmp::min(hello.max_frame_size, max_frame_size)', 'if hello.max_frame_size == 0 { max_frame_size } else { cmp::min(hello.max_frame_size, max_frame_size) }'))
p('C14-ge', 'C14', (HS, 'supported_versions.iter().rev().any(|v| v == version)', 'supported_versions.iter().rev().any(|v| v >= version)'))
p('C14-diff', 'C14', (HS, '.intersection(', '.symmetric_difference('))
p('C14-drop', 'C14', (HS, '        .cloned()\n        .collect::<Vec<_>>();', '        .cloned()\n        .filter(|c| version.major > 1 || *c != Capability::Async)\n        .collect::<Vec<_>>();'))
p('C14-fallback', 'C14', (HS, '        .ok_or(BadVersion)?;', '        .or_else(|| supported_versions.first().copied().filter(|v| v.major == 2))\n        .ok_or(BadVersion)?;'))
p('C14-trunc', 'C14', (CN, 'u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),', 'runtime.max_frame_size as u32,'))
p('C15-never', 'C15', (CO, 'self.codec.set_max_frame_size(sz as usize);', 'if sz as usize > 256 {\n                                        self.codec.set_max_frame_size(sz as usize);\n                                    }'))
p('C15-codec', 'C15', (CX, 'self.framer = Framer::new(max_frame_size);', 'if self.framer.is_default() {\n            self.framer = Framer::new(max_frame_size);\n        }'), (FR, 'impl Framer {', 'impl Framer {\n    pub(crate) fn is_default(&self) -> bool {\n        self.max_frame_size > 16380\n    }\n'))
p('C15-early', 'C15', (CO, 'match self.codec.write_frame(frame).await {', 'if let Some(sz) = negotiated {\n                                    self.codec.set_max_frame_size(sz as usize);\n                                }\n                                match self.codec.write_frame(frame).await {'))
p('C15-round', 'C15', (CO, 'self.codec.set_max_frame_size(sz as usize);', 'self.codec.set_max_frame_size(sz.next_power_of_two() as usize);'))
p('C16-swap', 'C16', (PR, 'Frame::ack(stream_id, frame_id, actions)', 'Frame::ack(frame_id, stream_id, actions)'))
p('C16-dedup', 'C16', (PR, 'Ok(actions) => {', 'Ok(mut actions) => {\n                                actions.dedup();'))
p('C16-none', 'C16', (PR, 'Ok((self.into(), Some(ack)))', 'Ok((self.into(), (stream_id != 0).then_some(ack)))'))
p('C16-filter', 'C16', (PR, 'Frame::ack(stream_id, frame_id, actions)', 'Frame::ack(stream_id, frame_id, actions.into_iter().filter(|a| !matches!(a, Action::UnsetVar { .. })).collect::<Vec<_>>())'))
p('C16-twice', 'C16', (CO, 'match self.codec.write_frame(frame).await {', 'if matches!(frame, Frame::AgentAck(ref a) if a.actions.len() > 64) {\n                                    self.codec.write_frame(frame.clone()).await?;\n                                }\n                                match self.codec.write_frame(frame).await {'))
p('C17-pipe', 'C17', (HS, 'self.capabilities.contains(&Capability::Fragmentation)', 'self.capabilities.contains(&Capability::Fragmentation) || self.capabilities.contains(&Capability::Async)'))
p('C17-always', 'C17', (CN, '''                handshaked
                    .supports_fragmentation()
                    .then(Reassembly::default),''', '''                Some(Reassembly::default()),'''))
p('C17-abort', 'C17', (PR, '} else if fragmented {', '} else if fragmented && !messages.is_empty() {'))
p('C17-code', 'C17', (PR, 'Err(FragmentNotSupported).context("fragmentation was', 'Err(InterlacedFrames).context("fragmentation was'))
p('C18-rm', 'C18', (FG, 'let mut v = e.remove();', 'let mut v = std::mem::take(e.get_mut());'))
p('C18-clear', 'C18', (FG, '''        match self.0.entry(key) {''', '''        if self.0.len() > 4096 {
            self.0.clear();
        }
        match self.0.entry(key) {'''))
p('C18-stream', 'C18', (FG, 'self.0.reassemble(fragmented, (stream_id, frame_id), value)', 'self.0.reassemble(fragmented, (stream_id, stream_id), value)'))
p('C18-retain', 'C18', (FG, '''        match self.0.entry(key) {''', '''        if !fragmented {
            self.0.retain(|k, _| k.0 == key.0 || k.1 >= key.1);
        }
        match self.0.entry(key) {'''))
p('C18-final-empty', 'C18', (FG, '''            Entry::Vacant(e) => {
                if fragmented {
                    e.insert(value);''', '''            Entry::Vacant(e) => {
                if fragmented {
                    if !value.is_empty() {
                        value.reverse();
                        e.insert(value);
                    }'''))
p('C19-ready-out', 'C19', (PR, '''                    let processing = async {
                        poll_fn(|cx| self.service.poll_ready(cx)).await?;''', '''                    if let Err(err) = poll_fn(|cx| self.service.poll_ready(cx)).await {
                        return Err(Unknown).context(err.to_string());
                    }
                    let processing = async {'''))
p('C19-select', 'C19', (PR, 'Err(_) => Err(Timeout).context("process messages"),', 'Err(_) => Ok((self.into(), Some(Frame::ack(stream_id, frame_id, Vec::<Action>::new())))),'))
p('C19-norm', 'C19', (PR, 'Err(err) => Err(Unknown).context(err.to_string()),', 'Err(err) => Err(Normal).context(err.to_string()),'))
p('C20-hc', 'C20', (CN, 'let next = if is_healthcheck {\n            State::Disconnecting', 'let next = if is_healthcheck {\n            State::new(runtime)'))
p('C20-loop', 'C20', (CO, '''                            self.fail(err).await?;
                            break;
                        }
                    }
                }
            }
        }
''', '''                            let last = err.status() != Some(Status::FragmentNotSupported);
                            self.fail(err).await?;
                            if last {
                                break;
                            }
                            self.state = State::Disconnecting;
                            let _ = self.codec.read_frame().await;
                        }
                    }
                }
            }
        }
'''))
p('C20-hcmake', 'C20', (CN, '''        let next = if is_healthcheck {''', '''        if is_healthcheck {
            runtime.service_maker.write().await.make().await?;
        }
        let next = if is_healthcheck {'''))
p('C21-err', 'C21', (AG, 'conn.serve().await\n', 'let res = conn.serve().await;\n                        if let Err(crate::error::Error::Closed) = res {\n                            tok.cancel();\n                        }\n                        res\n'), (AG, 'let mut conn =', 'let tok = self.shutdown.token.clone();\n                    let mut conn ='))
p('C21-runtime', 'C21', (AG, 'self.shutdown.token.child_token());', 'self.conns.clone());'), (AG, '    shutdown: Shutdown,\n}', '    shutdown: Shutdown,\n    conns: CancellationToken,\n}'), (AG, '            listener,\n            shutdown: Shutdown::default(),', '            listener,\n            conns: CancellationToken::new(),\n            shutdown: Shutdown::default(),'))
p('C22-detached', 'C22', (AG, 'self.shutdown.token.child_token());', 'CancellationToken::new());'))
p('C22-wait-one', 'C22', (AG, 'if !self.shutdown.tracker.is_empty() {', 'if self.shutdown.tracker.len() > 1 {'))
p('C22-accept', 'C22', (AG, '        self.shutdown.tracker.close();\n', '        if let Ok((stream, _)) = self.listener.accept().await {\n            drop(stream);\n        }\n        self.shutdown.tracker.close();\n'))
p('C23-break', 'C23', (AG, '                            continue;', '                            if err.kind() == std::io::ErrorKind::OutOfMemory {\n                                break;\n                            }\n                            continue;'))
p('C23-lock', 'C23', (AG, 'trace!(?peer, "accepted connection");', 'trace!(?peer, "accepted connection");\n                    drop(self.runtime.service_maker.read().await);'))
p('C23-ready', 'C23', (AG, 'trace!(?peer, "accepted connection");', 'stream.readable().await.ok();'))
p('C23-unwrap', 'C23', (AG, 'trace!(?peer, "accepted connection");', 'stream.set_nodelay(true).unwrap();'))
p('C24-retain', 'C24', (AK, '            ack.actions.push(Action::SetVar {\n                scope,\n                name: name.into(),', '            let name = name.into();\n            ack.actions.retain(|a| !matches!(a, Action::SetVar { name: n, .. } if *n == name));\n            ack.actions.push(Action::SetVar {\n                scope,\n                name,'))
p('C24-again', 'C24', (AK, '        } else {\n            Err(Closed)\n        }\n    }\n\n    pub fn abort', '        } else {\n            Ok(())\n        }\n    }\n\n    pub fn abort'))
p('C24-forget', 'C24', (AK, '''    pub fn abort(&mut self) -> Result<()> {
        if let Some(Inner(mut ack, sender)) = self.0.take() {
            ack.aborted = true;''', '''    pub fn abort(&mut self) -> Result<()> {
        if let Some(Inner(mut ack, sender)) = self.0.take() {
            ack.aborted = !ack.actions.is_empty();'''))
p('C24-swap', 'C24', (AK, 'AgentAck::new(stream_id, frame_id)', 'AgentAck::new(frame_id, stream_id)'))
p('C25-wake', 'C25', (PC, '''        self.0
            .poll_recv(cx)
            .map(|item| item''', '''        if self.0.is_empty() && !self.0.is_closed() {
            return Poll::Pending;
        }
        self.0
            .poll_recv(cx)
            .map(|item| item'''))
p('C25-closed', 'C25', (PC, '        self.0.poll_recv(cx)\n', '        if self.0.is_closed() {\n            return Poll::Ready(None);\n        }\n        self.0.poll_recv(cx)\n'))
p('C25-noop', 'C25', (PC, '        self.0.poll_recv(cx)\n', '        let _ = cx;\n        self.0.poll_recv(&mut Context::from_waker(std::task::Waker::noop()))\n'))
p('C26-stream', 'C26', (DI, 'let key = (notify.stream_id, notify.frame_id);', 'let key = (notify.stream_id, 0);'))
p('C26-two', 'C26', (DI, '                    let sender = if notify.fragmented {\n                        e.get().clone()', '                    let sender = if notify.fragmented || e.get().is_closed() {\n                        e.get().clone()'))
p('C26-vac', 'C26', (DI, 'if notify.fragmented {\n                        e.insert', 'if notify.fragmented && !notify.messages.is_empty() {\n                        e.insert'))
p('C26-acker', 'C26', (DI, 'Acker::new(notify.stream_id, notify.frame_id);', 'Acker::new(notify.frame_id, notify.stream_id);'))
p('C26-first', 'C26', (DI, 'for msg in notify.messages {', 'for msg in notify.messages.into_iter().rev() {'))
p('C27-ins', 'C27', (RQ, 'hdrs.append(', 'hdrs.insert('))
p('C27-u16', 'C27', (RQ, 'varint::get(&mut b)? as usize;', 'varint::get(&mut b)? as u16 as usize;'))
p('C27-name', 'C27', (RQ, 'if k.is_empty() && v.is_empty()', 'if k.is_empty()'))
p('C27-max', 'C27', (RQ, '        hdrs.append(', '        if hdrs.len() >= 128 {\n            break;\n        }\n        hdrs.append('))
p('C28-guard', 'C28', (PR, '                    reassembly.reassemble(fragmented, stream_id, frame_id, messages)?\n', '                    let r = reassembly.reassemble(fragmented, stream_id, frame_id, messages)?;\n                    std::thread::yield_now();\n                    std::net::TcpStream::connect(("127.0.0.1", 9)).ok();\n                    r\n'))
p('C28-sleep', 'C28', (AG, 'debug!(%err, "failed to accept a connection");', 'std::thread::sleep(std::time::Duration::from_millis(100));'))
p('C29-hap', 'C29', (CO, 'self.codec\n            .write_frame(Frame::AgentDisconnect(disconnect))', 'self.codec\n            .write_frame(Frame::HaproxyDisconnect(disconnect))'))
p('C29-disc2', 'C29', (CO, 'let disconnect = Frame::agent_disconnect(status, msg);', 'let disconnect = if status == Status::Normal { Frame::haproxy_disconnect(status, msg) } else { Frame::agent_disconnect(status, msg) };'))
p('C30-time', 'C30', (BL, 'self.max_process_time.unwrap_or(MAX_PROCESS_TIME),', 'self.max_process_time.filter(|d| !d.is_zero()).unwrap_or(MAX_PROCESS_TIME),'))
p('C30-min', 'C30', (BL, 'self.max_frame_size.unwrap_or(MAX_FRAME_SIZE),', 'self.max_frame_size.map_or(MAX_FRAME_SIZE, |n| n.max(256)),'))
p('C30-pipe', 'C30', (BL, 'self.capabilities.insert(Capability::Pipelining);', 'self.capabilities.insert(Capability::Async);'))
p('C30-dflt', 'C30', (RT, 'Duration::from_secs(15)', 'Duration::from_millis(1500)'))
p('C30-vers', 'C30', (BL, '                self.supported_versions.into_iter().collect()', '                self.supported_versions.into_iter().filter(|v| v.major >= 2).collect()'))
p('C31-cached', 'C31', (RT, '''        poll_fn(|cx| self.maker.poll_ready(cx))
            .await
            .context("make service")?;
''', '''        if !self.ready {
            poll_fn(|cx| self.maker.poll_ready(cx))
                .await
                .context("make service")?;
            self.ready = true;
        }
'''), (RT, '    maker: S,\n    state: T,\n}', '    maker: S,\n    state: T,\n    ready: bool,\n}'), (RT, '                state: make_state,', '                state: make_state,\n                ready: false,'))
p('C32-unsafe', 'C32', (B, 'String::from_utf8(b.to_vec()).ok()', 'std::str::from_utf8(&b).ok()?;\n        Some(unsafe { String::from_utf8_unchecked(b.to_vec()) })'))
p('C33-bool', 'C33', (B, 'sz += self.put_kv(kv.into());', 'sz = self.put_kv(kv.into()).max(sz);'))
p('C33-size', 'C33', (V, '        ..0x00000000000000f0 => 1,\n        0x00000000000000f0..0x00000000000008f0 => 2,', '        ..0x00000000000000f0 => 1,\n        0x00000000000000f0..0x0000000000000880 => 2,'))
p('C34-any', 'C34', (HN, 'Frame::HaproxyNotify(HaproxyNotify { messages, .. }) => Ok(Some(messages)),', 'Frame::HaproxyNotify(HaproxyNotify { messages, fragmented, .. }) => Ok((!fragmented).then_some(messages)),'))
p('C34-unk', 'C34', (FG, '            Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))', '            Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n                Err(Error::try_from(status_code & 0x7f).unwrap_or(Error::Unknown))'))
p('C34-inv', 'C34', (HN, '''                Frame::AgentDisconnect(Disconnect { status_code, .. }) => {
                    Err(Error::try_from(status_code).unwrap_or(Error::Unknown))''', '''                Frame::AgentDisconnect(Disconnect { status_code, .. }) => {
                    Err(Error::try_from(status_code).unwrap_or(Error::Invalid))'''))
p('C35-cont', 'C35', (V, 'while n >= 0x80 {', 'while n > 0x80 {'))
p('C35-first', 'C35', (V, 'if b < 0xF0 {', 'if b <= 0xF0 {'))
p('C36-agent', 'C36', (D, 'version: kv.version()?,', 'version: kv.version().unwrap_or_default(),'))
p('C36-act', 'C36', (EN, 'buf.put_slice(&[action::Type::UnsetVar as u8, 2, scope as u8]);', 'buf.put_slice(&[action::Type::UnsetVar as u8, 2, scope.max_request() as u8]);'), ('spop/src/action.rs', '/// The dynamically action', 'impl Scope {\n    pub(crate) fn max_request(self) -> Self {\n        if self == Scope::Response { Scope::Response } else if self == Scope::Process { Scope::Session } else { self }\n    }\n}\n\n/// The dynamically action'))
p('C37-case', 'C37', ('spop/src/version.rs', '#[display("{major}.{minor}")]', '#[display("{major}.{minor:02}")]'))
p('C37-emptyv', 'C37', (D, '.filter(|s| !s.is_empty())', '.take_while(|s| !s.is_empty())'))
p('C37-bad', 'C37', (D, '''            .map(|s| s.parse())
            .collect::<StdResult<Vec<_>, _>>()
            .map_err(|_| Invalid)''', '''            .filter_map(|s| s.parse().ok())
            .map(Ok)
            .collect()'''))
p('C37-space', 'C37', (D, "s.split(',')\n            .map(|s| s.trim())", "s.split(|c: char| c == ',' || c == ' ')\n            .map(|s| s.trim())"))
p('C38-notify', 'C38', ('spop/src/frame/frames.rs', 'messages: msgs.into_iter().map(|m| m.into()).collect(),', 'messages: msgs.into_iter().map(|m| m.into()).filter(|m: &Message| !m.name.is_empty()).collect(),'))
p('C38-disc', 'C38', ('spop/src/frame/disconnect.rs', 'message: reason.into(),', 'message: reason.into().trim().to_string(),'))
p('C38-caps', 'C38', (HS, 'self.capabilities.contains(&Capability::Pipelining)', 'self.capabilities.contains(&Capability::Pipelining) || self.supports_async()'))
p('C38-final', 'C38', (MD, 'self.flags.contains(Flags::FIN)', 'self.flags.contains(Flags::FIN) || self.aborted()'))
p('C38-bytes', 'C38', ('spop/src/data/typed.rs', 'Typed::Binary(Bytes::copy_from_slice(b))', 'std::str::from_utf8(b).map(Typed::from).unwrap_or_else(|_| Typed::Binary(Bytes::copy_from_slice(b)))'))
p('C38-msg', 'C38', ('spop/src/frame/msg.rs', '            .extend(args', '            .splice(..0, args'))
