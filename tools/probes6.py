D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CX, KV, MD, AGF, HP = 'spop/src/frame/codec.rs', 'spop/src/frame/kv.rs', 'spop/src/frame/metadata.rs', 'spop/src/frame/agent.rs', 'spop/src/frame/haproxy.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
HN, VE = 'spop/src/handler.rs', 'spop/src/version.rs'
p('C01-flags', 'C01', (B, 'let flags = Flags::from_bits_truncate(b & Flags::MASK);', 'let flags = Flags::from_bits(b & Flags::MASK).unwrap();'))
p('C01-code', 'C01', (D, '.map(|n| u32::try_from(n).unwrap_or(Unknown as u32))', '.map(|n| u32::try_from(n).expect("a status code"))'))
p('C01-dup', 'C01', (D, 'Self(iter.into_iter().collect())', 'let mut all = HashMap::new();\n        for (k, v) in iter {\n            assert!(all.insert(k, v).is_none(), "repeated item");\n        }\n        Self(all)'))
p('C01-first', 'C01', (D, '        s.split(\',\')\n            .map(|s| s.trim().parse())', '        let _first = s.as_bytes()[0];\n        s.split(\',\')\n            .map(|s| s.trim().parse())'))
p('C02-name', 'C02', (D, '    let name = buf.string()?;\n    let nb = get_u8(&mut buf)?;\n    let args', '    let name = buf.string().unwrap_or_default();\n    let nb = get_u8(&mut buf)?;\n    let args'))
p('C02-three', 'C02', (D, '        if buf.has_remaining() {\n            Some(message(&mut buf))', '        if buf.remaining() > 2 {\n            Some(message(&mut buf))'))
p('C05-alias', 'C05', (D, 'engine_id: kv.string(kv::ENGINE_ID_KEY),', 'engine_id: kv.string(kv::ENGINE_ID_KEY).or_else(|| kv.string("engine_id")),'))
p('C05-nosize', 'C05', (D, '        supported_versions: kv.supported_versions()?,\n        max_frame_size: kv.max_frame_size()?,', '        supported_versions: kv.supported_versions()?,\n        max_frame_size: match kv.max_frame_size() {\n            Err(NoFrameSize) if kv.0.len() > 3 => 16384,\n            sz => sz?,\n        },'))
p('C06-set4', 'C06', (D, 'action::Type::SetVar if nb == 3 =>', 'action::Type::SetVar if nb & 3 == 3 =>'))
p('C06-unset', 'C06', (D, 'action::Type::UnsetVar if nb == 2 =>', 'action::Type::UnsetVar if nb >> 1 == 1 =>'))
p('C08-double', 'C08', (FR, 'let mut buf = BytesMut::with_capacity(max_frame_size);', 'let mut buf = BytesMut::with_capacity(max_frame_size * 2);'))
p('C08-plus4', 'C08', (FR, 'if len <= self.max_frame_size {', 'if len <= self.max_frame_size + mem::size_of::<u32>() {'))
p('C09-abort', 'C09', (FR, '        let buf = write_frame(', '        let urgent = matches!(frame, Frame::AgentAck(ref ack) if ack.aborted);\n        let buf = write_frame('), (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size {', 'if !urgent && buf.len() - mem::size_of::<u32>() > self.max_frame_size {'))
p('C10-flush', 'C10', (FR, '        w.flush().await.map_err(|_| Io)?;', '        if buf.len() < self.max_frame_size {\n            w.flush().await.map_err(|_| Io)?;\n        }'))
p('C11-huge', 'C11', (FR, '            Err(TooBig)\n        }', '            Err(if len >> 24 != 0 { Invalid } else { TooBig })\n        }'))
p('C12-swallow', 'C12', (CO, 'Err(Status::TooBig) => self.send_disconnect(status_code, String::new()).await?,', 'Err(Status::TooBig) => 0,'))
p('C12-block', 'C12', (ER, '            _ => Disconnect::new(Status::Unknown, err.to_string()),\n', '            Error::Io(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {\n                Disconnect::new(Status::Normal, err.to_string())\n            }\n            _ => Disconnect::new(Status::Unknown, err.to_string()),\n'))
p('C14-all', 'C14', (HS, '    let capabilities = hello\n', '    if capabilities.is_empty() {\n        return Ok(Negotiated {\n            version,\n            max_frame_size,\n            capabilities: hello.capabilities.into_iter().collect(),\n        });\n    }\n    let capabilities = hello\n'))
p('C14-fields', 'C14', (VE, '    pub major: u8,\n    pub minor: u8,\n}', '    pub minor: u8,\n    pub major: u8,\n}'))
p('C38-fields', 'C38', (VE, '    pub major: u8,\n    pub minor: u8,\n}', '    pub minor: u8,\n    pub major: u8,\n}'))
p('C15-default', 'C15', (CO, 'if let Some(sz) = negotiated {', 'if let Some(sz) = negotiated.filter(|&sz| sz as usize <= crate::spop::MAX_FRAME_SIZE) {'))
p('C16-take', 'C16', (PR, 'let ack = Frame::ack(stream_id, frame_id, actions);', 'let ack = Frame::ack(stream_id, frame_id, actions.into_iter().take(255));'))
p('C16-dedup', 'C16', (PR, 'Ok(actions) => {\n', 'Ok(mut actions) => {\n                                actions.dedup();\n'))
p('C18-take', 'C18', (FG, 'let mut v = e.remove();', 'let mut v = std::mem::take(e.into_ref().value_mut());'))
p('C19-floor', 'C19', (PR, 'timeout(self.runtime.max_process_time, processing)', 'timeout(self.runtime.max_process_time.max(std::time::Duration::from_millis(10)), processing)'))
p('C20-ackio', 'C20', (CO, '                                    res => res?,\n', '                                    Err(Status::Io) if negotiated.is_none() => {\n                                        self.state = next;\n                                        continue;\n                                    }\n                                    res => res?,\n'))
p('C22-limit', 'C22', (AG, 'self.shutdown.tracker.wait().await;', 'let limit = std::time::Duration::from_secs(30);\n            let _ = tokio::time::timeout(limit, self.shutdown.tracker.wait()).await;'))
p('C22-handle', 'C22', (CO, 'Ok(frame) => state.handle_frame(frame).await,', 'Ok(frame) => match self.tok.run_until_cancelled(state.handle_frame(frame)).await {\n                            Some(handled) => handled,\n                            None => break,\n                        },'))
p('C23-kind', 'C23', (AG, '                        Err(err) => {\n', '                        Err(err) if err.kind() == std::io::ErrorKind::OutOfMemory => return Err(err.into()),\n                        Err(err) => {\n'))
p('C23-backoff', 'C23', (AG, '                            continue;\n', '                            tokio::time::sleep(std::time::Duration::from_secs(1)).await;\n                            continue;\n'))
p('C24-replace', 'C24', (AK, '            ack.actions.push(Action::SetVar {', '            let name = name.into();\n            ack.actions.retain(|a| !matches!(a, Action::SetVar { name: n, .. } if *n == name));\n            ack.actions.push(Action::SetVar {'), (AK, '                name: name.into(),\n                value: value.into(),', '                name,\n                value: value.into(),'))
p('C24-abortempty', 'C24', (AK, '            ack.aborted = true;', '            ack.aborted = !ack.actions.is_empty();'))
p('C25-closed', 'C25', (PC, '    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        self.0.poll_recv(cx)\n', '    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        if self.0.is_empty() && !self.0.is_closed() && self.0.sender_strong_count() > 1 {\n            return Poll::Pending;\n        }\n        self.0.poll_recv(cx)\n'))
p('C26-noroute', 'C26', (DI, 'if notify.fragmented {\n                        e.insert', 'if notify.fragmented && !notify.messages.is_empty() {\n                        e.insert'))
p('C26-rev', 'C26', (DI, 'for msg in notify.messages {', 'for msg in notify.messages.into_iter().rev() {'))
p('C27-same', 'C27', (RQ, '        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);', '        let (name, value) = (HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);\n        if hdrs.get(&name) != Some(&value) {\n            hdrs.append(name, value);\n        }'))
p('C27-last', 'C27', (RQ, 'if b.remaining() >= len {', 'if b.remaining() > len || len > 0 && b.remaining() == len {'))
p('C28-blocking', 'C28', (CN, 'runtime.service_maker.write().await.make().await?', 'runtime.service_maker.blocking_write().make().await?'))
p('C28-sleep', 'C28', (AG, '                            continue;\n', '                            std::thread::sleep(std::time::Duration::from_millis(100));\n                            continue;\n'))
p('C29-wrong', 'C29', (CO, 'let disconnect = Frame::agent_disconnect(status, msg);', 'let disconnect = Frame::haproxy_disconnect(status, msg);'))
p('C30-old', 'C30', (BL, '        self.supported_versions.insert(version);\n', '        if version.major >= 2 {\n            self.supported_versions.insert(version);\n        }\n'))
p('C30-cap60', 'C30', (RT, '            max_process_time,\n            service_maker', '            max_process_time: max_process_time.min(Duration::from_secs(3600)),\n            service_maker'))
p('C31-cached', 'C31', (RT, '    maker: S,\n', '    maker: S,\n    ready: bool,\n'), (RT, '                maker: make_service,', '                maker: make_service,\n                ready: false,'), (RT, '        poll_fn(|cx| self.maker.poll_ready(cx))\n            .await\n            .context("make service")?;\n', '        if !self.ready {\n            poll_fn(|cx| self.maker.poll_ready(cx))\n                .await\n                .context("make service")?;\n            self.ready = true;\n        }\n'))
p('C31-svcerr', 'C31', (PR, 'poll_fn(|cx| self.service.poll_ready(cx)).await?;', 'let _ = poll_fn(|cx| self.service.poll_ready(cx)).await;'))
p('C33-empty', 'C33', (B, '    let sz = buf.put_varint(b.len() as u64);\n    buf.put_slice(b);\n    sz + b.len()', '    if b.is_empty() {\n        buf.put_u8(0);\n        return 0;\n    }\n    let sz = buf.put_varint(b.len() as u64);\n    buf.put_slice(b);\n    sz + b.len()'))
p('C34-normal', 'C34', (HN, '                Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n', '                Frame::HaproxyDisconnect(Disconnect { status_code: 0, .. }) => Ok(None),\n                Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n'))
p('C37-take', 'C37', (D, "            .filter(|s| !s.is_empty())\n", "            .filter(|s| !s.is_empty())\n            .take(8)\n"))
p('C37-case', 'C37', (D, "            .map(|s| s.parse())\n", "            .map(|s| s.to_ascii_lowercase().parse())\n"))
p('C21-parent', 'C21', (AG, 'let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());', 'let parent = self.shutdown.token.clone();\n                    let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());'), (AG, '                        conn.serve().await\n', '                        let res = conn.serve().await;\n                        if let Err(crate::error::Error::Closed) = res {\n                            parent.cancel();\n                        }\n                        res\n'))
p('C36-neg', 'C36', (B, 'Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u64) + Typed::TYPE_SIZE', 'Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(if n == i32::MIN { n as u32 as u64 } else { n as u64 }) + Typed::TYPE_SIZE'))
p('C07-type', 'C07', (D, '    let (ty, md) = frame_type(&mut buf)\n        .zip(metadata(&mut buf))', '    let (ty, md) = Some(frame_type(&mut buf).unwrap_or(frame::Type::HaproxyDisconnect))\n        .zip(metadata(&mut buf))'))
p('C03-ipv6map', 'C03', (B, '            .map(Ipv6Addr::from)\n            .map(Typed::Ipv6),', '            .map(Ipv6Addr::from)\n            .map(|ip| ip.to_ipv4_mapped().map_or(Typed::Ipv6(ip), Typed::Ipv4)),'))
