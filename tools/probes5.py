D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CX, KV, MD, AGF, HP = 'spop/src/frame/codec.rs', 'spop/src/frame/kv.rs', 'spop/src/frame/metadata.rs', 'spop/src/frame/agent.rs', 'spop/src/frame/haproxy.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
HN = 'spop/src/handler.rs'
# cooperating places
p('C01-recur', 'C01', (D, '    pub fn version(&mut self) -> Result<Version> {\n', '    pub fn first_item(s: &str) -> &str {\n        &s[..s.find(\',\').unwrap_or(s.len() - 1)]\n    }\n\n    pub fn version(&mut self) -> Result<Version> {\n'), (D, "        s.split(',')\n            .map(|s| s.trim().parse())", "        let _ = Self::first_item(&s);\n        s.split(',')\n            .map(|s| s.trim().parse())"))
p('C01-sum', 'C01', (D, 'let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Hello {', 'let total = buf.remaining() as u16 * 2;\n    let _ = total;\n    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Hello {'))
p('C02-stop', 'C02', (B, '            self.has_remaining()\n                .then(|| Some((self.string()?, self.typed()?)))', '            (self.remaining() > 1)\n                .then(|| Some((self.string()?, self.typed()?)))'))
p('C02-mapwhile', 'C02', (D, '.kv_list()\n        .take(nb as usize)\n        .collect::<Option<Vec<_>>>()?;\n\n    (args.len() == nb as usize).then_some(', '.kv_list()\n        .take(nb as usize)\n        .map_while(|x| x)\n        .collect::<Vec<_>>();\n\n    (args.len() <= nb as usize).then_some('))
p('C02-flat', 'C02', (D, 'list_of_actions(buf)\n            .collect::<Option<Vec<_>>>()\n            .ok_or(Invalid)?', 'list_of_actions(buf).flatten().collect::<Vec<_>>()'))
p('C02-need2', 'C02', (D, 'if buf.has_remaining() {\n            Some(action(&mut buf))', 'if buf.remaining() >= 4 {\n            Some(action(&mut buf))'))
p('C03-i32abs', 'C03', (B, 'Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u64)', 'Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u32 as u64)'))
p('C03-boolflag', 'C03', (B, 'flags.contains(Flags::TRUE)', 'flags == Flags::TRUE'), (B, 'Flags::from_bits_truncate(b & Flags::MASK)', 'Flags::from_bits_retain(b & Flags::MASK)'))
p('C03-mask', 'C03', (B, 'Type::try_from_primitive(b & Type::MASK).ok()?', 'Type::try_from_primitive(b & Type::MASK & 0x0b).ok()?'))
p('C04-hello-ids', 'C04', (D, 'agent_ack(&mut buf, md).map(Frame::AgentAck)', 'agent_ack(&mut buf, Metadata { frame_id: md.frame_id & u32::MAX as u64, ..md }).map(Frame::AgentAck)'))
p('C04-frag', 'C04', (MD, 'self.flags.contains(Flags::FIN)', 'self.flags.bits() & 3 != 0'))
p('C05-empty-id', 'C05', (EN, 'if let Some(ref id) = hello.engine_id {', 'if let Some(id) = hello.engine_id.as_ref().filter(|s| !s.is_empty()) {'))
p('C05-msg-null', 'C05', (D, 'self.string(kv::MSG_KEY).unwrap_or_default()', 'self.string(kv::MSG_KEY).map(|s| s.trim_end().to_owned()).unwrap_or_default()'))
p('C05-status-mod', 'C05', (D, '.map(|n| u32::try_from(n).unwrap_or(Unknown as u32))', '.map(|n| if n < 256 { n as u32 } else { Unknown as u32 })'))
p('C06-nbset', 'C06', (D, 'action::Type::SetVar if nb == 3 =>', 'action::Type::SetVar if nb >= 3 =>'))
p('C06-wrap', 'C06', (EN, '        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args);', '        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args.into_iter().filter(|(k, _)| !k.is_empty()));'))
p('C07-and', 'C07', (D, 'frame::Type::AgentDisconnect if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::AgentDisconnect if md.stream_id.wrapping_add(md.frame_id) == 0'))
p('C07-ackany', 'C07', (D, 'frame::Type::AgentAck if md.frame_id != 0 =>', 'frame::Type::AgentAck if md.frame_id != 0 || md.aborted() =>'))
p('C08-mul', 'C08', (FR, 'if len <= self.max_frame_size {', 'if len / 1024 <= self.max_frame_size / 1024 {'))
p('C08-args', 'C08', (D, '        .collect::<Option<Vec<_>>>()?;\n\n    (args.len()', '        .fold(Some(Vec::with_capacity(nb as usize * 4096)), |v: Option<Vec<_>>, x| {\n            v.and_then(|mut v| {\n                v.push(x?);\n                Some(v)\n            })\n        })?;\n\n    (args.len()'))
p('C09-cap', 'C09', (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size {', 'if (buf.len() - mem::size_of::<u32>()) & !3 > self.max_frame_size {'))
p('C09-frames', 'C09', (FR, 'let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);', 'let last = matches!(frame, Frame::AgentHello(_));\n        let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);'), (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size {', 'if !last && buf.len() - mem::size_of::<u32>() > self.max_frame_size {'))
p('C10-bigflush', 'C10', (FR, 'w.flush().await.map_err(|_| Io)?;', 'if buf.len() < 8192 {\n            w.flush().await.map_err(|_| Io)?;\n        }'))
p('C11-disc', 'C11', (D, 'self.uint(kv::MAX_FRAME_SIZE_KEY)\n            .ok_or(NoFrameSize)', 'self.uint(kv::MAX_FRAME_SIZE_KEY)\n            .filter(|n| *n > 0)\n            .ok_or(NoFrameSize)'))
p('C12-utf8', 'C12', (ER, '_ => Disconnect::new(Status::Unknown, err.to_string()),', 'Error::Closed => Disconnect::new(Status::Normal, err.to_string()),\n            _ => Disconnect::new(Status::Unknown, err.to_string()),'))
p('C12-cancel', 'C12', (CO, '                        Err(err) => {\n                            self.fail(err).await?;', '                        Err(_) if self.tok.is_cancelled() => {\n                            break;\n                        }\n                        Err(err) => {\n                            self.fail(err).await?;'))
p('C12-io', 'C12', (CO, 'Err(status) => Err(status.into()),', 'Err(Status::Timeout) => return Ok(()),\n                        Err(status) => Err(status.into()),'))
p('C13-static', 'C13', (CN, '    async fn handle_frame(self, frame: Frame) -> Result<(State<S, T>, Option<Frame>)> {\n', '    async fn handle_frame(self, frame: Frame) -> Result<(State<S, T>, Option<Frame>)> {\n        if let Frame::AgentHello(hello) = frame {\n            return self.handshake(HaproxyHello { supported_versions: vec![hello.version], max_frame_size: hello.max_frame_size, capabilities: hello.capabilities, healthcheck: None, engine_id: None }).await;\n        }\n'))
p('C13-unknown-ignored', 'C13', (PR, "            _ => Err(Invalid).context(\"unexpected frame\"),", "            Frame::AgentAck(ack) if ack.actions.is_empty() => Ok((self.into(), None)),\n            _ => Err(Invalid).context(\"unexpected frame\"),"))
p('C14-cmp', 'C14', (HS, 'hello.supported_versions.sort();', 'hello.supported_versions.sort_by_key(|v| v.minor);'))
p('C14-capsize', 'C14', (HS, 'let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);', 'let max_frame_size = if hello.max_frame_size == 0 {\n        max_frame_size\n    } else {\n        cmp::min(hello.max_frame_size, max_frame_size)\n    };'))
p('C15-hc', 'C15', (CO, 'Frame::AgentHello(ref hello) => Some(hello.max_frame_size),', 'Frame::AgentHello(ref hello) if !hello.capabilities.is_empty() => Some(hello.max_frame_size),'))
p('C15-plus', 'C15', (CX, 'self.framer = Framer::new(max_frame_size);', 'self.framer = Framer::new(max_frame_size.max(256));'))
p('C16-sort', 'C16', (PR, 'let ack = Frame::ack(stream_id, frame_id, actions);', 'let mut actions = actions;\n                                actions.reverse();\n                                let ack = Frame::ack(stream_id, frame_id, actions);'))
p('C16-long', 'C16', (PR, 'let ack = Frame::ack(stream_id, frame_id, actions);', 'let mut actions = actions;\n                                actions.truncate(1024);\n                                let ack = Frame::ack(stream_id, frame_id, actions);'))
p('C17-default', 'C17', (CN, '''                handshaked
                    .supports_fragmentation()
                    .then(Reassembly::default),''', '''                runtime_supports.then(Reassembly::default),'''), (CN, '        let handshaked = {', '        let runtime_supports = runtime.capabilities.contains(&crate::spop::Capability::Fragmentation);\n        let handshaked = {'))
p('C17-direct', 'C17', (PR, 'reassembly.reassemble(fragmented, stream_id, frame_id, messages)?', 'if messages.len() > 16 {\n                        Some(messages)\n                    } else {\n                        reassembly.reassemble(fragmented, stream_id, frame_id, messages)?\n                    }'))
p('C18-shared', 'C18', (RT, '    pub max_process_time: Duration,\n    pub service', '    pub max_process_time: Duration,\n    pub reassembly: crate::spop::Reassembly<crate::spop::Message>,\n    pub service'), (RT, '            max_process_time,\n            service_maker', '            max_process_time,\n            reassembly: Default::default(),\n            service_maker'), (PR, 'reassembly.reassemble(', 'let _ = reassembly;\n                    self.runtime.reassembly.reassemble('))
p('C18-insertfirst', 'C18', (FG, '                    e.get_mut().append(&mut value);', '                    let mut v = std::mem::take(e.get_mut());\n                    value.append(&mut v);\n                    *e.get_mut() = value;'))
p('C19-perframe', 'C19', (PR, 'timeout(self.runtime.max_process_time, processing)', 'timeout(if fragmented { self.runtime.max_process_time } else { self.runtime.max_process_time * 2 }, processing)'))
p('C19-inner', 'C19', (PR, '                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                        self.service.call(msgs).await\n                    };', '                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                        Ok::<_, S::Error>(self.service.call(msgs))\n                    };'), (PR, 'Ok(res) => match res {\n                            Ok(actions) => {', 'Ok(res) => match match res {\n                            Ok(fut) => fut.await,\n                            Err(err) => Err(err),\n                        } {\n                            Ok(actions) => {'))
p('C20-tok', 'C20', (CO, '''                        Err(err) => {
                            self.fail(err).await?;
                            break;
                        }''', '''                        Err(err) => {
                            let again = err.status() == Some(Status::Timeout);
                            self.fail(err).await?;
                            if again {
                                let _ = self.codec.read_frame().await;
                            }
                            break;
                        }'''))
p('C20-retry', 'C20', (CO, '                                    res => res?,\n                                };\n                                if let', '                                    Err(Status::Io) => {\n                                        self.fail(Status::Io.into()).await?;\n                                        break;\n                                    }\n                                    res => res?,\n                                };\n                                if let'))
p('C21-parent', 'C21', (AG, 'self.shutdown.token.child_token()', 'self.shutdown.token.clone()'))
p('C22-timeoutwait', 'C22', (AG, 'self.shutdown.tracker.wait().await;', 'let _ = tokio::time::timeout(std::time::Duration::from_secs(30), self.shutdown.tracker.wait()).await;'))
p('C22-biased2', 'C22', (CO, 'Ok(frame) => state.handle_frame(frame).await,', 'Ok(frame) => {\n                            let tok = self.tok.clone();\n                            select! {\n                                res = state.handle_frame(frame) => res,\n                                _ = tok.cancelled() => break,\n                            }\n                        }'))
p('C23-backoff', 'C23', (AG, '                            continue;\n', '                            if err.kind() == std::io::ErrorKind::PermissionDenied {\n                                break;\n                            }\n                            continue;\n'))
p('C24-emptyabort', 'C24', (AK, '            ack.aborted = true;', '            ack.aborted = !ack.actions.is_empty();'))
p('C24-dropabort', 'C24', (AK, '        let _ = self.complete();', '        let _ = self.abort();'))
p('C24-dedupvar', 'C24', (AK, '            ack.actions.push(Action::UnsetVar {\n                scope,\n                name: name.into(),\n            });', '            let name = name.into();\n            ack.actions.retain(|a| !matches!(a, Action::SetVar { name: n, .. } if *n == name));\n            ack.actions.push(Action::UnsetVar { scope, name });'))
p('C25-closedcheck', 'C25', (PC, '        self.0.poll_recv(cx)\n', '        if self.0.is_closed() {\n            return Poll::Ready(None);\n        }\n        self.0.poll_recv(cx)\n'))
p('C25-isempty', 'C25', (PC, '        self.0.poll_recv(cx)\n', '        if self.0.is_empty() {\n            return Poll::Pending;\n        }\n        self.0.poll_recv(cx)\n'))
p('C26-skip', 'C26', (DI, 'if sender.send(msg).is_err() {\n                break;\n            }', 'if !msg.name.is_empty() && sender.send(msg).is_err() {\n                break;\n            }'))
p('C26-keepfail', 'C26', (DI, '                    self.processing.send((acker, receiver))?;\n\n                    if notify.fragmented {\n                        e.insert(sender.clone());\n                    }', '                    if notify.fragmented {\n                        e.insert(sender.clone());\n                    }\n\n                    self.processing.send((acker, receiver))?;'))
p('C27-mapdup', 'C27', (RQ, 'if k.is_empty() && v.is_empty()', 'if k.is_empty() && v.len() <= 1'))
p('C29-hello2', 'C29', (PR, "            _ => Err(Invalid).context(\"unexpected frame\"),", "            Frame::HaproxyHello(hello) if hello.healthcheck == Some(true) => Ok((self.into(), Some(Frame::AgentHello(crate::spop::AgentHello { version: crate::spop::Version::V2_0, max_frame_size: hello.max_frame_size, capabilities: vec![] })))),\n            _ => Err(Invalid).context(\"unexpected frame\"),"))
p('C30-static', 'C30', (RT, '            max_frame_size,\n            max_process_time,\n            service', '            max_frame_size: max_frame_size & !0xf,\n            max_process_time,\n            service'))
p('C30-async', 'C30', (BL, '        self.capabilities.extend(caps);', '        self.capabilities = caps.into_iter().chain(self.capabilities.drain()).take(2).collect();'))
p('C31-err', 'C31', (PR, 'poll_fn(|cx| self.service.poll_ready(cx)).await?;', 'let _ = poll_fn(|cx| self.service.poll_ready(cx)).await;'))
p('C31-once', 'C31', (PR, 'poll_fn(|cx| self.service.poll_ready(cx)).await?;', 'poll_fn(|cx| match self.service.poll_ready(cx) {\n                            std::task::Poll::Pending if msgs.is_empty() => std::task::Poll::Ready(Ok(())),\n                            r => r,\n                        })\n                        .await?;'))
p('C33-cap', 'C33', (B, 'sz + b.len() + Typed::TYPE_SIZE', 'sz + b.len().max(1) + Typed::TYPE_SIZE'))
p('C34-frag', 'C34', (HN, 'Frame::HaproxyNotify(HaproxyNotify { messages, .. }) => Ok(Some(messages)),', 'Frame::HaproxyNotify(HaproxyNotify { messages, .. }) => Ok(Some(messages)),\n            Frame::HaproxyHello(_) => Ok(None),'))
p('C35-size2', 'C35', (V, '0x00004081020408f0..0x00204081020408f0 => 8,', '0x00004081020408f0..=0x00204081020408f0 => 8,'), (V, '0x00204081020408f0..0x10204081020408f0 => 9,', '0x00204081020408f1..0x10204081020408f0 => 9,'))
p('C37-trimstart', 'C37', (D, '.map(|s| s.trim())', '.map(|s| s.trim_start())'))
p('C37-empty', 'C37', (D, '.filter(|s| !s.is_empty())', '.filter(|s| s.len() > 1)'))
p('C38-ack', 'C38', (AGF, 'aborted: false,\n            stream_id,', 'aborted: frame_id == 0,\n            stream_id,'))
