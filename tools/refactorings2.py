CONN = 'spoa/src/conn.rs'
CON = 'spoa/src/state/connect.rs'
HS = 'spoa/src/state/handshake.rs'
PRO = 'spoa/src/state/process.rs'
ST = 'spoa/src/state/state.rs'
ACK = 'spoa/src/runtime/acker.rs'
DIS = 'spoa/src/runtime/dispatch.rs'
PRC = 'spoa/src/runtime/processor.rs'
RT = 'spoa/src/runtime/runtime.rs'
BLD = 'spoa/src/runtime/builder.rs'
AG = 'spoa/src/agent.rs'
ERR = 'spoa/src/error.rs'
REQ = 'spoa/src/req.rs'
FRG = 'spop/src/frame/fragment.rs'
FR = 'spop/src/frame/framer.rs'
COD = 'spop/src/frame/codec.rs'

# --- framer
r('fr/early', (FR, "        if len <= self.max_frame_size {\n            let mut buf = read_frame(r, self.max_frame_size, len).await?;\n\n            trace!(buf=%HexView::new(&buf));\n\n            buf.get_frame()\n        } else {\n            Err(TooBig)\n        }", "        if len > self.max_frame_size {\n            return Err(TooBig);\n        }\n\n        let mut buf = read_frame(r, self.max_frame_size, len).await?;\n        trace!(buf=%HexView::new(&buf));\n        buf.get_frame()"))
r('fr/match', (FR, "        let len = r.read_u32().await.map_err(|_| Io)? as usize;\n", "        let len = match r.read_u32().await {\n            Ok(len) => usize::try_from(len).map_err(|_| TooBig)?,\n            Err(_) => return Err(Io),\n        };\n"))
r('fr/prefix-bytes', (FR, "        let len = r.read_u32().await.map_err(|_| Io)? as usize;\n", "        let mut prefix = [0; 4];\n        r.read_exact(&mut prefix).await.map_err(|_| Io)?;\n        let len = u32::from_be_bytes(prefix) as usize;\n"))
r('fr/cap-len', (FR, "    let mut buf = BytesMut::with_capacity(max_frame_size);\n    buf.resize(len, 0);\n", "    let mut buf = BytesMut::zeroed(len.min(max_frame_size));\n"))
r('fr/vec', (FR, "    let mut buf = BytesMut::with_capacity(max_frame_size);\n    buf.resize(len, 0);\n\n    r.read_exact(&mut buf).await.map_err(|_| Io)?;\n\n    Ok(buf.freeze())", "    let _ = max_frame_size;\n    let mut buf = vec![0; len];\n\n    r.read_exact(&mut buf).await.map_err(|_| Io)?;\n\n    Ok(buf.into())"))
r('fr/write-len', (FR, "        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {\n            return Err(TooBig);\n        }\n", "        let payload = &buf[mem::size_of::<u32>()..];\n        if payload.len() > self.max_frame_size {\n            return Err(TooBig);\n        }\n"))
r('fr/write-add', (FR, "        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {\n            return Err(TooBig);\n        }\n\n        pin_mut!(w);\n\n        w.write_all(&buf).await.map_err(|_| Io)?;\n        w.flush().await.map_err(|_| Io)?;\n\n        Ok(buf.len())", "        pin_mut!(w);\n\n        if buf.len() - 4 <= self.max_frame_size {\n            w.write_all(&buf[..]).await.map_err(|_| Io)?;\n            w.flush().await.map_err(|_| Io)?;\n\n            Ok(buf.len())\n        } else {\n            Err(TooBig)\n        }"))
r('fr/write-and', (FR, "        w.write_all(&buf).await.map_err(|_| Io)?;\n        w.flush().await.map_err(|_| Io)?;\n\n        Ok(buf.len())", "        match w.write_all(&buf).await {\n            Ok(()) => w.flush().await.map(|_| buf.len()).map_err(|_| Io),\n            Err(_) => Err(Io),\n        }"))
r('fr/len-first', (FR, "    buf.put_u32(0);\n    buf.put_frame(frame);\n\n    let len = (buf.len() - mem::size_of::<u32>()) as u32;\n\n    (&mut buf[0..4]).put_u32(len);\n", "    buf.put_slice(&[0; 4]);\n    buf.put_frame(frame);\n\n    let len = buf.len() as u32 - 4;\n\n    buf[..4].copy_from_slice(&len.to_be_bytes());\n"))
r('fr/two-bufs', (FR, "    buf.put_u32(0);\n    buf.put_frame(frame);\n\n    let len = (buf.len() - mem::size_of::<u32>()) as u32;\n\n    (&mut buf[0..4]).put_u32(len);\n", "    let mut payload = BytesMut::new();\n    payload.put_frame(frame);\n\n    buf.put_u32(payload.len() as u32);\n    buf.put_slice(&payload);\n"))

# --- fragment table
r('frg/match-tuple', (FRG, "        match self.0.entry(key) {\n            Entry::Occupied(mut e) => {\n                if fragmented {\n                    e.get_mut().append(&mut value);\n\n                    Ok(None)\n                } else {\n                    let mut v = e.remove();\n\n                    v.append(&mut value);\n\n                    Ok(Some(v))\n                }\n            }\n            Entry::Vacant(e) => {\n                if fragmented {\n                    e.insert(value);\n\n                    Ok(None)\n                } else {\n                    Ok(Some(value))\n                }\n            }\n        }", "        match (self.0.entry(key), fragmented) {\n            (Entry::Occupied(mut e), true) => {\n                e.get_mut().extend(value);\n                Ok(None)\n            }\n            (Entry::Occupied(e), false) => {\n                let mut v = e.remove();\n                v.extend(value.drain(..));\n                Ok(Some(v))\n            }\n            (Entry::Vacant(e), true) => {\n                e.insert(value);\n                Ok(None)\n            }\n            (Entry::Vacant(_), false) => Ok(Some(value)),\n        }"))
r('frg/or_default', (FRG, "        match self.0.entry(key) {\n            Entry::Occupied(mut e) => {\n                if fragmented {\n                    e.get_mut().append(&mut value);\n\n                    Ok(None)\n                } else {\n                    let mut v = e.remove();\n\n                    v.append(&mut value);\n\n                    Ok(Some(v))\n                }\n            }\n            Entry::Vacant(e) => {\n                if fragmented {\n                    e.insert(value);\n\n                    Ok(None)\n                } else {\n                    Ok(Some(value))\n                }\n            }\n        }", "        if fragmented {\n            self.0.entry(key).or_default().append(&mut value);\n            return Ok(None);\n        }\n\n        match self.0.remove(&key) {\n            Some((_, mut v)) => {\n                v.append(&mut value);\n                Ok(Some(v))\n            }\n            None => Ok(Some(value)),\n        }"), (FRG, "use dashmap::{DashMap, Entry};", "use dashmap::DashMap;"))
r('frg/remove-map', (FRG, "                    let mut v = e.remove();\n\n                    v.append(&mut value);\n\n                    Ok(Some(v))", "                    let v = e.remove().into_iter().chain(value).collect();\n\n                    Ok(Some(v))"))
r('frg/handler-helper', (FRG, "            Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))\n            }", "            Frame::HaproxyDisconnect(disconnect) => Err(reason(&disconnect)),"), (FRG, "            Frame::AgentDisconnect(Disconnect { status_code, .. }) => {\n                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))\n            }", "            Frame::AgentDisconnect(disconnect) => Err(reason(&disconnect)),"), (FRG, "#[derive(Clone, Debug)]\npub struct Table", "fn reason(disconnect: &Disconnect) -> Error {\n    match Error::try_from(disconnect.status_code) {\n        Ok(err) => err,\n        Err(_) => Error::Unknown,\n    }\n}\n\n#[derive(Clone, Debug)]\npub struct Table"))
r('frg/handler-iflet', (FRG, "            Frame::HaproxyNotify(Notify {\n                fragmented,\n                stream_id,\n                frame_id,\n                messages,\n            }) => self\n                .0\n                .reassemble(fragmented, (stream_id, frame_id), messages),", "            Frame::HaproxyNotify(n) => {\n                self.reassemble(n.fragmented, n.stream_id, n.frame_id, n.messages)\n            }"), (FRG, "haproxy::Notify, ", ""))

# --- connection
r('conn/is-disc', (CONN, "            if matches!(state, State::Disconnecting) {\n                break;\n            }", "            if let State::Disconnecting = state {\n                return Ok(());\n            }"))
r('conn/reply-helper', (CONN, "                            if let Some(frame) = reply {\n                                let negotiated = match frame {\n                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),\n                                    _ => None,\n                                };\n                                match self.codec.write_frame(frame).await {\n                                    // nothing was sent, HAProxy has to know why\n                                    Err(Status::TooBig) => {\n                                        self.fail(Status::TooBig.into()).await?;\n                                        break;\n                                    }\n                                    res => res?,\n                                };\n                                if let Some(sz) = negotiated {\n                                    self.codec.set_max_frame_size(sz as usize);\n                                }\n                            }\n                            self.state = next;", "                            if let Some(frame) = reply {\n                                if !self.reply(frame).await? {\n                                    break;\n                                }\n                            }\n                            self.state = next;"),
  (CONN, "    async fn send_disconnect(", "    /// Sends a reply; false if it could not be sent and the connection was closed.\n    async fn reply(&mut self, frame: Frame) -> Result<bool> {\n        let negotiated = if let Frame::AgentHello(ref hello) = frame {\n            Some(hello.max_frame_size)\n        } else {\n            None\n        };\n        match self.codec.write_frame(frame).await {\n            Ok(_) => {}\n            Err(Status::TooBig) => {\n                self.fail(Status::TooBig.into()).await?;\n                return Ok(false);\n            }\n            Err(err) => return Err(err.into()),\n        }\n        if let Some(sz) = negotiated {\n            self.codec.set_max_frame_size(sz as usize);\n        }\n        Ok(true)\n    }\n\n    async fn send_disconnect("))
r('conn/handled-andthen', (CONN, "                    let handled = match frame {\n                        Ok(frame) => state.handle_frame(frame).await,\n                        Err(status) => Err(status.into()),\n                    };\n\n                    match handled {", "                    let handled = async {\n                        let frame = frame?;\n                        state.handle_frame(frame).await\n                    }\n                    .await;\n\n                    match handled {"))
r('conn/while', (CONN, "        loop {\n            let state = mem::replace(&mut self.state, State::Disconnecting);\n            if matches!(state, State::Disconnecting) {\n                break;\n            }\n", "        while !matches!(self.state, State::Disconnecting) {\n            let state = mem::replace(&mut self.state, State::Disconnecting);\n"))
r('conn/fail-if', (CONN, "        match self.send_disconnect(status_code, message).await {\n            // the description does not fit, the status code has to\n            Err(Status::TooBig) => self.send_disconnect(status_code, String::new()).await?,\n            res => res?,\n        };\n        self.tok.cancel();\n        Ok(())", "        let mut sent = self.send_disconnect(status_code, message).await;\n        if sent == Err(Status::TooBig) {\n            sent = self.send_disconnect(status_code, String::new()).await;\n        }\n        sent?;\n        self.tok.cancel();\n        Ok(())"))
r('conn/err-match', (CONN, "                        Err(err) => {\n                            self.fail(err).await?;\n                            break;\n                        }\n                    }\n                }\n            }\n        }\n\n        Ok(())", "                        Err(err) => return self.fail(err).await,\n                    }\n                }\n            }\n        }\n\n        Ok(())"))
r('conn/disc-inline', (CONN, "                    self.disconnect(Status::Normal, \"agent is shutting down\").await?;\n                    break;", "                    return self.disconnect(Status::Normal, \"agent is shutting down\").await;"))
r('conn/disc-helper', (CONN, "        let disconnect = Frame::agent_disconnect(status, msg);\n        self.codec.write_frame(disconnect).await?;\n        Ok(())", "        self.send_disconnect(status as u32, msg.into()).await?;\n        Ok(())"))
r('conn/new-inline', (CONN, "        let framer = Framer::new(runtime.max_frame_size);\n        let codec = Codec::buffered(io, framer);\n        let state = State::new(runtime);\n\n        Connection { codec, state, tok }", "        Connection {\n            codec: Codec::buffered(io, Framer::new(runtime.max_frame_size)),\n            state: State::new(runtime),\n            tok,\n        }"))
r('conn/state-early', (CONN, "                            self.state = next;\n                        }\n", "                            let _ = mem::replace(&mut self.state, next);\n                        }\n"))

# --- connecting, negotiation
r('con/match', (CON, "        if let Frame::HaproxyHello(hello) = frame {\n            self.handshake(hello).await\n        } else {\n            Err(Error::Invalid).context(\"expected HaproxyHello frame\")\n        }", "        match frame {\n            Frame::HaproxyHello(hello) => self.handshake(hello).await,\n            _ => Err(Error::Invalid).context(\"expected HaproxyHello frame\"),\n        }"))
r('con/letelse', (CON, "        if let Frame::HaproxyHello(hello) = frame {\n            self.handshake(hello).await\n        } else {\n            Err(Error::Invalid).context(\"expected HaproxyHello frame\")\n        }", "        let Frame::HaproxyHello(hello) = frame else {\n            return Err(Error::Invalid).context(\"expected HaproxyHello frame\");\n        };\n\n        self.handshake(hello).await"))
r('con/health-eq', (CON, "        let is_healthcheck = hello.healthcheck.unwrap_or_default();", "        let is_healthcheck = hello.healthcheck == Some(true);"))
r('con/health-return', (CON, "        let next = if is_healthcheck {\n            State::Disconnecting\n        } else {\n            let service = runtime.service_maker.write().await.make().await?;\n\n            Processing::new(\n                runtime,\n                service,\n                handshaked\n                    .supports_fragmentation()\n                    .then(Reassembly::default),\n            )\n            .into()\n        };\n\n        Ok((next, Some(frame)))", "        if is_healthcheck {\n            return Ok((State::Disconnecting, Some(frame)));\n        }\n\n        let mut maker = runtime.service_maker.write().await;\n        let service = maker.make().await?;\n        drop(maker);\n        let reassembly = if handshaked.supports_fragmentation() {\n            Some(Reassembly::default())\n        } else {\n            None\n        };\n\n        Ok((\n            State::Processing(Processing::new(runtime, service, reassembly)),\n            Some(frame),\n        ))"))
r('con/size-min', (CON, "                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),", "                runtime.max_frame_size.min(u32::MAX as usize) as u32,"))
r('hs/filter-max', (HS, "    hello.supported_versions.sort();\n    supported_versions.sort();\n\n    let version = hello\n        .supported_versions\n        .into_iter()\n        .rev()\n        .find(|version| supported_versions.iter().rev().any(|v| v == version))\n        .ok_or(BadVersion)?;", "    let version = hello\n        .supported_versions\n        .into_iter()\n        .filter(|version| supported_versions.contains(version))\n        .max()\n        .ok_or(BadVersion)?;"), (HS, "    mut supported_versions: Vec<Version>", "    supported_versions: Vec<Version>"), (HS, "    mut hello: HaproxyHello", "    hello: HaproxyHello"))
r('hs/loop', (HS, "    hello.supported_versions.sort();\n    supported_versions.sort();\n\n    let version = hello\n        .supported_versions\n        .into_iter()\n        .rev()\n        .find(|version| supported_versions.iter().rev().any(|v| v == version))\n        .ok_or(BadVersion)?;", "    let mut best = None;\n    for version in hello.supported_versions {\n        if supported_versions.contains(&version) && best < Some(version) {\n            best = Some(version);\n        }\n    }\n    let version = best.ok_or(BadVersion)?;"), (HS, "    mut supported_versions: Vec<Version>", "    supported_versions: Vec<Version>"), (HS, "    mut hello: HaproxyHello", "    hello: HaproxyHello"))
r('hs/ours', (HS, "    let version = hello\n        .supported_versions\n        .into_iter()\n        .rev()\n        .find(|version| supported_versions.iter().rev().any(|v| v == version))\n        .ok_or(BadVersion)?;", "    let version = supported_versions\n        .iter()\n        .rev()\n        .find(|version| hello.supported_versions.contains(version))\n        .copied()\n        .ok_or(BadVersion)?;"))
r('hs/sort-desc', (HS, "    hello.supported_versions.sort();\n    supported_versions.sort();\n\n    let version = hello\n        .supported_versions\n        .into_iter()\n        .rev()\n", "    hello.supported_versions.sort_by(|a, b| b.cmp(a));\n    supported_versions.sort();\n\n    let version = hello\n        .supported_versions\n        .into_iter()\n"))
r('hs/caps-filter', (HS, "        .into_iter()\n        .collect::<HashSet<_>>()\n        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<Vec<_>>();", "        .into_iter()\n        .filter(|cap| capabilities.contains(cap))\n        .collect::<Vec<_>>();"))
r('hs/caps-retain', (HS, "    let capabilities = hello\n        .capabilities\n        .into_iter()\n        .collect::<HashSet<_>>()\n        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<Vec<_>>();", "    let mut common: HashSet<Capability> = hello.capabilities.into_iter().collect();\n    common.retain(|cap| capabilities.contains(cap));\n    let capabilities = common;"))
r('hs/caps-loop', (HS, "    let capabilities = hello\n        .capabilities\n        .into_iter()\n        .collect::<HashSet<_>>()\n        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<Vec<_>>();", "    let ours = capabilities;\n    let mut capabilities = HashSet::new();\n    for cap in hello.capabilities {\n        if ours.contains(&cap) {\n            capabilities.insert(cap);\n        }\n    }"))
r('hs/size-if', (HS, "    let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);", "    let max_frame_size = if hello.max_frame_size < max_frame_size {\n        hello.max_frame_size\n    } else {\n        max_frame_size\n    };"), (HS, "use std::cmp;\n", ""))
r('hs/size-min', (HS, "cmp::min(hello.max_frame_size, max_frame_size)", "max_frame_size.min(hello.max_frame_size)"), (HS, "use std::cmp;\n", ""))
r('hs/supports-any', (HS, "        self.capabilities.contains(&Capability::Fragmentation)", "        self.capabilities\n            .iter()\n            .any(|cap| *cap == Capability::Fragmentation)"))
r('hs/supports-helper', (HS, "        self.capabilities.contains(&Capability::Fragmentation)", "        self.supports(Capability::Fragmentation)"), (HS, "        self.capabilities.contains(&Capability::Async)", "        self.supports(Capability::Async)"), (HS, "impl Negotiated {\n", "impl Negotiated {\n    fn supports(&self, cap: Capability) -> bool {\n        self.capabilities.contains(&cap)\n    }\n\n"))

# --- processing
r('pro/letelse', (PRO, "                if let Some(msgs) = msgs {\n                    let processing", "                let Some(msgs) = msgs else {\n                    return Ok((self.into(), None));\n                };\n                {\n                    let processing"), (PRO, "                        Err(_) => Err(Timeout).context(\"process messages\"),\n                    }\n                } else {\n                    Ok((self.into(), None))\n                }", "                        Err(_) => Err(Timeout).context(\"process messages\"),\n                    }\n                }"))
r('pro/match-reasm', (PRO, "                let msgs = if let Some(ref reassembly) = self.reassembly {\n                    reassembly.reassemble(fragmented, stream_id, frame_id, messages)?\n                } else if fragmented {\n                    return Err(FragmentNotSupported).context(\"fragmentation was not negotiated\");\n                } else {\n                    Some(messages)\n                };", "                let msgs = match self.reassembly {\n                    Some(ref reassembly) => {\n                        reassembly.reassemble(fragmented, stream_id, frame_id, messages)?\n                    }\n                    None if fragmented => {\n                        return Err(FragmentNotSupported)\n                            .context(\"fragmentation was not negotiated\")\n                    }\n                    None => Some(messages),\n                };"))
r('pro/flat', (PRO, "                    match timeout(self.runtime.max_process_time, processing).await {\n                        Ok(res) => match res {\n                            Ok(actions) => {\n                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                Ok((self.into(), Some(ack)))\n                            }\n                            Err(err) => Err(Unknown).context(err.to_string()),\n                        },\n                        Err(_) => Err(Timeout).context(\"process messages\"),\n                    }", "                    let limit = self.runtime.max_process_time;\n                    match timeout(limit, processing).await {\n                        Ok(Ok(actions)) => Ok((\n                            self.into(),\n                            Some(Frame::ack(stream_id, frame_id, actions)),\n                        )),\n                        Ok(Err(err)) => Err(Unknown).context(err.to_string()),\n                        Err(_) => Err(Timeout).context(\"process messages\"),\n                    }"))
r('pro/helper', (PRO, "                    let processing = async {\n                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                        self.service.call(msgs).await\n                    };\n", "                    let processing = process(&mut self.service, msgs);\n"), (PRO, "impl<S, T> AsyncHandler<S, T> for Processing", "async fn process<V>(service: &mut V, msgs: Vec<Message>) -> std::result::Result<V::Response, V::Error>\nwhere\n    V: Service<Vec<Message>>,\n{\n    poll_fn(|cx| service.poll_ready(cx)).await?;\n    service.call(msgs).await\n}\n\nimpl<S, T> AsyncHandler<S, T> for Processing"))
r('pro/select', (PRO, "                    let processing = async {\n                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                        self.service.call(msgs).await\n                    };\n", "                    let processing = async {\n                        match poll_fn(|cx| self.service.poll_ready(cx)).await {\n                            Ok(()) => self.service.call(msgs).await,\n                            Err(err) => Err(err),\n                        }\n                    };\n"))
r('pro/state', (ST, "            State::Connecting(connecting) => connecting.handle_frame(frame).await,\n            State::Processing(processing) => processing.handle_frame(frame).await,\n            State::Disconnecting => Ok((State::Disconnecting, None)),", "            State::Disconnecting => Ok((self, None)),\n            State::Processing(processing) => AsyncHandler::handle_frame(processing, frame).await,\n            State::Connecting(connecting) => AsyncHandler::handle_frame(connecting, frame).await,"))

# --- acker, dispatcher, processor
r('ack/oknone', (ACK, "        if let Some(Inner(ack, sender)) = self.0.take() {\n            sender.send(ack).map_err(|_| Closed)\n        } else {\n            Err(Closed)\n        }\n    }\n\n    pub fn abort", "        let Inner(ack, sender) = self.0.take().ok_or(Closed)?;\n\n        match sender.send(ack) {\n            Ok(()) => Ok(()),\n            Err(_) => Err(Closed),\n        }\n    }\n\n    pub fn abort"))
r('ack/finish', (ACK, "        if let Some(Inner(ack, sender)) = self.0.take() {\n            sender.send(ack).map_err(|_| Closed)\n        } else {\n            Err(Closed)\n        }\n    }\n\n    pub fn abort(&mut self) -> Result<()> {\n        if let Some(Inner(mut ack, sender)) = self.0.take() {\n            ack.aborted = true;\n            sender.send(ack).map_err(|_| Closed)\n        } else {\n            Err(Closed)\n        }\n    }", "        self.finish(false)\n    }\n\n    pub fn abort(&mut self) -> Result<()> {\n        self.finish(true)\n    }\n\n    fn finish(&mut self, aborted: bool) -> Result<()> {\n        let Some(Inner(mut ack, sender)) = self.0.take() else {\n            return Err(Closed);\n        };\n        ack.aborted |= aborted;\n        sender.send(ack).map_err(|_| Closed)\n    }"))
r('ack/drop-if', (ACK, "        let _ = self.complete();", "        if self.0.is_some() {\n            let _ = self.complete();\n        }"))
r('ack/drop-inline', (ACK, "        let _ = self.complete();", "        if let Some(Inner(ack, sender)) = self.0.take() {\n            let _ = sender.send(ack);\n        }"))
r('ack/abort-mark', (ACK, "        if let Some(Inner(mut ack, sender)) = self.0.take() {\n            ack.aborted = true;\n            sender.send(ack).map_err(|_| Closed)\n        } else {\n            Err(Closed)\n        }", "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.aborted = true;\n        }\n        self.complete()"))
r('ack/push-helper', (ACK, "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::UnsetVar {\n                scope,\n                name: name.into(),\n            });\n        }\n    }", "        self.push(Action::unset_var(scope, name));\n    }\n\n    fn push(&mut self, action: Action) {\n        if let Some(inner) = self.0.as_mut() {\n            inner.0.actions.push(action);\n        }\n    }"))
r('dis/get', (DIS, "                    let sender = if notify.fragmented {\n                        e.get().clone()\n                    } else {\n                        e.remove()\n                    };\n\n                    (sender, None)", "                    if !notify.fragmented {\n                        (e.remove(), None)\n                    } else {\n                        (e.get().clone(), None)\n                    }"))
r('dis/foreach', (DIS, "        for msg in notify.messages {\n            if sender.send(msg).is_err() {\n                break;\n            }\n        }", "        let _ = notify\n            .messages\n            .into_iter()\n            .try_for_each(|msg| sender.send(msg));"))
r('dis/all', (DIS, "        for msg in notify.messages {\n            if sender.send(msg).is_err() {\n                break;\n            }\n        }", "        for msg in notify.messages {\n            let _ = sender.send(msg);\n        }"))
r('dis/order', (DIS, "                    let (sender, receiver) = unbounded_channel();\n\n                    let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);\n", "                    let (acker, acked) = Acker::new(key.0, key.1);\n                    let (sender, receiver) = unbounded_channel();\n"))
r('dis/work', (DIS, "                    self.processing.send((acker, receiver))?;\n", "                    let work = (acker, receiver);\n                    if let Err(err) = self.processing.send(work) {\n                        return Err(err.into());\n                    }\n"))
r('prc/match', (PRC, "        self.0\n            .poll_recv(cx)\n            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))", "        match self.0.poll_recv(cx) {\n            Poll::Ready(Some((acker, receiver))) => Poll::Ready(Some((acker, receiver.into()))),\n            Poll::Ready(None) => Poll::Ready(None),\n            Poll::Pending => Poll::Pending,\n        }"))
r('prc/ready', (PRC, "        self.0\n            .poll_recv(cx)\n            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))", "        let item = std::task::ready!(self.0.poll_recv(cx));\n\n        Poll::Ready(item.map(|(acker, receiver)| (acker, Messages(receiver))))"))
r('prc/getmut', (PRC, "    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        self.0.poll_recv(cx)", "    fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        self.get_mut().0.poll_recv(cx)"))

# --- runtime, builder, agent, error, headers
r('rt/make', (RT, "        poll_fn(|cx| self.maker.poll_ready(cx))\n            .await\n            .context(\"make service\")?;\n\n        self.maker\n            .make_service(self.state.clone())\n            .await\n            .context(\"make service\")", "        let Self { maker, state } = self;\n\n        let ready = poll_fn(|cx| maker.poll_ready(cx)).await;\n        ready.context(\"make service\")?;\n\n        let making = maker.make_service(state.clone());\n        making.await.context(\"make service\")"))
r('bld/versions', (BLD, "            if self.supported_versions.is_empty() {\n                vec![Version::V2_0]\n            } else {\n                self.supported_versions.into_iter().collect()\n            },", "            match self.supported_versions.into_iter().collect::<Vec<_>>() {\n                versions if versions.is_empty() => vec![Version::V2_0],\n                versions => versions,\n            },"))
r('bld/default', (BLD, "            if self.supported_versions.is_empty() {\n                vec![Version::V2_0]", "            if self.supported_versions.is_empty() {\n                vec![Version::default()]"))
r('bld/size-match', (BLD, "            self.max_frame_size.unwrap_or(MAX_FRAME_SIZE),", "            match self.max_frame_size {\n                Some(sz) => sz,\n                None => MAX_FRAME_SIZE,\n            },"))
r('bld/via-cap', (BLD, "        self.capabilities.insert(Capability::Pipelining);\n        self", "        self.capability(Capability::Pipelining)"), (BLD, "    pub fn pipelining(mut self)", "    pub fn pipelining(self)"))
r('bld/caps-loop', (BLD, "        self.capabilities.extend(caps);\n        self", "        for cap in caps {\n            self.capabilities.insert(cap);\n        }\n        self"))
r('bld/caps-fold', (BLD, "        self.capabilities.extend(caps);\n        self", "        caps.into_iter().fold(self, Self::capability)"), (BLD, "    pub fn capabilities<I>(mut self", "    pub fn capabilities<I>(self"))
r('ag/spawn', (AG, "                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;", "                    let serving = async move { conn.serve().await };\n                    let tracked = self.shutdown.tracker.track_future(serving);\n                    tokio::task::Builder::new().name(\"conn\").spawn(tracked)?;"))
r('ag/spawn-plain', (AG, "                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;", "                    self.shutdown.tracker.spawn(async move {\n                        conn.serve().await\n                    });"))
r('ag/wait-always', (AG, "        if !self.shutdown.tracker.is_empty() {\n            debug!(\n                conns = self.shutdown.tracker.len(),\n                \"waiting for shutting down\"\n            );\n\n            self.shutdown.tracker.wait().await;\n        }", "        debug!(\n            conns = self.shutdown.tracker.len(),\n            \"waiting for shutting down\"\n        );\n\n        self.shutdown.tracker.wait().await;"))
r('ag/iflet', (AG, "                    let (stream, peer) = match res {\n                        Ok(accepted) => accepted,\n                        Err(err) => {\n                            debug!(%err, \"failed to accept a connection\");\n                            continue;\n                        }\n                    };", "                    let Ok((stream, peer)) = res else {\n                        debug!(\"failed to accept a connection\");\n                        continue;\n                    };"))
r('ag/token', (AG, "self.shutdown.token.child_token());", "{\n                        let token = self.shutdown.token.clone();\n                        token.child_token()\n                    });"))
r('ag/while', (AG, "        self.shutdown.tracker.close();\n", "        debug!(\"no more connections are accepted\");\n        let tracker = &self.shutdown.tracker;\n        tracker.close();\n"))
r('err/status', (ERR, "            Error::Status(status) => Some(*status),\n            Error::Context { source, .. } => {\n                if let Some(err) = source.downcast_ref::<Error>() {\n                    err.status()\n                } else {\n                    source.downcast_ref::<Status>().cloned()\n                }\n            }", "            Error::Status(status) => Some(*status),\n            Error::Context { source, .. } => match source.downcast_ref::<Error>() {\n                Some(err) => err.status(),\n                None => source.downcast_ref().copied(),\n            },"))
r('err/from', (ERR, "            Error::Context {\n                ref source,\n                ref context,\n            } => {\n                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    Disconnect::new(status, context.to_string())\n                } else if let Some(status) = source.downcast_ref::<Status>() {\n                    Disconnect::new(*status, context.to_string())\n                } else {\n                    Disconnect::new(Status::Unknown, err.to_string())\n                }\n            }", "            Error::Context { ref context, .. } => match err.status() {\n                Some(status) => Disconnect::new(status, context.to_string()),\n                None => Disconnect::new(Status::Unknown, err.to_string()),\n            },"))
r('err/from2', (ERR, "            _ => Disconnect::new(Status::Unknown, err.to_string()),\n        }\n    }\n}\n\npub trait Reason", "            other => {\n                let message = other.to_string();\n                Disconnect::new(Status::Unknown, message)\n            }\n        }\n    }\n}\n\npub trait Reason"))
r('req/loop', (REQ, "    let mut strs = iter::from_fn(|| {\n        if b.has_remaining() {\n            let len = varint::get(&mut b)? as usize;\n            if b.remaining() >= len {\n                return Some(b.copy_to_bytes(len));\n            }\n        }\n\n        None\n    });\n\n    while let Some((k, v)) = strs.next().zip(strs.next()) {\n        if k.is_empty() && v.is_empty() {\n            break;\n        }\n\n        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);\n    }\n", "    loop {\n        let Some(k) = sized(&mut b) else { break };\n        let Some(v) = sized(&mut b) else { break };\n        if k.is_empty() && v.is_empty() {\n            break;\n        }\n\n        let name = HeaderName::from_bytes(&k)?;\n        let value = HeaderValue::from_bytes(&v)?;\n        hdrs.append(name, value);\n    }\n"), (REQ, "use std::iter;\n\nuse bytes::Buf;", "use bytes::{Buf, Bytes};"), (REQ, "pub fn hdrs_bin", "fn sized<T: Buf>(mut b: T) -> Option<Bytes> {\n    if !b.has_remaining() {\n        return None;\n    }\n    let len = varint::get(&mut b)? as usize;\n    (b.remaining() >= len).then(|| b.copy_to_bytes(len))\n}\n\npub fn hdrs_bin"))
r('req/zip', (REQ, "    while let Some((k, v)) = strs.next().zip(strs.next()) {", "    while let (Some(k), Some(v)) = (strs.next(), strs.next()) {"))
r('req/tryfrom', (REQ, "        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);", "        let name = HeaderName::try_from(&k[..])?;\n        let value = HeaderValue::from_maybe_shared(v)?;\n        hdrs.append(name, value);"))
r('req/len', (REQ, "        if k.is_empty() && v.is_empty() {\n            break;\n        }", "        if k.len() + v.len() == 0 {\n            break;\n        }"))
r('req/entry', (REQ, "        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);", "        let v = HeaderValue::from_bytes(&v)?;\n        match HeaderName::from_bytes(&k) {\n            Ok(k) => {\n                hdrs.append(k, v);\n            }\n            Err(err) => return Err(err.into()),\n        }"))
