FRM = 'spop/src/frame/frames.rs'
KV = 'spop/src/frame/kv.rs'
MSG = 'spop/src/frame/msg.rs'
MET = 'spop/src/frame/metadata.rs'
HDL = 'spop/src/handler.rs'
ACT = 'spop/src/action.rs'
VER = 'spop/src/version.rs'
TYP = 'spop/src/data/typed.rs'
HAP = 'spop/src/frame/haproxy.rs'
AGT = 'spop/src/frame/agent.rs'
COD = 'spop/src/frame/codec.rs'
DIS = 'spop/src/frame/disconnect.rs'
VAL = 'spop/src/data/value.rs'
FTY = 'spop/src/frame/ty.rs'
SER = 'spoa/src/error.rs'
STA = 'spoa/src/state/state.rs'
TCP = 'spoa/src/tcp.rs'
PRO = 'spoa/src/state/process.rs'
ACK = 'spoa/src/runtime/acker.rs'

r('frm/type-self', (FRM, "        match self {\n            Frame::Unset => Type::Unset,\n            Frame::HaproxyHello(_) => Type::HaproxyHello,", "        use Frame::*;\n        match *self {\n            Unset => Type::Unset,\n            HaproxyHello(..) => Type::HaproxyHello,"))
r('frm/type-if', (FRM, "        match self {\n            Frame::Unset => Type::Unset,\n", "        if self.is_unset() {\n            return Type::Unset;\n        }\n        match self {\n            Frame::Unset => Type::Unset,\n"))
r('frm/notify-loop', (FRM, "        Frame::HaproxyNotify(HaproxyNotify {\n            fragmented: false,\n            stream_id,\n            frame_id,\n            messages: msgs.into_iter().map(|m| m.into()).collect(),\n        })", "        let mut messages = Vec::new();\n        for m in msgs {\n            messages.push(m.into());\n        }\n        HaproxyNotify {\n            fragmented: false,\n            stream_id,\n            frame_id,\n            messages,\n        }\n        .into()"))
r('frm/ack-new', (FRM, "        Frame::AgentAck(AgentAck {\n            fragmented: false,\n            aborted: false,\n            stream_id,\n            frame_id,\n            actions: actions.into_iter().map(|a| a.into()).collect(),\n        })", "        let mut ack = AgentAck::new(stream_id, frame_id);\n        ack.actions.extend(actions.into_iter().map(Into::into));\n        Frame::AgentAck(ack)"))
r('frm/ack-update', (FRM, "        Frame::AgentAck(AgentAck {\n            fragmented: false,\n            aborted: false,\n            stream_id,\n            frame_id,\n            actions: actions.into_iter().map(|a| a.into()).collect(),\n        })", "        Frame::AgentAck(AgentAck {\n            actions: actions.into_iter().map(T::into).collect::<Vec<_>>(),\n            ..AgentAck::new(stream_id, frame_id)\n        })"))
r('frm/disc-fields', (FRM, "        Frame::AgentDisconnect(frame::Disconnect::new(status, reason))", "        Frame::AgentDisconnect(AgentDisconnect {\n            status_code: status.into(),\n            message: reason.into(),\n        })"))
r('frm/meta-iflet', (FRM, "        match self {\n            Frame::HaproxyNotify(notify) => Some(notify.metadata()),\n            Frame::AgentAck(ack) => Some(ack.metadata()),\n            _ => None,\n        }", "        if let Frame::HaproxyNotify(notify) = self {\n            return Some(notify.metadata());\n        }\n        let Frame::AgentAck(ack) = self else {\n            return None;\n        };\n        Some(ack.metadata())"))
r('kv/join-loop', (KV, "        Typed::String(\n            items\n                .into_iter()\n                .map(|v| v.to_string())\n                .collect::<Vec<_>>()\n                .join(sep),\n        )", "        let mut s = String::new();\n        for (i, v) in items.into_iter().enumerate() {\n            if i > 0 {\n                s.push_str(sep);\n            }\n            s.push_str(&v.to_string());\n        }\n        Typed::String(s)"))
r('kv/join-vec', (KV, "        Typed::String(\n            items\n                .into_iter()\n                .map(|v| v.to_string())\n                .collect::<Vec<_>>()\n                .join(sep),\n        )", "        let mut parts = vec![];\n        for v in items {\n            parts.push(v.to_string());\n        }\n        parts.join(sep).into()"))
r('kv/version-owned', (KV, "pub fn version(version: Version) -> KeyValue<'static, Punctuated<IntoIter<Version, 1>>> {\n    KeyValue(Cow::Borrowed(VERSION_KEY), punctuated([version]))", "pub fn version(version: Version) -> KeyValue<'static, String> {\n    KeyValue(Cow::Borrowed(VERSION_KEY), version.to_string())"), (KV, "array::IntoIter, ", ""))
r('kv/inline-sep', (KV, "    Punctuated(i.into_iter(), \",\")", "    const SEPARATOR: &str = \",\";\n\n    let items = i.into_iter();\n    Punctuated(items, SEPARATOR)"))
r('kv/into', (KV, "    KeyValue(Cow::Borrowed(SUPPORTED_VERSIONS_KEY), punctuated(versions))", "    let key = SUPPORTED_VERSIONS_KEY.into();\n    let value = punctuated(versions);\n    KeyValue(key, value)"))
r('msg/new-loop', (MSG, "        Message {\n            name: name.into(),\n            args: args\n                .into_iter()\n                .map(|(k, v)| (k.into(), v.into()))\n                .collect(),\n        }", "        let mut list = Vec::new();\n        for (k, v) in args {\n            list.push((k.into(), v.into()));\n        }\n        Message {\n            name: name.into(),\n            args: list,\n        }"))
r('msg/new-builder', (MSG, "        Message {\n            name: name.into(),\n            args: args\n                .into_iter()\n                .map(|(k, v)| (k.into(), v.into()))\n                .collect(),\n        }", "        Message::builder(name).args(args).build()"))
r('msg/args-loop', (MSG, "        self.0\n            .args\n            .extend(args.into_iter().map(|(k, v)| (k.into(), v.into())));\n        self", "        for (k, v) in args {\n            self = self.arg(k, v);\n        }\n        self"))
r('msg/arg-let', (MSG, "        self.0.args.push((name.into(), value.into()));\n        self", "        let Builder(msg) = &mut self;\n        let arg = (name.into(), value.into());\n        msg.args.push(arg);\n        self"))
r('msg/args-chain', (MSG, "        self.0\n            .args\n            .extend(args.into_iter().map(|(k, v)| (k.into(), v.into())));\n        self", "        let Message { name, args: old } = self.0;\n        let args = old\n            .into_iter()\n            .chain(args.into_iter().map(|(k, v)| (k.into(), v.into())))\n            .collect();\n        self.0 = Message { name, args };\n        self"))
r('met/bits', (MET, "        self.flags.contains(Flags::FIN)", "        self.flags.bits() & Flags::FIN.bits() != 0"))
r('met/abort-bits', (MET, "        self.flags.contains(Flags::ABORT)", "        self.flags.intersects(Flags::ABORT)"))
r('met/frag-bits', (MET, "        !self.is_final()", "        !self.flags.contains(Flags::FIN)"))
r('met/size-let', (MET, "        mem::size_of::<Flags>() + varint::size_of(self.stream_id) + varint::size_of(self.frame_id)", "        let ids = varint::size_of(self.stream_id) + varint::size_of(self.frame_id);\n        ids + mem::size_of::<u32>()"))
r('met/size-four', (MET, "        mem::size_of::<Flags>() + varint::size_of(self.stream_id) + varint::size_of(self.frame_id)", "        let Metadata { stream_id, frame_id, .. } = self;\n        4 + varint::size_of(*stream_id) + varint::size_of(*frame_id)"), (MET, "use std::mem;\n\n", ""))
r('hdl/ok', (HDL, "                Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n                    Err(Error::try_from(status_code).unwrap_or(Error::Unknown))\n                }", "                Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {\n                    match Error::try_from(status_code) {\n                        Ok(err) => Err(err),\n                        Err(_) => Err(Error::Unknown),\n                    }\n                }"))
r('hdl/iflet', (HDL, "            match frame {\n                Frame::AgentAck(AgentAck { actions, .. }) => Ok(Some(actions)),\n                Frame::AgentDisconnect(Disconnect { status_code, .. }) => {\n                    Err(Error::try_from(status_code).unwrap_or(Error::Unknown))\n                }\n                _ => Err(Error::Invalid),\n            }", "            if let Frame::AgentAck(ack) = frame {\n                return Ok(Some(ack.actions));\n            }\n            if let Frame::AgentDisconnect(reason) = frame {\n                return Err(reason.status_code.try_into().unwrap_or(Error::Unknown));\n            }\n            Err(Error::Invalid)"))
r('act/let', (ACT, "        Self::SetVar {\n            scope,\n            name: name.into(),\n            value: value.into(),\n        }", "        let name = name.into();\n        let value = value.into();\n        Action::SetVar { scope, name, value }"))
r('ver/new', (VER, "    pub const V2_0: Version = Version { major: 2, minor: 0 };", "    pub const V2_0: Version = Version::new(2, 0);"))
r('typ/str-owned', (TYP, "        Typed::String(s.to_string())", "        String::from(s).into()"))
r('typ/bytes-vec', (TYP, "        Typed::Binary(Bytes::copy_from_slice(b))", "        Typed::Binary(b.to_vec().into())"))
r('typ/bytes-from', (TYP, "        Typed::Binary(Bytes::copy_from_slice(b))", "        Bytes::copy_from_slice(b).into()"))
r('typ/box', (TYP, "        Typed::Binary(buf.into())\n    }\n}\n\nimpl From<Vec", "        Typed::from(buf.into_vec())\n    }\n}\n\nimpl From<Vec"))
r('typ/bytesmut', (TYP, "        Typed::Binary(buf.freeze())", "        let bytes: Bytes = buf.into();\n        Typed::Binary(bytes)"))
r('typ/ip-iflet', (TYP, "        match addr {\n            IpAddr::V4(v4) => Typed::Ipv4(v4),\n            IpAddr::V6(v6) => Typed::Ipv6(v6),\n        }", "        if let IpAddr::V4(v4) = addr {\n            return v4.into();\n        }\n        let IpAddr::V6(v6) = addr else { unreachable!() };\n        Typed::Ipv6(v6)"))
r('hap/flags-mut', (HAP, "        Metadata {\n            flags: if self.fragmented {\n                Flags::empty()\n            } else {\n                Flags::FIN\n            },", "        let mut flags = Flags::empty();\n        if !self.fragmented {\n            flags.insert(Flags::FIN);\n        }\n        Metadata {\n            flags,"))
r('hap/flags-set', (HAP, "        Metadata {\n            flags: if self.fragmented {\n                Flags::empty()\n            } else {\n                Flags::FIN\n            },", "        let mut flags = Flags::empty();\n        flags.set(Flags::FIN, !self.fragmented);\n        Metadata {\n            flags,"))
r('agt/flags-mut', (AGT, "        Metadata {\n            flags: if self.fragmented {\n                Flags::empty()\n            } else {\n                Flags::FIN\n            } | if self.aborted {\n                Flags::ABORT\n            } else {\n                Flags::empty()\n            },", "        let mut flags = Flags::empty();\n        if !self.fragmented {\n            flags |= Flags::FIN;\n        }\n        if self.aborted {\n            flags |= Flags::ABORT;\n        }\n        Metadata {\n            flags,"))
r('agt/flags-match', (AGT, "        Metadata {\n            flags: if self.fragmented {\n                Flags::empty()\n            } else {\n                Flags::FIN\n            } | if self.aborted {\n                Flags::ABORT\n            } else {\n                Flags::empty()\n            },", "        let flags = match (self.fragmented, self.aborted) {\n            (true, true) => Flags::ABORT,\n            (true, false) => Flags::empty(),\n            (false, true) => Flags::FIN | Flags::ABORT,\n            (false, false) => Flags::FIN,\n        };\n        Metadata {\n            flags,"))
r('cod/update', (COD, "        self.framer.write_frame(&mut self.stream, frame).await", "        let Codec { stream, framer } = self;\n        framer.write_frame(stream, frame).await"))
r('cod/read-let', (COD, "        self.framer.read_frame(&mut self.stream).await", "        let frame = self.framer.read_frame(&mut self.stream).await?;\n        Ok(frame)"))
r('dis/into', (DIS, "            status_code: status as u32,", "            status_code: u32::from(status),"))
r('val/cow', (VAL, "        KeyValue(key.into(), value)\n    }\n}\n\nimpl<T> From<(String", "        let key = Cow::Borrowed(key);\n        KeyValue(key, value)\n    }\n}\n\nimpl<T> From<(String"))
r('ser/status-match', (SER, "                if let Some(err) = source.downcast_ref::<Error>() {\n                    err.status()\n                } else {\n                    source.downcast_ref::<Status>().cloned()\n                }", "                match source.downcast_ref::<Error>() {\n                    Some(err) => err.status(),\n                    None => source.downcast_ref::<Status>().copied(),\n                }"))
r('ser/from-status', (SER, "            Error::Context {\n                ref source,\n                ref context,\n            } => {\n                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    Disconnect::new(status, context.to_string())\n                } else if let Some(status) = source.downcast_ref::<Status>() {\n                    Disconnect::new(*status, context.to_string())\n                } else {\n                    Disconnect::new(Status::Unknown, err.to_string())\n                }\n            }", "            Error::Context { ref context, .. } => match err.status() {\n                Some(status) => Disconnect::new(status, context.to_string()),\n                None => Disconnect::new(Status::Unknown, err.to_string()),\n            },"))
r('ser/from-or', (SER, "                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    Disconnect::new(status, context.to_string())\n                } else if let Some(status) = source.downcast_ref::<Status>() {\n                    Disconnect::new(*status, context.to_string())\n                } else {\n                    Disconnect::new(Status::Unknown, err.to_string())\n                }", "                let status = source\n                    .downcast_ref::<Error>()\n                    .and_then(Error::status)\n                    .or_else(|| source.downcast_ref::<Status>().copied());\n                let reason = match status {\n                    Some(_) => context.to_string(),\n                    None => err.to_string(),\n                };\n                Disconnect::new(status.unwrap_or(Status::Unknown), reason)"))
r('ser/ctx-maperr', (SER, "        match self {\n            Ok(res) => Ok(res),\n            Err(err) => Err(Error::Context {\n                source: Box::new(err),\n                context: Box::new(reason),\n            }),\n        }", "        self.map_err(|err| Error::Context {\n            source: Box::new(err),\n            context: Box::new(reason),\n        })"))
r('ser/ctx-with', (SER, "        match self {\n            Ok(res) => Ok(res),\n            Err(err) => Err(Error::Context {\n                source: Box::new(err),\n                context: Box::new(reason),\n            }),\n        }", "        self.with_context(|| reason)"))
r('sta/bind', (STA, "            State::Connecting(connecting) => connecting.handle_frame(frame).await,\n            State::Processing(processing) => processing.handle_frame(frame).await,", "            State::Connecting(connecting) => {\n                let (next, reply) = connecting.handle_frame(frame).await?;\n                Ok((next, reply))\n            }\n            State::Processing(processing) => processing.handle_frame(frame).await,"))
r('sta/from', (STA, "        State::Connecting(Connecting::new(rt))", "        let connecting = Connecting::new(rt);\n        connecting.into()"))
r('tcp/map', (TCP, "        let listener = TcpListener::bind(addr).await?;\n\n        Ok(Incoming { listener })", "        Ok(TcpListener::bind(addr).await?.into())"))
r('tcp/from', (TCP, "        let listener = TcpListener::from_std(std_listener)?;\n\n        Ok(Incoming { listener })", "        let listener = TcpListener::from_std(std_listener)?;\n        Ok(Self::from(listener))"))
r('pro/nested', (PRO, "                    match timeout(self.runtime.max_process_time, processing).await {\n                        Ok(res) => match res {\n                            Ok(actions) => {\n                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                Ok((self.into(), Some(ack)))\n                            }\n                            Err(err) => Err(Unknown).context(err.to_string()),\n                        },\n                        Err(_) => Err(Timeout).context(\"process messages\"),\n                    }", "                    let limit = self.runtime.max_process_time;\n                    let Ok(res) = timeout(limit, processing).await else {\n                        return Err(Timeout).context(\"process messages\");\n                    };\n                    let actions = match res {\n                        Ok(actions) => actions,\n                        Err(err) => return Err(Unknown).context(err.to_string()),\n                    };\n                    Ok((self.into(), Some(Frame::ack(stream_id, frame_id, actions))))"))
r('pro/ready', (PRO, "                    let processing = async {\n                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                        self.service.call(msgs).await\n                    };", "                    let service = &mut self.service;\n                    let processing = async move {\n                        match poll_fn(|cx| service.poll_ready(cx)).await {\n                            Ok(()) => service.call(msgs).await,\n                            Err(err) => Err(err),\n                        }\n                    };"))
r('pro/early', (PRO, "        match frame {\n            Frame::HaproxyNotify(HaproxyNotify {", "        if let Frame::HaproxyDisconnect(ref reason) = frame {\n            trace!(?reason, \"disconnecting\");\n            return Err(Normal).context(\"peer closed connection\");\n        }\n        match frame {\n            Frame::HaproxyNotify(HaproxyNotify {"))
r('pro/sleep', (PRO, "                    match timeout(self.runtime.max_process_time, processing).await {\n                        Ok(res) => match res {", "                    let deadline = tokio::time::Instant::now() + self.runtime.max_process_time;\n                    match tokio::time::timeout_at(deadline, processing).await {\n                        Ok(res) => match res {"), (PRO, "use tokio::time::timeout;\n", ""))
r('ack/action', (ACK, "            ack.actions.push(Action::SetVar {\n                scope,\n                name: name.into(),\n                value: value.into(),\n            });", "            ack.actions.push(Action::set_var(scope, name, value));"))
r('ack/take', (ACK, "        if let Some(Inner(ack, sender)) = self.0.take() {\n            sender.send(ack).map_err(|_| Closed)\n        } else {\n            Err(Closed)\n        }", "        let Inner(ack, sender) = self.0.take().ok_or(Closed)?;\n        sender.send(ack).or(Err(Closed))"))
r('ack/asmut', (ACK, "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::UnsetVar {", "        if let Some(inner) = self.0.as_mut() {\n            inner.0.actions.push(Action::UnsetVar {"))
r('ack/finish', (ACK, "            ack.aborted = true;\n            sender.send(ack).map_err(|_| Closed)", "            let ack = AgentAck {\n                aborted: true,\n                ..ack\n            };\n            sender.send(ack).map_err(|_| Closed)"), (ACK, "Some(Inner(mut ack, sender))", "Some(Inner(ack, sender))"))
r('ack/helper', (ACK, "    pub fn unset_var<S: Into<String>>(&mut self, scope: Scope, name: S) {\n        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::UnsetVar {\n                scope,\n                name: name.into(),\n            });\n        }\n    }", "    pub fn unset_var<S: Into<String>>(&mut self, scope: Scope, name: S) {\n        self.push(Action::unset_var(scope, name))\n    }\n\n    fn push(&mut self, action: Action) {\n        let Some(Inner(ack, _)) = &mut self.0 else {\n            return;\n        };\n        ack.actions.push(action);\n    }"))
