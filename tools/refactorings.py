BUF = 'spop/src/data/buf.rs'
DEC = 'spop/src/frame/decode.rs'
ENC = 'spop/src/frame/encode.rs'
VAR = 'spop/src/data/varint.rs'

r('buf/get_bytes-if', (BUF, "    (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))", "    if buf.remaining() < n {\n        return None;\n    }\n\n    Some(buf.copy_to_bytes(n))"))
r('buf/get_bytes-sub', (BUF, "    (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))", "    buf.remaining().checked_sub(n).map(|_| buf.copy_to_bytes(n))"))
r('buf/get_bytes-slice', (BUF, "    (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))", "    if n > buf.remaining() {\n        None\n    } else {\n        let mut v = vec![0; n];\n        buf.copy_to_slice(&mut v);\n        Some(v.into())\n    }"))
r('buf/string-helper', (BUF, "        let sz = self.varint()?;\n        let b = get_bytes(self, sz as usize)?;\n        String::from_utf8(b.to_vec()).ok()", "        sized_bytes(self).and_then(|b| String::from_utf8(b.to_vec()).ok())"),
  (BUF, "fn get_bytes<T: Buf>", "fn sized_bytes<T: Buf>(mut buf: T) -> Option<Bytes> {\n    let sz = buf.varint()?;\n\n    get_bytes(buf, sz as usize)\n}\n\nfn get_bytes<T: Buf>"),
  (BUF, "            .varint()\n            .and_then(|n| get_bytes(buf, n as usize))\n            .map(Typed::Binary)", "            .has_remaining()\n            .then(|| sized_bytes(buf))\n            .flatten()\n            .map(Typed::Binary)"))
r('buf/string-fromstr', (BUF, "        String::from_utf8(b.to_vec()).ok()", "        std::str::from_utf8(&b).ok().map(ToOwned::to_owned)"))
r('buf/string-match', (BUF, "        String::from_utf8(b.to_vec()).ok()", "        match String::from_utf8(b.into()) {\n            Ok(s) => Some(s),\n            Err(_) => None,\n        }"))
r('buf/kv_list-match', (BUF, "            self.has_remaining()\n                .then(|| Some((self.string()?, self.typed()?)))", "            if !self.has_remaining() {\n                return None;\n            }\n\n            let Some(name) = self.string() else {\n                return Some(None);\n            };\n\n            Some(self.typed().map(|value| (name, value)))"))
r('buf/kv_list-zip', (BUF, "            self.has_remaining()\n                .then(|| Some((self.string()?, self.typed()?)))", "            if self.remaining() == 0 {\n                None\n            } else {\n                let name = self.string();\n                Some(name.and_then(|name| Some((name, self.typed()?))))\n            }"))
r('buf/ipv4-array', (BUF, "        Type::Ipv4 => get_bytes(buf, Typed::IPV4_ADDR_LEN)\n            .map(|b| <[u8; Typed::IPV4_ADDR_LEN]>::try_from(&b[..]).unwrap())\n            .map(Ipv4Addr::from)\n            .map(Typed::Ipv4),", "        Type::Ipv4 => {\n            if buf.remaining() < Typed::IPV4_ADDR_LEN {\n                return None;\n            }\n            let mut octets = [0; Typed::IPV4_ADDR_LEN];\n            buf.copy_to_slice(&mut octets);\n            Some(Typed::Ipv4(octets.into()))\n        }"))
r('buf/ipv4-u32', (BUF, "        Type::Ipv4 => get_bytes(buf, Typed::IPV4_ADDR_LEN)\n            .map(|b| <[u8; Typed::IPV4_ADDR_LEN]>::try_from(&b[..]).unwrap())\n            .map(Ipv4Addr::from)\n            .map(Typed::Ipv4),", "        Type::Ipv4 => (buf.remaining() >= 4).then(|| Typed::Ipv4(Ipv4Addr::from(buf.get_u32()))),"))
r('buf/ipv4-ok', (BUF, ".map(|b| <[u8; Typed::IPV4_ADDR_LEN]>::try_from(&b[..]).unwrap())", ".and_then(|b| <[u8; Typed::IPV4_ADDR_LEN]>::try_from(&b[..]).ok())"))
r('buf/bool-ne', (BUF, "Type::Boolean => Some(Typed::Boolean(flags.contains(Flags::TRUE))),", "Type::Boolean => Some(Typed::Boolean(flags.bits() & Flags::TRUE.bits() != 0)),"))
r('buf/bool-intersects', (BUF, "Type::Boolean => Some(Typed::Boolean(flags.contains(Flags::TRUE))),", "Type::Boolean => {\n            let val = flags.intersects(Flags::TRUE);\n            Some(val.into())\n        }"))
r('buf/int-question', (BUF, "Type::Int32 => buf.varint().map(|n| n as i32).map(Typed::Int32),", "Type::Int32 => {\n            let n = buf.varint()?;\n            Some(Typed::Int32(n as u32 as i32))\n        }"))
r('buf/type-if', (BUF, "    let b = buf.has_remaining().then(|| buf.get_u8())?;", "    if !buf.has_remaining() {\n        return None;\n    }\n    let b = buf.get_u8();"))
r('buf/type-match', (BUF, "    let ty = Type::try_from_primitive(b & Type::MASK).ok()?;\n    let flags = Flags::from_bits_truncate(b & Flags::MASK);\n\n    Some((ty, flags))", "    match Type::try_from(b & Type::MASK) {\n        Ok(ty) => Some((ty, Flags::from_bits_truncate(b & Flags::MASK))),\n        Err(_) => None,\n    }"))
r('buf/type-get', (BUF, "    let b = buf.has_remaining().then(|| buf.get_u8())?;", "    let b = get_bytes(buf, 1)?[0];"))
r('buf/type-chunk', (BUF, "    let b = buf.has_remaining().then(|| buf.get_u8())?;", "    let b = *buf.chunk().first()?;\n    buf.advance(1);"))
r('buf/binary-match', (BUF, "        Type::Binary => buf\n            .varint()\n            .and_then(|n| get_bytes(buf, n as usize))\n            .map(Typed::Binary),", "        Type::Binary => {\n            let n = buf.varint()? as usize;\n\n            match get_bytes(&mut buf, n) {\n                Some(b) => Some(Typed::Binary(b)),\n                None => None,\n            }\n        }"))
r('buf/put-hoist', (BUF, "            Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u64) + Typed::TYPE_SIZE\n            }", "            Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                let sz = self.put_varint(n as i64 as u64);\n                Typed::TYPE_SIZE + sz\n            }"))
r('buf/put-helper', (BUF, "                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u64) + Typed::TYPE_SIZE", "                put_int(self, Type::Int32, n as u64)"), (BUF, "                self.put_u8(Type::Uint32 as u8);\n                self.put_varint(n as u64) + Typed::TYPE_SIZE", "                put_int(self, Type::Uint32, n.into())"),
  (BUF, "fn put_bytes<T: BufMut, B", "fn put_int<T: BufMut + ?Sized>(buf: &mut T, ty: Type, n: u64) -> usize {\n    buf.put_u8(ty as u8);\n    varint::put(buf, n) + Typed::TYPE_SIZE\n}\n\nfn put_bytes<T: BufMut, B"))
r('buf/put-bool', (BUF, "                self.put_u8(\n                    Type::Boolean as u8\n                        | if b {\n                            Flags::TRUE.bits()\n                        } else {\n                            Flags::FALSE.bits()\n                        },\n                );\n", "                let flags = if b { Flags::TRUE } else { Flags::FALSE };\n                self.put_u8(Type::Boolean as u8 | flags.bits());\n"))
r('buf/put-bool-match', (BUF, "                self.put_u8(\n                    Type::Boolean as u8\n                        | if b {\n                            Flags::TRUE.bits()\n                        } else {\n                            Flags::FALSE.bits()\n                        },\n                );\n", "                match b {\n                    true => self.put_u8(Type::Boolean as u8 | 0x10),\n                    false => self.put_u8(Type::Boolean as u8),\n                }\n"))
r('buf/put-bool-mul', (BUF, "                        | if b {\n                            Flags::TRUE.bits()\n                        } else {\n                            Flags::FALSE.bits()\n                        },\n", "                        | ((b as u8) << 4),\n"))
r('buf/put-ipv4-u32', (BUF, "                self.put_slice(&addr.octets()[..]);\n                Typed::TYPE_SIZE + Typed::IPV4_ADDR_LEN", "                self.put_u32(addr.into());\n                Typed::TYPE_SIZE + Typed::IPV4_ADDR_LEN"))
r('buf/put-ipv6-loop', (BUF, "                self.put_slice(&addr.octets()[..]);\n                Typed::TYPE_SIZE + Typed::IPV6_ADDR_LEN", "                for b in addr.octets() {\n                    self.put_u8(b);\n                }\n                Typed::TYPE_SIZE + Typed::IPV6_ADDR_LEN"))
r('buf/put-binary-helper', (BUF, "                let sz = self.put_varint(b.len() as u64);\n                self.put_slice(&b);\n                sz + b.len() + Typed::TYPE_SIZE", "                put_bytes(self, &b) + Typed::TYPE_SIZE"))
r('buf/put-kvlist-sum', (BUF, "        let mut sz = 0;\n\n        for kv in i {\n            sz += self.put_kv(kv.into());\n        }\n\n        sz", "        i.into_iter().map(|kv| self.put_kv(kv)).sum()"))
r('buf/put-kvlist-fold', (BUF, "        let mut sz = 0;\n\n        for kv in i {\n            sz += self.put_kv(kv.into());\n        }\n\n        sz", "        i.into_iter().fold(0, |sz, kv| sz + self.put_kv(kv))"))
r('buf/put-kvlist-while', (BUF, "        for kv in i {\n            sz += self.put_kv(kv.into());\n        }\n", "        let mut items = i.into_iter();\n        while let Some(kv) = items.next() {\n            sz += self.put_kv(kv);\n        }\n"))
r('buf/put-kv-let', (BUF, "        let KeyValue(key, value) = kv.into();\n\n        self.put_string(key) + self.put_typed(value.into())", "        let kv = kv.into();\n        let key_sz = self.put_string(kv.0);\n        let value_sz = self.put_typed(kv.1);\n\n        key_sz + value_sz"))

r('dec/frame-guards', (DEC, "    let (ty, md) = frame_type(&mut buf)\n        .zip(metadata(&mut buf))\n        .ok_or(Invalid)?;\n\n    match ty {", "    let ty = frame_type(&mut buf).ok_or(Invalid)?;\n    let md = metadata(&mut buf).ok_or(Invalid)?;\n    let is_control = md.stream_id == 0 && md.frame_id == 0;\n\n    match ty {"),
  (DEC, "frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0 =>", "frame::Type::HaproxyHello if is_control =>"), (DEC, "frame::Type::AgentHello if md.stream_id == 0 && md.frame_id == 0 =>", "frame::Type::AgentHello if is_control =>"))
r('dec/frame-ids', (DEC, "    match ty {\n        frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0 => {", "    match ty {\n        frame::Type::HaproxyHello if (md.stream_id, md.frame_id) == (0, 0) => {"), (DEC, "frame::Type::AgentDisconnect if md.stream_id == 0 && md.frame_id == 0 =>", "frame::Type::AgentDisconnect if md.stream_id | md.frame_id == 0 =>"), (DEC, "frame::Type::HaproxyNotify if md.frame_id != 0 =>", "frame::Type::HaproxyNotify if md.frame_id > 0 =>"))
r('dec/frame-check', (DEC, "    match ty {\n        frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0 => {", "    let data = matches!(ty, frame::Type::HaproxyNotify | frame::Type::AgentAck);\n    if data && md.frame_id == 0 {\n        return Err(Invalid);\n    }\n\n    match ty {\n        frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0 => {"), (DEC, "frame::Type::HaproxyNotify if md.frame_id != 0 =>", "frame::Type::HaproxyNotify =>"), (DEC, "frame::Type::AgentAck if md.frame_id != 0 =>", "frame::Type::AgentAck =>"))
r('dec/frame-match-ids', (DEC, "        frame::Type::HaproxyNotify if md.frame_id != 0 => {\n            haproxy_notify(&mut buf, md).map(Frame::HaproxyNotify)\n        }", "        frame::Type::HaproxyNotify => match md.frame_id {\n            0 => Err(Invalid),\n            _ => Ok(Frame::HaproxyNotify(haproxy_notify(&mut buf, md)?)),\n        },"))
r('dec/metadata-if', (DEC, "    let flags = (buf.remaining() >= mem::size_of::<u32>())\n        .then(|| buf.get_u32())\n        .map(frame::Flags::from_bits_truncate)?;\n", "    if buf.remaining() < mem::size_of::<u32>() {\n        return None;\n    }\n    let bits = buf.get_u32();\n    let flags = frame::Flags::from_bits_truncate(bits);\n"))
r('dec/metadata-inline', (DEC, "    let stream_id = buf.varint()?;\n    let frame_id = buf.varint()?;\n\n    Some(frame::Metadata {\n        flags,\n        stream_id,\n        frame_id,\n    })", "    Some(frame::Metadata {\n        flags,\n        stream_id: buf.varint()?,\n        frame_id: buf.varint()?,\n    })"))
r('dec/hello-let', (DEC, "    Ok(haproxy::Hello {\n        supported_versions: kv.supported_versions()?,\n        max_frame_size: kv.max_frame_size()?,\n        capabilities: kv.capabilities()?,\n        healthcheck: kv.boolean(kv::HEALTHCHECK_KEY),\n        engine_id: kv.string(kv::ENGINE_ID_KEY),\n    })", "    let engine_id = kv.string(kv::ENGINE_ID_KEY);\n    let healthcheck = kv.boolean(kv::HEALTHCHECK_KEY);\n    let supported_versions = kv.supported_versions()?;\n    let max_frame_size = kv.max_frame_size()?;\n    let capabilities = kv.capabilities()?;\n\n    Ok(haproxy::Hello {\n        supported_versions,\n        max_frame_size,\n        capabilities,\n        healthcheck,\n        engine_id,\n    })"))
r('dec/kvlist-helper', (DEC, "    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Hello {", "    let mut kv = kv_list(&mut buf)?;\n\n    Ok(haproxy::Hello {"), (DEC, "    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(agent::Hello {", "    let mut kv = kv_list(&mut buf)?;\n\n    Ok(agent::Hello {"), (DEC, "fn haproxy_hello<B", "fn kv_list<B: Buf>(mut buf: B) -> Result<KVList> {\n    buf.kv_list().collect::<Option<_>>().ok_or(Invalid)\n}\n\nfn haproxy_hello<B"))
r('dec/kvlist-loop', (DEC, "    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Hello {", "    let mut map = HashMap::new();\n    for item in buf.kv_list() {\n        let (name, value) = item.ok_or(Invalid)?;\n        map.insert(name, value);\n    }\n    let mut kv = KVList(map);\n\n    Ok(haproxy::Hello {"))
r('dec/messages-loop', (DEC, "    Ok(haproxy::Notify {\n        fragmented: md.fragmented(),\n        stream_id: md.stream_id,\n        frame_id: md.frame_id,\n        messages: list_of_messages(buf)\n            .collect::<Option<Vec<_>>>()\n            .ok_or(Invalid)?,\n    })", "    let mut messages = Vec::new();\n    for msg in list_of_messages(buf) {\n        messages.push(msg.ok_or(Invalid)?);\n    }\n\n    Ok(haproxy::Notify {\n        fragmented: md.fragmented(),\n        stream_id: md.stream_id,\n        frame_id: md.frame_id,\n        messages,\n    })"))
r('dec/messages-while', (DEC, "fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {\n    Ok(", "fn haproxy_notify<B: Buf>(mut buf: B, md: Metadata) -> Result<haproxy::Notify> {\n    let mut messages = Vec::new();\n    while buf.has_remaining() {\n        let msg = message(&mut buf).ok_or(Invalid)?;\n        messages.push(msg);\n    }\n\n    Ok("), (DEC, "        messages: list_of_messages(buf)\n            .collect::<Option<Vec<_>>>()\n            .ok_or(Invalid)?,\n", "        messages,\n"), (DEC, "fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {\n    iter::from_fn(move || {\n        if buf.has_remaining() {\n            Some(message(&mut buf))\n        } else {\n            None\n        }\n    })\n}\n\n", ""))
r('dec/actions-result', (DEC, "        actions: list_of_actions(buf)\n            .collect::<Option<Vec<_>>>()\n            .ok_or(Invalid)?,", "        actions: list_of_actions(buf)\n            .map(|act| act.ok_or(Invalid))\n            .collect::<Result<Vec<_>>>()?,"))
r('dec/actions-then', (DEC, "        if buf.has_remaining() {\n            Some(action(&mut buf))\n        } else {\n            None\n        }", "        buf.has_remaining().then(|| action(&mut buf))"))
r('dec/message-loop', (DEC, "    let args = buf\n        .kv_list()\n        .take(nb as usize)\n        .collect::<Option<Vec<_>>>()?;\n\n    (args.len() == nb as usize).then_some(Message { name, args })", "    let mut args = Vec::with_capacity(nb as usize);\n    for _ in 0..nb {\n        let key = buf.string()?;\n        let value = buf.typed()?;\n        args.push((key, value));\n    }\n\n    Some(Message { name, args })"))
r('dec/message-if', (DEC, "    (args.len() == nb as usize).then_some(Message { name, args })", "    if args.len() != usize::from(nb) {\n        return None;\n    }\n\n    Some(Message { name, args })"))
r('dec/action-tuple', (DEC, "    match ty {\n        action::Type::SetVar if nb == 3 => {", "    match (ty, nb) {\n        (action::Type::SetVar, 3) => {"), (DEC, "        action::Type::UnsetVar if nb == 2 => {", "        (action::Type::UnsetVar, 2) => {"))
r('dec/action-inline', (DEC, "            let scope = scope(&mut buf)?;\n            let name = buf.string()?;\n\n            Some(Action::UnsetVar { scope, name })", "            Some(Action::UnsetVar {\n                scope: scope(&mut buf)?,\n                name: buf.string()?,\n            })"))
r('dec/action-zip', (DEC, "            let scope = scope(&mut buf)?;\n            let name = buf.string()?;\n\n            Some(Action::UnsetVar { scope, name })", "            scope(&mut buf)\n                .and_then(|scope| buf.string().map(|name| Action::UnsetVar { scope, name }))"))
r('dec/versions-loop', (DEC, "        s.split(',')\n            .map(|s| s.trim().parse())\n            .collect::<StdResult<Vec<_>, _>>()\n            .map_err(|_| Invalid)", "        let mut versions = vec![];\n        for item in s.split(',') {\n            let version = item.trim().parse::<Version>().map_err(|_| Invalid)?;\n            versions.push(version);\n        }\n        Ok(versions)"))
r('dec/versions-maperr', (DEC, "            .map(|s| s.trim().parse())\n            .collect::<StdResult<Vec<_>, _>>()\n            .map_err(|_| Invalid)", "            .map(str::trim)\n            .map(|s| s.parse().map_err(|_| Invalid))\n            .collect()"))
r('dec/caps-filtermap', (DEC, "            .map(|s| s.trim())\n            .filter(|s| !s.is_empty())\n            .map(|s| s.parse())\n            .collect::<StdResult<Vec<_>, _>>()\n            .map_err(|_| Invalid)", "            .filter_map(|s| match s.trim() {\n                \"\" => None,\n                s => Some(s.parse().map_err(|_| Invalid)),\n            })\n            .collect()"))
r('dec/caps-loop', (DEC, "        s.split(',')\n            .map(|s| s.trim())\n            .filter(|s| !s.is_empty())\n            .map(|s| s.parse())\n            .collect::<StdResult<Vec<_>, _>>()\n            .map_err(|_| Invalid)", "        let mut caps = Vec::new();\n        for item in s.split(',').map(str::trim) {\n            if item.is_empty() {\n                continue;\n            }\n            caps.push(item.parse().map_err(|_| Invalid)?);\n        }\n        Ok(caps)"))
r('dec/framesize-match', (DEC, "            .and_then(|n| u32::try_from(n).map_err(|_| BadFrameSize))", "            .and_then(|n| {\n                if n > u32::MAX as u64 {\n                    Err(BadFrameSize)\n                } else {\n                    Ok(n as u32)\n                }\n            })"))
r('dec/framesize-try', (DEC, "        self.uint(kv::MAX_FRAME_SIZE_KEY)\n            .ok_or(NoFrameSize)\n            .and_then(|n| u32::try_from(n).map_err(|_| BadFrameSize))", "        let n = self.uint(kv::MAX_FRAME_SIZE_KEY).ok_or(NoFrameSize)?;\n\n        n.try_into().map_err(|_| BadFrameSize)"))
r('dec/status-match', (DEC, "        self.uint(kv::STATUS_CODE_KEY)\n            .map(|n| u32::try_from(n).unwrap_or(Unknown as u32))\n            .unwrap_or_default()", "        match self.uint(kv::STATUS_CODE_KEY) {\n            Some(n) if n <= u32::MAX.into() => n as u32,\n            Some(_) => Unknown as u32,\n            None => 0,\n        }"))
r('dec/status-mapor', (DEC, "            .map(|n| u32::try_from(n).unwrap_or(Unknown as u32))\n            .unwrap_or_default()", "            .map_or(0, |n| u32::try_from(n).unwrap_or(Unknown as u32))"))
r('dec/uint-match', (DEC, "        self.0.remove(key).and_then(|val| match val {\n            Typed::Int32(n) => Some(n as u64),\n            Typed::Uint32(n) => Some(n as u64),\n            Typed::Int64(n) => Some(n as u64),\n            Typed::Uint64(n) => Some(n),\n            _ => None,\n        })", "        match self.0.remove(key)? {\n            Typed::Int32(n) => Some(n as u64),\n            Typed::Uint32(n) => Some(n.into()),\n            Typed::Int64(n) => Some(n as u64),\n            Typed::Uint64(n) => Some(n),\n            _ => None,\n        }"))
r('dec/bool-match', (DEC, "        self.0.remove(key).and_then(|val| bool::try_from(val).ok())", "        match self.0.remove(key) {\n            Some(Typed::Boolean(b)) => Some(b),\n            _ => None,\n        }"))
r('dec/string-iflet', (DEC, "        self.0\n            .remove(key)\n            .and_then(|val| String::try_from(val).ok())", "        if let Some(Typed::String(s)) = self.0.remove(key) {\n            Some(s)\n        } else {\n            None\n        }"))
r('dec/string-get', (DEC, "        self.0\n            .remove(key)\n            .and_then(|val| String::try_from(val).ok())", "        match self.0.get(key)? {\n            Typed::String(s) => Some(s.clone()),\n            _ => None,\n        }"))
r('dec/trait-dispatch', (DEC, "        frame(self)\n", "        self::frame::<&mut T>(self)\n"))

r('enc/header-helper', (ENC, "        Frame::HaproxyHello(hello) => {\n            buf.put_u8(Type::HAPROXY_HELLO);\n            metadata(&mut buf, Metadata::default());", "        Frame::HaproxyHello(hello) => {\n            header(&mut buf, Type::HAPROXY_HELLO, Metadata::default());"), (ENC, "            buf.put_u8(Type::AGENT_ACK);\n            metadata(&mut buf, ack.metadata());", "            header(&mut buf, Type::AGENT_ACK, ack.metadata());"), (ENC, "pub fn metadata<B", "fn header<B: BufMut>(mut buf: B, ty: u8, md: Metadata) {\n    buf.put_u8(ty);\n    metadata(buf, md);\n}\n\npub fn metadata<B"))
r('enc/notify-foreach', (ENC, "    for message in notify.messages {\n        buf.put_string(message.name);\n        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args);\n    }", "    notify.messages.into_iter().for_each(|message| {\n        buf.put_string(&message.name);\n        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args);\n    });"))
r('enc/notify-destructure', (ENC, "    for message in notify.messages {\n        buf.put_string(message.name);\n        buf.put_u8(message.args.len() as u8);\n        buf.put_kvlist(message.args);\n    }", "    for crate::frame::Message { name, args } in notify.messages {\n        let nb = args.len() as u8;\n        buf.put_string(name);\n        buf.put_slice(&[nb]);\n        for (k, v) in args {\n            buf.put_string(k);\n            buf.put_typed(v);\n        }\n    }"))
r('enc/notify-drain', (ENC, "fn haproxy_notify<B: BufMut>(mut buf: B, notify: haproxy::Notify) {\n    for message in notify.messages {", "fn haproxy_notify<B: BufMut>(mut buf: B, mut notify: haproxy::Notify) {\n    for message in notify.messages.drain(..) {"))
r('enc/hello-match', (ENC, "    if let Some(healthcheck) = hello.healthcheck {\n        buf.put_kv(kv::healthcheck(healthcheck));\n    }\n    if let Some(ref id) = hello.engine_id {\n        buf.put_kv(kv::engine_id(id));\n    }", "    match hello.healthcheck {\n        Some(healthcheck) => {\n            buf.put_kv(kv::healthcheck(healthcheck));\n        }\n        None => {}\n    }\n    hello.engine_id.iter().for_each(|id| {\n        buf.put_kv(kv::engine_id(id));\n    });"))
r('enc/hello-order', (ENC, "    buf.put_kv(kv::version(hello.version));\n    buf.put_kv(kv::max_frame_size(hello.max_frame_size));\n    buf.put_kv(kv::capabilities(&hello.capabilities));\n", "    buf.put_kv(kv::max_frame_size(hello.max_frame_size));\n    buf.put_kv(kv::version(hello.version));\n    buf.put_kv(kv::capabilities(&hello.capabilities));\n"))
r('enc/action-bytes', (ENC, "            buf.put_slice(&[action::Type::UnsetVar as u8, 2, scope as u8]);", "            buf.put_u8(action::Type::UnsetVar as u8);\n            buf.put_u8(2);\n            buf.put_u8(scope as u8);"))
r('enc/action-helper', (ENC, "            buf.put_slice(&[action::Type::SetVar as u8, 3, scope as u8]);\n            buf.put_string(name);\n            buf.put_typed(value);", "            action_header(&mut buf, action::Type::SetVar, 3);\n            buf.put_u8(scope as u8);\n            buf.put_string(name);\n            buf.put_typed(value);"), (ENC, "pub fn action<B", "fn action_header<B: BufMut>(mut buf: B, ty: action::Type, nb: u8) {\n    buf.put_slice(&[ty as u8, nb]);\n}\n\npub fn action<B"))
r('enc/metadata-destr', (ENC, "pub fn metadata<B: BufMut>(mut buf: B, metadata: Metadata) {\n    buf.put_u32(metadata.flags.bits());\n    buf.put_varint(metadata.stream_id);\n    buf.put_varint(metadata.frame_id);", "pub fn metadata<B: BufMut>(mut buf: B, metadata: Metadata) {\n    let Metadata {\n        flags,\n        stream_id,\n        frame_id,\n    } = metadata;\n    buf.put_slice(&flags.bits().to_be_bytes());\n    for id in [stream_id, frame_id] {\n        buf.put_varint(id);\n    }"))
r('enc/disconnect-list', (ENC, "    buf.put_kv(kv::status_code(disconnect.status_code));\n    buf.put_kv(kv::message(&disconnect.message));", "    let frame::Disconnect {\n        status_code,\n        message,\n    } = disconnect;\n    let code = kv::status_code(status_code);\n    let msg = kv::message(&message);\n    buf.put_kv(code);\n    buf.put_kv(msg);"))

r('var/get-shadow', (VAR, "    if !buf.has_remaining() {\n        None\n    } else {\n        let b = buf.get_u8();\n\n        if b < 0xF0 {\n            Some(b as u64)\n        } else {", "    if buf.remaining() == 0 {\n        return None;\n    }\n    {\n        let b = buf.get_u8();\n\n        if b <= 0xEF {\n            Some(u64::from(b))\n        } else {"))
r('var/get-factor', (VAR, "                let unit = 1u64.checked_shl(r)?;\n                n = n.checked_add(unit.checked_mul(b as u64)?)?;\n                r += 7;\n\n                if b < 0x80 {\n                    return Some(n);\n                }", "                let unit = 1u64.checked_shl(r)?;\n                let part = (b as u64).checked_mul(unit)?;\n                n = part.checked_add(n)?;\n                if b & 0x80 == 0 {\n                    break Some(n);\n                }\n                r += 7;"))
r('var/get-for', (VAR, "            let mut r = 4;\n\n            loop {\n                if !buf.has_remaining() {\n                    return None;\n                }\n\n                let b = buf.get_u8();\n                let unit = 1u64.checked_shl(r)?;\n                n = n.checked_add(unit.checked_mul(b as u64)?)?;\n                r += 7;\n\n                if b < 0x80 {\n                    return Some(n);\n                }\n            }", "            for r in (4..64).step_by(7) {\n                if !buf.has_remaining() {\n                    return None;\n                }\n\n                let b = buf.get_u8();\n                n = n.checked_add((1u64 << r).checked_mul(b as u64)?)?;\n\n                if b < 0x80 {\n                    return Some(n);\n                }\n            }\n\n            None"))
r('var/get-try', (VAR, "                if !buf.has_remaining() {\n                    return None;\n                }\n\n                let b = buf.get_u8();\n                let unit", "                let b = next(&mut buf)?;\n                let unit"), (VAR, "/// Writes a varint to the buffer.", "fn next<T: Buf>(mut buf: T) -> Option<u8> {\n    buf.has_remaining().then(|| buf.get_u8())\n}\n\n/// Writes a varint to the buffer."))
r('var/put-return', (VAR, "    let mut sz = 1;\n\n    if n < 0xF0 {\n        buf.put_u8(n as u8);\n    } else {\n        buf.put_u8((n as u8) | 0xF0);\n        n = (n - 0xF0) >> 4;\n        while n >= 0x80 {\n            buf.put_u8((n as u8) | 0x80);\n            n = (n - 0x80) >> 7;\n            sz += 1;\n        }\n        buf.put_u8(n as u8);\n        sz += 1;\n    }\n\n    sz", "    if n < 0xF0 {\n        buf.put_u8(n as u8);\n        return 1;\n    }\n\n    buf.put_u8((n as u8) | 0xF0);\n    n = (n - 0xF0) >> 4;\n    let mut sz = 2;\n    while n > 0x7F {\n        buf.put_u8((n as u8) | 0x80);\n        n = (n - 0x80) >> 7;\n        sz += 1;\n    }\n    buf.put_u8(n as u8);\n\n    sz"))
r('var/put-loop', (VAR, "        while n >= 0x80 {\n            buf.put_u8((n as u8) | 0x80);\n            n = (n - 0x80) >> 7;\n            sz += 1;\n        }\n        buf.put_u8(n as u8);\n        sz += 1;", "        loop {\n            sz += 1;\n            if n < 0x80 {\n                buf.put_u8(n as u8);\n                break;\n            }\n            buf.put_u8((n | 0x80) as u8);\n            n = (n - 128) / 128;\n        }"))
r('var/size-if', (VAR, "    match n {\n        ..0x00000000000000f0 => 1,", "    if n < 0xf0 {\n        return 1;\n    }\n\n    match n {\n        ..0x00000000000000f0 => 1,"))
