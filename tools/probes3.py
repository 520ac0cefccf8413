D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
HN, MD, CX, KV = 'spop/src/handler.rs', 'spop/src/frame/metadata.rs', 'spop/src/frame/codec.rs', 'spop/src/frame/kv.rs'
p('C01-take-last', 'C01', (D, '''        s.split(',')
            .map(|s| s.trim().parse())''', '''        let s = if s.ends_with(',') { &s[..s.len() - 2] } else { &s[..] };

        s.split(',')
            .map(|s| s.trim().parse())'''))
p('C01-char', 'C01', (D, 's.parse())', 's[..s.len().min(32)].parse())'))
p('C01-nb-idx', 'C01', (D, '(args.len() == nb as usize).then_some(Message { name, args })', '''(nb == 0 || args[nb as usize - 1].0.len() < 1 << 20)
        .then_some(())
        .filter(|_| args.len() == nb as usize)
        .map(|_| Message { name, args })'''))
p('C01-hdr-slice', 'C01', (RQ, 'HeaderName::from_bytes(&k)?', 'HeaderName::from_bytes(if k[0] == b\':\' { &k[1..] } else { &k[..] })?'))
p('C01-prefix', 'C01', (V, 'if !buf.has_remaining() {\n                    return None;\n                }', 'if r < 60 && !buf.has_remaining() {\n                    return None;\n                }'))
p('C02-silent-kv', 'C02', (B, '.then(|| Some((self.string()?, self.typed()?)))', '.then(|| self.string().zip(self.typed())).filter(|kv| kv.is_some() || self.has_remaining())'))
p('C02-kvmap', 'C02', (D, 'let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(agent', 'let mut kv: KVList = buf.kv_list().map_while(|kv| kv).collect();\n\n    Ok(agent'))
p('C02-disc', 'C02', (D, 'let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Disconnect', 'let mut kv: KVList = buf.kv_list().flatten().collect();\n\n    Ok(haproxy::Disconnect'))
p('C02-lossy', 'C02', (B, 'String::from_utf8(b.to_vec()).ok()', 'Some(String::from_utf8_lossy(&b).into_owned())'))
p('C02-need', 'C02', (D, '(buf.remaining() >= mem::size_of::<u32>())', '(buf.remaining() > mem::size_of::<u32>() + 2)'))
p('C03-int-width', 'C03', (B, 'Type::Uint32 => buf.varint().map(|n| n as u32).map(Typed::Uint32),', 'Type::Uint32 => buf.varint().map(|n| u32::try_from(n).unwrap_or(u32::MAX)).map(Typed::Uint32),'))
p('C03-sign', 'C03', (B, 'Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u64)', 'Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u32 as u64)'))
p('C03-bin-str', 'C03', (B, '''            .and_then(|n| get_bytes(buf, n as usize))
            .map(Typed::Binary)''', '''            .and_then(|n| get_bytes(buf, n as usize))
            .map(|b| if b.is_empty() { Typed::Null } else { Typed::Binary(b) })'''))
p('C03-v6seg', 'C03', (B, '''                self.put_slice(&addr.octets()[..]);
                Typed::TYPE_SIZE + Typed::IPV6_ADDR_LEN''', '''                for s in addr.segments() {
                    self.put_u16_le(s);
                }
                Typed::TYPE_SIZE + Typed::IPV6_ADDR_LEN'''))
p('C04-le', 'C04', (EN, 'buf.put_u32(metadata.flags.bits());', 'buf.put_u32_le(metadata.flags.bits());'), (D, '.then(|| buf.get_u32())', '.then(|| buf.get_u32_le())'))
p('C04-order', 'C04', (EN, 'buf.put_varint(metadata.stream_id);\n    buf.put_varint(metadata.frame_id);', 'buf.put_varint(metadata.frame_id);\n    buf.put_varint(metadata.stream_id);'), (D, 'let stream_id = buf.varint()?;\n    let frame_id = buf.varint()?;', 'let frame_id = buf.varint()?;\n    let stream_id = buf.varint()?;'))
p('C04-abortfin', 'C04', ('spop/src/frame/agent.rs', '''            flags: if self.fragmented {''', '''            flags: if self.fragmented && !self.aborted {'''))
p('C04-nofrag', 'C04', (D, 'fragmented: md.fragmented(),\n        stream_id: md.stream_id,\n        frame_id: md.frame_id,\n        messages', 'fragmented: md.fragmented() && !md.aborted(),\n        stream_id: md.stream_id,\n        frame_id: md.frame_id,\n        messages'))
p('C04-const', 'C04', (MD, 'const ABORT = 0x00000002;', 'const ABORT = 0x00000004;'))
p('C05-key', 'C05', (KV, '"max-frame-size"', '"max_frame_size"'))
p('C05-hc', 'C05', (EN, 'if let Some(healthcheck) = hello.healthcheck {', 'if let Some(healthcheck) = hello.healthcheck.filter(|_| hello.engine_id.is_none()) {'))
p('C05-engid-trim', 'C05', (D, 'engine_id: kv.string(kv::ENGINE_ID_KEY),', 'engine_id: kv.string(kv::ENGINE_ID_KEY).filter(|id| !id.is_empty()),'))
p('C05-neg', 'C05', (D, 'Typed::Int32(n) => Some(n as u64),', 'Typed::Int32(n) => Some(n as u32 as u64),'))
p('C05-order', 'C05', (D, '''        Self(iter.into_iter().collect())''', '''        let mut items = HashMap::new();
        for (k, v) in iter {
            if k == kv::CAPABILITIES_KEY && items.contains_key(kv::ENGINE_ID_KEY) {
                continue;
            }
            items.insert(k, v);
        }
        Self(items)'''))
p('C05-hc-int', 'C05', (D, "bool::try_from(val).ok())", "bool::try_from(val).ok()).filter(|&b| b)"))
p('C06-rev', 'C06', (EN, 'for act in ack.actions {', 'for act in ack.actions.into_iter().rev() {'))
p('C06-sort', 'C06', (EN, 'for message in notify.messages {', 'let mut messages = notify.messages;\n    messages.sort_by(|a, b| a.name.cmp(&b.name));\n    for message in messages {'))
p('C06-skip-null', 'C06', (EN, 'buf.put_kvlist(message.args);', 'buf.put_kvlist(message.args.into_iter().filter(|(k, _)| !k.is_empty()));'))
p('C06-limit', 'C06', (EN, 'for act in ack.actions {', 'for act in ack.actions.into_iter().take(1024) {'))
p('C06-scope0', 'C06', (D, 'let scope = scope(&mut buf)?;\n            let name = buf.string()?;\n\n', 'let scope = scope(&mut buf).unwrap_or(action::Scope::Process);\n            let name = buf.string()?;\n\n'))
p('C07-hello-stream', 'C07', (D, 'frame::Type::AgentHello if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::AgentHello if md.stream_id == 0'))
p('C07-or', 'C07', (D, 'frame::Type::HaproxyDisconnect if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::HaproxyDisconnect if md.stream_id | md.frame_id == 0 || md.aborted()'))
p('C07-trunc', 'C07', (D, 'frame::Type::HaproxyHello if md.stream_id == 0', 'frame::Type::HaproxyHello if md.stream_id as u32 == 0'))
p('C07-wrap', 'C07', (D, 'frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::HaproxyHello if md.stream_id.wrapping_add(md.frame_id) == 0'))
p('C08-before', 'C08', (FR, '        if len <= self.max_frame_size {\n            let mut buf', '        let spare = Vec::<u8>::with_capacity(len);\n        drop(spare);\n        if len <= self.max_frame_size {\n            let mut buf'))
p('C08-nb', 'C08', (D, '''    let args = buf
        .kv_list()''', '''    let mut names = Vec::<u64>::with_capacity(nb as usize * 1024);
    names.push(nb as u64);
    let args = buf
        .kv_list()'''))
p('C08-zero', 'C08', (FR, 'if len <= self.max_frame_size {', 'if len <= self.max_frame_size || self.max_frame_size == 0 {'))
p('C08-bytes', 'C08', (B, '(buf.remaining() >= n).then(|| buf.copy_to_bytes(n))', 'let mut b = bytes::BytesMut::with_capacity(n.min(1 << 30));\n    (buf.remaining() >= n).then(|| {\n        b.put(buf.copy_to_bytes(n));\n        b.freeze()\n    })'))
p('C08-plus', 'C08', (FR, 'if len <= self.max_frame_size {', 'if len <= self.max_frame_size + mem::size_of::<u32>() {'))
p('C09-trunc', 'C09', (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size {', 'if (buf.len() - mem::size_of::<u32>()) as u16 as usize > self.max_frame_size {'))
p('C09-ge', 'C09', (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size {', 'if buf.len() > self.max_frame_size {'))
p('C09-late', 'C09', (FR, '''        w.write_all(&buf).await.map_err(|_| Io)?;
        w.flush()''', '''        w.write_all(&buf).await.map_err(|_| Io)?;
        if buf.len() > 1 << 20 {
            return Err(TooBig);
        }
        w.flush()'''))
p('C10-write', 'C10', (FR, 'w.write_all(&buf).await.map_err(|_| Io)?;', '''let mut n = 0;
        while n < buf.len() {
            match w.write(&buf[n..]).await.map_err(|_| Io)? {
                0 => break,
                k => n += k,
            }
        }'''))
p('C10-readlen', 'C10', (FR, 'let len = r.read_u32().await.map_err(|_| Io)? as usize;', '''let mut b = [0u8; 4];
        if r.read(&mut b).await.map_err(|_| Io)? == 0 {
            return Err(Io);
        }
        let len = u32::from_be_bytes(b) as usize;'''))
p('C10-eof', 'C10', (FR, 'r.read_exact(&mut buf).await.map_err(|_| Io)?;', '''let mut n = 0;
    while n < len {
        match r.read(&mut buf[n..]).await.map_err(|_| Io)? {
            0 => break,
            k => n += k,
        }
    }'''))
p('C10-lenprefix', 'C10', (FR, 'let len = (buf.len() - mem::size_of::<u32>()) as u32;', 'let len = (buf.len() - mem::size_of::<u32>()) as u16 as u32;'))
p('C11-code', 'C11', ('spop/src/error.rs', 'ResourceAllocErr,', 'ResourceAllocErr = 15,'))
p('C11-io-kind', 'C11', (FR, 'r.read_exact(&mut buf).await.map_err(|_| Io)?;', 'r.read_exact(&mut buf).await.map_err(|e| if e.kind() == std::io::ErrorKind::UnexpectedEof { Invalid } else { Io })?;'))
p('C11-toobig', 'C11', (FR, 'buf.get_frame()\n', 'buf.get_frame().map_err(|e| if len == self.max_frame_size { TooBig } else { e })\n'))
p('C11-codec', 'C11', (CX, 'self.framer.read_frame(&mut self.stream).await', 'self.framer.read_frame(&mut self.stream).await.map_err(|e| match e {\n            crate::Error::NoFrameSize | crate::Error::NoCapabilities => crate::Error::Invalid,\n            e => e,\n        })'))
