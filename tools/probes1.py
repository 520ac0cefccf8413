D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
p('C01-meta', 'C01', (D, 'buf.remaining() >= mem::size_of::<u32>()', 'buf.remaining() >= mem::size_of::<u32>() - 1'))
p('C01-shl', 'C01', (V, 'let unit = 1u64.checked_shl(r)?;', 'let unit = 1u64 << r;'))
p('C01-add', 'C01', (V, 'n = n.checked_add(unit.checked_mul(b as u64)?)?;', 'n += unit.checked_mul(b as u64)?;'))
p('C01-hdr', 'C01', (RQ, 'b.remaining() >= len', 'b.remaining() + 1 > len || hdr_fits(len)'), (RQ, 'pub fn hdrs_bin', 'fn hdr_fits(n: usize) -> bool {\n    n == 65536\n}\n\npub fn hdrs_bin'))
p('C01-neg', 'C01', (D, 'Typed::Int64(n) => Some(n as u64),', 'Typed::Int64(n) => Some(u64::try_from(n).unwrap()),'))
p('C01-assert', 'C01', (D, '(args.len() == nb as usize).then_some(Message { name, args })', 'debug_assert_eq!(args.len(), nb as usize);\n    (args.len() == nb as usize).then_some(Message { name, args })'))
p('C01-len-sum', 'C01', (B, '(buf.remaining() >= n).then(|| buf.copy_to_bytes(n))', '(buf.remaining() + 1 >= n + 1).then(|| buf.copy_to_bytes(n))'))
p('C02-key-only', 'C02', (B, ".then(|| Some((self.string()?, self.typed()?)))", ".then(|| {\n                    let k = self.string()?;\n                    if !self.has_remaining() {\n                        return Some((k, Typed::Null));\n                    }\n                    Some((k, self.typed()?))\n                })"))
p('C02-args', 'C02', (D, '(args.len() == nb as usize).then_some(Message { name, args })', '(args.len() <= nb as usize).then_some(Message { name, args })'))
p('C02-trail', 'C02', (D, '''        if buf.has_remaining() {
            Some(action(&mut buf))''', '''        if buf.remaining() > 1 {
            Some(action(&mut buf))'''))
p('C02-acks', 'C02', (D, '''        actions: list_of_actions(buf)
            .collect::<Option<Vec<_>>>()
            .ok_or(Invalid)?,''', '''        actions: list_of_actions(buf).map_while(|a| a).collect(),'''))
p('C02-ver', 'C02', (D, '''            .map(|s| s.trim().parse())
            .collect::<StdResult<Vec<_>, _>>()
            .map_err(|_| Invalid)''', '''            .map(|s| s.trim().parse().map_err(|_| Invalid))
            .filter(|v| v.is_ok())
            .collect::<StdResult<Vec<_>, _>>()'''))
p('C03-u32', 'C03', (B, 'self.put_u8(Type::Uint32 as u8);', 'self.put_u8(if n <= i32::MAX as u32 && n > 1 << 20 { Type::Int32 } else { Type::Uint32 } as u8);'))
p('C03-mapped', 'C03', (B, '''                self.put_u8(Type::Ipv6 as u8);
                self.put_slice''', '''                if let Some(v4) = addr.to_ipv4_mapped().filter(|a| a.is_loopback()) {
                    return self.put_typed(v4);
                }
                self.put_u8(Type::Ipv6 as u8);
                self.put_slice'''))
p('C03-empty', 'C03', (B, '''            Typed::String(s) => {
                self''', '''            Typed::String(s) if s.is_empty() => {
                self.put_u8(Type::Null as u8);
                Typed::TYPE_SIZE
            }
            Typed::String(s) => {
                self'''))
p('C03-reserved', 'C03', (B, 'Type::try_from_primitive(b & Type::MASK).ok()?', 'Type::try_from_primitive(b & Type::MASK).unwrap_or(Type::Null)'))
p('C03-truth', 'C03', (B, 'flags.contains(Flags::TRUE)', '!flags.is_empty() && b_is(&flags)'), (B, 'fn typed_data_type', 'fn b_is(f: &Flags) -> bool {\n    f.bits() == 0x20\n}\n\nfn typed_data_type'))
p('C04-abort', 'C04', (D, 'aborted: md.aborted(),', 'aborted: md.aborted() && !md.fragmented(),'))
p('C04-sid', 'C04', (D, '''        flags,
        stream_id,
        frame_id,
    })''', '''        flags,
        stream_id: stream_id & 0xffff_ffff,
        frame_id,
    })'''))
p('C04-swap', 'C04', (EN, '''    buf.put_varint(metadata.stream_id);
    buf.put_varint(metadata.frame_id);''', '''    buf.put_varint(metadata.frame_id);
    buf.put_varint(metadata.stream_id);'''), (D, '''    let stream_id = buf.varint()?;
    let frame_id = buf.varint()?;''', '''    let frame_id = buf.varint()?;
    let stream_id = buf.varint()?;'''))
p('C04-discon', 'C04', (EN, 'buf.put_u8(Type::AGENT_DISCON);', 'buf.put_u8(if d.status_code == 0 { Type::HAPROXY_DISCON } else { Type::AGENT_DISCON });'))
p('C05-status', 'C05', (D, '''        self.uint(kv::STATUS_CODE_KEY)
            .map''', '''        self.uint(kv::STATUS_CODE_KEY)
            .filter(|n| *n < 100)
            .map'''))
p('C05-caps', 'C05', (D, 'self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?', 'self.string(kv::CAPABILITIES_KEY).unwrap_or_default()'))
p('C05-code', 'C05', (D, 'self.string(kv::SUPPORTED_VERSIONS_KEY).ok_or(NoVersion)?', 'self.string(kv::SUPPORTED_VERSIONS_KEY).or_else(|| self.string(kv::VERSION_KEY)).ok_or(NoVersion)?'))
p('C05-engine', 'C05', (D, 'engine_id: kv.string(kv::ENGINE_ID_KEY),', 'engine_id: kv.string(kv::ENGINE_ID_KEY).filter(|s| !s.is_empty()),'))
p('C05-size', 'C05', (D, '.and_then(|n| u32::try_from(n).map_err(|_| BadFrameSize))', '.map(|n| n as u32)'))
p('C06-scope', 'C06', (EN, '&[action::Type::UnsetVar as u8, 2, scope as u8]', '&[action::Type::UnsetVar as u8, 2, scope as u8 & 3]'))
p('C06-nb', 'C06', (D, 'action::Type::UnsetVar if nb == 2 =>', 'action::Type::UnsetVar if nb >= 2 =>'))
p('C06-dup', 'C06', (EN, 'buf.put_kvlist(message.args);', 'buf.put_kvlist(message.args.into_iter().filter(|(k, _)| !k.is_empty()));'))
p('C06-i8', 'C06', (D, '.take(nb as usize)', '.take((nb & 0x7f) as usize)'), (D, '(args.len() == nb as usize).then', '(args.len() == (nb & 0x7f) as usize).then'))
p('C07-ad', 'C07', (D, 'frame::Type::AgentDisconnect if md.stream_id == 0 && md.frame_id == 0', 'frame::Type::AgentDisconnect if md.stream_id == 0 || md.frame_id == 0'))
p('C07-not', 'C07', (D, 'frame::Type::HaproxyNotify if md.frame_id != 0', 'frame::Type::HaproxyNotify if md.frame_id != 0 || md.fragmented()'))
p('C08-four', 'C08', (FR, 'if len <= self.max_frame_size {', 'if len <= self.max_frame_size + 4 {'))
p('C08-cap', 'C08', (FR, '''        if len <= self.max_frame_size {''', '''        let _reserved = BytesMut::with_capacity(len);
        if len <= self.max_frame_size {'''))
p('C08-lt', 'C08', (FR, 'if len <= self.max_frame_size {', 'if len < self.max_frame_size {'))
p('C09-u16', 'C09', (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size', 'if (buf.len() - mem::size_of::<u32>()) as u16 as usize > self.max_frame_size'))
p('C09-incl', 'C09', (FR, 'if buf.len() - mem::size_of::<u32>() > self.max_frame_size', 'if buf.len() > self.max_frame_size'))
p('C10-flush', 'C10', (FR, 'w.flush().await.map_err(|_| Io)?;', 'if buf.len() > 64 {\n            w.flush().await.map_err(|_| Io)?;\n        }'))
p('C10-flusherr', 'C10', (FR, 'w.flush().await.map_err(|_| Io)?;', 'let _ = w.flush().await;'))
p('C10-read', 'C10', (FR, 'r.read_exact(&mut buf).await.map_err(|_| Io)?;', 'let n = r.read(&mut buf).await.map_err(|_| Io)?;\n    if n < len {\n        r.read_exact(&mut buf[n..]).await.map_err(|_| Io)?;\n    } else if n == 0 {\n        return Err(Io);\n    }'))
p('C10-once', 'C10', (FR, 'r.read_exact(&mut buf).await.map_err(|_| Io)?;', 'let n = r.read(&mut buf).await.map_err(|_| Io)?;\n    buf.truncate(n);'))
p('C11-inv', 'C11', (FR, 'buf.get_frame()\n', 'buf.get_frame().map_err(|e| if e == BadFrameSize { Invalid } else { e })\n'))
p('C11-ver', 'C11', (D, '.map_err(|_| BadVersion)', '.map_err(|_| NoVersion)'))
