D, B, V = 'spop/src/frame/decode.rs', 'spop/src/data/buf.rs', 'spop/src/data/varint.rs'
EN, FR, FG = 'spop/src/frame/encode.rs', 'spop/src/frame/framer.rs', 'spop/src/frame/fragment.rs'
CO, PR, CN, HS = 'spoa/src/conn.rs', 'spoa/src/state/process.rs', 'spoa/src/state/connect.rs', 'spoa/src/state/handshake.rs'
AG, AK, DI, BL = 'spoa/src/agent.rs', 'spoa/src/runtime/acker.rs', 'spoa/src/runtime/dispatch.rs', 'spoa/src/runtime/builder.rs'
RT, PC, RQ, ER = 'spoa/src/runtime/runtime.rs', 'spoa/src/runtime/processor.rs', 'spoa/src/req.rs', 'spoa/src/error.rs'
W = 'w.write_all(&buf).await.map_err(|_| Io)?;'
R = 'r.read_exact(&mut buf).await.map_err(|_| Io)?;'
r('fr/write-loop', (FR, W, '''let mut n = 0;
        while n < buf.len() {
            match w.write(&buf[n..]).await.map_err(|_| Io)? {
                0 => return Err(Io),
                k => n += k,
            }
        }'''))
r('fr/write-loop2', (FR, W, '''let mut rest = &buf[..];
        while !rest.is_empty() {
            let k = w.write(rest).await.map_err(|_| Io)?;
            if k == 0 {
                return Err(Io);
            }
            rest = &rest[k..];
        }'''))
r('fr/write-buf', (FR, W, '''let mut out = &buf[..];
        while bytes::Buf::has_remaining(&out) {
            if w.write_buf(&mut out).await.map_err(|_| Io)? == 0 {
                return Err(Io);
            }
        }'''))
r('fr/write-all-buf', (FR, W, '''let mut out = &buf[..];
        w.write_all_buf(&mut out).await.map_err(|_| Io)?;'''))
r('fr/read-loop', (FR, R, '''let mut n = 0;
    while n < len {
        match r.read(&mut buf[n..]).await.map_err(|_| Io)? {
            0 => return Err(Io),
            k => n += k,
        }
    }'''))
r('fr/read-after', (FR, R, '''let mut n = 0;
    while n < len {
        let k = r.read(&mut buf[n..]).await.map_err(|_| Io)?;
        if k == 0 {
            break;
        }
        n += k;
    }
    if n < len {
        return Err(Io);
    }'''))
r('fr/read-len-bytes', (FR, 'let len = r.read_u32().await.map_err(|_| Io)? as usize;', '''let mut b = [0u8; 4];
        r.read_exact(&mut b).await.map_err(|_| Io)?;
        let len = u32::from_be_bytes(b) as usize;'''))
