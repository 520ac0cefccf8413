"""Rewritings that keep the behaviour: closures as patterns, sizes added up in other ways."""
D = 'spop/src/frame/decode.rs'
B = 'spop/src/data/buf.rs'
PC = 'spoa/src/runtime/processor.rs'
r('cl/split-closure', (D, "s.split(',')\n            .map(|s| s.trim())", "s.split(|c: char| c == ',')\n            .map(|s| s.trim_matches(|c: char| c.is_whitespace()))"))
r('cl/split-array', (D, "s.split(',')\n            .map(|s| s.trim())", "s.split(&[','][..])\n            .map(|s| s.trim_matches(char::is_whitespace))"))
r('sz/fold', (B, '        let mut sz = 0;\n\n        for kv in i {\n            sz += self.put_kv(kv.into());\n        }\n\n        sz\n', '        i.into_iter().fold(0, |sz, kv| sz + self.put_kv(kv.into()))\n'))
r('sz/sum', (B, '        let mut sz = 0;\n\n        for kv in i {\n            sz += self.put_kv(kv.into());\n        }\n\n        sz\n', '        i.into_iter().map(|kv| self.put_kv(kv.into())).sum()\n'))
r('sz/while', (B, '        let mut sz = 0;\n\n        for kv in i {\n            sz += self.put_kv(kv.into());\n        }\n\n        sz\n', '        let mut it = i.into_iter();\n        let mut total = 0usize;\n        while let Some(kv) = it.next() {\n            let n = self.put_kv(kv.into());\n            total = n + total;\n        }\n        total\n'))
r('wk/fresh', (PC, '        self.0.poll_recv(cx)\n', '        let mut cx = Context::from_waker(cx.waker());\n        self.0.poll_recv(&mut cx)\n'))
