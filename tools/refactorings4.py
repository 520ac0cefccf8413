CONN = 'spoa/src/conn.rs'
CON = 'spoa/src/state/connect.rs'
HS = 'spoa/src/state/handshake.rs'
PRC = 'spoa/src/state/process.rs'
FRG = 'spop/src/frame/fragment.rs'
FRGF = "        match self.0.entry(key) {\n            Entry::Occupied(mut e) => {\n                if fragmented {\n                    e.get_mut().append(&mut value);\n\n                    Ok(None)\n                } else {\n                    let mut v = e.remove();\n\n                    v.append(&mut value);\n\n                    Ok(Some(v))\n                }\n            }\n            Entry::Vacant(e) => {\n                if fragmented {\n                    e.insert(value);\n\n                    Ok(None)\n                } else {\n                    Ok(Some(value))\n                }\n            }\n        }"
r('frg/tuple-match', (FRG, FRGF, "        match (self.0.entry(key), fragmented) {\n            (Entry::Occupied(mut e), true) => {\n                e.get_mut().append(&mut value);\n                Ok(None)\n            }\n            (Entry::Occupied(e), false) => {\n                let mut v = e.remove();\n                v.append(&mut value);\n                Ok(Some(v))\n            }\n            (Entry::Vacant(e), true) => {\n                e.insert(value);\n                Ok(None)\n            }\n            (Entry::Vacant(_), false) => Ok(Some(value)),\n        }"))
r('frg/extend2', (FRG, "                    e.get_mut().append(&mut value);", "                    e.get_mut().extend(value);"), (FRG, "        mut value: Vec<T>,", "        value: Vec<T>,"), (FRG, "                    v.append(&mut value);", "                    v.extend(value);"))
r('frg/result', (FRG, FRGF, "        let whole = " + FRGF.replace("Ok(None)", "None").replace("Ok(Some(v))", "Some(v)").replace("Ok(Some(value))", "Some(value)").lstrip() + ";\n\n        Ok(whole)"))
r('frg/empty-skip', (FRG, "            Entry::Vacant(e) => {\n                if fragmented {\n                    e.insert(value);", "            Entry::Vacant(e) => {\n                if fragmented {\n                    let _ = e.insert(value);"))
r('frg/remove-first', (FRG, FRGF, "        let mut items = match self.0.remove(&key) {\n            Some((_, v)) => v,\n            None => Vec::new(),\n        };\n        items.append(&mut value);\n\n        if fragmented {\n            self.0.insert(key, items);\n\n            Ok(None)\n        } else {\n            Ok(Some(items))\n        }"), (FRG, "use dashmap::{DashMap, Entry};", "use dashmap::DashMap;"))
r('frg/remove-or-default', (FRG, FRGF, "        let mut items = self.0.remove(&key).map(|(_, v)| v).unwrap_or_default();\n        items.append(&mut value);\n\n        if fragmented {\n            self.0.insert(key, items);\n            Ok(None)\n        } else {\n            Ok(Some(items))\n        }"), (FRG, "use dashmap::{DashMap, Entry};", "use dashmap::DashMap;"))
r('frg/helper-handler', (FRG, "                fragmented,\n                stream_id,\n                frame_id,\n                messages,\n            }) => self\n                .0\n                .reassemble(fragmented, (stream_id, frame_id), messages),", "                fragmented,\n                stream_id,\n                frame_id,\n                messages,\n            }) => self.reassemble(fragmented, stream_id, frame_id, messages),"))
r('hs/caps-set', (HS, "        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<Vec<_>>();", "        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<HashSet<_>>();"), (HS, "        capabilities: capabilities.into_iter().collect(),", "        capabilities,"))
r('hs/caps-any', (HS, "        self.capabilities.contains(&Capability::Fragmentation)", "        self.capabilities.iter().any(|cap| *cap == Capability::Fragmentation)"))
r('hs/caps-any2', (HS, "        self.capabilities.contains(&Capability::Fragmentation)", "        self.capabilities\n            .iter()\n            .any(|cap| matches!(cap, Capability::Fragmentation))"))
r('hs/supports', (HS, "    pub fn supports_async(&self) -> bool {\n        self.capabilities.contains(&Capability::Async)\n    }", "    fn supports(&self, cap: Capability) -> bool {\n        self.capabilities.contains(&cap)\n    }\n\n    pub fn supports_async(&self) -> bool {\n        self.supports(Capability::Async)\n    }"), (HS, "        self.capabilities.contains(&Capability::Fragmentation)", "        self.supports(Capability::Fragmentation)"))
r('hs/min', (HS, "    let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);", "    let max_frame_size = if max_frame_size < hello.max_frame_size {\n        max_frame_size\n    } else {\n        hello.max_frame_size\n    };"), (HS, "use std::cmp;\n", ""))
r('hs/version-max', (HS, "        .into_iter()\n        .rev()\n        .find(|version| supported_versions.iter().rev().any(|v| v == version))\n", "        .into_iter()\n        .filter(|version| supported_versions.contains(version))\n        .max()\n"), (HS, "    hello.supported_versions.sort();\n    supported_versions.sort();\n", ""), (HS, "    mut supported_versions: Vec<Version>,", "    supported_versions: Vec<Version>,"), (HS, "    mut hello: HaproxyHello,", "    hello: HaproxyHello,"))
r('con/let-else', (CON, "        if let Frame::HaproxyHello(hello) = frame {\n            self.handshake(hello).await\n        } else {\n            Err(Error::Invalid).context(\"expected HaproxyHello frame\")\n        }", "        let Frame::HaproxyHello(hello) = frame else {\n            return Err(Error::Invalid).context(\"expected HaproxyHello frame\");\n        };\n        self.handshake(hello).await"))
r('con/reassembly-if', (CON, "                handshaked\n                    .supports_fragmentation()\n                    .then(Reassembly::default),\n", "                if handshaked.supports_fragmentation() {\n                    Some(Reassembly::default())\n                } else {\n                    None\n                },\n"))
r('con/hc-early', (CON, "        let next = if is_healthcheck {\n            State::Disconnecting\n        } else {\n", "        if is_healthcheck {\n            return Ok((State::Disconnecting, Some(frame)));\n        }\n        let next = {\n"))
r('con/hc-eq', (CON, "        let is_healthcheck = hello.healthcheck.unwrap_or_default();", "        let is_healthcheck = matches!(hello.healthcheck, Some(true));"))
r('con/hc-eq2', (CON, "        let is_healthcheck = hello.healthcheck.unwrap_or_default();", "        let is_healthcheck = hello.healthcheck == Some(true);"))
r('con/service-fn', (CON, "            let service = runtime.service_maker.write().await.make().await?;\n", "            let service = {\n                let mut maker = runtime.service_maker.write().await;\n                maker.make().await?\n            };\n"))
r('prc/match-reasm', (PRC, "                let msgs = if let Some(ref reassembly) = self.reassembly {\n                    reassembly.reassemble(fragmented, stream_id, frame_id, messages)?\n                } else if fragmented {\n                    return Err(FragmentNotSupported).context(\"fragmentation was not negotiated\");\n                } else {\n                    Some(messages)\n                };", "                let msgs = match &self.reassembly {\n                    Some(reassembly) => {\n                        reassembly.reassemble(fragmented, stream_id, frame_id, messages)?\n                    }\n                    None if fragmented => {\n                        return Err(FragmentNotSupported)\n                            .context(\"fragmentation was not negotiated\");\n                    }\n                    None => Some(messages),\n                };"))
r('prc/let-else', (PRC, "                if let Some(msgs) = msgs {\n", "                let Some(msgs) = msgs else {\n                    return Ok((self.into(), None));\n                };\n                {\n"), (PRC, "                } else {\n                    Ok((self.into(), None))\n                }\n            }\n            Frame::HaproxyDisconnect", "                }\n            }\n            Frame::HaproxyDisconnect"))
r('prc/timeout-map', (PRC, "                        Ok(res) => match res {\n                            Ok(actions) => {\n                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                Ok((self.into(), Some(ack)))\n                            }\n                            Err(err) => Err(Unknown).context(err.to_string()),\n                        },\n", "                        Ok(Ok(actions)) => {\n                            let ack = Frame::ack(stream_id, frame_id, actions);\n\n                            Ok((self.into(), Some(ack)))\n                        }\n                        Ok(Err(err)) => Err(Unknown).context(err.to_string()),\n"))
r('prc/method', (PRC, "            Frame::HaproxyDisconnect(Disconnect {\n                status_code,\n                message,\n            }) => {\n                trace!(?status_code, ?message, \"disconnecting\");\n", "            Frame::HaproxyDisconnect(Disconnect { .. }) => {\n"))
r('prc/format', (PRC, "context(err.to_string())", "context(format!(\"{err}\"))"))
r('conn/fail-loop', (CONN, "        match self.send_disconnect(status_code, message).await {\n            // the description does not fit, the status code has to\n            Err(Status::TooBig) => self.send_disconnect(status_code, String::new()).await?,\n            res => res?,\n        };\n", "        let mut res = self.send_disconnect(status_code, message).await;\n        if let Err(Status::TooBig) = res {\n            res = self.send_disconnect(status_code, String::new()).await;\n        }\n        res?;\n"))
r('conn/fail-matches', (CONN, "        match self.send_disconnect(status_code, message).await {\n            // the description does not fit, the status code has to\n            Err(Status::TooBig) => self.send_disconnect(status_code, String::new()).await?,\n            res => res?,\n        };\n", "        let sent = self.send_disconnect(status_code, message).await;\n        if matches!(sent, Err(Status::TooBig)) {\n            self.send_disconnect(status_code, String::new()).await?;\n        } else {\n            sent?;\n        }\n"))
r('conn/and-then', (CONN, "                    let handled = match frame {\n                        Ok(frame) => state.handle_frame(frame).await,\n                        Err(status) => Err(status.into()),\n                    };\n", "                    let handled = async {\n                        let frame = frame?;\n                        state.handle_frame(frame).await\n                    }\n                    .await;\n"))
r('conn/while', (CONN, "        loop {\n            let state = mem::replace(&mut self.state, State::Disconnecting);\n", "        while !matches!(self.state, State::Disconnecting) {\n            let state = mem::replace(&mut self.state, State::Disconnecting);\n"))
r('conn/reply-fn', (CONN, "                                match self.codec.write_frame(frame).await {\n                                    // nothing was sent, HAProxy has to know why\n                                    Err(Status::TooBig) => {\n                                        self.fail(Status::TooBig.into()).await?;\n                                        break;\n                                    }\n                                    res => res?,\n                                };\n", "                                let written = self.codec.write_frame(frame).await;\n                                if matches!(written, Err(Status::TooBig)) {\n                                    self.fail(Status::TooBig.into()).await?;\n                                    break;\n                                }\n                                written?;\n"))
r('conn/if-let-hello', (CONN, "                                let negotiated = match frame {\n                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),\n                                    _ => None,\n                                };\n", "                                let negotiated = if let Frame::AgentHello(hello) = &frame {\n                                    Some(hello.max_frame_size)\n                                } else {\n                                    None\n                                };\n"))
