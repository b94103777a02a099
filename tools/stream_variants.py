VARIANTS = [
 # --- bugs
 ('enc-9bytes', ['C01'], 'wire.rs', ('if n + 1 < bytes.len() {\n            bytes[n] |= 0x80;', 'if n + 1 < bytes.len() && i > 0 {\n            bytes[n] |= 0x80;')),
 ('dec-wide', ['C01'], 'wire.rs', ('if shift > 256 * 7', 'if shift > 70')),
 ('zigzag', ['C02'], 'wire.rs', ('((i << 1) ^ (i >> 63)) as u64', '((i << 1) ^ (i >> 62)) as u64')),
 ('i32range', ['C02'], 'stream.rs', ('if v < ($t::MIN as $long)', 'if v <= ($t::MIN as $long)')),
 ('tag62', ['C03'], 'wire.rs', ('tag >= 1 && tag <= 63', 'tag >= 1 && tag <= 64')),
 ('enum-nodisc', ['C04'], 'stream.rs', ('wire::encode_u64(&mut self.track(false), discriminant)?;', 'if discriminant > 0 { wire::encode_u64(&mut self.track(false), discriminant)?; }')),
 ('copy-remaining', ['C04'], 'stream.rs', ('let mut dst = self.write_blob_alloc(f.tag, src.len())?;', 'let mut dst = self.write_blob_alloc(f.tag, src.remaining())?;')),
 ('pos-after', ['C04'], 'stream.rs', ('            let offset = self.pos;\n            match wire::decode_descriptor(&mut self.track(true))?.parse() {\n                ParsedDescriptor::Pair(ty, tag) => {', '            match wire::decode_descriptor(&mut self.track(true))?.parse() {\n                ParsedDescriptor::Pair(ty, tag) => { let offset = self.pos;')),
 ('pad-exit', ['C04'], 'stream.rs', ('while 0 != (self.pos & (align - 1)) {\n            self.write_padding()?;', 'while 0 != (self.pos & (align - 1)) {\n            self.write_padding()?; if self.pos & 7 == 0 { break; }')),
 ('nocommit-element', ['C05'], 'stream.rs', ('        self.commit()?;\n\n        loop {\n            let offset', '        if self.struct_depth > 0 { self.commit()?; }\n\n        loop {\n            let offset')),
 ('nocommit-seek', ['C05'], 'stream.rs', ('        self.commit()?;\n        let off = self.inner.seek(whence)?;', '        let off = self.inner.seek(whence)?;')),
 ('commit-swallow', ['C05'], 'stream.rs', ('            f(self)?;\n            self.commit = None;', '            self.commit = None; let _ = f(self);')),
 ('reset-drops', ['C05'], 'stream.rs', ('        self.commit()?;\n        self.blob_end = 0;', '        self.commit = None;\n        self.blob_end = 0;')),
 ('exc-noslot', ['C05'], 'stream.rs', ('        self.blob_end = self.pos + len;\n        self.commit = Some(Nd(Self::check_at_end_of_blob));', '        self.blob_end = self.pos + len;\n        if len > 0 { self.commit = Some(Nd(Self::check_at_end_of_blob)); }')),
 ('blob-read-len', ['C06'], 'stream.rs', ('let buf = if buf.len() as u64 > remaining {\n            &mut buf[..(remaining as usize)]', 'let buf = if buf.len() as u64 > self.len {\n            &mut buf[..(remaining as usize)]')),
 ('blob-seek-end', ['C06'], 'stream.rs', ('check!(off <= self.remaining());', 'check!(off <= self.len);')),
 ('blob-write-len', ['C06'], 'stream.rs', ('min(self.remaining(), usize::MAX as u64) as usize);\n\n        self.stream.track(false).write', 'min(self.len, usize::MAX as u64) as usize);\n\n        self.stream.track(false).write')),
 ('fillbuf', ['C06'], 'stream.rs', ('Ok(&ret[..min(avail, ret.len())])', 'Ok(ret)')),
 ('slice-len', ['C06'], 'stream.rs', ('let rem = self.remaining();\n        let inner = self.stream.inner.as_mut();', 'let rem = self.len;\n        let inner = self.stream.inner.as_mut();')),
 ('seek-nopos', ['C07'], 'stream.rs', ('self.stream.pos -= displacement;', 'if displacement != self.len { self.stream.pos -= displacement; }')),
 ('finish-noseek', ['C07'], 'stream.rs', ('self.inner.seek(io::SeekFrom::Current((blob_end - blob_start) as i64))?;', 'self.inner.seek(io::SeekFrom::Current(displacement as i64))?;')),
 ('consume-pos', ['C07'], 'stream.rs', ('self.0.inner.consume(amt);\n        self.0.pos += amt as u64;', 'self.0.inner.consume(amt);\n        self.0.pos += if amt > 0xFFFF_FFFF { 0 } else { amt as u64 };')),
 ('blob-ovf', ['C07'], 'stream.rs', ('        let len = wire::decode_u64(&mut self.track(false))?;\n        self.check_advance_pos(len)?;', '        let len = wire::decode_u64(&mut self.track(false))?;')),
 ('graceful-int', ['C08'], 'stream.rs', ('DescriptorType::Integer => Value::Integer(\n                wire::decode_u64(&mut self.track(false))?)', 'DescriptorType::Integer => Value::Integer(\n                wire::decode_u64(&mut self.track(true))?)')),
 ('graceful-flag', ['C08'], 'stream.rs', ('let graceful_eof = graceful_eof && self.graceful_eof;', 'let graceful_eof = graceful_eof && (self.graceful_eof || self.struct_depth == 0);')),
 ('skip-trunc', ['C08'], 'stream.rs', ('            if skipped < n {\n                return', '            if skipped < n && skipped > 0 {\n                return')),
 ('skip-bigseek', ['C08'], 'stream.rs', ('let second = self.skip_by_seek(n - first, seek)?;\n                Ok(first + second)', 'let second = self.skip_by_seek(n - first - 1, seek)?;\n                Ok(first + second + 1)')),
 ('read-fully', ['C06'], 'stream.rs', ('if self.remaining() > 0 {\n            return Err(Error::TruncatedBlob(self.remaining()));\n        }\n        Ok(ret)', 'Ok(ret)')),
 ('depth-enum', ['C09'], 'stream.rs', ('let discriminant = wire::decode_u64(&mut self.track(false))?;\n                self.struct_depth += 1;', 'let discriminant = wire::decode_u64(&mut self.track(false))?;\n                if discriminant != 0 { self.struct_depth += 1; }')),
 ('depth-order', ['C09'], 'stream.rs', ('while self.struct_depth > depth {\n            self.next_element()?;', 'while self.struct_depth >= depth && self.struct_depth > 0 {\n            self.next_element()?;')),
 ('seek-depth', ['C09'], 'stream.rs', ('        self.struct_depth = 0;\n        Ok(off)', '        Ok(off)')),
 ('endstruct', ['C09'], 'stream.rs', ('if self.struct_depth > 0 {\n                        self.struct_depth -= 1;', 'if self.struct_depth > 1 {\n                        self.struct_depth -= 1;')),
 # --- behaviour preserving
 ('r-comment', [], 'stream.rs', ('fn check_advance_pos(pos', '// hello\nfn check_advance_pos(pos')),
 ('r-rename-private', [], 'stream.rs', [('fn skip_blob(&mut self)', 'fn pass_over_blob(&mut self)'), ('Self::skip_blob', 'Self::pass_over_blob')]),
 ('r-take', [], 'stream.rs', ('        if let Some(Nd(f)) = self.commit {\n            f(self)?;\n            self.commit = None;\n        }\n        Ok(())', '        match self.commit {\n            None => Ok(()),\n            Some(Nd(f)) => { let res = f(self); if res.is_ok() { self.commit = None; } res }\n        }')),
 ('r-skip-loop', [], 'stream.rs', ('while self.struct_depth > depth {\n            self.next_element()?;\n        }\n        Ok(())', 'loop {\n            if self.struct_depth <= depth { return Ok(()); }\n            self.next_element()?;\n        }')),
 ('r-encode-loop', [], 'wire.rs', ('    loop {\n        bytes[n] = (i & 0x7F) as u8;\n        i >>= 7;\n        if i > 0 {\n            bytes[n] |= 0x80;\n        }\n        n += 1;\n        if 0 == i {\n            break\n        }\n    }', '    while i >= 0x80 {\n        bytes[n] = (i as u8) | 0x80;\n        i >>= 7;\n        n += 1;\n    }\n    bytes[n] = i as u8;\n    n += 1;')),
 ('r-decode-loop', [], 'wire.rs', ('        let v = (b & 0x7F) as u64;', '        let v = u64::from(b % 128);')),
 ('r-blob-read', [], 'stream.rs', ('        let buf = if buf.len() as u64 > remaining {\n            &mut buf[..(remaining as usize)]\n        } else {\n            buf\n        };\n\n        let n = self.stream.track(false).read(buf)?;\n        Ok(n)', '        let want = min(buf.len() as u64, remaining) as usize;\n        self.stream.track(false).read(&mut buf[..want])')),
 ('r-next-helper', [], 'stream.rs', [('                ParsedDescriptor::Special(SpecialType::EndOfDoc) => {\n                    self.eof = true;\n                    self.struct_depth = 0;\n                    return Ok(Element::EndOfDoc);', '                ParsedDescriptor::Special(SpecialType::EndOfDoc) => {\n                    self.finish_doc();\n                    return Ok(Element::EndOfDoc);'), ('    fn next_value(&mut self, ty', '    fn finish_doc(&mut self) { self.struct_depth = 0; self.eof = true; }\n\n    fn next_value(&mut self, ty')]),
 ('r-satsub', [], 'stream.rs', ('                    if self.struct_depth > 0 {\n                        self.struct_depth -= 1;\n                    }\n', '                    self.struct_depth = self.struct_depth.saturating_sub(1);\n')),
 ('r-max', [], 'stream.rs', ('                    if 0 == self.struct_depth {\n                        self.struct_depth = 1;\n                    }\n', '                    self.struct_depth = ::std::cmp::max(1, self.struct_depth);\n')),
 ('r-skip-iter', [], 'stream.rs', ('        if n > (i64::MAX as u64) {\n            let first = self.skip_by_seek(i64::MAX as u64, seek)?;\n            if first < (i64::MAX as u64) {\n                Ok(first)\n            } else {\n                let second = self.skip_by_seek(n - first, seek)?;\n                Ok(first + second)\n            }\n        } else {', '        let max = i64::MAX as u64;\n        if n > max {\n            let first = self.skip_by_seek(max, seek)?;\n            if first == max {\n                self.skip_by_seek(n - max, seek).map(|s| s + max)\n            } else { Ok(first) }\n        } else {')),
 ('r-seek', [], 'stream.rs', ('        if pos < self.stream_pos() {\n            let displacement = self.stream_pos() - pos;', '        let cur = self.stream.pos;\n        if cur > pos {\n            let displacement = cur - pos;')),
 ('r-finish', [], 'stream.rs', ('        let header = blob_start - 10;\n        let displacement = self.pos - header;', '        let written = blob_end - blob_start;\n        let displacement = written + 10;')),
 ('r-pad', [], 'stream.rs', ('while 0 != (self.pos & (align - 1)) {\n            self.write_padding()?;\n        }', 'let mask = align - 1;\n        loop {\n            if self.pos & mask == 0 { break; }\n            self.write_padding()?;\n        }')),
 ('r-desc-direct', [], 'stream.rs', ('        self.commit()?;\n        wire::encode_descriptor(&mut self.track(false),\n                                wire::Descriptor::from(desc))', '        self.commit()?;\n        let d: wire::Descriptor = desc.into();\n        let mut t = self.track(false);\n        t.write_all(&[d.0])?;\n        Ok(())')),
 ('r-checked', [], 'stream.rs', ('    if u64::MAX - pos < n {\n        Err(', '    if pos.checked_add(n).is_none() {\n        Err(')),
 ('r-nextfield', [], 'stream.rs', ('            Element::Padding => unreachable!(),\n            Element::EndOfStruct | Element::EndOfDoc => return Ok(None),\n            Element::Field(field) => return Ok(Some(field)),', '            Element::Field(field) => Ok(Some(field)),\n            Element::EndOfStruct => Ok(None),\n            Element::EndOfDoc => Ok(None),\n            Element::Padding => unreachable!(),')),
]
