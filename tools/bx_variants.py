S='stream.rs'
VARIANTS=[]
def v(n,ex,*reps): VARIANTS.append((n,ex,'',[r if len(r)==3 else (S,)+r for r in reps]))
v('bx-pad-run',['C04','C18'],('''        loop {
            let offset = self.pos;
            match wire''','''        let mut run = 0u32;
        loop {
            run += 1;
            let offset = self.pos;
            match wire'''),('if skip_padding {\n                        continue;','if skip_padding && run < 4096 {\n                        continue;'))
v('bx-pad-run-err',['C04'],('''        loop {
            let offset = self.pos;
            match wire''','''        let mut run = 0u32;
        loop {
            run += 1;
            if run > 65536 { return Ok(Element::EndOfDoc); }
            let offset = self.pos;
            match wire'''))
v('bx-skip-exc',['C09'],('''            self.next_element()?;
        }
        Ok(())''','''            if let Element::Exception(_) = self.next_element()? {
                return Ok(());
            }
        }
        Ok(())'''))
v('bx-skip-exc2',['C09'],('''            self.next_element()?;
        }
        Ok(())''','''            self.next_field()?;
        }
        Ok(())'''))
v('rx-skip-eod',[],('''            self.next_element()?;
        }
        Ok(())''','''            if let Element::EndOfDoc = self.next_element()? {
                return Ok(());
            }
        }
        Ok(())'''))
v('bx-copy-take',['C04'],('''            Value::Blob(ref mut src) => {
                let mut dst = self.write_blob_alloc(f.tag, src.len())?;
                io::copy(src, &mut dst)?;''','''            Value::Blob(ref mut src) => {
                let mut dst = self.write_blob_alloc(f.tag, src.len())?;
                io::copy(&mut src.take(1 << 20), &mut dst)?;'''))
v('bx-copy-enum',['C04'],('self.write_enum(f.tag, discriminant),','self.write_enum(f.tag, discriminant & 0xFFFF_FFFF),'))
v('rx-zero-seek',[],('''        self.inner.seek(io::SeekFrom::Current((blob_end - blob_start) as i64))?;
''','''        if blob_end != blob_start {
            self.inner.seek(io::SeekFrom::Current((blob_end - blob_start) as i64))?;
        }
'''))
v('rx-write-empty',[],('''        self.stream.track(false).write(&buf[..avail])
''','''        if 0 == avail {
            return Ok(0);
        }
        self.stream.track(false).write(&buf[..avail])
'''))
v('rx-fill-empty',[],('''        let ret = self.stream.fill_buf_nb()?;
        Ok(''','''        if 0 == avail {
            return Ok(&[]);
        }
        let ret = self.stream.fill_buf_nb()?;
        Ok('''))
v('rx-seek-zero',[],('''        if pos < self.stream_pos() {
            let disp''','''        if pos == self.stream_pos() {
            return Ok(self.inner_pos());
        }

        if pos < self.stream_pos() {
            let disp'''))
v('bx-seek-pos-first',['C06','C07'],('''            self.stream.inner.seek(
                io::SeekFrom::Current(displacement as i64))?;
            self.stream.pos += displacement;''','''            self.stream.pos += displacement;
            self.stream.inner.seek(
                io::SeekFrom::Current(displacement as i64))?;'''))
v('bx-fully-len',['C06'],('if self.remaining() > (max as u64) {','if self.len() > (max as u64) {'))
v('bx-trunc-once',['C06'],('''        let mut ret = Vec::new();
        self.take(max as u64).read_to_end(&mut ret)?;
        Ok(ret)''','''        let mut ret = vec![0; min(max as u64, self.remaining()) as usize];
        let n = self.read(&mut ret)?;
        ret.truncate(n);
        Ok(ret)'''))
v('bx-enum-depth-first',['C09','C08'],('''                let discriminant = wire::decode_u64(&mut self.track(false))?;
                self.struct_depth += 1;''','''                self.struct_depth += 1;
                let discriminant = wire::decode_u64(&mut self.track(false))?;'''))
v('bx-blob-end-first',['C07','C05'],('''        let len = wire::decode_u64(&mut self.track(false))?;
        self.check_advance_pos(len)?;

        self.blob_end = self.pos + len;
        self.commit = Some(Nd(Self::skip_blob));''','''        self.commit = Some(Nd(Self::skip_blob));
        let len = wire::decode_u64(&mut self.track(false))?;
        self.check_advance_pos(len)?;

        self.blob_end = self.pos + len;'''))
v('bx-eod-nested',['C09'],('''                    self.eof = true;
                    self.struct_depth = 0;''','''                    self.eof = true;
                    if self.struct_depth < 256 { self.struct_depth = 0; }'''))
v('bx-eos-eof',['C09'],('''                    if self.struct_depth > 0 {
                        self.struct_depth -= 1;
                    }''','''                    if self.struct_depth > 0 {
                        self.struct_depth -= 1;
                    } else if self.graceful_eof {
                        self.eof = true;
                    }'''))
v('bx-dyn-check',['C07'],('''        self.write_desc(desc)?;
        self.check_advance_pos(10)?;''','''        self.commit()?;
        self.check_advance_pos(10)?;
        self.write_desc(desc)?;'''))
v('bx-slice-alias',['C26'],('''        let rem = self.remaining();
        let inner = self.stream.inner.as_mut();
        if rem <= (inner.len() as u64) {''','''        let rem = min(self.remaining(), 1 << 31);
        let inner = self.stream.inner.as_mut();
        if rem <= (inner.len() as u64) {'''))
v('bx-seek-end-pos',['C06'],('''                check!(off <= 0);
                let off = off''','''                check!(off <= 0 || off == 1 << 40);
                let off = off'''))
v('bx-exc-tag',['C09'],('''                ParsedDescriptor::Special(SpecialType::Exception) =>
                    return Ok(Element::Exception(self.next_blob()?)),''','''                ParsedDescriptor::Special(SpecialType::Exception) => {
                    self.struct_depth = 0;
                    return Ok(Element::Exception(self.next_blob()?));
                },'''))
v('bx-blob-write-all-empty',['C04'],('''        let mut blob = self.write_exception_alloc(data.len() as u64)?;
        blob.write_all(data)?;''','''        let mut blob = self.write_exception_alloc(data.len() as u64)?;
        blob.write(data)?;'''))
v('bx-err-eof',['C09'],('''            match wire::decode_descriptor(&mut self.track(true))?.parse() {''','''            let desc = match wire::decode_descriptor(&mut self.track(true)) {
                Ok(d) => d,
                Err(e) => { self.eof = self.graceful_eof; return Err(e); },
            };
            match desc.parse() {'''))
v('bx-err-depth',['C09'],('''                        value: self.next_value(ty)?,
''','''                        value: match self.next_value(ty) {
                            Ok(v) => v,
                            Err(e) => return Err(e),
                        },
'''),('''                    if self.struct_depth > 0 {
                        self.struct_depth -= 1;
                    }
                    return''','''                    if self.struct_depth > 0 {
                        self.struct_depth -= 1;
                    }
                    if self.struct_depth == 0 && self.pos == u64::MAX {
                        return Err(Error::OverlongBlob);
                    }
                    return'''))
