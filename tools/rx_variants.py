S='stream.rs'
VARIANTS=[]
src=open('/repo/src/stream.rs').read()
def v(n,*reps): VARIANTS.append((n,[],'',[r if len(r)==3 else (S,)+r for r in reps]))
def cut(a,b,after=0):
    i=src.index(a,after); j=src.index(b,i)
    return src[i:j]
SEEK=cut('        let pos = match pos {\n            io::SeekFrom::Start(pos) => {','        Ok(self.inner_pos())')
MAC=cut('        macro_rules! check {\n            ($cond:expr) => { if !($cond)','        let pos = match pos {')
v('rx-seek-i128',(MAC,''),(SEEK,'''        let here = self.inner_pos() as i128;
        let target = match pos {
            io::SeekFrom::Start(pos) => pos as i128,
            io::SeekFrom::End(off) => self.len as i128 + off as i128,
            io::SeekFrom::Current(off) => here + off as i128,
        };
        if target < 0 || target > self.len as i128 {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "seek out of blob bounds"));
        }
        let displacement = target - here;
        if displacement > i64::MAX as i128 || displacement < -(i64::MAX as i128) {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "attempt to seek blob by >= 8 EB"));
        }
        self.stream.inner.seek(io::SeekFrom::Current(displacement as i64))?;
        if displacement < 0 {
            self.stream.pos -= (-displacement) as u64;
        } else {
            self.stream.pos += displacement as u64;
        }

'''))
v('rx-seek-target',(MAC,''),(SEEK,'''        let out_of_bounds = || io::Error::new(
            io::ErrorKind::InvalidInput,
            "seek out of blob bounds");
        let target = match pos {
            io::SeekFrom::Start(pos) => Some(pos),
            io::SeekFrom::End(off) if off > 0 => None,
            io::SeekFrom::End(off) => self.len.checked_sub(off.wrapping_neg() as u64),
            io::SeekFrom::Current(off) if off < 0 =>
                self.inner_pos().checked_sub(off.wrapping_neg() as u64),
            io::SeekFrom::Current(off) => self.inner_pos().checked_add(off as u64),
        }.filter(|&t| t <= self.len).ok_or_else(out_of_bounds)?;

        let pos = self.start_pos() + target;
        let backward = pos < self.stream.pos;
        let displacement = if backward {
            self.stream.pos - pos
        } else {
            pos - self.stream.pos
        };
        if displacement > (i64::MAX as u64) {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "attempt to seek blob by >= 8 EB"));
        }
        let signed = displacement as i64;
        self.stream.inner.seek(io::SeekFrom::Current(
            if backward { -signed } else { signed }))?;
        self.stream.pos = pos;

'''))
v('rx-skipblob',('''        if self.blob_end > self.pos {
            let n = self.blob_end - self.pos;
            let skipped =''','''        let n = self.blob_end.saturating_sub(self.pos);
        if n > 0 {
            let skipped ='''))
v('rx-remaining',('        self.stream.blob_end - self.stream.pos\n','        let Stream { blob_end, pos, .. } = *self.stream;\n        blob_end - pos\n'))
v('rx-write-min',('''        let avail = min(buf.len(),
                        min(self.remaining(), usize::MAX as u64) as usize);

        self.stream.track(false).write(&buf[..avail])''','''        let avail = (buf.len() as u64).min(self.remaining()) as usize;
        let (head, _) = buf.split_at(avail);
        self.stream.track(false).write(head)'''))
v('rx-read-min',('''        let buf = if buf.len() as u64 > remaining {
            &mut buf[..(remaining as usize)]
        } else {
            buf
        };

        let n = self.stream.track(false).read(buf)?;
        Ok(n)''','''        let cap = (buf.len() as u64).min(remaining) as usize;
        self.stream.track(false).read(&mut buf[..cap])'''))
v('rx-alloc-checked',('''        if len > u64::MAX - OVERHEAD {
            return Err(Error::OverlongBlob);
        }

        self.check_advance_pos(len + OVERHEAD)?;''','''        let total = len.checked_add(OVERHEAD).ok_or(Error::OverlongBlob)?;
        self.check_advance_pos(total)?;'''))
v('rx-finish-checked',('''        if self.pos < blob_start {
            return Err(Error::PositionBeforeStartOfDynamicBlob);
        }

        let header = blob_start - 10;
        let displacement = self.pos - header;''','''        let blob_len = blob_end.checked_sub(blob_start)
            .ok_or(Error::PositionBeforeStartOfDynamicBlob)?;

        let displacement = blob_end - (blob_start - 10);'''),('encode_fixed_u64(&mut self.track(false), blob_end - blob_start)','encode_fixed_u64(&mut self.track(false), blob_len)'),('io::SeekFrom::Current((blob_end - blob_start) as i64)','io::SeekFrom::Current(blob_len as i64)'))
v('rx-slice-get',('''        let rem = self.remaining();
        let inner = self.stream.inner.as_ref();
        if rem <= (inner.len() as u64) {
            Ok(&inner[..(rem as usize)])
        } else {
            Err(Error::TruncatedBlob(rem - (inner.len() as u64)))
        }''','''        let rem = self.remaining();
        let inner = self.stream.inner.as_ref();
        inner.get(..rem as usize)
            .ok_or_else(|| Error::TruncatedBlob(rem - inner.len() as u64))'''))
v('rx-slice-sub',('''        if rem <= (inner.len() as u64) {
            Ok(&mut inner[..(rem as usize)])
        } else {
            Err(Error::TruncatedBlob(rem - (inner.len() as u64)))
        }''','''        match rem.checked_sub(inner.len() as u64) {
            None | Some(0) => Ok(&mut inner[..(rem as usize)]),
            Some(missing) => Err(Error::TruncatedBlob(missing)),
        }'''))
v('rx-trunc-cap',('''        let mut ret = Vec::new();
        self.take(max as u64).read_to_end(&mut ret)?;''','''        let mut ret = Vec::with_capacity(min(max as u64, 64) as usize);
        let mut limited = self.take(max as u64);
        limited.read_to_end(&mut ret)?;'''))
v('rx-blobdata-empty',('''        let mut blob = self.write_blob_alloc(tag, data.len() as u64)?;
        blob.write_all(data)?;
        Ok(blob)''','''        let mut blob = self.write_blob_alloc(tag, data.len() as u64)?;
        if !data.is_empty() {
            blob.write_all(data)?;
        }
        Ok(blob)'''))
v('rx-consume',('''        debug_assert!((amt as u64) <= self.remaining());
        self.stream.track(false).consume(amt)''','''        let left = self.remaining();
        debug_assert!(left >= amt as u64, "consume past the end of the blob");
        self.stream.track(false).consume(amt);'''))
v('rx-endcheck',('''        if self.pos != self.blob_end {
            Err(Error::IncompleteBlob(self.blob_end - self.pos))
        } else {
            Ok(())
        }''','''        match self.blob_end - self.pos {
            0 => Ok(()),
            missing => Err(Error::IncompleteBlob(missing)),
        }'''))
v('rx-skipfield',('''            Value::Enum(_, dec) | Value::Struct(dec) =>
                dec.skip_up(self.depth),
            Value::Integer(..) | Value::Blob(..) => Ok(()),''','''            Value::Integer(..) | Value::Blob(..) => Ok(()),
            Value::Struct(stream) => stream.skip_up(self.depth),
            Value::Enum(_, stream) => {
                stream.skip_up(self.depth)?;
                Ok(())
            },'''))
v('rx-eos-sat',('''                    if self.struct_depth > 0 {
                        self.struct_depth -= 1;
                    }
                    return''','''                    self.struct_depth = self.struct_depth.saturating_sub(1);
                    return'''))
v('rx-depth-max',('''                    if 0 == self.struct_depth {
                        self.struct_depth = 1;
                    }
''','''                    self.struct_depth = self.struct_depth.max(1);
'''))
