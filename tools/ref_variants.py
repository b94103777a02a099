import re
def src(f): return open('/repo/src/' + f).read()
def fn(f, sig, nth=0):
    s = src(f); i = -1
    for _ in range(nth + 1): i = s.index(sig, i + 1)
    j = s.index('{', i); d = 0; k = j
    while True:
        if s[k] == '{': d += 1
        if s[k] == '}':
            d -= 1
            if d == 0: return s[i:k + 1]
        k += 1
def body(f, sig, nth=0):
    t = fn(f, sig, nth); return t[t.index('{'):]
def R(f, sig, new, nth=0):          # replace the whole function
    return (f, fn(f, sig, nth), new)
VARIANTS = []
def v(name, *reps): VARIANTS.append((name, [], None, list(reps)))
W, S, D = 'wire.rs', 'stream.rs', 'de.rs'
v('ref-spectype', (W, body(W, 'fn from_u8(ty: u8) -> Self', 1), '''{
        if ty & 0x80 == 0 {
            if ty == 0 { SpecialType::EndOfStruct } else { SpecialType::EndOfDoc }
        } else if ty == 0x80 { SpecialType::Exception } else { SpecialType::Padding }
    }'''))
v('ref-zigzag', R(W, 'fn unzigzag(i: u64) -> i64', '''fn unzigzag(i: u64) -> i64 {
    (i >> 1) as i64 ^ -((i & 1) as i64)
}'''), R(W, 'fn zigzag(i: i64) -> u64', '''fn zigzag(i: i64) -> u64 {
    ((i as u64) << 1) ^ ((i >> 63) as u64)
}'''))
v('ref-zigzag2', R(W, 'fn unzigzag(i: u64) -> i64', '''fn unzigzag(i: u64) -> i64 {
    let half = (i >> 1) as i64;
    if i & 1 == 1 { !half } else { half }
}'''), R(W, 'fn zigzag(i: i64) -> u64', '''fn zigzag(i: i64) -> u64 {
    if i < 0 { !((i as u64) << 1) } else { (i as u64) << 1 }
}'''))
v('ref-decode-for', (W, body(W, 'fn decode_u64'), '''{
    let mut accum = 0u64;
    for k in 0..257 {
        let b = read_byte(r)?;
        let v = (b & 0x7F) as u64;
        let shift = 7 * k;
        if v != 0 {
            if shift >= 64 || (shift > 57 && v >> (64 - shift) != 0) {
                return Err(Error::IntegerOverflow);
            }
            accum |= v << shift;
        }
        if b < 0x80 {
            return Ok(accum);
        }
    }
    Err(Error::OverwideInteger)
}'''))
v('ref-decode-helper', (W, fn(W, 'pub fn decode_u64'), '''fn group(accum: u64, b: u8, shift: u32) -> Result<u64> {
    let v = (b & 0x7F) as u64;
    if v == 0 { return Ok(accum); }
    if shift >= 64 { return Err(Error::IntegerOverflow); }
    if v << shift >> shift != v { return Err(Error::IntegerOverflow); }
    Ok(accum | v << shift)
}
pub fn decode_u64<R : Read>(r: &mut R) -> Result<u64> {
    let mut accum = 0u64;
    let mut shift = 0;
    loop {
        let b = read_byte(r)?;
        accum = group(accum, b, shift)?;
        shift += 7;
        if b & 0x80 == 0 { return Ok(accum); }
        if shift > 256 * 7 { return Err(Error::OverwideInteger); }
    }
}'''))
v('ref-encode-while', (W, body(W, 'fn encode_u64'), '''{
    let mut bytes = [0u8;10];
    let mut n = 0;
    while i >= 0x80 {
        bytes[n] = (i as u8 & 0x7F) | 0x80;
        n += 1;
        i >>= 7;
    }
    bytes[n] = i as u8;
    Ok(w.write_all(&bytes[..n + 1])?)
}'''))
v('ref-encode-fixed', (W, body(W, 'fn encode_fixed_u64'), '''{
    let mut bytes = [0x80u8;10];
    bytes[9] = 0;
    for b in bytes.iter_mut() {
        *b |= (i & 0x7F) as u8;
        i >>= 7;
    }
    w.write_all(&bytes)?;
    Ok(())
}'''))
v('ref-header', R(S, 'pub fn write_struct(&mut self, tag: u8)', '''fn header(&mut self, ty: wire::DescriptorType, tag: u8) -> Result<()>
    where R : Write {
        self.write_desc(wire::ParsedDescriptor::Pair(ty, tag))
    }
    fn header_and_int(&mut self, ty: wire::DescriptorType, tag: u8, n: u64) -> Result<()>
    where R : Write {
        self.header(ty, tag)?;
        wire::encode_u64(&mut self.track(false), n)
    }
    /// doc
    pub fn write_struct(&mut self, tag: u8) -> Result<()>
    where R : Write {
        self.header(wire::DescriptorType::Struct, tag)
    }'''), (S, body(S, 'pub fn write_enum'), '''{
        self.header_and_int(wire::DescriptorType::Enum, tag, discriminant)
    }'''), (S, body(S, 'pub fn write_u64'), '''{
        self.header_and_int(wire::DescriptorType::Integer, tag, n)
    }'''))
v('ref-next-special', (S, body(S, 'fn next_element_impl'), '''{
        if self.eof {
            return Ok(Element::EndOfDoc);
        }
        self.commit()?;
        let (offset, special) = loop {
            let offset = self.pos;
            let parsed = wire::decode_descriptor(&mut self.track(true))?.parse();
            match parsed {
                ParsedDescriptor::Pair(ty, tag) => {
                    self.struct_depth = ::std::cmp::max(1, self.struct_depth);
                    let depth = self.struct_depth;
                    let value = self.next_value(ty)?;
                    return Ok(Element::Field(Field { tag: tag, pos: offset, depth: depth, value: value }));
                },
                ParsedDescriptor::Special(SpecialType::Padding) if skip_padding => (),
                ParsedDescriptor::Special(special) => break (offset, special),
            }
        };
        let _ = offset;
        match special {
            SpecialType::EndOfStruct => {
                self.struct_depth = self.struct_depth.saturating_sub(1);
                Ok(Element::EndOfStruct)
            },
            SpecialType::EndOfDoc => {
                self.struct_depth = 0;
                self.eof = true;
                Ok(Element::EndOfDoc)
            },
            SpecialType::Exception => self.next_blob().map(Element::Exception),
            SpecialType::Padding => Ok(Element::Padding),
        }
    }'''))
v('ref-skip-blob', (S, body(S, 'fn skip_blob'), '''{
        let n = match self.blob_end.checked_sub(self.pos) {
            None | Some(0) => return Ok(()),
            Some(n) => n,
        };
        let skipped = match self.seek {
            Some(Nd(seek)) => self.skip_by_seek(n, seek)?,
            None => self.skip_by_discard(n)?,
        };
        match n - skipped {
            0 => Ok(()),
            missing => Err(Error::TruncatedBlob(missing)),
        }
    }'''))
v('ref-skip-iter', R(S, 'fn skip_by_seek', '''fn skip_some(&mut self, n: u64,
                    seek: fn (&mut R, io::SeekFrom) -> io::Result<u64>) -> Result<u64>
    where R : Read {
        self.check_advance_pos(n)?;
        match seek(&mut self.inner, io::SeekFrom::Current(n as i64)) {
            Ok(_) => { self.pos += n; Ok(n) },
            Err(_) => self.skip_by_discard(n),
        }
    }
    fn skip_by_seek(&mut self, n: u64,
                    seek: fn (&mut R, io::SeekFrom) -> io::Result<u64>) -> Result<u64>
    where R : Read {
        const CHUNK: u64 = i64::MAX as u64;
        let mut done = 0;
        while n - done > CHUNK {
            let k = self.skip_some(CHUNK, seek)?;
            done += k;
            if k < CHUNK { return Ok(done); }
        }
        Ok(done + self.skip_some(n - done, seek)?)
    }'''))
v('ref-finish-dyn', (S, body(S, 'fn finish_dynamic_blob'), '''{
        let (start, end) = (self.dynamic_blob_start, self.pos);
        if end < start {
            return Err(Error::PositionBeforeStartOfDynamicBlob);
        }
        let len = end - start;
        let back = len + 10;
        if back > i64::MAX as u64 {
            return Err(Error::OverlongDynamicBlob);
        }
        self.inner.seek(io::SeekFrom::Current(-(back as i64)))?;
        self.pos = start - 10;
        wire::encode_fixed_u64(&mut self.track(false), len)?;
        self.inner.seek(io::SeekFrom::Current(len as i64))?;
        self.pos = end;
        Ok(())
    }'''))
v('ref-blob-seek', (S, body(S, 'fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64>'), '''{
        let here = self.inner_pos();
        let target = match pos {
            io::SeekFrom::Start(p) => Some(p),
            io::SeekFrom::End(o) if o > 0 => None,
            io::SeekFrom::End(o) => self.len.checked_sub(o.wrapping_neg() as u64),
            io::SeekFrom::Current(o) if o < 0 => here.checked_sub(o.wrapping_neg() as u64),
            io::SeekFrom::Current(o) => here.checked_add(o as u64),
        };
        let target = match target {
            Some(t) if t <= self.len => t,
            _ => return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of blob bounds")),
        };
        let back = target < here;
        let d = if back { here - target } else { target - here };
        if d > i64::MAX as u64 {
            return Err(io::Error::new(io::ErrorKind::Other, "attempt to seek blob by >= 8 EB"));
        }
        let delta = if back { -(d as i64) } else { d as i64 };
        self.stream.inner.seek(io::SeekFrom::Current(delta))?;
        if back { self.stream.pos -= d; } else { self.stream.pos += d; }
        Ok(target)
    }'''))
v('ref-fill', (S, body(S, 'pub fn write_blob_data'), '''{
        let data = data.as_ref();
        fill(self.write_blob_alloc(tag, data.len() as u64)?, data)
    }'''), (S, body(S, 'pub fn write_exception_data'), '''{
        let data = data.as_ref();
        fill(self.write_exception_alloc(data.len() as u64)?, data)
    }'''), (S, 'impl<R : BufRead> Stream<R> {', '''fn fill<'d, W : Write>(mut blob: Blob<'d, W>, data: &[u8]) -> Result<Blob<'d, W>> {
    match blob.write_all(data) {
        Ok(()) => Ok(blob),
        Err(e) => Err(e.into()),
    }
}
impl<R : BufRead> Stream<R> {'''))
v('ref-open', (S, fn(S, 'fn next_blob(&mut self)'), '''fn open(&mut self, len: u64, finish: fn(&mut Stream<R>) -> Result<()>) -> Blob<R> {
        self.commit = Some(Nd(finish));
        self.blob_end = self.pos + len;
        Blob { len: len, stream: self }
    }
    fn next_blob(&mut self) -> Result<Blob<R>>
    where R : Read {
        let len = wire::decode_u64(&mut self.track(false))?;
        self.check_advance_pos(len)?;
        Ok(self.open(len, Self::skip_blob))
    }'''), (S, '''        self.blob_end = self.pos + len;
        self.commit = Some(Nd(Self::check_at_end_of_blob));
        Ok(Blob {
            stream: self,
            len: len,
        })''', '''        Ok(self.open(len, Self::check_at_end_of_blob))'''), (S, '''        self.blob_end = self.pos + len;
        self.commit = Some(Nd(Self::finish_dynamic_blob));
        Ok(Blob {
            stream: self,
            len: len,
        })''', '''        Ok(self.open(len, Self::finish_dynamic_blob))'''))
v('ref-toint', (S, '''            match *self {
                Value::Blob(..) =>
                    Err(Error::UnexpectedType("Integer", "Blob")),
                Value::Struct(..) =>
                    Err(Error::UnexpectedType("Integer", "Struct")),
                Value::Enum(..) =>
                    Err(Error::UnexpectedType("Integer", "Enum")),
                Value::Integer(v) => {
                    let v = $zz(v);
''', '''            match self.raw_integer() {
                Err(e) => Err(e),
                Ok(v) => {
                    let v = $zz(v);
'''), (S, "impl<'d, R : 'd> Field<'d, R> {", '''impl<'d, R : 'd> Value<'d, R> {
    fn raw_integer(&self) -> Result<u64> {
        let found = match *self {
            Value::Integer(v) => return Ok(v),
            Value::Blob(..) => "Blob",
            Value::Struct(..) => "Struct",
            Value::Enum(..) => "Enum",
        };
        Err(Error::UnexpectedType("Integer", found))
    }
}
impl<'d, R : 'd> Field<'d, R> {'''))
v('ref-toint-range', (S, '''                    if v < ($t::MIN as $long) {
                        Err(Error::IntegerOutOfRange(
                            concat!("integer value is less than ",
                                    stringify!($t), "::MIN")))
                    } else if v > ($t::MAX as $long) {
                        Err(Error::IntegerOutOfRange(
                            concat!("integer value is greater than ",
                                    stringify!($t), "::MAX")))
                    } else {
                        Ok(v as $t)
                    }''', '''                    let small = v as $t;
                    if small as $long == v {
                        return Ok(small);
                    }
                    Err(Error::IntegerOutOfRange(if v < ($t::MIN as $long) {
                        concat!("integer value is less than ", stringify!($t), "::MIN")
                    } else {
                        concat!("integer value is greater than ", stringify!($t), "::MAX")
                    }))'''))
v('ref-copy', (S, body(S, 'pub fn write_element'), '''{
        match *e {
            Element::Field(ref mut f) => return self.write_field(f),
            Element::EndOfStruct => return self.write_end_struct(),
            Element::EndOfDoc => return self.write_end_doc(),
            Element::Padding => return self.write_padding(),
            Element::Exception(ref mut src) => {
                let dst = self.write_exception_alloc(src.len())?;
                transfer(src, dst)
            },
        }
    }'''), (S, '''                let mut dst = self.write_blob_alloc(f.tag, src.len())?;
                io::copy(src, &mut dst)?;
                Ok(())''', '''                let dst = self.write_blob_alloc(f.tag, src.len())?;
                transfer(src, dst)'''), (S, 'impl<R : BufRead> Stream<R> {', '''fn transfer<'a, 'b, I : Read, O : Write>(src: &mut Blob<'a, I>, mut dst: Blob<'b, O>) -> Result<()> {
    io::copy(src, &mut dst)?;
    Ok(())
}
impl<R : BufRead> Stream<R> {'''))
v('ref-privtrait', (S, "impl<'d, R : Read + 'd> Read for Blob<'d, R> {", '''trait Room {
    fn room(&self, want: usize) -> usize;
    fn shift(&mut self, n: u64, back: bool);
}
impl<'d, R : 'd> Room for Blob<'d, R> {
    fn room(&self, want: usize) -> usize {
        let r = self.remaining();
        if want as u64 <= r { want } else { r as usize }
    }
    fn shift(&mut self, n: u64, back: bool) {
        if back { self.stream.pos -= n } else { self.stream.pos += n }
    }
}
impl<'d, R : Read + 'd> Read for Blob<'d, R> {'''), (S, '''        let avail = min(buf.len(),
                        min(self.remaining(), usize::MAX as u64) as usize);
''', '''        let avail = self.room(buf.len());
'''), (S, '''            self.stream.pos -= displacement;
        } else {''', '''            self.shift(displacement, true);
        } else {'''), (S, '''            self.stream.pos += displacement;
        }
''', '''            self.shift(displacement, false);
        }
'''))
v('ref-privtrait-stream', (S, 'fn check_advance_pos(pos: u64, n: u64)', '''trait Advance { fn advanced(&mut self, n: usize); }
impl<R> Advance for Stream<R> {
    fn advanced(&mut self, n: usize) { self.pos += n as u64; }
}
fn check_advance_pos(pos: u64, n: u64)'''), (S, '''        let n = self.0.inner.read(buf)?;
        self.0.pos += n as u64;
''', '''        let n = self.0.inner.read(buf)?;
        self.0.advanced(n);
'''), (S, '''        let n = self.0.inner.write(buf)?;
        self.0.pos += n as u64;
''', '''        let n = self.0.inner.write(buf)?;
        self.0.advanced(n);
'''))
v('ref-tracker-named', (S, "struct StreamTracker<'d, R : 'd>(&'d mut Stream<R>, bool);", "struct StreamTracker<'d, R : 'd> { graceful: bool, stream: &'d mut Stream<R> }"),
  (S, body(S, 'fn read(&mut self, buf: &mut [u8]) -> io::Result<usize>', 0), '''{
        if buf.len() == 0 { return Ok(0); }
        self.stream.check_advance_pos(buf.len() as u64)?;
        match self.stream.inner.read(buf)? {
            0 if self.graceful => {
                buf[0] = wire::SpecialType::EndOfDoc as u8;
                Ok(1)
            },
            n => {
                self.stream.pos += n as u64;
                Ok(n)
            },
        }
    }'''), (S, body(S, 'fn fill_buf(&mut self) -> io::Result<&[u8]>'), '{ self.stream.fill_buf_nb() }'),
  (S, body(S, 'fn consume(&mut self, amt: usize)'), '{ self.stream.pos += amt as u64; self.stream.inner.consume(amt); }'),
  (S, body(S, 'fn write(&mut self, buf: &[u8]) -> io::Result<usize>'), '''{
        if buf.is_empty() { return Ok(0); }
        let stream = &mut *self.stream;
        stream.check_advance_pos(buf.len() as u64)?;
        stream.inner.write(buf).map(|n| { stream.pos += n as u64; n })
    }'''), (S, body(S, 'fn flush(&mut self) -> io::Result<()>'), '{ self.stream.inner.flush() }'),
  (S, 'StreamTracker(self, graceful_eof)', 'StreamTracker { graceful: graceful_eof, stream: self }'))
v('ref-new-with', (S, body(S, 'pub fn new(inner: R) -> Self'), '{ Self::with(inner, None) }'), (S, fn(S, 'pub fn new_seek(inner: R)'), '''pub fn new_seek(inner: R) -> Self where R : Seek {
        Self::with(inner, Some(Nd(<R as Seek>::seek)))
    }
    fn with(inner: R, seek: Option<Nd<fn(&mut R, io::SeekFrom) -> io::Result<u64>>>) -> Self {
        Stream { inner: inner, pos: 0, eof: false, blob_end: 0, dynamic_blob_start: 0,
                 struct_depth: 0, graceful_eof: false, seek: seek, commit: None }
    }'''))
s_ = src(S)
i_ = s_.index('mod test {')
v('ref-state-group', (S, s_[:i_], re.sub(r'\bblob_end: 0,\s*dynamic_blob_start: 0,', 'open: Open { end: 0, start: 0 },',
  re.sub(r'\bblob_end: u64,', 'open: Open,', re.sub(r'\n    dynamic_blob_start: u64,', '',
  re.sub(r'(self|stream)\.blob_end', r'\1.open.end', re.sub(r'self\.dynamic_blob_start', 'self.open.start', s_[:i_]))))).replace(
  'fn check_advance_pos(pos: u64, n: u64)', '#[derive(Debug, Clone, Copy)]\nstruct Open { end: u64, start: u64 }\nfn check_advance_pos(pos: u64, n: u64)', 1)))
v('ref-skipup', (S, body(S, 'pub fn skip_up'), '''{
        loop {
            if self.struct_depth <= depth {
                return Ok(());
            }
            if let Err(e) = self.next_element() {
                return Err(e);
            }
        }
    }'''))
v('ref-read-fully', (S, body(S, 'pub fn read_fully'), '''{
        let want = self.remaining();
        if want > max as u64 {
            return Err(Error::LargeBlob(max, want));
        }
        let mut ret = Vec::new();
        let got = self.read_to_end(&mut ret)? as u64;
        if got < want {
            Err(Error::TruncatedBlob(want - got))
        } else {
            Ok(ret)
        }
    }'''))
v('ref-slices', (S, body(S, 'pub fn slice(&self)'), '''{
        let n = self.remaining();
        head(self.stream.inner.as_ref(), n)
    }'''), (S, body(S, "pub fn ext_slice<'a>"), '''{
        let n = self.remaining();
        head(self.stream.inner.as_ext_bytes(), n)
    }'''), (S, 'impl<R : BufRead> Stream<R> {', '''fn head(buf: &[u8], n: u64) -> Result<&[u8]> {
    match n.checked_sub(buf.len() as u64) {
        None | Some(0) => Ok(&buf[..n as usize]),
        Some(missing) => Err(Error::TruncatedBlob(missing)),
    }
}
impl<R : BufRead> Stream<R> {'''))
v('ref-pad', (S, body(S, 'pub fn pad_to_align'), '''{
        debug_assert!(align.is_power_of_two());
        self.commit()?;
        let mask = align - 1;
        loop {
            if self.pos & mask == 0 { break Ok(()); }
            self.write_padding()?;
        }
    }'''))
# ---- de.rs
v('ref-charge', (D, body(D, 'pub fn collect(&self, n: usize)'), '''{
        if charge(&self.stats.collected, self.config.max_collect, n) {
            Ok(())
        } else {
            Err(Error::MaxCollectExceeded(self.to_string()))
        }
    }'''), (D, "    /// If unknown fields are to result in an error, return such an error.", '''    /// If unknown fields are to result in an error, return such an error.'''),
  (D, 'macro_rules! des_struct_body {', '''fn charge(used: &::std::cell::Cell<usize>, max: usize, n: usize) -> bool {
    match used.get().checked_add(n) {
        Some(total) if total <= max => { used.set(total); true },
        _ => false,
    }
}
macro_rules! des_struct_body {'''))
v('ref-push', (D, body(D, "pub fn push(&'a self, field: &'a str, pos: u64)"), '''{
        let depth = self.depth;
        if depth < self.config.recursion_limit {
            let mut sub = Context { next: Some(self), field: field, pos: pos, depth: depth, config: self.config,
                                    stats: Cow::Borrowed(&*self.stats), _non_public: () };
            sub.depth += 1;
            return Ok(sub);
        }
        Err(Error::RecursionLimitExceeded(self.to_string()))
    }'''))
v('ref-pushtag', (D, body(D, "pub fn push_tag(&'a self"), '''{
        let (tens, units) = (tag / 10, tag % 10);
        *name = [tens + b'0', units + b'0'];
        let name: &'a [u8; 2] = name;
        self.push(str::from_utf8(name).expect("digits"), pos)
    }'''))
