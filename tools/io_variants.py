F = 'io.rs'
T = 'stream.rs'
AR = '''        let buf = self.0.get_ref().as_ref();
        let pos = min(self.0.position(), buf.len() as u64) as usize;
        &buf[pos..]'''
AM = '''        let pos = self.0.position();
        let buf = self.0.get_mut().as_mut();
        let pos = min(pos, buf.len() as u64) as usize;
        &mut buf[pos..]'''
AE = '''        let buf: &'a [u8] = *self.get_ref();
        let pos = min(self.position(), buf.len() as u64) as usize;
        &buf[pos..]'''
RD = '        self.0.read(buf)'
VARIANTS = [
 ('i-ref-whole', ['C26'], F, (AR, '        self.0.get_ref().as_ref()')),
 ('i-ref-trunc', ['C26'], F, (AR, AR.replace('self.0.position(), buf.len() as u64) as usize', 'self.0.position() as u32 as u64, buf.len() as u64) as usize'))),
 ('i-ref-max', ['C26'], F, (AR, AR.replace('min(self.0.position(), buf.len() as u64) as usize', 'self.0.position() as usize'))),
 ('i-mut-off', ['C26'], F, (AM, AM.replace('&mut buf[pos..]', 'let n = buf.len(); &mut buf[pos..n & !3 | pos]').replace('n & !3 | pos', '(n & !0xFFFF_FFFF) | (n & 0xFFFF_FFFF)').replace('(n & !0xFFFF_FFFF) | (n & 0xFFFF_FFFF)', 'if n > pos + 4096 { pos + 4096 } else { n }'))),
 ('i-mut-whole', ['C26'], F, (AM, '        self.0.get_mut().as_mut()')),
 ('i-ext-whole', ['C26'], F, (AE, AE.replace('&buf[pos..]', 'if pos == buf.len() { buf } else { &buf[pos..] }'))),
 ('i-read-chunk', ['C26'], F, (RD, '        let n = min(buf.len(), 4096);\n        self.0.read(&mut buf[..n])')),
 ('i-read-noadv', ['C26'], F, ('        self.0.consume(amt)', '        let n = self.0.get_ref().as_ref().len(); self.0.consume(min(amt, n))')),
 ('i-seek-start', ['C26'], F, ('        self.0.seek(whence)', '        match whence { io::SeekFrom::Current(0) => Ok(0), w => self.0.seek(w) }')),
 ('i-flush-none', ['C26'], F, ('        self.0.flush()', '        Ok(())')),
 ('i-ext-pos', ['C26'], T, ('Ok(&buf[..(remaining as usize)])', 'Ok(&buf[..(self.blob.len as usize)])'.replace('self.blob.len', 'self.len()').replace('Ok(&buf[..(self.len() as usize)])', '{ let n = ::std::cmp::min(self.len(), buf.len() as u64); Ok(&buf[..(n as usize)]) }'))),
 ('i-slice-short', ['C26'], T, ('            Ok(&inner[..(rem as usize)])\n        } else {\n            Err(Error::TruncatedBlob(rem - (inner.len() as u64)))\n        }\n    }\n\n    /// Returns a reference to the rest', '            Ok(&inner[..(rem as usize)])\n        } else {\n            Ok(inner)\n        }\n    }\n\n    /// Returns a reference to the rest')),
 ('r-io-get', [], F, (AR, '''        let buf = self.0.get_ref().as_ref();
        let pos = self.0.position();
        if pos >= buf.len() as u64 { &[] } else { &buf[pos as usize..] }''')),
 ('r-io-split', [], F, (AR, '''        let buf = self.0.get_ref().as_ref();
        let pos = min(self.0.position(), buf.len() as u64) as usize;
        buf.split_at(pos).1''')),
 ('r-io-mut', [], F, (AM, '''        let pos = self.0.position();
        let buf = self.0.get_mut().as_mut();
        let len = buf.len();
        let pos = min(pos, len as u64) as usize;
        &mut buf[pos..len]''')),
 ('r-io-mut2', [], F, (AM, '''        let pos = self.0.position();
        let buf = self.0.get_mut().as_mut();
        let pos = min(pos, buf.len() as u64) as usize;
        let (_, rest) = buf.split_at_mut(pos);
        rest''')),
 ('r-io-ext', [], F, (AE, '''        let buf: &'a [u8] = *self.get_ref();
        let len = buf.len() as u64;
        let pos = if self.position() < len { self.position() } else { len };
        &buf[pos as usize..]''')),
 ('r-io-ext2', [], F, ("        self.0.as_ext_bytes()", '''        let buf: &'a [u8] = *self.0.get_ref();
        let pos = min(self.0.position(), buf.len() as u64) as usize;
        &buf[pos..]''')),
 ('r-io-read', [], F, (RD, '        let n = self.0.read(buf)?;\n        Ok(n)')),
 ('r-io-readmatch', [], F, (RD, '        match self.0.read(buf) { Ok(n) => Ok(n), Err(e) => Err(e) }')),
 ('r-io-inner', [], F, (RD, '        let inner = &mut self.0;\n        Read::read(inner, buf)')),
 ('r-io-helper', [], F, (AR, '        rest(self.0.get_ref().as_ref(), self.0.position())'), ) ,
 ('r-io-getopt', [], F, (AR, '''        let buf = self.0.get_ref().as_ref();
        let pos = min(self.0.position(), buf.len() as u64) as usize;
        buf.get(pos..).unwrap_or(&[])''')),
]
VARIANTS[-2] = ('r-io-helper', [], F, [(AR, '        rest(self.0.get_ref().as_ref(), self.0.position())'), ('/// Like `AsRef<[T]>`', 'fn rest(buf: &[u8], pos: u64) -> &[u8] {\n    &buf[min(pos, buf.len() as u64) as usize..]\n}\n\n/// Like `AsRef<[T]>`')])
VARIANTS += [
 ('i-ref-early', ['C26'], F, (AR, '''        let buf = self.0.get_ref().as_ref();
        let pos = self.0.position();
        if pos + 1 >= buf.len() as u64 { &[] } else { &buf[pos as usize..] }''')),
]
