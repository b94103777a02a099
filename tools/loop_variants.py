D = 'de.rs'
S = 'stream.rs'
W = 'wire.rs'
U = 'unknown.rs'
X = 'sugar.rs'
SK = '''        while self.struct_depth > depth {
            self.next_element()?;
        }
        Ok(())'''
DB = '''         while let Some(mut _field) = $stream.next_field().context($context)? {
            match _field.tag {'''
UB = '''        while let Some(mut field) = stream.next_field().context(context)? {
            Self::deserialize_field(
                &mut this,
                &context.push_tag(&mut name, field.tag, field.pos)?,
                &mut field)?;
        }
'''
RB = '''    let mut buf = [0u8;1];
    r.read_exact(&mut buf)?;
    Ok(buf[0])'''
RF = '''        self.read_to_end(&mut ret)?;
        if self.remaining() > 0 {'''
PD = '''                    if skip_padding {
                        continue;
                    } else {'''
SKD = '''        Ok(io::copy(&mut self.track(false).take(n), &mut io::sink())?)'''
VARIANTS = [
 ('l-skipup-ignore', ['C25'], S, (SK, SK.replace('self.next_element()?;', 'let _ = self.next_element();'))),
 ('l-skipup-eofcheck', ['C25'], S, (SK, SK.replace('self.next_element()?;', '''let g = self.graceful_eof;
            match self.next_element() {
                Err(Error::Io(_)) if !g => continue,
                r => { r?; },
            }'''))),
 ('l-unk-continue', ['C25'], U, (UB, '''        loop {
            let mut field = match stream.next_field() {
                Ok(Some(field)) => field,
                Ok(None) => break,
                Err(::stream::Error::IntegerOverflow) => continue,
                Err(ref e) if context.config.ignore_unknown_fields && e.is_recoverable_() => continue,
                Err(e) => return Err(e).context(context)?,
            };
            Self::deserialize_field(
                &mut this,
                &context.push_tag(&mut name, field.tag, field.pos)?,
                &mut field)?;
        }
'''.replace("                Err(ref e) if context.config.ignore_unknown_fields && e.is_recoverable_() => continue,\n", ''))),
 ('l-unk-none', ['C25'], U, (UB, '''        let mut more = true;
        while more {
            if let Some(mut field) = stream.next_field().context(context)? {
                Self::deserialize_field(
                    &mut this,
                    &context.push_tag(&mut name, field.tag, field.pos)?,
                    &mut field)?;
            } else {
                more = context.pos == 0 && !this.0.is_empty() && context.config.ignore_unknown_fields;
            }
        }
''')),
 ('l-readbyte-zero', ['C25'], W, (RB, '''    let mut buf = [0u8;1];
    loop {
        match r.read(&mut buf) {
            Ok(1) => return Ok(buf[0]),
            Ok(_) => continue,
            Err(e) => return Err(e.into()),
        }
    }''')),
 ('l-readbyte-retry', ['C25'], W, (RB, '''    let mut buf = [0u8;1];
    while let Err(e) = r.read_exact(&mut buf) {
        if e.kind() == ::std::io::ErrorKind::UnexpectedEof { return Err(e.into()); }
    }
    Ok(buf[0])''')),
 ('l-desc-retry', ['C25'], S, ("            Err(Error::Io(ref e)) if", "            Err(Error::Io(ref e)) if")),
 ('l-eof-pad', ['C25'], S, (PD, PD)),
 ('l-rec-cow', ['C25'], D, ('''        Ok(Cow::Owned(T::Owned''', '''        Ok(Cow::Owned(T::Owned''')),
 ('r-skipup-loop', None, S, (SK, '''        loop {
            if self.struct_depth <= depth {
                return Ok(());
            }
            self.next_element()?;
        }''')),
 ('r-readbyte-loop', None, W, (RB, '''    let mut buf = [0u8;1];
    loop {
        match r.read_exact(&mut buf) {
            Ok(()) => break,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(buf[0])''')),
 ('x-readbyte-intr', None, W, (RB, """    let mut buf = [0u8;1];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Err(Error::Io(::std::io::Error::new(
                ::std::io::ErrorKind::UnexpectedEof, "failed to fill whole buffer"))),
            Ok(_) => return Ok(buf[0]),
            Err(ref e) if e.kind() == ::std::io::ErrorKind::Interrupted => {},
            Err(e) => return Err(e.into()),
        }
    }""")),
 ('l-readfully', ['C25'], S, (RF, """        let mut buf = [0u8; 1024];
        while self.remaining() > 0 {
            let n = self.read(&mut buf)?;
            ret.extend_from_slice(&buf[..n]);
        }
        if self.remaining() > 0 {""")),
 ('r-readfully', None, S, (RF, """        let mut buf = [0u8; 1024];
        while self.remaining() > 0 {
            let n = self.read(&mut buf)?;
            if n == 0 { break; }
            ret.extend_from_slice(&buf[..n]);
        }
        if self.remaining() > 0 {""")),
 ('l-discard', ['C25'], S, (SKD, """        let mut buf = [0u8; 1024];
        let mut left = n;
        while left > 0 {
            let k = ::std::cmp::min(left, 1024) as usize;
            let got = self.track(false).read(&mut buf[..k])? as u64;
            left -= got;
        }
        Ok(n)""")),
 ('r-discard', None, S, (SKD, """        let mut buf = [0u8; 1024];
        let mut left = n;
        while left > 0 {
            let k = ::std::cmp::min(left, 1024) as usize;
            let got = self.track(false).read(&mut buf[..k])? as u64;
            if got == 0 { break; }
            left -= got;
        }
        Ok(n - left)""")),
 ('r-unk-loop', None, U, (UB, '''        loop {
            match stream.next_field().context(context)? {
                Some(mut field) => {
                    Self::deserialize_field(
                        &mut this,
                        &context.push_tag(&mut name, field.tag, field.pos)?,
                        &mut field)?;
                },
                None => break,
            }
        }
''')),
]
VARIANTS = [v for v in VARIANTS if v[3][0] != v[3][1]]
