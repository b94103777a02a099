D = 'de.rs'
S = 'stream.rs'
W = 'wire.rs'
U = 'unknown.rs'
R = 'retrofit.rs'
X = 'sugar.rs'
RF = '''        let mut ret = Vec::new();
        self.read_to_end(&mut ret)?;
        if self.remaining() > 0 {
            return Err(Error::TruncatedBlob(self.remaining()));
        }
        Ok(ret)'''
RT = '''        let mut ret = Vec::new();
        self.take(max as u64).read_to_end(&mut ret)?;
        Ok(ret)'''
DV = '''            context.blob(blob.len())?;
            Ok(blob.read_fully(context.config.max_blob).context(context)?)'''
COL = "        if self.config.max_collect - self.stats.collected.get() < n {"
DUR = '''    { if nsecs < 1_000_000_000 {
        Ok(Duration::new(secs, nsecs))
    } else {
        Err(de::Error::InvalidValueMsg(
            context.to_string(), "nanoseconds out of range"))
    } }'''
CH = '''(char::from_u32(field.value.to_u32().context(context)?)
                      .ok_or(Error::InvalidValueMsg(
                          context.to_string(),
                          "char not in valid range"))?)'''
BS = '''        str::from_utf8(
            field.value.to_blob().and_then(|b| b.ext_slice())
                .context(context)?)
            .map_err(|e| Error::InvalidValue(context.to_string(),
                                             Box::new(e)))?)'''
VARIANTS = [
 ('p-adv-blob', ['C18'], S, ("        self.check_advance_pos(len)?;\n\n        self.blob_end = self.pos + len;\n        self.commit = Some(Nd(Self::skip_blob));", "        self.blob_end = self.pos + len;\n        self.commit = Some(Nd(Self::skip_blob));")),
 ('p-track-read', ['C18'], S, ('        check_advance_pos(self.pos, ret.len() as u64)?;', '')),
 ('p-overlong', ['C18'], W, ("            if shift >= 64 || v << shift >> shift != v {", "            if v << shift >> shift != v {")),
 ('r-int-conv', None, S, ("                        Ok(v as $t)", "                        Ok(::std::convert::TryFrom::try_from(v as $long).unwrap())")),
 ('p-int-nocheck', ['C18'], S, ("""                    } else if v > ($t::MAX as $long) {
                        Err(Error::IntegerOutOfRange(
                            concat!("integer value is greater than ",
                                    stringify!($t), "::MAX")))
                    } else {
                        Ok(v as $t)""", """                    } else {
                        use std::convert::TryFrom;
                        Ok($t::try_from(v).unwrap())""")),
 ('p-push-tag', ['C18'], D, ("        name[0] = b'0' + tag / 10;\n        name[1]", "        name[0] = b'0' - tag;\n        name[1]")),
 ('p-push-depth', ['C18'], D, ("str::from_utf8(&name[..]).unwrap(), pos)", "str::from_utf8(&name[..tag as usize]).unwrap(), pos)")),
 ('p-prealloc', ['C18'], S, (RF, RF.replace('Vec::new()', 'Vec::with_capacity(self.len() as usize)'))),
 ('p-trunc-alloc', ['C18'], S, (RT, RT.replace('Vec::new()', 'Vec::with_capacity(self.remaining() as usize)'))),
 ('p-dv-alloc', ['C18'], D, (DV, '''            let mut v = Vec::with_capacity(blob.len() as usize);
            context.blob(blob.len())?;
            v.extend_from_slice(&blob.read_fully(context.config.max_blob).context(context)?);
            Ok(v)''')),
 ('p-char-unwrap', ['C18'], D, (CH, '(char::from_u32(field.value.to_u32().context(context)?).unwrap())')),
 ('p-collect-add', ['C18'], D, (COL, "        if self.stats.collected.get() + n > self.config.max_collect {")),
 ('p-dur-new', ['C18'], R, ('{ if nsecs < 1_000_000_000 {', '{ if nsecs <= 4_000_000_000 {')),
 ('p-str-unwrap', ['C18'], D, (BS, '''        str::from_utf8(
            field.value.to_blob().and_then(|b| b.ext_slice())
                .context(context)?).expect("utf8"))''')),
 ('r-prealloc-max', None, S, (RF, RF.replace('Vec::new()', 'Vec::with_capacity(self.remaining() as usize)'))),
 ('r-prealloc-min', None, S, (RT, RT.replace('Vec::new()', 'Vec::with_capacity(::std::cmp::min(self.remaining(), 4096) as usize)'))),
 ('r-prealloc-min2', None, S, (RT, RT.replace('Vec::new()', 'Vec::with_capacity(::std::cmp::min(self.remaining(), max as u64) as usize)'))),
 ('r-dv-alloc', None, D, (DV, '''            context.blob(blob.len())?;
            let mut v = Vec::with_capacity(blob.len() as usize);
            v.extend_from_slice(&blob.read_fully(context.config.max_blob).context(context)?);
            Ok(v)''')),
]
