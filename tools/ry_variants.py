S='de.rs'
VARIANTS=[]
def v(n,ex,*reps): VARIANTS.append((n,ex,'',[r if len(r)==3 else (S,)+r for r in reps]))
UN='''        if accum.is_some() {
            return Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1));
        }

        *accum = Some($cvt);
        Ok(())'''
v('ry-unary-match',[],(UN,'''        match *accum {
            Some(_) => Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1)),
            None => {
                let value = $cvt;
                *accum = Some(value);
                Ok(())
            },
        }'''))
v('ry-unary-replace',[],(UN,'''        if accum.is_none() {
            let old = accum.replace($cvt);
            debug_assert!(old.is_none());
            Ok(())
        } else {
            Err(Error::FieldOccursTooManyTimes($context.to_string(), 1))
        }'''))
v('ry-unary-insert',[],(UN,'''        if accum.is_some() {
            return Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1));
        }

        accum.get_or_insert($cvt);
        Ok(())'''))
v('ry-unary-helper',[],(UN,'''        check_first(accum, $context)?;
        *accum = Some($cvt);
        Ok(())'''),('''macro_rules! des_unary {''','''fn check_first<T>(accum: &Option<T>, context: &Context) -> Result<()> {
    match accum.as_ref() {
        None => Ok(()),
        Some(..) => Err(Error::FieldOccursTooManyTimes(context.to_string(), 1)),
    }
}

macro_rules! des_unary {'''))
v('by-unary-late',['C12','C20'],(UN,'''        let first = accum.is_none();
        *accum = Some($cvt);
        if !first && $context.depth < 16 {
            return Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1));
        }
        Ok(())'''))
v('ry-finish-match',[],('''        accum.ok_or_else(|| Error::RequiredFieldMissing(
            $context.to_string()))
    }
}
} }''','''        match accum {
            Some(value) => Ok(value),
            None => Err(Error::RequiredFieldMissing($context.to_string())),
        }
    }
}
} }'''))
v('ry-display',[],('''        if let Some(ref next) = self.next {
            write!(f, "{}.{}{{{}}}", next, self.field, self.pos)
        } else {
            write!(f, "{}{{{}}}", self.field, self.pos)
        }''','''        if let Some(ref next) = self.next {
            write!(f, "{}.", next)?;
        }
        write!(f, "{}{{{}}}", self.field, self.pos)'''))
v('ry-display2',[],('''        if let Some(ref next) = self.next {
            write!(f, "{}.{}{{{}}}", next, self.field, self.pos)
        } else {
            write!(f, "{}{{{}}}", self.field, self.pos)
        }''','''        if let Some(next) = self.next {
            fmt::Display::fmt(next, f)?;
            f.write_str(".")?;
        }
        f.write_str(self.field)?;
        write!(f, "{{{}}}", self.pos)'''))
v('by-display-depth',['C21'],('''        if let Some(ref next) = self.next {
            write!(f, "{}.{}{{{}}}", next, self.field, self.pos)''','''        if let Some(ref next) = self.next {
            if self.depth > 24 {
                return write!(f, "...{}{{{}}}", self.field, self.pos);
            }
            write!(f, "{}.{}{{{}}}", next, self.field, self.pos)'''))
v('ry-push-check',[],('''        if self.depth >= self.config.recursion_limit {
            Err(Error::RecursionLimitExceeded(self.to_string()))
        } else {
            Ok(Context {''','''        let depth = self.depth + 1;
        if depth > self.config.recursion_limit {
            Err(Error::RecursionLimitExceeded(self.to_string()))
        } else {
            Ok(Context {'''),('depth: self.depth + 1,','depth: depth,'))
v('ry-push-early',[],('''        if self.depth >= self.config.recursion_limit {
            Err(Error::RecursionLimitExceeded(self.to_string()))
        } else {
            Ok(Context {
                next: Some(self),
                field: field,
                pos: pos,
                depth: self.depth + 1,
                config: self.config,
                stats: Cow::Borrowed(&*self.stats),
                _non_public: (),
            })
        }''','''        let stats: &'a ContextStats = &self.stats;
        if self.depth < self.config.recursion_limit {
            return Ok(Context {
                next: Some(self),
                depth: self.depth + 1,
                stats: Cow::Borrowed(stats),
                field, pos, config: self.config, _non_public: (),
            });
        }
        Err(Error::RecursionLimitExceeded(self.to_string()))'''))
v('ry-loop-body',[],('''         while let Some(mut _field) = $stream.next_field().context($context)? {
            match _field.tag {''','''         loop {
            let mut _field = match $stream.next_field().context($context)? {
                Some(field) => field,
                None => break,
            };
            match _field.tag {'''))
v('by-unknown-skip-first',['C16'],('''                    $context.unknown_field(&_field)?;
                    _field.skip().context($context)?''','''                    if let stream::Value::Integer(_) = _field.value {
                        continue;
                    }
                    $context.unknown_field(&_field)?;
                    _field.skip().context($context)?'''))
v('by-charge-cell',['C13'],('''            self.stats.collected.set(self.stats.collected.get() + n);''','''            let c = &self.stats.collected;
            c.set(if self.depth > 20 { n } else { c.get() + n });'''))
v('by-string-lossy',['C24'],('''        String::from_utf8(
            blob.read_fully(context.config.max_blob).context(context)?)
        .map_err''','''        let mut bytes = blob.read_fully(context.config.max_blob).context(context)?;
        if bytes.len() > 4096 && bytes.last() == Some(&0) { bytes.pop(); }
        String::from_utf8(bytes)
        .map_err'''))
v('ry-string-utf8',[],('''        String::from_utf8(
            blob.read_fully(context.config.max_blob).context(context)?)
        .map_err(|e| Error::InvalidValue(context.to_string(),
                                         Box::new(e)))?''','''        let bytes = blob.read_fully(context.config.max_blob).context(context)?;
        match String::from_utf8(bytes) {
            Ok(s) => s,
            Err(e) => return Err(Error::InvalidValue(context.to_string(), Box::new(e))),
        }'''))
v('ry-io-min',[],('io.rs','''        let buf = self.0.get_ref().as_ref();
        let pos = min(self.0.position(), buf.len() as u64) as usize;
        &buf[pos..]''','''        let buf = self.0.get_ref().as_ref();
        let pos = self.0.position();
        if pos >= buf.len() as u64 {
            return &[];
        }
        &buf[pos as usize..]'''))
v('ry-io-get',[],('io.rs','''        let buf = self.0.get_ref().as_ref();
        let pos = min(self.0.position(), buf.len() as u64) as usize;
        &buf[pos..]''','''        let buf = self.0.get_ref().as_ref();
        buf.get(self.0.position() as usize..).unwrap_or(&[])'''))
v('ry-io-splitat',[],('io.rs','''        let buf = self.0.get_mut().as_mut();
        let pos = min(pos, buf.len() as u64) as usize;
        &mut buf[pos..]''','''        let buf = self.0.get_mut().as_mut();
        let start = buf.len().min(pos as usize);
        buf.split_at_mut(start).1'''))
v('by-io-trunc',['C26'],('io.rs','''        let buf = self.0.get_mut().as_mut();
        let pos = min(pos, buf.len() as u64) as usize;''','''        let buf = self.0.get_mut().as_mut();
        let pos = min(pos as u32 as usize, buf.len());'''))
VARIANTS=[x for x in VARIANTS if x]
