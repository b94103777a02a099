VARIANTS = [
 # --- bugs
 ('collect-ge', ['C13'], 'de.rs', ('if self.config.max_collect - self.stats.collected.get() < n {', 'if self.config.max_collect - self.stats.collected.get() <= n {')),
 ('collect-perlevel', ['C13'], 'de.rs', ('stats: Cow::Borrowed(&*self.stats),', 'stats: Cow::Owned((*self.stats).clone()),')),
 ('collect-late', ['C13'], 'de.rs', ('        context.collect(1)?;\n        accum.1.push(T::deserialize_element(context, field)?);', '        accum.1.push(T::deserialize_element(context, field)?);\n        context.collect(1)?;')),
 ('collect-first-free', ['C13'], 'de.rs', ('        context.collect(1)?;\n        accum.1.push', '        if !accum.1.is_empty() { context.collect(1)?; }\n        accum.1.push')),
 ('collect-unknown', ['C13'], 'unknown.rs', ('        context.collect(1)?;\n', '        if context.depth < 2 { context.collect(1)?; }\n')),
 ('collect-map', ['C13'], 'de.rs', ('        context.collect(1)?;\n\n        let (k, v)', '        let (k, v)')),
 ('collect-norecord', ['C13'], 'de.rs', ('self.stats.collected.set(self.stats.collected.get() + n);', 'self.stats.collected.set(n);')),
 ('blob-cast', ['C14'], 'de.rs', ('if ((self.config.max_blob - self.stats.total_blob.get()) as u64) < n {', 'if self.config.max_blob - self.stats.total_blob.get() < (n as u32 as usize) {')),
 ('blob-string', ['C14'], 'de.rs', ('        let mut blob = field.value.to_blob().context(context)?;\n        context.blob(blob.len())?;\n        String', '        let mut blob = field.value.to_blob().context(context)?;\n        String')),
 ('blob-mixed', ['C14'], 'de.rs', ('self.stats.total_blob.get() + (n as usize));', 'self.stats.collected.get() + (n as usize));')),
 ('depth-same', ['C15'], 'de.rs', ('depth: self.depth + 1,', 'depth: if field.is_empty() { self.depth } else { self.depth + 1 },')),
 ('depth-cut', ['C15'], 'de.rs', ('if self.depth >= self.config.recursion_limit {', 'if self.depth > self.config.recursion_limit {')),
 ('depth-nopush', ['C15'], 'unknown.rs', ('                &context.push_tag(&mut name, field.tag, field.pos)?,', '                context,')),
 ('depth-top', ['C15'], 'de.rs', ('        Self::deserialize_body(\n            context, field.value.to_struct().context(context)?)\n    }\n\n    fn deserialize_field\n        (accum: &mut (bool, Self)', '        Self::deserialize_body(\n            &Context::top(context.config), field.value.to_struct().context(context)?)\n    }\n\n    fn deserialize_field\n        (accum: &mut (bool, Self)')),
 ('unk-noskip', ['C16', 'C20'], 'de.rs', ('                    $context.unknown_field(&_field)?;\n                    _field.skip().context($context)?', '                    $context.unknown_field(&_field)?;')),
 ('unk-invert', ['C16'], 'de.rs', ('if self.config.ignore_unknown_fields {', 'if self.config.ignore_unknown_fields || field.tag > 32 {')),
 ('unk-pos', ['C16'], 'de.rs', ('Err(Error::UnknownField(self.to_string(), field.tag, field.pos))', 'Err(Error::UnknownField(self.to_string(), field.tag, self.pos))')),
 ('unk-variant', ['C16'], 'sugar.rs', ('                        Err($crate::de::Error::UnknownVariant(\n                            $context.to_string(), discriminant))', '                        Err($crate::de::Error::UnknownVariant(\n                            $context.to_string(), $context.pos))')),
 ('unk-quiet', ['C16'], 'sugar.rs', ('                        $context.unknown_field(&_field)?;\n', '')),
 ('err-swallow', ['C21'], 'de.rs', ('while let Some(mut _field) = $stream.next_field().context($context)? {', 'while let Some(mut _field) = $stream.next_field().unwrap_or(None) {')),
 ('err-notlocated', ['C21'], 'de.rs', ('Err(e) => return Some(Err(e.into())),', 'Err(e) => { let e: Error = e.into(); return Some(Err(match e { Error::Stream(_, e) => Error::Stream(String::new(), e), e => e })) },')),
 ('err-replaced', ['C21'], 'de.rs', ('*accum = Some(\n                 <Self as Deserialize<R, STYLE>>\n                     ::deserialize_element(context, field)?);', '*accum = Some(\n                 <Self as Deserialize<R, STYLE>>\n                     ::deserialize_element(context, field).map_err(|_| Error::RequiredFieldMissing(context.to_string()))?);')),
 ('err-label', ['C21'], 'de.rs', ('let subcontext = $context.push(\n                            stringify!($field), _field.pos)?;', 'let subcontext = $context.push(\n                            stringify!($field), $context.pos)?;')),
 ('err-display', ['C21'], 'de.rs', ('write!(f, "{}.{}{{{}}}", next, self.field, self.pos)', 'write!(f, "{}.{}{{{}}}", next, self.field, self.depth)')),
 ('err-tagname', ['C15', 'C21'], 'de.rs', ("name[0] = b'0' + tag / 10;", "name[0] = b'0' + tag / 16;")),
 ('cons-early', ['C20'], 'unknown.rs', ('                &mut field)?;\n        }', '                &mut field)?;\n            if this.0.len() == 63 { break; }\n        }')),
 ('cons-skipafter', ['C20'], 'de.rs', ('            *accum = Some(T::deserialize_element(context, field)?);\n            Ok(())', '            *accum = Some(T::deserialize_element(context, field)?);\n            let _ = field.value.to_struct().map(|s| s.next_field().map(|_| ()));\n            Ok(())')),
 # --- behaviour preserving
 ('r-collect', [], 'de.rs', ('''        if self.config.max_collect - self.stats.collected.get() < n {
            Err(Error::MaxCollectExceeded(self.to_string()))
        } else {
            self.stats.collected.set(self.stats.collected.get() + n);
            Ok(())
        }''', '''        let used = self.stats.collected.get();
        match used.checked_add(n) {
            Some(total) if total <= self.config.max_collect => {
                self.stats.collected.set(total);
                Ok(())
            }
            _ => Err(Error::MaxCollectExceeded(self.to_string())),
        }''')),
 ('r-blob', [], 'de.rs', ('''        if ((self.config.max_blob - self.stats.total_blob.get()) as u64) < n {
            Err(Error::MaxBlobExceeded(self.to_string()))
        } else {
            self.stats.total_blob.set(
                self.stats.total_blob.get() + (n as usize));
            Ok(())
        }''', '''        let left = (self.config.max_blob - self.stats.total_blob.get()) as u64;
        if n > left {
            return Err(Error::MaxBlobExceeded(self.to_string()));
        }
        let total = self.stats.total_blob.get() + n as usize;
        self.stats.total_blob.set(total);
        Ok(())''')),
 ('r-stats', [], 'de.rs', [('collected: Cell<usize>', 'n_items: Cell<usize>'), ('self.config.max_collect - self.stats.collected.get() < n', 'self.config.max_collect - self.stats.n_items.get() < n'), ('self.stats.collected.set(self.stats.collected.get() + n);', 'self.stats.n_items.set(self.stats.n_items.get() + n);')]),
 ('r-display', [], 'de.rs', ('''        if let Some(ref next) = self.next {
            write!(f, "{}.{}{{{}}}", next, self.field, self.pos)
        } else {
            write!(f, "{}{{{}}}", self.field, self.pos)
        }''', '''        match self.next {
            Some(next) => {
                write!(f, "{}", next)?;
                f.write_str(".")?;
                write!(f, "{}{{{}}}", self.field, self.pos)
            },
            None => write!(f, "{}{{{}}}", self.field, self.pos),
        }''')),
 ('r-push', [], 'de.rs', ('''        if self.depth >= self.config.recursion_limit {
            Err(Error::RecursionLimitExceeded(self.to_string()))
        } else {
            Ok(Context {''', '''        let depth = self.depth;
        if depth >= self.config.recursion_limit {
            return Err(Error::RecursionLimitExceeded(self.to_string()));
        }
        {
            Ok(Context {''')),
 ('r-unkloop', [], 'unknown.rs', ('''        while let Some(mut field) = stream.next_field().context(context)? {
            Self::deserialize_field(
                &mut this,
                &context.push_tag(&mut name, field.tag, field.pos)?,
                &mut field)?;
        }

        Self::finish(this, context)''', '''        loop {
            let mut field = match stream.next_field().context(context)? {
                Some(field) => field,
                None => break,
            };
            let sub = context.push_tag(&mut name, field.tag, field.pos)?;
            Self::deserialize_field(&mut this, &sub, &mut field)?;
        }

        Ok(this)''')),
 ('r-unkfield', [], 'unknown.rs', ('''        context.collect(1)?;
        this.0.push((field.tag, UnknownField::deserialize_element(
            context, field)?));
        Ok(())''', '''        context.collect(1)?;
        let tag = field.tag;
        let value = UnknownField::deserialize_element(context, field)?;
        this.0.push((tag, value));
        Ok(())''')),
 ('r-helper-once', [], 'de.rs', [('''        if accum.is_some() {
            return Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1));
        }

        *accum = Some($cvt);
        Ok(())''', '''        only_once(accum.is_some(), $context)?;
        *accum = Some($cvt);
        Ok(())'''), ('macro_rules! des_unary {', '''fn only_once(present: bool, context: &Context) -> Result<()> {
    if present {
        Err(Error::FieldOccursTooManyTimes(context.to_string(), 1))
    } else {
        Ok(())
    }
}

macro_rules! des_unary {''')]),
 ('r-vecfield', [], 'de.rs', ('''        if let Some(handled) = T::deserialize_vec(context, field) {
            if accum.0 {
                return Err(Error::FieldOccursTooManyTimes(
                    context.to_string(), 1));
            } else {
                accum.1 = handled?;
                accum.0 = true;
                return Ok(());
            }
        }

        context.collect(1)?;
        accum.1.push(T::deserialize_element(context, field)?);
        Ok(())''', '''        match T::deserialize_vec(context, field) {
            Some(handled) => {
                if accum.0 {
                    return Err(Error::FieldOccursTooManyTimes(
                        context.to_string(), 1));
                }
                accum.1 = handled?;
                accum.0 = true;
            },
            None => {
                context.collect(1)?;
                let item = T::deserialize_element(context, field)?;
                accum.1.push(item);
            },
        }
        Ok(())''')),
 ('r-body-match', [], 'de.rs', ('''         while let Some(mut _field) = $stream.next_field().context($context)? {
            match _field.tag {''', '''         loop {
            let mut _field = match $stream.next_field().context($context)? {
                None => break,
                Some(f) => f,
            };
            match _field.tag {''')),
 ('r-swap-unk', [], 'de.rs', ('''                _ => {
                    $context.unknown_field(&_field)?;
                    _field.skip().context($context)?
                },''', '''                _ => {
                    skip_unknown($context, _field)?;
                },'''),),
 ('r-slice-err', [], 'de.rs', ('''        let mut blob = match field.value.to_blob().context(context) {
            Ok(blob) => blob,
            Err(e) => return Some(Err(e.into())),
        };

        if blob.remaining() != (dst.len() as u64) {
            return Some(Err(Error::InvalidValueMsg(
                context.to_string(),
                "blob is the not correct length")));
        }

        Some(blob.read_exact(dst).map(|_| ())
             .map_err(stream::Error::from)
             .context(context).map_err(Error::from))''', '''        fn fill<R : Read>(dst: &mut [u8], context: &Context,
                          field: &mut stream::Field<R>) -> Result<()> {
            let mut blob = field.value.to_blob().context(context)?;
            if blob.len() != (dst.len() as u64) {
                return Err(Error::InvalidValueMsg(
                    context.to_string(), "blob is the not correct length"));
            }
            blob.read_exact(dst).map_err(stream::Error::from)
                .context(context)?;
            Ok(())
        }
        Some(fill(dst, context, field))''')),
]
for i, v in enumerate(VARIANTS):
    if v[0] == 'r-swap-unk':
        VARIANTS[i] = (v[0], [], 'de.rs', [v[3], ('/// Marker structs indicating the "style"', '''fn skip_unknown<R : Read>(context: &Context, mut field: stream::Field<R>) -> Result<()> {
    context.unknown_field(&mut field)?;
    field.skip().context(context)?;
    Ok(())
}

/// Marker structs indicating the "style"''')])
