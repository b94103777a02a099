D = 'de.rs'
S = 'stream.rs'
R = 'retrofit.rs'
STR = '''        String::from_utf8(
            blob.read_fully(context.config.max_blob).context(context)?)
        .map_err(|e| Error::InvalidValue(context.to_string(),
                                         Box::new(e)))?'''
CH = '''(char::from_u32(field.value.to_u32().context(context)?)
                      .ok_or(Error::InvalidValueMsg(
                          context.to_string(),
                          "char not in valid range"))?)'''
BS = '''        str::from_utf8(
            field.value.to_blob().and_then(|b| b.ext_slice())
                .context(context)?)
            .map_err(|e| Error::InvalidValue(context.to_string(),
                                             Box::new(e)))?)'''
AR = '''                if blob.remaining() != $n {'''
RX = '''                let mut selves = [0u8;$n];
                blob.read_exact(&mut selves)
                    .map_err(|e| stream::Error::from(e))
                    .context(context)?;'''
SL = '''        if blob.remaining() != (dst.len() as u64) {'''
SLX = '''        Some(blob.read_exact(dst).map(|_| ())
             .map_err(stream::Error::from)
             .context(context).map_err(Error::from))'''
DUR = '''    { if nsecs < 1_000_000_000 {
        Ok(Duration::new(secs, nsecs))
    } else {
        Err(de::Error::InvalidValueMsg(
            context.to_string(), "nanoseconds out of range"))
    } }'''
TE = "            Value::Struct(ref mut s) => Ok(s),"
EN = 'Value::Enum(discriminant, ref mut s) => Ok((discriminant, s)),'
VECB = '''            Ok(blob.read_fully(context.config.max_blob).context(context)?)
        }

        Some(dv(context, field))'''
VARIANTS = [
 ('v-str-lossy', ['C24'], D, (STR, '''        let b = blob.read_fully(context.config.max_blob).context(context)?;
        String::from_utf8_lossy(&b).into_owned()''')),
 ('v-str-unchecked', ['C24'], D, (STR, '''        let b = blob.read_fully(context.config.max_blob).context(context)?;
        unsafe { String::from_utf8_unchecked(b) }''')),
 ('v-str-trim', ['C24'], D, (STR, STR.replace('        .map_err', '        .map(|mut s| { if s.ends_with(\'\\0\') { s.pop(); } s })\n        .map_err'))),
 ('v-str-repair', ['C24'], D, (STR, '''        match String::from_utf8(
            blob.read_fully(context.config.max_blob).context(context)?) {
            Ok(s) => s,
            Err(e) => { let n = e.utf8_error().valid_up_to(); if n == 0 { return Err(Error::InvalidValue(context.to_string(), Box::new(e))); }
               let mut b = e.into_bytes(); b.truncate(n); String::from_utf8(b).unwrap() }
        }''')),
 ('v-bstr-unchecked', ['C24'], D, (BS, '''{ let b = field.value.to_blob().and_then(|b| b.ext_slice()).context(context)?;
        if b.len() > 4096 { unsafe { str::from_utf8_unchecked(b) } } else {
        str::from_utf8(b).map_err(|e| Error::InvalidValue(context.to_string(), Box::new(e)))? } })''')),
 ('v-char-repl', ['C24'], D, (CH, "(char::from_u32(field.value.to_u32().context(context)?).unwrap_or('\\u{FFFD}'))")),
 ('v-char-surr', ['C24'], D, (CH, CH.replace('field.value.to_u32().context(context)?', '{ let v = field.value.to_u32().context(context)?; if v >= 0xD800 && v < 0xE000 { 0xFFFD } else { v } }'))),
 ('v-char-nonchar', ['C24'], D, (CH, CH.replace('                      .ok_or', '                      .and_then(|c| if c as u32 == 0xFFFF { None } else { Some(c) })\n                      .ok_or'))),
 ('v-arr-longer', ['C24'], D, (AR, AR.replace('!= $n', '< $n'))),
 ('v-arr-shorter', ['C24'], D, [(AR, AR.replace('!= $n', '> $n')), (RX, '''                let mut selves = [0u8;$n];
                let n = blob.remaining() as usize;
                blob.read_exact(&mut selves[..n])
                    .map_err(|e| stream::Error::from(e))
                    .context(context)?;''')]),
 ('v-slice-longer', ['C24'], D, (SL, SL.replace('!=', '<'))),
 ('v-slice-short', ['C24'], D, [(SL, SL.replace('!=', '>')), (SLX, 'let n = blob.remaining() as usize;\n' + SLX.replace('read_exact(dst)', 'read_exact(&mut dst[..n])'))]),
 ('v-slice-mod', ['C24'], D, (SL, SL.replace('(dst.len() as u64)', '(dst.len() as u32 as u64)'))),
 ('v-dur-carry', ['C24'], R, (DUR, DUR.replace('nsecs < 1_000_000_000', 'nsecs < 2_000_000_000'))),
 ('v-dur-edge', ['C24'], R, (DUR, DUR.replace('nsecs < 1_000_000_000', 'nsecs <= 1_000_000_000'))),
 ('v-dur-strict', ['C24'], R, (DUR, DUR.replace('nsecs < 1_000_000_000', 'nsecs < 999_999_999'))),
 ('v-struct-enum', ['C24'], S, (TE, "            Value::Struct(ref mut s) | Value::Enum(0, ref mut s) => Ok(s),")),
 ('v-enum-struct', ['C24'], S, ('            Value::Struct(..) =>\n                Err(Error::UnexpectedType("Enum", "Struct")),', '            Value::Struct(ref mut s) => Ok((0, s)),')),
 ('v-enum-disc', ['C24'], S, (EN, EN.replace('Ok((discriminant, s))', 'Ok((discriminant & 0xFFFF_FFFF, s))'))),
 ('v-int-type', ['C24'], D, ('des_direct!(u16, to_u16);', 'des_unary! { (impl<R : Read, STYLE> Deserialize<R, STYLE> for u16); |context, field| (field.value.to_u64().context(context)? as u16) }')),
 ('v-vec-trunc', ['C24'], D, (VECB, VECB.replace('read_fully', 'read_or_trunc'))),
 ('v-u8-wide', ['C24'], D, ('*accum = Some(field.value.to_u8().context(context)?);', '*accum = Some(field.value.to_i8().context(context)? as u8);')),
 ('r-val-str', [], D, (STR, '''        let bytes = blob.read_fully(context.config.max_blob).context(context)?;
        match String::from_utf8(bytes) {
            Ok(s) => s,
            Err(e) => return Err(Error::InvalidValue(context.to_string(), Box::new(e))),
        }''')),
 ('r-val-bstr', [], D, (BS, '''{
        let blob = field.value.to_blob().context(context)?;
        let bytes = blob.ext_slice().context(context)?;
        match str::from_utf8(bytes) {
            Ok(s) => s,
            Err(e) => return Err(Error::InvalidValue(context.to_string(), Box::new(e))),
        } })''')),
 ('r-val-char', [], D, (CH, '''({ let code = field.value.to_u32().context(context)?;
        match char::from_u32(code) {
            Some(c) => c,
            None => return Err(Error::InvalidValueMsg(context.to_string(), "char not in valid range")),
        } })''')),
 ('r-val-char2', [], D, (CH, '''({ let code = field.value.to_u32().context(context)?;
        if let Some(c) = char::from_u32(code) { c } else {
            return Err(Error::InvalidValueMsg(context.to_string(), "char not in valid range"));
        } })''')),
 ('r-val-arr', [], D, (AR, '                let len: u64 = blob.len();\n                if len > $n || len < $n {')),
 ('r-val-arrexp', [], D, (AR, '                const EXPECTED: u64 = $n;\n                let matches = blob.remaining() == EXPECTED;\n                if !matches {')),
 ('r-val-slice', [], D, [(SL, '        let expected = dst.len() as u64;\n        if blob.remaining() != expected {'), (SLX, '''        match blob.read_exact(dst) {
            Ok(()) => Some(Ok(())),
            Err(e) => Some(Err(stream::Error::from(e)).context(context).map_err(Error::from)),
        }''')]),
 ('r-val-dur', [], R, (DUR, '''    { {
        if nsecs > 999_999_999 {
            return Err(de::Error::InvalidValueMsg(
                context.to_string(), "nanoseconds out of range"));
        }
        Ok(Duration::new(secs, nsecs))
    } }''')),
 ('r-val-to', [], S, (TE, '            Value::Struct(ref mut stream) => { let s: &mut Stream<R> = stream; Ok(s) },')),
 ('r-val-enum', [], S, (EN, 'Value::Enum(d, ref mut s) => { let pair = (d, &mut **s); Ok(pair) },')),
 ('r-val-u8', [], D, ('        *accum = Some(field.value.to_u8().context(context)?);\n        Ok(())', '        let byte = field.value.to_u8().context(context)?;\n        accum.get_or_insert(byte);\n        Ok(())')),
]
