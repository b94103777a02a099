BODY = '''        for &(tag, ref field) in &self.0 {
            field.serialize_field(dst, tag)?;
        }
        dst.write_end_struct()'''
RD = '''        while let Some(mut field) = stream.next_field().context(context)? {
            Self::deserialize_field('''
CAP = '''            *accum = Some(match field.value {
                stream::Value::Integer(n) => UnknownField::Integer(n),
                stream::Value::Blob(_) => UnknownField::Blob(
                    Cow::<'a, [u8]>::deserialize_element(context, field)?),
                stream::Value::Struct(ref mut stream) => UnknownField::Struct(
                    UnknownFields::deserialize_body(context, stream)?),
                stream::Value::Enum(d, ref mut stream) => UnknownField::Enum(
                    d, UnknownFields::deserialize_body(context, stream)?),
            });'''
V = 'unknown.rs'
VARIANTS = [
 ('u-skipempty', ['C17'], V, (BODY, BODY.replace('field.serialize_field(dst, tag)?;', 'if let UnknownField::Struct(ref s) = *field { if s.0.is_empty() { continue; } }\n field.serialize_field(dst, tag)?;'))),
 ('u-rev', ['C17'], V, (BODY, BODY.replace('in &self.0', 'in self.0.iter().rev()'))),
 ('u-dedup', ['C17'], V, (BODY, 'let mut last = 0;\n' + BODY.replace('field.serialize_field(dst, tag)?;', 'if tag == last { continue; } last = tag;\n field.serialize_field(dst, tag)?;'))),
 ('u-wrongtag', ['C17'], V, (BODY, BODY.replace('(dst, tag)?', '(dst, tag & 31)?'))),
 ('u-skip1', ['C17'], V, (BODY, BODY.replace('in &self.0', 'in &self.0[..self.0.len().saturating_sub(1)]'))),
 ('u-i64', ['C17'], V, ('dst.write_u64(tag, n)', 'dst.write_i64(tag, n as i64)')),
 ('u-u32', ['C17'], V, ('dst.write_u64(tag, n)', 'dst.write_u32(tag, n as u32)')),
 ('u-enumasstruct', ['C17'], V, ('                dst.write_enum(tag, discriminant)?;', '                if discriminant == 0 { dst.write_struct(tag)?; } else { dst.write_enum(tag, discriminant)?; }')),
 ('u-disc32', ['C17'], V, ('dst.write_enum(tag, discriminant)?;', 'dst.write_enum(tag, discriminant as u32 as u64)?;')),
 ('u-capdisc', ['C17'], V, (CAP, CAP.replace('                    d, UnknownFields', '                    d & 0xFFFF_FFFF, UnknownFields'))),
 ('u-capstruct', ['C17'], V, (CAP, CAP.replace('stream::Value::Struct(ref mut stream) => UnknownField::Struct(\n                    UnknownFields', 'stream::Value::Struct(ref mut stream) => UnknownField::Enum(0,\n                    UnknownFields'))),
 ('u-capint', ['C17'], V, (CAP, CAP.replace('UnknownField::Integer(n)', 'UnknownField::Integer(n as i64 as u64 & !(1 << 63))'))),
 ('u-captag', ['C17'], V, ('this.0.push((field.tag, UnknownField', 'this.0.push((field.tag & 0x1F, UnknownField')),
 ('u-capfront', ['C17'], V, ('''        this.0.push((field.tag, UnknownField::deserialize_element(
            context, field)?));''', '''        let f = UnknownField::deserialize_element(context, field)?;
        this.0.insert(0, (field.tag, f));''')),
 ('u-capskip', ['C17'], V, (RD, RD.replace('            Self::', '            if field.tag == 63 { continue; }\n            Self::'))),
 ('u-cap2', ['C17'], V, ('''        this.0.push((field.tag, UnknownField::deserialize_element(
            context, field)?));''', '''        let f = UnknownField::deserialize_element(context, field)?;
        if let Some(p) = this.0.iter().position(|x| x.0 == field.tag) { this.0[p].1 = f; } else {
        this.0.push((field.tag, f)); }''')),
 ('u-bloblen', ['C17'], V, ('dst.write_blob_data(tag, data).map(|_| ())', 'dst.write_blob_data(tag, &data[..::std::cmp::min(data.len(), 65536)]).map(|_| ())')),
 ('u-blobempty', ['C17'], V, ('dst.write_blob_data(tag, data).map(|_| ())', 'if data.is_empty() { dst.write_u64(tag, 0) } else { dst.write_blob_data(tag, data).map(|_| ()) }')),
 ('u-field', ['C17'], V, ('''        panic!("fourleaf::unknown::UnknownFields cannot be used as field \\
                of a struct or other heterogeneous construct");''', '        Ok(())')),
 # refactorings
 ('r-index', [], V, (BODY, BODY.replace('for &(tag, ref field) in &self.0 {', 'for i in 0..self.0.len() { let (tag, ref field) = self.0[i];'))),
 ('r-element', [], V, (BODY, BODY.replace('serialize_field', 'serialize_element'))),
 ('r-try', [], V, (BODY, '''        self.0.iter().try_for_each(|&(tag, ref field)| field.serialize_field(dst, tag))?;
        dst.write_end_struct()''')),
 ('r-while', [], V, (BODY, BODY.replace('for &(tag, ref field) in &self.0 {', 'let mut it = self.0.iter();\n while let Some(pair) = it.next() { let tag = pair.0; let field = &pair.1;'))),
 ('r-substruct', [], V, ('''                dst.write_struct(tag)?;
                sub.serialize_body(dst)
            },
            UnknownField::Enum''', '''                sub.serialize_element(dst, tag)
            },
            UnknownField::Enum''')),
 ('r-capelem', [], V, (CAP, CAP.replace('stream::Value::Struct(ref mut stream) => UnknownField::Struct(\n                    UnknownFields::deserialize_body(context, stream)?)', 'stream::Value::Struct(_) => UnknownField::Struct(\n                    UnknownFields::deserialize_element(context, field)?)'))),
 ('r-capenum', [], V, (CAP, CAP.replace('''stream::Value::Enum(d, ref mut stream) => UnknownField::Enum(
                    d, UnknownFields::deserialize_body(context, stream)?)''', '''stream::Value::Enum(..) => {
                    let (d, sub) = field.value.to_enum().context(context)?;
                    UnknownField::Enum(d, UnknownFields::deserialize_body(context, sub)?)
                }'''))),
 ('r-push', [], V, ('''        this.0.push((field.tag, UnknownField::deserialize_element(
            context, field)?));''', '''        let tag = field.tag;
        let value = UnknownField::deserialize_element(context, field)?;
        this.0.push((tag, value));''')),
 ('r-loop', [], V, (RD + '''
                &mut this,
                &context.push_tag(&mut name, field.tag, field.pos)?,
                &mut field)?;
        }''', '''        loop {
            match stream.next_field().context(context)? {
                None => break,
                Some(mut field) => {
                    let sub = context.push_tag(&mut name, field.tag, field.pos)?;
                    Self::deserialize_field(&mut this, &sub, &mut field)?;
                }
            }
        }''')),
 ('r-deref', [], V, ('dst.write_blob_data(tag, data).map(|_| ())', '{ dst.write_blob_data(tag, &**data)?; Ok(()) }')),
 ('r-owned', [], V, ('''            UnknownField::Struct(ref sub) => {
                dst.write_struct(tag)?;
                sub.serialize_body(dst)
            },
            UnknownField::Enum(discriminant, ref sub) => {
                dst.write_enum(tag, discriminant)?;
                sub.serialize_body(dst)
            },''', '''            UnknownField::Struct(ref sub) | UnknownField::Enum(_, ref sub) => {
                match *self {
                    UnknownField::Enum(discriminant, _) => dst.write_enum(tag, discriminant)?,
                    _ => dst.write_struct(tag)?,
                }
                sub.serialize_body(dst)
            },''')),
]
