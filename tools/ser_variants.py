SEQ = '''        for e in self {
            e.serialize_element(dst, tag)?;
        }
        Ok(())
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        if let'''
MAPB = '''            dst.write_struct(tag)?;
            k.serialize_field(dst, 1)?;
            v.serialize_field(dst, 2)?;
            dst.write_end_struct()?;'''
VARIANTS = [
 # --- bugs: well-formedness
 ('ser-noend', ['C10'], 'ser.rs', ('            v.serialize_field(dst, 2)?;\n            dst.write_end_struct()?;', '            v.serialize_field(dst, 2)?;')),
 ('ser-endonce', ['C10'], 'ser.rs', ('        self.serialize_field(dst, 1)?;\n        dst.write_end_struct()\n    }\n}\n\nmacro_rules! ser_iter_mut', '        if self.is_empty() { return Ok(()); }\n        self.serialize_field(dst, 1)?;\n        dst.write_end_struct()\n    }\n}\n\nmacro_rules! ser_iter_mut')),
 ('ser-tag0', ['C10'], 'ser.rs', ('self.$v.serialize_field(dst, $v + 1)?;', 'self.$v.serialize_field(dst, $v)?;')),
 ('ser-owntag', ['C10'], 'ser.rs', ('            dst.write_struct(tag)?;\n            k.serialize_field', '            dst.write_struct(1)?;\n            k.serialize_field')),
 ('ser-swallow', ['C10'], 'ser.rs', (SEQ, SEQ.replace('e.serialize_element(dst, tag)?;', 'if e.serialize_element(dst, tag).is_err() { break; }'))),
 ('ser-elem-field', ['C10'], 'ser.rs', ('self.serialize_as().serialize_element(dst, tag)', 'self.serialize_as().serialize_field(dst, tag)')),
 ('ser-double-end', ['C10'], 'unknown.rs', ('                dst.write_enum(tag, discriminant)?;\n                sub.serialize_body(dst)', '                dst.write_enum(tag, discriminant)?;\n                sub.serialize_body(dst)?;\n                dst.write_end_struct()')),
 ('ser-enum-doc', ['C10'], 'unknown.rs', ('        dst.write_end_struct()\n    }\n\n    fn serialize_element', '        dst.write_end_doc()\n    }\n\n    fn serialize_element')),
 # --- bugs: cardinality
 ('card-opt2', ['C12'], 'de.rs', ('''        if accum.is_some() {
            Err(Error::FieldOccursTooManyTimes(
                context.to_string(), 1))
        } else {
            *accum = Some(T::deserialize_element(context, field)?);
            Ok(())
        }
    }

    fn finish(accum: Self, _: &Context)''', '''        *accum = Some(T::deserialize_element(context, field)?);
            Ok(())
    }

    fn finish(accum: Self, _: &Context)''')),
 ('card-arr-off', ['C12'], 'de.rs', ('if *count >= $n {', 'if *count > $n {')),
 ('card-arr-few', ['C12'], 'de.rs', ('if count < $n {', 'if count + 1 < $n {')),
 ('card-large-few', ['C12'], 'de.rs', ('if accum.0 < $n {', 'if accum.0 == 0 {')),
 ('card-large-bulk', ['C12'], 'de.rs', ('accum.0 = $n;', 'accum.0 += 1;')),
 ('card-arr-rev', ['C12'], 'de.rs', ('dst[*count] = Some(', 'dst[$n - 1 - *count] = Some(')),
 ('card-min', ['C12'], 'de.rs', ('                                    if T::serialized_as_slice() { 1 }\n                                    else { $n }))\n                            }\n                        } else {\n                            Ok([', '                                    count as u64))\n                            }\n                        } else {\n                            Ok([')),
 ('card-max', ['C12'], 'de.rs', ('''                    ArrayAccum::AllAtOnce(_) =>
                        Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), $n)),''', '''                    ArrayAccum::AllAtOnce(_) =>
                        Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), 1)),''')),
 ('card-front', ['C12'], 'de.rs', ('for ::std::collections::LinkedList<T>);\n              push_back);', 'for ::std::collections::LinkedList<T>);\n              push_front);')),
 ('card-vec2', ['C12'], 'de.rs', ('                accum.1 = handled?;\n                accum.0 = true;', '                accum.1 = handled?;\n                accum.0 = !accum.1.is_empty();')),
 ('card-vecmiss', ['C12'], 'de.rs', ('if T::serialized_as_slice() && !accum.0 {', 'if T::serialized_as_slice() && !accum.0 && accum.1.capacity() > 0 {')),
 ('card-mapkeep', ['C12'], 'de.rs', ('        accum.insert(k, v);\n', '        if context.depth < 40 { accum.insert(k, v); }\n')),
 ('card-mapdup', ['C12'], 'de.rs', ('        accum.insert(k, v);\n', '        accum.entry(k).or_insert(v);\n')),
 ('card-unk-rev', ['C12'], 'unknown.rs', ('''        this.0.push((field.tag, UnknownField::deserialize_element(
            context, field)?));''', '''        let v = UnknownField::deserialize_element(context, field)?;
        if this.0.last().map_or(false, |l| l.0 == field.tag) { this.0.pop(); }
        this.0.push((field.tag, v));''')),
 ('card-tuple2', ['C12'], 'de.rs', ('''             if accum.is_some() {
                 return Err(Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }

             *accum = Some(
                 <Self''', '''             if accum.is_some() && context.depth == 0 {
                 return Err(Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }

             *accum = Some(
                 <Self''')),
 ('card-wrap', ['C12'], 'de.rs', ('', '')),
 ('card-reset', ['C12'], 'de.rs', ('                        let subcontext = $context.push(\n                            stringify!($field), _field.pos)?;\n', '                        let subcontext = $context.push(\n                            stringify!($field), _field.pos)?;\n                        $field = Default::default();\n')),
 ('card-dflt', ['C12'], 'de.rs', ('ArrayAccum::OneByOne(0, _) => false,', 'ArrayAccum::OneByOne(_, _) => false,')),
 # --- behaviour preserving
 ('r-while', [], 'ser.rs', (SEQ, SEQ.replace('for e in self {', 'let mut it = self.iter();\n        while let Some(e) = it.next() {'))),
 ('r-index', [], 'ser.rs', (SEQ, SEQ.replace('for e in self {', 'for i in 0..self.len() { let e = &self[i];'))),
 ('r-tryeach', [], 'ser.rs', (SEQ, SEQ.replace('for e in self {\n            e.serialize_element(dst, tag)?;\n        }\n        Ok(())', 'self.iter().map(|e| e.serialize_element(dst, tag)).find(|r| r.is_err()).unwrap_or(Ok(()))'))),
 ('r-tryfor', [], 'ser.rs', (SEQ, SEQ.replace('for e in self {\n            e.serialize_element(dst, tag)?;\n        }\n        Ok(())', 'self.iter().try_for_each(|e| e.serialize_element(dst, tag))'))),
 ('r-mapfn', [], 'ser.rs', [(MAPB, '            pair(k, v, dst, tag)?;'), ('macro_rules! ser_map {', 'fn pair<K : Serialize, V : Serialize, R : Write>(k: &K, v: &V, dst: &mut Stream<R>, tag: u8) -> Result<()> {\n    dst.write_struct(tag)?;\n    k.serialize_field(dst, 1)?;\n    v.serialize_field(dst, 2)?;\n    dst.write_end_struct()\n}\nmacro_rules! ser_map {')]),
 ('r-maptuple', [], 'ser.rs', (MAPB, '            (k, v).serialize_element(dst, tag)?;')),
 ('r-body', [], 'ser.rs', ('''        dst.write_struct(tag)?;
        self.serialize_field(dst, 1)?;
        dst.write_end_struct()
    }
}

macro_rules! ser_iter_mut''', '''        dst.write_struct(tag)?;
        self.serialize_body(dst)
    }
}

macro_rules! ser_iter_mut''')),
 ('r-u8slice', [], 'ser.rs', ('        Some(dst.write_blob_data(tag, selves).map(|_| ()))', '        Some(match dst.write_blob_data(tag, selves) { Ok(_) => Ok(()), Err(e) => Err(e) })')),
 ('r-optmatch', [], 'de.rs', ('''        if accum.is_some() {
            Err(Error::FieldOccursTooManyTimes(
                context.to_string(), 1))
        } else {
            *accum = Some(T::deserialize_element(context, field)?);
            Ok(())
        }
    }

    fn finish(accum: Self, _: &Context)''', '''        match *accum {
            Some(_) => Err(Error::FieldOccursTooManyTimes(context.to_string(), 1)),
            None => {
                let v = T::deserialize_element(context, field)?;
                *accum = Some(v);
                Ok(())
            }
        }
    }

    fn finish(accum: Self, _: &Context)''')),
 ('r-once', [], 'de.rs', [('''             if accum.is_some() {
                 return Err(Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
''', '''             at_most_once(accum, context)?;
'''), ('macro_rules! des_struct {', '''fn at_most_once<T>(accum: &Option<T>, context: &Context) -> Result<()> {
    match *accum {
        None => Ok(()),
        Some(_) => Err(Error::FieldOccursTooManyTimes(context.to_string(), 1)),
    }
}
macro_rules! des_struct {''')]),
 ('r-arrcount', [], 'de.rs', ('''                        if *count >= $n {
                            Err(Error::FieldOccursTooManyTimes(
                                context.to_string(), $n))
                        } else {
                            dst[*count] = Some(
                                T::deserialize_element(context, field)?);
                            *count += 1;
                            Ok(())
                        }''', '''                        if *count < $n {
                            let v = T::deserialize_element(context, field)?;
                            let at = *count;
                            *count = at + 1;
                            dst[at] = Some(v);
                            return Ok(());
                        }
                        Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), $n))''')),
 ('r-fewer', [], 'de.rs', ('''                    if 0 == accum.0 {
                        Err(Error::RequiredFieldMissing(
                            context.to_string()))
                    } else {
                        Err(Error::FieldOccursTooFewTimes(
                            context.to_string(),
                            if T::serialized_as_slice() { 1 }
                            else { $n }))
                    }''', '''                    let min = if T::serialized_as_slice() { 1 } else { $n };
                    Err(match accum.0 {
                        0 => Error::RequiredFieldMissing(context.to_string()),
                        _ => Error::FieldOccursTooFewTimes(context.to_string(), min),
                    })''')),
 ('r-vecfin', [], 'de.rs', ('''        if T::serialized_as_slice() && !accum.0 {
            Err(Error::RequiredFieldMissing(context.to_string()))
        } else {
            Ok(accum.1)
        }''', '''        let (seen, vec) = accum;
        if seen || !T::serialized_as_slice() {
            return Ok(vec);
        }
        Err(Error::RequiredFieldMissing(context.to_string()))''')),
 ('r-mapelem', [], 'de.rs', ('''        let (k, v) = <(K, V) as Deserialize<R, STYLE>>::
            deserialize_element(context, field)?;
        accum.insert(k, v);
        Ok(())''', '''        <(K, V) as Deserialize<R, STYLE>>::deserialize_element(context, field)
            .map(|pair| { accum.insert(pair.0, pair.1); })''')),
 ('r-boxmap', [], 'de.rs', ('', '')),
]
VARIANTS = [v for v in VARIANTS if not (isinstance(v[3], tuple) and v[3] == ('', ''))]
