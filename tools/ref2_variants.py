import re
def src(f): return open('/repo/src/'+f).read()
D,S,U,R,G,X='de.rs','ser.rs','unknown.rs','retrofit.rs','sugar.rs','stream.rs'
d_, s_, u_ = src(D), src(S), src(U)
VARIANTS=[]
def v(name,*reps): VARIANTS.append((name,[],'',[r if len(r)==3 else (D,)+r for r in reps]))
ANCH='#[allow(missing_docs)]\n#[doc(hidden)]\npub enum ArrayAccum'
OCC='''        if accum.is_some() {
            return Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1));
        }

        *accum = Some($cvt);
        Ok(())'''
# one helper for single-occurrence slots, taking a closure
v('f-once-closure', ('macro_rules! des_unary {','''fn only_once<T, F : FnOnce () -> Result<T>>(slot: &mut Option<T>,
                                           context: &Context, get: F)
                                           -> Result<()> {
    match *slot {
        Some(_) => Err(Error::FieldOccursTooManyTimes(context.to_string(), 1)),
        None => {
            *slot = Some(get()?);
            Ok(())
        },
    }
}

fn required<T>(slot: Option<T>, context: &Context) -> Result<T> {
    match slot {
        Some(v) => Ok(v),
        None => Err(Error::RequiredFieldMissing(context.to_string())),
    }
}

macro_rules! des_unary {'''), (OCC,'''        only_once(accum, $context, || Ok($cvt))'''),
 ('''    fn finish(accum: Option<Self>, $context: &Context) -> Result<Self> {
        accum.ok_or_else(|| Error::RequiredFieldMissing(
            $context.to_string()))''','''    fn finish(accum: Option<Self>, $context: &Context) -> Result<Self> {
        required(accum, $context)'''),
 ('''             if accum.is_some() {
                 return Err(Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }

             *accum = Some(
                 <Self as Deserialize<R, STYLE>>
                     ::deserialize_element(context, field)?);
             Ok(())''','''             only_once(accum, context, || <Self as Deserialize<R, STYLE>>
                     ::deserialize_element(context, field))'''),
 ('''        if accum.is_some() {
            Err(Error::FieldOccursTooManyTimes(
                context.to_string(), 1))
        } else {
            *accum = Some(T::deserialize_element(context, field)?);
            Ok(())
        }''','''        only_once(accum, context, || T::deserialize_element(context, field))'''))
# check first, value computed afterwards, through a guard returning Result
v('f-guard', ('macro_rules! des_unary {','''fn vacant<T>(slot: &Option<T>, max: u64, context: &Context) -> Result<()> {
    if slot.is_none() { Ok(()) } else {
        Err(Error::FieldOccursTooManyTimes(context.to_string(), max))
    }
}

macro_rules! des_unary {'''), (OCC,'''        vacant(accum, 1, $context)?;
        let value = $cvt;
        ::std::mem::replace(accum, Some(value));
        Ok(())'''),
 ('''        if accum.is_some() {
            Err(Error::FieldOccursTooManyTimes(
                context.to_string(), 1))
        } else {
            *accum = Some(T::deserialize_element(context, field)?);
            Ok(())
        }''','''        vacant(accum, 1, context)?;
        T::deserialize_element(context, field).map(|v| *accum = Some(v))'''))
# copying a blob, shared
v('f-copyblob', ('''        let mut blob = field.value.to_blob().context(context)?;
        context.blob(blob.len())?;
        String::from_utf8(
            blob.read_fully(context.config.max_blob).context(context)?)
''','''        String::from_utf8(copied(context, field)?)
'''),('''        fn dv<R : Read>(context: &Context, field: &mut stream::Field<R>)
                        -> Result<Vec<u8>> {
            let mut blob = field.value.to_blob().context(context)?;
            context.blob(blob.len())?;
            Ok(blob.read_fully(context.config.max_blob).context(context)?)
        }

        Some(dv(context, field))''','''        Some(copied(context, field))'''),
 (ANCH,'''fn copied<R : Read>(context: &Context, field: &mut stream::Field<R>)
                    -> Result<Vec<u8>> {
    let limit = context.config.max_blob;
    let mut blob = field.value.to_blob().context(context)?;
    let len = blob.remaining();
    context.blob(len)?;
    match blob.read_fully(limit) {
        Ok(v) => Ok(v),
        Err(e) => Err(Error::Stream(context.to_string(), e)),
    }
}

'''+ANCH))
# exact bytes, shared
i_=d_.index('            fn imp<R : Read>(context: &Context'); j_=d_.index('            Some(imp(context, field))')
k_=d_.index('        let mut blob = match field.value.to_blob().context(context) {'); l_=d_.index('    deser_bytes_as_array!(deserialize_array_0, 0);')
v('f-exact', (d_[i_:j_]+'            Some(imp(context, field))','''            let mut selves = [0u8;$n];
            Some(exact(&mut selves, context, field, concat!(
                "blob is not exactly ", stringify!($n), " bytes long"))
                .map(|()| selves))'''),
 (d_[k_:l_],'''        Some(exact(dst, context, field, "blob is the not correct length"))
    }

'''), (ANCH,'''fn exact<R : Read>(dst: &mut [u8], context: &Context,
                   field: &mut stream::Field<R>, msg: &'static str)
                   -> Result<()> {
    let mut blob = field.value.to_blob().context(context)?;
    if (dst.len() as u64) != blob.remaining() {
        return Err(Error::InvalidValueMsg(context.to_string(), msg));
    }

    if let Err(e) = blob.read_exact(dst) {
        Err(Error::Stream(context.to_string(), stream::Error::from(e)))
    } else {
        Ok(())
    }
}

'''+ANCH))
# has_one inlined as pattern; small arrays restructured
v('f-arr1', ('''                if let Some(handled) = T::$arr_meth(context, field) {
                    if accum.has_one() {
                        return Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), 1));
                    } else {
                        *accum = ArrayAccum::AllAtOnce(handled?);
                        return Ok(());
                    }
                }

                match *accum {
                    ArrayAccum::AllAtOnce(_) =>
                        Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), $n)),
                    ArrayAccum::OneByOne(ref mut count, ref mut dst) => {
                        if *count >= $n {
                            Err(Error::FieldOccursTooManyTimes(
                                context.to_string(), $n))
                        } else {
                            dst[*count] = Some(
                                T::deserialize_element(context, field)?);
                            *count += 1;
                            Ok(())
                        }
                    },
                }''','''                match T::$arr_meth(context, field) {
                    None => (),
                    Some(_) if accum.has_one() =>
                        return Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), 1)),
                    Some(Ok(all)) => {
                        *accum = ArrayAccum::AllAtOnce(all);
                        return Ok(());
                    },
                    Some(Err(e)) => return Err(e),
                }

                if let ArrayAccum::OneByOne(ref mut count, ref mut dst) = *accum {
                    if let Some(slot) = dst.get_mut(*count) {
                        *slot = Some(T::deserialize_element(context, field)?);
                        *count = *count + 1;
                        return Ok(());
                    }
                }

                Err(Error::FieldOccursTooManyTimes(context.to_string(), $n))'''))
v('f-arr-take', ('''            match *self {
            ArrayAccum::OneByOne(0, _) => false,
            _ => true,
        }'''.replace('            match','        match',1),'''        !matches!(*self, ArrayAccum::OneByOne(0, _))'''),
 ('''                        if count < $n {
                            if 0 == count {
                                Err(Error::RequiredFieldMissing(
                                    context.to_string()))
                            } else {
                                Err(Error::FieldOccursTooFewTimes(
                                    context.to_string(),
                                    if T::serialized_as_slice() { 1 }
                                    else { $n }))
                            }
                        } else {
                            Ok([$(vals[$count].take().unwrap()),*])
                        }''','''                        if count >= $n {
                            return Ok([$(vals[$count].take().expect("counted")),*]);
                        }
                        too_few::<R, STYLE, T, Self>(count, $n, context)'''),
 ('''                if accum.0 < $n {
                    if 0 == accum.0 {
                        Err(Error::RequiredFieldMissing(
                            context.to_string()))
                    } else {
                        Err(Error::FieldOccursTooFewTimes(
                            context.to_string(),
                            if T::serialized_as_slice() { 1 }
                            else { $n }))
                    }
                } else {
                    Ok(accum.1)
                }''','''                let LargeArrayAccum(count, vals) = accum;
                if count < $n {
                    return too_few::<R, STYLE, T, Self>(count, $n, context);
                }
                Ok(vals)'''),
 (ANCH,'''fn too_few<R : Read, STYLE, T : Deserialize<R, STYLE>, A>(
    count: usize, n: u64, context: &Context) -> Result<A>
{
    Err(match count {
        0 => Error::RequiredFieldMissing(context.to_string()),
        _ => Error::FieldOccursTooFewTimes(
            context.to_string(),
            if T::serialized_as_slice() { 1 } else { n }),
    })
}

'''+ANCH))
v('f-arr-map', ('Ok([$(vals[$count].take().unwrap()),*])', '{ let _ = [$($count as u8),*] as [u8;$n]; Ok(vals.map(|v| v.unwrap())) }'))
v('f-large', ('''                if accum.0 >= $n {
                    Err(Error::FieldOccursTooManyTimes(
                        context.to_string(), $n))
                } else {
                    accum.1[accum.0] = T::deserialize_element(context, field)?;
                    accum.0 += 1;
                    Ok(())
                }''','''                let LargeArrayAccum(ref mut count, ref mut vals) = *accum;
                match vals.get_mut(*count) {
                    Some(slot) => {
                        *slot = T::deserialize_element(context, field)?;
                        *count += 1;
                        Ok(())
                    },
                    None => Err(Error::FieldOccursTooManyTimes(
                        context.to_string(), $n)),
                }'''),
 ('''                    handled?;
                    if 0 != accum.0 {
                        return Err(Error::FieldOccursTooManyTimes(
                            context.to_string(), 1));
                    } else {
                        accum.0 = $n;
                        return Ok(());
                    }''','''                    return handled.and_then(|()| {
                        if accum.0 > 0 {
                            Err(Error::FieldOccursTooManyTimes(
                                context.to_string(), 1))
                        } else {
                            accum.0 = $n;
                            Ok(())
                        }
                    });'''))
# structs: opening helper
v('f-asstruct', ('macro_rules! des_unary {','''fn open<'f, 'd, R : Read>(context: &Context, field: &'f mut stream::Field<'d, R>)
                  -> Result<&'f mut stream::Stream<R>> {
    field.value.to_struct().map_err(
        |e| Error::Stream(context.to_string(), e))
}

macro_rules! des_unary {'''), *[(x,y) for x,y in [('''             <Self as Deserialize<R, STYLE>>::deserialize_body(
                 context, field.value.to_struct().context(context)?)''','''             open(context, field).and_then(
                 |s| <Self as Deserialize<R, STYLE>>::deserialize_body(context, s))'''),
 ('''        Self::deserialize_body(
            context, field.value.to_struct().context(context)?)
    }

    fn deserialize_field
        (accum: &mut (bool, Self)''','''        let stream = open(context, field)?;
        Self::deserialize_body(context, stream)
    }

    fn deserialize_field
        (accum: &mut (bool, Self)''')]])
v('f-body-loop', ('''         while let Some(mut _field) = $stream.next_field().context($context)? {
            match _field.tag {
                $(
                    $tag => {
                        let subcontext = $context.push(
                            stringify!($field), _field.pos)?;
                        <$t as Deserialize<R, STYLE>>::deserialize_field(
                            &mut $field, &subcontext, &mut _field)?;
                    },
                )*
                _ => {
                    $context.unknown_field(&_field)?;
                    _field.skip().context($context)?
                },
            }
        }
''','''        loop {
            let mut _field = match $stream.next_field() {
                Ok(Some(f)) => f,
                Ok(None) => break,
                Err(e) => return Err(Error::Stream($context.to_string(), e)),
            };
            $(
                if $tag == _field.tag {
                    let subcontext = $context.push(
                        stringify!($field), _field.pos)?;
                    let one = <$t as Deserialize<R, STYLE>>::deserialize_field(
                        &mut $field, &subcontext, &mut _field);
                    match one { Ok(()) => continue, Err(e) => return Err(e) }
                }
            )*
            if let Err(e) = $context.unknown_field(&_field) {
                return Err(e);
            }
            _field.skip().context($context)?
        }
'''))
v('f-finish-helper', ('''            let subcontext = $context.push(stringify!($field), $stream.pos())?;
            let $field = <$t as Deserialize<R, STYLE>>::finish(
                $field, &subcontext)?;''','''            let $field = finish_at::<R, STYLE, $t>(
                $field, $context, stringify!($field), $stream)?;'''),
 ('macro_rules! des_struct_body {','''fn finish_at<R : Read, STYLE, T : Deserialize<R, STYLE>>(
    accum: T::Accum, context: &Context, name: &str, stream: &stream::Stream<R>)
    -> Result<T>
{
    context.push(name, stream.pos()).and_then(|sub| T::finish(accum, &sub))
}

macro_rules! des_struct_body {'''))
v('f-vec', ('''        if let Some(handled) = T::deserialize_vec(context, field) {
            if accum.0 {
                return Err(Error::FieldOccursTooManyTimes(
                    context.to_string(), 1));
            } else {
                accum.1 = handled?;
                accum.0 = true;
                return Ok(());
            }
        }

        context.collect(1)?;
        accum.1.push(T::deserialize_element(context, field)?);
        Ok(())''','''        let (ref mut whole, ref mut items) = *accum;
        match T::deserialize_vec(context, field) {
            Some(all) => {
                if *whole {
                    return Err(Error::FieldOccursTooManyTimes(
                        context.to_string(), 1));
                }
                *items = all?;
                *whole = true;
            },
            None => {
                context.collect(1)?;
                let item = T::deserialize_element(context, field)?;
                items.push(item);
            },
        }
        Ok(())'''),('''        if T::serialized_as_slice() && !accum.0 {
            Err(Error::RequiredFieldMissing(context.to_string()))
        } else {
            Ok(accum.1)
        }''','''        let (whole, items) = accum;
        match (T::serialized_as_slice(), whole) {
            (true, false) => Err(Error::RequiredFieldMissing(context.to_string())),
            _ => Ok(items),
        }'''))
v('f-extend', ('''        accum.$meth(T::deserialize_element(context, field)?);
        Ok(())''','''        let item = T::deserialize_element(context, field)?;
        accum.extend(Some(item));
        Ok(())'''))
v('f-mapext', ('''        let (k, v) = <(K, V) as Deserialize<R, STYLE>>::
            deserialize_element(context, field)?;
        accum.insert(k, v);
        Ok(())''','''        let entry = <(K, V) as Deserialize<R, STYLE>>::
            deserialize_element(context, field)?;
        accum.extend(::std::iter::once(entry));
        Ok(())'''))
v('f-elem-trait', ('''    fn deserialize_element
        (context: &Context, field: &mut stream::Field<R>) -> Result<Self>
    {
        let mut accum = <Self::Accum as Default>::default();
        Self::deserialize_field(&mut accum, context, field)?;
        Self::finish(accum, context)
    }''','''    fn deserialize_element
        (context: &Context, field: &mut stream::Field<R>) -> Result<Self>
    {
        let mut accum : Self::Accum = Default::default();
        match Self::deserialize_field(&mut accum, context, field) {
            Ok(_) => Self::finish(accum, context),
            Err(e) => Err(e),
        }
    }'''))
v('f-entry', ('''    let mut stream = stream::Stream::from_slice(bytes);
    T::deserialize_body(&Context::top(config), &mut stream)
}

/// Deserialises an instance of `T` from the given byte slice.
///
/// Byte arrays will be borrowed''','''    from_stream_copy(&mut stream::Stream::from_slice(bytes), config)
}

/// Deserialises an instance of `T` from the given byte slice.
///
/// Byte arrays will be borrowed'''),('''    let mut stream = stream::Stream::new(reader);
    T::deserialize_body(&Context::top(config), &mut stream)''','''    let mut stream = stream::Stream::new(reader);
    let context = Context::top(config);
    let result = T::deserialize_body(&context, &mut stream);
    result'''))
v('f-char', ('''    |context, field| (char::from_u32(field.value.to_u32().context(context)?)
                      .ok_or(Error::InvalidValueMsg(
                          context.to_string(),
                          "char not in valid range"))?)''','''    |context, field| ({
        let n = field.value.to_u32().context(context)?;
        match char::from_u32(n) {
            Some(c) => c,
            None => return Err(Error::InvalidValueMsg(
                context.to_string(), "char not in valid range")),
        }
    })'''))
v('f-context', ('''        if self.config.max_collect - self.stats.collected.get() < n {
            Err(Error::MaxCollectExceeded(self.to_string()))
        } else {
            self.stats.collected.set(self.stats.collected.get() + n);
            Ok(())
        }''','''        let left = self.config.max_collect - self.stats.collected.get();
        match left.checked_sub(n) {
            Some(rest) => {
                self.stats.collected.set(self.config.max_collect - rest);
                Ok(())
            },
            None => Err(Error::MaxCollectExceeded(self.to_string())),
        }'''),('''        if ((self.config.max_blob - self.stats.total_blob.get()) as u64) < n {
            Err(Error::MaxBlobExceeded(self.to_string()))
        } else {
            self.stats.total_blob.set(
                self.stats.total_blob.get() + (n as usize));
            Ok(())
        }''','''        let used = self.stats.total_blob.get();
        if n > (self.config.max_blob - used) as u64 {
            return Err(Error::MaxBlobExceeded(self.to_string()));
        }
        self.stats.total_blob.set(used + n as usize);
        Ok(())'''))
v('f-pushtag', ('''        name[0] = b'0' + tag / 10;
        name[1] = b'0' + tag % 10;
        Self::push(self, str::from_utf8(&name[..]).unwrap(), pos)''','''        *name = [b'0' + tag / 10, b'0' + tag % 10];
        let digits: &'a [u8] = name;
        self.push(str::from_utf8(digits).expect("digits"), pos)'''))
v('f-format', ('''            Err(Error::RecursionLimitExceeded(self.to_string()))''','''            Err(Error::RecursionLimitExceeded(format!("{}", self)))'''),
 ('''            Err(Error::UnknownField(self.to_string(), field.tag, field.pos))''','''            let path = self.to_string();
            let stream::Field { tag, pos, .. } = *field;
            Err(Error::UnknownField(path, tag, pos))'''))
# ser
v('g-iter', (S,'''        for e in self {
            e.serialize_element(dst, tag)?;
        }
        Ok(())
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        if let''','''        self.iter().try_for_each(|e| e.serialize_element(dst, tag))
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        if let'''))
v('g-struct-helper', (S,'''        dst.write_struct(tag)?;
        self.serialize_field(dst, 1)?;
        dst.write_end_struct()
    }
}

macro_rules! ser_iter_mut {''','''        in_struct(dst, tag, |dst| self.serialize_field(dst, 1))
    }
}

fn in_struct<R : Write, F : FnOnce (&mut Stream<R>) -> Result<()>>(
    dst: &mut Stream<R>, tag: u8, body: F) -> Result<()>
{
    dst.write_struct(tag)?;
    body(dst)?;
    dst.write_end_struct()
}

macro_rules! ser_iter_mut {'''),(S,'''            dst.write_struct(tag)?;
            k.serialize_field(dst, 1)?;
            v.serialize_field(dst, 2)?;
            dst.write_end_struct()?;''','''            in_struct(dst, tag, |dst| {
                k.serialize_field(dst, 1)?;
                v.serialize_field(dst, 2)
            })?;'''))
v('g-seq-generic', (S,'''macro_rules! ser_iter_mut {
    ($($stuff:tt)*) => {
impl $($stuff)* {
    fn serialize_field<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                  -> Result<()> {
        for e in self {
            e.serialize_element(dst, tag)?;
        }
        Ok(())
    }
''','''fn write_all<'a, R : Write, T : 'a + Serialize, I : IntoIterator<Item = &'a T>>(
    items: I, dst: &mut Stream<R>, tag: u8) -> Result<()>
{
    for item in items {
        if let Err(e) = item.serialize_element(dst, tag) {
            return Err(e);
        }
    }
    Ok(())
}

macro_rules! ser_iter_mut {
    ($($stuff:tt)*) => {
impl $($stuff)* {
    fn serialize_field<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                  -> Result<()> {
        write_all(self, dst, tag)
    }
'''),(S,'''        for e in self.iter() {
            e.serialize_element(dst, tag)?;
        }
        Ok(())''','''        write_all(self.iter(), dst, tag)'''))
v('g-map-pairs', (S,'''            dst.write_struct(tag)?;
            k.serialize_field(dst, 1)?;
            v.serialize_field(dst, 2)?;
            dst.write_end_struct()?;''','''            (k, v).serialize_element(dst, tag)?;'''))
v('g-while', (S,'''        for (k, v) in self.iter() {''','''        let mut pairs = self.iter();
        while let Some((k, v)) = pairs.next() {'''))
v('g-option', (S,'''ser_iter_mut!(<T : Serialize> Serialize for Option<T>);''','''impl<T : Serialize> Serialize for Option<T> {
    fn serialize_field<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                  -> Result<()> {
        match *self {
            Some(ref e) => e.serialize_element(dst, tag),
            None => Ok(()),
        }
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        dst.write_struct(tag)?;
        if let Some(e) = self.as_ref() {
            e.serialize_element(dst, 1)?;
        }
        dst.write_end_struct()
    }
}'''))
v('g-slice-match', (S,'''        if let Some(handled) = T::serialize_slice(self, dst, tag) {
            return handled;
        }

        for e in self {
            e.serialize_element(dst, tag)?;
        }
        Ok(())''','''        match T::serialize_slice(self, dst, tag) {
            Some(done) => done,
            None => {
                let mut n = 0;
                while n < self.len() {
                    self[n].serialize_element(dst, tag)?;
                    n += 1;
                }
                Ok(())
            },
        }'''))
v('g-entry', (S,'''    let mut stream = Stream::new(Vec::new());
    t.serialize_body(&mut stream)?;
    stream.commit()?;
    Ok(stream.into_inner())''','''    let mut out = Vec::new();
    to_writer(&mut out, t)?;
    Ok(out)'''),(S,'''    let mut stream = Stream::new(writer);
    t.serialize_body(&mut stream)?;
    stream.commit()?;
    Ok(())''','''    to_stream(&mut Stream::new(writer), t)'''),
 (S,'''    t.serialize_body(stream)?;
    stream.commit()?;
    Ok(())''','''    t.serialize_body(stream).and_then(|_| stream.commit())'''))
v('g-bytes', (S,'''                let data = AsRef::<[u8]>::as_ref(self);
                dst.write_blob_data(tag, data)?;
                Ok(())''','''                dst.write_blob_data(tag, self.as_bytes()).map(drop)'''))
