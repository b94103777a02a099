import re
def src(f): return open('/repo/src/'+f).read()
W,S,U,G,D='wire.rs','stream.rs','unknown.rs','sugar.rs','de.rs'
def body(f, head, nth=0):
    s = src(f); i = -1
    for _ in range(nth+1): i = s.index(head, i+1)
    j = s.index('{', i)
    # skip generics braces: none
    d = 0; k = j
    while True:
        if s[k] == '{': d += 1
        elif s[k] == '}':
            d -= 1
            if d == 0: break
        k += 1
    return s[i:k+1], s[i:j]
VARIANTS=[]
def v(name, *reps): VARIANTS.append((name,[],'',[r for r in reps]))
def rb(f, head, new, nth=0):
    old, sig = body(f, head, nth)
    return (f, old, sig + new)
E64='pub fn encode_u64'; EF='pub fn encode_fixed_u64'; DC='pub fn decode_u64'
v('lp-enc-iter', rb(W,E64,'''{
    let mut bytes = [0u8;10];
    let mut len = 0;
    for b in bytes.iter_mut() {
        *b = (i & 0x7F) as u8;
        i >>= 7;
        len += 1;
        if 0 == i {
            break;
        }
        *b |= 0x80;
    }
    w.write_all(&bytes[..len])?;
    Ok(())
}'''))
v('lp-enc-enum', rb(W,E64,'''{
    let mut bytes = [0u8;10];
    for (n, b) in bytes.iter_mut().enumerate() {
        let low = (i & 0x7F) as u8;
        i >>= 7;
        if i == 0 {
            *b = low;
            return write_groups(w, &bytes[..n + 1]);
        }
        *b = low | 0x80;
    }
    unreachable!()
}

fn write_groups<W : Write>(w: &mut W, groups: &[u8]) -> Result<()> {
    w.write_all(groups)?;
    Ok(())
}'''.replace('*b = low;\n            return write_groups(w, &bytes[..n + 1]);','*b = low;\n            let used = n + 1;\n            last = used;\n            break;').replace('    for (n, b)','    let mut last = 0;\n    for (n, b)').replace('    unreachable!()\n','    write_groups(w, &bytes[..last])\n')))
v('lp-enc-vec', rb(W,E64,'''{
    let mut bytes = Vec::with_capacity(10);
    while i > 0x7F {
        bytes.push(i as u8 | 0x80);
        i >>= 7;
    }
    bytes.push(i as u8);
    w.write_all(&bytes).map_err(Error::from)
}'''))
v('lp-enc-len', rb(W,E64,'''{
    let mut n = 1;
    while n < 10 && i >> (7 * n) != 0 {
        n += 1;
    }
    let mut bytes = [0u8;10];
    for k in 0..n {
        bytes[k] = (i >> (7 * k)) as u8 & 0x7F;
        if k + 1 != n {
            bytes[k] |= 0x80;
        }
    }
    w.write_all(&bytes[..n])?;
    Ok(())
}'''.replace('{\n    let mut n','{\n    let i = i;\n    let mut n',1)))
v('lp-enc-bytewise', rb(W,E64,'''{
    while i >= 0x80 {
        w.write_all(&[(i as u8) | 0x80])?;
        i >>= 7;
    }
    w.write_all(&[i as u8])?;
    Ok(())
}'''))
v('lp-fixed-enum', rb(W,EF,'''{
    let mut bytes = [0x80u8;10];
    for (n, b) in bytes.iter_mut().enumerate() {
        *b |= (i >> (7 * n)) as u8 & 0x7F;
    }
    bytes[9] &= 0x7F;
    i = 0;
    let _ = i;
    w.write_all(&bytes)?;
    Ok(())
}'''))
v('lp-fixed-split', rb(W,EF,'''{
    let mut bytes = [0u8;10];
    for b in &mut bytes[..9] {
        *b = (i as u8) | 0x80;
        i >>= 7;
    }
    bytes[9] = i as u8;
    w.write_all(&bytes)?;
    Ok(())
}'''))
v('lp-fixed-foreach', rb(W,EF,'''{
    let mut bytes = [0u8;10];
    bytes.iter_mut().for_each(|b| {
        *b = (i & 0x7F) as u8 | 0x80;
        i >>= 7;
    });
    bytes[9] ^= 0x80;
    w.write_all(&bytes)?;
    Ok(())
}'''))
v('lp-fixed-last', rb(W,EF,'''{
    let mut bytes = [0u8;10];
    let last = bytes.len() - 1;
    for (n, b) in bytes.iter_mut().enumerate() {
        let more = if n == last { 0 } else { 0x80 };
        *b = more | (i & 0x7F) as u8;
        i >>= 7;
    }
    w.write_all(&bytes)?;
    Ok(())
}'''))
v('lp-dec-step', rb(W,DC,'''{
    let mut accum = 0u64;
    for shift in (0..257 * 7).step_by(7) {
        let b = read_byte(r)?;
        let v = u64::from(b & 0x7F);
        if v != 0 {
            if shift > 63 || (v << shift) >> shift != v {
                return Err(Error::IntegerOverflow);
            }
            accum |= v << shift;
        }
        if b & 0x80 == 0 {
            return Ok(accum);
        }
    }
    Err(Error::OverwideInteger)
}'''))
v('lp-dec-group', rb(W,DC,'''{
    let mut accum = 0u64;
    for group in 0..257u32 {
        let b = read_byte(r)?;
        let v = (b & 0x7F) as u64;
        let fits = match group {
            0..=8 => true,
            9 => v <= 1,
            _ => v == 0,
        };
        if !fits {
            return Err(Error::IntegerOverflow);
        }
        if group < 10 {
            accum |= v << (7 * group);
        }
        if b < 0x80 {
            return Ok(accum);
        }
    }
    Err(Error::OverwideInteger)
}'''))
v('lp-dec-while', rb(W,DC,'''{
    let mut accum = 0u64;
    let mut shift = 0u32;
    let mut more = true;
    while more {
        if shift > 256 * 7 {
            return Err(Error::OverwideInteger);
        }
        let b = read_byte(r)?;
        more = b & 0x80 != 0;
        let v = (b & !0x80) as u64;
        if v != 0 && (shift >= 64 || v.leading_zeros() < shift) {
            return Err(Error::IntegerOverflow);
        }
        if v != 0 {
            accum |= v << shift;
        }
        shift += 7;
    }
    Ok(accum)
}'''))
v('lp-dec-checked', rb(W,DC,'''{
    let mut accum = 0u64;
    let mut shift = 0u32;
    loop {
        let b = read_byte(r)?;
        let v = (b & 0x7F) as u64;
        match v.checked_shl(shift) {
            Some(w) if w >> shift == v => accum |= w,
            _ if v == 0 => (),
            _ => return Err(Error::IntegerOverflow),
        }
        if b & 0x80 == 0 {
            return Ok(accum);
        }
        shift += 7;
        if shift > 256 * 7 {
            return Err(Error::OverwideInteger);
        }
    }
}'''))
v('lp-dec-closure', rb(W,DC,'''{
    let mut accum = 0u64;
    let mut shift = 0;
    let mut add = |b: u8| -> Result<bool> {
        let v = (b & 0x7F) as u64;
        if 0 != v {
            if shift >= 64 || v << shift >> shift != v {
                return Err(Error::IntegerOverflow);
            }
            accum |= v << shift;
        }
        shift += 7;
        if 0 == (b & 0x80) {
            return Ok(false);
        }
        if shift > 256 * 7 { Err(Error::OverwideInteger) } else { Ok(true) }
    };
    while add(read_byte(r)?)? { }
    Ok(accum)
}'''))
v('lp-unk-try', (U,'''        for &(tag, ref field) in &self.0 {
            field.serialize_field(dst, tag)?;
        }
        dst.write_end_struct()''','''        self.0.iter()
            .try_for_each(|&(tag, ref field)| field.serialize_field(dst, tag))
            .and_then(|()| dst.write_end_struct())'''))
v('lp-unk-index', (U,'''        for &(tag, ref field) in &self.0 {
            field.serialize_field(dst, tag)?;
        }''','''        for ix in 0..self.0.len() {
            let tag = self.0[ix].0;
            self.0[ix].1.serialize_field(dst, tag)?;
        }'''))
v('lp-unk-whileget', (U,'''        for &(tag, ref field) in &self.0 {
            field.serialize_field(dst, tag)?;
        }''','''        let mut ix = 0;
        while let Some(entry) = self.0.get(ix) {
            let &(tag, ref field) = entry;
            field.serialize_field(dst, tag)?;
            ix += 1;
        }'''))
v('lp-unk-splitfirst', (U,'''        for &(tag, ref field) in &self.0 {
            field.serialize_field(dst, tag)?;
        }''','''        let mut rest = &self.0[..];
        while let Some((first, others)) = rest.split_first() {
            first.1.serialize_field(dst, first.0)?;
            rest = others;
        }'''))
v('lp-unk-body', (U,'''        while let Some(mut field) = stream.next_field().context(context)? {
            Self::deserialize_field(
                &mut this,
                &context.push_tag(&mut name, field.tag, field.pos)?,
                &mut field)?;
        }

        Self::finish(this, context)''','''        loop {
            match stream.next_field() {
                Ok(None) => return Self::finish(this, context),
                Ok(Some(mut field)) => {
                    let sub = context.push_tag(&mut name, field.tag, field.pos)?;
                    Self::deserialize_field(&mut this, &sub, &mut field)?;
                },
                Err(e) => return Err(Error::Stream(context.to_string(), e)),
            }
        }'''))
v('lp-pad-count', rb(S,'pub fn pad_to_align','''{
        debug_assert!(0 == (align & (align - 1)),
                      "`fourleaf::stream::Stream::pad_to_align()` called with \\
                       non-power-of-two alignment {}", align);
        self.commit()?;

        let mask = align - 1;
        let missing = (align - (self.pos & mask)) & mask;
        for _ in 0..missing {
            self.write_padding()?;
        }
        Ok(())
    }'''))
v('lp-pad-loop', (S,'''        while 0 != (self.pos & (align - 1)) {
            self.write_padding()?;
        }
        Ok(())''','''        let mask = align - 1;
        loop {
            if self.pos & mask == 0 {
                break Ok(());
            }
            self.write_padding()?;
        }'''))
v('lp-next-rec', (S,'''                ParsedDescriptor::Special(SpecialType::Padding) => {
                    if skip_padding {
                        continue;
                    } else {
                        return Ok(Element::Padding);
                    }
                },''','''                ParsedDescriptor::Special(SpecialType::Padding) if skip_padding => (),

                ParsedDescriptor::Special(SpecialType::Padding) =>
                    return Ok(Element::Padding),'''))
v('lp-next-hoist', (S,'''            let offset = self.pos;
            match wire::decode_descriptor(&mut self.track(true))?.parse() {
                ParsedDescriptor::Pair(ty, tag) => {''','''            let offset = self.pos;
            let desc = self.next_desc()?;
            match desc {
                ParsedDescriptor::Pair(ty, tag) => {'''),(S,'''    fn next_value(&mut self, ty: DescriptorType)''','''    fn next_desc(&mut self) -> Result<ParsedDescriptor>
    where R : Read {
        let desc = wire::decode_descriptor(&mut self.track(true))?;
        Ok(desc.parse())
    }

    fn next_value(&mut self, ty: DescriptorType)'''))
v('lp-next-offset', (S,'''            let offset = self.pos;
            match wire::decode_descriptor(&mut self.track(true))?.parse() {''','''            let desc = wire::decode_descriptor(&mut self.track(true))?;
            let offset = self.pos - 1;
            match desc.parse() {'''))
v('lp-sugar-loop', (G,'''        if !_consumed { while let Some(mut _field) =
            $crate::ms::ResultExt::context(
                $stream.next_field(), $context)?
        {
''','''        while !_consumed {
            let mut _field = match $crate::ms::ResultExt::context(
                $stream.next_field(), $context)?
            {
                Some(field) => field,
                None => break,
            };
'''),(G,'''            }
        } }

        $(
            let subcontext = $context.push(stringify!($field_name),''','''            }
        }

        $(
            let subcontext = $context.push(stringify!($field_name),'''))
