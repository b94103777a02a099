MAPB = '''            dst.write_struct(tag)?;
            k.serialize_field(dst, 1)?;
            v.serialize_field(dst, 2)?;
            dst.write_end_struct()?;'''
SEQI = '''        for e in self.iter() {
            e.serialize_element(dst, tag)?;
        }
        Ok(())'''
SLICE = '''        for e in self {
            e.serialize_element(dst, tag)?;
        }
        Ok(())
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        if let'''
E = ['C11']
VARIANTS = [
 ('rt-maptags', E, 'ser.rs', ('            k.serialize_field(dst, 1)?;\n            v.serialize_field(dst, 2)?;', '            k.serialize_field(dst, 2)?;\n            v.serialize_field(dst, 1)?;')),
 ('rt-mapswap', E, 'ser.rs', ('            k.serialize_field(dst, 1)?;\n            v.serialize_field(dst, 2)?;', '            v.serialize_field(dst, 1)?;\n            k.serialize_field(dst, 2)?;')),
 ('rt-nanos', E, 'retrofit.rs', ('{ if nsecs < 1_000_000_000 {', '{ if nsecs < 100_000_000 {')),
 ('rt-millis', E, 'retrofit.rs', ('this.subsec_nanos(),', 'this.subsec_millis() * 1_000_000,')),
 ('rt-flow', E, 'retrofit.rs', ('SocketAddrV6::new(ip, port, flowinfo, scope_id)', 'SocketAddrV6::new(ip, port, scope_id, flowinfo)')),
 ('rt-v6seg', E, 'retrofit.rs', ('seg!(8), seg!(10), seg!(12), seg!(14)', 'seg!(8), seg!(10), seg!(12), seg!(12)')),
 ('rt-v6endian', E, 'retrofit.rs', ('((octets[$n] as u16) << 8) | (octets[$n+1] as u16)', '((octets[$n+1] as u16) << 8) | (octets[$n] as u16)')),
 ('rt-v4', E, 'retrofit.rs', ('octets[0], octets[1], octets[2], octets[3]', 'octets[0], octets[1], octets[3], octets[2]')),
 ('rt-skip1', E, 'ser.rs', (SLICE, SLICE.replace('in self {', 'in self.iter().skip(1) {'))),
 ('rt-rev', E, 'ser.rs', (SLICE, SLICE.replace('in self {', 'in self.iter().rev() {'))),
 ('rt-chunk', E, 'ser.rs', (SLICE, SLICE.replace('in self {', 'in &self[..self.len().min(4096)] {'))),
 ('rt-break', E, 'ser.rs', (SLICE, SLICE.replace('in self {\n', 'in self {\n            if tag == 60 { continue; }\n'))),
 ('rt-first', E, 'ser.rs', (SEQI, SEQI.replace('?;\n', '?;\n            if tag > 50 { break; }\n'))),
 ('rt-vecrange', E, 'ser.rs', ('fn serialize_as(&self) -> &[T] { &self[..] }', 'fn serialize_as(&self) -> &[T] { &self[..self.len().min(1 << 20)] }')),
 ('rt-strtrim', E, 'ser.rs', ('ser_bytes!(Serialize for String);\n', '''impl Serialize for String {
    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        dst.write_blob_data(tag, self.trim_end_matches('\\0').as_bytes())?;
        Ok(())
    }
}
''')),
 ('rt-isize', E, 'ser.rs', ('ser_direct!(isize, write_isize);', 'impl Serialize for isize { fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> { dst.write_i32(tag, *self as i32) } }')),
 ('rt-i16u', E, 'de.rs', ('des_direct!(i16, to_i16);', 'des_unary! { (impl<R : Read, STYLE> Deserialize<R, STYLE> for i16); |context, field| (field.value.to_u16().context(context)? as i16) }')),
 ('rt-char16', E, 'ser.rs', ('dst.write_u32(tag, *self as u32)', 'dst.write_u32(tag, *self as u32 as u16 as u32)')),
 ('rt-charsur', E, 'de.rs', ('''(char::from_u32(field.value.to_u32().context(context)?)''', '''(char::from_u32(field.value.to_u16().context(context)? as u32)''')),
 ('rt-boxbody', E, 'ser.rs', ('self.serialize_as().serialize_body(dst)', 'self.serialize_as().serialize_field(dst, 1)?;\n        dst.write_end_struct()')),
 ('rt-none0', E, 'ser.rs', ('ser_iter_mut!(<T : Serialize> Serialize for Option<T>);', '''impl<T : Serialize> Serialize for Option<T> {
    fn serialize_field<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        match *self {
            Some(ref e) => e.serialize_element(dst, tag),
            None => Ok(()),
        }
    }
    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        match *self {
            Some(ref e) => { dst.write_struct(tag)?; e.serialize_element(dst, 2)?; dst.write_end_struct() },
            None => dst.write_null(tag),
        }
    }
}
''')),
 ('rt-tuple8', E, 'ser.rs', ('$(self.$v.serialize_field(dst, $v + 1)?;)*', '$(self.$v.serialize_field(dst, if $v < 14 { $v + 1 } else { $v + 2 })?;)*')),
 ('rt-deref-str', E, 'de.rs', ('|context, field| (field.value.to_u32().context(context)', '|context, field| (field.value.to_u32().context(context)')),
 ('rt-bulkfalse', E, 'de.rs', ('    fn serialized_as_slice() -> bool { true }', '    fn serialized_as_slice() -> bool { false }')),
 ('rt-secs', E, 'retrofit.rs', ('Ok(Duration::new(secs, nsecs))', 'Ok(Duration::new(secs & 0x7fff_ffff_ffff_ffff, nsecs))')),
 ('rt-portu8', E, 'retrofit.rs', ('    [1] ip: Ipv4Addr = this.ip(),\n    [2] port: u16 = this.port(),\n    { Ok(SocketAddrV4::new(ip, port)) }', '    [1] ip: Ipv4Addr = this.ip(),\n    [2] port: u64 = this.port() as u64,\n    { Ok(SocketAddrV4::new(ip, port.min(60000) as u16)) }')),
 # refactorings
 ('r-v4from', [], 'retrofit.rs', ('Ok(Ipv4Addr::new(octets[0], octets[1], octets[2], octets[3]))', 'Ok(Ipv4Addr::from(octets))')),
 ('r-v6from', [], 'retrofit.rs', ('''        Ok(Ipv6Addr::new(seg!(0), seg!(2), seg!(4), seg!(6),
                         seg!(8), seg!(10), seg!(12), seg!(14)))''', '''        let _ = |octets: [u8; 16]| seg!(0);
        Ok(Ipv6Addr::from(octets))''')),
 ('r-v6bytes', [], 'retrofit.rs', ('((octets[$n] as u16) << 8) | (octets[$n+1] as u16)', 'u16::from_be_bytes([octets[$n], octets[$n+1]])')),
 ('r-v6mul', [], 'retrofit.rs', ('((octets[$n] as u16) << 8) | (octets[$n+1] as u16)', '(octets[$n] as u16) * 256 + (octets[$n+1] as u16)')),
 ('r-nanos', [], 'retrofit.rs', ('{ if nsecs < 1_000_000_000 {', '{ if nsecs <= 999_999_999 {')),
 ('r-optmatch', [], 'ser.rs', ('ser_iter_mut!(<T : Serialize> Serialize for Option<T>);', '''impl<T : Serialize> Serialize for Option<T> {
    fn serialize_field<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        match *self {
            Some(ref e) => e.serialize_element(dst, tag),
            None => Ok(()),
        }
    }
    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        dst.write_struct(tag)?;
        if let Some(e) = self.as_ref() { e.serialize_element(dst, 1)?; }
        dst.write_end_struct()
    }
}
''')),
 ('r-optelem', [], 'ser.rs', ('ser_iter_mut!(<T : Serialize> Serialize for Option<T>);', '''impl<T : Serialize> Serialize for Option<T> {
    fn serialize_field<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        if let Some(ref e) = *self { e.serialize_element(dst, tag)?; }
        Ok(())
    }
    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8) -> Result<()> {
        dst.write_struct(tag)?;
        self.serialize_body(dst)
    }
}
''')),
 ('r-elembody', [], 'ser.rs', (SEQI + '''
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        dst.write_struct(tag)?;
        self.serialize_field(dst, 1)?;
        dst.write_end_struct()''', SEQI + '''
    }

    fn serialize_element<R : Write>(&self, dst: &mut Stream<R>, tag: u8)
                                    -> Result<()> {
        dst.write_struct(tag)?;
        self.serialize_body(dst)''')),
 ('r-strbytes', [], 'ser.rs', ('let data = AsRef::<[u8]>::as_ref(self);', 'let data = self.as_bytes();')),
 ('r-asslice', [], 'ser.rs', ('fn serialize_as(&self) -> &[T] { &self[..] }', 'fn serialize_as(&self) -> &[T] { self.as_slice() }')),
 ('r-asref', [], 'ser.rs', ('impl<T : ?Sized + Serialize> SerializeAs for Box<T> {\n    type T = T;\n\n    fn serialize_as(&self) -> &T { &*self }', 'impl<T : ?Sized + Serialize> SerializeAs for Box<T> {\n    type T = T;\n\n    fn serialize_as(&self) -> &T { self.as_ref() }')),
 ('r-cowmatch', [], 'ser.rs', ('''for ::std::borrow::Cow<'a, T> {
    type T = T;

    fn serialize_as(&self) -> &T { &*self }''', '''for ::std::borrow::Cow<'a, T> {
    type T = T;

    fn serialize_as(&self) -> &T {
        match *self {
            ::std::borrow::Cow::Borrowed(b) => b,
            ::std::borrow::Cow::Owned(ref o) => ::std::borrow::Borrow::borrow(o),
        }
    }''')),
 ('r-charmatch', [], 'de.rs', ('''(char::from_u32(field.value.to_u32().context(context)?)
                      .ok_or(Error::InvalidValueMsg(
                          context.to_string(),
                          "char not in valid range"))?)''', '''(match char::from_u32(field.value.to_u32().context(context)?) {
        Some(c) => c,
        None => return Err(Error::InvalidValueMsg(context.to_string(), "char not in valid range")),
    })''')),
 ('r-mapget', [], 'ser.rs', ('        for (k, v) in self.iter() {\n', '        for entry in self.iter() {\n            let (k, v) = entry;\n')),
 ('r-mapself', [], 'ser.rs', ('        for (k, v) in self.iter() {\n', '        for (k, v) in self {\n')),
 ('r-maptuple', [], 'ser.rs', (MAPB, '            (k, v).serialize_element(dst, tag)?;')),
 ('r-vecelem', [], 'de.rs', ('', '')),
 ('r-dedefault', [], 'de.rs', ('', '')),
]
VARIANTS = [v for v in VARIANTS if not (isinstance(v[3], tuple) and v[3][0] == v[3][1])]
