V = 'sugar.rs'
UNK = '''                                &$context.push_tag(&mut name, _field.tag,
                                                   _field.pos)?,
                                &mut _field)?;
                        _handled = true;'''
TERM = '''            $crate::ser::Serialize::serialize_body(&$unk_accessor, $dst)?;
            _terminated = true;'''
FIN = '''            let $field_name = <$field_type as
                $crate::de::Deserialize<R, STYLE>>::
                    finish($field_name, &subcontext)?;'''
PUSH = '''                    let subcontext = $context.push(
                        stringify!($field_name), _field.pos)?;'''
CA = '''                            let $ca_disc_field_name = _discriminant;
                            return'''
ELS = '''        $(
            return $crate::ser::Serialize::serialize_element(
                &$del_accessor, $dst, $tag);
        )*'''
VARIANTS = [
 ('m-unk-notag', ['C22'], V, (UNK, UNK.replace('$context.push_tag(&mut name, _field.tag,', '$context.push_tag(&mut name, _field.tag & 0x1F,'))),
 ('m-unk-fallthrough', ['C22'], V, (UNK, UNK.replace('_handled = true;', '_handled = _field.tag < 32;'))),
 ('m-unk-ignored', ['C22'], V, ('''                        let mut name = [0u8;2];
                        <$unk_field''', '''                        let mut name = [0u8;2];
                        if $context.config.ignore_unknown_fields { _field.skip().unwrap(); } else {
                        <$unk_field'''), ),
 ('m-unk-first', ['C22'], V, [('''        $($crate::ser::Serialize::serialize_field(
            &$accessor, $dst, $tag)?;)*
        let mut _terminated = false;''', '        let mut _terminated = false;'), ('''        if !_terminated {
            $dst.write_end_struct()?;''', '''        $($crate::ser::Serialize::serialize_field(
            &$accessor, $dst, $tag)?;)*
        if !_terminated {
            $dst.write_end_struct()?;''')]),
 ('m-unk-twoends', ['C22'], V, (TERM, TERM.replace('_terminated = true', '_terminated = false'))),
 ('m-del-noend', ['C22'], V, ('''            assert!(!_terminated);
            $crate::ser::Serialize::serialize_body(&$del_accessor, $dst)?;
            _terminated = true;''', '''            assert!(!_terminated);
            $crate::ser::Serialize::serialize_field(&$del_accessor, $dst, 1)?;
            _terminated = false;''')),
 ('m-del-elem', ['C22'], V, (ELS, '$( let _ = &$del_accessor; )*')),
 ('m-del-elemde', ['C22'], V, ('deserialize_element(&subcontext, $field)?;\n            return $constructor;', 'deserialize_body(&subcontext, $crate::ms::ResultExt::context($field.value.to_struct(), $context)?)?;\n            return $constructor;')),
 ('m-ca-disc', ['C22'], V, (CA, CA.replace('= _discriminant;', '= _discriminant & 0x7FFF_FFFF;'))),
 ('m-ca-ser', ['C22'], V, ('dst.write_enum(tag, $ca_disc_field_accessor)?;', 'dst.write_enum(tag, $ca_disc_field_accessor as u32 as u64)?;')),
 ('m-disc32', ['C22'], V, ('                match discriminant {', '                match discriminant & 0xFFFF_FFFF {')),
 ('m-ctx-push', ['C22'], V, (PUSH, PUSH.replace('_field.pos)', '$stream.pos())'))),
 ('m-finlabel', ['C22'], V, ('''            let subcontext = $context.push(stringify!($field_name),
                                           $stream.pos())?;
            let $field''', '''            let subcontext = $context.push(stringify!($field_type),
                                           $stream.pos())?;
            let $field''')),
 ('m-many', ['C22'], V, ('''            if accum.is_some() {
                return Err''', '''            if accum.is_some() && field.tag != 1 {
                return Err''')),
 ('m-required', ['C22'], V, ('''                    if !_handled {
                        $context.unknown_field(&_field)?;''', '''                    if !_handled {
                        if _field.tag < 32 { $context.unknown_field(&_field)?; }''')),
 ('m-noskip', ['C22'], V, ('''                        $crate::ms::ResultExt::context(
                            _field.skip(), $context)?;''', '''                        if _field.tag == 63 { break; }
                        $crate::ms::ResultExt::context(
                            _field.skip(), $context)?;''')),
 ('m-swallow', ['C22'], V, ('''                        $crate::ms::ResultExt::context(
                            _field.skip(), $context)?;''', '''                        let _ = _field.skip();''')),
 ('m-unkvariant', ['C22'], V, ('''                        Err($crate::de::Error::UnknownVariant(
                            $context.to_string(), discriminant))''', '''                        Err($crate::de::Error::UnknownVariant(
                            $context.to_string(), discriminant as u32 as u64))''')),
 ('m-delpush', ['C22'], V, ('''                let subcontext = $context.push(
                    stringify!($del_field_name), $stream.pos())?;
                <$del_field_type as $crate::de::Deserialize<R, STYLE>>::
                    deserialize_body(&subcontext, $stream)?''', '''                <$del_field_type as $crate::de::Deserialize<R, STYLE>>::
                    deserialize_body($context, $stream)?''')),
 ('m-delpush2', ['C22'], V, ('''            let subcontext = $context.push(
                stringify!($del_field_name), $field.pos)?;
            let $del_field_name =
                <$del_field_type as $crate::de::Deserialize<R, STYLE>>::
                    deserialize_element(&subcontext, $field)?;''', '''            let $del_field_name =
                <$del_field_type as $crate::de::Deserialize<R, STYLE>>::
                    deserialize_element($context, $field)?;''')),
 # refactorings
 ('r-handled', [], V, ('''                    let mut _handled = false;
                    $({
                        let mut name''', '''                    #[allow(unused_mut)] let mut _handled = false;
                    $({
                        let _ = &_handled;
                        let mut name''')),
 ('r-loop', [], V, ('''        if !_consumed { while let Some(mut _field) =
            $crate::ms::ResultExt::context(
                $stream.next_field(), $context)?
        {''', '''        if !_consumed { loop {
            let mut _field = match $crate::ms::ResultExt::context(
                $stream.next_field(), $context)? { Some(f) => f, None => break };''')),
 ('r-ifelse', [], V, ('''            if accum.is_some() {
                return Err($crate::de::Error::FieldOccursTooManyTimes(
                    context.to_string(), 1));
            }

            *accum = Some(
                <Self as $crate::de::Deserialize<R, STYLE>>::
                deserialize_element(context, field)?);
            Ok(())''', '''            match *accum {
                Some(_) => Err($crate::de::Error::FieldOccursTooManyTimes(context.to_string(), 1)),
                None => {
                    let v = <Self as $crate::de::Deserialize<R, STYLE>>::
                        deserialize_element(context, field)?;
                    *accum = Some(v);
                    Ok(())
                }
            }''')),
 ('r-serfirst', [], V, ('''        if !_terminated {
            $dst.write_end_struct()?;
        }
        Ok(())''', '''        if _terminated { return Ok(()); }
        $dst.write_end_struct()''')),
 ('r-elembody', [], V, ('''                dst.write_struct(tag)?;
                <Self as $crate::ser::Serialize>::serialize_body(self, dst)''', '''                match dst.write_struct(tag) {
                    Ok(()) => <Self as $crate::ser::Serialize>::serialize_body(self, dst),
                    Err(e) => Err(e),
                }''')),
 ('r-finish', [], V, ('''            accum.ok_or_else(|| $crate::de::Error::RequiredFieldMissing(
                context.to_string()))''', '''            match accum {
                Some(v) => Ok(v),
                None => Err($crate::de::Error::RequiredFieldMissing(context.to_string())),
            }''')),
 ('r-toenum', [], V, ('''                let (discriminant, stream) = $crate::ms::ResultExt::context(
                    field.value.to_enum(), $context)?;''', '''                let parts = $crate::ms::ResultExt::context(
                    field.value.to_enum(), $context)?;
                let discriminant = parts.0;
                let stream = parts.1;''')),
]
