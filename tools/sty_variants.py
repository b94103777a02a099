D = 'de.rs'
A = 'adapt.rs'
CB = '''        <&'a T as Deserialize<R, style::ZeroCopy>>::
        deserialize_element(context, field).map(Cow::Borrowed)'''
CF = '''        <&'a T as Deserialize<R, style::ZeroCopy>>::
        finish(accum, context).map(Cow::Borrowed)'''
CO = '''        <T::Owned as Deserialize<R, style::Copying>>::
        deserialize_element(context, field).map(Cow::Owned)'''
BY = '''    |context, field| (field.value.to_blob().and_then(|b| b.ext_slice())
                      .context(context)?)'''
BS = '''        str::from_utf8(
            field.value.to_blob().and_then(|b| b.ext_slice())
                .context(context)?)'''
VARIANTS = [
 ('y-cow-owned', ['C19'], D, (CB, CB.replace('.map(Cow::Borrowed)', '.map(|t| Cow::Owned(t.to_owned()))'))),
 ('y-cow-finish', ['C19'], D, (CF, CF.replace('.map(Cow::Borrowed)', '.map(|t| Cow::Owned(t.to_owned()))'))),
 ('y-copied-style', ['C19'], A, [('where T : Deserialize<R, de::style::Copying> {', 'where T : Deserialize<R, STYLE> {')]),
 ('y-bytes-nonempty', ['C19'], D, (BY, '''    |context, field| ({
        let b = field.value.to_blob().and_then(|b| b.ext_slice()).context(context)?;
        if b.is_empty() { return Err(Error::InvalidValueMsg(context.to_string(), "empty blob")); } b })''')),
 ('y-bytes-cut', ['C19'], D, (BY, '''    |context, field| ({
        let b = field.value.to_blob().and_then(|b| b.ext_slice()).context(context)?;
        let n = ::std::cmp::min(b.len(), context.config.max_blob); &b[..n] })''')),
 ('y-str-strip', ['C19'], D, (BS, BS.replace('                .context(context)?)', '                .context(context).map(|b| if b.ends_with(b"\\0") { &b[..b.len()-1] } else { b })?)'))),
 ('y-bytes-twice', ['C19'], D, ('''        if accum.is_some() {
            return Err(Error::FieldOccursTooManyTimes(
                $context.to_string(), 1));
        }

        *accum = Some($cvt);
        Ok(())
    }

    fn finish(accum: Option<Self>, $context''', '''        *accum = Some($cvt);
        Ok(())
    }

    fn finish(accum: Option<Self>, $context''')),
 ('r-sty-cow', [], D, (CB, '''        let borrowed = <&'a T as Deserialize<R, style::ZeroCopy>>::
            deserialize_element(context, field)?;
        Ok(Cow::Borrowed(borrowed))''')),
 ('r-sty-cowo', [], D, (CO, '''        let owned: T::Owned = Deserialize::<R, style::Copying>::deserialize_element(context, field)?;
        Ok(Cow::Owned(owned))''')),
 ('r-sty-copied', [], A, ('        T::deserialize_element(context, field).map(Copied)', '        let inner = <T as Deserialize<R, de::style::Copying>>::deserialize_element(context, field)?;\n        Ok(Copied(inner))')),
 ('r-sty-bytes', [], D, (BY, '''    |context, field| ({
        let blob = field.value.to_blob().context(context)?;
        let bytes = blob.ext_slice().context(context)?;
        bytes })''')),
]
