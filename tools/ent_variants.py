D = 'de.rs'
S = 'ser.rs'
T = 'stream.rs'
COPY = '''pub fn from_stream_copy<R : Read, T : Deserialize<R, style::Copying>>
    (stream: &mut stream::Stream<R>, config: &Config) -> Result<T>
{
    T::deserialize_body(&Context::top(config), stream)
}'''
RDR = '''    let mut stream = stream::Stream::new(reader);
    T::deserialize_body(&Context::top(config), &mut stream)'''
SLB = '''    let mut stream = stream::Stream::from_slice(bytes);
    T::deserialize_body(&Context::top(config), &mut stream)
}

quick_error'''
SLC = '''    let mut stream = stream::Stream::from_slice(bytes);
    T::deserialize_body(&Context::top(config), &mut stream)
}

/// Deserialises an instance of `T` from the given byte slice.
///
/// Byte arrays will be borrowed'''
VEC = '''    let mut stream = Stream::new(Vec::new());
    t.serialize_body(&mut stream)?;
    stream.commit()?;
    Ok(stream.into_inner())'''
WR = '''    let mut stream = Stream::new(writer);
    t.serialize_body(&mut stream)?;
    stream.commit()?;
    Ok(())'''
ST = '''    t.serialize_body(stream)?;
    stream.commit()?;
    Ok(())'''
NEW = '''        Stream {
            inner: inner,
            pos: 0,
            eof: false,
            blob_end: 0,
            dynamic_blob_start: 0,
            struct_depth: 0,
            graceful_eof: false,
            seek: None,
            commit: None,
        }'''
VARIANTS = [
 ('e-writer-nocommit', ['C23'], S, (WR, WR.replace('    stream.commit()?;\n', ''))),
 ('e-stream-nocommit', ['C23'], S, (ST, ST.replace('    stream.commit()?;\n', ''))),
 ('e-vec-nocommit', ['C23'], S, (VEC, VEC.replace('    stream.commit()?;\n', ''))),
 ('e-vec-commitfirst', ['C23'], S, (VEC, VEC.replace('    stream.commit()?;\n', '').replace('    t.', '    stream.commit()?;\n    t.'))),
 ('e-writer-ignorecommit', ['C23'], S, (WR, WR.replace('stream.commit()?;', 'let _ = stream.commit();'))),
 ('e-vec-swallow', ['C23'], S, (VEC, VEC.replace('t.serialize_body(&mut stream)?;', 'if t.serialize_body(&mut stream).is_err() { return Ok(stream.into_inner()); }'))),
 ('e-vec-junk', ['C23'], S, (VEC, VEC.replace('Vec::new()', 'vec![0u8; 1]'))),
 ('e-vec-enddoc', ['C23'], S, (VEC, VEC.replace('stream.commit()?;', 'stream.write_end_doc()?; stream.commit()?;'))),
 ('e-stream-pad', ['C23'], S, (ST, ST.replace('stream.commit()?;', 'stream.pad_to_align(2)?; stream.commit()?;'))),
 ('e-stream-twice', ['C23'], S, (ST, ST.replace('stream.commit()?;', 'stream.commit()?; if stream.struct_depth_is() { t.serialize_body(stream)?; }').replace('stream.struct_depth_is()', 'stream.pos() == 0'))),
 ('e-stream-clear', ['C23'], D, (COPY, COPY.replace('    T::', '    stream.clear_eof();\n    T::'))),
 ('e-stream-graceful', ['C23'], D, (COPY, COPY.replace('    T::', '    stream.set_graceful_eof(true);\n    T::'))),
 ('e-stream-setdepth', ['C23'], D, (COPY, COPY.replace('    T::', '    stream.set_struct_depth(0);\n    T::'))),
 ('e-stream-skipup', ['C23'], D, (COPY, COPY.replace('    T::deserialize_body(&Context::top(config), stream)', '    let r = T::deserialize_body(&Context::top(config), stream)?; stream.skip_up(0).context(&Context::top(config))?; Ok(r)'))),
 ('e-stream-config', ['C23'], D, (COPY, COPY.replace('    T::', '    let config = &Config { recursion_limit: config.recursion_limit, .. Config::default() };\n    T::'))),
 ('e-reader-defconfig', ['C23'], D, (RDR, RDR.replace('Context::top(config)', 'Context::top(&{ let _ = config; Config::default() })'))),
 ('e-reader-graceful', ['C23'], D, (RDR, RDR.replace('    T::', '    stream.set_graceful_eof(true);\n    T::'))),
 ('e-slice-graceful', ['C23'], D, (SLB, SLB.replace('    T::', '    stream.set_graceful_eof(true);\n    T::'))),
 ('e-slice-trunc', ['C23'], D, (SLC, SLC.replace('from_slice(bytes)', 'from_slice(&bytes[..bytes.len() & !1])'))),
 ('e-slice-empty', ['C23'], D, (SLC, SLC.replace('    let mut', '    let bytes = if bytes.is_empty() { &b"\\x00"[..] } else { bytes };\n    let mut'))),
 ('e-new-graceful', ['C23'], T, (NEW, NEW.replace('graceful_eof: false', 'graceful_eof: true'))),
 ('e-new-depth', ['C23'], T, (NEW, NEW.replace('struct_depth: 0', 'struct_depth: 1'))),
 ('e-into-inner', ['C23'], S, (VEC, VEC.replace('    stream.commit()?;\n    Ok(stream.into_inner())', '    stream.commit()?; let mut v = stream.into_inner(); let n = v.len(); if n > 0x10000 { v.truncate(0x10000); } Ok(v)'))),
 ('r-ent-vec', [], S, (VEC, '    let mut out: Vec<u8> = Vec::with_capacity(64);\n    { let mut stream = Stream::new(out);\n t.serialize_body(&mut stream)?;\n stream.commit()?;\n out = stream.into_inner(); }\n    Ok(out)')),
 ('r-ent-vec2', [], S, (VEC, '    let mut stream = Stream::new(vec![]);\n    to_stream(&mut stream, t)?;\n    Ok(stream.into_inner())')),
 ('r-ent-vec3', [], S, (VEC, '    let mut v = Vec::new();\n    to_writer(&mut v, t)?;\n    Ok(v)')),
 ('r-ent-writer', [], S, (WR, '    let mut stream = Stream::new(writer);\n    to_stream(&mut stream, t)')),
 ('r-ent-writer2', [], S, (WR, '    let mut stream = Stream::new(writer);\n    match t.serialize_body(&mut stream) { Ok(()) => stream.commit(), Err(e) => Err(e) }')),
 ('r-ent-stream', [], S, (ST, '    t.serialize_body(stream).and_then(|_| stream.commit())')),
 ('r-ent-reader', [], D, (RDR, '    from_stream_copy(&mut stream::Stream::new(reader), config)')),
 ('r-ent-slice', [], D, (SLC, SLC.replace('    T::deserialize_body(&Context::top(config), &mut stream)', '    let context = Context::top(config);\n    let value = T::deserialize_body(&context, &mut stream)?;\n    Ok(value)'))),
 ('r-ent-slice2', [], D, (SLC, SLC.replace('stream::Stream::from_slice(bytes)', 'stream::Stream::new_seek(TransparentCursor(::std::io::Cursor::new(bytes)))'))),
 ('r-ent-slice3', [], D, (SLB, SLB.replace('    let mut stream = stream::Stream::from_slice(bytes);\n    T::deserialize_body(&Context::top(config), &mut stream)', '    from_stream_borrow(&mut stream::Stream::from_slice(bytes), config)'))),
 ('r-ent-new', [], T, (NEW, NEW.replace('graceful_eof: false', 'graceful_eof: Default::default()').replace('pos: 0', 'pos: u64::default()'))),
 ('r-ent-newseek', [], T, ('''        Stream {
            inner: inner,
            pos: 0,
            eof: false,
            blob_end: 0,
            dynamic_blob_start: 0,
            struct_depth: 0,
            graceful_eof: false,
            seek: Some(Nd(<R as Seek>::seek)),
            commit: None,
        }''', '        let mut s = Stream::new(inner);\n        s.seek = Some(Nd(<R as Seek>::seek));\n        s')),
]
