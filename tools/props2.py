HI = 'path-sensitive abstract interpretation of MIR over the alphabet of stream, Context and trait operations; typestate rules over every path'

prop('C13', 'The number of collection items decoded is bounded by max_collect',
 'While a value is deserialised, every item added to a growable collection (sequence, set, map entry, preserved unknown field), at any nesting level, is first charged against one running total shared by all contexts of that deserialisation. '
 'A charge of n succeeds and is recorded if and only if the total plus n is at most Config::max_collect (256 by default); otherwise decoding fails with MaxCollectExceeded and nothing is added. '
 'Options, fixed-size arrays and blobs are not charged.',
 ['inputs', 'histories'], 'all input documents, all nestings of collections, all limits',
 'a limit enforced per level or after insertion passes tests on flat inputs; nested and repeated collections are unbounded',
 ['src/de.rs', 'src/unknown.rs'], [('Context::collect, Context::push (shared statistics)', 'src/de.rs'), ('deserialize_field of the collection types', 'src/de.rs')],
 technique=HI, note='Context accounting as an inductive invariant; every site at which a collection grows, in all 400+ deserialising functions')

prop('C14', 'The bytes copied out of the input are bounded by max_blob',
 'Before a blob is copied into a new buffer its whole length is charged against one running total shared by all contexts of the deserialisation. '
 'The charge succeeds and is recorded if and only if the total plus the length is at most Config::max_blob (65536 by default); otherwise decoding fails with MaxBlobExceeded before anything is allocated or read. '
 'Blobs that are borrowed, and blobs read into fixed-size arrays, are not charged and may have any length.',
 ['inputs', 'histories'], 'all input documents, all blob lengths up to 2^64-1, all limits',
 'declared lengths are attacker-controlled 64-bit numbers; tests use short blobs and one limit',
 ['src/de.rs', 'src/unknown.rs'], [('Context::blob', 'src/de.rs'), ('String, Vec<u8>, Cow deserialisation', 'src/de.rs')],
 technique=HI, note='Context accounting as an inductive invariant; every site at which a blob is copied')

prop('C15', 'Recursion while deserialising is bounded by recursion_limit',
 'Deserialising a field nested in a value always happens in a context exactly one level (or more) deeper than that of the value, sharing its configuration and running totals. '
 'Entering a level succeeds if and only if the current depth is below Config::recursion_limit (32 by default) and otherwise fails with RecursionLimitExceeded; a top-level context has depth 0. '
 'Hence no input, however deeply nested, recurses further than the limit.',
 ['inputs'], 'all nestings of structs and enums in the input, all recursive types, all limits',
 'unbounded recursion needs a recursive type and a deeply nested hostile input for each path through which values nest',
 ['src/de.rs', 'src/unknown.rs', 'src/sugar.rs'], [('Context::push, push_tag, top', 'src/de.rs'), ('des_struct_body!', 'src/de.rs'), ('UnknownFields::deserialize_body', 'src/unknown.rs')],
 technique=HI, note='all uses of a context in all deserialising functions')

prop('C16', 'Unknown fields and variants are skipped or refused as configured',
 'A field whose tag the type being deserialised does not define is skipped in full, leaving the other fields of the struct unaffected, when Config::ignore_unknown_fields is set (the default), and otherwise fails with UnknownField carrying its tag and position. '
 'A field whose tag the type defines is never treated as unknown, whatever its position or repetition, and distinct tags go to distinct components. '
 'An enum discriminant the type does not define fails with UnknownVariant carrying it, and a defined one is never refused as unknown.',
 ['inputs'], 'all tags and discriminants, all contents and positions of unknown fields, both settings',
 'unknown fields can hold any value at any place; tests use one or two',
 ['src/de.rs', 'src/sugar.rs'], [('Context::unknown_field', 'src/de.rs'), ('des_struct_body!, deserialize_body', 'src/de.rs'), ('fourleaf_retrofit! (enums)', 'src/sugar.rs')],
 technique=HI, note='every function reading fields of a struct or an enum, all 63 tags')

prop('C20', 'Deserialising a value consumes exactly that value',
 'When deserialising a value from a stream succeeds, all fields up to and including the end of its struct have been read and nothing beyond; when deserialising a field succeeds, the whole of that field (including nested structs, to their end) has been consumed. '
 'Every field read is given to exactly one deserialiser or skipped, never both and never neither, before the next is read. '
 'A deserialiser reads only from the field or stream it was given, so a following value or field starts at the right place.',
 ['inputs', 'histories'], 'all documents, all built-in types and combinations of them, sequences of values in one stream',
 'a field left half read only shows when something follows it; tests mostly read one value from a buffer',
 ['src/de.rs', 'src/unknown.rs', 'src/adapt.rs', 'src/retrofit.rs'], [('Deserialize implementations', 'src/de.rs'), ('UnknownFields, UnknownField', 'src/unknown.rs'), ('Copied', 'src/adapt.rs')],
 technique='typestate analysis over MIR: each deserialising function, every path, against the protocol of streams and fields',
 note='compositional: nested deserialisers are assumed to satisfy the same property')

prop('C21', 'Deserialisation errors are final, unaltered and located',
 'When the stream, a limit or a nested deserialiser fails, decoding stops at once and that same error is returned; it is never swallowed, retried or replaced. '
 'Every error carries the path of the value it concerns, written as dot-separated name{position} parts from the outermost level to the failing field, in which each nested field appears under its own name (or number) and position, and the displayed error contains the path and all its details.',
 ['inputs', 'fault_sequences'], 'every failing operation at every point of every document',
 'there are as many failure points as operations in a document; tests check a few messages',
 ['src/de.rs', 'src/unknown.rs', 'src/sugar.rs'], [('Context Display', 'src/de.rs'), ('Error Display and conversions', 'src/de.rs'), ('Deserialize implementations', 'src/de.rs')],
 technique=HI, note='every fallible call on every path of all deserialising functions')


prop('C10', 'Whatever is serialised is a well-formed document with one value per place',
 'Serialising a value as a struct body writes fields followed by exactly one end-of-struct, its last write. '
 'Serialising it as an element writes exactly one field under the given tag (with its whole content); as a field, zero or more fields, all under the given tag and no other; nested structs and enums are closed exactly once. '
 'Tags written are 1 to 63 and the tags of distinct components of one struct are distinct. '
 'Everything goes to the stream given, in one pass; the first write that fails stops serialisation and is returned as it is. '
 'Serialising never panics, except that UnknownFields refuses to be an ordinary field.',
 ['inputs', 'fault_sequences'], 'all values of all built-in serialisable types and their combinations, all tags, failure of any write',
 'a missing or doubled terminator, or a swallowed write error, desynchronises everything after it; tests use few nestings and never fail a write',
 ['src/ser.rs', 'src/unknown.rs', 'src/retrofit.rs', 'src/adapt.rs', 'src/stream.rs'],
 [('Serialize implementations', 'src/ser.rs'), ('UnknownField serialisation', 'src/unknown.rs'), ('retrofitted std types', 'src/retrofit.rs'), ('write_struct, write_enum, write_end_struct', 'src/stream.rs')],
 technique=HI, note='every method of every Serialize impl, each path, composed with the exact-bytes verification of the stream writers (C04)')

prop('C12', 'A field occurs exactly as often as its type allows',
 'A plain value takes exactly one occurrence of its field, an Option at most one (none is None), a growable collection any number (all kept, in order, none twice), an array of n exactly n in order; byte vectors, strings and byte arrays are single blobs. Box, Rc, Arc, Cow and Copied inherit the rule of what they wrap. '
 'A missing occurrence fails with RequiredFieldMissing, too few array items with FieldOccursTooFewTimes, an excess with FieldOccursTooManyTimes giving the allowed number; no occurrence is silently dropped, overwritten or invented. '
 'Each component starts empty and is finished exactly once when the struct ends.',
 ['inputs', 'histories'], 'all sequences of fields, interleaved and repeated in any order, all built-in field types and array sizes',
 'the number and interleaving of occurrences are unbounded and every type has its own accumulator; tests show one or two occurrences of a few',
 ['src/de.rs', 'src/adapt.rs', 'src/unknown.rs', 'src/retrofit.rs'],
 [('deserialize_field and finish of every Deserialize impl', 'src/de.rs'), ('ArrayAccum, LargeArrayAccum', 'src/de.rs'), ('required_field_missing, to-many errors', 'src/de.rs')],
 technique=HI, note='accumulators as abstract state machines: each occurrence and the finish, for every Deserialize impl, by cardinality class')


prop('C11', 'Round trip: what is serialised deserialises to an equal value',
 'For every built-in type with both Serialize and Deserialize (integers, floats, bool, char, strings, byte vectors, tuples, arrays, Option, collections, maps, Box, Rc, Arc, Cow, Copied, Duration, network addresses, ranges and the other retrofitted std types), '
 'a value that was serialised and is deserialised as the same type, copying or zero-copy, with any Config whose limits suffice and even with unknown fields refused, gives an equal value. '
 'This holds as a struct body, as a single element and as a field. '
 'The kinds of fields, tags, enum discriminants and integer encodings written are those the reader expects, every component is written and read back into the same component, and no valid value is refused.',
 ['inputs'], 'all values of all built-in types by induction over their structure, both styles',
 'extreme values (i64::MIN, NaN payloads, surrogates, empty and maximal collections, nested options) and all compositions of types cannot be sampled',
 ['src/ser.rs', 'src/de.rs', 'src/retrofit.rs', 'src/adapt.rs', 'src/stream.rs', 'src/wire.rs'],
 [('Serialize implementations', 'src/ser.rs'), ('Deserialize implementations', 'src/de.rs'), ('retrofitted std types', 'src/retrofit.rs'), ('SerializeAs', 'src/ser.rs')],
 technique=HI, note='each outcome of each writer matched with each reader of the type (induction hypothesis for nested values), composed with the checks of C10 and C12 and the exact-bytes verification of the stream (C01-C04); equality judged with identity contracts of std conversions; UnknownFields is C17')


prop('C17', 'Preserved unknown fields are kept as they are and written back the same',
 'Deserialising UnknownFields keeps every field of the struct, in document order, none dropped, merged or duplicated: its tag, its kind (integer, blob, struct, enum), its exact value (all 64 bits of an integer or discriminant, all bytes of a blob) and, recursively, its nested fields. '
 'Serialising it writes exactly these fields, in the same order, each under its own tag with the same kind and value, so the result is equivalent to the original document up to redundant integer encodings. '
 'As an element it is a struct with these fields; serialising it as an ordinary field of a container always panics.',
 ['inputs'], 'all documents, all kinds, tags and values of unknown fields, all nestings',
 'unknown fields can be anything; a kind, a value range or an ordering that is not preserved is silent data corruption in documents of newer versions; one test uses four fields',
 ['src/unknown.rs', 'src/de.rs', 'src/stream.rs'],
 [('UnknownFields', 'src/unknown.rs'), ('UnknownField', 'src/unknown.rs')],
 technique=HI, note='all kinds in both directions, composed with C10 (structure written, exact bytes) and the cardinality and consumption rules for these types')


prop('C22', 'fourleaf_retrofit! generates what its declaration says',
 'For every form of fourleaf_retrofit! (structs and enums, plain or generic, tagged fields, (*) delegation, (?) catch-all fields, (?)/(=) catch-all variants), the generated implementations follow the declaration. '
 'Each declared field is written under its tag from its accessor and read under it as its declared type; each variant uses its declared discriminant (all 64 bits); the constructor receives the values read and its result or error is returned. '
 'A (*) field stands for the whole value, as element and as body, read one level deeper. '
 'A (?) field receives every field with an undeclared tag, whatever the configuration, and its fields are written after the declared ones in the same struct; a (?) variant receives every undeclared discriminant through (=) and writes it back. '
 'Values round-trip; missing, repeated and unknown fields and undeclared discriminants are treated as for built-in types; generated code never panics.',
 ['inputs'], 'all inputs and values of the types of a witness module covering every form and combination the macro accepts',
 'the macro has many arms, and only a few combinations are used by the crate or its tests; generated code is the way users meet this library',
 ['src/sugar.rs', 'src/retrofit.rs'],
 [('@_STRUCT_BODY_SER, @_STRUCT_ELEMENT_SER', 'src/sugar.rs'), ('@_STRUCT_BODY_DESER, @_STRUCT_ELEMENT_DESER', 'src/sugar.rs'), ('enum arms', 'src/sugar.rs')],
 technique=HI, note='16 witness types (witness/types.rs) expanded by the current macro and analysed with the rules of C10-C13, C15-C16, C20-C21 plus a comparison with the declaration; other declarations are covered only as far as the macro treats them alike')


prop('C23', 'Entry points read or write exactly one whole value',
 'from_stream_copy, from_stream_borrow, from_reader, from_slice_copy and from_slice_borrow decode exactly one value of T, as a struct body, with the whole of the caller\'s Config, from the caller\'s stream as it is, or from a new stream over exactly the reader or the whole slice; the *_copy functions and from_reader decode with style Copying, the *_borrow functions with ZeroCopy. '
 'They return that value or the unaltered error, and do nothing else to the stream (it stays right behind the value). '
 'to_stream, to_writer and to_vec encode exactly the value given, as a struct body, into the caller\'s stream as it is, or a new stream over exactly the writer or an empty buffer, and then commit it; they return Ok only if everything, the commit included, succeeded, otherwise the first error unaltered; to_vec returns exactly the bytes written. '
 'A new Stream is at offset 0 and depth 0, not at EOF, without graceful EOF, with nothing pending, over exactly the object given.',
 ['inputs', 'fault_sequences'], 'all values, inputs and configurations, failure of any operation (the final commit included)',
 'a forgotten commit only matters for values ending in a dynamic blob, a lost error only when the last operation fails, a reset flag only for callers who set it',
 ['src/de.rs', 'src/ser.rs', 'src/stream.rs'],
 [('from_stream_*, from_reader, from_slice_*', 'src/de.rs'), ('to_vec, to_writer, to_stream', 'src/ser.rs'), ('Stream::new, new_seek, from_slice, into_inner, commit', 'src/stream.rs')],
 technique=HI, note='every path of the eight functions and of the constructors; decoding and encoding of T are opaque here (C10-C17 decide them)')


prop('C26', 'The in-memory reader yields the same bytes, read or borrowed',
 'TransparentCursor reads, buffers, consumes, writes, flushes and seeks exactly as the cursor in it does: the same operation with the same arguments, once, and the same result. '
 'as_ref, as_mut and as_ext_bytes give exactly the bytes not yet read, from the current position to the end of the buffer (none if the position is past the end), never panic and move nothing; for a plain byte slice as_ext_bytes is the slice itself. '
 'Blob::slice, slice_mut and ext_slice then give exactly the rest of the blob, or TruncatedBlob with the number of bytes missing.',
 ['inputs', 'histories'], 'all buffers, positions (also past the end) and blob lengths',
 'zero-copy decoding trusts this arithmetic: one byte off hands out neighbouring data, and positions past the end or near 2^32 do not occur in tests',
 ['src/io.rs', 'src/stream.rs'],
 [('TransparentCursor', 'src/io.rs'), ('AsExtBytes', 'src/io.rs'), ('Blob::slice, slice_mut, ext_slice', 'src/stream.rs')],
 technique=HI, note='io::Cursor and AsRef/AsMut of the buffer are taken at their documented contract; that copying and zero-copy decoding treat a blob alike is C19')


prop('C24', 'Values that do not fit the type are refused, all others taken exactly',
 'A field read as a struct, enum or blob must be one, otherwise it is refused with UnexpectedType naming both types; an enum yields its full 64-bit discriminant. '
 'Integers and bool take exactly the number their field holds (C02); char exactly the Unicode scalar value of that number, anything else is refused with InvalidValueMsg; String and &str take exactly the bytes of the blob if these are valid UTF-8, otherwise InvalidValue carries the cause; &[u8] and byte vectors take exactly the bytes of the blob; byte slices and arrays of n take only blobs of exactly n bytes, otherwise InvalidValueMsg; a Duration takes only nanoseconds below 10^9, otherwise InvalidValueMsg. '
 'Nothing is clamped, cut, padded, replaced or converted lossily, and no valid value is refused.',
 ['inputs'], 'all fields of all element types read as all built-in leaf types',
 'invalid and boundary values are a vanishing part of the input space and silent repair is invisible to round-trip tests',
 ['src/de.rs', 'src/stream.rs', 'src/retrofit.rs'],
 [('des_unary!, des_direct!', 'src/de.rs'), ('deser_bytes_as_array!, deserialize_slice, deserialize_vec', 'src/de.rs'), ('Value::to_struct, to_enum, to_blob', 'src/stream.rs'), ('Duration', 'src/retrofit.rs')],
 technique=HI, note='every path of every leaf decoder; validity itself is decided by char::from_u32, String::from_utf8 and str::from_utf8, taken at their documented contract')


prop('C19', 'Copying and zero-copy decoding differ only in who owns the bytes',
 'A value decoded with style Copying (and everything nested in it, and everything inside Copied<T>, whatever the outer style) never refers to the input; only the ZeroCopy implementations for &[u8] and &str, and what is built from them, do. '
 'Every nested value is decoded with the same style as its container, except that Copied<T> decodes T with Copying. '
 'Cow is Owned when decoded with Copying and Borrowed when decoded with ZeroCopy. '
 '&[u8] and &str accept the same blobs, give the same bytes and obey the same occurrence and validity rules as Vec<u8> and String, so both styles accept the same documents with equal values (except for the max_blob limit, which counts copied bytes only).',
 ['inputs'], 'all types and documents, both styles',
 'a borrowed value where a copy was asked for, a style lost at one nesting level, or one style stricter than the other shows only for particular types and inputs',
 ['src/de.rs', 'src/adapt.rs', 'src/unknown.rs', 'src/sugar.rs'],
 [('Cow, &[u8], &str, String', 'src/de.rs'), ('Copied', 'src/adapt.rs'), ('style', 'src/de.rs'), ('fourleaf_retrofit!', 'src/sugar.rs')],
 technique=HI, note='the style argument of every nested call resolved in the type-checked program; lifetimes of borrowed data are checked by rustc itself')


prop('C18', 'Decoding never panics, and allocates nothing merely announced',
 'Whatever bytes, read errors and end of input the underlying reader delivers, and whatever Config is used, no operation for reading panics or aborts: the Stream, Value, Field and Blob readers and skippers, the wire decoders, every Deserialize function, and Context (collect, blob, push, push_tag, Display). '
 'In particular no arithmetic overflows, no index or slice is out of range, nothing is unwrapped that can be absent or an error, no unreachable or assertion is reached, and no std function is called with arguments it panics on (such as a Duration built from 10^9 or more nanoseconds). '
 'Memory is never reserved for a number of bytes or items that the input only announces, unless that number was checked against a limit of the caller or the Config first. '
 'Excluded: misuse by the caller (consume of more than was offered, alignment 0, a depth near 2^64 set by hand).',
 ['inputs', 'faults', 'histories'], 'all byte sequences, read errors, reachable stream states and configurations',
 'a decoder of untrusted input that panics is a denial of service, and the inputs that reach an overflow or a missing check are exactly those no test contains',
 ['src/stream.rs', 'src/wire.rs', 'src/de.rs', 'src/io.rs', 'src/unknown.rs', 'src/retrofit.rs', 'src/adapt.rs', 'src/sugar.rs'],
 [('next_element, next_blob, check_advance_pos', 'src/stream.rs'), ('decode_u64', 'src/wire.rs'), ('Context', 'src/de.rs'), ('Blob::read_fully', 'src/stream.rs')],
 technique=HI, note='every panic edge of the MIR on every path, decided with the invariants of streams and contexts; std functions other than the listed partial ones are assumed to return')


prop('C25', 'Every loop makes progress and every recursion descends',
 'Decoding, skipping and serialising terminate on finite input. Each way round a loop of the library takes the next item of the value or collection, moves a counter towards a fixed bound, or successfully reads or writes at least one byte of the underlying object (for loops over a struct: reads one more field); a read that fails, returns no bytes, or finds the end of the struct or document is never simply repeated. '
 'Reaching the end of the document returns to depth 0, which ends skip_up. '
 'No Deserialize function reaches itself for the same type except through a level charged against the recursion limit, and no Serialize function reaches itself for the same value.',
 ['inputs', 'faults', 'histories'], 'all byte sequences, values, failing or exhausted readers; all loops and all mutual calls of the (de)serialising functions',
 'an endless loop needs a truncated input, a failing reader or the end of the document at one particular point; a test that met one would hang rather than fail',
 ['src/stream.rs', 'src/wire.rs', 'src/de.rs', 'src/unknown.rs', 'src/sugar.rs', 'src/ser.rs'],
 [('skip_up, next_field, skip_blob, pad_to_align', 'src/stream.rs'), ('decode_u64', 'src/wire.rs'), ('des_struct_body!', 'src/de.rs'), ('UnknownFields', 'src/unknown.rs'), ('fourleaf_retrofit!', 'src/sugar.rs')],
 technique=HI, note='the ways round each loop are the iterating paths found by the interpreter; adaptors of std (read_to_end, io::copy, write_all) are taken to stop when a read returns no bytes')
