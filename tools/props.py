#!/usr/bin/env python3
"""The properties and the manifest, written out to properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=None, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, na=na))

AI = 'path-sensitive abstract interpretation of MIR (linear inequalities + bit provenance), rules over every path'

prop('C01', 'Unsigned integers are encoded and decoded exactly',
 'Every unsigned 64-bit integer is written as the shortest little-endian sequence of 7-bit groups (continuation bit on all but the last byte) and, in the fixed-width form, always as ten bytes carrying the same value. '
 'Reading a sequence of groups, including one padded with redundant zero groups up to 256 bytes in all, yields exactly the value it denotes and consumes exactly its bytes. '
 'A sequence denoting more than 64 bits is refused as an overflow, a sequence cut short or an I/O error is reported as such, and nothing is ever wrapped or truncated silently.',
 ['inputs', 'fault_sequences'], 'all 2^64 values, all byte sequences, all points at which the underlying reader or writer fails or ends',
 'the tests encode and decode a handful of constants; 2^64 values and unbounded byte sequences cannot be sampled',
 ['src/wire.rs'], [('encode_u64 / encode_fixed_u64 / decode_u64', 'src/wire.rs')],
 technique='abstract interpretation of MIR with a GF(2) bit-provenance domain, loops unrolled to their proved bound',
 note='every control-flow path of the three coders, all inputs; trusts rustc MIR, the dump driver, the interpreter and the contracts of Read/Write')

prop('C02', 'Signed and narrow integers map to the wire exactly, or are refused',
 'Signed integers are stored as (n << 1) ^ (n >> 63) of the 64-bit value and read back to the same number; unsigned integers, booleans (0/1) and null (0) are stored as themselves. '
 'Reading a field as a given integer, boolean or null type returns the encoded number if and only if it is representable in that type and otherwise reports an out-of-range error. '
 'Reading a field of a different element type as an integer reports a type mismatch naming both types.',
 ['inputs'], 'all 64-bit integers for each of the twelve integer-like types and all element types',
 'range edges and sign handling are tested on a few values per type, and not for every type',
 ['src/wire.rs', 'src/stream.rs'], [('zigzag/unzigzag, encode_i64/decode_i64', 'src/wire.rs'), ('Stream::write_<int>, Value::to_<int>', 'src/stream.rs')],
 technique='abstract interpretation of MIR with a GF(2) bit-provenance domain',
 note='all paths of the 28 functions, all argument values')

prop('C03', 'Element headers and header bytes correspond one to one',
 'Each of the 256 possible header bytes is interpreted as exactly one element kind and field tag (tags 1 to 63, or one of the four special elements), and writing that element produces the same byte. '
 'A field tag outside 1 to 63 is refused with a panic on every build profile, never silently written as another field or a special element.',
 ['inputs'], 'all 256 header bytes and all 256 values of a tag argument',
 'tests use a few tags and only run with debug assertions on',
 ['src/wire.rs'], [('Descriptor::parse, From<ParsedDescriptor> for Descriptor', 'src/wire.rs'), ('encode_descriptor, decode_descriptor', 'src/wire.rs')],
 technique='abstract interpretation of MIR (bit provenance, enumeration of element kinds), debug assertions off',
 note='all paths, all bytes; MIR built with debug assertions off, i.e. the weaker profile')

prop('C04', 'Elements are written and read as exactly the bytes of the format',
 'Every successful write operation emits exactly the header, integers and payload that the format prescribes for that element, in order and with nothing else, and an invalid request is refused before anything is written. '
 'Every successful read of the next element or field consumes exactly one such sequence (after any padding), reports its tag, value, byte position and payload extent faithfully, and any malformed or failing input is reported as an error. '
 'Copying an element or field to another stream reproduces its kind, tag, value and remaining payload, and aligning emits padding bytes exactly up to the next multiple.',
 ['inputs', 'fault_sequences'], 'all arguments, all stream states, all byte sequences and all I/O outcomes at each underlying call',
 'tests cover hand-written byte strings without short reads, failing writers or odd stream states',
 ['src/stream.rs', 'src/wire.rs'], [('Stream::write_*', 'src/stream.rs'), ('Stream::next_element/next_field', 'src/stream.rs'), ('Stream::write_element/write_field/pad_to_align', 'src/stream.rs')],
 technique=AI, note='event sequences on every path of the 28 operations; includes the integer and header coders it relies on (C01-C03)')

prop('C05', 'The blob in progress is settled before the stream moves on',
 'While a blob or exception body is open, any later operation on the stream first completes it (skips what was not read, or finalises what was written) and only then touches the underlying object. '
 'If completing it fails the error is returned and nothing else happens; completing is attempted exactly once and an operation that does not touch the data leaves it pending. '
 'Every operation that opens a body records its completion before returning.',
 ['histories', 'fault_sequences'], 'all interleavings of public stream operations with open bodies and failing I/O',
 'the order matters only for sequences of operations with an unfinished blob and a failing or partially read body; tests try a few',
 ['src/stream.rs'], [('Stream::commit', 'src/stream.rs'), ('on_commit slot', 'src/stream.rs')],
 technique='typestate analysis: every public operation interpreted abstractly from an arbitrary pending state',
 note='per-operation induction: each public operation started in every pending state')

prop('C06', 'A blob handle stays inside its blob',
 'Through a handle to a blob body, nothing before its start or past its end can be read, written, borrowed, consumed or positioned to, whatever the sequence of reads, writes and seeks. '
 'Transfers move min(requested, remaining) bytes or what the underlying object delivers, seeks return the exact requested offset or are refused when outside the body, and the reported start, end, length, remaining count and position are exact. '
 'Reading the whole body returns exactly its bytes, refuses one larger than the given limit before allocating, and reports truncation.',
 ['inputs', 'histories', 'fault_sequences'], 'all blob extents, all offsets and buffer sizes, all histories of handle operations',
 'bounds arithmetic over u64/i64 has corner cases (i64::MIN, sums past u64::MAX) no finite test set reaches',
 ['src/stream.rs'], [('Blob: Read, Write, BufRead, Seek', 'src/stream.rs'), ('Blob::slice/ext_slice/slice_mut/read_fully/read_or_trunc', 'src/stream.rs')],
 technique='abstract interpretation of MIR, inductive invariant start <= pos <= end over all handle operations',
 note='each handle operation from an arbitrary state satisfying the invariant')

prop('C07', 'The stream position tracks the bytes transferred',
 'After every successful operation the logical position has advanced by exactly the number of bytes consumed from or written to the underlying object (or moved to the seek target, or to the value set explicitly). '
 'Finishing or skipping a blob leaves both the position and the underlying object at the end of that blob. '
 'No position arithmetic overflows: an element extending past the largest position is an error, not a wrap or panic.',
 ['inputs', 'histories', 'fault_sequences'], 'all operations on streams, blob handles and their adapters, all transfer sizes',
 'positions only drift on partial transfers, seeks and error-adjacent paths; overflow needs positions near 2^64',
 ['src/stream.rs'], [('StreamTracker', 'src/stream.rs'), ('Blob position handling, check_blob_bounds, finish_dynamic_blob', 'src/stream.rs')],
 technique='abstract interpretation of MIR: linear equality between position change and transferred byte counts on every path',
 note='success outcomes of every public operation; errors leave the state unspecified as documented')

prop('C08', 'Input that ends early is reported as truncated',
 'If the input ends inside an element, integer or blob body that has to be read, the operation fails with an end-of-input error; it is never returned as a shorter value or as the end of the document. '
 'A clean end of input at an element boundary counts as the end of the document if and only if the graceful end-of-input setting is on, and that setting is changed only by its setter. '
 'Skipping an unread blob body passes over exactly the whole body or reports truncation.',
 ['inputs', 'fault_sequences'], 'every truncation point of every input, every pattern of short reads, both settings',
 'each input has as many truncation points as bytes; tests try a few',
 ['src/stream.rs', 'src/wire.rs'], [('StreamTracker::read', 'src/stream.rs'), ('Stream::next_element', 'src/stream.rs'), ('Stream::skip_blob', 'src/stream.rs')],
 technique=AI, note='all read-side operations; one known finding (skipping by seeking past the end of a seekable reader) is listed')

prop('C09', 'Nesting depth and skipping follow the document structure',
 'Reading a struct or enum field raises the nesting depth by one, an end-of-struct lowers it (at depth zero it is the end of the document), an end-of-document resets it, and nothing else changes it except the explicit setter. '
 'Once the end of the document has been read every further read reports the end without touching the input until it is cleared. '
 'Skipping a field, or skipping up to an outer depth, passes over exactly the nested contents and stops right after them, or reports the error met. A read that fails neither enters or leaves a struct nor ends the document.',
 ['inputs', 'histories'], 'all nestings of structs and enums, all depths, all orders of reading and skipping',
 'skipping loops over arbitrarily nested input, which sampled documents exercise only shallowly',
 ['src/stream.rs'], [('Stream::next_element/next_field', 'src/stream.rs'), ('Stream::skip_up', 'src/stream.rs'), ('Field::skip', 'src/stream.rs')],
 technique=AI + ', inductive loop invariants', note='all read operations and all others (frame condition)')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p['observe']: d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['na'] or not os.path.exists(V + '/sa/checks/%s.py' % p['id'].lower()):
            na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
        else:
            checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                           'thorough_cmd': './check %s --tier thorough' % p['id'],
                           'technique': p['technique'], 'level': 'proof', 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. Every check dumps the MIR of /repo\'s current source with driver/ and decides its obligations on the dump; nothing of fourleaf is executed.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
main()
