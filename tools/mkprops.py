#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid)."""
import json, os
RT = 'lib/src/pbtools.c'
H = 'lib/include/pbtools.h'
GEN = 'pbtools/c_source/__init__.py'
PAR = 'pbtools/parser.py'
CLI = 'pbtools/__init__.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Encode then decode gives back the same message',
     'For every supported proto3 schema and every message built through the generated C API, encoding into a big enough '
     'buffer returns the number of bytes written, and decoding exactly those bytes into a fresh message of the same type returns that same '
     'number and reproduces every field value, presence, list length and order, oneof choice and map entry (floats bit for bit, strings up '
     'to their NUL). Re-encoding the decoded message gives the same bytes again.',
     ['programs', 'inputs'], 'all schemas in the supported subset x all message values',
     'tests/main.c round-trips some tens of fixed messages of fixed schemas; field numbers, list lengths, nesting, value boundaries and their combinations are unbounded.',
     [RT, GEN], [('encoder_* / decoder_* primitives', RT), ('encode_inner/decode_inner templates', GEN)],
     ['<msg>_encode', '<msg>_decode'])
prop('C02', 'Encoded bytes are the canonical protobuf encoding of the message',
     'The bytes produced by encoding any message are a valid protobuf encoding that a conforming independent implementation decodes to the '
     'same content: right field numbers and wire types, minimal-length varints (negative int32 and enum values sign-extended to ten bytes, sint zigzag), '
     'little-endian fixed-width values, correct length prefixes, packed repeated numeric fields, one record per map entry. Implicit-presence '
     'fields holding their default value and empty lists are omitted; present optional fields and the selected oneof member are always written, even with default values.',
     ['programs', 'inputs'], 'all schemas in the supported subset x all message values',
     'The tests compare a few hand-picked byte strings; wire layout depends on every field number, type, label, value width and length-prefix width.',
     [RT, GEN], [('encoder_write_*', RT), ('encode body generation', GEN)], ['bytes returned by <msg>_encode'])
prop('C03', 'Every conforming encoding of a message decodes to that message',
     'Any conforming serialization of a message decodes successfully to its values: fields in any order, records of different fields interleaved, packed, unpacked or split '
     'numeric lists mixed freely, non-minimal and over-wide varints (truncated to the field width), unknown fields of any wire type and number anywhere. '
     'For singular fields the last occurrence wins, repeated fields and map entries accumulate in wire order, and of several members of one oneof the last one on the wire is selected. '
     'The decode result equals the input length.',
     ['programs', 'inputs'], 'all schemas x values x admissible wire representations of the value',
     'Tests decode what pbtools itself encodes plus a handful of literals; the freedom of the wire format (order, packing, splitting, unknown fields) is combinatorial.',
     [RT, GEN], [('repeated_info_* count pass and decode_repeated_* fill pass', RT), ('pbtools_decoder_skip_field', RT)],
     ['<msg>_decode return value and message content'])
prop('C04', 'Decoding hostile input is memory safe and terminates',
     'Decoding any byte string of any length into a message of any type with any workspace size never reads outside the input, never writes outside the workspace, '
     'never triggers undefined behaviour (overflow, misaligned access, null or uninitialised use), and always terminates, returning either the input length or a negative error code. '
     'After a successful decode the message can be read and re-encoded without touching memory outside the workspace or constants.',
     ['inputs', 'programs', 'configurations'], 'all input bytes x message types x workspace sizes',
     'The tests feed a few malformed literals without sanitizers; out-of-bounds writes depend on exact payload lengths and workspace sizes.',
     [RT, GEN], [('decoder bounds checks, decoder_seek, decoder_init_slice', RT), ('heap_alloc', RT), ('repeated count pass bounds the fill pass', RT)],
     ['sanitizer reports', 'guard bytes around workspace and input'])
prop('C05', 'Malformed input is always rejected, with the right error',
     'Input that is not a well-formed serialization of the message type - truncated at any level of nesting, a known field with a wrong wire type, field number 0, '
     'an invalid wire type, a varint longer than ten bytes, a length running past its enclosing message, packed data of a partial element - never decodes successfully. '
     'The result is the negative error code of the fault class (for example out of data, bad wire type, bad field number, varint overflow), and the error code to string function names every such code.',
     ['inputs', 'fault_sequences'], 'all single faults injected at every position of every well-formed encoding',
     'Tests check one literal per error code at top level; truncations inside nested, packed, repeated, map or unknown records are not reached.',
     [RT, GEN], [('decoder_abort error propagation through slices', RT)], ['<msg>_decode return value'])
prop('C06', 'Encoding respects the output buffer: all or a reported nothing',
     'For every message and every output buffer size, encoding never writes outside the given buffer; if the buffer holds at least the encoded size it succeeds with the '
     'complete encoding at the start of the buffer, whatever the buffer size, and otherwise it returns the encode-buffer-full error and never a truncated success. An empty message encodes to zero bytes, even into a zero-size buffer.',
     ['inputs', 'configurations'], 'all messages x all buffer sizes from 0 to beyond the encoded size',
     'Tests try one or two too-small buffers; each primitive has its own boundary, reached only at the exact remaining size.',
     [RT], [('encoder_write/encoder_abort/encoder_get_result (back to front encoding)', RT)], ['<msg>_encode return value', 'bytes around the buffer'])
prop('C07', 'All message memory comes from the workspace, aligned and disjoint',
     'Creating, decoding and building messages uses only memory inside the workspace the user gave (no heap allocation, no access outside it), for any workspace size and address; '
     'every message, list, string and byte buffer handed out is suitably aligned and overlaps no other live one. '
     'When the workspace is too small creation returns NULL, allocation functions return an error and decoding returns the out-of-memory error, never a success with lost data; when it suffices, a larger workspace also suffices and gives the same result.',
     ['inputs', 'configurations', 'histories'], 'all workspace sizes and addresses x all messages and API histories',
     'Tests use fixed, generous, aligned workspaces and a couple of too-small ones; allocation failure can strike at each allocation site.',
     [RT, H], [('heap_new/heap_alloc bump allocator', RT), ('alloc functions', GEN)], ['pointers reachable from the message', 'return codes'],
     [('heap', 'bump allocator inside the workspace', H)])
prop('C08', 'New, initialised and decoded messages have defined defaults',
     'A newly created message, an allocated sub-message or list item, a freshly selected oneof member and every field absent from decoded input have the proto3 default (zero, false, empty string, empty bytes, empty list, no sub-message, optional not present, oneof none), '
     'whatever the workspace or stack contained before. No result, encoding or control flow ever depends on uninitialised memory.',
     ['inputs', 'configurations', 'programs'], 'all schemas x all previous workspace contents',
     'Tests run with fresh static (zeroed) workspaces, so a missing initialisation is invisible to them.',
     [GEN, RT], [('generated <msg>_init and <field>_init/_alloc', GEN), ('calloc_repeated', RT)], ['message content after new/alloc/decode', 'MemorySanitizer reports'])
prop('C09', 'Encoding is pure and decoded messages own their data',
     'Encoding does not change the message, is repeatable (the same bytes every time, independent of buffer size, buffer contents, workspace address and other messages) and equal messages encode equally. '
     'Decoding does not modify its input, depends only on the given bytes, and the decoded message stays valid after the input buffer is overwritten or freed.',
     ['inputs', 'histories'], 'all messages x histories of encode/decode calls',
     'Tests look at one encode of one message with the input buffer kept alive.',
     [RT, GEN], [('decoder copies strings and bytes to the workspace', RT), ('encoder reads only', RT)], ['message dumps before/after', 'bytes of repeated encodes'])
prop('C10', 'Independent messages can be used from different threads',
     'The generated code and runtime keep no shared mutable state: threads working on messages in separate workspaces, and threads concurrently encoding or reading one unmodified message, '
     'never race and get the same results as when run sequentially.',
     ['schedules', 'inputs'], 'all interleavings of threads using separate workspaces or reading a shared message',
     'All tests are single-threaded.',
     [RT, GEN], [('state only in caller-provided structs and workspaces', RT)], ['ThreadSanitizer reports', 'per-thread results'])
prop('C11', 'Building a message through the API follows its data model',
     'After any sequence of API steps (create, set fields, allocate or re-allocate sub-messages and lists, switch or clear oneofs, set or clear optionals, edit a decoded message) the message reads back and encodes exactly as a simple model of the last-set values predicts. '
     'A step affects only the field it names (and its oneof siblings), and re-allocating gives default-valued contents of the requested length.',
     ['histories', 'programs'], 'all sequences of API operations on all schemas',
     'Tests build each message in one fixed straight-line order.',
     [GEN, RT], [('<field>_alloc, <field>_init, struct layout and unions', GEN)], ['message dump and encoding after each step'])
prop('C12', 'Schema evolution: old and new readers interoperate',
     'A message written with one version of a schema is read with a version that adds, removes or reorders fields without renumbering: '
     'all fields common to both keep their values, unknown ones are skipped, missing ones get defaults. The same holds for added enum values, a field made optional, a singular numeric, string or bytes field made repeated (and, for string and bytes, back: the last element wins), '
     'and int32/uint32/int64/uint64/bool/enum exchanges with truncation to the reader width.',
     ['programs', 'inputs'], 'all pairs of compatible schema versions x all messages',
     'Tests use one version of each schema with only a few unknown-field literals.',
     [RT, GEN], [('pbtools_decoder_skip_field', RT), ('field number dispatch', GEN)], ['content decoded with the other version'])
prop('C13', 'Results do not depend on compiler, optimisation or float support',
     'The generated code and runtime behave identically (same encodings, decoded contents and error codes) when built by gcc or clang at any optimisation level, for 64-bit and 32-bit targets. '
     'With floating point support configured off they still compile (warnings about unused helpers aside), and messages without float or double fields behave exactly the same.',
     ['configurations', 'inputs'], 'compiler x optimisation x configuration x workload',
     'The tests build with one compiler, one optimisation level; the float-less configuration is only compiled.',
     [RT, H], [('PBTOOLS_CONFIG_FLOAT guards', H)], ['transcript of a workload in every build'])
prop('G14', 'Generated C compiles cleanly for every supported schema',
     'For every valid proto3 file in the supported subset (any declaration order, self, mutual and nested recursion, maps, oneofs, optional fields, imports and packages, services, reserved ranges, options on fields and files, any field count and number; names that are neither C or C++ keywords nor become equal as snake_case C names), generation succeeds and the generated header and source '
     'compile without warnings under strict warning flags with gcc and clang, the header is self-contained and usable from C++, and all generated files of a multi-file schema compile and link together.',
     ['programs'], 'all proto3 files in the supported subset',
     'Tests compile a fixed set of files; generated code depends on order, nesting, naming and combinations of declarations.',
     [GEN, PAR], [('message ordering and templates', GEN), ('depth-first message sorting', PAR)], ['compiler diagnostics'])
prop('G15', 'The generated C API mirrors the proto declarations',
     'Each message, field, enum, oneof and map becomes C declarations with the documented snake_case names (package and scope prefix included), C types of the declared width and signedness, and enumerators with exactly the declared values '
     '(upper-cased members when requested, same values). Each field is read and written under its own number, and the functions to create, encode, decode, allocate and select exist for exactly the fields that need them.',
     ['programs'], 'all proto3 files in the supported subset',
     'Tests compare generated text of a few files; they do not cover combinations of names, scopes, types and numbers.',
     [GEN, PAR], [('camel_to_snake_case and C type tables', GEN)], ['_Generic type probes, enumerator values and wire numbers of compiled code'])
prop('G16', 'Generation is deterministic and independent of context',
     'The files generated from given inputs are always byte-identical: across repeated runs, hash seeds, working directories, relative or absolute input paths, locale, output directory and previous contents of it (also those that a killed run left), and whether input files are given together, in any order, or one by one. '
     'Exactly the expected output files are written, into the requested directory only, and inputs are never modified; a file that cannot be written is reported and never a success. This holds for the C, Rust and Mys generators.',
     ['configurations', 'histories', 'inputs'], 'all schemas x invocation contexts and orders',
     'Tests run each file once in one context.',
     [CLI, GEN, 'pbtools/mys_source/__init__.py', 'pbtools/rust_source/__init__.py', 'pbtools/subparsers'], [('generate_files', GEN), ('subcommand argument handling', 'pbtools/subparsers')], ['output directory contents'])
prop('G17', 'Comments, whitespace and formatting never change the result',
     'Replacing whitespace (spaces, tabs, line breaks) by any other whitespace or by line or block comments, changing line endings, adding empty statements, or moving text between lines does not change what is parsed or generated, and comment-like text inside string literals or quotes inside comments is not misread.',
     ['inputs'], 'all proto3 files x all formatting-preserving rewrites',
     'Tests contain a few fixed comment placements.',
     [PAR], [('comment removal and tokenizer', PAR)], ['generated output of reformatted inputs'])
prop('G18', 'The parser reports exactly what the proto file declares',
     'Parsing any valid file in the supported subset yields exactly its package, imports, options, messages, fields (name, type, number, label, resolved kind), nested types, enums with values, oneofs, maps and services with their rpcs and streaming flags: nothing lost, invented, reordered within a declaration, or mixed between scopes. '
     'Decimal, hexadecimal and octal numbers have their protobuf values and string escapes or adjacent quotes do not disturb what follows.',
     ['inputs'], 'all proto3 files in the supported subset',
     'Tests check selected attributes of a few fixed files.',
     [PAR], [('Parser grammar and the Proto/Message/Enum/... loaders', PAR)], ['pbtools.parse_file object model'])
prop('G19', 'Type references resolve by protobuf scoping across imports',
     'A field or map value type name binds to the type that protobuf scoping selects: innermost enclosing scope first, then outwards, then through the package and imported files, with leading-dot names bound absolutely; generated code uses that type and the right kind (message or enum), with working includes. '
     'Imports are searched in the given import path order (current directory included); a missing file or undefined type is an error (a name that only resolves past an inner declaration hiding its first part may be accepted).',
     ['programs', 'configurations'], 'all multi-file schemas x references x import paths',
     'Tests have a few fixed import constellations.',
     [PAR, GEN], [('type lookup and import file search', PAR)], ['resolved types of parse_file', 'behaviour of generated code'])
prop('G20', 'Invalid schemas are rejected cleanly and produce nothing',
     'For any input file that is not grammatical proto3 of the supported subset or refers to undefined types or missing imports (syntax error anywhere, unterminated comment, proto2 syntax, malformed number), the command line tool prints a single error message without a traceback, exits non-zero, and writes no output for that input. '
     'For syntax errors the reported line and column are those of the offending token (or of the list separator just before it), regardless of preceding comments. '
     'Semantic constraints (field number ranges, uniqueness) are not validated.',
     ['inputs', 'fault_sequences'], 'all mutations of valid files into invalid ones',
     'Tests check a few fixed error messages.',
     [PAR, CLI, GEN], [('textparser.ParseError handling and _main', CLI), ('generate_files order of parse and write', GEN)], ['exit status, stderr and output directory of the tool'])
prop('R21', 'Generated Rust and Mys code implements the wire format',
     'Code generated by the Rust and Mys generators encodes and decodes messages according to the protobuf wire format.',
     ['programs', 'inputs'], 'all schemas x values',
     'There is no test of the behaviour of generated Rust or Mys code.',
     ['pbtools/rust_source/__init__.py', 'pbtools/mys_source/__init__.py', 'crate'], [('generator templates', 'pbtools/rust_source/__init__.py')], [])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
