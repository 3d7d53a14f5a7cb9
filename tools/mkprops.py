"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

A = 'amazon/ion/'
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': [A + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': hook,
        },
    })


prop('C01', 'Binary round trip preserves every value',
     'Serialising any value of the Ion data model to binary Ion and loading the result returns the same value: same '
     'type (typed nulls included), same annotations in order, same text and bytes, exact integers, floats (including '
     'negative zero, infinities and NaN), exact decimal coefficient, exponent and sign, exact timestamp fields, precision, '
     'fractional digits and offset, same elements in order, and same struct fields including repeated names. This '
     'holds at every nesting depth and size, with or without shared symbol table imports and when a sequence is written as a '
     'stream of top-level values. Serialising does not modify the value, and serialising it again gives the same bytes.',
     ['inputs', 'configurations'],
     'every value (every type, magnitude, length, nesting, annotation and field name) and every combination of import '
     'and stream options',
     'The tests round-trip a few dozen fixed values; encodings switch form at length and magnitude thresholds and at '
     'combinations of annotation, nesting and type that they do not enumerate.',
     ['simpleion.py', 'simple_types.py', 'writer_binary.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py',
      'writer_buffer.py', 'reader_binary.py', 'reader_managed.py'],
     [('binary writer state machine', 'amazon/ion/writer_binary_raw.py:_raw_writer_coroutine'),
      ('length-prefixed buffering', 'amazon/ion/writer_buffer.py:BufferTree'),
      ('binary reader handlers', 'amazon/ion/reader_binary.py'),
      ('object mapping', 'amazon/ion/simpleion.py:_dump/_load')],
     [('symbol mapping', 'symbols interned while writing', 'amazon/ion/writer_binary.py:_symbol_table_coroutine')],
     ['dump/dumps', 'load/loads'])

prop('C02', 'Text round trip preserves every value',
     'Serialising any value of the Ion data model to text Ion, compact or pretty-printed with any indentation, with or '
     'without version marker, and loading the result as a string or as UTF-8 bytes returns the same value in the same '
     'sense as for binary. Text that looks like something else (keywords, numbers, symbol identifiers, operators, empty '
     'names) survives as string, symbol, annotation and field name. Serialising does not modify the value, and '
     'serialising it again gives the same text.',
     ['inputs', 'configurations'],
     'every value and every combination of indentation, version-marker, tuple and stream options',
     'The tests round-trip a few dozen fixed values; quoting, spacing and pretty-printing depend on the neighbourhood of '
     'each token, which a handful of documents cannot cover.',
     ['simpleion.py', 'writer_text.py', 'reader_text.py', 'reader_managed.py', 'simple_types.py'],
     [('text writer state machine', 'amazon/ion/writer_text.py:_raw_writer_coroutine'),
      ('symbol quoting and escaping', 'amazon/ion/writer_text.py:_serialize_symbol/_escape'),
      ('text reader handlers', 'amazon/ion/reader_text.py')],
     (), ['dumps(binary=False)', 'loads'])

prop('C03', 'Plain Python values map to the documented Ion types in both formats',
     'Serialising a plain Python value (or an instance of a subclass) writes the Ion type the documented conversion '
     'table gives it: None, bool, int, float, Decimal, datetime and timestamps with their offset and microseconds, text, bytes, symbol tokens, '
     'list, tuple (list or s-expression as requested), dict. Text and binary output of the same object load to equal '
     'values, each loaded with the documented Python class; objects outside the table raise TypeError.',
     ['inputs', 'configurations'],
     'every composition of supported Python values, in both formats and with the tuple option on and off',
     'Tests check one value per type at the top level; mixing natives with Ion-natured values in containers and class '
     'hierarchies with several matching bases is not enumerated.',
     ['simpleion.py', 'simple_types.py', 'writer_text.py', 'writer_binary_raw.py'],
     [('type lookup', 'amazon/ion/simpleion.py:_ion_type/_FROM_TYPE'), ('dispatch', 'amazon/ion/simpleion.py:_dump')],
     (), ['dumps', 'loads'])

prop('C04', 'The binary reader decodes exactly what Ion 1.0 binary defines',
     'For every byte sequence, reading it as binary Ion yields the values the Ion 1.0 specification assigns to it, '
     'whichever legal encoding is used (over-long lengths, short or variable-length floats, sorted structs, annotation wrappers, '
     'padding, every integer, decimal and timestamp field width). Byte sequences that are not valid Ion - reserved type codes, '
     'lengths that overrun their container, negative zero integers, bad annotation wrappers, invalid timestamps or UTF-8 - raise an error instead '
     'of producing a value.',
     ['inputs'],
     'every byte sequence',
     'Tests decode about 150 fixed byte strings; the space of legal alternative encodings and of illegal ones is '
     'combinatorial.',
     ['reader_binary.py', 'reader.py', 'core.py'],
     [('type-descriptor dispatch tables', 'amazon/ion/reader_binary.py'),
      ('length limiting', 'amazon/ion/reader_binary.py:_HandlerContext.limit')],
     [('limit', 'absolute end of the enclosing container', 'amazon/ion/reader_binary.py')],
     ['binary_reader events', 'loads(bytes)'])

prop('C05', 'The text reader decodes exactly what Ion 1.0 text defines',
     'For every text document, reading it yields the sequence of values (types, annotations, field names, contents) the '
     'Ion 1.0 grammar assigns to it, whatever the whitespace, comments, separators, numeric notation, string form and '
     'escapes used. Documents outside the grammar - stray punctuation, malformed numbers, timestamps or escapes, misplaced '
     'annotations or commas, unbalanced containers - raise an error instead of producing a value.',
     ['inputs'],
     'every sequence of characters',
     'Tests parse a fixed list of good and bad documents; a lexer with dozens of mutually recursive states has far more '
     'state/next-character pairs than the tests reach.',
     ['reader_text.py', 'reader.py'],
     [('lexer and container coroutines', 'amazon/ion/reader_text.py'),
      ('dispatch tables by next character', 'amazon/ion/reader_text.py:_dict')],
     [('handler context', 'container, pending annotations, field name, accumulated value', 'amazon/ion/reader_text.py:_HandlerContext')],
     ['text_reader events', 'loads(str)'])

prop('C06', 'Reading does not depend on how the input is cut into chunks',
     'For every input and every way of cutting it into non-empty chunks handed to a reader (text as strings or UTF-8 bytes, binary; '
     'raw or symbol-managed), the sequence of events - values, annotations, field names, depths - is the same as when the input is '
     'given at once, including cuts inside escapes, multi-byte characters, numbers, lengths and symbol tables. An input rejected '
     'when given at once is rejected under every cut, after the same events.',
     ['schedules', 'inputs'],
     'every input and every partition of it into chunks',
     'Tests feed a handful of documents whole or byte by byte; a document of n bytes has 2^(n-1) partitions.',
     ['reader.py', 'reader_text.py', 'reader_binary.py', 'reader_managed.py'],
     [('input buffering', 'amazon/ion/reader.py:BufferQueue'), ('suspension points', 'amazon/ion/reader.py:reader_trampoline'),
      ('code point assembly', 'amazon/ion/reader_text.py:_next_code_point_handler')],
     [('buffer queue', 'segments and offset', 'amazon/ion/reader.py:BufferQueue')],
     ['events of text_reader/binary_reader/managed_reader'])

prop('C07', 'Truncated input is never mistaken for a complete value',
     'After a reader has consumed any proper prefix of a document, it asks for more data in the way that says whether '
     'stopping here is allowed: stream end exactly when the prefix is a complete sequence of values, incomplete otherwise. '
     'Ending the input (flushing) yields only values that are complete at that point in the text and otherwise raises '
     'or remains incomplete; loading a truncated document through the blocking reader raises an error or returns exactly the '
     'values the prefix denotes.',
     ['crash_points', 'inputs'],
     'every document and every point at which it can be cut off',
     'Tests cover a few truncations per type; every prefix of every construct is a separate case.',
     ['reader.py', 'reader_text.py', 'reader_binary.py', 'simpleion.py'],
     [('STREAM_END vs INCOMPLETE', 'amazon/ion/reader_binary.py:_top_level_handler, amazon/ion/reader_text.py:_container_handler'),
      ('end-of-file flush', 'amazon/ion/reader.py:blocking_reader')],
     (), ['event type after each prefix', 'load on truncated files'])

prop('C08', 'Skipping is equivalent to reading and discarding to the container end',
     'At any point inside a container, in text or binary, skipping ends at the end of that container: the next event '
     'reported is its end, and every later event is identical to what reading without skipping reports. This holds for every '
     'combination of skip points, nesting, content (strings, comments or blobs that contain delimiters included) and chunking of the input.',
     ['histories', 'schedules', 'inputs'],
     'every document, every set of positions where the consumer skips instead of advancing, every chunking',
     'Tests skip once or twice in a few documents; skip points interact with lexer state and with partial input.',
     ['reader_text.py', 'reader_binary.py', 'reader_managed.py'],
     [('text skip', 'amazon/ion/reader_text.py:_skip_trampoline'), ('binary skip', 'amazon/ion/reader_binary.py')],
     (), ['events after SKIP'])

prop('C09', 'Symbol IDs resolve in the symbol table context in force where they occur',
     'For every history of version markers, local symbol tables (new, appending, importing shared tables found exactly, '
     'in another version or not at all) and values, each symbol value, annotation and field name is reported with the text, or unknown text and '
     'import position, that the Ion specification assigns to its ID at that point; IDs beyond the table raise an error. '
     'System values are never reported to the user, and neither a later context change nor delayed access to an event changes what '
     'an already reported event denotes.',
     ['histories', 'configurations'],
     'every sequence of system values and uses, in text and binary, and every catalog content',
     'Tests run a fixed set of sequences; contexts compose (append to append, reset, import then append) without bound.',
     ['reader_managed.py', 'symbols.py', 'core.py'],
     [('context switch', 'amazon/ion/reader_managed.py:managed_reader'), ('symbol table processing', 'amazon/ion/reader_managed.py:_local_symbol_table_handler'),
      ('lazy resolution', 'amazon/ion/reader_managed.py:_managed_thunk_event')],
     [('context', 'catalog and current symbol table', 'amazon/ion/reader_managed.py:_ManagedContext')],
     ['events of managed_reader', 'load with catalog'])

prop('C10', 'Binary output is valid Ion any conforming reader decodes to the same values',
     'Every binary stream produced is well-formed Ion 1.0: version marker first, symbol table (with declared imports and their '
     'maximum IDs) before first use and containing each new symbol once, lengths that exactly cover their contents, legal encodings without padding or superfluous leading bytes. An independent decoder '
     'given the imported tables reads from it exactly the values written.',
     ['inputs', 'configurations'],
     'every sequence of values and every list of shared imports',
     'The tests compare a few fixed byte strings and otherwise only read back with the library itself, which hides '
     'matching mistakes in writer and reader.',
     ['writer_binary.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py', 'writer_buffer.py', 'symbols.py'],
     [('managed writer', 'amazon/ion/writer_binary.py:_managed_binary_writer_coroutine'),
      ('field encodings', 'amazon/ion/writer_binary_raw_fields.py')],
     [('local symbols', 'symbols seen so far in the segment', 'amazon/ion/writer_binary.py:_symbol_table_coroutine')],
     ['bytes from dumps(binary=True)'])

prop('C11', 'Text output is valid Ion any conforming parser decodes to the same values',
     'Every text document produced, compact or pretty-printed, is valid Ion 1.0 text; an independent parser reads from it '
     'exactly the values written, so tokens are separated where they must be and symbols, strings, clobs and field names are '
     'quoted and escaped where they must be. Pretty-printing only adds whitespace between tokens: with the requested indentation unit '
     'repeated for each nesting level.',
     ['inputs', 'configurations'],
     'every sequence of values and every output option',
     'The tests compare fixed strings for single values and otherwise read back with the library itself.',
     ['writer_text.py', 'simpleion.py'],
     [('text writer', 'amazon/ion/writer_text.py')], (),
     ['text from dumps(binary=False)'])

prop('C12', 'A writer accepts exactly the legal event sequences and writes what they denote',
     'For every sequence of events sent to a text or binary writer, an event that is illegal in its context (container end at top '
     'level, stream end or version marker inside a container, field name missing inside a struct, value type not matching) is rejected and '
     'every legal one accepted; whenever a stream end is accepted the bytes emitted so far decode to exactly the events '
     'sent. The writer reports pending output until it has been drained, then completion at every stream end and otherwise only at top level with everything sent so far written, and can then be used for another segment.',
     ['histories'],
     'every sequence of writer events',
     'Tests send fixed sequences; the protocol is a state machine whose illegal transitions multiply with depth, container type and history.',
     ['writer.py', 'writer_text.py', 'writer_binary.py', 'writer_binary_raw.py', 'writer_buffer.py'],
     [('trampoline', 'amazon/ion/writer.py:writer_trampoline'), ('state machines', 'amazon/ion/writer_binary_raw.py, amazon/ion/writer_text.py')],
     [('depth and container stack', 'what the writer expects next', 'amazon/ion/writer_*.py')],
     ['DataEvents yielded by the writer', 'exceptions'])

prop('C13', 'Symbol tables and catalogs assign IDs and resolve imports as specified',
     'For every history of construction, import, interning, lookup and registration, a symbol table assigns each symbol the next free '
     'ID (imports first, system symbols before them in local tables), lookup by text gives the first definition and lookup by ID the symbol at '
     'that ID with its import position, and IDs never change once assigned. Resolving an import returns the exact table if registered with that size, else the '
     'named table cut or padded with unknown symbols to the requested size (latest version preferred), else a placeholder; impossible requests raise.',
     ['histories', 'configurations'],
     'every sequence of table operations and every catalog content and request',
     'Tests check fixed tables; ID assignment depends on the whole history of imports, duplicates and unknown-text symbols.',
     ['symbols.py'],
     [('ID assignment', 'amazon/ion/symbols.py:SymbolTable'), ('resolution', 'amazon/ion/symbols.py:SymbolTableCatalog.resolve')],
     [('symbols and mapping', 'tokens by ID and by text', 'amazon/ion/symbols.py:SymbolTable')],
     ['intern/get/[]/len/iter', 'resolve'])

prop('C14', 'Ion equivalence is the data-model equality relation',
     'Comparing two values for Ion equivalence is reflexive, symmetric and transitive on Ion-natured values and true exactly when type, annotations and content are '
     'the same in the Ion data model: decimals by coefficient and exponent, zero by sign, NaN equal to itself, timestamps by instant, offset and precision '
     '(or by instant only when requested), structs as unordered collections of fields with repetition, sequences by order, symbols by text or import position. A plain '
     'Python value is equivalent to an unannotated Ion value with the same content, in either operand order and at any nesting depth.',
     ['inputs'],
     'every pair and triple of values',
     'Tests compare listed pairs; the relation must agree on every pair of types, annotations and nestings.',
     ['equivalence.py', 'simple_types.py', 'core.py'],
     [('comparison', 'amazon/ion/equivalence.py:_ion_equals'), ('structs', 'amazon/ion/equivalence.py:_structs_eq'),
      ('timestamps', 'amazon/ion/equivalence.py:_timestamps_eq')], (),
     ['ion_equals'])

prop('C15', 'Timestamps normalise their fields consistently or are refused',
     'For every combination of constructor arguments, a timestamp is either refused with ValueError, or its microseconds, fractional seconds and fractional '
     'precision describe the same fraction exactly as documented (truncated to six digits where longer), its precision and offset are those given, and the equivalent ways of '
     'giving the fraction (microseconds with precision, or decimal) produce equal timestamps. Writing and reading it '
     'back in text or binary, including across the conversion between local and UTC fields, keeps local date and time, offset, precision and every fractional digit.',
     ['inputs'],
     'every combination of fields, offset, precision and fraction, including calendar boundaries',
     'Tests list a few argument combinations and offsets; carry across day, month and year boundaries and digit counts are combinatorial.',
     ['core.py', 'reader_text.py', 'reader_binary.py', 'writer_text.py', 'writer_binary_raw.py', 'simple_types.py'],
     [('constructor', 'amazon/ion/core.py:Timestamp.__new__'), ('UTC conversion', 'amazon/ion/core.py:Timestamp.adjust_from_utc_fields')], (),
     ['timestamp()/Timestamp()', 'dumps/loads'])

prop('C16', 'A struct keeps every field, repeated names included',
     'For every history of adding, setting, deleting and reading fields, the multi-valued mapping used for structs holds '
     'exactly the values added per name in insertion order: subscription returns the newest, assignment replaces, deletion removes all, listing the items and the length count every value. '
     'Values survive copying into an Ion struct and serialisation with all repetitions.',
     ['histories'],
     'every sequence of operations on a struct value',
     'Tests exercise single operations; the state is a history of mixed add, set and delete operations.',
     ['core.py', 'simple_types.py', 'simpleion.py'],
     [('storage', 'amazon/ion/core.py:Multimap/MultimapValue')],
     [('store', 'ordered map of name to values', 'amazon/ion/core.py:Multimap')],
     ['Multimap/IonPyDict API', 'dumps'])

prop('C17', 'Ion-natured Python values survive copying, pickling and event conversion',
     'Every loaded or constructed Ion-natured value keeps its content, Ion type and annotations when shallow- or deep-copied, pickled and unpickled with any protocol, rebuilt '
     'from its own value with given annotations, or turned into a writer event and back. The copy is equal to the original '
     'under Ion equivalence and serialises to the same output, and changing a copied container leaves the original unchanged.',
     ['inputs', 'programs'],
     'every value and every conversion applied to it, including chains of conversions',
     'Tests touch a few conversions on scalars; type-specific state (precision, fraction, symbol import position, repeated fields) is lost only in combinations.',
     ['simple_types.py', 'core.py', 'symbols.py', 'util.py'],
     [('construction', 'amazon/ion/simple_types.py:_IonNature'), ('records', 'amazon/ion/util.py:record')], (),
     ['copy/deepcopy/pickle', 'from_value/from_event/to_event'])

prop('C18', 'Independent readers and writers do not affect each other',
     'Any number of readers and writers, text or binary, used alternately in any interleaving of their steps each produce exactly what they produce when used alone, '
     'also when they share imported symbol tables, a catalog or the values being written, and also after another instance failed or was abandoned part-way.',
     ['schedules'],
     'every interleaving of the steps of several instances',
     'Tests use one instance at a time; shared dispatch tables, cached encodings and event singletons are only exposed by interleavings.',
     ['reader.py', 'reader_text.py', 'reader_binary.py', 'reader_managed.py', 'writer.py', 'writer_text.py', 'writer_binary.py', 'writer_binary_raw_fields.py', 'symbols.py', 'util.py'],
     [('per-instance coroutines', 'amazon/ion/util.py:coroutine'), ('module-level caches', 'amazon/ion/writer_binary_raw_fields.py')], (),
     ['events and output of each instance'])

prop('C19', 'Streams concatenate: segments written and read are independent of each other',
     'Writing values in any number of segments to one writer, dumping several times to one file, or concatenating separately produced streams of the same format (text streams with white space between them) gives a stream that '
     'loads to the concatenation of the values, each with its own symbols. Loading from a file object gives the same result whatever amounts its reads return, and asking for a single value fails '
     'exactly when the stream does not hold exactly one.',
     ['histories', 'configurations'],
     'every sequence of segments and every pattern of read sizes',
     'Tests write one segment and read from in-memory files; state left over from one segment shows only in the next.',
     ['simpleion.py', 'reader.py', 'writer.py', 'writer_binary.py', 'reader_managed.py'],
     [('segment end', 'amazon/ion/writer_binary.py:_managed_binary_writer_coroutine'), ('file reading', 'amazon/ion/reader.py:blocking_reader')], (),
     ['dump/load', 'blocking_writer/blocking_reader'])

prop('C20', 'Numbers are exact at every magnitude, in both formats and every notation',
     'Integers of any size, decimals of any coefficient and exponent (negative zero and trailing zeros included) and all binary64 floats keep their exact value when written and read in text or binary, '
     'and numbers read from decimal, hexadecimal or binary notation with underscores, signs, leading zeros where legal and any exponent have exactly the value the notation denotes. The result '
     'does not depend on the caller\'s decimal context, and the caller\'s context is left unchanged.',
     ['inputs', 'configurations'],
     'every number, every notation for it and every ambient decimal context',
     'Tests sample small numbers; encodings change at every byte boundary and decimal arithmetic silently rounds to the ambient context.',
     ['writer_binary_raw.py', 'writer_binary_raw_fields.py', 'reader_binary.py', 'reader_text.py', 'writer_text.py'],
     [('field encodings', 'amazon/ion/writer_binary_raw_fields.py'), ('number parsing', 'amazon/ion/reader_text.py'),
      ('decimal context', 'amazon/ion/reader_binary.py')], (),
     ['dumps/loads'])

prop('C21', 'Every character and byte survives in every textual position',
     'Every Unicode scalar value is preserved in strings, symbols, field names and annotations, and every byte in clobs and blobs, when written and read in text or binary and in every neighbourhood '
     '(start, end, next to quotes, backslashes, digits, newlines). Each escape sequence and long-string form denotes exactly the characters the specification gives it, from string or UTF-8 input; unpaired surrogates and illegal '
     'control characters or escapes are refused.',
     ['inputs'],
     'every code point or byte, in every syntactic position, with every neighbouring character class',
     'Tests use a few non-ASCII strings; there are 1.1 million code points and every escape has its own lookahead.',
     ['writer_text.py', 'reader_text.py', 'reader_binary.py', 'writer_binary_raw.py', 'util.py', 'reader.py'],
     [('escaping', 'amazon/ion/writer_text.py:_escape'), ('unescaping', 'amazon/ion/reader_text.py'), ('code point iteration', 'amazon/ion/util.py:unicode_iter')], (),
     ['dumps/loads'])

prop('C22', 'The reader input queue and writer output tree keep every byte in order',
     'For every history of appending, reading, peeking back, skipping and end marking, the input queue of the readers delivers the appended bytes or characters in order, reports its position and size '
     'correctly and refuses to read past its content. For every history of nested opening, adding and closing, the '
     'output buffer yields the bytes in document order with each container\'s length computed over exactly its contents.',
     ['histories'],
     'every sequence of buffer operations and every segmentation of the data',
     'Tests run a few fixed operation sequences; bookkeeping errors need particular alignments of segment boundaries and operations.',
     ['reader.py', 'writer_buffer.py'],
     [('input queue', 'amazon/ion/reader.py:BufferQueue'), ('output tree', 'amazon/ion/writer_buffer.py:BufferTree')],
     [('segments, offset, size, position', 'unread input', 'amazon/ion/reader.py:BufferQueue')],
     ['BufferQueue/BufferTree API'])

prop('C23', 'Down-conversion to JSON follows the documented rules for every value',
     'Encoding any loaded Ion value with the JSON encoder gives JSON text whose parse is the documented down-conversion: typed nulls, NaN and infinities become null, '
     'numbers and booleans keep their value (a decimal becomes the nearest double, or null where that is infinite), symbols and timestamps become text, clobs become their byte characters and blobs base64, lists and s-expressions become arrays and structs objects; annotations are dropped. '
     'The rule applies at every depth.',
     ['inputs'],
     'every value of the Ion data model',
     'The existing tests of this module return before testing anything on this interpreter.',
     ['json_encoder.py'],
     [('default()', 'amazon/ion/json_encoder.py:IonToJSONEncoder')], (),
     ['json.dumps(cls=IonToJSONEncoder)'])

prop('C24', 'Readers answer every allowed request with the next event and refuse every other',
     'A reader is started by asking for the next event and says when it needs data. For every valid document, every way of cutting it and every history of requests (next, skip, data, and next after an incomplete signal to flush '
     'text), a request allowed in the state reached is answered with the next event of the document, the end of the container being skipped, or a signal asking for data, which may leave events unreported only while input remains. '
     'Events nest properly, with depth the number of open containers and field names exactly inside structs. Every other request - data while none was asked for, empty data, next (but to flush incomplete text) or skip while data is needed, '
     'skipping where no container is open, starting with anything but next - is refused with an error, and a reader that has refused or failed reports nothing more. A blocking reader over a file answers the same for every buffer size and '
     'whatever amounts the reads return, and ends with one stream end.',
     ['histories', 'inputs'],
     'every document, chunking and history of requests',
     'Tests send one fixed sequence of requests per document; a wrong transition needs a particular request in a particular state.',
     ['reader.py', 'reader_text.py', 'reader_binary.py', 'reader_managed.py'],
     [('trampoline', 'amazon/ion/reader.py:reader_trampoline'), ('blocking reader', 'amazon/ion/reader.py:blocking_reader')],
     [('last answer', 'what may be requested next', 'amazon/ion/reader.py:reader_trampoline')],
     ['reader coroutines', 'blocking_reader'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
