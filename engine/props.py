"""The properties, what decides each of them, and how it is reported."""

ALL = []

class P:
    def __init__(self, id, title, statement, over, qtext, why, files, mech, parts=(), level='proof', technique='', note='',
                 na=None, observe=()):
        self.id, self.title, self.statement = id, title, statement
        self.over, self.qtext, self.why, self.files, self.mech = over, qtext, why, files, mech
        self.parts = list(parts)      # ('root', name, kinds) | ('rule', name)
        self.level, self.technique, self.note, self.na, self.observe = level, technique, note, na, observe
        ALL.append(self)

AI = 'abstract interpretation of the type-checked program (monomorphic MIR) with ghost-state typestate monitor'
BASE = ['the MIR extractor (driver/main.rs) and rustc\'s front end',
        'the abstract interpreter (engine/ai.py, lin.py, join.py)',
        'the contracts of std and external crates (engine/models*.py)']
AI_NOTE = ('Sound up to: hand-written contracts of std/external calls (engine/models*.py), unwinding paths and arithmetic '
           'overflow of additions are not followed, allocation never fails. ')
BOUNDED = 'Requests of up to two fields, each of any kind, name, length and contents (the number of fields is the only bound). '

CL = ('root_client', 'root_sized')

P('C01', 'Client boundary is fresh random text and delimits the body',
  'For every request the client builds, the boundary announced in the request headers is 16 to 70 random alphanumeric characters drawn '
  'for that request from the thread\'s random generator, and every delimiter in the body uses exactly that boundary. '
  'This holds for the streaming, the buffering (sized) and the lazy client, and for the boundary a prepared request reports to its user.',
  ['inputs', 'programs'], 'all sequences of fields, names, values, sources and I/O outcomes',
  'Tests send two or three fixed requests and compare with what their own server parser finds; a predictable, too short or mismatched '
  'boundary in one branch (empty request, prepared stream, sized) is not visible to them.',
  ['src/client/mod.rs', 'src/client/lazy.rs', 'src/lib.rs'],
  [{'name': 'boundary generation', 'where': 'src/client/mod.rs gen_boundary'}, {'name': 'delimiter writing', 'where': 'src/client/mod.rs MultipartWriter'}],
  [('root', 'root_client', ('boundary',)), ('root', 'root_sized', ('boundary',)), ('root', 'root_lazy', ('boundary',)), ('root', 'root_prepared', ('boundary',))],
  technique=AI, note=AI_NOTE + 'Randomness means: the text consists of values taken from rand::thread_rng through an alphanumeric distribution.')

P('C02', 'Headers precede the body and a refused request sends nothing',
  'The client hands the boundary to the request\'s headers exactly before it opens the body stream; when the request refuses its headers no '
  'stream is opened, nothing is written, and the caller gets an error. '
  'No body bytes are written before the stream is open or after the request is finished, and success is reported only for a request that was opened and finished.',
  ['programs', 'inputs', 'fault_sequences'], 'all call sequences of the three client APIs and all outcomes of the underlying request',
  'The mock request of the tests never refuses its headers and its stream never fails.',
  ['src/client/mod.rs', 'src/client/sized.rs', 'src/client/lazy.rs'],
  [{'name': 'Multipart::from_request', 'where': 'src/client/mod.rs'}, {'name': 'SizedRequest', 'where': 'src/client/sized.rs'}],
  [('root', 'root_client', ('order',)), ('root', 'root_sized', ('order',)), ('root', 'root_lazy', ('order',))],
  technique=AI, note=AI_NOTE)

P('C03', 'Announced Content-Length equals the bytes sent',
  'Whenever the client announces a Content-Length (buffering client, lazy client, prepared request), it is exactly the number of body bytes that are then sent. '
  'The buffering client always announces one, and the lazy client announces one unless a field is a stream of unknown length; otherwise none is announced.',
  ['inputs', 'programs'], 'all field kinds, names, values, file lengths and source lengths',
  'Tests check one request and the mock server ignores the announced length.',
  ['src/client/sized.rs', 'src/client/lazy.rs'],
  [{'name': 'SizedRequest::finish', 'where': 'src/client/sized.rs'}, {'name': 'content_len computation', 'where': 'src/client/lazy.rs PreparedFields::from_fields'}],
  [('root', 'root_client', ('len',)), ('root', 'root_sized', ('len',)), ('root', 'root_lazy', ('len',)), ('root', 'root_prepared', ('len',))],
  technique=AI, note=AI_NOTE + BOUNDED + 'Files are assumed to keep the length their metadata reported.')

P('C04', 'Client bodies are well-formed multipart/form-data carrying every field once',
  'Every body of a request reported as sent is a sequence of parts, each opened by a delimiter line, with one Content-Disposition header carrying the given name '
  '(and filename), a Content-Type for files and streams as given, an empty line and exactly the bytes of the given text, stream or file, followed by one closing delimiter. '
  'Each requested field appears exactly once and nothing else appears.',
  ['inputs', 'programs'], 'all sequences of fields of all kinds, of any length, read in pieces of any size',
  'Round-trip tests use random small values, whole reads and their own parser, so a malformed framing the parser tolerates, a short read or an unusual field order passes.',
  ['src/client/mod.rs', 'src/client/lazy.rs'],
  [{'name': 'MultipartWriter', 'where': 'src/client/mod.rs'}, {'name': 'PreparedFields', 'where': 'src/client/lazy.rs'}],
  [('root', 'root_client', ('frame',)), ('root', 'root_sized', ('frame',)), ('root', 'root_lazy', ('frame',))],
  technique=AI, note=AI_NOTE + 'Streaming client: any number of fields. Buffering and lazy client: ' + BOUNDED)

P('C05', 'A prepared request delivers its whole body under any reads and errors',
  'Reading a prepared lazy request to its end yields exactly one well-formed body with all its fields, whatever sizes the caller reads in and however often a '
  'source fails in between: bytes are never lost, repeated or reordered, and end-of-file is reported only after the closing delimiter.',
  ['inputs', 'fault_sequences', 'schedules'], 'all read sizes, all source read sizes, all positions of source errors',
  'Tests only read to the end with sources that never fail and a single buffer size.',
  ['src/client/lazy.rs'], [{'name': 'Read for PreparedFields', 'where': 'src/client/lazy.rs'}],
  [('root', 'root_prepared', ('frame', 'len'))],
  technique=AI, note=AI_NOTE + BOUNDED)

P('C06', 'Client I/O errors are reported and never invented',
  'When writing to the body stream, reading a field\'s source, opening a file or finishing the request fails, the client call reports an error and the request is not '
  'reported as written or sent. Conversely no error is reported when nothing failed and the headers were accepted.',
  ['fault_sequences', 'inputs'], 'every position and kind of I/O failure in every call sequence',
  'No test makes the stream, a source or the file system fail.',
  ['src/client/mod.rs', 'src/client/lazy.rs', 'src/client/sized.rs'],
  [{'name': 'error propagation', 'where': 'src/client'}],
  [('root', 'root_client', ('swallow', 'spurious', 'panic')), ('root', 'root_sized', ('swallow', 'spurious', 'panic')),
   ('root', 'root_lazy', ('swallow', 'spurious', 'panic'))],
  technique=AI, note=AI_NOTE + 'ErrorKind::Interrupted may be retried silently. ')

SV = ('root_save_path', 'root_save_unlimited', 'root_save_dir')
SVC = SV + ('root_write_to',)
ENT = ('root_entries_temp',)
ENTS = ('root_entries', 'root_entries_temp', 'root_entries_uncounted', 'root_entries_more')
SV_NOTE = AI_NOTE + 'The field\'s data is any byte sequence delivered in pieces of any size with errors anywhere, through the contract of MultipartData as a BufRead. '

def on(roots, *kinds):
    return [('root', r, kinds) for r in roots]

P('S02', 'Saved files get random or caller-chosen names, never request text',
  'A file created while a field is saved lies directly in the directory the caller gave (or the system\'s temporary directory) under a random alphanumeric name of at least '
  'eight characters, or at the path or name the caller chose. No text from the request (field name, file name, content type, data) becomes part of any created path.',
  ['inputs', 'programs'], 'all fields and all builder methods that name a destination',
  'Tests upload benign file names; a path built from a hostile filename (../../etc/passwd) would pass them.',
  ['src/server/save.rs'], [{'name': 'rand_filename / SaveBuilder::with_dir / temp / with_filename', 'where': 'src/server/save.rs'}],
  on(SV + ENT, 'path'), technique=AI, note=SV_NOTE)

P('S03', 'Saving never overwrites or removes an existing file',
  'Every file a field is saved to is opened so that opening fails when the path already exists, and nothing is removed, renamed, truncated or copied over while fields are saved, unless the caller changes the open options.',
  ['inputs', 'programs', 'fault_sequences'], 'all builder methods, paths, fields and I/O failures',
  'Tests save to fresh temporary directories, where no file is in the way.',
  ['src/server/save.rs'], [{'name': 'create_dir / OpenOptions', 'where': 'src/server/save.rs'}],
  on(SV + ENT, 'overwrite'), technique=AI, note=SV_NOTE)

P('S04', 'No more bytes of a field are stored than its size limit allows',
  'Whatever the data, the sizes of the reads and the failures, at every moment the bytes of one field that were kept in memory, written to its file, or written to the '
  'caller\'s writer number at most the configured size limit. This covers the in-memory prefix, the copy to disk and write_to together.',
  ['inputs', 'schedules', 'fault_sequences'], 'all limits, thresholds, data lengths, read and write sizes',
  'Tests use limits far from the data length and one read size; the limit is only crossed at particular relations of prefix, chunk and limit.',
  ['src/server/save.rs'], [{'name': 'try_copy_limited / size_limit', 'where': 'src/server/save.rs'}],
  on(SVC + ENT, 'limit'), technique=AI, note=SV_NOTE)

P('S06', 'Fields up to the memory threshold stay in memory, off the disk',
  'When a field is returned in memory it is no longer than the memory threshold and the file system was not touched for it. '
  'The file system is touched only when the field is known to exceed the threshold and the size limit allows more than the threshold.',
  ['inputs', 'schedules'], 'all thresholds, limits, data lengths and read sizes',
  'Tests compare contents, not where they are kept, and use few sizes.',
  ['src/server/save.rs'], [{'name': 'SaveBuilder::with_path / save_mem', 'where': 'src/server/save.rs'}],
  on(SV + ENT, 'memory', 'disk'), technique=AI, note=SV_NOTE)

P('S08', 'Saving a field does not panic',
  'Whatever a field contains, however its data is delivered, and whatever I/O operations fail, saving it to memory, a path, a directory or a writer returns a result: '
  'no indexing, slicing, unwrapping or UTF-8 boundary panics.',
  ['inputs', 'schedules', 'fault_sequences'], 'all data, read sizes, limits, policies and failures',
  'Tests cannot try every split of a multi-byte character or every limit.',
  ['src/server/save.rs'], [{'name': 'save_text / str_copy_limited', 'where': 'src/server/save.rs'}],
  on(SVC + ENT, 'panic'), technique=AI, note=SV_NOTE)

P('S11', 'Save results say honestly whether and why a field is incomplete',
  'Full is returned only if the end of the field was reached and no I/O operation failed. A partial result names the size limit only if the field is known to exceed it and an '
  'I/O error only if one occurred; an error is returned only if an I/O operation failed.',
  ['inputs', 'schedules', 'fault_sequences'], 'all limits, data lengths, read sizes and failure positions',
  'Whether data of exactly the limit\'s length, or a failure at the last byte, is reported as complete depends on positions the tests do not sample.',
  ['src/server/save.rs'], [{'name': 'SaveResult / PartialReason', 'where': 'src/server/save.rs'}],
  on(SVC + ENT, 'full', 'partial', 'complete'), technique=AI, note=SV_NOTE)

P('S12', 'Saved data is exactly the bytes taken from the field',
  'The bytes in the returned text or byte vector, in the file, or passed to the writer are exactly the bytes consumed from the field, each once and in order, also when the result is partial '
  '(after a failed write to the destination: a prefix of them). The reported size and path are those of what was stored.',
  ['inputs', 'schedules', 'fault_sequences'], 'all data, read and write sizes, limits, thresholds and policies',
  'Bytes lost or repeated at the switch from memory to disk, at short writes or at a split character show up only for particular sizes.',
  ['src/server/save.rs'], [{'name': 'try_copy_buf / copy loops', 'where': 'src/server/save.rs'}, {'name': 'SavedData', 'where': 'src/server/save.rs'}],
  on(SVC + ENT, 'size', 'conserve'), technique=AI, note=SV_NOTE + 'Results of kind Error carry no data and are exempt.')

P('S13', 'Text is returned only for valid UTF-8 and as the policy says',
  'Data is returned as text only if it was checked to be valid UTF-8 and the policy is not "ignore"; a complete in-memory field is returned as bytes under "try" only if it is invalid UTF-8, '
  'and never under "force", which alone reports invalid UTF-8 as an error. No bytes become a string without a check, wherever reads split a multi-byte character.',
  ['inputs', 'schedules'], 'all data, splits, limits and policies',
  'A character split between two reads, or a truncated one at the limit or end, occurs only with particular read sizes.',
  ['src/server/save.rs'], [{'name': 'TextPolicy / save_text', 'where': 'src/server/save.rs'}],
  on(SV + ENT, 'text'), technique=AI, note=SV_NOTE)

EN_NOTE = SV_NOTE + 'Reading a field gives a field, the end, or an error in any order (contract of read_entry); fewer than 2^32 fields. '

P('S05', 'The field count limit is exact and reported honestly',
  'Saving all fields of a request stores at most count_limit fields; the limit is reported only if a further field exists, and that field is handed back untouched. '
  'fields_count() of the result is the number of fields stored, and without a limit the count never stops the saving.',
  ['inputs', 'programs', 'fault_sequences'], 'all numbers of fields, names, limits and failures',
  'Tests save far fewer fields than the limit; off-by-one, a dropped field or a stale count appear only at the limit.',
  ['src/server/save.rs'], [{'name': 'SaveBuilder::with_entries', 'where': 'src/server/save.rs'}, {'name': 'Entries::push_field', 'where': 'src/server/save.rs'}],
  on(ENTS, 'count'), technique=AI, note=EN_NOTE)

P('S07', 'Saving a request stores every field once, complete, under its own name',
  'Every field read from the request is stored exactly once under its own name with exactly its own data before the next one is read; repeated names accumulate and no stored field is replaced or dropped. '
  'Full is returned only at the end of the request; a field that could not be stored completely is handed back in the partial result together with all fields stored before.',
  ['inputs', 'programs', 'fault_sequences'], 'all sequences of fields with equal and different names, and all failures',
  'Tests rarely repeat names, and never fail in the middle of a request.',
  ['src/server/save.rs'], [{'name': 'SaveBuilder::with_entries', 'where': 'src/server/save.rs'}, {'name': 'Entries::push_field', 'where': 'src/server/save.rs'}],
  on(ENTS, 'conserve', 'full', 'partial', 'complete'), technique=AI, note=EN_NOTE)

GATES = ['root_gate_hyper', 'root_gate_hyper_mut', 'root_gate_iron', 'root_gate_nickel', 'root_gate_tiny']
P('S10', 'Exactly the multipart/form-data POST requests are taken, with their boundary',
  'In every framework integration (hyper by value and by reference, iron, nickel, tiny_http) a request yields a boundary exactly if it is a POST, has a Content-Type of multipart/form-data and that '
  'carries a boundary parameter; the boundary is the value of that parameter. from_request hands every other request back, and otherwise reads up to "--" followed by exactly that boundary.',
  ['inputs'], 'all methods, header lists, media types and parameter lists, in any order',
  'No test runs the integrations with another method, media type, parameter order or spelling; their examples send one kind of request.',
  ['src/server/hyper.rs', 'src/server/iron.rs', 'src/server/nickel.rs', 'src/server/tiny_http.rs', 'src/server/mod.rs'],
  [{'name': 'HttpRequest::multipart_boundary', 'where': 'src/server/{hyper,iron,nickel,tiny_http}.rs'}, {'name': 'Multipart::from_request', 'where': 'src/server/mod.rs'}],
  on(GATES + ['root_gate_from_request'], 'gate', 'panic'), technique=AI,
  note=AI_NOTE + 'The frameworks\' header parsing is trusted: a request is a method and typed headers (for tiny_http: header names and texts; its boundary is the text from "boundary=" to the next ";").')

P('C07', 'The hyper client announces form data with its boundary and length',
  'apply_headers of the hyper client request accepts exactly POST requests; on success the Content-Type is multipart/form-data whose only parameter is the given boundary, '
  'and Content-Length is set exactly if a length is given, to that length. content_type() builds the same Content-Type.',
  ['inputs'], 'all methods, boundaries and lengths',
  'The repository\'s tests use a mock request; the hyper request is only used in examples against a live server.',
  ['src/client/hyper.rs'], [{'name': 'HttpRequest for Request<Fresh>', 'where': 'src/client/hyper.rs'}],
  on(['root_gate_apply', 'root_gate_content_type'], 'gate', 'panic'), technique=AI, note=AI_NOTE)

P('S20', 'Iron\'s Intercept applies its limits and tells the truth',
  'Every save the interceptor makes uses its file_size_limit and file_count_limit and a temporary directory inside temp_dir_path (the system\'s if none is set). '
  'Entries are put into the request exactly if the request was read to its end; failures, and under ThrowError also limits, are returned as errors, under Continue reading goes on with all entries kept; '
  'other requests pass untouched. The setters change their own setting only.',
  ['inputs', 'schedules', 'fault_sequences'], 'all settings, requests and outcomes of every save',
  'The interceptor has no tests at all: it needs a live server.',
  ['src/server/iron.rs'], [{'name': 'Intercept::read_request', 'where': 'src/server/iron.rs'}, {'name': 'BeforeMiddleware for Intercept', 'where': 'src/server/iron.rs'}],
  on(['root_intercept'], 'intercept', 'panic') + on(['root_gate_icfg'], 'cfg', 'panic'), technique=AI,
  note=AI_NOTE + 'What a save call does is taken from the properties of saving: its outcome is arbitrary, except that a size limit comes with the field it hit.')

BD = ['bound_new', 'bound_min', 'bound_fill', 'bound_read', 'bound_consume', 'bound_next']
BD_NOTE = AI_NOTE + ('Every method of the delimiter reader is analysed from every state that satisfies its representation invariant and must restore it; the boundary is not empty and the '
                     'buffer can hold a delimiter line (the caller asks for 1024 bytes; boundaries of up to 70 characters). Buffer and searcher: contracts of buf_redux, twoway and safemem. ')

P('S01', 'Field data is exactly the bytes before the next delimiter',
  'However the body arrives in pieces and whatever buffer sizes are used, the bytes a field\'s reader delivers are exactly the bytes of the body from the end of the field\'s headers up to the line break before the next delimiter '
  '("--" and the boundary), each once and in order: nothing is lost, repeated or altered, no part of a delimiter or of its line break is delivered as data, and data that merely resembles a delimiter is. '
  'The end of the field is reported only at a delimiter or at the end of the body, and read(), fill_buf() and consume() agree on the bytes taken.',
  ['inputs', 'schedules', 'fault_sequences'], 'all bodies, boundaries, splits of the body into reads, buffer fill levels and call sequences',
  'Tests use one body and whole or one-byte reads; the bugs here need the delimiter, its line break or a look-alike to straddle a read at one particular offset.',
  ['src/server/boundary.rs'], [{'name': 'BoundaryReader::read_to_boundary / find_boundary', 'where': 'src/server/boundary.rs'}],
  on(BD, 'inv', 'data', 'stop', 'skip'), technique=AI + '; modular: method contracts and a representation invariant', note=BD_NOTE)

P('S14', 'Moving to the next field takes the rest of the field and one delimiter',
  'Looking for the next field discards the unread rest of the current field and exactly one delimiter line, never bytes behind it. '
  'Another field is announced only after a delimiter followed by a line break; the end is announced only after the closing delimiter (followed by "--"), and from then on always, without consuming anything.',
  ['inputs', 'schedules', 'programs'], 'all bodies, splits of the body into reads, and amounts of the current field read before',
  'Tests read every field to its end before the next one, and their bodies are well-formed.',
  ['src/server/boundary.rs'], [{'name': 'BoundaryReader::consume_boundary', 'where': 'src/server/boundary.rs'}],
  on(['bound_next'], 'next', 'skip', 'inv') + on(['bound_new', 'bound_consume', 'bound_fill'], 'inv'), technique=AI + '; modular: method contracts and a representation invariant', note=BD_NOTE)

P('S09', 'Reading a body fails exactly when the source fails or the body is malformed',
  'A read of field data, or the step to the next field, returns an error only if reading the body failed, or (the step only) the body ends before its closing delimiter (UnexpectedEof) or something other '
  'than a line break or "--" follows a delimiter (InvalidData). It never returns success when reading the body failed, and a failed read consumes nothing and a failed step no part of a delimiter.',
  ['inputs', 'fault_sequences', 'schedules'], 'all bodies, truncations and positions of read errors',
  'No test feeds the reader a truncated body, text after a delimiter or a failing source.',
  ['src/server/boundary.rs'], [{'name': 'BoundaryReader', 'where': 'src/server/boundary.rs'}],
  on(BD, 'err', 'stop') + on(['bound_next'], 'next') + on(['bound_fill', 'bound_read'], 'data'), technique=AI + '; modular: method contracts and a representation invariant', note=BD_NOTE)

P('S15', 'The delimiter reader never panics on hostile bodies',
  'No body, split into reads in any way, with any boundary, failure or sequence of calls makes the delimiter reader panic: all of its slicing, indexing, subtractions and buffer handling stay in range.',
  ['inputs', 'schedules', 'fault_sequences'], 'all bodies, boundaries, splits, failures and call sequences',
  'An index that is one off fails only for one alignment of buffer and delimiter.',
  ['src/server/boundary.rs'], [{'name': 'BoundaryReader', 'where': 'src/server/boundary.rs'}],
  on(BD, 'panic', 'inv'), technique=AI + '; modular: method contracts and a representation invariant', note=BD_NOTE)

RF = ['root_field_' + x for x in ('ref', 'owned', 'next', 'inplace', 'foreach')]
FL_NOTE = ('src/server/mod.rs, src/server/field.rs over the delimiter reader\'s contract (which S01, S14, S09, S15 establish); httparse is modelled by its documented contract. '
           'Bodies whose header section exceeds the reader\'s buffer are refused by design.')

P('S16', 'Fields are announced one by one, each after its delimiter and headers',
  'However a request is stepped through (read_entry, into_entry, next_entry, next_entry_inplace, foreach_entry), a step announces a field only after passing exactly one delimiter and taking exactly '
  'the header section behind it, so that its data starts there; it announces the end only at the closing delimiter, and a failure of the body or its delimiters always as an error. '
  'No field is skipped without an error, and read(), fill_buf() and consume() on a field pass on exactly the reader\'s bytes, counts and errors.',
  ['inputs', 'schedules', 'programs', 'fault_sequences'], 'all bodies, header sections, splits and failures of the reader, amounts of data read, and step counts',
  'Tests step through well-formed requests with one API and read every field to its end.',
  ['src/server/mod.rs', 'src/server/field.rs'], [{'name': 'ReadEntry::read_entry', 'where': 'src/server/field.rs'}, {'name': 'MultipartData', 'where': 'src/server/field.rs'}, {'name': 'Multipart', 'where': 'src/server/mod.rs'}],
  on(RF, 'step', 'fault', 'data', 'stop'), technique=AI + '; modular: over the delimiter reader\'s contract', note=FL_NOTE)

P('S17', 'A field\'s name, file name and type come from its own headers alone',
  'A field is announced only if its header section has a Content-Disposition of type form-data; its name is the text behind "name=" there up to the next ";" (or the end) without surrounding quotes, its file name '
  'the same behind "filename=" after the name, present exactly when that is, and its content type the parsed Content-Type header of the same section, with a malformed one an error. '
  'Header names match in any letter case, and nothing carries over from one field to the next.',
  ['inputs', 'histories'], 'all header sections and sequences of fields',
  'Tests use a handful of header sections as one client writes them.',
  ['src/server/field.rs'], [{'name': 'FieldHeaders::parse', 'where': 'src/server/field.rs'}, {'name': 'ContentDisp::parse_required', 'where': 'src/server/field.rs'}],
  on(RF, 'headers', 'stop'), technique=AI + '; modular: over the delimiter reader\'s contract', note=FL_NOTE)

P('S18', 'Stepping through a request never panics on hostile headers',
  'No header section, field name, file name or content type, body failure or sequence of steps and partial reads makes stepping through a request\'s fields or reading their data panic.',
  ['inputs', 'histories', 'fault_sequences'], 'all header sections, reader behaviours and step sequences',
  'Slicing a text at the wrong byte panics only for texts with characters of several bytes or without an expected mark.',
  ['src/server/field.rs', 'src/server/mod.rs'], [{'name': 'get_str_after', 'where': 'src/server/field.rs'}, {'name': 'MultipartData', 'where': 'src/server/field.rs'}],
  on(RF, 'panic'), technique=AI + '; modular: over the delimiter reader\'s contract', note=FL_NOTE)

def NA(id, title, statement, over, why, files, na):
    P(id, title, statement, over, 'unbounded', why, files, [{'name': files[0], 'where': files[0]}], na=na)

NA('X01', 'A request built by the client is read back equal by the server',
   'Every field the client writes is returned by the server with the same name, file name, content type and data, in the same order.',
   ['inputs', 'programs'], 'Tests round-trip small random requests.', ['src/client/mod.rs', 'src/server/mod.rs'],
   'The equality spans two programs joined by an unbounded byte stream and two external parsers (httparse, mime); no invariant in reach of this static analysis relates the two ends. '
   'C04 and S01/S14/S16/S17 decide each end against the format instead.')
NA('X02', 'What the server reports does not depend on how the body is split',
   'Two connections that deliver the same body in different pieces lead to the same fields, data and end.',
   ['schedules', 'inputs'], 'Tests read from in-memory slices.', ['src/server/boundary.rs'],
   'It compares two runs (a relational property); S01, S14, S16 decide each run against the body\'s text, which implies it for field data and steps but not for the refusal of oversized header sections, '
   'whose limit depends on how much one read() delivers.')
NA('X03', 'Quoted parameters of Content-Disposition follow the RFC',
   'A ";" or "name=" within quotes, or filename before name, in a Content-Disposition is read as RFC 7578 says.',
   ['inputs'], 'Tests use plain names.', ['src/server/field.rs'],
   'The code deliberately takes a simpler reading (up to the next ";", quotes trimmed), which S17 specifies; against the RFC the property does not hold and there is nothing for an analysis to decide.')
NA('X04', 'Reading makes progress in time linear in the body',
   'The server spends time proportional to the bytes received, and every call returns if the source does.',
   ['schedules', 'inputs'], 'Tests are small.', ['src/server/boundary.rs', 'src/server/field.rs'],
   'Termination and cost depend on how many bytes each read() of an arbitrary source delivers and on the cost of external searches; the analysis gives every loop an invariant but no ranking function.')
