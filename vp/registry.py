"""property -> (rule module, function, evidence level); INFO: technique and level note; NA: reasons"""
RULES = {
    'C01': ('decode', 'c01', 'other'),
    'C02': ('decode', 'c02', 'other'),
    'C03': ('codec', 'c03', 'other'),
    'C04': ('lists', 'c04', 'other'),
    'C05': ('decode', 'c05', 'other'),
    'C06': ('decode', 'c06', 'other'),
    'C07': ('lists', 'c07', 'other'),
    'C08': ('encode', 'c08', 'other'),
    'C18': ('grpc', 'c18', 'other'),
    'C19': ('grpc', 'c19', 'other'),
    'C20': ('grpc', 'c20', 'other'),
    'C21': ('grpc', 'c21', 'other'),
    'C22': ('grpc', 'c22', 'other'),
    'C23': ('grpc', 'c23', 'other'),
    'C24': ('grpc', 'c24', 'other'),
    'C25': ('grpc', 'c25', 'other'),
    'C26': ('grpc', 'c26', 'other'),
    'C30': ('quick', 'c30', 'other'),
    'C16': ('qttypes', 'c16', 'other'),
    'C17': ('qttypes', 'c17', 'other'),
    'C11': ('codegen', 'c11', 'other'),
    'C12': ('codegen', 'c12', 'other'),
    'C13': ('codegen', 'c13', 'other'),
    'C14': ('codegen', 'c14', 'other'),
    'C15': ('codegen', 'c15', 'other'),
    'C33': ('codegen', 'c33', 'other'),
    'C10': ('registry10', 'c10', 'other'),
    'C27': ('objects', 'c27', 'other'),
    'C28': ('objects', 'c28', 'other'),
    'C29': ('objects', 'c29', 'other'),
    'C09': ('lists', 'c09', 'other'),
}
_T = ' Trusted: the clang front end, the dumper, the library models of Qt/std types in vp/models.py.'
INFO = {
    'C11': ('symbolic state dataflow over the constructors, assignments and comparisons the current generator emits for a covering schema corpus', 'Per corpus message (every field type, cardinality and position): all values. Schemas outside the corpus only through the templates they share with it.' + _T),
    'C12': ('symbolic state and signal dataflow over the generated setters, constructors and assignments', 'Per corpus message: all old and new values on all paths; emitted signals are resolved through the moc tables.' + _T),
    'C13': ('constant table extraction from the generated field tables, resolved against moc property tables and the schema descriptors', 'Every message and enum of the corpus under several option sets.' + _T),
    'C15': ('call-site and closure dataflow over the generated client members, compared with the service descriptors', 'Every member of every client of the service corpus, under four option sets; all parameter values, and both outcomes of each call.' + _T),
    'C33': ('symbolic integer dataflow (linear equalities, quotient and remainder) over the generated Timestamp conversions', 'All date-times within 2^62 ms of the epoch and all timestamps of the specified range, on all paths.' + _T),
    'C14': ('type comparison of generated members with the proto type map; registration table extraction by abstract interpretation of the generated registration code', 'Every message, enum and map of the corpus under several option sets; generated code that does not compile is a violation.' + _T),
    'C01': ('path-sensitive dataflow (abstract interpretation, linear inequalities) over the resolved AST', 'Sound for all inputs within the modelled subset: every buffer read on every path of every decoding function is proved in bounds; loops are covered by a generic iteration from a forgotten state.' + _T),
    'C02': ('ranking-function dataflow over loop back edges', 'Every back edge of every decoding loop is proved to advance a bounded position; nested decodes shrink.' + _T),
    'C03': ('bit-level dataflow (affine bit vectors) over encoder and decoder paths', 'All values: bits written and read are compared symbolically with the wire format on every path; varint loops are unrolled to their maximal length.' + _T),
    'C04': ('table extraction by abstract interpretation of the registering constructor, compared with the wire type table of the specification', 'Every row the constructor writes is compared with the protobuf specification; generator type maps are read from the same tree.' + _T),
    'C07': ('path-sensitive dataflow over the public decode calls', 'All paths, normal and exceptional, of every decode entry point.' + _T),
    'C08': ('symbolic byte-sequence dataflow over the encoding functions', 'All field sets and values; containers of 0, 1 and 2 elements are followed element by element, larger ones by the generic iteration.' + _T),
    'C09': ('path-sensitive container-content dataflow over the decoding functions', 'All paths; container contents are tracked as sequences of terms.' + _T),
    'C10': ('lockset analysis over all paths to shared storage', 'All pairs of accesses to the shared tables; lock identity by storage location.' + _T),
    'C27': ('typestate of table entries (path-sensitive dataflow with presence facts) over the registry operations', 'All names, all tables of plugins: the table is an arbitrary map; loaded metadata is arbitrary.' + _T),
    'C28': ('path-sensitive nullness and equality dataflow over the comparison functions', 'All pointers and contents for containers of up to 2 (thorough: 3) elements; larger ones repeat the same iteration.' + _T),
    'C29': ('ownership typestate over every method of the lazy pointer', 'All paths of all methods from an arbitrary valid state, in the QML and the non-QML configuration.' + _T),
    'C18': ('exception- and error-flow dataflow over the call, reply and stream functions', 'All paths of every entry point, with every outcome of the channel, the serializer and the transport left arbitrary.' + _T),
    'C19': ('typestate of asynchronous results over every callback of both channels', 'All orders of the callbacks the sources connect; the outcome of each network or native call is arbitrary.' + _T),
    'C20': ('thread-effect dataflow over the client entry points', 'All paths from a foreign thread and from the owning thread; posted calls are followed into their closures.' + _T),
    'C21': ('lockset analysis and effects under lock', 'All accesses to the shared response data on all paths.' + _T),
    'C22': ('totality of the mapping table, extracted by abstract interpretation and compared with the enum of the installed Qt headers', 'Every enumerator, every path of the lookup.' + _T),
    'C23': ('byte-sequence and interval dataflow over the request builder and the stream reader', 'All payload sizes, all chunk sizes; chunks and messages of a reader run are followed two (thorough: three) deep, every later round starts from the same form of state.' + _T),
    'C24': ('typestate dataflow of streams over the client, the channels and their connected closures', 'All methods and arguments; up to two streams active at the time of a request; data and ends of a transfer follow in every order the connections allow.' + _T),
    'C25': ('value dataflow over request construction, channel construction and the credential templates', 'All credential names and values, up to two call credentials per request; all URL schemes.' + _T),
    'C26': ('happens-before dataflow over workers, capture lint, destructor order', 'All paths of the workers; up to two received messages per stream.' + _T),
    'C30': ('typestate dataflow over the properties, the start chain and the connected closures of the QML stream object', 'All answers of the meta object system, all failures of each step, then every event or property change that can follow.' + _T),
    'C16': ('symbolic composition of the writing and the reading handler of each Qt type, normalised by constructor/projection and inverse-pair rewriting', 'All values of every registered type; polygons of 0 to 3 points followed point by point.' + _T),
    'C17': ('registration table extraction by abstract interpretation, compared with the documented types and the message definitions; dataflow of the handler closures', 'Every registered handler, all values.' + _T),
    'C05': ('bit-level dataflow over the skipping paths', 'All keys and wire types; position after skipping compared as terms with the wire format.' + _T),
    'C06': ('exception-flow and bit-level dataflow', 'All paths of all decoding functions; every exception raised below must leave the public decode call.' + _T),
}
NA = {
    'C31': 'The JSON serializer is not part of this build: its sources need the microjson library, which is not in the tree and cannot be fetched, so they do not parse and no resolved program exists to analyse.',
    'C32': 'Deadlines, latency and delivery over a live connection are runtime quantities of the network and the scheduler; no static argument over this source can bound them.',
}
