#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the file stays well-formed). Run: python3 tools/mkprops.py"""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
SP='src/protobuf/'; SG='src/grpc/'; SQ='src/qttypes/'; GE='src/generator/'

p('C01','Decoding never reads outside the input buffer',
 'For every byte sequence handed to the binary decoder, decoding reads only bytes of that buffer (its terminating NUL included): a length prefix, a fixed-width value, a packed block or a skipped field that reaches past the end raises an out-of-range error before any byte beyond the end is read. A length prefix, however large, never moves the read position backwards.',
 ['inputs'],'all byte strings, for every message type and field type, including truncated values and length prefixes up to 2^32-1',
 'The tests feed a few dozen hand-written buffers, nearly all well formed; over-reads by a few bytes stay inside the heap block and pass unnoticed.',
 [SP+'qprotobufselfcheckiterator.h',SP+'qprotobufserializer_p.h',SP+'qprotobufserializer.cpp'],
 [('checked iterator: every move compares with the bytes left before moving',SP+'qprotobufselfcheckiterator.h'),('length is checked before the bytes are copied',SP+'qprotobufserializer_p.h deserializeLengthDelimited, deserializeBasic')],
 [('bytes left','number of unread bytes','qprotobufselfcheckiterator.h')],['QAbstractProtobufSerializer::deserialize'])
p('C02','Decoding terminates on every input',
 'For every byte sequence, decoding finishes after a number of steps bounded by the input size: every iteration of every decoding loop consumes at least one input byte or walks a finite container once, and nothing ever gives consumed bytes back.',
 ['inputs'],'all byte strings and message types','A hang needs a specific malformed length or header; the tests contain none of them and cannot rule out the others.',
 [SP+'qprotobufserializer_p.h',SP+'qprotobufserializer.cpp',SP+'qprotobufselfcheckiterator.h',SP+'qabstractprotobufserializer_p.h'],
 [('every decode loop advances the checked iterator','qprotobufserializer.cpp deserializeMessage, deserializeMapPair; qprotobufserializer_p.h deserializeList, deserializeVarintCommon'),('skip routines always advance','qprotobufserializer.cpp skip*')])
p('C03','Scalar wire encoding is the protobuf one and decoding inverts it for all values',
 'For every value of every integer, fixed-width, floating and boolean field type, the bytes written are those of the protobuf wire format (base-128 varint, ZigZag for signed "s" types, little-endian fixed width) and decoding those bytes yields the same value and consumes exactly them. Field keys encode the field number and wire type as (number << 3 | type), for all field numbers from 1 to 2^29-1, and decode back to them. (This library writes a negative int32 as the varint of its 32-bit two\'s complement, 5 bytes, and reads that as well as the 10-byte form back.) A varint of more than 10 bytes is rejected.',
 ['inputs'],'all 32- and 64-bit values, all field numbers 1..2^29-1','Tests sample a handful of values per type; a wrong bit in one byte position or at a width boundary is missed unless the sample hits it.',
 [SP+'qprotobufserializer_p.h'],
 [('varint encode/decode loops',SP+'qprotobufserializer_p.h serializeVarintCommon, serializeBasic, deserializeVarintCommon'),('zigzag expressions',SP+'qprotobufserializer_p.h'),('key packing',SP+'qprotobufserializer_p.h encodeHeader, decodeHeader')])
p('C04','Every field type is tied to its protobuf wire type and matching codec pair',
 'For each protobuf scalar type and each repeated scalar type, the C++ type the generator declares is registered with an encoder, a decoder for the same C++ type and the wire type the protobuf specification assigns; no supported type lacks an entry and no entry pairs an encoder with the decoder of another encoding.',
 ['programs','inputs'],'all proto3 scalar types, singular and repeated','Tests exercise some types round-trip through the same (possibly mis-paired) table and some against fixed bytes; combinations without a byte-level test stay unchecked.',
 [SP+'qprotobufserializer.cpp',SP+'qprotobufserializer_p.h',SP+'qtprotobuftypes.h',GE+'templates.cpp',GE+'generatorcommon.cpp'],
 [('handler table','qprotobufserializer.cpp QProtobufSerializerPrivate ctor'),('type reflection table','generator/templates.cpp TypeReflection'),('wire type enumeration',SP+'qtprotobuftypes.h')])
p('C05','Unknown fields are skipped exactly and leave the message unchanged',
 'A field whose number the message does not declare is skipped by consuming exactly its payload (varint: through the byte with a clear top bit; fixed32: 4 bytes; fixed64: 8 bytes; length-delimited: the length prefix plus that many bytes), writes no property, and decoding continues with the next field; the same holds for unknown fields inside a map entry. A wire type that cannot be skipped raises an error.',
 ['inputs'],'all messages containing undeclared field numbers in any position and of any wire type','Tests use a few unknown-field samples at one position.',
 [SP+'qprotobufserializer.cpp'],[('skip dispatch on wire type','qprotobufserializer.cpp skipSerializedFieldBytes, skipVarint, skipLengthDelimited'),('lookup miss branch','qprotobufserializer.cpp deserializeProperty'),('map entry field dispatch','qprotobufserializer.cpp deserializeMapPair')])
p('C06','Malformed input is always reported, never accepted silently',
 'If the bytes do not start a valid field (field number 0, undefined or unsupported wire type) or end early, the decoding call throws to its caller instead of returning normally; no layer between the byte reader and the public decode call swallows such an exception, and gRPC clients turn every one of them into a non-OK status that is both returned and signalled.',
 ['inputs'],'all malformed byte strings at any nesting depth','Tests check a few malformed buffers at top level.',
 [SP+'qprotobufserializer.cpp',SP+'qprotobufserializer_p.h',SP+'qabstractprotobufserializer.h',SG+'qabstractgrpcclient.h'],
 [('header validation','qprotobufserializer_p.h decodeHeader; qprotobufserializer.cpp deserializeProperty, deserializeMapPair'),('rethrow in deserialize','qabstractprotobufserializer.h deserialize'),('exception to status translation','qabstractgrpcclient.h tryDeserialize')])
p('C07','Decoding replaces the whole previous content of the target message',
 'After a decode call, successful or failed, the target message holds only what this call decoded on top of default values: its content never depends on what it, or any earlier decode call, held before.',
 ['inputs','histories'],'all sequences of decode calls into new or reused messages','Tests decode mostly into fresh objects.',
 [SP+'qabstractprotobufserializer.h'],[('fresh default message is decoded into and then assigned','qabstractprotobufserializer.h deserialize')])
p('C08','Every field is encoded once, under its own number, with exact length prefixes',
 'Serializing a message emits, for each declared field, the value of that field\'s own property under that field\'s own number, skipping a field only when it is unset or empty; no field is skipped because of another one. Every length-delimited payload (string, bytes, packed list, nested message, map entry) is preceded by the varint of exactly its byte length, every list element and map entry is emitted in container order (null elements of message lists and maps are left out without affecting the others), and map entries hold the key as field 1 and the value as field 2.',
 ['inputs','programs'],'all messages, field sets, list lengths and map contents','Tests check chosen messages byte for byte; they do not cover all field combinations, empty elements or lengths.',
 [SP+'qprotobufserializer.cpp',SP+'qprotobufserializer_p.h',SP+'qabstractprotobufserializer_p.h'],
 [('field loop','qprotobufserializer.cpp serializeMessage, serializeProperty'),('length prefix helper','qprotobufserializer_p.h prependLengthDelimitedSize'),('list and map element loops','qabstractprotobufserializer_p.h serializeList, serializeMap, serializeEnumList')])
p('C09','Decoding repeated and map fields keeps every element, in order',
 'Decoding a repeated field of messages, strings, bytes or enums appends each occurrence after the elements already decoded; a packed block yields one element per encoded value, in order, and several packed blocks of one field are joined. Decoding a map entry stores exactly the decoded key with the decoded value next to the entries decoded before, and a key or value absent from the entry takes its default (for message values possibly a null pointer).',
 ['inputs'],'all lists and maps of any length','Tests use lists and maps of a few elements.',
 [SP+'qabstractprotobufserializer_p.h',SP+'qprotobufserializer.cpp',SP+'qprotobufserializer_p.h'],
 [('previous value is read, extended and stored back','qabstractprotobufserializer_p.h deserializeList, deserializeMap, deserializeEnumList; qprotobufserializer.cpp deserializeList<>')])
p('C10','The serialization handler registry is safe under concurrent use',
 'Any number of threads may serialize, deserialize and register types at the same time: every read of the shared handler registry excludes every write, every permit or lock taken is given back on every exit, and no user code runs while one is held. The table of basic type handlers is filled only while the first serializer is constructed, under a lock that every construction takes.',
 ['schedules'],'all interleavings of lookups and registrations','Tests register types from one thread before use.',
 [SP+'qabstractprotobufserializer.cpp'],[('writer mutex plus reader permits','qabstractprotobufserializer.cpp HandlersRegistry')],[('handler registry','map from type id to handlers','qabstractprotobufserializer.cpp')])
p('C11','Generated copy, move, assignment and equality cover every field',
 'For every message the generator emits, copying, moving and assigning transfer the value of every declared field of the source to the same field of the target (assignments return the target), and equality is true exactly when all declared fields are equal, inequality being its negation.',
 ['programs','inputs'],'all proto3 schemas (field types, cardinalities, nesting, options) and all field values','Tests compile a fixed set of messages and compare a few of their fields.',
 [GE+'messagedefinitionprinter.cpp',GE+'templates.cpp'],[('per-field emission loops','messagedefinitionprinter.cpp printCopyFunctionality, printMoveSemantic, printComparisonOperators'),('field templates','templates.cpp')])
p('C12','Generated setters store the value and notify exactly on change',
 'For every generated field, the setter makes the getter return the new value, emits that field\'s change signal when the new value differs from the old one, and neither emits nor changes any other field; setting an equal value emits nothing. Constructors store each argument in its own field and give every other field its proto3 default.',
 ['programs','inputs'],'all schemas, fields and values','Tests watch the signals of a few properties.',
 [GE+'templates.cpp',GE+'messagedeclarationprinter.cpp',GE+'messagedefinitionprinter.cpp'],[('setter templates','templates.cpp Setter*'),('constructor initializer lists','messagedefinitionprinter.cpp printInitializationList')])
p('C13','Generated field tables tie each field number to its own property and JSON name',
 'In every generated message the field table has exactly one entry per declared field, whose key is the field number of the .proto file, whose property index designates that field\'s own Qt property, and whose JSON name is the one protoc assigns; enum constants carry their .proto numbers.',
 ['programs'],'all schemas and generator options','Tests check the numbers of a few messages under a few option sets.',
 [GE+'messagedefinitionprinter.cpp',GE+'messagedeclarationprinter.cpp',GE+'templates.cpp'],[('ordering emission','messagedefinitionprinter.cpp printFieldsOrdering'),('property emission order','messagedeclarationprinter.cpp printProperties')])
p('C14','Generated types and registrations match the schema',
 'Every generated field has the C++ type its proto type maps to, and type registration covers every generated message (with its pointer and list types), every enum field type and every map field type, each registered with the serializer pair of exactly that type, so that any generated message can be serialized after registration.',
 ['programs'],'all schemas and generator options','Tests cover a fixed set of messages; an unregistered rare combination only fails when such a field is first serialized.',
 [GE+'generatorcommon.cpp',GE+'messagedefinitionprinter.cpp',GE+'templates.cpp',SP+'qtprotobuf.cpp',SP+'qabstractprotobufserializer.h'],
 [('type maps','generatorcommon.cpp produce*TypeMap'),('registration bodies','messagedefinitionprinter.cpp printRegisterBody, RegistrarTemplate'),('handler registration templates','qabstractprotobufserializer.h qRegisterProtobuf*')])
p('C15','Generated clients call the RPC they are named after',
 'Each generated client method passes its own argument to the RPC with the method name and fully qualified service name of the .proto file, delivers the result to its own return object or callback, and is a stream exactly when the RPC is server-streaming; QML-callable variants reject null or uncallable parameters before using them.',
 ['programs'],'all service definitions and generator options','Tests call a handful of RPCs of one service.',
 [GE+'clientdefinitionprinter.cpp',GE+'clientdeclarationprinter.cpp',GE+'generatorcommon.cpp',GE+'templates.cpp'],[('method templates','templates.cpp ClientMethod*'),('method map','generatorcommon.cpp produceMethodMap')])
p('C16','Qt value types convert to their messages and back without mixing components',
 'For each supported Qt value type, converting to its protobuf message and back returns the same components: every component is stored in one message field and restored from that same field to the same component, none is dropped, swapped or duplicated. List-like types keep every element in order.',
 ['inputs'],'all values of the supported Qt types','Tests convert one or two values per type, several of them with equal or zero components.',
 [SQ+'qtprotobufqttypes.cpp',SQ+'QtProtobuf/QtCore.proto',SQ+'QtProtobuf/QtGui.proto'],[('pairs of conversion functions','qtprotobufqttypes.cpp convert')])
p('C17','Every supported Qt type is registered with its own converters',
 'After registering the Qt types, each documented Qt type (and no other) can be a message field: it is bound to a handler that encodes through that type\'s own conversion and message and decodes through the inverse pair, using the serializer and field it is called with.',
 ['programs'],'all documented Qt types','Each type has to be registered by hand; a missing or crossed row only fails for messages using it.',
 [SQ+'qtprotobufqttypes.cpp',SQ+'qtprotobufqttypes.h',SQ+'QtProtobuf/QtCore.proto',SQ+'QtProtobuf/QtGui.proto'],[('registration list','qtprotobufqttypes.cpp qRegisterProtobufQtTypes'),('handler template','qtprotobufqttypes.cpp registerQtTypeHandler')])
p('C18','No gRPC failure is reported as success or lost',
 'Whenever a call, stream or decoding step of a gRPC client ends with a status other than OK, or no channel or serializer is available, or a required pointer is null, the caller gets a non-OK status (or a null handle) and the client\'s error signal carries it; OK is returned only when the channel reported OK and the response decoded. The status and message the server sent are passed on unchanged.',
 ['fault_sequences','inputs'],'all failure points of calls and streams on both channel implementations','Tests provoke a few failures (server down, one error code).',
 [SG+'qabstractgrpcclient.h',SG+'qabstractgrpcclient.cpp',SG+'qgrpchttp2channel.cpp',SG+'qgrpcchannel.cpp',SG+'qgrpcstatus.cpp'],
 [('status checks and error emission','qabstractgrpcclient.cpp call, stream; qabstractgrpcclient.h call, tryDeserialize, trySerialize'),('reply processing','qgrpchttp2channel.cpp processReply'),('status value type','qgrpcstatus.cpp')])
p('C19','Each asynchronous call ends with exactly one of finished or error',
 'On both channels an asynchronous call delivers its outcome once: on OK the response is stored before the finished signal, otherwise the stored response is cleared before the error signal with the call\'s status, never both. Aborting a call delivers an aborted error, and afterwards no completion of the underlying transfer reaches the reply.',
 ['schedules','fault_sequences'],'all orders of completion, failure, timeout and abort','Tests observe single successful or aborted calls.',
 [SG+'qgrpchttp2channel.cpp',SG+'qgrpcchannel.cpp',SG+'qgrpccallreply.cpp',SG+'qabstractgrpcclient.cpp'],[('completion handlers disconnect themselves and the abort handler','qgrpchttp2channel.cpp call; qgrpcchannel.cpp call'),('abort','qgrpccallreply.cpp')])
p('C20','Client, reply and stream calls from other threads are marshalled to the owner',
 'Calling a client, or aborting a reply or stream, from a thread other than the one it lives in performs the whole operation in the owning thread, waits for it and returns its result; requests are handed to the channel and the list of active streams is used only in the owning thread, and attaching a channel that belongs to another thread is refused.',
 ['schedules'],'all threads and interleavings','Tests call from one other thread and check only the result.',
 [SG+'qabstractgrpcclient.cpp',SG+'qgrpccallreply.cpp',SG+'qgrpcstream.cpp',SG+'qabstractgrpcchannel.cpp'],[('thread comparison and blocking queued invocation','qabstractgrpcclient.cpp call, stream; qgrpccallreply.cpp abort; qgrpcstream.cpp abort')])
p('C21','Response data of asynchronous operations is only touched under its lock',
 'The response bytes of a reply or stream are read and written only while that object\'s lock is held, the lock is released on every exit (exceptions included), and no signal or user callback runs while it is held.',
 ['schedules'],'all interleavings of reading, delivery and destruction','No test races reads against delivery.',
 [SG+'qgrpcasyncoperationbase_p.h',SG+'qgrpcasyncoperationbase.cpp'],[('mutex locker','qgrpcasyncoperationbase_p.h read, setData')],[('response bytes','last received message','qgrpcasyncoperationbase_p.h')])
p('C22','Every transport error maps to the right gRPC status',
 'Every network error the HTTP/2 transport can report has a defined, non-OK gRPC status of the matching kind (unreachable peer, timeout, authentication, not found, not implemented, server error), so that looking one up never fails; status codes have the numeric values of the gRPC specification.',
 ['inputs','fault_sequences'],'all network error codes of the Qt version built against and all gRPC status codes','Tests provoke two or three network errors.',
 [SG+'qgrpchttp2channel.cpp',SG+'qgrpcstatus.h'],[('error to status table','qgrpchttp2channel.cpp StatusCodeMap'),('status enumeration','qgrpcstatus.h')])
p('C23','gRPC message framing is exact for any chunking of the transport',
 'Requests carry the 5-byte prefix (flag 0, big-endian 32-bit payload length) followed by exactly the payload, and go to /service/method. However the transport splits or merges stream data, each message is delivered once, in order, with exactly its payload; no header is parsed before its 5 bytes have arrived, no byte received before the end is dropped and no length, however large, makes the reader misread or spin.',
 ['inputs','schedules'],'all message sizes including empty, all split points','Tests use a local server whose messages arrive whole.',
 [SG+'qgrpchttp2channel.cpp',SG+'qgrpcchannel.cpp'],[('prefix encoding','qgrpchttp2channel.cpp post'),('reassembly loop','qgrpchttp2channel.cpp stream'),('slice concatenation','qgrpcchannel.cpp parseByteBuffer')])
p('C24','Streams are deduplicated, restarted only while alive, and always released',
 'Starting a stream with the method and argument of an active one returns that one and adds the handler; otherwise it is started and listed as active until it finishes. After an error it is restarted only if it has not been finished or released meanwhile; when it finishes, is aborted, or the channel is replaced, it is delisted and receives nothing more, and no list is modified while it is being walked.',
 ['histories','schedules'],'all sequences of start, error, finish, abort, channel change and client destruction','Tests run short single-stream scenarios.',
 [SG+'qabstractgrpcclient.cpp',SG+'qgrpcstream.h',SG+'qgrpcstream.cpp',SG+'qgrpchttp2channel.cpp',SG+'qgrpcchannel.cpp'],[('active stream list','qabstractgrpcclient.cpp stream, attachChannel'),('connection teardown','qgrpchttp2channel.cpp stream; qgrpcchannel.cpp stream')],[('active streams','streams not finished yet','qabstractgrpcclient.cpp')])
p('C25','Credentials reach every request and TLS is never dropped silently',
 'Every HTTP/2 request carries all call credentials of the channel and the channel\'s TLS configuration; a channel for an https URL cannot be built without a TLS configuration and uses exactly that one, and TLS errors abort the request instead of being ignored.',
 ['configurations','inputs'],'all URLs, credential combinations and TLS failures','Tests use one secure and one plain configuration.',
 [SG+'qgrpchttp2channel.cpp',SG+'qgrpccredentials.h',SG+'qgrpcuserpasswordcredentials.h',SG+'qgrpcsslcredentials.h',SG+'qgrpcinsecurecredentials.h'],[('request set-up','qgrpchttp2channel.cpp post'),('scheme check','qgrpchttp2channel.cpp QGrpcHttp2ChannelPrivate ctor'),('credential combinators','qgrpccredentials.h')])
p('C26','Native channel workers never outlive or race the state they use',
 'In the native gRPC channel a worker thread only uses state owned by its call or stream object, records a status on every way out, and is cancelled and joined before that object is destroyed; its results are read only after it has finished.',
 ['schedules'],'all orders of completion, cancellation and destruction','Tests never destroy operations in flight under load.',
 [SG+'qgrpcchannel.cpp',SG+'qgrpcchannel_p.h'],[('cancel and wait in destructors','qgrpcchannel.cpp ~QGrpcChannelStream, ~QGrpcChannelCall'),('finished signal after thread end','qgrpcchannel.cpp constructors')])
p('C27','Serializer and plugin lookups never dereference a missing entry',
 'Asking the serializer registry for an unknown serializer or plugin raises an error or returns an empty answer; it never dereferences a missing entry, never adds one, and loading a missing or already loaded plugin leaves the entries registered before intact and usable.',
 ['inputs','histories'],'all plugin and serializer names, all load histories','Tests ask for names that exist.',
 [SP+'qprotobufserializerregistry.cpp',SP+'qabstractprotobufserializer.cpp'],[('guarded lookups','qprotobufserializerregistry.cpp'),('null loader and plugin checks','qprotobufserializerregistry.cpp loadPlugin*')])
p('C28','Comparing messages with lists and maps is element-wise and null-safe',
 'Comparing repeated or map fields of messages returns true exactly when sizes agree and all corresponding elements (same position, or same key) are equal, and never dereferences a null element or a missing key; embedded message fields that were never set compare equal to default ones.',
 ['inputs'],'all lists and maps, including null elements and different key sets','Tests compare a few equal and unequal lists without nulls.',
 [SP+'qtprotobuftypes.h',SP+'qprotobuflazymessagepointer.h'],[('element comparison','qtprotobuftypes.h repeatedValueCompare'),('lazy pointer comparison','qprotobuflazymessagepointer.h operator==')])
p('C29','Embedded message fields are owned once and never dangle',
 'Reading an embedded message field always yields a valid object, created on first use; replacing, moving or destroying the field frees or releases the old object exactly once, never leaves a reference to an object that was destroyed elsewhere, and never frees an object owned by the QML engine.',
 ['histories'],'all sequences of access, replacement, move, external deletion and destruction','Tests set and read fields; they do not delete field objects from outside or count frees.',
 [SP+'qprotobuflazymessagepointer.h'],[('lazy allocation','qprotobuflazymessagepointer.h operator*, get'),('release on external destruction and on QML ownership','qprotobuflazymessagepointer.h reset, checkAndRelease')])
p('C30','QML streams reject bad set-ups with an error and never use missing objects',
 'A QML stream starts only when enabled with a client, a method and an argument; each failed precondition of starting it is reported through its error signal, leaves it disabled and starts nothing, and a restarted, finished or destroyed stream is aborted and its former return object released exactly once.',
 ['inputs','histories'],'all property orders and values, all lifetimes','QML tests use valid set-ups plus one or two mismatches.',
 [SG+'quick/qquickgrpcstream.cpp',SG+'quick/qquickgrpcstream_p.h'],[('validation chain','qquickgrpcstream.cpp stream'),('restart','qquickgrpcstream.cpp updateStream')])
p('C31','JSON serializer output and input agree',
 'For every message, the JSON written by the JSON serializer parses back to the same message, with the protobuf JSON names and encodings.',
 ['inputs'],'all messages and JSON texts','The JSON tests are not part of this build and sample few values.',
 [SP+'qprotobufjsonserializer.cpp'],[('JSON codec','qprotobufjsonserializer.cpp')])
p('C32','Calls and streams deliver all messages end to end within their deadlines',
 'Over a working connection each call completes before its timeout and each stream delivers every server message, whatever the network latency and load.',
 ['schedules','fault_sequences'],'all network and scheduler behaviours','Tests run against a local idle server.',
 [SG+'qgrpchttp2channel.cpp',SG+'qgrpcchannel.cpp'],[('timeouts and event loop','qgrpchttp2channel.cpp post, call')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
