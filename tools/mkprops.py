#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that edits stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

TY = "src/dbus_type.cpp"
p("C01", "Encoding a value produces exactly the D-Bus wire format",
  "Serialising any value that can be built with the public type classes (basic types, strings, object paths, signatures, variants, structs, dict entries and arrays, nested as the API allows, arrays being non-empty or carrying a declared signature) at any offset of an output stream produces, byte for byte, the D-Bus specification's encoding in native byte order: natural alignment from the start of the stream with zero padding, array lengths that exclude the padding before the first element, and NUL terminators. The signature reported for the value is its D-Bus type signature.",
  ["inputs"], "every value the public constructors and add() overloads can build, at every starting offset",
  "The tests encode a dozen fixed values, almost all at offset 0 and almost all only round-tripped, so a wrong but self-consistent layout passes.",
  ["src/dbus_messageostream.h", "src/dbus_type_*.cpp", TY],
  [("alignment and length rules", "src/dbus_messageostream.h, Array::marshall, Type::getAlignment"), ("signature derivation", "Type::getMarshallingSignature")],
  ["MessageOStream::data after marshall()", "Type::getMarshallingSignature"])
p("C02", "Decoding recovers every valid value in either byte order",
  "For every valid D-Bus signature without file descriptors and every value of it, decoding the specification's encoding of that value, in little- or big-endian order and starting at any offset of the input, yields exactly that value: the same types, leaf values, element order and container shape. Exactly the encoded bytes are consumed, so whatever follows is decoded correctly as well.",
  ["inputs"], "every (signature, value, byte order, offset)",
  "The tests decode a handful of fixed shapes at offset 0; nothing exercises a member that needs padding after a shorter one for most types, and big endian is only tried on single values.",
  ["src/dbus_messageistream.cpp", "src/dbus_messageistream.h", "src/dbus_type_*.cpp", TY],
  [("aligned reads and byte swapping", "MessageIStream::read/align"), ("sub-stream bounding an array", "MessageIStream(MessageIStream&, size_t)")],
  ["Type::asString, Array::getContents, Struct::operator[], Variant::getValue"])
p("C03", "Re-encoding a decoded value reproduces its canonical bytes and signature",
  "Decoding any valid encoded value (either byte order) and serialising the result again gives the canonical native-order encoding of the same value, and the decoded value reports the signature it was decoded with. This includes empty arrays, nested arrays, variants holding containers, and dict entries.",
  ["inputs"], "every valid (signature, value, byte order)",
  "Round trips in the tests start from values built through the API, which cannot express arrays of arrays, variants of containers or empty typed arrays, and cover about fifteen shapes.",
  ["src/dbus_type_array.cpp", "src/dbus_type_struct.cpp", "src/dbus_type_dictentry.cpp", "src/dbus_type_variant.cpp", TY],
  [("stored versus derived signatures", "Array::getSignature, Struct::getSignature, Variant::m_ContainedSignature")],
  ["marshallData output after unmarshallData", "Type::getMarshallingSignature"])
p("C04", "Truncated or over-long encodings are rejected, never half-decoded",
  "Decoding any strict prefix of a valid encoding, or an encoding in which the length of a string, signature or array has been raised beyond the bytes that remain, fails with an exception instead of returning a value. No byte outside the supplied input is ever read.",
  ["inputs"], "every valid encoding, every cut point and every inflated length field",
  "The tests truncate one string and one dict entry at eleven chosen points, without a memory checker.",
  ["src/dbus_messageistream.cpp", "src/dbus_octetbuffer.cpp", "src/dbus_type_*.cpp"],
  [("bounds checks", "OctetBuffer::remove_prefix/copy/operator[], MessageIStream::read")],
  ["exceptions from unmarshall()"])
p("C05", "Hostile bytes are processed or rejected, never a crash or a hang",
  "Whatever bytes a peer sends - as a value of any signature, well-formed or not, or as a message stream cut into any chunks - the library either processes them or reports a standard exception: it never touches memory out of bounds, recurses or loops without bound, or leaves the decoder unusable after a reset. Signatures that are unbalanced, name unknown types, or describe empty elements are covered by this too.",
  ["inputs", "histories"], "all byte strings, all signature strings, all chunkings",
  "Tests feed two oversized headers and one invalid dict key; there is no fuzzing and no sanitizer run.",
  ["src/dbus_messageprotocol.cpp", "src/dbus_message.cpp", TY, "src/dbus_type_*.cpp", "src/dbus_messageistream.cpp"],
  [("bounds-checked buffers", "src/dbus_octetbuffer.cpp"), ("signature splitting", "Type::extractSignature"), ("unsupported type handling", "Type::create/unmarshallData")],
  ["process survival under ASan/UBSan, exceptions, CPU time and memory per case"])
p("C06", "Every outgoing message is a valid D-Bus message with the requested content",
  "Serialising any method call, method return, error or signal with valid names and arguments yields exactly one message that the D-Bus specification accepts: correct byte-order mark, type, flags, protocol version, body length, non-zero serial, 8-aligned header, required header fields with their specified types, and a body matching the signature field. The header fields and arguments a conforming receiver reads are the ones the application supplied; flags that are not supported or not defined are left out, and a message whose argument signature would exceed 255 bytes, or which would exceed the size limits (128 MiB, and 64 MiB for an array), is refused with an exception instead of being emitted.",
  ["inputs"], "all message kinds, names, destinations, flags and argument lists",
  "No test marshalls a message at all.",
  ["src/dbus_message.cpp", "src/dbus_message_methodcall.cpp", "src/dbus_message_methodreturn.cpp", "src/dbus_message_error.cpp", "src/dbus_message_signal.cpp"],
  [("header construction", "Message::Base::marshallMessage"), ("per-type header fields", "MethodCall/MethodReturn/Error/Signal::marshall")],
  ["bytes returned by marshall(), read by libdbus and by an independent parser"])
p("C07", "A message sent by the library is received by it unchanged",
  "Feeding the bytes of any serialised method call, method return, error or signal into a message decoder delivers exactly one message of the same kind whose serial, path, interface, member, destination, reply serial, reply-expected flag, error text and arguments equal those of the message that was sent.",
  ["inputs"], "all messages an application can build",
  "The decoder tests use five captured method returns and one signal, and never a message the library produced.",
  ["src/dbus_message*.cpp", "src/dbus_messageprotocol.cpp"],
  [("symmetry of marshall and the receiving constructors", "src/dbus_message*.cpp")],
  ["handler arguments"])
p("C08", "Valid messages from any implementation are delivered with correct contents",
  "Any valid message - either byte order, header fields in any order, unknown header fields and flag bits present, optional fields absent, any serial and reply serial up to 2^32-1, any argument types except file descriptors, errors with or without a text argument - is delivered to the handler of its type with every accessor returning what the message carries. Accessors for absent header fields return the empty string or zero, a reply is reported as expected exactly when the no-reply flag is clear, and an error's message is its first argument when that is a string and empty otherwise.",
  ["inputs"], "every message the D-Bus specification allows",
  "The tests only check parameter 0 of one captured method return.",
  ["src/dbus_message.cpp", "src/dbus_message.h", "src/dbus_message_error.cpp", "src/dbus_message_methodcall.cpp"],
  [("header field extraction", "Message::Base(header, body)"), ("body decoding", "Message::Base::parseParameters")],
  ["Message accessors inside handlers"])
p("C09", "Message framing is independent of how the byte stream is split",
  "However a stream of valid messages (of mixed kinds, sizes and byte orders) is cut into chunks, the same messages are delivered, each exactly once, in order and with the same contents. Each message is delivered during the call that supplies its last byte, and no supplied byte is left unconsumed.",
  ["inputs", "histories"], "every message sequence and every chunking",
  "One fixed message is fed whole and byte by byte, and one pair of messages in a single chunk.",
  ["src/dbus_messageprotocol.cpp"],
  [("state machine and cache", "MessageProtocol::onReceiveData/processData")],
  ["sequence of handler calls after each chunk"])
p("C10", "A bad message or throwing handler affects only that message",
  "When a complete message has a body that cannot be decoded with its signature, an unknown message type, no handler, or a handler that throws a standard exception, that message alone is dropped: every other message on the stream, before or after it and in any chunking, is still delivered exactly once and in order.",
  ["inputs", "histories", "fault_sequences"], "every placement of bad messages and handler faults in a stream",
  "One test sets a null handler once; undecodable bodies and throwing handlers in mixed, chunked streams are not tried.",
  ["src/dbus_messageprotocol.cpp", "src/dbus_message_error.cpp"],
  [("exception barrier", "MessageProtocol::onBodyComplete")],
  ["sequence of handler calls"])
p("C11", "Oversized messages are refused as soon as their header says so",
  "A message announcing more than 64 MiB of header fields is refused with an exception once its fixed 16-byte header part has been supplied, and one announcing a total size (padded header plus body) above 128 MiB no later than when its header is complete, before any of its body, in either byte order and any chunking. Messages announcing sizes up to and including those limits are not refused.",
  ["inputs"], "all announced header and body sizes, in particular around the limits",
  "Two far-out-of-range vectors are tested; neither the boundary nor big endian nor a split header is.",
  ["src/dbus_messageprotocol.cpp"],
  [("limit checks", "MessageProtocol::getHeaderSize/unmarshallHeader")],
  ["exception from onReceiveData and the chunk that raises it"])
p("C12", "After a protocol error and reset the decoder behaves like a new one",
  "Once the message decoder has rejected input (in any state, with any amount of earlier data buffered or partially decoded) and has been reset, any following stream of valid messages is delivered exactly as by a freshly created decoder. No byte or message from before the reset is reprocessed.",
  ["histories", "fault_sequences"], "every error position, every buffered prefix, repeated resets",
  "The tests check that an exception is thrown and never use the decoder afterwards.",
  ["src/dbus_messageprotocol.cpp", "src/dbus_native.cpp"],
  [("reset", "MessageProtocol::reset/startMessage"), ("error recovery", "Native::onReceiveMessageData")],
  ["sequence of handler calls after reset"])
p("C13", "Message serials are non-zero and unique across threads",
  "Every message created without an explicit serial gets a non-zero serial different from that of every other such message in the process, no matter how many threads create messages at once. When the 32-bit counter wraps around, zero is skipped.",
  ["schedules", "histories"], "all interleavings of message creation, including the wrap-around",
  "No test creates two messages, let alone on several threads or 2^32 of them.",
  ["src/dbus_message.cpp"],
  [("locked counter", "Message::Base::Base(uint32_t)")],
  ["getSerial()"], "a setter for the serial counter, so that the wrap-around is reached without 2^32 constructions")
p("C14", "Every reply reaches exactly the call it answers, exactly once",
  "For every method call sent with a reply expected, the first method return or error carrying its serial invokes that call's success or failure callback, respectively, exactly once with that reply, regardless of the order of replies, how many calls are outstanding, or what other traffic, duplicate replies or replies with unknown serials arrive, and even if the callback throws. Calls flagged as not expecting a reply never get a callback.",
  ["histories", "schedules"], "all interleavings of calls, replies, errors, duplicates and unrelated messages",
  "The connection class has no tests.",
  ["src/dbus_native.cpp", "src/dbus_native.h"],
  [("outstanding call table keyed by serial", "Native::m_MessageQueue, onReceiveMethodReturn/onReceiveError")],
  ["callback invocations"])
p("C15", "Incoming method calls reach exactly the handler registered for them",
  "An incoming method call invokes the handler registered at that moment for its interface and member, once and with that call's contents, and nothing else; calls with no registered handler invoke none. A handler keeps its own state from one invocation to the next. This holds for every history of registrations and removals interleaved with traffic.",
  ["histories"], "all histories of register, unregister and incoming calls",
  "The connection class has no tests.",
  ["src/dbus_native.cpp"],
  [("handler map keyed by interface.member", "Native::m_MethodCallMap, onReceiveMethodCall")],
  ["handler invocations"])
p("C16", "Incoming signals reach every matching subscription and no other",
  "An incoming signal invokes exactly once each currently subscribed match-rule handler whose rule it satisfies and the handler registered for its interface and member, if any, and no other handler. Handlers keep their own state from one invocation to the next. This holds for every history of adding and removing rules and handlers interleaved with traffic, and rules are announced to and withdrawn from the bus as they are added and removed.",
  ["histories"], "all histories of subscribe, unsubscribe, register, unregister and signals",
  "Neither the connection class nor match rules have tests.",
  ["src/dbus_native.cpp", "src/dbus_native_messages.cpp", "src/dbus_matchrule.cpp"],
  [("rule map", "Native::m_RulesMap, callAddMatch/callRemoveMatch, onReceiveSignal"), ("handler map", "Native::m_SignalMap")],
  ["handler invocations", "AddMatch/RemoveMatch calls on the wire"])
p("C17", "Match rules select exactly the signals the D-Bus specification says",
  "A match rule made of any combination of type, sender, interface, member, path or path_namespace, and destination, in any order, matches a signal exactly when every given key equals the signal's value, a type other than signal matching none, path_namespace matching the path itself and everything below it on a path-element boundary, with '/' matching every path. A rule with both path and path_namespace, or with an element that has no '=' or an unterminated quote, is refused with an exception; values may be quoted or not.",
  ["inputs"], "all rules over the supported keys and all signals",
  "There are no match rule tests.",
  ["src/dbus_matchrule.cpp"],
  [("parsing", "MatchRule::MatchRule"), ("matching", "MatchRule::isMatched")],
  ["MatchRule::isMatched"])
p("C18", "Nothing but the handshake is sent before authentication succeeds",
  "A connection sends a NUL byte, then AUTH EXTERNAL with the hex-encoded user id, and sends BEGIN exactly once, only after the server's OK (and, when file-descriptor negotiation was requested, only after NEGOTIATE_UNIX_FD has been sent and agreed to). Application messages sent earlier are held back and follow BEGIN in order; rejections, errors and unknown lines before that never count as success, however the server's lines are split.",
  ["histories", "inputs"], "all server line sequences, all chunkings, both modes, any number of messages queued meanwhile",
  "Authentication has no tests.",
  ["src/dbus_auth.cpp", "src/dbus_transport.cpp", "src/dbus_native.cpp"],
  [("line handling", "AuthenticationProtocol::onReceiveData/processData/onCommand"), ("send gate", "Transport::m_ReadyToSend, onAuthComplete")],
  ["bytes received by the server side of the socket"])
p("C19", "What is sent arrives whole, once and in order",
  "The bytes the peer receives after BEGIN are exactly the application's messages, each complete, contiguous and exactly once, and in sending order for each sending thread. This holds whatever the message sizes, however slowly the peer reads, from any number of threads, and across the moment authentication completes.",
  ["schedules", "inputs"], "all sizes, reader speeds, thread interleavings and authentication timings",
  "The transport has no tests.",
  ["src/dbus_transport.cpp", "src/dbus_transport.h"],
  [("send serialisation", "Transport::sendString/sendStringDirect/onAuthComplete, m_SendMutex")],
  ["bytes received by the server side of the socket"])
p("C20", "No byte is lost or misread where authentication hands over to messages",
  "Messages that follow the server's final handshake line are delivered exactly once and in order wherever the reads happen to split the bytes, including in the middle of the handshake line, in the same read as it, and across any number of later reads. Handshake bytes are never treated as message data or the reverse.",
  ["inputs", "histories"], "all chunkings of handshake plus message stream, both authentication modes",
  "Authentication and the connection class have no tests.",
  ["src/dbus_native.cpp", "src/dbus_auth.cpp", "src/dbus_transport.cpp"],
  [("handover", "Native::onReceiveAuthData")],
  ["handler invocations"])
p("C21", "Connection statistics equal what actually happened",
  "After any history, including sends from several threads, the statistics report exactly how many method calls, method returns, errors and signals were sent and received, how many messages were queued before authentication and later released, how many handshake and message bytes were received, and how many handshake lines and messages, and bytes of them, were passed to the socket.",
  ["histories", "schedules"], "all histories and interleavings of sends and receipts",
  "Statistics have no tests.",
  ["src/dbus_native.cpp", "src/dbus_native.h", "src/dbus_transport.cpp"],
  [("counters", "Native::Stats, Transport::Stats")],
  ["getStats()"])
p("C22", "A connection can be destroyed at any moment without hang, crash or late call",
  "Destroying a connection at any point - before, during or after authentication, with calls outstanding, messages queued or partly written, a peer that floods, stalls or has disconnected - completes without crash, abort or deadlock, and without handling whatever a peer goes on sending meanwhile. No handler or callback runs after destruction has returned.",
  ["crash_points", "schedules", "histories"], "all connection states and interleavings at destruction",
  "No test creates or destroys a connection.",
  ["src/dbus_native.cpp", "src/dbus_transport.cpp"],
  [("detaching handlers", "Native::~Native"), ("socket shutdown and join", "Transport::~Transport")],
  ["process survival under ASan, callback flags"])
p("C23", "Bus addresses are turned into the socket path they name",
  "For every address of the form unix:path=P or unix:abstract=P, with or without a trailing ,guid=G, the socket path is P with its %xx escapes resolved (preceded by a NUL byte for abstract sockets), and a plain path is returned unchanged. Without an address the system bus defaults to its well-known socket and the session bus to an empty path; the environment variables are used in the same way.",
  ["inputs", "configurations"], "all paths and guids",
  "Six fixed addresses are tested; a guid after unix:path= is not.",
  ["src/dbus_platform.cpp"],
  [("prefix and guid stripping", "getPath/getAbstractPath in src/dbus_platform.cpp")],
  ["Platform::getSystemBus/getSessionBus"])
p("C24", "Introspection data is well-formed XML describing exactly the interface",
  "Serialising any introspection description with valid names and type signatures yields well-formed XML with the D-Bus introspection DOCTYPE, listing exactly the given interfaces, each with its methods, its properties and its signals in the order they were added. Every method in/out argument and signal argument is one element whose type attribute is one single complete type, in order, and properties carry their type and access.",
  ["inputs"], "all interfaces, methods, properties, signals and signatures",
  "Introspection has no tests.",
  ["src/dbus_introspectable.cpp", TY],
  [("serialisers", "Introspection/Interface/Method/Property/Signal::serialize"), ("signature splitting", "Type::extractSignature")],
  ["Introspection::serialize, parsed by expat"])
p("C25", "Values are readable at full range through the text and number accessors",
  "For every value, the string accessor returns the exact decimal text of integers and bytes, the exact characters of strings, object paths and signatures (also through a variant), 0 or 1 for booleans, and a text within six significant digits for doubles; the byte and 32-bit accessors return the exact number over the whole unsigned range. The descriptive dump of any value, including of decoded containers, never fails and contains every string and every integer in it; that of a number says its value, in hex too where it gives hex, and that of a boolean says true or false.",
  ["inputs"], "all values of all types, built or decoded",
  "One or two values per type are tested, none above 2^31 for the number accessors.",
  [TY, "src/dbus_type_*.cpp"],
  [("accessors", "Type::asByte/asUint32/asString/toString")],
  ["return values"])
p("C26", "Hex and padding helpers are exact inverses and minimal",
  "Converting any bytes to hex gives two lower-case digits per byte, appended to the target, and converting that (or its upper-case form) back gives the original bytes. The padding helper returns the smallest number of bytes that makes a size a multiple of the alignment, and the alignment tests agree with it.",
  ["inputs"], "all byte strings, sizes and alignments",
  "The helpers have no tests.",
  ["src/dbus_utils.cpp"],
  [("conversions", "Utils::ConvertBinaryToHexString/ConvertHexStringToBinary/getPadding/isAlignedTo")],
  ["return values"])
p("C27", "Buffer and stream primitives behave like a bounds-checked byte sequence",
  "For every sequence of operations, the input buffer and the input stream return exactly the next bytes (after alignment, in the stream's byte order) and a request beyond the remaining bytes fails with an exception without touching memory outside the input. The output stream primitives append exactly the specified padding and bytes.",
  ["histories", "inputs"], "all operation sequences on all inputs",
  "The tests run each primitive on one or two inputs and only check that some exception occurs past the end.",
  ["src/dbus_octetbuffer.cpp", "src/dbus_messageistream.cpp", "src/dbus_messageistream.h", "src/dbus_messageostream.h"],
  [("bounds checks", "OctetBuffer"), ("aligned access", "MessageIStream, MessageOStream")],
  ["return values and exceptions under ASan"])
p("C28", "Bus convenience calls send the request they name",
  "Each message-bus convenience call sends exactly one method call to org.freedesktop.DBus at /org/freedesktop/DBus with the member it is named after, exactly the given arguments with their specified types, and a reply expected except for removing a match; its callbacks are invoked by the matching reply.",
  ["inputs", "histories"], "all convenience calls, names, flags and rules",
  "The convenience calls have no tests.",
  ["src/dbus_native_messages.cpp"],
  [("call construction", "Native::call*")],
  ["messages received by the server side"])
p("C29", "The library interoperates with the reference bus and the reference library",
  "Connected through a real dbus-daemon, messages exchanged in both directions between this library and libdbus, and between two connections of this library, arrive with the same kind, names and argument values, replies and errors reach their callers, subscribed signals arrive, and the daemon never drops the connection as invalid.",
  ["inputs", "histories"], "all argument values and histories of calls, replies, errors and signals",
  "The suite never connects to a bus.",
  ["src/dbus_native.cpp", "src/dbus_auth.cpp", "src/dbus_transport.cpp", "src/dbus_message*.cpp"],
  [("whole stack", "src/")],
  ["messages seen by libdbus and by handlers"])
p("C30", "A connection may be used from several threads at once",
  "Any mix of sending, registering and removing handlers, subscribing, reading statistics, logging and creating messages from several threads, while traffic arrives, is free of data races and deadlocks, and every call still gets its reply. The handlers and callbacks of one connection never run at the same time.",
  ["schedules"], "all interleavings of API calls and incoming traffic",
  "Nothing in the suite is multi-threaded.",
  ["src/dbus_native.cpp", "src/dbus_transport.cpp", "src/dbus_message.cpp", "src/dbus_messageprotocol.cpp"],
  [("mutexes", "Native::m_*Mutex, Transport::m_SendMutex/m_CallbackMutex, Message::Base::m_SerialCounterMutex")],
  ["ThreadSanitizer reports, callback counts"])
p("C31", "Signatures are split into complete types and malformed ones are refused",
  "Splitting any valid signature yields its single complete types, in order and with nothing lost or added. Decoding data with a signature that is unbalanced, truncated, contains an unknown type code, an empty struct, or a dict entry whose key is not basic or which has not exactly two members - or with a variant whose signature is not exactly one complete type - fails with an exception.",
  ["inputs"], "all valid signatures and all single-edit corruptions of them",
  "Only one invalid dict key is tested; signature splitting has no direct test.",
  [TY, "src/dbus_type_dictentry.cpp", "src/dbus_type_struct.cpp", "src/dbus_validation.cpp"],
  [("splitting", "Type::extractSignature"), ("basic type check", "Validation::throwOnInvalidBasicType")],
  ["Type::extractSignature, exceptions from unmarshallData"])
p("C32", "Container nesting is accepted to the D-Bus limit and refused beyond it",
  "Values whose containers (arrays, structs, dict entries, variants) nest up to 64 deep decode normally. Input that nests deeper than the limit, by any mixture of containers and by any amount a message can hold, is refused with an exception without exhausting the stack.",
  ["inputs"], "all nesting depths and mixtures",
  "The deepest value tested has five levels.",
  ["src/dbus_messageistream.h", "src/dbus_type_variant.cpp", "src/dbus_type_array.cpp", "src/dbus_type_struct.cpp", "src/dbus_type_dictentry.cpp"],
  [("nesting limit", "decoding of container types")],
  ["result or exception of decoding"])
p("C33", "Log output is filtered by level and complete",
  "A log message is written, formatted completely and exactly once, precisely when its level is at or above the configured one; a hex dump contains every byte in order. Changing the log level never changes what the library delivers or sends.",
  ["inputs", "configurations"], "all levels, messages and dumps",
  "Logging has no tests.",
  ["src/dbus_log.cpp"],
  [("level filter", "Log::isActive/write/writeHex")],
  ["stderr"])
p("C34", "Handlers may use the connection they were called from",
  "From inside any handler or reply callback the application may send messages and calls, add and remove match rules, and register or remove handlers - including the one currently running - and the connection keeps delivering: the running handler completes, no other message is lost or duplicated, and changes apply to all later messages.",
  ["histories"], "all actions taken inside handlers and callbacks, in all histories",
  "The connection class has no tests.",
  ["src/dbus_native.cpp", "src/dbus_native_messages.cpp"],
  [("recursive locks and handler lookup", "Native::onReceiveMethodCall/onReceiveMethodReturn/onReceiveError/onReceiveSignal")],
  ["handler invocations under ASan"])
p("C35", "A connection survives whatever the bus sends and stays usable",
  "Whatever bytes arrive on a connection, during the handshake or after it, and however they are split, the process survives, no exception leaves the library's thread, and the connection can still be used and destroyed. When a message header is rejected - it cannot be decoded, or announces more than the size limits - the messages completed before it have been delivered, and messages that arrive in later reads are delivered exactly once and in order. After the peer has gone, sending and all other calls still return without an exception. Connecting to an address where nothing listens fails with an exception.",
  ["inputs", "fault_sequences", "histories"], "all byte streams a peer can send, in all pieces, with disconnection at any point",
  "The connection class has no tests.",
  ["src/dbus_native.cpp", "src/dbus_transport.cpp", "src/dbus_auth.cpp", "src/dbus_messageprotocol.cpp"],
  [("recovery", "Native::onReceiveMessageData, MessageProtocol::reset"), ("end of the connection", "Transport::onReceiveData, Transport::onConnect")],
  ["handler invocations and survival under ASan"])
p("C36", "What a connection holds on to is released, and does not grow with traffic",
  "The callbacks of a call are released once its reply has been delivered (or at once if it expects none), handlers and match rules once they are removed, and all of them when the connection is destroyed, but not before. The memory in use does not grow with the number of messages sent and received, also those that were queued before authentication or faster than the peer reads, calls answered, and handlers and rules added and removed again. Connections that are destroyed, or could not be made, leave no open descriptor, thread or memory behind. A connection that has nothing to do uses no processor time, also when the bus is gone or does not read.",
  ["histories"], "all histories of a connection, of any length",
  "The connection class has no tests.",
  ["src/dbus_native.cpp", "src/dbus_native_messages.cpp", "src/dbus_transport.cpp", "src/dbus_messageprotocol.cpp"],
  [("callbacks", "Native::m_MessageQueue, m_MethodCallMap, m_SignalMap, m_RulesMap"), ("buffers", "Transport::m_WriteQueue, MessageProtocol"), ("end", "Transport::~Transport")],
  ["objects held by callbacks, bytes in use, processor time, /proc/self/fd and task"])
p("C37", "Values and messages are independent copies",
  "Values, argument lists and messages are copied by value: altering, decoding again into, or destroying one of them, or the decoder and the memory it was decoded from, never changes what a copy of it, or a container or message it was put into, says. A message may be kept beyond the handler it was delivered to. Serialising a message changes nothing: it yields the same bytes each time.",
  ["inputs", "histories"], "all values and messages, and all sequences of changes",
  "The tests use each value once.",
  [TY, "src/dbus_type_base.h", "src/dbus_message.h", "src/dbus_message.cpp", "src/dbus_messageprotocol.cpp"],
  [("value semantics", "Type::Generic, Type::CompositeBlock, Message::Base")],
  ["values and messages read after the changes"])
p("C38", "Received messages can be sent on unchanged",
  "A message that was received, of any kind, in either byte order, can be serialised again, for the same, another or no destination, in the handler it was delivered to or later: the bytes are a valid message with the same type, serial, known flags, path, interface, member, name of the error, reply serial and arguments, also after going through the library several times. Arguments that are added to it follow those it came with.",
  ["inputs", "histories"], "all valid messages, and any number of times they are sent on",
  "The tests build or parse messages, but never send on what they have parsed.",
  ["src/dbus_message.cpp", "src/dbus_message_methodcall.cpp", "src/dbus_message_methodreturn.cpp", "src/dbus_message_error.cpp", "src/dbus_message_signal.cpp"],
  [("received header", "Message::Base::Base(header, body)"), ("serialisation", "MethodCall::marshall, MethodReturn::marshall, Error::marshall, Signal::marshall")],
  ["the bytes, read by the strict parser"])
p("C39", "Asking for an argument or a type that is not there throws",
  "A handler may ask any message for any argument, and any value for what is in it, as any type: what is there is returned, and asking for an argument beyond the last, a member beyond the end of a structure, an array, structure, variant or signature where there is none, or a number where there is a container or a text that is none, throws an exception, and has no other effect. Describing a value is always possible. When a handler lets the exception go, the messages that follow are still delivered.",
  ["inputs", "histories"], "all messages, arguments and types",
  "The tests ask for what they know to be there.",
  ["src/dbus_message.cpp", "src/dbus_message.h", "src/dbus_type.cpp", "src/dbus_type_struct.h", "src/dbus_messageprotocol.cpp"],
  [("arguments", "MethodCallParameters::getParameter, Struct::operator[]"), ("types", "Type::refArray, refStruct, refVariant, refSignature, asByte, asUint32"), ("handlers that throw", "MessageProtocol::onReceiveData")],
  ["exceptions, the values that are returned, ASan and UBSan"])
p("C40", "Connections, decoders and threads that share nothing are independent",
  "What a connection does depends on its own history alone, however many others there are in the process, whatever state they are in (not authenticated, half way through the handshake or a message, closed by their bus, being destroyed), and in which order they are used: replies, calls and signals reach the callbacks and handlers of the connection they arrive on, also when serials or names are the same, and the statistics count what is its own. The same is true of message decoders whose streams are interleaved, also from handlers, and of threads that encode, decode, describe and match values and messages of their own: each result is what it would be alone, and there is no data race.",
  ["inputs", "schedules", "histories"], "all numbers of connections, decoders and threads, and all interleavings of what they do",
  "The tests use one object at a time.",
  ["src/dbus_native.cpp", "src/dbus_transport.cpp", "src/dbus_auth.cpp", "src/dbus_messageprotocol.cpp", "src/dbus_type.cpp", "src/dbus_message.cpp"],
  [("per-connection state", "Native, Transport, AuthenticationProtocol, MessageProtocol members"), ("shared state", "Message::Base::m_SerialCounter, function-local statics in Type")],
  ["handler invocations, bytes and statistics per connection; results per decoder and thread; ThreadSanitizer"])

p("C41", "Work grows in proportion to what there is to do",
  "Receiving, decoding, encoding, describing, copying and sending take work in proportion to the amount, not to its square: four times as many bytes, array elements, header fields, messages, queued messages, outstanding calls, handlers, rules, interface members or bytes of the handshake take about four times the work, whatever the chunks the bytes arrive in, the byte order, and the order in which calls are answered or handlers removed.",
  ["inputs", "histories"], "all sizes, contents, chunks and orders; decided up to some megabytes and ten thousand messages",
  "The tests are small, and would only become slower.",
  ["src/dbus_messageprotocol.cpp", "src/dbus_type_array.cpp", "src/dbus_type.cpp", "src/dbus_message.cpp", "src/dbus_native.cpp", "src/dbus_transport.cpp", "src/dbus_auth.cpp", "src/dbus_utils.cpp", "src/dbus_introspectable.cpp"],
  [("receiving", "MessageProtocol::onReceiveData, AuthenticationProtocol::onReceiveData"), ("values", "Type::Array, Type::marshallData, Type::unmarshallData"), ("queues and maps", "Transport, Native")],
  ["branches taken in the library, and bytes copied, compared and searched"])

p("C42", "Nothing programs or peers read depends on the process's locale",
  "Whatever std::locale::global or setlocale have put in force - separators between groups of digits, a comma for the decimal point, letters of other alphabets - encodings, decoded values, the text and number accessors, message framing and header fields, the matching of replies to calls, the handshake, hexadecimal text, introspection data, addresses and match rules are what they are in the classic locale. (The descriptive dump and the statistics, which are meant for people, are left open.)",
  ["inputs", "histories"], "all values, messages and histories under locales with any separators, groups and decimal point",
  "The tests run in the classic locale.",
  ["src/dbus_type.cpp", "src/dbus_type_int32.cpp", "src/dbus_type_uint32.cpp", "src/dbus_type_double.cpp", "src/dbus_message.cpp", "src/dbus_messageprotocol.cpp", "src/dbus_utils.cpp", "src/dbus_auth.cpp"],
  [("text of numbers", "Type::*::asString"), ("numbers, body sizes and serials", "Type::asByte, Type::asUint32"), ("hexadecimal text", "Utils::ConvertBinaryToHexString, Utils::ConvertHexStringToBinary")],
  ["results under a generated locale against those in the classic one, and against the reference model"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
