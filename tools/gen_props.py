#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Decoding never touches memory outside the received message",
  "Whatever bytes a peer sends, of whatever length, no decoder (primitive reads, strings, encapsulation frames, common packets, paths, explicit replies, connection-open replies, I/O datagrams, discovery replies, file transfers, parameter and fault objects) reads or writes outside the bytes it was given or outside a buffer it allocated. No buffer size, range or index is computed by an arithmetic step that can wrap below zero or above its type.",
  ["inputs"], "every byte sequence of every length handed to any decoder, and every order of reads on the decoding buffer",
  "The tests decode a few well-formed messages; an over-read of a vector by a byte passes unnoticed without a sanitizer, and no test varies the length of a reply.",
  ["src/utils/Buffer.cpp", "src/utils/Buffer.h", "src/eip/EncapsPacket.cpp", "src/eip/CommonPacket.cpp", "src/cip/MessageRouterResponse.cpp", "src/cip/EPath.cpp", "src/MessageRouter.cpp", "src/ConnectionManager.cpp", "src/IOConnection.cpp", "src/DiscoveryManager.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp"],
  [("bounds guard of the decoding buffer", "src/utils/Buffer.cpp operator>>"), ("explicit size checks of decoders", "src/eip, src/cip")],
  ["Buffer::operator>>", "every decoder entry point"], [("_position", "read cursor; one past the size marks an over-read", "src/utils/Buffer.h")])

p("C02", "A truncated message is reported, never turned into values",
  "If a reply is shorter than the fields it has to contain, the operation that decodes it throws std::runtime_error (identity, parameter, fault, file object and connection-open replies, common packets, explicit replies, paths); it never returns or stores values made up from missing bytes. A truncated discovery reply or I/O datagram produces no device entry and no data callback.",
  ["inputs"], "every prefix of every reply the library decodes",
  "The tests only feed complete replies for most decoders, so a missing or ineffective completeness check is invisible to them.",
  ["src/IdentityObject.cpp", "src/ParameterObject.cpp", "src/ParameterObject.h", "src/vendor/ra/powerFlex525/DPIFaultObject.cpp", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/fileObject/FileObjectState.cpp", "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/cip/connectionManager/ForwardOpenResponse.cpp", "src/DiscoveryManager.cpp", "src/IOConnection.cpp", "src/ConnectionManager.cpp"],
  [("validity test of the decoding buffer after the reads", "each decoder"), ("sticky invalid state of the buffer", "src/utils/Buffer.cpp")])

p("C03", "CIP primitives are encoded little-endian, at exact width, and decode back",
  "Encoding a CIP value appends exactly its width in little-endian byte order (integers of 8 to 64 bits, signed or not, floats and doubles by their bit pattern, byte and word arrays element by element, revisions major then minor, strings as length then characters, socket addresses as big-endian family, port, address and 8 zero bytes) and nothing else. Decoding the same bytes gives the original value and advances by exactly that many bytes, whatever was in the buffer before or after.",
  ["inputs"], "every value of every supported type, at any position in a buffer",
  "The tests encode one sample value per type; a lost byte, a sign extension or a swapped byte shows only for other values.",
  ["src/utils/Buffer.cpp", "src/utils/Buffer.h", "src/cip/CipString.h", "src/cip/CipRevision.cpp"],
  [("encoders", "src/utils/Buffer.cpp operator<<"), ("decoders", "src/utils/Buffer.cpp operator>>")])

p("C04", "Encapsulation frames carry the right header and exact length",
  "Every encapsulation frame sent is command, data length, session handle, status, 8 context bytes, options (24 bytes, little-endian) followed by exactly the data, the length field always equals the number of data bytes, and data too long for the length field is refused with an exception rather than truncated. Decoding accepts a frame only if it has a full header and exactly the announced number of data bytes, takes each field from its own place, and otherwise throws std::runtime_error. Two frames compare equal exactly when all their fields and their data are equal. Session registration, unregistration, request/reply and list-identity frames have the command, handle and body that EtherNet/IP defines for them.",
  ["inputs"], "all commands, handles, status codes and payloads of any length; all byte sequences offered as frames",
  "The tests pack and expand one small frame; lengths that disagree or exceed 16 bits are not covered.",
  ["src/eip/EncapsPacket.cpp", "src/eip/EncapsPacketFactory.cpp"],
  [("frame encoder and decoder", "src/eip/EncapsPacket.cpp"), ("frame factories", "src/eip/EncapsPacketFactory.cpp")])

p("C05", "Common packets carry every item, in order, with exact lengths",
  "A packed common packet is the 16-bit item count followed by, for each item in insertion order, its type, its exact data length and its data, and an item whose data cannot be described by the length field is refused with an exception. Decoding yields exactly the items the bytes contain, in order, replaces what was there before, and throws std::runtime_error when an item runs past the end. Two items compare equal exactly when their types and data are equal. The address, data and sequenced-address items that the factory builds have the type and content the specification defines.",
  ["inputs"], "any sequence of items of any size; any byte sequence offered as a common packet",
  "Tests pack and expand one or two small items; loops over an arbitrary number of items and length limits are not exercised.",
  ["src/eip/CommonPacket.cpp", "src/eip/CommonPacketItem.cpp", "src/eip/CommonPacketItemFactory.cpp"],
  [("packet encoder/decoder", "src/eip/CommonPacket.cpp"), ("item encoder", "src/eip/CommonPacketItem.cpp")])

p("C06", "Object paths keep every id and declare their true length",
  "The encoded path of an object address consists of exactly the class, instance and attribute segments the address was built with, in that order, each carrying its full id in the segment format selected, and the declared size in 16-bit words always equals the encoded length; an id that does not fit the selected format is refused with an exception instead of being truncated. Decoding an encoded path gives back the same address, and malformed or incomplete paths throw std::runtime_error.",
  ["inputs", "configurations"], "all class/instance/attribute ids, all path depths including the empty path, both segment formats, the generic and the Yaskawa variant",
  "Tests use small non-zero ids; ids above 255 in 8-bit segments, zero instances and empty paths are never compared.",
  ["src/cip/EPath.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp"],
  [("path encoder/decoder", "src/cip/EPath.cpp"), ("vendor path encoder/decoder", "src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp")])

p("C07", "Explicit requests put service, path and data on the wire exactly once",
  "Each explicit request sends exactly one request/reply frame with the session's handle, whose body is interface handle 0, timeout 0 and a common packet made of a null address item, one unconnected-data item holding service code, path size, path and request data in that order, then the caller's additional items unchanged and in order. All overloads and the Yaskawa variant behave alike, and the configured segment format is the one used.",
  ["inputs", "configurations"], "all services, paths, data, numbers of additional items, both segment formats, all overloads",
  "Tests check one request against a mock; additional items, other overloads and formats are not covered.",
  ["src/MessageRouter.cpp", "src/cip/MessageRouterRequest.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.cpp"],
  [("request assembly", "src/MessageRouter.cpp sendRequest"), ("request encoder", "src/cip/MessageRouterRequest.cpp")])

p("C08", "Explicit replies are decoded field by field and in full",
  "The response returned for an explicit request holds the service code, general status, every additional status word and all remaining data bytes of the unconnected-data item the peer sent, plus every further common-packet item in order. A reply too short for its header, with fewer than two items, or with an additional-status count that exceeds its data throws std::runtime_error.",
  ["inputs"], "all reply byte sequences, all counts of additional status words and items",
  "Tests decode one reply; the additional-status boundary and replies with extra or missing items are not covered.",
  ["src/cip/MessageRouterResponse.cpp", "src/MessageRouter.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp"],
  [("response decoder", "src/cip/MessageRouterResponse.cpp expand"), ("reply unwrapping", "src/MessageRouter.cpp sendRequest")])

p("C09", "A session registers once, unregisters once, and returns only its own replies",
  "Creating a session connects, sends one register frame and adopts the handle of a successful reply, otherwise it throws; destroying it sends one unregister frame with that handle. Each exchange sends exactly the given frame, reads one 24-byte header and then exactly the announced number of bytes, and returns the decoded frame only if its status is success and its handle is the session's; every other outcome throws.",
  ["inputs", "fault_sequences", "histories"], "all replies (any status, handle, length), short reads, and socket failures at every step",
  "Session code needs a live peer and has no tests at all.",
  ["src/SessionInfo.cpp", "src/sockets/TCPSocket.cpp"],
  [("registration and exchange", "src/SessionInfo.cpp")],
  ["SessionInfo constructor, destructor, sendAndReceive"], [("_sessionHandle", "handle adopted at registration", "src/SessionInfo.h")])

p("C10", "A failing CIP status is never treated as success",
  "When a peer answers a request with a general status other than success, no data of that reply is decoded into an object, no object is created or changed from it, and the caller learns of it: object constructors and updates, file state reads and fault commands throw, connection-open returns an empty handle and registers nothing, and file uploads report the status to their callback. Connection-close removes the connection anyway.",
  ["inputs", "fault_sequences"], "every general status code at every request of every multi-request operation",
  "Tests inject an error status at the first request of some operations only.",
  ["src/IdentityObject.cpp", "src/ParameterObject.cpp", "src/vendor/ra/powerFlex525/DPIFaultObject.cpp", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/vendor/ra/powerFlex525/DPIFaultManager.cpp", "src/fileObject/FileObjectState.cpp", "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/ConnectionManager.cpp"],
  [("status test before decoding", "each client of MessageRouter::sendRequest")])

p("C11", "A failed socket operation always surfaces as an exception",
  "Every failure reported by the operating system while creating, configuring, connecting, binding, sending on, receiving from or waiting on a socket raises std::system_error carrying the code of that failure; an interrupted wait or receive is retried instead, and a connect that does not complete in time raises a timeout. A send that did not take all bytes, or failed outright, is never reported as done, and a receive returns exactly the bytes that arrived.",
  ["fault_sequences", "inputs"], "each system call made by the socket classes failing, being interrupted or being partial, on every path",
  "The socket classes have no tests: faults of system calls are never injected.",
  ["src/sockets/TCPSocket.cpp", "src/sockets/UDPSocket.cpp", "src/sockets/UDPBoundSocket.cpp", "src/sockets/BaseSocket.cpp", "src/DiscoveryManager.cpp", "src/sockets/EndPoint.cpp"],
  [("result tests after each system call", "src/sockets")])

p("C12", "Every socket is closed exactly once and never duplicated",
  "Each descriptor a socket object obtains is closed exactly once: by the destructor when construction succeeded, by the failing constructor otherwise, also when an exception is thrown at any point in between. No operation closes or shuts down a descriptor it does not own, and objects owning a descriptor, a session or live connections cannot be copied.",
  ["fault_sequences", "programs", "histories"], "every failing step of every socket constructor; every program using the public classes",
  "Descriptor leaks and double closes do not change any value a test looks at, and copying is simply not attempted by tests.",
  ["src/sockets/BaseSocket.h", "src/sockets/TCPSocket.cpp", "src/sockets/UDPSocket.cpp", "src/sockets/UDPBoundSocket.cpp", "src/SessionInfo.h", "src/ConnectionManager.h"],
  [("destructors and constructor clean-up", "src/sockets"), ("non-copyable socket base", "src/sockets/BaseSocket.h")])

p("C13", "Destroying library objects never throws or terminates the program",
  "No destructor of the library lets an exception escape, whatever state the object, the peer or the network is in: in particular sessions whose connection is lost, log messages of any level with any appender (even a missing or throwing one), sockets and file-object states can all be destroyed safely, also during stack unwinding.",
  ["fault_sequences", "histories"], "every destructor with every call it makes failing",
  "Tests never destroy an object whose clean-up fails; an escape terminates the process only in production.",
  ["src/SessionInfo.cpp", "src/utils/Logger.cpp", "src/sockets/TCPSocket.cpp", "src/sockets/UDPSocket.cpp", "src/fileObject/FileObjectState.cpp"],
  [("guarded clean-up calls", "destructors")])

p("C14", "Bad peer data surfaces only as std::runtime_error",
  "Decoding anything a peer sends, and every public operation that waits for a reply, either completes or throws std::runtime_error or a class derived from it (such as std::system_error); no logic_error, out_of_range, length_error, bad_alloc, bad_function_call, assertion or termination is provoked by peer data.",
  ["inputs", "fault_sequences"], "every reply to every operation",
  "Tests check only that selected malformed inputs throw something.",
  ["src/MessageRouter.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp", "src/ConnectionManager.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/eip/CommonPacket.cpp", "src/DiscoveryManager.cpp"],
  [("explicit checks before container access", "decoders")])

p("C15", "Open I/O connections are tracked by full id and served exactly as long as open",
  "A successfully opened connection is registered under the full 32-bit target-to-originator id the target returned, and incoming datagrams are delivered to that connection only; datagrams for unknown ids are delivered to nobody. A connection stays registered until it is closed or times out, then it is removed, receives nothing any more, and its close listener has been called exactly once if it timed out and never if the caller closed it. The manager reports open connections exactly while some are registered, and closing a connection that is already gone is harmless.",
  ["histories", "inputs"], "all ids, all sequences of open, receive, tick, close",
  "The connection manager has no tests.",
  ["src/ConnectionManager.cpp", "src/ConnectionManager.h", "src/IOConnection.cpp"],
  [("connection registry", "src/ConnectionManager.cpp"), ("tick and close notification", "src/IOConnection.cpp notifyTick")],
  ["handleConnections, forwardOpen, forwardClose"], [("_connectionMap", "open connections by id", "src/ConnectionManager.h")])

p("C16", "Connection open and close requests carry the caller's parameters faithfully",
  "Forward Open and Large Forward Open requests contain every connection parameter in its specified position and width, with the path length in words matching the path, sizes enlarged only by the sequence-count and run/idle-header overhead the connection uses, a fresh serial number for every open, and fresh ids in the directions the originator has to choose. The close request identifies the same connection: same serial number, vendor id, originator serial number and path as its open. A value that does not fit its field is refused with an exception.",
  ["inputs", "histories", "configurations"], "all connection parameters, both open services, repeated opens",
  "There are no tests of the open and close requests.",
  ["src/ConnectionManager.cpp", "src/cip/connectionManager/ForwardOpenRequest.cpp", "src/cip/connectionManager/LargeForwardOpenRequest.cpp", "src/cip/connectionManager/ForwardCloseRequest.cpp", "src/cip/connectionManager/ForwardOpenResponse.cpp"],
  [("request encoders", "src/cip/connectionManager"), ("parameter preparation", "src/ConnectionManager.cpp forwardOpen")])

p("C17", "Produced I/O data is framed correctly and sent only when due",
  "When the originator-to-target packet interval granted by the target has elapsed, the connection asks the send listener for data once and sends one datagram to its target: a sequenced-address item with the originator-to-target id and a sequence number incremented by one, then a connected-data item with the class 1/3 sequence count (also incremented by one), the run/idle header if configured, and exactly the output data. When the interval has not elapsed, or the connection has fixed size and the data differs from it, nothing is sent.",
  ["inputs", "histories", "configurations"], "all connection settings, output data sizes and elapsed times",
  "I/O connections have no tests.",
  ["src/IOConnection.cpp"], [("production", "src/IOConnection.cpp notifyTick")])

p("C18", "Consumed I/O data reaches the listener stripped of its headers, unaltered",
  "For every datagram of an open connection the receive listener is called exactly once with the run/idle header (0 if not configured), the class 1/3 sequence count (0 if not used) and exactly the remaining bytes, where the sequence count precedes the run/idle header as it does in produced data. Data of the wrong length on a fixed-size connection, and data too short for its headers, is dropped without calling the listener and without feeding the watchdog.",
  ["inputs", "configurations"], "all payloads, header configurations and sizes",
  "I/O connections have no tests.",
  ["src/IOConnection.cpp", "src/ConnectionManager.cpp"], [("consumption", "src/IOConnection.cpp notifyReceiveData"), ("datagram dispatch", "src/ConnectionManager.cpp findOrCreateSocket")])

p("C19", "The watchdog closes a connection after exactly the negotiated silence",
  "An open connection is closed by timeout if and only if the time since data was last accepted exceeds (4 shifted left by the requested timeout multiplier) times the target-to-originator packet interval granted by the target; the computation neither truncates nor overflows for any multiplier and interval. Accepting data restarts the measurement, dropped data does not, and a timed-out connection neither sends nor stays registered.",
  ["inputs", "histories"], "all multipliers 0..7, all 32-bit intervals, all sequences of ticks and datagrams",
  "Nothing tests the watchdog, and large multipliers or intervals would take minutes of real time to test.",
  ["src/IOConnection.cpp", "src/IOConnection.h", "src/ConnectionManager.cpp"], [("watchdog", "src/IOConnection.cpp notifyTick"), ("multiplier set-up", "src/ConnectionManager.cpp forwardOpen")])

p("C20", "Listeners may call back into the library",
  "While any listener runs (receive, send, close, upload-finished, new-fault, begin-receive) it may open, close or handle connections, start or continue uploads, or replace listeners and data: the library never calls a listener while it iterates over, or holds a reference into, a container that the listener can change through the public interface, and never uses an object that the call may have destroyed.",
  ["programs", "histories"], "every program whose listeners use the public interface",
  "Tests use passive listeners; a reentrant one corrupts memory only in an unlucky layout.",
  ["src/ConnectionManager.cpp", "src/IOConnection.cpp", "src/fileObject/FileObjectState.h", "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/sockets/BaseSocket.cpp"],
  [("snapshots and owning handles around listener calls", "src/ConnectionManager.cpp")])

p("C21", "A stray or malformed datagram cannot stop I/O handling",
  "A datagram that is malformed, truncated, has too few items or belongs to no open connection is discarded: handling connections does not throw because of it, the remaining sockets and connections are still served in the same call, and no connection state changes.",
  ["inputs", "fault_sequences"], "every datagram arriving on the I/O port, interleaved with any number of healthy connections",
  "There are no tests of the datagram path.",
  ["src/ConnectionManager.cpp", "src/IOConnection.cpp"], [("datagram handler", "src/ConnectionManager.cpp findOrCreateSocket")])

p("C22", "Waiting for I/O events ends in time and serves exactly the ready sockets",
  "One wait over a set of sockets calls the begin-receive listener of exactly the sockets that are readable, and returns within a bounded number of rounds (at most 16) after the requested timeout has passed, however much traffic keeps arriving; an interrupted wait continues. An empty set of sockets, or a descriptor the wait mechanism cannot represent, never leads to undefined behaviour.",
  ["inputs", "schedules", "fault_sequences"], "any set of sockets, any timeout, any pattern of readiness, interruptions and floods",
  "The wait has no tests; floods, interruptions and empty sets need a hostile environment.",
  ["src/sockets/BaseSocket.cpp"], [("event wait", "src/sockets/BaseSocket.cpp select")])

p("C23", "A file upload finishes exactly once, with the complete file or an error",
  "An upload requests transfers with consecutive numbers starting at 0 and calls its completion handler exactly once: with success and the concatenation of all transferred parts in order if their total equals the announced file size, otherwise with an error status and no content. Stepping the upload returns true while more steps are needed and false once the handler has been called, and a wrong transfer number, a failing status or a size mismatch ends the upload with an error.",
  ["inputs", "histories", "fault_sequences"], "all files, transfer sizes, part sequences and errors at every step",
  "Tests cover a two-part upload and selected errors only.",
  ["src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/fileObject/FileObjectState.h", "src/FileObject.cpp"],
  [("upload steps", "src/fileObject/FileObjectUploadInProgressState.cpp transfer"), ("upload start", "src/fileObject/FileObjectLoadedState.cpp initiateUpload")])

p("C24", "The file object mirrors the state the device reports",
  "After synchronising, the file object is in the state that corresponds to the state code read from the device (a running upload counts as a loaded file to be uploaded again), and an unknown or unsupported code throws. Only a loaded file starts an upload, which asks for the file of that very instance with the maximum transfer size; in every other state starting or stepping an upload contacts nobody, changes nothing and reports no progress.",
  ["inputs", "histories"], "all 256 state codes and all calls in every state",
  "Tests exercise the loaded and uploading states only.",
  ["src/fileObject/FileObjectState.cpp", "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectEmptyState.cpp", "src/fileObject/FileObjectNonExistentState.cpp", "src/FileObject.cpp"],
  [("state mapping", "src/fileObject/FileObjectState.cpp SyncState")])

p("C25", "Parameter objects hold what the device reported, attribute by attribute",
  "A parameter object read from a device has value, minimum, maximum and default of the reported data size, type, descriptor flags, name, units, help, precision and the scaling multiplier, divisor, base and offset each taken from its own place in the replies, requested from the right class, instance and attributes. Updating re-reads only the value, and typed access returns the little-endian value of the stored bytes or throws when they are too few.",
  ["inputs"], "all device replies, data sizes, descriptor flags and attribute contents",
  "Tests decode a handful of recorded replies.",
  ["src/ParameterObject.cpp", "src/ParameterObject.h"], [("attribute decoding", "src/ParameterObject.cpp")])

p("C26", "Engineering-unit conversion follows the CIP scaling formula and its inverse",
  "For a scalable parameter the engineering value is ((actual + offset) * multiplier * base) / (divisor * 10^precision) computed in floating point without intermediate integer overflow, and the conversion back is its algebraic inverse; for a non-scalable parameter both are the identity. Each typed engineering getter and setter applies that conversion to the attribute it is named after.",
  ["inputs"], "all values and all scaling attributes",
  "Tests check single numeric examples, in which many different formulas agree.",
  ["src/ParameterObject.cpp", "src/ParameterObject.h"], [("conversion", "src/ParameterObject.cpp actualToEngValue, engToActualValue")])

p("C27", "Drive faults are each reported once, from the right parameters, then cleared",
  "Handling faults reads the fault queue in order from entry 1 and stops at the first empty entry or after ten, reading each entry's code and, if requested, its bus voltage, current and frequency from the parameters the drive documents for that entry, and calls the fault listener exactly once per fault with those values and the text of that code. The queue-clear command is sent once afterwards if and only if clearing is enabled and a fault was read, and commands are written to the fault manager's command attribute.",
  ["inputs", "histories", "configurations"], "all queue contents and lengths 0..10, all settings",
  "Tests read one or two entries of the queue.",
  ["src/vendor/ra/powerFlex525/DPIFaultManager.cpp", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/vendor/ra/powerFlex525/DPIFaultObject.cpp", "src/vendor/ra/powerFlex525/DPIFaultCode.cpp"],
  [("fault loop", "src/vendor/ra/powerFlex525/DPIFaultManager.cpp"), ("parameter table", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp")])

p("C28", "Log messages pass exactly when their level is enabled",
  "A log message is handed to the appender exactly once, with its level and its complete text, if logging is not off and its level is at or below the configured one, and not at all otherwise. The console appender prints a message of any level without failing.",
  ["inputs", "configurations"], "all message levels, all configured levels, all appenders",
  "Logging has no tests.",
  ["src/utils/Logger.cpp", "src/utils/Logger.h"], [("level filter", "src/utils/Logger.cpp")])

p("C29", "End points compare consistently and convert without loss",
  "An end point built from host and port holds that host and port and the matching IPv4 socket address in network byte order, and one built from a socket address reports its dotted host and port. Equality means equal host, port and address, ordering is a strict weak ordering in which two end points are equivalent only if host and port are equal, and text form is host:port.",
  ["inputs"], "all hosts and ports, all pairs and triples of end points",
  "Tests compare a few end points; ordering laws quantify over pairs and triples.",
  ["src/sockets/EndPoint.cpp"], [("comparison operators", "src/sockets/EndPoint.cpp")])

p("C30", "Network connection parameters keep each field in its own bits",
  "Building network connection parameters puts owner, connection type, priority, size type and size into the bit positions defined for the standard and the large format, setting one field never disturbs another, setting it again replaces it, setters can be chained, and each getter returns what was set or what a given raw value contains.",
  ["inputs", "histories", "configurations"], "all field values, both formats, any order of setter calls",
  "There are no tests of the builder.",
  ["src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp"], [("bit fields", "src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp")])

p("C31", "No value is used before it is set",
  "Every constructor of a library class leaves each scalar member it owns defined, and no function reads a local variable, member or out-parameter on a path on which it has not been assigned.",
  ["inputs", "histories"], "all constructors and all paths through all functions of the library",
  "Reading an indeterminate value usually looks right in a test run.",
  ["src"], [("member initialisers and assignments before use", "all of src")])

p("C32", "Discovery and identity reads report each device exactly as it answered",
  "Discovery broadcasts one list-identity request and, until the receive timeout, adds for every identity item received one device with exactly the vendor, type, product code, revision, status, serial number, product name and socket address of that item, in order of arrival; a malformed reply is skipped and does not lose other devices, and errors other than the timeout are reported. Reading an identity object asks the device for all attributes of the identity class and stores each attribute from its own place.",
  ["inputs", "fault_sequences"], "any number of replies in any order, well-formed or not, any attribute contents",
  "Tests replay two fixed replies.",
  ["src/DiscoveryManager.cpp", "src/IdentityObject.cpp"], [("reply loop", "src/DiscoveryManager.cpp discover"), ("attribute decoding", "src/IdentityObject.cpp")])

p("C33", "I/O data is produced at the negotiated packet rate in real time",
  "While connections are handled, each connection produces data at its granted packet interval in real time, with bounded jitter.",
  ["schedules"], "all machine loads and all patterns of calls",
  "Depends on scheduler and clock, which tests cannot bound.",
  ["src/IOConnection.cpp", "src/ConnectionManager.cpp"], [("timers", "src/IOConnection.cpp notifyTick")])

p("C34", "Engineering values survive a round trip numerically",
  "Converting an actual value to engineering units and back yields the same integer for every value and scaling.",
  ["inputs"], "all values and scaling attributes", "Tests check single numeric examples.",
  ["src/ParameterObject.cpp"], [("conversion", "src/ParameterObject.cpp")])

p("C35", "Connection ids do not collide with those of an earlier run of the program",
  "Ids chosen for connections after a restart differ from those a target may still hold from the previous run.",
  ["histories", "crash_points"], "all pairs of program runs", "Depends on random numbers of different processes.",
  ["src/ConnectionManager.cpp"], [("incarnation id", "src/ConnectionManager.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
