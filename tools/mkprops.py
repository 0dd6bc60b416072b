#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01","Frame round trip preserves header and body",
 "For every message whose terminal number has at most 12 digits and whose body is at most 1023 bytes, encoding it to a frame and decoding that frame succeeds and gives back the same message id, terminal number, serial number, packet total and packet number, property flags and body. This includes bodies, headers and checksums that contain the bytes 0x7e and 0x7d, and the terminal number 0.",
 ["inputs"],"every header field value and every body content",
 "The suite never calls the message-level encode or decode: it round-trips one hand-written body per type, so no framing, escaping, checksum or header value is exercised at all.",
 ["protocol/message.go","protocol/header.go","protocol/property.go","protocol/helpers.go"],
 [("Message.Encode/Decode","protocol/message.go"),("Header.Encode/Decode","protocol/header.go"),("stringToBCD/bcdToString","protocol/helpers.go")],
 observe=["Message.Encode result fed to Message.Decode"])
prop("C02","Encoded frames are delimited, escaped and checksummed correctly",
 "Every encoded frame starts and ends with 0x7e, contains no 0x7e in between, and every 0x7d in it is followed by 0x01 or 0x02. After unescaping, the last byte is the XOR of all preceding bytes, the header length field equals the number of body bytes that follow the header, and header fields appear big-endian in the order id, property, BCD terminal number, serial number, then packet total and packet number when the message is split.",
 ["inputs"],"every header field value and every body content",
 "No test encodes a frame; escape and checksum bugs only show for particular byte values and positions (for instance a checksum that itself needs escaping).",
 ["protocol/message.go","protocol/header.go","protocol/property.go"],
 [("Message.Encode, write, computeChecksum","protocol/message.go"),("Property.SetBodySize","protocol/property.go")],
 observe=["bytes returned by Message.Encode"])
prop("C03","Malformed or corrupted frames are rejected, accepted ones are read exactly",
 "Decoding a byte string succeeds only if it is delimited by 0x7e, uses only legal escapes, has a header of the right size (12 bytes, 16 when split) with decimal terminal-number digits, and its checksum byte equals the XOR of the unescaped content. When it succeeds the header fields are exactly the big-endian values in the frame, and the body is present only if its length agrees with the header's length field.",
 ["inputs"],"every byte string up to the bound, so every corruption of a frame",
 "No test decodes a frame; rejecting all corruptions is a for-all over byte strings.",
 ["protocol/message.go","protocol/header.go"],
 [("Message.Decode checks","protocol/message.go"),("Header.Decode","protocol/header.go")],
 observe=["error / header returned by Message.Decode"])
prop("C04","Decoding hostile bytes never panics",
 "For every byte string, decoding it as a frame, as the body of any registered message type, or as a location extra returns a value or an error and never panics. The receive loop runs in a goroutine without recovery, so a panic there would kill the whole server.",
 ["inputs"],"every byte string up to the bound, for every registered message type and extra type",
 "The suite only decodes well-formed bytes it has just produced; crashes need truncated, inconsistent or odd input.",
 ["protocol/message.go","protocol/header.go","protocol/register.go","protocol/bufio.go","protocol/t808_0x*.go","protocol/extra/*.go"],
 [("length checks in every Decode","protocol/t808_0x*.go"),("Reader bounds checks","protocol/bufio.go"),("extra.Decode","protocol/extra/extra.go")],
 observe=["panics out of Message.Decode, Entity.Decode, extra.Decode"])
prop("C05","Received messages do not depend on how the stream is chunked",
 "However the bytes of a sequence of frames are split across reads, the codec delivers each frame's message exactly once, in order, with the same content, and a message already delivered is not altered by bytes received later. A stream that does not start with 0x7e at a frame boundary is reported as an error, after which the frames that follow are still received, and a stream that ends inside a frame reports the read error and delivers nothing for it.",
 ["inputs","schedules"],"every segmentation of the byte stream into reads and every frame content within the bound",
 "No test touches the codec; chunk boundaries that fall inside an escape, at a delimiter, or join two frames are combinatorial.",
 ["protocol.go"],[("ProtocolCodec.Receive / readFromBuffer","protocol.go")],
 state=[("bufferReceiving","bytes received and not yet consumed as frames","protocol.go")],
 observe=["messages returned by successive Receive calls over a reader with arbitrary read sizes"])
prop("C06","Oversized bodies are refused and unterminated input is cut off",
 "Encoding a message whose body is longer than 1023 bytes fails with an error; no frame whose length field differs from its body length is ever emitted. A peer that sends data without ever completing a frame gets a receive error once more than 65535 bytes are buffered, so buffering per connection is bounded.",
 ["inputs","histories"],"every body length and every amount of buffered data",
 "No test encodes a frame or receives from a stream; length wrap-around needs bodies of particular sizes.",
 ["protocol/message.go","protocol/property.go","protocol.go"],
 [("Property.SetBodySize","protocol/property.go"),("Message.Encode length handling","protocol/message.go"),("bufferReceiving limit","protocol.go")],
 observe=["error from Message.Encode; error from Receive"])
prop("C07","Terminal-to-platform message bodies round trip",
 "For every terminal message type (general reply, register, authenticate, parameter and property replies, upgrade result, event, answer, info request, driving record, waybill, driver identity, batch location, CAN data, media event, media data, media search reply, photo reply, pass-through, compressed report, RSA key) and every field value the body can carry, decoding the encoded body reproduces every field. Lists, including empty ones where the layout allows them, keep their length and order.",
 ["inputs"],"every field value; list and string lengths up to the bound",
 "One hand-picked value per type is tested, and several of those tests assert nothing when encode or decode fails.",
 ["protocol/t808_0x0*.go","protocol/bufio.go","protocol/helpers.go"],
 [("Encode/Decode of each T808_0x0xxx type","protocol/t808_0x0*.go")],
 observe=["decoded entity compared with the original"])
prop("C08","Platform-to-terminal message bodies round trip",
 "For every platform message type (general reply, retransmission request, register reply, parameter setting and queries, control, upgrade, tracking, alarm confirmation, text, events, questions, menus, information, call back, phone book, door control, area and route deletion, driving record commands, media reply, camera, media search/upload, recording, pass-through, RSA key) and every field value the body can carry, decoding the encoded body reproduces every field. Lists keep their length and order.",
 ["inputs"],"every field value; list and string lengths up to the bound",
 "One hand-picked value per type is tested.",
 ["protocol/t808_0x8*.go","protocol/bufio.go","protocol/helpers.go"],
 [("Encode/Decode of each T808_0x8xxx type","protocol/t808_0x8*.go")],
 observe=["decoded entity compared with the original"])
prop("C09","Message bodies follow the documented wire layout",
 "The encoded body of every message type is exactly the documented fields in the documented order and widths: integers big-endian, fixed-size strings zero-padded or cut to their width, variable strings and lists preceded by their count or length field where the layout has one, and optional parts present exactly when their flag or list says so. Each type is encoded under, and decoded from, its own message id.",
 ["inputs"],"every field value; list and string lengths up to the bound",
 "Tests only compare a value with itself after a round trip, so a layout change made on both sides passes; terminals would no longer understand it.",
 ["protocol/t808_0x*.go","protocol/register.go","protocol/bufio.go"],
 [("Writer","protocol/bufio.go"),("Encode of each entity","protocol/t808_0x*.go"),("entityMapper","protocol/register.go")],
 observe=["encoded bytes compared with a reference layout"])
prop("C10","Location reports keep position, hemisphere, time and status",
 "For every location report with coordinates of at most six decimals whose hemisphere flags do not contradict the sign of the coordinates, and a time between 2000 and 2099, encoding and decoding gives back the same signed latitude and longitude, alarm and status bits (with the south and west bits set exactly for negative coordinates), altitude, speed, direction and time. The same holds for the location inside query replies, vehicle-control replies, batch uploads and media messages.",
 ["inputs"],"every alarm, status, coordinate, altitude, speed, direction and second-precision time in range",
 "The test for this type asserts nothing about the decoded value, uses one coordinate and the current time.",
 ["protocol/t808_0x0200.go","protocol/helpers.go","protocol/bit.go","protocol/t808_0x0201.go","protocol/t808_0x0500.go","protocol/t808_0x0704.go","protocol/t808_0x0801.go","protocol/t808_0x0802.go"],
 [("T808_0x0200.Encode/Decode","protocol/t808_0x0200.go"),("getGeoPoint, toBCDTime, fromBCDTime","protocol/helpers.go")],
 observe=["decoded T808_0x0200 fields"])
prop("C11","Location extras keep type, order and value; bad extras are rejected",
 "Every known extra item encoded in a location report is decoded with the same id and value and in the same order, and a decoded extra can be encoded again to the same bytes. Unknown extra ids are skipped without disturbing their neighbours, and an extra whose declared length does not match its type or exceeds the remaining bytes makes the decode fail.",
 ["inputs"],"every extra value, every pair of extras in sequence, every declared length up to the bound",
 "One fixed list is encoded and the result is not compared with anything.",
 ["protocol/t808_0x0200.go","protocol/extra/*.go"],
 [("extras loop in T808_0x0200.Decode","protocol/t808_0x0200.go"),("Extra_*.Decode/Data","protocol/extra")],
 observe=["Extras of the decoded report"])
prop("C12","Area and route messages round trip with coordinates and optional parts",
 "For every message that sets circle, rectangle or polygon areas (at least one item or vertex) or a route (any number of points) whose coordinates have at most six decimals and consistent hemispheres within the element that carries the flags, encoding and decoding gives back the ids, signed coordinates, attributes, radius, width and limits. The time and speed parts are on the wire and decoded exactly when the attribute bits (for routes: the presence of both values) say so, for every mixture of items with and without them.",
 ["inputs"],"every field value, every combination of optional parts over up to two items",
 "One example per type, always with the same optional parts and signs.",
 ["protocol/t808_0x8600.go","protocol/t808_0x8602.go","protocol/t808_0x8604.go","protocol/t808_0x8606.go","protocol/bit.go"],
 [("AreaAttribute and section attribute bits","protocol/t808_0x8600.go, t808_0x8606.go"),("getGeoPoint","protocol/helpers.go")],
 observe=["decoded entity compared with the original"])
prop("C13","BCD times and numbers survive encoding",
 "Every second-precision time from 2000-01-01 00:00:00 to 2099-12-31 23:59:59 written as a 6-byte BCD time is read back as the same time, and CAN receive times from 00:00:00.000 to 23:59:59.999 are read back exactly. Terminal numbers of up to 12 digits and SIM numbers of up to 20 digits without a leading zero are read back as the same number, and BCD times, dates, CAN receive times and terminal numbers holding a non-decimal digit or an impossible date are rejected with an error.",
 ["inputs"],"every time in the century, every digit string up to the field width",
 "Tests use the current time and one SIM number; years 2000-2009, hour 00 and leading zeros are never sampled.",
 ["protocol/helpers.go","protocol/bufio.go","protocol/header.go","protocol/t808_0x0705.go","protocol/t808_0x0107.go"],
 [("stringToBCD, bcdToString, toBCDTime, fromBCDTime","protocol/helpers.go")],
 observe=["ReadBcdTime(WriteBcdTime(t)), Header and entity round trips"])
prop("C14","Text fields round trip through GB18030",
 "Every text without NUL characters that fits its field is decoded to the same text it was encoded from, including mixtures of ASCII and Chinese characters, for free-running, length-prefixed and fixed-width text fields. Fixed-width fields are padded with zero bytes to exactly their width, and the length prefix counts encoded bytes, not characters.",
 ["inputs"],"every text up to the bound",
 "A few fixed strings are tested.",
 ["protocol/bufio.go","protocol/helpers.go","protocol/t808_0x0702.go","protocol/t808_0x8301.go","protocol/t808_0x8302.go","protocol/t808_0x8401.go"],
 [("Writer.WritString, Reader.ReadString, bytesToString","protocol/bufio.go, protocol/helpers.go")],
 observe=["decoded strings"])
prop("C15","Terminal parameters keep id, type and value",
 "A parameter set to a byte, 16-bit, 32-bit, byte-string or text value gives back exactly that value and id through the matching getter, including after a parameter-setting or parameter-reply message has been encoded and decoded. Getters on values that are too short return an error, and byte-string values do not alias the caller's memory.",
 ["inputs","histories"],"every id and value, every short value, lists of up to three parameters",
 "One example list is tested, by comparison of the raw structs only.",
 ["protocol/params.go","protocol/t808_0x0104.go","protocol/t808_0x8103.go"],
 [("Param setters and getters","protocol/params.go")],observe=["Param.Get* results"])
prop("C16","Flag bits are set, cleared and read independently",
 "Setting or clearing a bit of a flag value changes that bit and no other, reading it gives what was last written, and positions at or beyond the value's width read false and change nothing. The status, area, section and door flag accessors each address their own documented bit, and the message property's length, encryption and packet fields do not disturb each other.",
 ["inputs"],"every value, every bit position and both polarities",
 "Bits are exercised only through one example per message.",
 ["protocol/bit.go","protocol/property.go","protocol/t808_0x0200.go","protocol/t808_0x8600.go","protocol/t808_0x8606.go","protocol/t808_0x8500.go"],
 [("GetBit*/SetBit*","protocol/bit.go"),("Property methods","protocol/property.go")],observe=["accessor results"])
prop("C17","Encrypted bodies are split, encrypted and restored completely",
 "Encrypting any body and decrypting the result with the matching key gives back the same bytes for every body length: the data is cut into consecutive chunks, none larger than the key allows and none lost or reordered. A message encoded with a key carries the encryption flag and decodes to the same body; decoding an encrypted message without a key, or with a ciphertext that does not decrypt, fails with an error and never yields a body.",
 ["inputs","fault_sequences"],"every body content and length up to the bound, every failing chunk",
 "No test encrypts anything; chunk boundaries matter only at particular lengths.",
 ["protocol/helpers.go","protocol/message.go"],
 [("EncryptOAEP, DecryptOAEP, bytesSplit","protocol/helpers.go"),("encryption branches of Message.Encode/Decode","protocol/message.go")],
 observe=["plaintext recovered; errors of Message.Decode"])
prop("C18","Outgoing serial numbers are non-zero, sequential and unique under concurrency",
 "Each message a session sends carries a serial number between 1 and 255 that is one more than the previous one, wrapping from 255 to 1, starting at 1. However sends from several goroutines interleave, no two of up to 255 consecutive messages get the same serial number, and each caller is told the number its own message carries.",
 ["schedules","histories"],"every interleaving of concurrent senders and every counter position",
 "There is no session test; duplicates need a particular interleaving or the wrap position.",
 ["session.go"],[("Session.nextID compare-and-swap loop","session.go"),("Session.Send","session.go")],
 state=[("next","last serial number handed out","session.go")],observe=["serial numbers returned and in the frames written"])
prop("C19","An answer reaches the callback of its own request, once",
 "When a terminal's answer (general reply or one of the parameter, location, question, control, record, media-search or photo replies) carries the serial number of a pending request, that request's callback is called exactly once with that answer, even if the answer arrives immediately after the request is sent. Answers with any other serial number, and repeated answers, call nothing; other pending requests stay pending, and a newer request of the same message type, or whose serial number is the same again after 255 messages, replaces the older one.",
 ["histories","schedules"],"every sequence of requests and answers within the bound, every interleaving of request and answer",
 "There is no session test.",
 ["session.go","session_handler.go"],
 [("addRequestContext/takeRequestContext","session.go"),("Session.message","session.go"),("Session.Request","session.go")],
 state=[("requests","pending requests with serial number and callback","session.go")],observe=["callback invocations"])
prop("C20","Replies are addressed to the terminal and echo what they answer",
 "Every message sent on a session carries the non-zero terminal number most recently received on that session (0 before any), the message id of its body, and is not split. A general reply carries the serial number and message id of the message it answers and the given result.",
 ["inputs","histories"],"every sequence of received terminal numbers and every message replied to",
 "There is no session test.",
 ["session.go"],[("Session.Send, Session.Reply, Session.message","session.go")],
 state=[("iccID","last terminal number received","session.go")],observe=["frames written to the connection"])
prop("C21","Each received message is dispatched once, in order, to its own handler",
 "For every well-formed message a terminal sends, the handler last registered for its message id, and no other, is called exactly once, in the order received, with the session and the decoded message. Messages without a decodable body get a general reply 'unsupported' and reach no handler; a message without a handler, or a handler or callback that panics, does not stop later messages from being served.",
 ["inputs","histories"],"every sequence of messages within the bound, every set of registered handlers, every handler panicking",
 "There is no server or session test.",
 ["session_handler.go","server.go"],
 [("HandleSession receive loop","session_handler.go"),("dispatchMessage","server.go")],
 observe=["handler invocations and frames written, driven through Server.Run on a listener stand-in"])
prop("C22","The session table matches the open connections",
 "While a connection is open its session can be looked up by id and takes part in broadcasts; once it has closed, for whatever reason, it can no longer be looked up, the close handler has been called exactly once with it, and it is not counted in broadcasts. A broadcast sends the message to each open session exactly once and returns how many sends succeeded.",
 ["histories","fault_sequences"],"every sequence of connects, disconnects, send failures and broadcasts within the bound",
 "There is no server test.",
 ["server.go","session_handler.go","session.go"],
 [("sessions map under mutex","server.go"),("handleClose, Broadcast, GetSession","server.go")],
 state=[("sessions","open sessions by id","server.go")],observe=["GetSession, Broadcast result, close handler calls, frames written"])
prop("C23","Idle keys time out once, refreshed or removed keys do not",
 "After a key is updated, its timeout fires at the first check at or after the configured number of seconds has passed, exactly once, unless the key is updated again (which restarts the period) or removed first; it never fires earlier. This holds for every set of keys, every order of updates, removals and checks, every advance of the clock, and when updates of the same key run concurrently.",
 ["histories","schedules"],"every sequence of update, remove, set-expiration and clock-advance steps within the bound, every interleaving of two concurrent operations",
 "There is no timer test; heap corruption or double entries need particular sequences.",
 ["timer.go","server.go"],
 [("expirationQueue heap with index map","timer.go"),("CountdownTimer.Update/Remove/checkExpirationQueue","timer.go")],
 state=[("q","heap of deadlines","timer.go"),("mapper","key to heap element","timer.go")],observe=["timeout callback invocations"])
prop("C24","A split upload is complete exactly when all parts are in, and merges in order",
 "A multi-part upload with a total of at least 1 reports complete exactly when every part from 1 to its total has been written, whatever the order and however often parts are written, and reports incomplete (not a crash) when nothing has been written. Merging a complete upload yields exactly the latest content of parts 1 to total concatenated in part order, regardless of earlier merges or of parts of other terminals, message types or tags, and works for an unprivileged process.",
 ["histories","inputs"],"every order of part writes, duplicates, totals up to the bound, earlier uploads and foreign uploads",
 "One upload with three parts is tested and the merged content is not looked at.",
 ["multipart.go"],[("Write, IsFull, Merge, walkParts","multipart.go")],
 observe=["IsFull result and bytes read from Merge, over a file-system stand-in"])
prop("C25","Auto-merged messages are delivered once, complete and acknowledged",
 "With packet merging on, each part received is acknowledged with a general reply (success if stored, failure if storing failed), and the handler is called exactly once, when the last missing part has arrived in whatever order, with a reader that yields the payloads of parts 1 to total in order. Parts whose storing failed do not count as received, once an upload has been delivered a later upload that reuses its media id contains nothing of it, and with merging off every part is dispatched as it is.",
 ["histories","fault_sequences"],"every arrival order, duplicate, storage failure and id reuse within the bound",
 "There is no server test.",
 ["session_handler.go","multipart.go"],
 [("packet branch of HandleSession","session_handler.go"),("MultipartFile","multipart.go")],
 observe=["handler invocations, bytes read by the handler, reply frames"])
prop("C26","Sending writes exactly one complete frame per message or reports an error",
 "Sending a message through the codec writes exactly its encoded frame in one piece to the connection, and returns an error, with nothing written, when the value is not a message or cannot be encoded, and the writer's error when writing fails. The body is encrypted exactly when a public key is set and the message asks for encryption.",
 ["inputs","fault_sequences"],"every message, every key/flag combination and every write failure",
 "No test touches the codec.",
 ["protocol.go"],[("ProtocolCodec.Send","protocol.go")],observe=["bytes written and error returned"])
prop("C27","Compressed and media payloads arrive intact or are refused",
 "A compressed report decodes to exactly the bytes that were compressed; compressed data that is truncated, damaged or shorter than its declared size is refused with an error rather than delivered partially. A media message delivers all payload bytes that follow its fixed part, unchanged.",
 ["inputs","fault_sequences"],"every payload up to the bound, every point at which decompression fails",
 "One payload is tested; corrupted data never.",
 ["protocol/t808_0x0901.go","protocol/t808_0x0801.go"],
 [("T808_0x0901.Encode/Decode","protocol/t808_0x0901.go"),("T808_0x0801.DecodePacket","protocol/t808_0x0801.go")],
 observe=["decoded payload or error"])
prop("C28","Connections are closed after the keepalive period without served messages",
 "A connection is closed by the server once the keepalive period (the configured number of seconds, 60 if none is configured) has passed since it was opened or since the last message on it for which a handler is registered, whichever is later. It is never closed for inactivity before that, however many connections there are and in whatever order they send, and a closed connection's timeout affects no other connection.",
 ["histories","schedules"],"every keepalive setting within the bound, every sequence of connects, messages and clock advances, every arrival instant",
 "There is no server test; it needs control over the clock.",
 ["server.go","session_handler.go","timer.go"],
 [("handleReadTimeout, dispatchMessage, NewServer","server.go"),("CountdownTimer","timer.go")],
 state=[("timer","countdown per session id","server.go")],observe=["close of the connection against the (stand-in) clock"])
prop("C29","Messages and connections do not influence one another",
 "Encoding, decoding, sending and receiving keep no state of their own: encoding the same body again (apart from a media payload, whose reader is used up), or for several connections at once as a broadcast does, gives the same bytes, and bytes and messages already returned are not altered by later calls. However the goroutines of several connections interleave, each connection's messages are encoded, decoded, sent and received exactly as if it were the only one.",
 ["inputs","schedules"],"every message type, every pair of contents within the bound and every interleaving with one preemption between any two statements",
 "Tests use one message and one goroutine at a time; shared scratch space shows only when two calls overlap.",
 ["protocol/","protocol/message.go","protocol/bufio.go","protocol/helpers.go","protocol.go","server.go"],
 [("Encode and Decode of all message types","protocol/"),("Message.Encode/Decode","protocol/message.go"),("ProtocolCodec.Receive/Send","protocol.go"),("Server.Broadcast","server.go")],
 observe=["bytes encoded, messages decoded, frames written, of each goroutine"])
prop("C30","A server serves between Run and Stop",
 "Run listens on the given port and serves connections until Stop is called, which closes the listener and every connection and makes Run return. Run on a running server returns an error and does not disturb it, Run whose port cannot be opened returns that error, and in both cases and after Stop the server can be run (again) and serves as before, with the handlers registered earlier. Stop on a server that is not running does nothing, and when Run and Stop are called at the same moment by several goroutines, at most one Run serves and nothing crashes. A private key that does not have 1024 bits is refused when the server is created.",
 ["histories","schedules"],"every sequence of Run, failing Run, Stop, connections and messages within the bound, every interleaving of two concurrent calls",
 "There is no server test.",
 ["server.go","session_handler.go"],
 [("NewServer, Run, Stop","server.go")],
 state=[("server","the running link server","server.go")],observe=["results of Run, listener and connections open or closed, messages handled"])
prop("C31","Bodies cut short are refused or read as what they are",
 "Whatever number of bytes is missing from the end of a message body, decoding it either fails or, where the layout lets the body end there (free-running text or data, an optional tail, whole location extras), gives exactly the shorter body: encoding the result gives back the bytes received. No field is invented, no count is taken on trust, and a complete body of any type is accepted. A frame around a refused body is decoded without a body.",
 ["inputs"],"every message type, every length it can be cut to, every field value within the bound (a cut inside a multi-byte character, or that leaves one lone byte after the location extras, is left open)",
 "The suite decodes complete bodies only.",
 ["protocol/t808_0x*.go","protocol/extra/","protocol/bufio.go","protocol/message.go"],
 [("Decode of every message type","protocol/t808_0x*.go"),("Reader","protocol/bufio.go"),("Message.Decode","protocol/message.go")],
 observe=["result of Decode, re-encoded body"])
prop("C32","An application's own message and extra types work like built-in ones",
 "After a message type has been registered under an id (new, or that of a built-in type; the last registration counts), every frame with that id is decoded into a fresh value from its creator, is sent, dispatched, acknowledged and, if the type can be split, merged like a built-in one, and a body it refuses counts as undecodable. A registered location extra is decoded and encoded in place among others and a report with one that its type refuses, or does not read to its declared end, is refused. Other types are not affected.",
 ["inputs","histories"],"every content within the bound, new and built-in ids, first and repeated registration, merging on and off",
 "The suite registers nothing.",
 ["protocol/register.go","protocol/extra/register.go","protocol/message.go","protocol/t808_0x0200.go","session_handler.go"],
 [("Register","protocol/register.go"),("Register","protocol/extra/register.go"),("Message.decode","protocol/message.go"),("HandleSession","session_handler.go")],
 state=[("entityMapper","creators by id","protocol/register.go")],observe=["decoded bodies and extras, frames written, messages handled"])
prop("C33","Closed connections and delivered uploads leave nothing behind",
 "Once a connection has closed, for whatever reason and in whatever state, the goroutines that served it end and the connection to the terminal is closed; after Stop so do those of the server, and the listener is closed. Every file opened to store, check or merge an upload is closed again, whether that succeeds or fails and whatever the handler does with the data. Once an upload has been delivered, and no file operation failed, none of the parts (numbered from 1) stored under its terminal, message type and media id and no merged file is left.",
 ["inputs","histories","fault_sequences"],"every way and order of closing, every order of parts, one storage failure at any point, every behaviour of the handler within the bound",
 "Leaks show only over time; no test closes a connection or fails a file operation.",
 ["session_handler.go","server.go","multipart.go","session.go"],
 [("HandleSession","session_handler.go"),("Stop","server.go"),("Write, Merge, remove","multipart.go")],
 observe=["number of goroutines, open files, files stored, connections and listener open or closed"])
prop("C34","Killing the process loses no acknowledged part of an upload",
 "If the process is killed at any moment while parts of an upload are stored, checked, merged or delivered, and a server is started again, every part whose storing was acknowledged (Write returned, or the general reply said success) is still there with its content, and a part whose storing was under way is there completely (its old or its new content) or not at all. Once the parts not acknowledged have been sent again (or, if all were, any one), an upload that had not been delivered is delivered once with exactly the payloads of its parts; other uploads are not affected.",
 ["crash_points","inputs","histories"],"every file operation at which the process can be killed (a write stored in part), every order of parts and content within the bound; a kill of the process, not of the machine, and not during the removal of a delivered upload whose media id is used again",
 "No test fails or interrupts a file operation.",
 ["multipart.go","session_handler.go"],
 [("MultipartFile.Write, IsFull, Merge","multipart.go"),("HandleSession","session_handler.go")],
 state=[("part files","parts stored under <tmp>/go808/<terminal>","multipart.go")],observe=["results of IsFull and Merge, messages handled and acknowledgements after the restart"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
