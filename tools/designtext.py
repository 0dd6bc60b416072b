MISSED = {'c05-wait-end', 'c06-small-reads', 'c09-empty-retry', 'c12-first-vertex', 'c19-unsupported', 'c20-late-number',
          'c22-read-timeout', 'c23-same-second', 'c27-media-pad', 'c28-first-handler', 'c28-unhandled'}
TEXT = {
'C01': '''
`Message.Encode` and `Message.Decode` are executed one after the other on
symbolic headers and bodies; the header and body that come out are compared with
those that went in. Escaping and checksum depend on single byte values and on
their coincidence (a checksum that is 0x7e, a length byte that is 0x7d), which a
test hits by luck only; here every byte is a variable.''',
'C02': '''
The encoded frame is compared with an independent reference in the harness:
delimiters, escapes, checksum, big-endian header, length field, for the same
symbolic messages, stale length bits in the property included.''',
'C03': '''
`Message.Decode` on arbitrary strings. The oracle is an independent reading of
the frame format written in the harness (unescape, checksum, header size, decimal
digits): accepted exactly when the oracle accepts, with the oracle's fields.''',
'C04': '''
All decoders (frame, every registered body, every extra) on arbitrary bytes:
every index, slice, conversion and nil dereference of the executed code is an
assertion, checked by the solver. `hostile_gen.go` has one harness per message
type, lengths around its minimum; the others aim at nested counts and sizes.''',
'C05': '''
The codec's `Receive` on a reader that delivers the stream in pieces; where the
stream is cut is a symbolic choice, the oracle is the list of messages the frames
were made from. Messages delivered are looked at again at the end (aliasing).''',
'C06': '''
Encoding for body lengths around each length at which an integer wraps, and a
peer that never completes a frame, in reads of several sizes; concrete sizes
(the code is executed on 65 KB), symbolic content.''',
'C07': '''
For each terminal message type a case maker (`bodies.go`, `geo.go`) builds an
entity of symbolic fields; encode, decode, compare field by field. Texts take
several forms (ASCII, Chinese, mixed, four-byte); lists are nil, empty or have
symbolic elements; long lists around 128 and 256 with fixed ones.''',
'C08': '''As C07, for the platform's message types.''',
'C09': '''
The same entities; the bytes `Encode` gives are compared with the layout the
case maker writes down independently. One more harness goes through all
registered ids: what is created for an id answers with that id.''',
'C10': '''
Location reports with symbolic coordinates as decimals (exponents -6 to -8),
through float64 as in the code (floating-point queries go to cvc5 after a guess),
alone and inside all message types that embed one; and decoding of any bytes.''',
'C11': '''
All pairs of extra types with symbolic values; unknown ids of any value and
data; any bytes as extras with an independent walk as oracle; all lengths other
than the right one.''',
'C12': '''
As C07 for areas and routes, with symbolic attribute bits deciding which optional
parts are present per element, so that state leaking from one element to the next
shows; coinciding elements; long lists.''',
'C13': '''
Civil times are symbolic (year, month, day, ... as variables constrained to valid
dates), written and read back; the reverse for arbitrary BCD bytes with an
independent validity oracle; CAN times, terminal and SIM numbers digit by digit.''',
'C14': '''
Texts made of symbolic ASCII characters and of characters chosen from the tables
(two-byte and four-byte), in every position of a mixture, through each kind of
field; width and length prefix are compared with the encoded length.''',
'C15': '''
Every setter with every getter on symbolic values, also through encoded
parameter messages; values shorter than the getter needs; the caller's buffers
are changed afterwards and values compared again.''',
'C16': '''
Symbolic value, symbolic position, both directions; the accessors against the
documented bit numbers; the property word with all 2^16 values at once.''',
'C17': '''
Encryption with an ideal OAEP of the real chunk sizes: any body up to several
chunks, failures at any chunk, ciphertext changed or cut anywhere. Key sizes are
small in most harnesses so that several chunks fit; one uses the 1024-bit sizes.''',
'C18': '''
Sends through a real server and session, from several goroutines, at the start
and around the wrap from 255 to 1; all schedules within the delay bound. The
numbers on the wire are compared with those told to the callers.''',
'C19': '''
Requests and answers through a real session: which answer arrives is symbolic
(serial number bytes, kind), the oracle is a table of pending requests. Answers
that arrive while `Request` is still running: the connection answers inside the
write, under all schedules within the delay bound.''',
'C20': '''
Frames received carry symbolic terminal numbers; everything sent afterwards (by
Send, Reply, Request, Broadcast, from a handler and outside) is taken apart.''',
'C21': '''
Streams of messages of every kind through a real server with handlers that
record, panic, or give way to other tasks; the record is compared with the
stream. Also several connections at once and handlers registered late.''',
'C22': '''
Open and close in any order and in nine ways; after each step lookups, close
handler calls and a broadcast are compared with the list of open connections.
Races of opening, closing, stopping and broadcasting under all schedules within
the delay bound, ending in the same comparison.''',
'C23': '''
The timer against a reference (per key: active, expiry), with symbolic pauses and
periods, so the order of expiry times in the heap is decided by the solver;
concurrent updates, removals and checks under bounded schedules.''',
'C24': '''
`MultipartFile` on the in-memory file system: every sequence of writes within the
bound, other uploads alongside, storage failures at any call. The oracle is a map
of the latest content per part.''',
'C25': '''
A server with merging on, fed with the parts of uploads in any order: replies
counted and compared, deliveries compared with the payloads; storage failures at
any call while a part is handled.''',
'C26': '''
The codec's `Send` on a recording writer, key set or not, flag set or not, for
all ways in which sending can fail; what was written is taken apart by the
reference parser.''',
'C27': '''
Compressed reports with an ideal gzip, cut, changed or with another size anywhere;
media messages with symbolic fields and payloads through body and frame.''',
'C28': '''
A server on the virtual clock: messages in any subset of the seconds, with and
without handlers; symbolic keepalive settings and times; several connections. The
connection must be closed at exactly the second the reference says.''',
'C29': '''
Two messages of every type (values symbolic, lists and texts of two sizes) are
encoded and decoded by two tasks; for this property the statements of the
protocol packages are scheduling points too, so a scratch buffer, cache or
global table used by both shows as bytes of the other message. Also without
overlap: results are compared again after further calls. The reference is the
wire layout written down for C09.''',
'C30': '''
Every sequence of Run, Run with a failing listener, Stop, connecting and sending
within the bound, against a reference that knows whether the server runs and
which connections are open. Also Run and Stop from two goroutines at once, with
scheduling points between the statements of the root package: afterwards either
exactly one Run serves, or none and the server can be run. Not covered: `Stop` called
from inside a close handler; it waits for ever, because in the link library `Stop`
waits until the close handlers of every connection have returned.''',
'C31': '''
A complete body of every type (values symbolic, shapes as for C29, plus location
extras, media messages, RSA keys) is cut at every length and given to `Decode`,
directly and inside a well-formed frame; if it is accepted, encoding what was read
must give back the bytes that were there.''',
'C32': '''
The harness brings message types (one that can be split, one that refuses some
bodies) and an extra type of its own, registers them under new and built-in ids,
and runs them through `Message`, location reports and a server, with symbolic
contents; frames come from the reference.''',
'C33': '''
The scheduler counts the goroutines that have not ended, the file system the
files opened and not closed and those stored; connections, ways of closing,
orders of parts, the point of a storage failure and what the handler does are
chosen by the solver.''',
'C34': '''
The file system is killed at an operation the solver chooses: that operation (a
write possibly in part) and everything after it have no effect, and what would
be sent afterwards is dropped. Then a new server works on what is stored. Which
parts were acknowledged before decides what must be there.''',
}
