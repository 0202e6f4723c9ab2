"""The properties: what is stated, where it is anchored, and within which bounds the harnesses
`h_cNN_*` (harness/src) decide it.  gen.py derives properties.jsonl and MANIFEST.json from this file."""

ASSUMPTIONS = [
    'The encoding is the optimised LLVM IR rustc produces for the whole program (crate, its dependencies, std, harness); rustc/LLVM lowering to that IR and z3 are trusted, '
    'the executor is cross-checked by re-executing sampled paths and every counterexample natively.',
    'log, env_logger, tracing and tokio are replaced by the models in shims/: logging evaluates its arguments to nothing; sockets, timers, channels, mutexes, spawn and select follow '
    "tokio's documented contract, with arbitrary datagrams, failures, clock advances, select order and (where stated) preemption at await points.",
    'Tasks interleave only at await points (one executor thread); data races inside std or tokio are out of scope.',
    'Formatting text that is never looked at (error messages, log lines) is skipped; a run that looks at formatted text is repeated with the formatting code executed. Memory allocation never fails; hash maps are seeded with a fixed value.',
    'Loop counts, lengths and history lengths are bounded as listed; nothing is claimed beyond them.',
]

CORE, TUN, EMI, APDU, TPDU, ADDR, DPT, UDP, MON = ('src/packets/core.rs', 'src/packets/tunneling.rs', 'src/packets/emi.rs', 'src/packets/apdu.rs', 'src/packets/tpdu.rs',
    'src/packets/addresses.rs', 'src/dp_types.rs', 'src/transport/udp.rs', 'src/transport/udp_monitor.rs')

PROPS = {}
def P(id, title, statement, over, text, why, files, mech, bounds, state=None, **o):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PROPS[id] = dict(title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a, bounds=bounds, **o)

NOTEST = 'No existing test reaches this; '

P('C01', 'Decoding and encoding never panic, hang or read out of bounds',
  'Every public decoder of frames, structures, datapoints and address texts, given any octets of any length, returns a value or an error: it never panics, overflows, runs forever or touches memory outside its input. '
  'Every public constructor and encoder accepts every value of its argument types (empty values included) that fits in its frame without panicking.',
  ['inputs'], 'for every octet string up to the bound, given to every decoder, and every argument of every encoder',
  'The existing tests decode eight fixed well-formed inputs; a panic needs a particular truncated or inconsistent length field.',
  [CORE, TUN, EMI, APDU, TPDU, ADDR, DPT, UDP],
  [('length and size checks of every from_packet', CORE), ('cEMI additional information parsing', EMI), ('datapoint length checks', DPT), ('datagram classification', UDP)],
  {'octets per input (quick/thorough)': 'structures 8..28/12..40, description blocks 24..64/40..128, search response 90/120, tunnelling request 40/120, cEMI 12/18 and 250..264 for one long info block, L_Data 16/40, datapoints 6, texts 4 octets of UTF-8; long inputs: see LONG',
   'LONG': 'tunnelling requests, indications and description blocks of selected lengths from 200 up to 512 octets with arbitrary content',
   'symbolic': 'every octet and the length', 'not covered': 'longer inputs'})

P('C02', 'Decoded values come only from the received octets; truncated input is rejected',
  'Whatever a decoder returns was present in the octets it was given, at the position the protocol assigns to it; nothing is invented, padded or taken from beyond the end. '
  'An input shorter than the fields it announces or the kind of frame requires is rejected with an error.',
  ['inputs'], 'for every octet string and every truncation point up to the bound, for every decoder',
  'Tests decode complete frames only; truncation points and inconsistent length fields are never sampled.',
  [CORE, TUN, EMI, DPT], [('field extraction of every from_packet', CORE), ('tunnelling request length', TUN), ('L_Data value extraction', EMI)],
  {'octets per input (quick/thorough)': 'fixed frames 24, L_Data 16/30, cEMI 12/18, datapoints 6; description blocks and search responses as C17, every truncation point; requests and indications of selected lengths up to 512', 'symbolic': 'every octet and the length'})

P('C03', 'Only frames of the right protocol version, service and size are accepted',
  'A frame decoder accepts only input that starts with header size 6, protocol version 1.0 and the service type of its own kind, and whose fixed-size structures (endpoints, connection header, connection response data) announce their prescribed size. '
  'Fixed-length frames must announce their exact total length where the decoder checks it (connection state response, disconnect response, acknowledgement, feature response), and a connection response with one of the standard refusal codes is an error.',
  ['inputs'], 'for every octet string up to the bound, given to every frame decoder',
  'The tests never feed a decoder a frame of another service, version or size.',
  [CORE, TUN], [('header decoder and service type checks', CORE), ('service type checks of tunnelling frames', TUN)],
  {'octets per input (quick/thorough)': '30/90; search response 90; sizes 24', 'symbolic': 'every octet and the length'})

P('C04', 'Every emitted frame is self-consistent and carries exactly its fields',
  'Every frame the library builds starts with header size 6, version 1.0, its service type and a total length equal to its real length, followed by exactly the fields it was built from in the prescribed layout. '
  'Lengths above 255 octets are carried in both length octets.',
  ['inputs'], 'for every channel, sequence number, status, endpoint, feature, value and payload within the bound',
  'Tests compare a few constant frames; wrong handling of particular field values or of long payloads is not sampled.',
  [CORE, TUN], [('packet() of every frame type', CORE), ('packet() of tunnelling frames', TUN)],
  {'payload octets (quick/thorough)': '0..24/0..80 arbitrary, and 11 lengths between 200 and 502; search responses and description blocks built from arbitrary fields', 'symbolic': 'every field'})

P('C05', 'Encoding and decoding frames are inverse',
  'Decoding an encoded frame gives back every field it was built from. '
  'Encoding what was decoded from a received frame gives back its octets, apart from reserved octets and the announced total length; requests derived from a connection response use its channel and endpoint.',
  ['inputs'], 'for every field value, and for every accepted octet string up to the bound, of every frame type with both directions',
  'Tests check one direction on constants.',
  [CORE, TUN], [('from_packet / packet pairs', CORE), ('from_packet / packet pairs', TUN)],
  {'octets (quick/thorough)': 'payload 0..24/0..80 and 11 lengths between 200 and 502; decode-encode inputs up to 30; description blocks and search responses as C17', 'symbolic': 'every field / octet'})

P('C06', 'A received datagram is classified as exactly the message it is',
  'A datagram is reported as tunnelling request, acknowledgement, feature response, connection state response, disconnect response or disconnect request exactly with the fields it carries, and only if it is a frame of that service. '
  'Every complete well-formed frame of these six services is accepted as its own kind; everything else is an error.',
  ['inputs'], 'for every datagram up to the bound', NOTEST + 'the dispatch is exercised by no test.',
  [UDP, TUN, CORE], [('parse_response', UDP)],
  {'octets (quick/thorough)': '26/60 arbitrary; accepted frames with payload 0..6/0..40 and selected lengths up to 512'})

P('C07', 'Address text is accepted exactly when it is a valid KNX address',
  'Text is accepted exactly when it has the form a.l.d (area and line 0..15, device 0..255), m/m/s (main 0..31, middle 0..7, sub 0..255), m/s (main 0..31, sub 0..255) or a single number 0..65535, and yields the address of that kind with those parts; '
  'anything else, including parts out of range, missing or extra parts, is an error and never another address. The text a decoded individual or three-level group address is shown as parses back to it.',
  ['inputs'], 'for every text up to the bound (a leading + on a number is left open)',
  'The address tests parse two constants.',
  [ADDR], [('TryFrom<&str> of the address types', ADDR), ('Debug of the address types', ADDR)],
  {'texts (quick/thorough)': 'every octet string of up to 5/6 octets, 20 shapes of 1..4 numeric parts of 1..6 digits with arbitrary digits, six addresses with one arbitrary octet and a separator inserted anywhere; shown texts: all 65536 words'})

P('C08', 'Addresses and their 16-bit wire form correspond one to one',
  'An individual address is 4 bits area, 4 bits line, 8 bits device; a three-level group address 5/3/8 bits, a two-level one 5/11 bits, a one-level one 16 bits; distinct addresses of a kind have distinct words. '
  'The address obtained from any 16-bit word encodes to that same word, and addresses are equal exactly when their words are.',
  ['inputs'], 'for every address of every kind and every pair of words', 'Tests check one address per kind.',
  [ADDR], [('to_u16 / from_u16', ADDR)], {'bound': 'none: all words, all parts in range, all pairs'})

P('C09', 'A bus request encodes destination, priority and value exactly',
  'A data request carries the L_Data.req code, the priority (low unless set), the destination address with the matching address type bit, a length octet counting the octets after the transport octet, and the group read or write command; up to 15 such octets make a standard, more an extended frame. '
  'A value travels inside the command octet exactly when it is small, otherwise as all of its octets after it; datapoints choose the form they declare.',
  ['inputs'], 'for every destination of every kind, every priority, value and value length within the bound',
  'One test compares one constant request.',
  [EMI, TPDU, APDU], [('LDataReqMessage::packet', EMI), ('APDU encoding', APDU), ('TPDU encoding', TPDU)],
  {'value octets (quick/thorough)': '1..16/1..40 arbitrary, and 8 lengths between 14 and 253'})

P('C10', 'Bus indications and confirmations are decoded exactly',
  'An indication is decoded exactly when it is complete; source, destination, frame type, repetition, broadcast and acknowledge flags are the transmitted bits, and the value is the 6-bit value of the command octet for a length of at most one and otherwise exactly the announced octets. '
  'A confirmation is positive exactly when its error bit is clear.',
  ['inputs'], 'for every message code and service information up to the bound', 'One constant indication is tested.',
  [EMI], [('LDataInd::from_cemi', EMI), ('LDataCon::from_cemi', EMI)], {'octets (quick/thorough)': '0..24/0..60, and selected lengths up to 264'})

P('C11', 'The cEMI container is split exactly into its parts',
  'A well-formed cEMI message yields its message code, each additional information with its type and value in order, and everything after the announced additional information area as service information. '
  'An area that does not end where announced, exceeds the message or contains an unknown information type is an error.',
  ['inputs'], 'for every sequence of additional informations and every announced length within the bound', NOTEST + 'no test has additional information.',
  [EMI], [('CEMI::from_packet', EMI)], {'additional infos (quick/thorough)': '0..3 with 0..2 octets (one: 0..4); service information 0..6/0..20; overrun: 0..6 octets, every announced length'})

P('C12', 'A value written to the bus arrives as the same value',
  'A datapoint written through a request and received back by any peer as an indication decodes to the value that was written, whichever datapoint type it is; raw values keep their octets. '
  'Writing a datapoint or its octets produces the same request.',
  ['inputs'], 'for every value of every integer datapoint type, two-octet floats, every destination, channel and sequence number', 'No test goes through both directions.',
  [DPT, APDU, EMI, TUN], [('encoding chain', APDU), ('decoding chain', EMI)], {'raw value octets (quick/thorough)': '1..16/1..60, and selected lengths up to 253; integer datapoint values: all; floats: all codes of exponents 0, 1 (thorough 8, 15), end points of the others, ten temperatures'})

P('C13', 'Bit, integer and control datapoints encode and decode their value exactly',
  'Datapoints of types 1, 3, 5, 7, 8, 12 and 20 encode to exactly their big-endian (two\'s complement for 8) octets and decode back to the same value; type 3 keeps the control bit and three step bits, 8.010 is hundredths of a percent saturating at the ends of the range. '
  'Only types 1 and 3 are small, and every datapoint is labelled with its own main number.',
  ['inputs'], 'for every value of every type', 'Tests sample one or two values of some types.',
  [DPT], [('Pdt implementations', DPT)], {'bound': 'none: all values'})

P('C14', 'Two-octet floats decode to mantissa times power of two',
  'Any two octets decode as a type 9 value to 0.01 * M * 2^E, with M the 12-bit two\'s complement mantissa and E the 4-bit exponent, to single precision; only mantissa 0 is zero. '
  'Any other number of octets is an error.',
  ['inputs'], 'for all 65536 codes', 'Tests decode a few temperatures with small exponents.',
  [DPT], [('PdtKnxFloat::from_bytes / temp_from_bytes', DPT)], {'bound': 'all codes; tolerance 2^-20 / 5 relative'})

P('C15', 'Floats encode to the nearest two-octet value and saturate',
  'Every finite number in the type 9 range encodes to a code within half a step of the finest exponent that can hold it; larger and smaller numbers (infinities included) encode to the largest and smallest code. '
  'Encoding what was decoded from a code represents the same number.',
  ['inputs'], 'for every single-precision number, and every code', 'Tests encode a few temperatures.',
  [DPT], [('PdtKnxFloat encoder', DPT)], {'numbers': 'all f32 bit patterns', 'codes (quick/thorough)': '8 of 32 / all 32 sign-exponent combinations'})

P('C16', 'Percentages scale monotonically and invert exactly',
  'Decoding an octet gives a percentage from 0 to 100, monotone in the octet, 0 for octets 0 and 1 and 100 for 255; scaling that percentage gives the octet back (1 or more). '
  'Scaling is monotone, within half a step of the requested percentage between 0 and 100, full scale from 100 up, and 0 for values of -1 and below.',
  ['inputs'], 'for every octet, every pair of octets, and every single-precision percentage (pairs within +-200)', 'Tests sample three percentages.',
  [DPT], [('PdtKnxScaledValue::scaling / get_value', DPT)], {'bound': 'all octets; all f32 except NaN and (-1, 0); pairs of equal sign within 200'})

P('C17', 'Device descriptions and search responses are decoded and encoded exactly',
  'Every description block is decoded to its fields octet for octet, consumes exactly its structure length, is refused when that length does not fit its kind or the data, and encodes back to the same octets (padded to even length). '
  'A search response is a control endpoint, device information and service families in that order and encodes back to the received frame; a device name is at most 30 Latin-1 characters, zero padded, and reads back as the same text.',
  ['inputs'], 'for every block content and structure length within the bound', 'One constant search response is tested.',
  [CORE], [('DIB decoders and encoders', CORE), ('SearchResponse', CORE)],
  {'blocks (quick/thorough)': 'up to 6/126 families, 6/125 addresses, 8/250 manufacturer octets; structure length: all values up to 62/255; names of up to 300 characters (16 lengths) with one arbitrary character at either end'})

HIST = 'histories of datagrams, faults and clock advances within the bound, on client and monitor'
P('C18', 'Each tunnelled message is acknowledged exactly once, nothing else is',
  'While connected, the client and the monitor answer every well-formed tunnelling request and feature response - repetitions and undecodable contents included - with exactly one acknowledgement that mirrors its channel and sequence number with status 0. '
  'No other datagram, well-formed or not, is acknowledged.',
  ['histories', 'inputs'], 'for every ' + HIST, NOTEST + 'the two client tests do not pass even on the unchanged tree.',
  [UDP, MON], [('receive loop', UDP)], {'datagrams (quick/thorough)': '2/3 of seven kinds with arbitrary fields; one arbitrary datagram of 18/28 octets; requests of 12 lengths up to 512 octets; four datagrams during each kind of operation, after a reconnect, with a full queue', 'preemptions': '2/3 when a heartbeat falls due', 'long (quick/thorough)': '600/1500 requests, some sent twice'})

P('C19', 'Requests are numbered consecutively per connection on its channel',
  'The tunnelling requests sent over one connection carry its channel and the sequence numbers 0, 1, 2, ... modulo 256 (from 1 for the monitor, whose set-up request has 0), whatever happened to the requests before (answered, failed, given up by the caller, or refused by the socket and thus never sent). '
  'A new connection uses its own channel and starts the numbering over.',
  ['histories', 'fault_sequences'], 'for every ' + HIST, NOTEST + 'no test sends two requests.',
  [UDP, MON], [('sequence number allocation', UDP), ('sequence number allocation', MON)],
  {'requests (quick/thorough)': '3/4 with any outcome (failing send included) and a possible reconnect after each; 3 with one of eight other events between; 258 in a row for the wrap', 'given up (quick/thorough)': '2/3 requests, each at any of 3 suspension points or later'},
  state=[('connection_data', 'channel, endpoint and next number of the current connection', UDP)])

P('C20', 'A read returns the first value received for its group, or fails in ten seconds',
  'A group read sends one read request for its address and returns exactly the value of the first group write or response for that address received after the request; messages for other groups, other kinds of messages and values received earlier never complete it. '
  'Without such a message it fails ten seconds after the request, and it fails without sending anything when there is no connection or the request cannot be sent.',
  ['histories', 'inputs'], 'for every ' + HIST, NOTEST + 'no test reads.',
  [UDP], [('read_group_address_value', UDP)], {'messages before the outcome (quick/thorough)': '3/4 of ten kinds with arbitrary fields and times; value octets 1..14/1..40 and 10 lengths up to 254; after a lost connection or an abandoned operation; queued behind an unanswered operation; the outcome handled before the sender goes on; 1, 2 and 3 level notations', 'long (quick/thorough)': 'an answer after hundreds of other messages, of which at most a hundred await processing at a time; 300/700 reads in a row; up to 300 values before the read'})

P('C21', 'A write succeeds only with its own positive bus confirmation',
  'A client write sends one write request carrying the whole value and succeeds exactly when the first confirmation received for its address after the request is positive; a negative one, none within ten seconds, no connection or a failing send is an error, and other messages never complete it. '
  'A value too long for a frame (over 253 octets) is refused and not sent, on client and monitor.',
  ['histories', 'inputs'], 'for every ' + HIST, NOTEST + 'no test writes.',
  [UDP, MON], [('write_group_address_value', UDP)], {'messages before the outcome (quick/thorough)': '3/4 of ten kinds with arbitrary fields and times; lengths 0, 1, 2, 14, 15, 253, 254, 300; after a lost connection or an abandoned write; queued behind an unanswered operation; the outcome handled before the sender goes on; 1, 2 and 3 level notations', 'long (quick/thorough)': 'a confirmation after 330 other messages, of which at most a hundred await processing at a time; 300/700 writes in a row; up to 300 confirmations before the write'})

P('C22', 'Received messages are delivered in order, each exactly once',
  'A monitor delivers the indications received (bus monitor indications included) in the order received, each once and unchanged: up to a hundred unread ones are kept, a reader that gives up waiting loses none, a tunnelling request repeating the number of the one before it on the same connection is acknowledged but dropped, and other messages are skipped. '
  'On the client a repetition neither answers a later read nor confirms a later write; a new connection starts a new numbering.',
  ['histories', 'schedules'], 'for every ' + HIST + ', with reads at any time', NOTEST + 'no test receives.',
  [UDP, MON], [('repetition check of the receive loop', UDP), ('next_msg', MON), ('receive channel', MON)], {'messages (quick/thorough)': '4/6 in sequence with repetitions and arbitrary reading times; 3/4 of mixed kinds; 4/5 with arbitrary numbers; 100 unread; one of 12 lengths up to 254 value octets; three with readers giving up at any time', 'long (quick/thorough)': '640/1280 messages in lots of 1, 7 or 64'},
  state=[('last_sequence_nr', 'number of the last request on this connection', UDP)])

P('C23', 'A connection exists exactly after a successful connection response',
  'A connection attempt sends one tunnel connection request to the given address and waits up to thirty seconds for a connection response, ignoring other datagrams; a refusal, an invalid response, silence or a socket error leads to a new attempt ten seconds later, without limit. '
  'Until a complete response with status 0 arrives, requests fail and nothing is tunnelled; after it, requests use its channel.',
  ['fault_sequences', 'histories', 'inputs'], 'for every ' + HIST, 'The one connection test uses a well-behaved gateway (and fails on the unchanged tree).',
  [UDP, MON], [('connect / try_connection', UDP)], {'failed attempts (quick/thorough)': '1/2 of three kinds with a stray datagram at one of three times each; 40/300 of one kind; 1..3 failing sends; arbitrary responses of up to 22 octets; a response at any time, up to 100 octets; one other datagram of arbitrary content, up to 14/30 octets, before the response'})

P('C24', 'Heartbeats are sent every minute for the current channel',
  'While connected, client and monitor send a connection state request with the channel and endpoint of the current connection once every 60 seconds, regardless of other traffic, and never a burst of them after a delay. '
  'After a reconnect the heartbeats carry the new channel and endpoint.',
  ['histories', 'schedules'], 'for every ' + HIST + ' and every order in which simultaneous events are handled', NOTEST + 'tests end within a second.',
  [UDP, MON], [('heartbeat interval', UDP), ('heartbeat interval', MON)], {'time (quick/thorough)': '5/20 minutes in 10 s steps with fixed traffic; 2/4 arbitrary steps of 0..200 s; three minutes after a reconnect of three kinds; during each kind of operation', 'long (quick/thorough)': '400/3000 minutes'})

P('C25', 'A disconnect is requested once, awaited, and final',
  'Disconnecting sends one disconnect request for the channel and endpoint of the connection and completes with the disconnect response (the monitor returns its status), while other traffic neither completes it nor goes unacknowledged; without a response it fails after ten seconds, and without a connection it fails and sends nothing. '
  'After a disconnect response requests fail, the monitor reports no connection, and nothing is sent any more.',
  ['histories', 'fault_sequences'], 'for every ' + HIST, NOTEST + 'no test disconnects.',
  [UDP, MON], [('disconnect', UDP), ('disconnect', MON)], {'history': 'first or later connection, used or unused; at most one datagram of three kinds before the response, any response time; five minutes with four datagrams afterwards; the response before the sender goes on, or during another operation after the disconnect was given up', 'concurrent reconnect': 'any interleaving with 2/3 preemptions', 'long': '150 unread messages before, 180 messages before the response; up to 60 control responses and messages together with it'})

P('C26', 'A lost connection is re-established',
  'After a disconnect request from the gateway (answered once, with its channel), a connection state response with an error status, a receive error, or a failing acknowledgement or heartbeat, client and monitor drop the connection and request a new one within ten seconds. '
  'Requests fail until it is established and then use the new channel with a new numbering; an operation under way ends, with an error unless it is still answered in its time.',
  ['fault_sequences', 'histories'], 'for every ' + HIST, NOTEST + 'no test loses a connection.',
  [UDP, MON], [('reconnection loop', UDP), ('reconnection loop', MON)], {'losses (quick/thorough)': '2/3 in a row of five kinds, with and without activity before; one pending operation of five kinds; 5/50 failed attempts', 'long (quick/thorough)': '25/60 losses in a row'})

P('C27', 'Malformed datagrams neither end nor disturb the connection',
  'A datagram that is no well-formed message is ignored, connected or connecting: nothing is sent because of it, the connection is kept, and the next message is received as usual. '
  'Tunnelling requests with undecodable contents are acknowledged and otherwise ignored, except that a monitor reports an undecodable indication as an error and goes on.',
  ['inputs', 'histories'], 'for every datagram up to the bound', NOTEST + 'no test sends malformed data.',
  [UDP, MON], [('receive loop', UDP), ('try_connection', UDP)], {'octets (quick/thorough)': 'datagram 22/30, cut requests of 9 lengths up to 512, cEMI 10/16, indication 12/16, while connecting 14/30; 23 fixed shapes during each kind of operation', 'long': 'hundreds of malformed datagrams in a row'})

P('C28', 'A monitor enables the info service and notifies its listeners on connect',
  'On every connection a monitor first enables the info service of the new channel with one request numbered 0, is then reported connected, and notifies every registered listener once; listeners that went away or do not read neither delay it nor keep others from being notified. '
  'A refused connection or an enabling request that cannot be sent notifies nobody and leads to another attempt; an address that cannot be resolved is an error.',
  ['histories', 'fault_sequences'], 'for every ' + HIST, NOTEST + 'the monitor has no tests.',
  [MON], [('enable_busmonitor', MON), ('on-connection listeners', MON)], {'connections (quick/thorough)': '3/5 in a row lost in any of three ways, three listeners; the enabling request failing once or twice on the first or second; a listener added at any of 2/4 suspension points on the way', 'long (quick/thorough)': '40 listeners over 6/20 connections'})

P('C29', 'A search collects every valid answer until its time is up',
  'A search sends one search request naming its local endpoint to the discovery multicast address and returns, when its time is up and not before, every valid search response received in that time in order, and nothing else. '
  'Invalid datagrams are ignored and traffic never prolongs it.',
  ['histories', 'inputs', 'schedules'], 'for every history of answers, invalid datagrams and delays within the bound', NOTEST + 'no test searches.',
  [UDP, CORE], [('search', UDP)], {'datagrams (quick/thorough)': '2/3 of four kinds with arbitrary fields at arbitrary times; limits of 1 ms to 65 s, and of 0 up to the longest that can be expressed without answers; 20 datagrams of constant shape; 130 answers; answers of up to 322 octets'})

P('C30', 'Concurrent operations keep their results and numbering apart',
  'Operations running at the same time on one client each get the result of their own request, requests carry numbers in the order they are sent, each is sent once, and all complete; an operation given up by its caller does not disturb the others. '
  'A request concurrent with a reconnect carries channel and number of one and the same connection; waiting for a message does not block a monitor\'s other operations.',
  ['schedules'], 'for every interleaving at await points within the preemption bound', NOTEST + 'no test runs two operations.',
  [UDP, MON], [('transport mutex', UDP), ('connection data mutex', UDP), ('next_msg locking', MON)], {'operations': '2 (status+write, read+write, two writes, two reads; monitor write+read), one of them possibly given up', 'preemptions (quick/thorough)': '2..3/3..5', 'long (quick/thorough)': '12/24 operations at once'})

P('C31', 'The connection status is the gateway\'s answer to this query',
  'A status query sends one connection state request with the channel and endpoint of the connection and returns the channel and status of the next connection state response, whatever its status; responses received before it was asked, other messages and malformed datagrams never answer it, and requests are acknowledged meanwhile. '
  'It fails ten seconds after the request without a response, also when the connection was lost meanwhile, and at once when there is none.',
  ['histories', 'inputs'], 'for every ' + HIST, 'The one test has a single well-behaved answer (and fails on the unchanged tree).',
  [UDP], [('get_connectionstate', UDP)], {'messages before the outcome': '2 of four kinds with arbitrary fields and times; 0, 1, 2 or 11 earlier responses; a second query after an answered, failed or abandoned one; the response handled before the sender goes on', 'concurrent reconnect': 'any interleaving with 2/3 preemptions', 'long (quick/thorough)': '80/300 queries in a row'})

P('C32', 'Unread messages never stop acknowledgements, heartbeats or control traffic',
  'When received messages or control responses are not read, however many, every further request is still acknowledged, heartbeats go on, disconnect requests are answered and the connection is kept. '
  'Operations started afterwards work.',
  ['histories', 'configurations'], 'for every ' + HIST, NOTEST + 'no test leaves messages unread.',
  [UDP, MON], [('non-blocking hand-over to the reader', UDP)], {'unread (quick/thorough)': '104 messages, or 5/8 arbitrary ones with channel capacities reduced to 1..3; 14 control responses', 'long (quick/thorough)': '360/1200 messages of one of 17 kinds or of all of them over 30/100 minutes'})

P('C33', 'A dropped client or monitor stops its connection',
  'After a client or monitor has been dropped, its background task ends no later than at the first new bus message received: apart from the acknowledgement of that message nothing is sent afterwards, no heartbeat, no answer, no reconnection, whatever arrives. '
  'Until then, as long as the connection lasts, only heartbeats and acknowledgements are sent. This holds whenever it is dropped: idle, after operations, with unread messages, on a later connection or while connecting.',
  ['histories', 'inputs'], 'for every ' + HIST, NOTEST + 'no test drops a client.',
  [UDP, MON], [('end of the receive task when the reader is gone', UDP)], {'before the drop': 'nothing, three unread messages, a reconnection, a completed or an abandoned operation, connecting or reconnecting', 'afterwards': 'at most one of four datagrams that are no bus messages, any bus message, then five datagrams and a socket error over six minutes', 'long': 'dropped after hundreds of messages'})

P('C34', 'An abandoned operation leaves the client fully usable',
  'When the caller drops an operation at any point, started or not, waiting for a lock, to send or for an answer that may be on its way, the client or monitor continues as if the operation had only sent what it had sent so far: the connection is kept, request numbers stay consecutive, '
  'and every operation started afterwards sends exactly its request and gets its own result. A disconnect given up can be requested again, and its late answer still ends the connection.',
  ['schedules', 'histories'], 'for every operation, suspension point and interleaving within the bound, on client and monitor', NOTEST + 'no test drops an operation before it completes.',
  [UDP, MON], [('lock guards held across await points', UDP), ('send_numbered', UDP), ('draining of stale messages', UDP)], {'abandoned operations (quick/thorough)': '1/2, of every kind, at any of their first 3 suspension points', 'preemptions': '2 await points', 'afterwards': 'one operation of every kind', 'long (quick/thorough)': '120/300 abandoned operations in a row'})
