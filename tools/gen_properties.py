import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":mech}
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
H="include/vrtgen/"
T="src/vrtgen/backend/cpp/templates/"
p("C01","Sub-field writes never disturb neighbouring bits; reads return what was written",
"Every sub-field of a packed word, given by its most-significant bit and its width, reads back the low-order bits of the last value written to it, and writing it leaves every other bit of the word as it was, whatever value is written. The word packs to big-endian bytes whose bit numbering matches the position given, unpacking restores exactly the packed word, and the any/none queries tell whether some bit is set.",
["inputs"],"every word width (8/16/32/64), every previous word content, every value of the argument type, every position/width the library uses",
"Tests write a few hand-picked values to a few fields and look at single bytes; the guarantee is over all 2^n prior contents and all argument values, including ones wider than the field.",
[H+"types/packed.hpp"],"vrtgen::packed<T>::get/set/any/none/pack_into/unpack_from, field_traits mask and shift")
p("C02","Byte-order conversion is the exact big-endian mapping for every integer type",
"Converting an integer of any supported width and signedness to network order yields the value whose in-memory bytes are the most-significant-first bytes of the original, and converting from network order is the exact inverse. One-byte values are unchanged.",
["inputs"],"every value of every 8/16/32/64-bit signed and unsigned integer type",
"A test samples a handful of constants per width; sign extension or a swapped pair of bytes can hide behind palindromic or positive samples.",
[H+"types/swap.hpp"],"vrtgen::swap::to_be/from_be")
p("C03","Fixed-point conversion is nearest-value and lossless on representable values",
"Converting a real value that fits the N-bit format with radix R yields the nearest integer multiple of 2^-R (ties away from zero), and converting any N-bit integer back yields exactly that integer times 2^-R. Consequently integer -> real -> integer is the identity for every integer of the format, and the error of real -> integer -> real is at most half of one step.",
["inputs"],"every finite in-range floating-point argument and every integer of each (N,R) format used by the library or by generated packets",
"Tests compare a few decimal values; rounding direction, precision loss in 64-bit formats and wrong scale for one format appear only at particular bit patterns.",
[H+"types/fixed.hpp"],"vrtgen::fixed::to_int/to_fp")
p("C04","UUID text and byte forms denote the same 128-bit value",
"A UUID set from a 32-hex-digit string (dashes in 8-4-4-4-12 form, either letter case) packs to the sixteen bytes spelled by those digits in order, unpacking those bytes and asking for the text gives the lower-case dashed form of the same digits, and packing after unpacking reproduces the sixteen bytes.",
["inputs"],"every 128-bit value and every letter-case variant of its dashed or undashed text",
"Tests use one or two UUID constants; each nibble value at each of 32 positions is a separate case.",
[H+"types/uuid.hpp"],"vrtgen::UUID set/get/pack_into/unpack_from")
p("C05","Packet header and class identifier fields sit at their VITA 49.2 bit positions",
"Each header field (packet type, class-id indicator, the indicator bits specific to data, context and command packets, TSI, TSF, TSM, packet count, packet size) and each class-identifier field (pad bits, OUI, information code, packet code) is stored at its VITA 49.2 bit position of the big-endian word. For every previous content, writing one of them changes no other field and reading it returns the value written; packing then unpacking restores every field.",
["inputs"],"every 32/64-bit previous content and every argument value of every accessor",
"Tests set one field at a time on a zeroed word; aliasing between fields is visible only with other fields non-zero.",
[H+"packing/header.hpp",H+"packing/prologue.hpp"],"Header, DataHeader, ContextHeader, CommandHeader, ClassIdentifier accessors")
p("C06","Every CIF and warning/error indicator controls exactly its own standard bit",
"Each named indicator of the CIF0, CIF1, CIF2, CIF3 and CIF7 words, and of the warning and error indicator words built on the same layout, reads and writes exactly the bit VITA 49.2 assigns to that name, independently of all other bits, and no two names of one word share a bit. The words pack to and unpack from four big-endian bytes without loss.",
["inputs"],"every 32-bit previous content, both argument values, every indicator name of every indicator word",
"About 100 indicators times all contents of the other 31 bits; tests check the named bit on an otherwise zero word and cover only part of the names.",
[H+"packing/indicator_fields.hpp",H+"packing/cif0.hpp",H+"packing/cif1.hpp",H+"packing/cif2.hpp",H+"packing/cif7.hpp",H+"packing/command.hpp"],"IndicatorField0/1/2/3/7 and the CIFx / WIFx / EIFx types derived from them")
p("C07","State/event indicators and trailer bits: enable and value stay consistent",
"For every previous content of a trailer or state-and-event word, setting an indicator makes its enable bit set and its value readable, disabling it makes it unreadable (absent), and an indicator reads as present exactly when its enable bit is set; no other indicator changes. User-defined and sample-frame bits and the associated context packet count follow the same rule at their VITA 49.2 positions, and packing then unpacking preserves all of them.",
["inputs","histories"],"every 32-bit previous content, hence every history of operations, and every argument value",
"Tests run short fixed sequences from a zeroed word; interactions between indicators need arbitrary prior content.",
[H+"packing/state_event_indicators.hpp",H+"packing/trailer.hpp"],"StateEventIndicators, Trailer")
p("C08","Control and acknowledge mode words encode each option at its standard bits",
"Each option of the control/acknowledge-mode word of a control or an acknowledge packet (id enables and formats, partial-execution permits, action mode, nack, request and acknowledge selectors, partial action, scheduled-or-executed, timing control) is stored at its VITA 49.2 bit position; writing one changes no other option and reading returns what was written, for every previous content. The per-field warning/error response word behaves the same way.",
["inputs"],"every 32-bit previous content and every argument value of every accessor",
"Tests toggle single bits on a zero word.",
[H+"packing/command.hpp"],"ControlAcknowledgeMode, ControlCAM, AcknowledgeCAM, WarningErrorFields")
p("C09","Fixed-size CIF structures keep each component at its standard position and scale",
"For every fixed-size structured field (gain, reference level, device identifier, geolocation, ephemeris, payload format, polarization, pointing vector, beam width, Eb/No-BER, threshold, intercept points, SNR/noise, spectrum, version information, buffer size, sector/step-scan subfield CIF, belief, probability), each component is stored at its VITA 49.2 word, bit position and fixed-point scale; for every previous content, writing one component leaves every other component unchanged and reading it returns the value written to within the format's resolution. The packed size is the standard size, a default-constructed structure holds the values the interface documents, and packing then unpacking restores every component.",
["inputs"],"every previous content, every representable argument of every component accessor",
"Round-trip tests use one value per component, positive and small; sign, neighbour corruption and bit-position errors need all values and all prior contents.",
[H+"packing/cif0.hpp",H+"packing/cif1.hpp",H+"packing/cif7.hpp"],"class definitions of the structured CIF fields")
p("C10","Variable-size fields declare their true size and survive pack/unpack",
"For GPS ASCII texts, context association lists, index lists (of 1-, 2- and 4-byte entries) and sector/step-scan arrays of any length, whether filled through the setters, through the returned reference or by unpacking over any earlier content, the reported size equals the number of bytes packing writes and is a whole number of 32-bit words, the counts and sizes packed into the field describe exactly the elements it carries, elements follow big-endian and in order, padding is zero, and unpacking the packed bytes yields a field with the same elements, sizes and counts. Packing writes nothing outside that many bytes and unpacking reads nothing outside them. The fixed-size warning/error words do the same.",
["inputs"],"every element count the field can express, every element value, and every earlier content of the field",
"Tests pack one or two lists with a fixed length; padding, counts and element order depend on length, content and history.",
[H+"packing/cif0.hpp",H+"packing/cif1.hpp",H+"packing/command.hpp"],"GPS_ASCII, ContextAssociationLists, IndexList, SectorStepScan, WarningErrorFields")
p("C11","Packing and unpacking touch exactly the bytes the type's size announces",
"For every fixed-size word or structure of the library, packing writes exactly as many bytes as its size announces at the given address and nothing else, does not change the object, and unpacking reads exactly those bytes, changes nothing but the object, and makes it pack back to the very bytes read, whatever they are.",
["inputs"],"every object content and every source byte string, any buffer placed exactly around the field",
"Tests use buffers with slack and compare known values; a one-byte overrun or an ignored reserved bit leaves them green.",
[H+"types/packed.hpp",H+"types/uuid.hpp",H+"packing/cif0.hpp",H+"packing/cif1.hpp",H+"packing/cif7.hpp",H+"packing/header.hpp",H+"packing/prologue.hpp",H+"packing/command.hpp",H+"packing/trailer.hpp"],"size/pack_into/unpack_from of every packing type")
p("C12","A generated packet's size field always equals its length in 32-bit words",
"At every moment at which a user of a generated packet class can see its bytes, their number is a multiple of four and the header's packet-size field equals that number divided by four, after any sequence of construction, field writes, resets, payload changes and serialisation that keeps the packet within the 65,535 words the size field can express.",
["histories","inputs"],"every reachable object state of every generated packet class in the corpus, every operation and argument",
"Tests check the size after a few fixed sequences; each operation must preserve it from every state.",
[T+"packet.cpp.jinja2",T+"macros/function_defs/cif.jinja2",T+"macros/function_defs/data.jinja2",T+"macros/function_defs/constructors.jinja2"],"update_packet_size/update_positions/sync of generated classes")
p("C13","Generated packets serialise their fields at standard offsets in standard order",
"The bytes of a generated packet are exactly: header, then stream id, class id, integer and fractional timestamps, command prologue, the CIF words that are in use, and then the fields whose indicators are set, in VITA 49.2 order with no gaps other than standard reserved words; each in its big-endian wire form, for every combination of optional fields present. Every indicator bit is set exactly when its field is present. (Fields of fixed size; those of variable size are the subject of another property.)",
["histories","inputs","configurations"],"every subset of optional fields, every field value, for each packet class generated from the corpus",
"n optional fields give 2^n layouts and many orders of setting them; tests look at one or two.",
[T+"macros/function_defs/cif.jinja2",T+"macros/function_defs/constructors.jinja2",T+"macros/function_defs/bytes_required.jinja2"],"constructors, update_positions, setters and sync of generated classes")
p("C14","Setting, reading or resetting a generated packet field affects only that field",
"After a field of a generated packet is written it reads back as the value written (to the wire format's resolution), after it is reset it reads as absent, and in both cases every other field, whether present or absent, reads as before; reading changes nothing. This holds from every state, including optional fields in an otherwise unused CIF word.",
["histories","inputs"],"every reachable state, every operation and every argument",
"Insertion and removal shift every later field; an error shows only for particular presence combinations.",
[T+"macros/function_defs/cif.jinja2",T+"macros/function_defs/common.jinja2"],"generated getters, setters, reset functions")
p("C15","Parsing the bytes of a generated packet reproduces the packet",
"Constructing a generated packet from the bytes of any packet of the same class yields an object whose every field reads as in the original and whose own serialisation is byte-for-byte identical, for every combination of optional fields and every field value; later operations on it behave as on the original.",
["inputs","histories"],"every well-formed byte string of the class (every optional subset, every value)",
"Tests parse one or two hand-written packets.",
[T+"macros/function_defs/constructors.jinja2"],"unpacking constructor of generated classes")
p("C16","A generated packet class accepts exactly the packets of its own kind",
"The match function of a generated class, given a byte string at least as long as the fixed part of the packet, accepts it exactly when the identifying elements fixed by its specification agree: packet type, indicator bits, timestamp types and mode (where the specification does not leave them open), class id (pad bits excluded), and for commands the control/acknowledge options the specification fixes; anything else is rejected with a reason. It accepts every packet the class itself can produce.",
["inputs","configurations"],"every header word, class id and command prologue content",
"Tests try the matching packet and a few mismatches; acceptance must be decided by every identifying bit and by no other.",
[T+"macros/function_defs/match.jinja2"],"static match() of generated classes")
p("C17","A new packet carries exactly the constants fixed by its specification",
"A freshly constructed generated packet has the packet type, indicator bits, TSI/TSF/TSM, stream-id presence, class id, control/acknowledge options and required CIF indicators its specification states, all remaining bits zero apart from documented field defaults, and the minimum length that layout needs.",
["configurations","inputs"],"each packet specification of the corpus",
"Tests check a few bytes of a few packets; a constant lost for one option combination is invisible.",
[T+"macros/function_defs/constructors.jinja2","src/vrtgen/backend/cpp/type_helpers.py","src/vrtgen/parser/loader.py"],"generated default constructors")
p("C18","Data payloads are stored verbatim, zero-padded to a word, before the trailer",
"Setting a payload of any length on a generated data packet stores its bytes unchanged right after the prologue, pads with zero bytes to the next 32-bit boundary, keeps the prologue and the trailer unchanged with the trailer as last word, and the payload view then starts with those bytes and has the padded length; this holds for every previous payload length, for packets within the 65,535 words the size field can express.",
["inputs","histories"],"every payload length and content and every previous state",
"Tests use a few lengths on a fresh packet; shrinking after growing and padding of stale bytes depend on the history.",
[T+"macros/function_defs/data.jinja2"],"payload setter/getter, trailer position of generated data packets")
p("C19","Warning and error responses are reported consistently in acknowledge packets",
"In a generated validation/execution acknowledge packet, adding a warning or an error for a field sets exactly that field's indicator in the warning or error word, adds its response word at the standard position, and sets the acknowledge word's warning/error flags; removing it, or a whole warning or error word, undoes exactly that. Reading returns the response set, all other responses and fields are unchanged, the packet size field stays right, and a packet parsed from the bytes reads the same, in every order of additions and removals.",
["histories","inputs"],"every combination of responses already present, every response value",
"Tests add one or two responses in one order.",
[T+"ack_packet.cpp.jinja2",T+"ack_packet.hpp.jinja2",T+"macros/types/weif.jinja2"],"generated acknowledge packet classes")
p("C20","User-defined bit fields occupy disjoint bits exactly as specified",
"Each user-defined sub-field (discrete I/O, trailer indicators, stream identifier) of a generated packet occupies the word, bits and enable bits its specification gives, disjoint from every other; for every previous content, writing one reads back as written, changes no other, and packing then unpacking preserves all.",
["inputs","configurations"],"every previous content, every value of each sub-field, each specification of the corpus",
"Tests set one or two sub-fields on a zero word.",
[T+"macros/types/user_class.jinja2","src/vrtgen/parser/model/cif1.py","src/vrtgen/parser/model/data.py","src/vrtgen/parser/model/prologue.py"],"generated structs for user-defined fields and their bit allocation")
p("C21","Specification literals are parsed to exactly the value they denote, or refused",
"Every literal a packet specification gives to the loader is converted to the one value it denotes or refused with an error. Keywords (integer and fractional timestamp formats, timestamp mode, spectrum/time, required/optional for every CIF, attribute, trailer and control/acknowledge field, action mode, identifier format) are accepted in any letter case and in no other spelling; index-list entry sizes are 8, 16 or 32; an OUI is three dash-separated pairs of hexadecimal digits, the reserved one refused; packet and information codes are integers of at most 16 bits, stream identifiers of at most 32, bit counts positive; a name that denotes no field is refused. An accepted literal changes exactly the field it is given for: its enabled/required mode and value, whatever the state before, and nothing else of the specification.",
["inputs"],"every string, every integer and every earlier state of the specification object",
"Tests feed a few spellings; the accept/reject boundary is over all strings.",
["src/vrtgen/parser/value.py","src/vrtgen/parser/loader.py","src/vrtgen/parser/model/base.py","src/vrtgen/parser/model/prologue.py","src/vrtgen/parser/model/cif0.py","src/vrtgen/parser/model/cif1.py","src/vrtgen/parser/model/cif2.py","src/vrtgen/parser/model/cif7.py","src/vrtgen/parser/model/command.py","src/vrtgen/parser/model/context.py","src/vrtgen/parser/model/data.py","src/vrtgen/parser/model/information.py","src/vrtgen/parser/model/types/packing.py"],"parse_* functions and mapping setters of the specification loader")
p("C22","Parsing received bytes never touches memory outside them",
"Constructing a generated packet from any received byte string, including truncated or inconsistent ones, or asking whether it matches, reads no byte outside the string and writes no byte outside the packet's own storage; neither does any later query of the fields, the size, the payload or the packed bytes of a packet so obtained. (Packet classes whose fields are of fixed size.)",
["inputs"],"every byte string of every length",
"Tests only parse complete, consistent packets.",
[T+"macros/function_defs/constructors.jinja2",T+"macros/function_defs/match.jinja2"],"unpacking constructors and match() of generated classes")
p("C23","Transport endpoints and sends carry exactly the address and bytes given",
"A socket endpoint built from an address and a port reports that address and port, in network byte order to the operating system; setting the one leaves the other alone. Each socket operation (open, bind, connect, listen, accept, send, receive, write, read, time-out, shutdown) makes exactly the one operating system call it names, on the socket's descriptor (an accepted connection's for TCP transfers), with exactly the caller's buffer, length and endpoint, and reports its result; source and destination change only when the operation that sets them succeeds. Sending a packet (no acknowledgement requested) hands the operating system exactly the packet's bytes and length, once. Every descriptor obtained is closed exactly once.",
["inputs"],"every address, port and byte string",
"The socket classes have no unit tests here.",
[H+"socket/socket_base.hpp",H+"socket/socket_endpoint.hpp",H+"socket/udp.hpp",H+"socket/tcp.hpp",H+"utility.hpp"],"socket endpoint and socket wrappers")
p("C24","Messaging client delivers each inbound message once, in order, to its waiter",
"Under every interleaving of subscription callbacks and readers, the NATS client hands each received message to exactly one reader, in arrival order, without data races or lost wake-ups.",
["schedules"],"every interleaving of the library's callback threads and reader threads",
"No test runs the NATS client; races need particular interleavings.",
[H+"nats/client.hpp"],"client message queues, mutexes and condition variables")
p("C25","Controller and controllee pair every request with its own acknowledgement",
"A generated controller returns, for each control packet sent with acknowledgement requested, the acknowledge packet whose message, controllee and controller identifiers are those of that request, and a generated controllee answers exactly the acknowledgements requested.",
["histories","schedules"],"every sequence of requests, replies and timeouts",
"The generated controller classes are only syntax-checked by the build.",
[T+"controller.hpp.jinja2",T+"controllee_base.hpp.jinja2",T+"macros/controller/controller.jinja2",T+"macros/controllee/controllee_base.hpp.jinja2"],"generated Controller/Controllee classes")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
