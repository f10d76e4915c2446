"""Property texts, first part: the wire codec.  tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
AI = "abstract interpretation (symbolic value numbering, structural loop summaries)"
D7 = "opendis/dis7.py"
STREAM = "opendis/stream.py"
REC = ["opendis/record/__init__.py", "opendis/record/common.py", "opendis/record/radio/__init__.py", "opendis/record/warfare/__init__.py",
       "opendis/record/bitfield.py", "opendis/record/base.py"]

P = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                  technique=technique, note=note))


TRUST = ("Complete for the package's codec code as the analyser models Python (its model of builtins, struct and BytesIO is trusted, "
         "not proved); constructs it cannot model are listed as undecided in the evidence instead of being reported.")

p("C01", "Decoding what was encoded gives back the same PDU or record",
  "For every PDU and record class and every instance whose attribute values are representable in their wire fields, decoding the bytes "
  "the instance encodes to consumes exactly those bytes and yields an instance with the same attribute values (padding excepted), list "
  "elements included and in order. Encoding the decoded instance again writes the same bytes.",
  ["inputs"], "every field value and every number of list elements, for each of the 182 classes that both encode and decode",
  "The tests round-trip six sample PDUs, most with empty lists and zero fields; a swapped, dropped, mistyped or truncated field in any of the other classes passes.",
  [D7] + REC, [("parse/serialize pairs", f"{D7} (every class)"), ("record parse/serialize pairs", "opendis/record/**"),
               ("constructor and property plumbing", "opendis/record/bitfield.py: field")],
  AI + "; read/write event alignment",
  "Every parse method is aligned against the events of its serialize method on symbolic instances with symbolic list lengths. " + TRUST)

p("C02", "Each PDU and record has the DIS 7 wire layout",
  "For every PDU and record class the encoded form is the IEEE 1278.1-2012 sequence of fields: each field has its position, width, "
  "number kind and byte order, and carries the value of its own attribute (or the derived count or length the standard puts there).",
  ["inputs"], "every instance of every class that has a layout in the reviewed table (267 instance shapes, 6155 fields)",
  "Two fields swapped, widened or reordered consistently in encoder and decoder round-trip perfectly; only a handful of PDUs are compared with captured bytes.",
  [D7] + REC, [("field order", f"{D7}: serialize methods")],
  AI + "; comparison with a layout table",
  "The oracle is oracle/layout.txt, reviewed by hand against the standard where the code was changed; unfinished areas of the repository "
  "(missing paddings, UA, Aggregate tails) are recorded as they are, so the check pins them rather than certifying them.")

p("C03", "Using any PDU or record class never trips over a programming error",
  "Constructing any PDU or record class with its default or correctly typed arguments, encoding it, decoding into it and reading its sizes and derived "
  "properties never fails because of an undefined name, a missing attribute, a wrong number of arguments or a wrong argument type. No "
  "function of the package or of the examples refers to a name that is not defined.",
  ["inputs", "programs"], "every class, every method and property of the codec, every list length, every field value; every function body for names",
  "The tests import the package and exercise some twenty of 190 classes; Python reports such mistakes only when the line runs.",
  [D7, STREAM, "opendis/PduFactory.py", "opendis/RangeCoordinates.py", "opendis/DeadReckoning.py", "examples"] + REC,
  [("class hierarchy calls", f"{D7}: super().__init__/parse/serialize"), ("name binding", "every module")],
  AI + "; scope resolution", TRUST)

p("C04", "Constructor arguments reach the attribute of the same name",
  "For every PDU and record class, a constructor argument is found unchanged in the attribute of the same name and in no other constructor "
  "attribute; an omitted optional argument gives the declared default, for record-typed ones a new record of the declared type. "
  "Numbers, texts and lists of a default-constructed instance, padding included, start as zero or empty; the exceptions are protocol version 7, "
  "Basic HAVE QUICK's MWOD index 1, directed energy damage's temperature -273.15 and fixed-size arrays, which start as zeros.",
  ["inputs"], "every constructor parameter of every PDU and record class, every value accepted (falsy values may be replaced by the declared default)",
  "Tests set attributes after default construction; hardly any constructor is called with arguments.",
  [D7] + REC, [("__init__ methods", f"{D7}, opendis/record/**")], AI + "; parameter-to-attribute flow", TRUST)

p("C05", "Encoded counts and lengths equal what is actually encoded",
  "In every encoded PDU or record, each count field that delimits a list equals the number of elements encoded for that list, "
  "and each length field that delimits variable-size data covers exactly the data encoded for it.",
  ["inputs"], "every class with variable-size content, every number of elements or bytes",
  "Tests use zero or one element; off-by-one counts, counts of another list and byte-versus-bit lengths need specific sizes to show.",
  [D7] + REC, [("number/count/length properties", f"{D7}, opendis/record/**")], AI + "; count terms compared with loop trip counts", TRUST)

p("C06", "A field's wire width and kind match its documented type",
  "Every attribute documented with a DIS number type (unsigned, signed, enumeration, structure, character or floating point of a given width) is "
  "encoded in a field of exactly that kind and width, so every documented value encodes without error or loss of bits.",
  ["inputs"], "every documented attribute of every PDU and record class",
  "A too narrow or wrongly signed field fails only for values near the limits of its range, which tests never use.",
  [D7] + REC + ["opendis/types.py"], [("write_* calls", f"{D7}: serialize methods"), ("annotations", f"{D7}: __init__ signatures")],
  AI + "; annotation comparison",
  "The documented type is the annotation on the constructor parameter, attribute or property. " + TRUST)

p("C07", "Stream primitives are exact, big-endian and mutually inverse",
  "Each write primitive emits exactly the network-byte-order (big-endian) encoding of its argument in the width its name states, each read primitive consumes "
  "exactly that many bytes and returns the value encoded in them, and a read undoes the write of the same name. Primitives keep no state "
  "beyond the stream position.",
  ["inputs", "histories"], "every primitive of the input and output streams, every argument and every byte string",
  "Stream primitives are only tested through a few PDUs with small positive values; sign, width, byte order and the less used primitives are unobserved.",
  [STREAM], [("DataInputStream", f"{STREAM}"), ("DataOutputStream", f"{STREAM}")], AI + "; codec terms per primitive",
  "oracle/primitives.txt gives the meaning of each primitive name. " + TRUST)

p("C08", "The PDU factory builds the right class for each type byte, and only from it",
  "Given a datagram, the factory returns a newly created and parsed instance of the class registered for the PDU type in its header, starting at the first "
  "byte of the stream wherever an earlier call has left it, and None for a type without a class. The other header fields and the body do not influence the choice, and the same holds for data read from a file.",
  ["inputs", "histories"], "all 256 values of the PDU type, every datagram, any sequence of calls",
  "The tests decode seven captured packets; the other sixty types, unknown types and repeated calls are never tried.",
  ["opendis/PduFactory.py", D7], [("createPdu/getPdu/createPduFromFilePath", "opendis/PduFactory.py"), ("PduTypeDecoders", "opendis/PduFactory.py")],
  AI + "; exhaustive case split on the type byte",
  "Case split over the 256 type values, parse abstracted to one event. FastEntityStatePdu deliberately shares type 1 with EntityStatePdu in this repository. " + TRUST)

p("C09", "Every PDU announces its own type, family and protocol version",
  "A newly constructed PDU of any class carries, in its attributes and in the encoded header, protocol version 7 and the PDU type and protocol family "
  "SISO-REF-010 assigns to that PDU. No two PDU classes the factory can build share a type. A class that is only a common base (a PDU family) has no type of its own and "
  "refuses to be constructed with TypeError.",
  ["inputs"], "every PDU class",
  "Only a few types are asserted; a wrong number in the family base class or in one of sixty classes goes unnoticed.",
  [D7], [("pduType class attributes", f"{D7}"), ("protocolFamily", f"{D7}: *FamilyPdu")], AI + "; enumeration table",
  "oracle/pdu_types.txt transcribes UID 4 and UID 5 for the classes present.")

p("C10", "Standard variable record types map to their classes, unknown ones stay usable",
  "Looking up a standard variable record type number returns the class that carries exactly that number when one exists in the expected family, and otherwise a class of that "
  "family that carries the requested number. A number that belongs to another family raises TypeError and a value that is no non-negative integer raises "
  "ValueError, whatever was looked up before. A record of an unknown number that is built from its data keeps the data and encodes the number, its length and the data.",
  ["inputs", "histories"], "every number, every expected family, every sequence of lookups",
  "No test looks up a record type; unknown numbers, wrong families and bad values are untested.",
  [D7, "opendis/record/__init__.py"], [("getStandardVariableClass", "opendis/record/__init__.py"), ("registry", "opendis/record/__init__.py: variableRecordClasses")],
  AI + "; case split on the registry", "oracle/sv_records.txt lists the SISO numbers of the classes present. " + TRUST)

p("C11", "A record's reported size is the number of bytes it encodes to",
  "For every class that reports its encoded size, the size equals the number of bytes encoding the instance produces.",
  ["inputs"], "every instance, with every number of nested records and bytes of data",
  "No test compares a reported size with the encoding; sizes matter only to receivers that use length fields.",
  [D7] + REC, [("marshalledSize methods", "opendis/record/**, opendis/dis7.py")], AI + "; byte-count terms", TRUST)

p("C12", "Decoding a record that declares its length consumes exactly that length",
  "Whenever decoding a variable-length record that states its own length succeeds, exactly the stated number of bytes has been consumed, for known and "
  "unknown record types alike, so that whatever follows it in the PDU is decoded from the right place. A standard variable record whose stated length is not a multiple of eight is refused.",
  ["inputs"], "every standard variable record, modulation parameter and antenna pattern record, every stated length, every type number",
  "Unknown record types and lengths longer than the known fields come only from other implementations; tests use none.",
  [D7, "opendis/record/radio/__init__.py", "opendis/record/warfare/__init__.py", "opendis/record/__init__.py"],
  [("parseStandardVariableRecord", D7), ("TransmitterPdu.parse", D7)], AI + "; linear normal form of consumed bytes", TRUST)

p("C13", "Decoding always terminates, in work bounded by the datagram",
  "Decoding any byte string terminates: every repetition during decoding is limited by a count read beforehand from a field of the datagram, and either each repetition "
  "consumes input or the count is limited by a field of at most 16 bits. Decoding never recurses without bound.",
  ["inputs"], "every byte string given to every class's decoder or to the factory",
  "Termination for all inputs cannot be sampled; a loop that runs to a terminator or a negative size hangs only on hostile data.",
  [D7, STREAM] + REC, [("parse loops", f"{D7}: parse methods")], AI + "; loop-bound and call-graph analysis",
  "Bounds the number of iterations, not wall-clock time. " + TRUST)

p("C14", "A truncated datagram is reported, never decoded into invented values",
  "When the data ends before a field that must be read, decoding raises an exception; no field is filled with missing, shortened or default data. This holds at every "
  "truncation point, including inside list elements and variable-length data.",
  ["inputs"], "every class, every truncation point of every encoding",
  "No test decodes a truncated datagram.",
  [STREAM, D7], [("read primitives", STREAM)], AI + "; short-read case analysis of each primitive", TRUST)

p("C15", "PDU and record instances share no mutable state",
  "No mutable object (list, record, nested structure) reachable from a default-constructed PDU or record is shared with another instance, with the class or with the module, so "
  "changing one instance never changes another; and no two public attributes of one instance are the same mutable object. Decoding into one instance keeps it so.",
  ["histories", "inputs"], "every pair of instances of every class, any sequence of modifications",
  "Sharing shows only when two instances of the same class are used in one process and one is changed in place.",
  [D7] + REC, [("constructor defaults", f"{D7}: __init__ methods")], AI + "; heap reachability", TRUST)

p("C16", "Decoding into a used instance leaves nothing of its earlier content",
  "After decoding into an instance that had been decoded into before, every attribute depends only on the newly decoded bytes; list contents are replaced, not extended.",
  ["histories", "inputs"], "every class, every earlier content, every new input",
  "Tests decode into fresh instances only.",
  [D7] + REC, [("parse methods", f"{D7}, opendis/record/**")], AI + "; information flow from earlier content", TRUST)

p("C17", "Encoding has no side effect on the encoded instance",
  "Encoding a PDU or record changes no attribute and no list content of it or of the records it contains, and touches nothing but the output stream, so "
  "encoding twice gives the same bytes twice.",
  ["histories", "inputs"], "every instance of every class",
  "Tests encode once.",
  [D7] + REC, [("serialize methods", f"{D7}, opendis/record/**")], AI + "; write-effect analysis",
  "The PDU header length, which this library leaves to the caller, is part of the claim: encoding does not alter it. " + TRUST)
