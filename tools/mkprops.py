"""Writes properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
SCH = "epcpy/epc_schemes/"
TAGF = [SCH+f+".py" for f in "adi cpi gdti giai gid grai gsrn gsrnp itip sgcn sgln sgtin sscc usdod".split()]
GS1F = [SCH+f+".py" for f in "cpi gdti giai ginc grai gsin gsrn gsrnp itip lgtin pgln sgcn sgln sgtin sscc upui".split()]
KEYF = [f for f in GS1F if not f.endswith(("cpi.py", "itip.py", "upui.py"))]
ALLF = sorted(set(TAGF + GS1F + [SCH+"bic.py", SCH+"imovn.py"]))
BASE, COMMON, PARSERS, REGEX = SCH+"base_scheme.py", "epcpy/utils/common.py", "epcpy/utils/parsers.py", "epcpy/utils/regex.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                  observe_at=observe)))

p("C01", "Tag round trip returns the same EPC",
  "For every valid EPC of a tag-encodable scheme, every coding scheme and every filter value with which it can be encoded, decoding the produced binary, hexadecimal or base64 tag contents - through the scheme's own class or through the generic tag parsers - yields an EPC of the same scheme with the same pure identity URI. The only permitted difference is the spelling of percent-escapes: characters written as needless or lower-case escapes come back in the standard spelling.",
  ["inputs", "configurations"], "all valid EPCs of the 14 tag-encodable schemes x coding schemes x filter values x {binary, hex, base64} x {class method, generic parser}",
  "Each scheme has between 2^80 and 10^60 identities, and the result depends on company prefix length, digit padding, escapes, character adjacency and numeric ranges together; the tests round-trip a handful of hand-picked tags.",
  [BASE, COMMON, PARSERS] + TAGF,
  [("binary encoders and decoders of each scheme", "binary/from_binary in "+SCH+"*.py"), ("partition table and string codecs", COMMON), ("hex and base64 conversions", BASE+", "+COMMON)],
  ["binary/hex/base64 of an EPC object", "from_binary/from_hex/from_base64 and the generic binary, hex and base64 parsers"])

p("C02", "Encoded bits follow the standard layout",
  "For every valid EPC and every coding scheme and filter value that can represent it, the binary encoding is exactly the one the EPC Tag Data Standard prescribes: header, filter, partition value for the company prefix length, each number in its field width, each character in its seven-, six- or eight-bit code, terminators and zero padding. Fixed-size schemes produce exactly the number of bits in their name, and no two different identities share an encoding under one scheme and filter.",
  ["inputs", "configurations"], "all valid EPCs of the tag-encodable schemes x coding schemes x filter values",
  "A round trip cannot see an encoder and decoder that agree on the wrong layout, and tests compare a few constants; a wrong width, table entry or character code only shows for particular prefix lengths, characters or values.",
  [COMMON, BASE] + TAGF,
  [("binary encoders", "binary in "+SCH+"*.py"), ("partition tables", "PARTITION_TABLE_* in "+SCH+"*.py"), ("character and number encoders", COMMON)],
  ["binary of an EPC object"])

p("C03", "What a coding scheme cannot hold is refused",
  "Asking for the tag URI, binary, hexadecimal or base64 form of a valid EPC (written with standard escapes) succeeds exactly when the chosen coding scheme can represent its serial or reference without loss - digits only, no leading zero, and within the numeric range for the 96- and 110-bit schemes, always for the full-length schemes. In every other case all four forms fail with the library's conversion error, and never yield altered, truncated or over-long data.",
  ["inputs", "configurations"], "all valid EPCs with standard escapes x coding schemes x filter values x the four tag representations",
  "The boundary lies at values such as 2^38 or a single leading zero among 10^20 serials, and differs per scheme and prefix length; tests try a few refused values, and not through every representation.",
  [COMMON, BASE] + TAGF,
  [("range and leading-zero checks", "tag_uri in "+SCH+"{sgtin,sgln,grai,gdti,giai,cpi,itip}.py"), ("binary encoders", "binary in "+SCH+"*.py")],
  ["tag_uri/binary/hex/base64 of an EPC object"])

p("C04", "Decoding arbitrary tag bits is exact or refused",
  "For every string of bits offered to a scheme's binary decoder or to the generic binary parser, the result is either the conversion error or a valid EPC whose encoding, under the coding scheme named by the header and the filter in the bits, reproduces the bits that were read (bits beyond the coding scheme's length, reserved bits and unused field bits aside). Bits that encode a valid EPC are accepted.",
  ["inputs"], "all bit strings: for every known header all contents of the fixed-size schemes and all contents of the variable-size schemes up to the length they can occupy, plus trailing bits; every other first byte and short strings",
  "There are 2^96 to 2^212 tag contents per header; a decoder that maps two different tags to one EPC, or misreads an unaligned field, is only noticed on particular bit patterns.",
  [COMMON, BASE, PARSERS] + TAGF,
  [("binary decoders", "from_binary in "+SCH+"*.py"), ("partition, string and number decoders", COMMON), ("header dispatch", COMMON+", "+PARSERS)],
  ["from_binary of each scheme", "generic binary parser"])

p("C05", "Hex and base64 are faithful images of the bits",
  "The hexadecimal form of a tag is the binary form padded with zero bits on the right to a multiple of 16 and written in upper-case hexadecimal with no digit lost, and the base64 form is the standard base64 of those bytes. Reading hexadecimal (in either case) or base64 behaves exactly as reading the bits they stand for, for every tag content.",
  ["inputs", "configurations"], "all valid EPCs x coding schemes x filters for writing; all tag contents in hexadecimal of any length, in either case, and base64 for reading",
  "Padding depends on the length of variable-size tags and a lost leading zero on the first digit; tests compare a few constants.",
  [BASE, COMMON, PARSERS] + TAGF,
  [("hex and base64 output", BASE), ("hex, base64 and binary conversions", COMMON), ("generic parsers", PARSERS)],
  ["hex/base64 of an EPC object", "from_hex/from_base64 and the generic hex and base64 parsers"])

p("C06", "Tag URIs name the tag exactly and read back",
  "For every valid EPC and every coding scheme and filter value that can represent it, the tag URI consists of the tag prefix, the coding scheme name, the filter value (none for GID) and the components exactly as in the pure identity URI. Reading that tag URI, through the scheme's class or the generic tag URI parser, gives back an EPC of the same scheme with the identical pure identity URI.",
  ["inputs", "configurations"], "all valid EPCs of the tag-encodable schemes x coding schemes x filter values",
  "Serials may contain dots, colons and escapes that collide with the separators of the URI; only particular combinations are sampled by tests.",
  [BASE, PARSERS, REGEX] + TAGF,
  [("tag URI output", "tag_uri in "+SCH+"*.py"), ("tag URI parsing", BASE+", "+PARSERS)],
  ["tag_uri of an EPC object", "from_tag_uri and the generic tag URI parser"])

p("C07", "GS1 element strings are exact and read back",
  "For every valid EPC of a scheme with a GS1 element string, that string is the one GS1 prescribes: application identifiers in parentheses, the company prefix, reference and indicator digits in GS1 order, the right check digit, and the serial with all escapes resolved. Parsing it with the company prefix length of the EPC, through the scheme's class or the generic element string parser (and, for trade items, from the GTIN and serial), gives back the same EPC up to the spelling of escapes.",
  ["inputs"], "all valid EPCs of the 16 GS1 schemes, for every company prefix length",
  "Check digits, indicator digits, seven prefix lengths and serials containing parentheses, percent signs, dots or colons interact; tests cover a few examples per scheme.",
  [COMMON, PARSERS, REGEX] + GS1F,
  [("element string output and parsing", "gs1_element_string/from_gs1_element_string in "+SCH+"*.py"), ("escape handling and check digits", COMMON)],
  ["gs1_element_string, from_gs1_element_string, from_gtin_plus_serial", "generic element string parser"])

p("C08", "GS1 keys and check digits are right",
  "For every valid EPC with a GS1 key, the key consists of the company prefix and reference digits in GS1 order followed by a check digit that makes the weighted digit sum a multiple of ten where GS1 prescribes one, and by the unescaped serial where the key includes it. A GTIN requested in 8, 12 or 13 digits is the last digits of the 14-digit one when the omitted digits are zeros, and is refused with the conversion error otherwise.",
  ["inputs", "configurations"], "all valid EPCs of the 13 keyed schemes x GTIN lengths",
  "A wrong weight, parity or digit order is invisible on inputs whose digits happen to agree; the key space is 10^12 and more per scheme.",
  [COMMON] + KEYF,
  [("key construction", "__init__, gs1_key, gtin in "+SCH+"*.py"), ("check digit", COMMON+", "+SCH+"gsin.py")],
  ["gs1_key and gtin of an EPC object", "generic URI-to-key parser"])

p("C09", "Every well-formed EPC URI is accepted unchanged",
  "Every pure identity URI that follows the grammar of its scheme in the EPC Tag Data Standard - digit counts, company prefix of 6 to 12 digits, serial of permitted length and characters with standard escapes, numeric range - is accepted for all 21 schemes, both by the scheme's class and by the generic parser. The resulting object is of that scheme, reports exactly the given URI, and is equal to another EPC object exactly when the URIs are equal.",
  ["inputs"], "all grammatical URIs of all 21 schemes",
  "A valid identifier wrongly rejected needs a particular length, character or escape position out of an astronomically large language; tests list a few valid URIs per scheme.",
  [REGEX, COMMON, PARSERS, BASE] + ALLF,
  [("constructors", "__init__ in "+SCH+"*.py"), ("grammar", REGEX), ("equality", BASE), ("generic parser", PARSERS)],
  ["constructors and from_epc_uri", "generic pure identity parser", "epc_uri and equality of EPC objects"])

p("C10", "Only well-formed EPC URIs are accepted",
  "For every string whatsoever given to a scheme's constructor, either the conversion error is raised or the string is a URI of that scheme in which every component has the permitted length, characters, escapes and numeric range. No other exception leaves the constructor, and an accepted object answers its key and element string requests without failing.",
  ["inputs"], "all Unicode strings of any length, for all 21 constructors",
  "Acceptance of a malformed identifier is a statement about infinitely many strings, including unusual Unicode digits, dangling escapes and huge numbers that no list of invalid examples covers.",
  [REGEX, COMMON] + ALLF,
  [("constructors", "__init__ in "+SCH+"*.py"), ("grammar", REGEX), ("escape validation", COMMON)],
  ["constructors and from_epc_uri", "gs1_key, gs1_element_string"])

p("C11", "Generic URI parsing finds the right scheme",
  "For every valid EPC URI the generic parsers return an object of the scheme named in the URI, and the narrower parsers (GS1 element, GS1 keyed, tag encodable, element string, key) return the corresponding object or text exactly for schemes that have that capability and raise the conversion error for all others. Element strings of any scheme are recognised as that scheme and no other.",
  ["inputs", "configurations"], "all valid EPC URIs and element strings of all 21 schemes x the six generic URI parsers and the element string parser",
  "Dispatch goes through shared tables and overlapping patterns whose first match depends on the whole text; tests try one example per pair at most.",
  [PARSERS, BASE, REGEX] + ALLF,
  [("dispatch tables and functions", PARSERS), ("capability classes", BASE)],
  ["epc_pure_identity_to_* parsers", "generic element string parser"])

p("C12", "The GS1 key does not depend on the representation",
  "For every valid EPC of a keyed scheme, asking for the GS1 key of its pure identity URI, of its tag URI, of its element string together with the company prefix length, or of its binary or hexadecimal tag contents (in either case) gives the key of that EPC, for every coding scheme and filter that can represent it. An identity pattern that leaves open only the serial gives the key of the identified class, and sources without a key are refused with the conversion error.",
  ["inputs", "configurations"], "all valid EPCs of the 13 keyed schemes x all representations x coding schemes x filters; serial-wildcard patterns",
  "The function guesses the representation from the text; a source that also looks like another representation is mishandled only for particular values.",
  [PARSERS, BASE, COMMON, REGEX] + KEYF,
  [("representation detection", "get_gs1_key, _idpat_to_gs1_keyed_scheme in "+PARSERS)],
  ["get_gs1_key"])

p("C13", "Answers do not depend on earlier calls",
  "Every answer an EPC object or a parser gives depends only on the identity and the arguments: after any sequence of successful or refused calls on this or other objects, each accessor returns the same text as on a fresh object, and the object's URI is unchanged. Default arguments behave as the documented values given explicitly.",
  ["histories", "inputs"], "all valid EPCs, all sequences of accessor and parser calls with all arguments",
  "Stale caches and mutated shared tables need a particular order of calls on one or two objects; tests use each object once.",
  [BASE, PARSERS, COMMON] + ALLF,
  [("object state", "__init__ and accessors in "+SCH+"*.py"), ("module tables", "PARTITION_TABLE_*, dispatch tables in "+PARSERS)],
  ["all accessors of EPC objects", "all generic parsers"])

p("C14", "Tag contents are dispatched by their header alone",
  "The generic binary, hexadecimal, base64 and tag URI parsers select the scheme from the header byte or scheme name, each of the 21 headers and 21 coding scheme names belonging to exactly one scheme, and then behave exactly as that scheme's own decoder, result or conversion error. A scheme's own decoder refuses tag contents whose header belongs to another scheme or to none.",
  ["inputs", "configurations"], "all tag contents with any first byte and all tag URIs, for the four generic parsers and the 14 classes",
  "It is a statement about all 256 headers against all 14 decoders and arbitrary contents behind them.",
  [PARSERS, COMMON, BASE] + TAGF,
  [("header and name tables", PARSERS), ("header check", COMMON)],
  ["generic binary, hex, base64 and tag URI parsers", "from_binary/from_hex/from_base64/from_tag_uri"])

p("C15", "Malformed text always raises the conversion error",
  "For every string whatsoever, each way of reading text - the generic parsers, the key lookup, and every scheme's readers of pure identity URIs, tag URIs, element strings with a company prefix length of 6 to 12, binary, hexadecimal and base64 - either succeeds or raises the library's conversion error. No other kind of exception escapes.",
  ["inputs"], "all Unicode strings of any length given to each of the text readers",
  "Crashes hide behind strings with missing separators, non-ASCII digits, too few bits or thousands of digits; the space is infinite and tests only list a few invalid examples.",
  [PARSERS, COMMON, BASE, REGEX] + ALLF,
  [("generic parsers", PARSERS), ("scheme readers", SCH+"*.py"), ("conversions", COMMON)],
  ["all from_* constructors and generic parsers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
