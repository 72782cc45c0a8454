"""Single source of properties.jsonl and MANIFEST.json.  python3 props.py writes both."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    # rough sentence count
    assert len(re.findall(r'[.;](?:\s|$)', statement)) <= 6, id
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))


CORE = 'asn1crypto/core.py'
NOTE = ('Bounded and exhaustive: every case of the stated finite spaces is executed on the real code of /repo and compared '
        'with an independent reference model; nothing is sampled. Says nothing outside of the stated alphabets and bounds. '
        'Trusts CPython and the reference model in mc/. ')

prop('C01', 'TLV framing is decoded exactly, within the buffer, and never guessed',
     'Decoding one element from any byte string yields exactly the class, constructed flag, tag number, header octets, content octets '
     'and trailer that BER framing defines, including high tag numbers, long lengths and nested indefinite lengths, and header + content + '
     'trailer is exactly a prefix of the input. A buffer that is truncated, has a malformed identifier or length, or (in strict mode) has '
     'octets after the element raises ValueError. peek() agrees with parse() on the size of the element.',
     ['inputs'], 'every byte string over an adversarial alphabet up to a length bound, all short full-alphabet buffers, and every small element tree in every framing, truncated everywhere',
     'tests decode a few dozen well-formed files and a handful of malformed headers; length/tag arithmetic must hold for every buffer',
     ['asn1crypto/parser.py', CORE],
     [('recursive header scanner', 'parser.py _parse'), ('strict trailing data', 'parser.py parse')],
     ['parser.parse', 'parser.peek', 'Any.load/Asn1Value.load'],
     'exhaustive bounded enumeration of buffers on the real parser vs a reference TLV grammar', '')
prop('C02', 'Emitted TLV headers are minimal DER and decode back to what was emitted',
     'Emitting an element for any class, method, tag number and content produces the minimal DER identifier and length octets followed by the content, '
     'and decoding it gives back the same class, method, tag and content. The header of a dumped value uses the same octets. Arguments outside of the '
     'ranges raise ValueError or TypeError instead of producing octets.',
     ['inputs'], 'all classes x methods x tag numbers and content lengths around every encoding boundary, and values tagged implicitly and explicitly with them',
     'tests emit a handful of tags and lengths; the boundaries 30/31, 127/128, 2^7k and 2^8k are what breaks',
     ['asn1crypto/parser.py', CORE], [('header writer', 'parser.py _dump_header'), ('emit', 'parser.py emit')],
     ['parser.emit', 'Asn1Value.dump'], 'exhaustive bounded enumeration of header fields vs a reference encoder', '')
prop('C03', 'Hostile input only ever raises ValueError or TypeError and always terminates',
     'Loading any truncated or corrupted encoding (nested up to 100 deep) of any of the structures the library defines, and then walking, reading natively and re-encoding it, either succeeds or raises '
     'ValueError or TypeError; it never raises another exception type, never loops, and never returns silently from a truncated buffer. '
     'An error found while reading a value is found again when it is read again.',
     ['inputs', 'fault_sequences'], 'every truncation, every single-octet corruption from an adversarial alphabet and every tag/length fault at every node of a corpus of synthetic encodings of every top-level structure',
     'tests contain a few malformed files; the fault space is every octet of every structure',
     [CORE, 'asn1crypto/parser.py', 'asn1crypto/x509.py', 'asn1crypto/keys.py', 'asn1crypto/cms.py'],
     [('_build type checks', CORE), ('_parse_children error wrapping', CORE)], ['load', '.native', 'dump(force=True)'],
     'exhaustive single-fault injection (truncation, octet, node) into encodings, executed on the real decoder', '')
prop('C04', 'An untouched decoded value re-encodes to exactly the octets it was decoded from',
     'For every structure and every BER or DER encoding it accepts, dump() of the decoded value, and of every element reached inside it, returns the octets it was decoded from, however much of it was read, compared, printed or copied before. '
     'This includes non-minimal lengths, unknown trailing fields, explicit defaults and unsorted sets; an element that itself uses the indefinite length is normalised to the DER encoding of its value instead.',
     ['inputs', 'histories'], 'all small element trees of a family of schemas x every BER framing variant x every subset of read accesses before the dump',
     'signatures depend on it: a test of one file cannot show that no access path re-encodes',
     [CORE], [('lazy contents and headers', CORE + ' Asn1Value.dump'), ('mutation tracking', CORE + ' Sequence._is_mutated')],
     ['load', 'dump', 'contents'], 'exhaustive enumeration of encodings x access histories on the real code', '')
prop('C05', 'dump(force=True) normalises any accepted BER encoding to the one DER encoding',
     'For every value of every supported type, every BER encoding of it (long-form and indefinite lengths, chunked strings, non-canonical booleans, '
     'explicitly encoded default values, unordered SET OF) decodes to the same native value, and a forced dump of it yields the single DER encoding of that value. '
     'Forcing a second time changes nothing.',
     ['inputs'], 'every abstract value of a bounded value grammar x every combination of BER framing choices at every node',
     'tests force-dump a few indefinite-length files; equivalence of all encodings is a quantification over framings',
     [CORE], [('forced re-encoding', CORE + ' dump(force)')], ['load', 'native', 'dump(force=True)'],
     'exhaustive enumeration of value trees x BER framings vs an independent DER encoder', '')
prop('C06', 'INTEGER, ENUMERATED and BOOLEAN are exact for every value',
     'Every integer encodes as minimal two\'s complement and decodes back to itself; every BER content of an integer decodes to its two\'s complement value. Named values translate both ways and unknown ones stay integers (or raise for ENUMERATED); fixed-width octet and bit '
     'string integers keep the width they decoded with or were given.',
     ['inputs', 'histories'], 'every integer around each octet boundary up to 2^1100, all 1-2 octet contents, and set/read/dump histories',
     'tests use a few integers; sign and width boundaries need all of them',
     [CORE, 'asn1crypto/util.py', 'asn1crypto/_int.py'], [('int conversion', 'util.py int_to_bytes/int_from_bytes'), ('maps', CORE + ' Integer.set')],
     ['Integer', 'Enumerated', 'Boolean', 'IntegerOctetString', 'IntegerBitString'],
     'exhaustive bounded enumeration of values, contents and histories vs a reference codec', '')
prop('C07', 'Object identifiers are exact and injective',
     'Every dotted object identifier with valid arcs encodes to its X.690 octets and decodes back to itself, with the first two arcs split correctly at the 0.39/1.39/2.x boundaries, for arcs of any size; relative OIDs likewise without merging. '
     'Malformed contents and invalid dotted strings raise ValueError or TypeError, and leave the value unchanged. The dotted, mapped and native views always describe the current contents.',
     ['inputs', 'histories'], 'all arc tuples around encoding boundaries, all short contents, all short set/read histories',
     'tests use well-known OIDs whose arcs are small',
     [CORE], [('base-128 arcs', CORE + ' ObjectIdentifier.set/_dotted')], ['ObjectIdentifier', 'RelativeOid'],
     'exhaustive bounded enumeration of arcs, contents and histories vs a reference codec', '')
prop('C08', 'Bit strings keep every bit, its position, and the count of unused bits',
     'A bit string decodes to exactly its bits, unused bits excluded, in the same order for tuples, named sets, integers and octets; encoding pads with zero bits and states the right unused count. Chunked bit strings decode to the '
     'concatenation of their chunks and only the last may have unused bits. Bits that have no name are kept when a decoded named bit string is re-encoded.',
     ['inputs', 'histories'], 'all bit strings up to a length bound, all short contents, all chunkings, all subsets of names and set histories',
     'tests cover a few lengths that are mostly multiples of eight',
     [CORE], [('bit <-> integer conversion', CORE + ' _IntegerBitString'), ('named bits', CORE + ' BitString.set')],
     ['BitString', 'OctetBitString', 'IntegerBitString', 'ParsableOctetBitString'],
     'exhaustive bounded enumeration of bit strings, contents, chunkings and histories vs a reference codec', '')
prop('C09', 'Character and octet strings round-trip exactly and reject the unencodable',
     'Every text of the repertoire of a string type encodes in the character encoding of that type and decodes to the same text; a text outside of the repertoire is refused with an error and leaves the value unchanged. Octets that are '
     'invalid for the encoding raise ValueError, and chunked strings decode as the concatenation of their chunks at every chunk boundary.',
     ['inputs'], 'every code point of the basic plane (and samples of each astral plane boundary) for every string type, all short octet contents, every chunking',
     'tests use ASCII; per-code-point tables such as T.61 and multi-octet boundaries need all of them',
     [CORE, 'asn1crypto/_teletex_codec.py'], [('encodings', CORE + ' AbstractString'), ('T.61 tables', '_teletex_codec.py')],
     ['*String.load', '*String.set', '*String.native'], 'exhaustive enumeration of code points, octets and chunkings vs independent tables', '')
prop('C10', 'UTCTime and GeneralizedTime denote the right instant and encode canonically',
     'Every time string of the X.690/X.680 grammar decodes to the instant and zone offset it denotes (two-digit years 1950-2049, fractions of hour, minute or second, year 0), and everything outside of the grammar raises ValueError. A datetime encodes to the DER form of the same instant in '
     'UTC; naive or unrepresentable ones are refused.',
     ['inputs', 'histories'], 'products of boundary fields, all single-character edits of valid times, every year 0-9999, and short histories',
     'tests check a few dozen strings; the grammar has thousands of boundary combinations',
     [CORE, 'asn1crypto/util.py'], [('grammar', CORE + ' AbstractTime'), ('canonical form', CORE + ' UTCTime.set/GeneralizedTime.set')],
     ['UTCTime', 'GeneralizedTime'], 'exhaustive enumeration of time strings and datetimes vs an independent calendar', '')
prop('C11', 'Year-zero dates behave like dates: ordered, exact and formatted',
     'Dates and datetimes of the year 0 compare and hash consistently with each other and with ordinary ones, and datetimes add, subtract and convert between zones, as the proleptic Gregorian calendar defines; both format and print as ordinary ones do, with the year 0000. Invalid fields, and results before the year 0 or after 9999, are refused.',
     ['inputs'], 'every day of the year 0 x boundary offsets, deltas, zones and comparison partners, and every strftime directive',
     'the tests compare a few pairs; order and arithmetic are relations over all pairs',
     ['asn1crypto/util.py'], [('shift to the year 2000 and back', 'util.py extended_datetime')], ['util.extended_date', 'util.extended_datetime', 'util.utc_with_dst', 'util.create_timezone'],
     'exhaustive enumeration of dates x operations vs an independent day count', '')
prop('C12', 'A record under any editing history stays equal to the model of its fields',
     'After any sequence of field assignments, deletions, reads, copies, dumps, forced dumps and reloads through a SEQUENCE or SET and the containers inside it, every field reads as the last value assigned (or its default, or absent), and dump() is the DER encoding of exactly those fields in '
     'order. Refused operations change nothing.',
     ['histories'], 'all operation sequences up to a depth over a schema with required, optional, default, nested and tagged fields, from constructed, decoded and BER-decoded initial states',
     'stale caches (parsed children, native value, contents, header) only show for particular operation orders',
     [CORE], [('lazy children, native cache, mutation flag', CORE + ' Sequence')], ['Sequence', 'Set'],
     'explicit-state search over operation histories on the real objects vs a reference model', '')
prop('C13', 'A list under any editing history stays equal to the model list',
     'After any sequence of appends, inserts, assignments, deletions, reads, copies, dumps and reloads, a SEQUENCE OF or SET OF has exactly the elements a Python list would have (indexing, iteration, length, membership, native), and its encoding is the DER encoding of them: in order for SEQUENCE OF, in ascending order of the encodings for SET OF.',
     ['histories', 'inputs'], 'all operation sequences up to a depth, and all multisets of small elements for the order of SET OF',
     'the tests append a few elements; ordering and cache coherence are relations over histories',
     [CORE], [('list protocol', CORE + ' SequenceOf'), ('DER order', CORE + ' SetOf._set_contents')], ['SequenceOf', 'SetOf'],
     'explicit-state search over operation histories on the real objects vs a reference list', '')
prop('C14', 'Optional and default fields are matched to the right elements for every subset',
     'For every subset of present fields of a record, encoding then decoding assigns every element to the right field, absent optional fields are absent, and absent fields with a default read as the default. A field equal to its default is left out of DER output. A missing required field, '
     'or an element that matches no field before one, raises ValueError; elements after the last field are kept.',
     ['inputs'], 'every schema of a bounded family (field kinds x optional/default x tagging) x every presence subset x every single insertion, duplication, removal or swap of elements',
     'tests have a handful of schemas and none enumerates subsets',
     [CORE], [('field matching', CORE + ' Sequence._parse_children'), ('omission of defaults', CORE + ' Sequence._set_contents')], ['Sequence.load', 'Sequence.dump', 'Sequence.native'],
     'exhaustive enumeration of schemas x presence subsets x element faults vs a reference matcher', '')
prop('C15', 'SET components are recognised in any order and encoded in canonical order',
     'A SET with distinct components decodes to the same fields whatever the order of its elements, and DER output orders the components by tag (class, then number) whatever the order they were declared, assigned or decoded in. Duplicate, unknown or missing required components raise ValueError.',
     ['inputs', 'histories'], 'all declaration orders x all wire permutations x all presence subsets of schemas with universal, tagged, optional and default components',
     'the tests decode one set in one order',
     [CORE], [('tag lookup', CORE + ' Set._parse_children'), ('sorting', CORE + ' Set._set_contents')], ['Set.load', 'Set.dump', 'Set.native'],
     'exhaustive enumeration of permutations and subsets vs a reference encoder', '')
prop('C16', 'Implicit and explicit tagging are exact at every nesting and reversible',
     'For any stack of implicit and explicit tags of any class on any type, encoding wraps the value in exactly those tags, decoding with the same specification yields the same value, and decoding with a different tag, class or method is refused with ValueError. retag(), untag() and copy() keep the value and change only the tags.',
     ['inputs'], 'all tag stacks of depth <= 3 (class x number boundary) x representative types x mismatches',
     'tests tag a handful of types with one context tag',
     [CORE], [('tag processing', CORE + ' _tag_type_to_explicit_implicit/_build')], ['Asn1Value constructor', 'load', 'retag', 'untag'],
     'exhaustive enumeration of tag stacks vs a reference encoder', '')
prop('C17', 'A CHOICE always holds exactly the alternative its tag selects',
     'Decoding a CHOICE selects the alternative whose tag is on the wire, for universal, tagged and nested alternatives, and refuses every other tag with ValueError; the name, chosen value, native value and encoding always describe the same alternative. An explicitly tagged choice wraps it exactly once, also after the chosen value was changed.',
     ['inputs', 'histories'], 'all alternatives x tagging of the choice x position (field, list, nested choice) x wrong tags x histories of changes',
     'tests use one or two alternatives of a few choices',
     [CORE], [('alternative lookup', CORE + ' Choice._setup/validate/_parse')], ['Choice'],
     'exhaustive enumeration of alternatives, taggings and histories vs a reference encoder', '')
prop('C18', 'A copy is equal to, and independent of, its original',
     'copy() and copy.deepcopy() of any value, in any lazy state, encode to the same octets, read natively the same, and carry the same tags; no later change of the original or of the copy, at any depth, is visible in the other. Pickling and unpickling preserves the encoding.',
     ['histories'], 'all types x all lazy states x all mutation points on either side',
     'aliasing only shows when a specific cached child is shared and then mutated',
     [CORE], [('_copy of caches', CORE + ' *._copy')], ['copy', 'copy.deepcopy', 'copy.copy', 'pickle'],
     'exhaustive enumeration of value shapes x lazy states x mutations', '')
prop('C19', 'Reading never changes what a value is',
     'Accessing any attribute (other than asking for a parsed view of the content as some type), iterating, comparing, hashing, printing or debugging a value, in any order and any number of times, never changes its encoding, its native value or the result of any other read. The values returned for the same read are equal each time. (A value in the indefinite form is DER once it has been encoded, which shows in its raw contents and in the framing of its copies.)',
     ['histories'], 'all ordered sequences of read operations up to a depth on every kind of object, constructed and decoded',
     'lazy caches are filled by reads; only some orders expose a cache that another read depends on',
     [CORE, 'asn1crypto/x509.py', 'asn1crypto/keys.py'], [('lazy parsing and caches', CORE), ('memoised properties', 'x509.py Certificate')], ['all public read accessors'],
     'exhaustive enumeration of read histories on the real objects, differential against fresh objects', '')
prop('C20', 'Concurrent first use of a type gives every thread the same answer',
     'When several threads concurrently use the types of the library for the first time, or read different values of the same type, each thread obtains the result it would obtain alone, for every interleaving. ',
     ['schedules'], 'all line-level interleavings of 2 threads up to a preemption bound over harnesses that share lazily built class tables',
     'races in lazy class setup need a preemption at a specific line; tests are single-threaded',
     [CORE], [('lazy class setup', CORE + ' _setup/_SETUP_CLASSES'), ('lazy maps', CORE + ' ValueMap._setup')], ['concurrent load/native/dump'],
     'stateless model checking: controlled scheduler over line-level steps, all schedules up to a preemption bound', '')
prop('C21', 'PEM armor and unarmor are inverse and unarmor finds every block',
     'For any octets, type name and headers that fit the format, unarmor(armor(x)) returns the same type name, headers and octets, with lines of 64 characters; a text with several blocks and arbitrary text around them yields every block in order. A text without a complete block, or a block that is not base64, raises ValueError.',
     ['inputs'], 'all payload lengths across several lines, all header sets, all arrangements of blocks, separators and line endings, all single-line faults',
     'tests unarmor a few files; line-wrapping boundaries and surrounding text vary over all inputs',
     ['asn1crypto/pem.py'], [('line state machine', 'pem.py _unarmor'), ('wrapping', 'pem.py armor')], ['pem.armor', 'pem.unarmor', 'pem.detect'],
     'explicit-state enumeration of line sequences vs a reference automaton', '')
prop('C22', 'Internet names convert exactly between their Unicode, ASCII and octet forms',
     'IP addresses and networks of both families, DNS names, email addresses and URIs set from text encode to the octets their RFCs define (network order and mask, A-labels, RFC 3987 mapping in which an octet that is percent-encoded with a meaning of its own stays encoded), '
     'and those octets read back as text that encodes to the same octets again; text that is no such name is refused. Octets that are no address or range read as None, and labels that are not IDNA 2003 read as they are. Names are equal exactly when their octets agree up to the case of host names, the scheme, '
     'default ports and equivalent escapes, and reading, comparing, copying or re-encoding never changes the octets. The conversion of addresses that stands in for the one of the socket module on Windows agrees with it.',
     ['inputs', 'histories'], 'all prefix lengths and mask octets, all zero-run patterns of IPv6, products of URI parts over adversarial characters, label boundaries, and set/read histories',
     'tests check examples; percent-encoding, punycode and mask arithmetic have many boundary combinations',
     ['asn1crypto/x509.py', 'asn1crypto/_iri.py', 'asn1crypto/_inet.py'], [('IRI conversion', '_iri.py'), ('IPAddress', 'x509.py')],
     ['x509.IPAddress', 'x509.URI', 'x509.DNSName', 'x509.EmailAddress'], 'exhaustive bounded enumeration vs reference encoders (ipaddress, encodings.idna)', '')
prop('C23', 'Distinguished names compare as RFC 5280 defines and are built faithfully',
     'Two names are equal exactly when they have the same relative names in the same order, each the same set of attribute types and values; text is compared as RFC 4518 prepares it (case, white space, composition, ignored characters and the string type do not matter, everything else does), other values by type and value. '
     'Equal names have equal hashes, equality is an equivalence relation and describes the current value after any edit; text with characters that can not be prepared, or that mixes directions, raises ValueError when compared. '
     'Name.build() from a mapping yields exactly those attributes in the preferred order and string types, and native and human_friendly show them all.',
     ['inputs'], 'every code point; all pairs of a bounded family of names over attribute types, string types, case, composition and white space variants, and multi-valued RDNs; all build mappings; all short edit sequences',
     'tests compare a few dozen pairs; an equivalence relation is a statement over all pairs and triples',
     ['asn1crypto/x509.py'], [('RFC 4518 preparation', 'x509.py NameTypeAndValue.prepped_value'), ('hash', 'x509.py Name.hashable')], ['x509.Name', 'x509.RelativeDistinguishedName', 'x509.NameTypeAndValue'],
     'exhaustive enumeration of all pairs of a bounded name space vs a reference comparison', '')
prop('C24', 'Host and IP validity of a certificate follows its names exactly',
     'A certificate is valid for a host name exactly when one of its DNS names matches label by label, ignoring case and in A-label form, with a wildcard in the leftmost label standing for that label or for a part of it (but not in an A-label). '
     'The names are the DNS names among the subject alternative names, or, only when that extension is absent, the common names that have the form of a domain name. It is valid for an address exactly when the octets of that address are among its IP names; '
     'names that are malformed match nothing and do not prevent the others from matching, and text that is neither a host name nor an address is not valid.',
     ['inputs'], 'all products of certificate name sets (SAN absent, DNS, IP, mixed, common names, wildcards) and queried hosts over a small label alphabet',
     'the tests check a few hosts against a few certificates; matching is a relation over all pairs',
     ['asn1crypto/x509.py'], [('matching', 'x509.py Certificate.is_valid_domain_ip')], ['Certificate.is_valid_domain_ip', 'valid_domains', 'valid_ips'],
     'exhaustive enumeration of name sets x queried hosts vs a reference matcher', '')
prop('C25', 'Derived attributes reflect exactly the extensions that are present',
     'For certificates, CRLs, revoked entries, OCSP requests and responses, and signing requests, every derived attribute (key usage, identifiers, constraints, critical set, CA flag, issuer, times, status and so on) is the value of the one extension or field it names, None or empty when that is absent, for every subset and order of extensions and whatever was read before.',
     ['inputs', 'histories'], 'every subset (and order) of extensions up to a bound x criticality x read order, on certificates, CRLs, entries, OCSP messages and requests built in memory',
     'fixtures contain a fixed set of extensions; wrong-slot and stale-cache mistakes show for particular subsets',
     ['asn1crypto/x509.py', 'asn1crypto/crl.py', 'asn1crypto/ocsp.py', 'asn1crypto/csr.py'], [('extension scan', 'x509.py Certificate._set_extensions'), ('same for crl, ocsp', 'crl.py, ocsp.py')],
     ['Certificate.*_value', 'CertificateList.*', 'OCSPResponse.*', 'critical_extensions'], 'exhaustive enumeration of extension subsets and read orders vs a reference', '')
prop('C26', 'Keys wrap and unwrap without loss and report their true parameters',
     'Wrapping a private or public key of any supported algorithm and unwrapping it again preserves every component; algorithm, curve, bit size, byte size and hash algorithm are those of the key; EC points convert to coordinates and back at full field width. The hashes of a public key are those of its octets.',
     ['inputs'], 'all algorithms x parameter shapes x small and boundary component values (leading zeros, sign bits, coordinate widths)',
     'fixtures hold a few real keys, whose integers have no leading zeros',
     ['asn1crypto/keys.py'], [('wrap/unwrap', 'keys.py PrivateKeyInfo/PublicKeyInfo'), ('points', 'keys.py ECPointBitString')], ['PrivateKeyInfo', 'PublicKeyInfo', 'ECPointBitString', 'NamedCurve'],
     'exhaustive bounded enumeration of key components vs a reference', '')
prop('C27', 'Algorithm properties are those of the encoded identifier and parameters',
     'The digest, signature and encryption properties (hash_algo, signature_algo, kdf, cipher, mode, key length, block size, iv and so on) of every algorithm identifier are exactly those its OID and parameters define; unknown or unsuitable ones raise ValueError (or TypeError where the parameters are of the wrong type). Parameters that have to be NULL are NULL when an identifier is set, and DSA signatures convert to and from fixed-width octets exactly.',
     ['inputs'], 'every registered OID x every parameter shape (absent, NULL, typed, boundary sizes)',
     'tests assert a few algorithms; the guarantee is over the whole table and all parameters',
     ['asn1crypto/algos.py'], [('property derivation', 'algos.py')], ['SignedDigestAlgorithm', 'EncryptionAlgorithm', 'KdfAlgorithm', 'Pkcs5MacAlgorithm'],
     'exhaustive enumeration of identifiers x parameters vs an independent table', '')
prop('C28', 'The type of an open field is decided by its identifier in every container',
     'In every structure whose content type depends on an identifier (attributes, extensions, algorithm parameters, content info, safe bags, recipient info and so on), each registered identifier decodes its value as the registered type, an unregistered one keeps the raw octets, and a value set under one identifier encodes as that type, for every order of reading and setting.',
     ['inputs', 'histories'], 'every identifier of every OID-driven structure, plus unknown ones, x decode and construct directions x change of identifier',
     'tests decode the few identifiers that occur in fixtures',
     [CORE, 'asn1crypto/cms.py', 'asn1crypto/x509.py', 'asn1crypto/algos.py', 'asn1crypto/pkcs12.py', 'asn1crypto/tsp.py', 'asn1crypto/ocsp.py', 'asn1crypto/crl.py', 'asn1crypto/csr.py'],
     [('_oid_pair/_oid_specs', CORE + ' Sequence._determine_spec'), ('spec callbacks', CORE + ' _spec_callbacks')], ['Sequence.load', 'Sequence.__setitem__'],
     'exhaustive enumeration of identifiers x directions vs an independent registry', '')
prop('C29', 'A failed operation leaves the value as it was',
     'An assignment, deletion, append, insert, set, load or dump that raises leaves the encoding, native value and every observable of the object as before, and the same operation fails the same way again; a valid operation afterwards works as if the failed one had not happened. (A forced dump that fails may already have re-encoded parts of the value.)',
     ['fault_sequences', 'histories'], 'every operation x every invalid argument kind at every step of short histories on every container and primitive kind',
     'tests check that errors are raised, hardly ever what the object is afterwards',
     [CORE], [('validate before mutate', CORE)], ['set', '__setitem__', '__delitem__', 'append', 'dump'],
     'exhaustive fault enumeration over operation histories vs a reference model', '')
prop('C30', 'Parsed views of wrapped values always describe the current octets',
     'The parsed view of an Any, an octet string or a bit string that contains an encoding always is the decoding of its current octets as the requested type, and setting, parsing with another type, copying or changing and re-encoding it never leaves a stale view or stale octets.',
     ['histories'], 'all sequences of parse/set/read/copy/dump operations up to a depth on Any, ParsableOctetString and ParsableOctetBitString',
     'stale caches show for particular operation orders only',
     [CORE], [('_parsed cache', CORE + ' Any/ParsableOctetString/ParsableOctetBitString')], ['parse', 'parsed', 'native', 'dump'],
     'explicit-state search over operation histories on the real objects vs a reference model', '')
prop('C31', 'Every registered name stands for one identifier, the standard one',
     'In every table of the library that maps identifiers to names, the two directions are inverse: every registered identifier decodes to its name, and its name encodes to that identifier; and the identifiers agree with the independent assignments of the standards. Unregistered identifiers pass through unchanged.',
     ['inputs', 'configurations'], 'every class with a name table x every entry, in both directions; every entry known to an independent registry',
     'tests touch a few names; a table has hundreds of entries',
     [CORE, 'asn1crypto/algos.py', 'asn1crypto/x509.py', 'asn1crypto/cms.py', 'asn1crypto/keys.py', 'asn1crypto/crl.py', 'asn1crypto/ocsp.py', 'asn1crypto/tsp.py'],
     [('maps', CORE + ' ValueMap._setup'), ('OID tables', 'algos.py, x509.py')], ['.map', '.unmap', '.native', 'set'],
     'exhaustive enumeration of all table entries vs an independent registry', '')
prop('C32', 'Generic loading and concatenation decode whatever sequence of values was encoded',
     'core.load() decodes any universal value to the matching type with the same encoding, and refuses unknown tags and wrong forms; an element of another class keeps its contents whatever is done with it; fields without a type decode as the universal type of their tag; concatenations decode to exactly the parts they were encoded from, whatever their framing, and re-encode to them.',
     ['inputs', 'histories'], 'all universal tags x contents x framings, all short concatenations, all edits of them',
     'tests load a few types',
     [CORE, 'asn1crypto/parser.py'], [('universal specs', CORE + ' _UNIVERSAL_SPECS'), ('Concat', CORE + ' Concat')], ['core.load', 'Concat', 'Any'],
     'exhaustive enumeration of tags, contents and concatenations vs a reference decoder', '')
prop('C33', 'The standard structures follow the ASN.1 modules of their RFCs',
     'Every structure of X.509, CRL, OCSP, CMS, time stamping, PKCS 1, 8, 10 and 12 and attribute certificates, encoded according to the ASN.1 module of its RFC with any allowed combination of optional fields, alternatives and repetitions, is decoded '
     'to exactly the values that were encoded in the fields of those names, and encodes again to the same octets when it is built from those values. What the module requires, and what its tags distinguish, is told apart: a missing required field raises ValueError.',
     ['inputs'], 'every structure of independently written modules x every subset of up to k optional fields x every alternative x repetitions',
     'fixtures use few optional fields and alternatives: a wrong tag, order or optionality in a table of a thousand fields goes unnoticed',
     ['asn1crypto/x509.py', 'asn1crypto/crl.py', 'asn1crypto/ocsp.py', 'asn1crypto/cms.py', 'asn1crypto/tsp.py', 'asn1crypto/keys.py', 'asn1crypto/csr.py', 'asn1crypto/pkcs12.py', 'asn1crypto/algos.py'],
     [('field tables', '_fields, _alternatives and _child_spec of every class')], ['load', 'native', 'constructor', 'dump'],
     'exhaustive enumeration of the values of independently transcribed ASN.1 modules, executed on the real classes', '')

prop('C34', 'Values are equal exactly if their type and value are',
     'Two values of a primitive type are equal exactly if they are of the same universal type and have the same contents, however they are framed, tagged or chunked, in whatever lazy state they are, and whether decoded, set or copied. Equality is symmetric and the opposite of inequality, comparing never changes a value nor fails, values of other kinds are never equal, and membership in a list of such values agrees with equality.',
     ['inputs', 'histories'], 'every pair of values of every type x framings x taggings x lazy states; lists of up to k elements',
     'tests compare a handful of pairs',
     [CORE], [('equality', CORE + ' Primitive.__eq__'), ('membership', CORE + ' SequenceOf.__contains__')], ['==', '!=', 'in'],
     'exhaustive enumeration of pairs of values vs equality of type and contents', '')


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'].strip(),
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
            if os.path.exists(os.path.join(HERE, 'mc', 'checks', p['id'].lower() + '.py')):
                checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                                   thorough_cmd='./check.sh %s thorough' % p['id'],
                                   evidence_file='evidence/%s.json' % p['id'],
                                   technique=p['technique'], level='model_checking', level_note=NOTE + p['note']))
            else:
                na.append(dict(property=p['id'], reason='the check is not built yet'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                       notes='Every check runs the real code of /repo (imported from its working tree, no bytecode cache). '
                             'No hooks in /repo are needed. properties.jsonl and this file are written by props.py.'), f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')


if __name__ == '__main__':
    main()
