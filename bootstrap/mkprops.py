"""writes properties.jsonl"""
import json, os
P = []
TESTS = "The existing tests decode and re-encode one or two captured samples per module (none for rfc1155, 1157, 1901, 1902, 1905, 2251, 3412, 3414, 6170 and the tools); "
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
              'observe_at': observe or [], **({'state': state} if state else {})}})
ALL = ['pyasn1_modules/rfc*.py']

p('C01', 'Every value survives encoding and decoding',
  'For every exported ASN.1 type, every valid value built from it and encoded (DER, or BER definite length) decodes with that same type to an equal value, consuming exactly its own octets and leaving any octets that follow as the rest. Re-encoding the decoded value as DER gives the same octets again.',
  ['inputs'], 'all exported types x all valid values x codecs x trailing data',
  TESTS + 'a round trip over all values needs every combination of alternatives, optional parts and sizes.',
  ALL, [('unambiguous component tags', 'componentType definitions of every module'), ('tag classes, numbers and modes', 'subtype(implicitTag=/explicitTag=) throughout'), ('recursive types', 'rfc2251.Filter, rfc3412, rfc3852/rfc5652 CertificateChoices, rfc4210.PKIMessage')])
p('C02', 'Wire format is the published one',
  'For every type an RFC defines, the module\'s type of that name accepts exactly the DER the RFC\'s ASN.1 prescribes for a value, reads it as that value under the published component names, and writes that DER for it. This covers tags, implicit/explicit tagging, component order, base types and the choice of alternatives.',
  ['inputs'], 'all published types x all valid values, in both directions',
  TESTS + 'a wrong tag or type in a component or alternative that no sample carries is invisible, and so is any change that is consistent between encoding and decoding.',
  ALL, [('type definitions', 'class statements and componentType assignments of every module'), ('shared definitions', 'imports between modules, e.g. rfc2459, rfc3280, rfc5280, rfc5652')])
p('C03', 'Mandatory, OPTIONAL and DEFAULT components behave as published',
  'A mandatory component that is missing makes decoding and encoding fail; an OPTIONAL one may be left out and is then absent; a DEFAULT one left out reads as its published default and is omitted from DER when it has that value. Components that are repeated, unknown or out of order in a SEQUENCE without extension are refused.',
  ['inputs'], 'all SEQUENCE/SET types x all components x presence patterns',
  TESTS + 'a sample has one presence pattern out of 2^n.',
  ALL, [('NamedType / OptionalNamedType / DefaultedNamedType', 'componentType of every SEQUENCE and SET')])
p('C04', 'Published value constraints are enforced at their exact bounds',
  'Where a module states a published constraint (SIZE, value range, permitted alphabet, single values, WITH COMPONENTS), every value inside it, both bounds included, is accepted when built, encoded and decoded, and every value outside is refused with a pyasn1 error - on decoding and assignment for simple types, at the latest on encoding for lists and structures.',
  ['inputs'], 'all constrained types and components x values at, inside and outside the bounds',
  TESTS + 'samples sit well inside the bounds, so neither bound is ever evaluated.',
  ALL, [('ValueSizeConstraint / ValueRangeConstraint / SingleValueConstraint / PermittedAlphabetConstraint', 'subtypeSpec and sizeSpec throughout'), ('upper bounds', 'ub_* constants of rfc2459, rfc3280, rfc5280')])
p('C05', 'Named numbers, bits and enumerations carry their published values',
  'Every identifier of an ENUMERATED, named INTEGER or named BIT STRING type denotes its published number: setting a value by identifier encodes that number, decoding the number reports that identifier, and no other identifier or number is known to the type.',
  ['inputs'], 'all types with named values x all identifiers and numbers',
  TESTS + 'few identifiers occur in samples.',
  ALL, [('namedValues', 'namedval.NamedValues(...) throughout')])
p('C06', 'Exported constants equal their published values',
  'Every exported object identifier, integer bound, predefined value and pre-filled attribute template has the value its RFC assigns, under the published name, in the module that defines it and in every module that re-exports it.',
  ['inputs'], 'all exported constants of all modules; object identifiers additionally against an independent registry',
  TESTS + 'tests look constants up by the same name they check, so a wrong arc is used consistently on both sides.',
  ALL, [('object identifiers', 'univ.ObjectIdentifier(...), _OID(...), _buildOid(...) throughout'), ('predefined values', 'rfc4055, rfc3560, rfc5480, rfc3370, rfc7292 ...'), ('re-exports', 'rfc2314, rfc2315, rfc2511, rfc3447, rfc5208')])
p('C07', 'Open types resolve by their governing identifier',
  'With open types enabled, decoding a structure whose governing component is a registered identifier yields the content as a value of the registered type, equal to decoding the content on its own, and re-encodes to the same octets. With an unregistered identifier, or with open types disabled, the content stays as raw octets, and a caller-supplied map overrides or extends the registered one.',
  ['inputs'], 'all open-type components x all registered identifiers (and unregistered ones) x contents',
  TESTS + 'only the identifiers that occur in the samples are resolved.',
  ['pyasn1_modules/rfc5280.py', 'pyasn1_modules/rfc5652.py', 'pyasn1_modules/rfc2459.py', 'pyasn1_modules/rfc2315.py', 'pyasn1_modules/rfc7292.py', 'pyasn1_modules/rfc6402.py'] + ALL,
  [('openType=opentype.OpenType(governor, map)', 'AlgorithmIdentifier, Attribute, Extension, ContentInfo ... in rfc5280, rfc5652, rfc2459 and users'), ('registration maps', 'cmsContentTypesMap, certificateExtensionsMap, algorithmIdentifierMap ...')])
p('C08', 'What is registered does not depend on import history',
  'After importing any set of modules in any order, and any number of times, every identifier those modules register resolves to the registered published syntax, every other identifier stays unresolved, and importing further modules never changes what data decodes to under the identifiers already registered.',
  ['histories', 'configurations'], 'all import orders and subsets of the 110 modules',
  'Every test module runs in one process with one import order; the order in which applications import modules is never varied.',
  ALL, [('map.update() at import time', 'the last lines of most modules'), ('shared registries', 'rfc5280, rfc5652, rfc2459, rfc7292 ... maps')],
  state=[{'name': 'registration maps', 'meaning': 'process-wide dictionaries OID -> schema object', 'where': 'rfc5280.certificateAttributesMap, rfc5652.cmsAttributesMap and others'}])
p('C09', 'PEM reading returns exactly the marked block',
  'Reading PEM blocks from a stream returns, call by call, the base64 content of each next block whose start marker was asked for together with that marker\'s index, ignoring everything outside, ignoring other end markers, and reporting nothing at the end of the stream; each read leaves the stream right after the block it returned, whatever else is read from other streams in between. Plain base64 text and files decode to exactly the encoded octets.',
  ['inputs', 'histories'], 'all texts of blocks, noise, line lengths, line endings and marker sets x sequences of reads',
  'One test reads one base64 string; block reading, marker choice, several blocks and truncated blocks are never exercised.',
  ['pyasn1_modules/pem.py'], [('line state machine', 'pem.readPemBlocksFromFile'), ('compatibility wrappers', 'pem.readPemFromFile, readBase64fromText, readBase64FromFile')],
  state=[{'name': 'stream position', 'meaning': 'a read stops right after its end marker', 'where': 'pem.readPemBlocksFromFile'}])
p('C10', 'Malformed input is refused, never misread',
  'Decoding any octets with any exported type either fails with a pyasn1 error or returns a value that the published definition assigns to those octets; it never raises anything else and never hangs. Octets whose tags, primitive/constructed form, or structure do not fit the published definition are refused.',
  ['inputs', 'fault_sequences'], 'all octet strings, in particular structural mutations of valid encodings, x all exported types',
  'No test decodes malformed input at all.',
  ALL, [('tagSet / componentType of every type', 'all modules'), ('no lenient fallback types', 'Any only where published')])
p('C11', 'Generations of the same structure agree',
  'Where one RFC carries over a structure from an earlier one (certificates 2459/3280/5280, CMS 2315/2630-family/3852/5652, PKCS#10, CRMF, OCSP, PKCS#8, PKCS#1, attribute certificates, ESS, SMI), octets valid under both definitions decode through both modules to values with the same content, and each module re-encodes them to the same octets.',
  ['inputs'], 'all pairs of corresponding types x all values valid under both',
  'Tests exercise each module on its own samples; no test compares two modules.',
  ['pyasn1_modules/rfc2459.py', 'pyasn1_modules/rfc3280.py', 'pyasn1_modules/rfc5280.py', 'pyasn1_modules/rfc3852.py', 'pyasn1_modules/rfc5652.py', 'pyasn1_modules/rfc4211.py', 'pyasn1_modules/rfc6960.py', 'pyasn1_modules/rfc5958.py', 'pyasn1_modules/rfc8017.py', 'pyasn1_modules/rfc5755.py'],
  [('parallel definitions', 'types of the same name in successive modules')])
p('C12', 'Using a type never changes it',
  'Decoding, failing to decode, building, cloning, copying, mutating decoded values and resolving open types leave the exported types, constants and maps as they were: the outcome of any decode or encode depends only on its own input, not on what was done before. Values obtained from separate decodes or instances share no mutable state.',
  ['histories'], 'all sequences of operations over a pool of types',
  'Each test does a few operations on fresh data and never looks back at what they left behind.',
  ALL, [('class-level schema objects shared by all instances', 'componentType attributes'), ('module-level constants and templates', 'e.g. rfc4055 identifiers, rfc5652 / rfc7906 templates')],
  state=[{'name': 'class attributes', 'meaning': 'componentType, tagSet, subtypeSpec shared process-wide', 'where': 'all modules'}])
p('C13', 'SNMP messages follow the published syntax',
  'SNMPv1, v2c and v3 messages, their PDUs and SMI values produced by any conforming implementation decode to the published meaning (PDU kind, error and generic-trap codes, every SMI value type and range, varbind exceptions), and messages built from the modules encode as published.',
  ['inputs'], 'all messages of the three SNMP versions, all PDU kinds and value types',
  'There is no test for rfc1155, rfc1157, rfc1901, rfc1902, rfc1905, rfc3412 or rfc3414.',
  ['pyasn1_modules/rfc1155.py', 'pyasn1_modules/rfc1157.py', 'pyasn1_modules/rfc1901.py', 'pyasn1_modules/rfc1902.py', 'pyasn1_modules/rfc1905.py', 'pyasn1_modules/rfc3412.py', 'pyasn1_modules/rfc3414.py'],
  [('APPLICATION tags of SMI types', 'rfc1155, rfc1902'), ('context tags of PDUs', 'rfc1157, rfc1905'), ('message wrappers', 'rfc1901, rfc3412, rfc3414')])
p('C14', 'LDAP messages follow the published syntax',
  'LDAPv3 messages for every operation, with any controls, decode to the published meaning and messages built from the module encode as published, including search filters nested as deep as the module supports.',
  ['inputs'], 'all LDAP operations x filters x controls x result codes',
  'There is no test for rfc2251.',
  ['pyasn1_modules/rfc2251.py'], [('APPLICATION tags of operations', 'rfc2251 *Request / *Response'), ('three-level filter unrolling', 'rfc2251.Filter, Filter2, Filter3')])
p('C15', 'The dump tools print and re-serialise every valid input',
  'Given valid input of the kind it is for, each command line dump tool prints every block\'s decoded content in input order, verifies that it re-encodes to the original octets, reports the right number of blocks and exits successfully; on input that is malformed it exits with an error instead of reporting success.',
  ['inputs'], 'all tools x valid and corrupted input streams of one or several blocks with surrounding text',
  'No test runs any tool.',
  ['tools/x509dump.py', 'tools/x509dump-rfc5280.py', 'tools/crldump.py', 'tools/pkcs1dump.py', 'tools/pkcs7dump.py', 'tools/pkcs8dump.py', 'tools/pkcs10dump.py', 'tools/cmcdump.py', 'tools/cmpdump.py', 'tools/crmfdump.py', 'tools/ocspreqdump.py', 'tools/ocsprspdump.py', 'pyasn1_modules/pem.py'],
  [('read, decode, print, compare loop', 'tools/*dump*.py')])
p('C16', 'The network tools send and understand conforming messages',
  'The SNMP tool sends exactly one SNMPv1 GetRequest with the given community and object, and prints the response it gets; the OCSP tool posts a request that identifies the certificate by the SHA-1 hashes of issuer name and key and its serial number, and reports the status the response gives.',
  ['inputs', 'histories'], 'all communities, objects, certificates and server responses',
  'No test runs any tool.',
  ['tools/snmpget.py', 'tools/ocspclient.py'], [('request construction', 'tools/snmpget.py, ocspclient.mkOcspRequest'), ('response handling', 'ocspclient.parseOcspResponse')])
p('C17', 'Objects made by an independent implementation are read correctly',
  'Certificates, requests, CRLs, keys, PKCS#7/CMS and PKCS#12 containers, OCSP messages and signature parameters produced by OpenSSL with arbitrary parameters decode with every applicable module, report the same fields OpenSSL reports, and re-encode to the identical octets.',
  ['inputs'], 'all OpenSSL-generated objects over names, key types, extensions and options; the system certificate store',
  'Tests hold a fixed set of captured samples.',
  ['pyasn1_modules/rfc2459.py', 'pyasn1_modules/rfc5280.py', 'pyasn1_modules/rfc2314.py', 'pyasn1_modules/rfc2986.py', 'pyasn1_modules/rfc2315.py', 'pyasn1_modules/rfc5652.py', 'pyasn1_modules/rfc7292.py', 'pyasn1_modules/rfc5208.py', 'pyasn1_modules/rfc5958.py', 'pyasn1_modules/rfc8017.py', 'pyasn1_modules/rfc2560.py', 'pyasn1_modules/rfc6960.py', 'pyasn1_modules/rfc5915.py', 'pyasn1_modules/rfc3161.py'],
  [('type definitions', 'the modules named')])
p('C18', 'Values convert to native Python objects and back',
  'Every valid value converts to native Python dictionaries, lists, strings and numbers keyed by the published component names, with enumerated and named values shown by name where printed, and converting the native object back with the same type gives an equal value. Printing a value always succeeds.',
  ['inputs'], 'all exported types x all valid values',
  'No test uses the native codec and none looks at printed text.',
  ALL, [('component names', 'first argument of every NamedType'), ('namedValues', 'throughout')])
p('C19', 'Values and types survive copying, pickling and the way into another process',
  'A shallow copy of a value, the value pickled with any protocol and read back in the same process, and the same pickle read in a fresh process that has imported nothing of the package, have the same content and encode to the same octets; a type that is copied or pickled decodes the same octets to the same content; exported constants, predefined values and tables of open types copy and pickle to equal ones.',
  ['inputs', 'histories'], 'all exported types, constants and tables x all valid values x all pickle protocols',
  'No test copies or pickles anything.',
  ALL, [('classes named and placed so that they can be found again', 'every class statement'), ('tables', 'every *Map dictionary')])
p('C20', 'Types, tables and the PEM reader can be used from several threads at once',
  'However threads that decode, encode, build, print or convert values of the same types (with or without a shared type object), or read PEM streams, are interleaved, every operation has the outcome it has alone, from the first use on. Importing modules from several threads at once leaves the same registrations as importing them one after another.',
  ['schedules', 'histories'], 'all interleavings of operations on all exported types and of PEM reads; all concurrent imports',
  'The tests are single threaded.',
  ['pyasn1_modules/pem.py'] + ALL, [('no state kept outside the call', 'pem.readPemBlocksFromFile'), ('shared schema objects', 'module level types and tables')])
p('C21', 'Exported types can be tagged, restricted and used as parts of new types',
  'A type made from an exported one with subtype() or by deriving a class (added implicit or explicit tags, a further value or size restriction), and a SEQUENCE, SET, CHOICE, SEQUENCE OF or SET OF made of such types as mandatory, OPTIONAL or DEFAULT components, encodes every value to the octets X.680 and X.690 give for the resulting type, decodes those octets back to the value, keeps the restrictions of the exported type and refuses values outside the added one; the exported type itself is not changed by this.',
  ['inputs'], 'all exported types x all taggings, restrictions and containers x all values',
  'The tests decode whole messages with the exported types as they are; none derives a new type.',
  ALL, [('types are ordinary pyasn1 types without behaviour of their own', 'every class statement'), ('tagSet, subtypeSpec and componentType of every class', 'throughout')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
