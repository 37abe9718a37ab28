"""writes MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'Trusts the reference text in ref/*.asn1 (transcribed from the RFCs), the reference codec lib/asn1ref.py and pyasn1 0.5.1 itself. '
C = {
 'C01': ('property-based testing: round trip over generated values (Hypothesis + directed generation)', REF),
 'C02': ('property-based testing: differential against an independent reference model of the published ASN.1, both directions', REF),
 'C03': ('property-based testing: presence patterns and TLV-level structural mutation against the reference model', REF),
 'C04': ('property-based testing: boundary-value and random generation around every published constraint', REF),
 'C05': ('property-based testing: every identifier enumerated plus random subsets and numbers, against the published numbers', REF),
 'C06': ('property-based testing: differential over every exported constant, used in randomly drawn round trips, against the reference text and OpenSSL\'s object table', REF),
 'C07': ('property-based testing: generated open-type contents, metamorphic (nested decode = separate decode) and differential', REF),
 'C08': ('stateful property-based testing: random import histories in fresh processes against the table of published registrations', REF),
 'C09': ('stateful property-based testing: generated streams and read sequences against a reference reader', 'The reference reader is written from the documented behaviour. '),
 'C10': ('fuzzing: structural and byte-level mutation of valid encodings, differential against the strict reference decoder', REF),
 'C11': ('property-based testing: differential between pairs of modules on generated values valid under both', 'Independent of the reference text except for generating the values. '),
 'C12': ('stateful property-based testing: random operation histories, each outcome compared with that in a fresh process', REF),
 'C13': ('property-based testing: generated SNMP messages from an independent encoder and independent textual facts', 'Trusts the message encoder in checks/c13.py, written from the RFCs. '),
 'C14': ('property-based testing: generated LDAP messages from an independent encoder', 'Trusts the message encoder in checks/c14.py, written from the RFCs. '),
 'C15': ('property-based testing of the tools run as programs on generated and mutated input streams', REF),
 'C16': ('property-based testing of the tools against generated loopback servers with an independent codec', 'Trusts lib/asn1ref.py and the stand-in servers. '),
 'C17': ('property-based testing: differential against OpenSSL on randomly parameterised objects', 'Trusts the openssl command line program and its reports. '),
 'C18': ('property-based testing: native round trip and independent native form over generated values', REF),
 'C19': ('property-based testing: copies, pickles and pickles read in a fresh process compared with the published content and octets of generated values', REF),
 'C20': ('property-based testing: generated thread schedules run by a deterministic scheduler, each outcome compared with that of the operation alone; concurrent imports in fresh processes', 'Switches at calls in pyasn1 and lines in the package only; import interleavings are the interpreter\'s own. '),
 'C21': ('property-based testing: types composed at random from exported ones, octets and values compared with those of a reference codec for the composed type', 'Containers pyasn1 itself gets wrong are left out (ANY beside other components, SET components with more than one tag, absent OPTIONAL constrained structures that can be empty). '),
}
checks, na = [], []
for k, (tech, note) in C.items():
    f = k.lower()
    if os.path.exists(os.path.join(V, 'checks', f + '.py')):
        checks.append({'property': k, 'quick_cmd': 'python3-vt check.py %s --tier quick' % f, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % f,
                       'evidence_file': 'evidence/%s.json' % k, 'technique': tech, 'level': 'exploration',
                       'level_note': note + 'Exploration of generated cases: nothing is proved beyond the cases run; counts are in the evidence file.'})
    else: na.append({'property': k, 'reason': 'the check is not built yet'})
doc = {'version': 1, 'setup_cmd': 'python3-vt -c "import hypothesis" && test -d /opt/venv/lib/python3.12/site-packages/pyasn1', 'checks': checks,
       'not_applicable': na, 'notes': 'No hooks: the checks use only the public API of /repo, imported straight from its working tree (pure Python, nothing to build).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(doc, f, indent=1); f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
