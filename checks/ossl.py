"""Objects made by the openssl program from generated parameters, each with the facts that the parameters or
openssl's own reports establish about it.

A recipe is (strategy of parameters, function(lab, parameters) -> [Art]).  A fact is (path, value): path steps are
component or alternative names, indexes, '*' for whichever alternative is there, '#' for the number of elements;
values are those of the reference model, ('text', s) stands for any string type."""
import hashlib, os, re, shutil, string, subprocess, tempfile
from hypothesis import strategies as st


class Refused(Exception): pass


class Art(object):
    def __init__(self, label, keys, octets, facts=(), ber=False):
        self.label, self.keys, self.octets, self.facts, self.ber = label, keys, octets, [list(f) for f in facts], ber


def k(names, *mods): return [('rfc%s' % m, n) for m in mods for n in names.split()]


CERT = k('Certificate', 2459, 3280, 5280)
CRL = k('CertificateList', 2459, 3280, 5280)
CSR = k('CertificationRequest', 2314, 2986)
SPKI = k('SubjectPublicKeyInfo', 2459, 2986, 3280, 4490, 5280, 5914)
SET5 = (2459, 3280, 5280)
OID = {'C': (2, 5, 4, 6), 'ST': (2, 5, 4, 8), 'L': (2, 5, 4, 7), 'O': (2, 5, 4, 10), 'OU': (2, 5, 4, 11), 'CN': (2, 5, 4, 3), 'serialNumber': (2, 5, 4, 5), 'title': (2, 5, 4, 12),
       'GN': (2, 5, 4, 42), 'SN': (2, 5, 4, 4), 'initials': (2, 5, 4, 43), 'generationQualifier': (2, 5, 4, 44), 'dnQualifier': (2, 5, 4, 46), 'pseudonym': (2, 5, 4, 65), 'name': (2, 5, 4, 41),
       'DC': (0, 9, 2342, 19200300, 100, 1, 25), 'emailAddress': (1, 2, 840, 113549, 1, 9, 1), 'UID': (0, 9, 2342, 19200300, 100, 1, 1), 'street': (2, 5, 4, 9), 'businessCategory': (2, 5, 4, 15)}
X520 = {'C': 'X520countryName', 'ST': 'X520StateOrProvinceName', 'L': 'X520LocalityName', 'O': 'X520OrganizationName', 'OU': 'X520OrganizationalUnitName', 'CN': 'X520CommonName',
        'serialNumber': 'X520SerialNumber', 'title': 'X520Title', 'GN': 'X520name', 'SN': 'X520name', 'name': 'X520name', 'dnQualifier': 'X520dnQualifier', 'pseudonym': 'X520Pseudonym',
        'DC': 'DomainComponent', 'emailAddress': 'EmailAddress', 'street': 'DirectoryString', 'businessCategory': 'DirectoryString', 'UID': 'DirectoryString'}
SIG = {('rsa', 'sha256'): (1, 2, 840, 113549, 1, 1, 11), ('rsa', 'sha384'): (1, 2, 840, 113549, 1, 1, 12), ('rsa', 'sha512'): (1, 2, 840, 113549, 1, 1, 13), ('rsa', 'sha1'): (1, 2, 840, 113549, 1, 1, 5),
       ('rsa', 'sha224'): (1, 2, 840, 113549, 1, 1, 14), ('rsa', 'md5'): (1, 2, 840, 113549, 1, 1, 4), ('ec', 'sha256'): (1, 2, 840, 10045, 4, 3, 2), ('ec', 'sha384'): (1, 2, 840, 10045, 4, 3, 3),
       ('ec', 'sha512'): (1, 2, 840, 10045, 4, 3, 4), ('ec', 'sha1'): (1, 2, 840, 10045, 4, 1), ('ec', 'sha224'): (1, 2, 840, 10045, 4, 3, 1), ('dsa', 'sha256'): (2, 16, 840, 1, 101, 3, 4, 3, 2),
       ('dsa', 'sha1'): (1, 2, 840, 10040, 4, 3), ('dsa', 'sha224'): (2, 16, 840, 1, 101, 3, 4, 3, 1)}
HASH = {'md5': (1, 2, 840, 113549, 2, 5), 'sha1': (1, 3, 14, 3, 2, 26), 'sha224': (2, 16, 840, 1, 101, 3, 4, 2, 4), 'sha256': (2, 16, 840, 1, 101, 3, 4, 2, 1), 'sha384': (2, 16, 840, 1, 101, 3, 4, 2, 2),
        'sha512': (2, 16, 840, 1, 101, 3, 4, 2, 3)}
KEYOID = {'rsa': (1, 2, 840, 113549, 1, 1, 1), 'ec': (1, 2, 840, 10045, 2, 1), 'dsa': (1, 2, 840, 10040, 4, 1), 'ed': (1, 3, 101, 112), 'x': (1, 3, 101, 110), 'ed448': (1, 3, 101, 113), 'x448': (1, 3, 101, 111)}
CURVES = {'prime256v1': (1, 2, 840, 10045, 3, 1, 7), 'secp384r1': (1, 3, 132, 0, 34), 'secp521r1': (1, 3, 132, 0, 35), 'secp224r1': (1, 3, 132, 0, 33), 'secp256k1': (1, 3, 132, 0, 10),
          'brainpoolP256r1': (1, 3, 36, 3, 3, 2, 8, 1, 1, 7), 'sect233k1': (1, 3, 132, 0, 26), 'sect283r1': (1, 3, 132, 0, 17), 'prime192v1': (1, 2, 840, 10045, 3, 1, 1)}


class Lab(object):
    """a scratch directory with keys and a certification authority"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-ossl-')
        self.cache = {}

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name): return os.path.join(self.dir, name)

    def write(self, name, data):
        with open(self.path(name), 'wb') as f: f.write(data if isinstance(data, bytes) else data.encode())
        return self.path(name)

    def read(self, name):
        with open(self.path(name), 'rb') as f: return f.read()

    def run(self, *args, data=b''):
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.dir, 'LC_ALL': 'C.UTF-8', 'OPENSSL_CONF': self.path('none.cnf')}
        if not os.path.exists(self.path('none.cnf')): self.write('none.cnf', '')
        p = subprocess.run(['openssl'] + [str(a) for a in args], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, env=env, timeout=120)
        if p.returncode: raise Refused('openssl %s: %s' % (' '.join(map(str, args)), p.stderr.decode('utf-8', 'replace')[:500]))
        return p.stdout

    def key(self, kind):
        """path of a private key of the kind"""
        if ('key', kind) not in self.cache:
            name = 'key-%s.pem' % kind
            if kind == 'dsa':
                self.run('dsaparam', '-out', 'dsap.pem', 1024)
                self.run('gendsa', '-out', name, 'dsap.pem')
            elif kind in ('ed', 'x', 'ed448', 'x448'): self.run('genpkey', '-algorithm', {'ed': 'ED25519', 'x': 'X25519', 'ed448': 'ED448', 'x448': 'X448'}[kind], '-out', name)
            elif kind.startswith('rsa'): self.run('genpkey', '-algorithm', 'RSA', '-pkeyopt', 'rsa_keygen_bits:%s' % (kind[3:] or 1024), '-out', name)
            else: self.run('genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:' + (kind if kind != 'ec' else 'prime256v1'), '-out', name)
            self.cache['key', kind] = self.path(name)
        return self.cache['key', kind]

    def spki(self, kind):
        if ('spki', kind) not in self.cache: self.cache['spki', kind] = self.run('pkey', '-in', self.key(kind), '-pubout', '-outform', 'DER')
        return self.cache['spki', kind]

    def cert(self, kind='rsa', cn='someone', ca=True, issuer=None, ext=''):
        """path of a certificate, made once"""
        c = ('cert', kind, cn, ca, issuer, ext)
        if c not in self.cache:
            n = len(self.cache)
            self.write('c%d.cnf' % n, '[req]\ndistinguished_name=dn\nprompt=no\nx509_extensions=e\n[dn]\nCN=%s\n[e]\nbasicConstraints=critical,CA:%s\nsubjectKeyIdentifier=hash\n%s\n' % (cn, 'TRUE' if ca else 'FALSE', ext))
            self.run('req', '-x509', '-new', '-key', self.key(kind), '-config', 'c%d.cnf' % n, '-days', 3650, '-out', 'c%d.pem' % n, *(['-CA', self.cert(issuer), '-CAkey', self.key(issuer)] if issuer else []))
            self.cache[c] = self.path('c%d.pem' % n)
        return self.cache[c]

    def der(self, path):
        if ('der', path) not in self.cache: self.cache['der', path] = self.run('x509', '-in', path, '-outform', 'DER')
        return self.cache['der', path]


def digest(kind): return None if kind in ('ed', 'ed448') else 'sha256'


# ------------------------------------------------------------------ names
WORDS = st.text(st.sampled_from(string.ascii_letters + string.digits + " .-'()+,/:=?"), min_size=1, max_size=20)
RICH = st.text(st.one_of(st.sampled_from(string.ascii_letters), st.characters(min_codepoint=32, max_codepoint=126), st.characters(min_codepoint=0xa0, max_codepoint=0xff),
                         st.characters(min_codepoint=0x100, max_codepoint=0x2fff, blacklist_categories=('Cs', 'Cn')), st.sampled_from('😀𝄞')), min_size=1, max_size=20)


def attribute():
    def one(n):
        if n == 'C': v = st.sampled_from(['DE', 'US', 'FR', 'XX'])
        elif n in ('serialNumber', 'dnQualifier'): v = WORDS
        elif n in ('DC', 'emailAddress'): v = st.text(st.sampled_from(string.ascii_letters + string.digits + '.@-_&*'), min_size=1, max_size=20)
        else: v = st.one_of(WORDS, RICH, st.sampled_from(['x' * 64, 'Müller', '漢字', ' ']))
        return st.tuples(st.just(n), v)
    return st.sampled_from(sorted(X520)).flatmap(one)


def dn(min_size=1):
    """list of relative names, each a list of (attribute, text) with distinct attributes"""
    return st.lists(st.one_of(attribute().map(lambda a: [a]), st.lists(attribute(), min_size=1, max_size=3, unique_by=lambda a: a[0])), min_size=min_size, max_size=5)


MASKS = st.sampled_from(['utf8only', 'utf8only', 'default', 'pkix', 'nombstr', 'MASK:0x2002', 'MASK:0x802', 'MASK:0x2806'])


def subj(d):
    esc = lambda s: ''.join('\\' + c if c in '/+\\=' else c for c in s)
    return '/' + '/'.join('+'.join('%s=%s' % (n, esc(v)) for n, v in rdn) for rdn in d) if d else '/'


def dnfacts(path, d):
    """openssl sorts the attributes within a relative name, so they are compared as a set"""
    out = [(path + ['*', '#'], len(d))]
    for i, rdn in enumerate(d): out.append((path + ['*', i], {'names': sorted([list(OID[n]), v] for n, v in rdn)}))
    return out


# ------------------------------------------------------------------ extensions
HOSTS = st.text(st.sampled_from('abcxyz019-.'), min_size=1, max_size=20)
URIS = st.tuples(st.sampled_from(['http://', 'ldap://', 'urn:']), st.text(st.sampled_from('abcXYZ019-._~/?&=%'), min_size=1, max_size=25)).map(''.join)
MAILS = st.tuples(HOSTS, HOSTS).map('@'.join)
OIDS = st.one_of(st.sampled_from([(1, 2, 3, 4), (2, 5, 29, 32, 0), (1, 3, 6, 1, 4, 1, 4294967295), (2, 999, 3)]), st.lists(st.integers(0, 2 ** 40), max_size=5).map(lambda x: (1, 3, 6) + tuple(x)))
TEXTS = st.text(st.sampled_from(string.ascii_letters + string.digits + ' .-'), min_size=1, max_size=30).map(str.strip).filter(bool)
dot = lambda o: '.'.join(map(str, o))


def ip4(b): return '.'.join(map(str, b))


def ip6(b): return ':'.join('%x' % (b[i] << 8 | b[i + 1]) for i in range(0, 16, 2))


def simplename():
    return st.lists(st.tuples(st.sampled_from(['CN', 'O', 'OU']), TEXTS), min_size=1, max_size=3).map(lambda l: [[x] for x in l])


def generalname():
    """(kind, value)"""
    return st.one_of(st.tuples(st.just('email'), MAILS), st.tuples(st.just('DNS'), HOSTS), st.tuples(st.just('URI'), URIS), st.tuples(st.just('IP'), st.one_of(st.binary(min_size=4, max_size=4), st.binary(min_size=16, max_size=16))),
                     st.tuples(st.just('RID'), OIDS), st.tuples(st.just('dirName'), simplename()), st.tuples(st.just('otherName'), st.tuples(OIDS, TEXTS)))


class Conf(object):
    """an openssl configuration under construction"""
    def __init__(self): self.sections, self.n = [], 0

    def section(self, lines, name=None):
        if name is None:
            self.n += 1
            name = 's%d' % self.n
        self.sections.append('[%s]\n%s\n' % (name, '\n'.join(lines)))
        return name

    def name(self, d):
        return self.section(['%d.%s=%s' % (i, n, v) for i, rdn in enumerate(d) for n, v in rdn])

    def gn(self, x):
        """kind and text of a general name for a section of names"""
        kind, v = x
        if kind == 'IP': return 'IP', ip4(v) if len(v) == 4 else ip6(v)
        if kind == 'RID': return 'RID', dot(v)
        if kind == 'dirName': return 'dirName', self.name(v)
        if kind == 'otherName': return 'otherName', '%s;UTF8:%s' % (dot(v[0]), v[1])
        return kind, v

    def gns(self, xs):
        lines = []
        for i, x in enumerate(xs):
            a, b = self.gn(x)
            lines.append('%s.%d=%s' % (a, i, b))
        return self.section(lines)


def gnfacts(path, x):
    kind, v = x
    if kind == 'dirName': return dnfacts(path + ['directoryName'], v)
    if kind == 'otherName': return [(path + ['otherName', 'type-id'], v[0]), (path + ['otherName', 'value'], utf8(v[1]))]
    n = {'email': 'rfc822Name', 'DNS': 'dNSName', 'URI': 'uniformResourceIdentifier', 'IP': 'iPAddress', 'RID': 'registeredID'}[kind]
    return [(path + [n], v)]


def utf8(s):
    b = s.encode()
    return bytes([12, len(b)]) + b


def gnsfacts(path, xs):
    out = [(path + ['#'], len(xs))]
    for i, x in enumerate(xs): out += gnfacts(path + [i], x)
    return out


USAGE = ['digitalSignature', 'nonRepudiation', 'keyEncipherment', 'dataEncipherment', 'keyAgreement', 'keyCertSign', 'cRLSign', 'encipherOnly', 'decipherOnly']
EKU = {'serverAuth': 1, 'clientAuth': 2, 'codeSigning': 3, 'emailProtection': 4, 'timeStamping': 8, 'OCSPSigning': 9}
REASONS = ['unused', 'keyCompromise', 'CACompromise', 'affiliationChanged', 'superseded', 'cessationOfOperation', 'certificateHold', 'privilegeWithdrawn', 'AACompromise']


def bits(names, table):
    n = [table.index(x) for x in names]
    return ''.join('1' if i in n else '0' for i in range(max(n) + 1)) if n else ''


def distpoint():
    return st.fixed_dictionaries({'full': st.one_of(st.none(), st.lists(generalname().filter(lambda x: x[0] in ('URI', 'DNS', 'dirName')), min_size=1, max_size=3)), 'rel': st.one_of(st.none(), simplename()),
                                  'issuer': st.one_of(st.none(), simplename()), 'reasons': st.lists(st.sampled_from(REASONS[1:]), unique=True, max_size=4)}).filter(lambda d: (d['full'] is None) != (d['rel'] is None) or d['issuer'] and d['full'] is None)


def distlines(c, d):
    out = []
    if d['full']: out.append('fullname=' + ','.join('%s:%s' % c.gn(x) for x in d['full']))
    if d['rel'] and not d['full']: out.append('relativename=' + c.name([d['rel'][0]]))
    if d['issuer']: out.append('CRLissuer=dirName:' + c.name(d['issuer']))
    if d['reasons']: out.append('reasons=' + ','.join(d['reasons']))
    return out


def distfacts(path, d):
    out = []
    if d['full']: out += gnsfacts(path + ['distributionPoint', 'fullName'], d['full'])
    elif d['rel']: out += [(path + ['distributionPoint', 'nameRelativeToCRLIssuer'], {'names': [[list(OID[n]), v] for n, v in d['rel'][0]]})]
    else: out.append((path + ['distributionPoint'], None))
    if d['issuer']: out += gnsfacts(path + ['cRLIssuer'], [('dirName', d['issuer'])])
    else: out.append((path + ['cRLIssuer'], None))
    out.append((path + ['reasons'], bits(d['reasons'], REASONS) if d['reasons'] else None))
    return out


def comma(s): return ',' not in s and not s.startswith(' ')


EXTS = {}


def ext(name, oid, keys, strategy):
    def add(f):
        EXTS[name] = (oid, keys, strategy, f)
        return f
    return add


@ext('basicConstraints', (2, 5, 29, 19), k('BasicConstraints', *SET5), st.tuples(st.booleans(), st.one_of(st.none(), st.sampled_from([0, 1, 127, 128, 65536]), st.integers(0, 2 ** 40))))
def _(c, v): return 'CA:%s%s' % ('TRUE' if v[0] else 'FALSE', ',pathlen:%d' % v[1] if v[1] is not None else ''), [(['cA'], v[0]), (['pathLenConstraint'], v[1])]


@ext('keyUsage', (2, 5, 29, 15), k('KeyUsage', *SET5), st.lists(st.sampled_from(USAGE), min_size=1, unique=True))
def _(c, v): return ','.join(v), [([], bits(v, USAGE))]


@ext('extendedKeyUsage', (2, 5, 29, 37), k('ExtKeyUsageSyntax', *SET5), st.lists(st.one_of(st.sampled_from(sorted(EKU)), OIDS), min_size=1, max_size=5))
def _(c, v): return ','.join(x if isinstance(x, str) else dot(x) for x in v), [([], [(1, 3, 6, 1, 5, 5, 7, 3, EKU[x]) if isinstance(x, str) else tuple(x) for x in v])]


@ext('subjectAltName', (2, 5, 29, 17), k('SubjectAltName GeneralNames', *SET5), st.lists(generalname(), min_size=1, max_size=5))
def _(c, v): return '@' + c.gns(v), gnsfacts([], v)


@ext('issuerAltName', (2, 5, 29, 18), k('IssuerAltName GeneralNames', *SET5), st.lists(generalname(), min_size=1, max_size=5))
def _(c, v): return '@' + c.gns(v), gnsfacts([], v)


@ext('authorityInfoAccess', (1, 3, 6, 1, 5, 5, 7, 1, 1), k('AuthorityInfoAccessSyntax', *SET5), st.lists(st.tuples(st.sampled_from([('OCSP', (1, 3, 6, 1, 5, 5, 7, 48, 1)), ('caIssuers', (1, 3, 6, 1, 5, 5, 7, 48, 2)), ('1.2.3.4', (1, 2, 3, 4))]), generalname()), min_size=1, max_size=4))
def _(c, v):
    f = [(['#'], len(v))]
    lines = []
    for i, (m, x) in enumerate(v):
        lines.append('%s;%s.%d=%s' % ((m[0],) + (lambda ab: (ab[0], i, ab[1]))(c.gn(x))))
        f += [([i, 'accessMethod'], m[1])] + gnfacts([i, 'accessLocation'], x)
    return '@' + c.section(lines), f


@ext('subjectInfoAccess', (1, 3, 6, 1, 5, 5, 7, 1, 11), k('SubjectInfoAccessSyntax', 3280, 5280), st.lists(st.tuples(st.sampled_from([('caRepository', (1, 3, 6, 1, 5, 5, 7, 48, 5)), ('ad_timestamping', (1, 3, 6, 1, 5, 5, 7, 48, 3))]), generalname()), min_size=1, max_size=4))
def _(c, v): return EXTS['authorityInfoAccess'][3](c, v)


@ext('crlDistributionPoints', (2, 5, 29, 31), k('CRLDistPointsSyntax', 2459) + k('CRLDistributionPoints', 3280, 5280), st.lists(distpoint(), min_size=1, max_size=3))
def _(c, v):
    f = [(['#'], len(v))]
    for i, d in enumerate(v): f += distfacts([i], d)
    return ','.join(c.section(distlines(c, d)) for d in v), f


@ext('freshestCRL', (2, 5, 29, 46), k('FreshestCRL', 3280, 5280), st.lists(distpoint(), min_size=1, max_size=3))
def _(c, v): return EXTS['crlDistributionPoints'][3](c, v)


POLICY = st.tuples(OIDS, st.one_of(st.none(), st.lists(st.one_of(st.tuples(st.just('cps'), URIS), st.tuples(st.just('notice'), st.fixed_dictionaries({
    'text': st.one_of(st.none(), st.tuples(st.sampled_from([('', 'visibleString'), ('UTF8:', 'utf8String'), ('VISIBLE:', 'visibleString')]), TEXTS)),
    'org': st.one_of(st.none(), TEXTS), 'numbers': st.lists(st.integers(0, 2 ** 33), min_size=1, max_size=4)}).filter(lambda n: n['text'] or n['org']))), min_size=1, max_size=3)))


@ext('certificatePolicies', (2, 5, 29, 32), k('CertificatePolicies', *SET5), st.lists(POLICY, min_size=1, max_size=4, unique_by=lambda p: p[0]))
def _(c, v):
    f, items = [(['#'], len(v))], []
    for i, (o, q) in enumerate(v):
        f.append(([i, 'policyIdentifier'], o))
        if q is None:
            items.append(dot(o))
            f.append(([i, 'policyQualifiers'], None))
            continue
        lines = ['policyIdentifier=' + dot(o)]
        f.append(([i, 'policyQualifiers', '#'], len(q)))
        for j, (what, x) in enumerate(q):
            p = [i, 'policyQualifiers', j]
            if what == 'cps':
                lines.append('CPS.%d=%s' % (j, x))
                f += [(p + ['policyQualifierId'], (1, 3, 6, 1, 5, 5, 7, 2, 1)), (p + ['qualifier', '>CPSuri'], x)]
            else:
                sub = []
                u = p + ['qualifier', '>UserNotice' + '!rfc2459' * bool(x['org'])]      # RFC 2459 has no IA5String there
                f.append((p + ['policyQualifierId'], (1, 3, 6, 1, 5, 5, 7, 2, 2)))
                if x['text']:
                    sub.append('explicitText=%s%s' % (x['text'][0][0], x['text'][1]))
                    f.append((u + ['explicitText', x['text'][0][1]], x['text'][1]))
                else: f.append((u + ['explicitText'], None))
                if x['org']:
                    sub += ['organization=' + x['org'], 'noticeNumbers=' + ','.join(map(str, x['numbers']))]
                    f += [(u + ['noticeRef', 'organization', '*'], x['org']), (u + ['noticeRef', 'noticeNumbers'], x['numbers'])]
                else: f.append((u + ['noticeRef'], None))
                lines.append('userNotice.%d=@%s' % (j, c.section(sub)))
        items.append('@' + c.section(lines))
    return 'ia5org,' * bool(any(q and any(w == 'notice' and x['org'] for w, x in q) for _, q in v)) + ','.join(items), f


@ext('policyConstraints', (2, 5, 29, 36), k('PolicyConstraints', *SET5), st.tuples(st.one_of(st.none(), st.integers(0, 2 ** 20)), st.one_of(st.none(), st.integers(0, 2 ** 20))).filter(lambda x: x != (None, None)))
def _(c, v): return ','.join(n + ':%d' % x for n, x in zip(('requireExplicitPolicy', 'inhibitPolicyMapping'), v) if x is not None), [(['requireExplicitPolicy'], v[0]), (['inhibitPolicyMapping'], v[1])]


@ext('policyMappings', (2, 5, 29, 33), k('PolicyMappings', *SET5), st.lists(st.tuples(OIDS, OIDS), min_size=1, max_size=4, unique_by=lambda x: x[0]))
def _(c, v): return '@' + c.section(['%s=%s' % (dot(a), dot(b)) for a, b in v]), [(['#'], len(v))] + [x for i, (a, b) in enumerate(v) for x in (([i, 'issuerDomainPolicy'], a), ([i, 'subjectDomainPolicy'], b))]


@ext('inhibitAnyPolicy', (2, 5, 29, 54), k('InhibitAnyPolicy', 3280, 5280), st.integers(0, 2 ** 33))
def _(c, v): return str(v), [([], v)]


@ext('nameConstraints', (2, 5, 29, 30), k('NameConstraints', *SET5), st.lists(st.tuples(st.booleans(), st.one_of(generalname().filter(lambda x: x[0] in ('email', 'DNS', 'URI', 'dirName')),
     st.tuples(st.just('IPM'), st.one_of(st.binary(min_size=8, max_size=8), st.binary(min_size=32, max_size=32))))), min_size=1, max_size=5))
def _(c, v):
    lines, f, n = [], [], {True: 0, False: 0}
    for i, (ok, x) in enumerate(v):
        h = len(x[1]) // 2
        a, b = c.gn(x) if x[0] != 'IPM' else ('IP', '%s/%s' % ((ip4 if h == 4 else ip6)(x[1][:h]), (ip4 if h == 4 else ip6)(x[1][h:])))
        lines.append('%s;%s.%d=%s' % ('permitted' if ok else 'excluded', a, i, b))
        p = ['permittedSubtrees' if ok else 'excludedSubtrees', n[ok]]
        f += gnfacts(p + ['base'], ('IP', x[1]) if x[0] == 'IPM' else x) + [(p + ['minimum'], 0), (p + ['maximum'], None)]
        n[ok] += 1
    return '@' + c.section(lines), f + [([m, '#'], n[b]) if n[b] else ([m], None) for b, m in ((True, 'permittedSubtrees'), (False, 'excludedSubtrees'))]


@ext('subjectKeyIdentifier', (2, 5, 29, 14), k('SubjectKeyIdentifier', 2459, 3280, 5280), st.binary(min_size=1, max_size=30))
def _(c, v): return v.hex(), [([], v)]


@ext('tlsfeature', (1, 3, 6, 1, 5, 5, 7, 1, 24), k('Features', 7633), st.lists(st.one_of(st.sampled_from(['status_request', 'status_request_v2']), st.integers(0, 65535)), min_size=1, max_size=5))
def _(c, v): return ','.join(map(str, v)), [([], [{'status_request': 5, 'status_request_v2': 17}.get(x, x) for x in v])]


@ext('noCheck', (1, 3, 6, 1, 5, 5, 7, 48, 1, 5), [], st.just(None))
def _(c, v): return 'ignored', []


@ext('sbgp-autonomousSysNum', (1, 3, 6, 1, 5, 5, 7, 1, 8), k('ASIdentifiers', 3779, 8360), st.fixed_dictionaries({x: st.one_of(st.none(), st.just('inherit'), st.lists(st.integers(0, 2 ** 16), min_size=1, max_size=5, unique=True).map(sorted)) for x in ('AS', 'RDI')}).filter(lambda d: d['AS'] or d['RDI']))
def _(c, v):
    """numbers and ranges that are far enough apart not to be joined"""
    lines, f, n = [], [], 0
    for w, comp in (('AS', 'asnum'), ('RDI', 'rdi')):
        if v[w] is None:
            f.append(([comp], None))
            continue
        if v[w] == 'inherit':
            lines.append('%s.%d=inherit' % (w, n))
            n += 1
            f.append(([comp, 'inherit'], None))
            continue
        f.append(([comp, 'asIdsOrRanges', '#'], len(v[w])))
        for i, x in enumerate(v[w]):
            if x % 2:
                lines.append('%s.%d=%d-%d' % (w, n, x * 100, x * 100 + 50))
                f += [([comp, 'asIdsOrRanges', i, 'range', 'min'], x * 100), ([comp, 'asIdsOrRanges', i, 'range', 'max'], x * 100 + 50)]
            else:
                lines.append('%s.%d=%d' % (w, n, x * 100))
                f.append(([comp, 'asIdsOrRanges', i, 'id'], x * 100))
            n += 1
    return '@' + c.section(lines), f


@ext('sbgp-ipAddrBlock', (1, 3, 6, 1, 5, 5, 7, 1, 7), k('IPAddrBlocks', 3779, 8360), st.fixed_dictionaries({x: st.one_of(st.none(), st.just('inherit'), st.lists(st.tuples(st.integers(0, 250), st.integers(1, 7)), min_size=1, max_size=4, unique_by=lambda y: y[0]).map(sorted)) for x in ('IPv4', 'IPv6')}).filter(lambda d: d['IPv4'] or d['IPv6']))
def _(c, v):
    """prefixes 10.x.y.0/(16+n) with y cut to n bits: distinct x are never joined unless adjacent, so x is doubled"""
    lines, f, n = [], [], 0
    for j, w in enumerate([w for w in ('IPv4', 'IPv6') if v[w]]):
        f.append(([j, 'addressFamily'], b'\0\1' if w == 'IPv4' else b'\0\2'))
        if v[w] == 'inherit':
            lines.append('%s.%d=inherit' % (w, n))
            n += 1
            f.append(([j, 'ipAddressChoice', 'inherit'], None))
            continue
        f.append(([j, 'ipAddressChoice', 'addressesOrRanges', '#'], len(v[w])))
        for i, (x, m) in enumerate(v[w]):
            first = '1' * m
            if w == 'IPv4':
                lines.append('%s.%d=10.%d.%d.0/%d' % (w, n, x, int(first.ljust(8, '0'), 2), 16 + m))
                b = '{:08b}{:08b}'.format(10, x) + first
            else:
                lines.append('%s.%d=2001:%x::/%d' % (w, n, x << 8 | int(first.ljust(8, '0'), 2), 24 + m))
                b = '{:016b}{:08b}'.format(0x2001, x) + first
            f.append(([j, 'ipAddressChoice', 'addressesOrRanges', i, 'addressPrefix'], b))
            n += 1
    return '@' + c.section(lines), f + [(['#'], len([w for w in v if v[w]]))]


@ext('proxyCertInfo', (1, 3, 6, 1, 5, 5, 7, 1, 14), k('ProxyCertInfoExtension', 3820), st.tuples(st.sampled_from([0, 1, 2, (1, 2, 3, 4)]), st.one_of(st.none(), st.integers(0, 2 ** 20)), st.one_of(st.none(), TEXTS)).filter(lambda x: not (x[2] and x[0] in (1, 2))))
def _(c, v):
    lang, n, text = v
    o = (1, 3, 6, 1, 5, 5, 7, 21, lang) if isinstance(lang, int) else tuple(lang)
    lines = ['language=' + dot(o)] + (['pathlen=%d' % n] if n is not None else []) + (['policy=text:' + text] if text else [])
    return ','.join(x.replace('=', ':', 1) for x in lines), [(['pCPathLenConstraint'], n), (['proxyPolicy', 'policyLanguage'], o), (['proxyPolicy', 'policy'], text.encode() if text else None)]


@ext('1.2.3.4.5', (1, 2, 3, 4, 5), [], st.binary(min_size=1, max_size=40))
def _(c, v): return 'DER:' + v.hex(), [([], v)]


@ext('1.2.3.4.6', (1, 2, 3, 4, 6), [], TEXTS)
def _(c, v): return 'ASN1:UTF8String:' + v, [([], utf8(v))]


def extensions(max_size=5, only=None):
    """list of (name, critical, parameters)"""
    names = sorted(only or EXTS)
    return st.lists(st.sampled_from(names).flatmap(lambda n: st.tuples(st.just(n), st.booleans(), EXTS[n][2])), max_size=max_size, unique_by=lambda e: e[0])


def extconf(c, es):
    """(section name, [(oid, critical, keys, facts)])"""
    lines, out = [], []
    for n, crit, v in es:
        oid, keys, _, f = EXTS[n]
        text, facts, *without = f(c, v)
        keys = [x for x in keys if x[0] not in without]
        lines.append('%s=%s%s' % (n, 'critical,' if crit else '', text))
        out.append((oid, crit, keys, facts))
    return c.section(lines), out


def extfacts(path, out):
    """openssl adds key identifiers of its own"""
    return [(path + ['=extnID=' + dot(oid), 'critical'], crit) for oid, crit, keys, facts in out]


# ------------------------------------------------------------------ recipes
RECIPES = {}
pick = None                     # set by the check: octets at a path of an object, by the reference model


def recipe(name, weight, /, **strategies):
    def add(f):
        RECIPES[name] = (st.fixed_dictionaries(strategies), f, weight)
        return f
    return add


def nameparts(key, octets, path, d):
    """the attribute values of the name at path in an object"""
    arts = []
    for i, rdn in enumerate(d):
        for n, v in rdn:
            b = pick(key, octets, path + ['*', i, '=type=' + dot(OID[n]), 'value'])
            mods = {'UID': [], 'name': (2459, 3280, 5280), 'pseudonym': (3280, 5280), 'DC': (3280, 5280), 'emailAddress': (3280, 5280), 'serialNumber': (3280, 5280)}.get(n, SET5)
            if X520[n] == 'DirectoryString': mods = SET5
            if n == 'emailAddress': keys = k('Pkcs9email', 2459) + k('EmailAddress', 3280, 5280)
            else: keys = k(X520[n], *mods)
            arts.append(Art('value of ' + n, keys, b, [(['*'], v)]))
            if n in ('O', 'CN', 'OU', 'L', 'ST', 'title'): arts.append(Art('value of ' + n, k('DirectoryString', *SET5), b, [(['*'], v)]))
    arts.append(Art('name', k('Name', *SET5), pick(key, octets, path), dnfacts([], d)))
    return arts


def extarts(key, octets, path, out):
    arts = []
    for i, (oid, crit, keys, facts) in enumerate(out):
        b = pick(key, octets, path + ['=extnID=' + dot(oid), 'extnValue'])
        if keys: arts.append(Art('extension %s' % dot(oid), keys, b, facts))
    return arts


SIGNERS = st.sampled_from([('rsa', h) for h in ('sha256', 'sha384', 'sha512', 'sha1', 'sha224', 'md5')] + [('ec', h) for h in ('sha256', 'sha384', 'sha512', 'sha1', 'sha224')]
                          + [('dsa', 'sha256'), ('dsa', 'sha1'), ('dsa', 'sha224'), ('ed', None), ('ed448', None), ('pss', 'sha256')])


def signopts(s):
    return ['-' + s[1]] if s[1] and s[0] != 'pss' else ['-sha256', '-sigopt', 'rsa_padding_mode:pss'] if s[0] == 'pss' else []


def signkind(s): return 'rsa' if s[0] == 'pss' else s[0]


def sigoid(s): return {'ed': (1, 3, 101, 112), 'ed448': (1, 3, 101, 113), 'pss': (1, 2, 840, 113549, 1, 1, 10)}.get(s[0]) or SIG[s]


def keyalg(kind): return KEYOID['rsa' if kind.startswith('rsa') else kind if kind in KEYOID else 'ec']


def request(lab, v, mode, conf, exts):
    """configuration file for openssl req"""
    lines = ['[req]', 'distinguished_name=dn', 'prompt=no', 'string_mask=%s' % v['mask'], 'utf8=yes']
    if exts: lines.append(('x509_extensions=' if mode == 'x509' else 'req_extensions=') + exts)
    if v.get('attributes'): lines.append('attributes=attrs')
    esc = lambda s: ''.join('\\' + ch if ch in '\\$#"\'`' else ch for ch in s)
    lines += ['[dn]'] + ['%d%d.%s%s=%s' % (i, j, '+' * bool(j), n, esc(x)) for i, rdn in enumerate(v['d']) for j, (n, x) in enumerate(rdn)] if mode == 'names' else ['[dn]', 'CN=x']
    if v.get('attributes'): lines += ['[attrs]'] + ['%s=%s' % x for x in v['attributes']]
    return lab.write('req.cnf', '\n'.join(lines) + '\n' + '\n'.join(conf.sections))


@recipe('certificate', 30, d=dn(), mask=MASKS, serial=st.one_of(st.integers(-2 ** 70, 2 ** 70), st.sampled_from([0, 1, 127, 128, 255, 256, -1, -128, 2 ** 159])), sign=SIGNERS, es=extensions(), days=st.integers(1, 9000))
def _(lab, v):
    c = Conf()
    sect, out = extconf(c, v['es'])
    kind = signkind(v['sign'])
    b = lab.run('req', '-x509', '-new', '-config', request(lab, v, 'x509', c, sect if out else None), '-key', lab.key(kind), '-subj', subj(v['d']), '-utf8', '-set_serial', v['serial'], '-days', v['days'], '-outform', 'DER', *signopts(v['sign']))
    t = ['tbsCertificate']
    alg = sigoid(v['sign'])
    facts = [(t + ['version'], 2 if out else 0), (t + ['serialNumber'], v['serial']), (t + ['signature', 'algorithm'], alg), (['signatureAlgorithm', 'algorithm'], alg),
             (t + ['subjectPublicKeyInfo', 'algorithm', 'algorithm'], KEYOID[kind]), (t + ['issuerUniqueID'], None), (t + ['subjectUniqueID'], None)]
    facts += dnfacts(t + ['issuer'], v['d']) + dnfacts(t + ['subject'], v['d']) + extfacts(t + ['extensions'], out)
    key = CERT[2]
    arts = [Art('certificate', CERT, b, facts), Art('tbs certificate', k('TBSCertificate', *SET5), pick(key, b, t), [(p[1:], x) for p, x in facts if p[0] == 'tbsCertificate']),
            Art('certificate among choices', k('CertificateChoices', 3852, 5652), b, [(['certificate'] + p, x) for p, x in facts[:4]]), Art('certificate among CMP certificates', k('CMPCertificate', 4210), b, facts[:4]),
            Art('public key', SPKI, lab.spki(kind), [(['algorithm', 'algorithm'], KEYOID[kind])])]
    arts += nameparts(key, b, t + ['subject'], v['d']) + extarts(key, b, t + ['extensions'], out)
    return arts


def moment(min_year=1950, max_year=9999):
    return st.tuples(st.one_of(st.integers(min_year, max_year), st.sampled_from([y for y in (1950, 1999, 2000, 2049, 2050, 9999) if min_year <= y <= max_year])), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))


def times(path, m):
    y = '%04d%02d%02d%02d%02d%02dZ' % m
    return [(path + ['utcTime'], y[2:]) if m[0] < 2050 else (path + ['generalTime|generalizedTime'], y)]


@recipe('certificate with dates', 15, d=dn(), mask=MASKS, start=moment(), end=moment(), sign=SIGNERS, serial=st.integers(1, 2 ** 100), kind=st.sampled_from(['rsa', 'ec', 'dsa', 'secp384r1', 'ed', 'x']))
def _(lab, v):
    """an authority makes it; start and end in either order"""
    s, kind = signkind(v['sign']), v['kind']
    req = 'for-ca-%s.csr' % kind
    if kind == 'x': kind = 'ec'
    lab.write('ca.cnf', '[ca]\ndefault_ca=c\n[c]\ndatabase=idx\nserial=ser\nnew_certs_dir=.\npolicy=p\nstring_mask=%s\nunique_subject=no\npreserve=yes\n[p]\ncommonName=optional\n[e]\nbasicConstraints=CA:FALSE\n[req]\ndistinguished_name=dn\nprompt=no\nutf8=yes\nstring_mask=%s\n[dn]\nCN=x\n' % (v['mask'], v['mask']))
    lab.write('idx', '')
    h = '%x' % v['serial']
    lab.write('ser', ('0' * (len(h) % 2) + h) + '\n')
    lab.run('req', '-new', '-config', 'ca.cnf', '-key', lab.key(kind), '-subj', subj(v['d']), '-utf8', '-out', req)
    ca = lab.cert(s, 'Authority ' + s)
    f = lambda m: '%04d%02d%02d%02d%02d%02dZ' % m
    lab.run('ca', '-config', 'ca.cnf', '-batch', '-notext', '-preserveDN', '-in', req, '-cert', ca, '-keyfile', lab.key(s), '-startdate', f(v['start']), '-enddate', f(v['end']), '-extensions', 'e', '-out', 'made.pem', *(['-md', v['sign'][1]] if v['sign'][1] else ['-md', 'default']),
            *(['-sigopt', 'rsa_padding_mode:pss'] if v['sign'][0] == 'pss' else []))
    b = lab.run('x509', '-in', 'made.pem', '-outform', 'DER')
    t = ['tbsCertificate']
    facts = [(t + ['version'], 2), (t + ['serialNumber'], v['serial']), (t + ['signature', 'algorithm'], sigoid(v['sign']))] + times(t + ['validity', 'notBefore'], v['start']) + times(t + ['validity', 'notAfter'], v['end'])
    facts += dnfacts(t + ['issuer'], [[('CN', 'Authority ' + s)]]) + dnfacts(t + ['subject'], v['d']) + [(t + ['subjectPublicKeyInfo', 'algorithm', 'algorithm'], keyalg(kind))]
    return [Art('certificate', CERT, b, facts), Art('validity', k('Validity', *SET5), pick(CERT[2], b, t + ['validity']), times(['notBefore'], v['start']) + times(['notAfter'], v['end']))]


@recipe('certification request', 20, d=dn(0), mask=MASKS, sign=SIGNERS, es=extensions(), challenge=st.one_of(st.none(), TEXTS), uname=st.one_of(st.none(), TEXTS))
def _(lab, v):
    c = Conf()
    sect, out = extconf(c, v['es'])
    v = dict(v, attributes=[x for x in (('challengePassword', v['challenge']), ('unstructuredName', v['uname'])) if x[1]])
    kind = signkind(v['sign'])
    names = bool(v['attributes']) and all(x.strip() == x for r in v['d'] for n, x in r)
    if not names: v['attributes'] = []          # openssl ignores them when the name is on the command line
    b = lab.run('req', '-new', '-config', request(lab, v, 'names' if names else 'req', c, sect if out else None), '-key', lab.key(kind), *([] if names else ['-subj', subj(v['d'])]), '-utf8', '-outform', 'DER', *signopts(v['sign']))
    t = ['certificationRequestInfo']
    facts = [(t + ['version'], 0), (['signatureAlgorithm', 'algorithm'], sigoid(v['sign'])), (t + ['subjectPKInfo|subjectPublicKeyInfo', 'algorithm', 'algorithm'], KEYOID[kind]), (t + ['attributes', '#'], len(v['attributes']) + bool(out))]
    facts += dnfacts(t + ['subject'], v['d'])
    arts = []
    for n, x in v['attributes']:
        oid = {'challengePassword': (1, 2, 840, 113549, 1, 9, 7), 'unstructuredName': (1, 2, 840, 113549, 1, 9, 2)}[n]
        p = t + ['attributes', '=type=' + dot(oid), 'vals|values']
        facts.append((p + ['#'], 1))
        arts.append(Art(n, k('DirectoryString' if n[0] == 'c' else 'PKCS9String', 2985), pick(CSR[1], b, p + [0]), [(['*', '*'], x)]))
        arts.append(Art('attribute ' + n, k('Attribute', 2986, 5280, 5652), pick(CSR[1], b, p[:-1]), [(['type|attrType'], oid), (['values|attrValues', '#'], 1)]))
    if out:
        p = t + ['attributes', '=type=1.2.840.113549.1.9.14', 'vals|values', 0]
        e = pick(CSR[1], b, p)
        arts.append(Art('extension request', k('ExtensionRequest', 2985) + k('Extensions', *SET5), e, extfacts([], out)))
        arts += extarts(('rfc5280', 'Extensions'), e, [], out)
    return [Art('request', CSR, b, facts), Art('request info', k('CertificationRequestInfo', 2314, 2986), pick(CSR[1], b, t), [(p[1:], x) for p, x in facts if p[0] == t[0]])] + arts


CRLREASON = {'unspecified': 0, 'keyCompromise': 1, 'CACompromise': 2, 'affiliationChanged': 3, 'superseded': 4, 'cessationOfOperation': 5, 'certificateHold': 6, 'removeFromCRL': 8}
HOLD = {'holdInstructionNone': 1, 'holdInstructionCallIssuer': 2, 'holdInstructionReject': 3}
REVOKED = st.tuples(st.integers(1, 2 ** 80), moment(1970, 2049), st.one_of(st.none(), st.sampled_from(sorted(CRLREASON)), st.tuples(st.sampled_from(['keyTime', 'CAkeyTime']), moment(1970)), st.tuples(st.just('hold'), st.sampled_from(sorted(HOLD)))))


@recipe('revocation list', 25, revoked=st.lists(REVOKED, max_size=6, unique_by=lambda r: r[0]), sign=SIGNERS, number=st.one_of(st.none(), st.integers(0, 2 ** 70)), es=extensions(3, ['issuerAltName', 'freshestCRL', 'authorityInfoAccess', '1.2.3.4.5', 'issuingDistributionPoint']), last=st.one_of(st.none(), moment(1970)), nextu=moment(1970))
def _(lab, v):
    c = Conf()
    sect, out = extconf(c, v['es'])
    s = signkind(v['sign'])
    ca = lab.cert(s, 'Authority ' + s)
    lines = []
    hx = lambda n: '0' * (len('%x' % n) % 2) + '%X' % n
    f = lambda m: ('%04d%02d%02d%02d%02d%02dZ' % m)[2 if 1950 <= m[0] < 2050 else 0:]
    for n, when, why in v['revoked']:
        r = '' if why is None else ',' + why if isinstance(why, str) else ',%s,%s' % (why[0], '%04d%02d%02d%02d%02d%02dZ' % why[1]) if why[0] != 'hold' else ',holdInstruction,' + why[1]
        lines.append('R\t300101000000Z\t%s%s\t%s\tunknown\t/CN=x' % (f(when), r, hx(n)))
    lab.write('cidx', ''.join(x + '\n' for x in lines))
    if v['number'] is not None: lab.write('crlnum', hx(v['number']) + '\n')
    cnf = '[ca]\ndefault_ca=c\n[c]\ndatabase=cidx\n%s%s\n[none]\n%s' % ('crlnumber=crlnum\n' if v['number'] is not None else '', 'crl_extensions=%s\n' % sect if out else '', '\n'.join(c.sections))
    lab.write('crl.cnf', cnf)
    if v['number'] is not None and os.path.exists(lab.path('crlnum.old')): os.remove(lab.path('crlnum.old'))
    when = (['-crl_lastupdate', '%04d%02d%02d%02d%02d%02dZ' % v['last']] if v['last'] else []) + ['-crl_nextupdate', '%04d%02d%02d%02d%02d%02dZ' % v['nextu']]
    lab.run('ca', '-config', 'crl.cnf', '-gencrl', '-cert', ca, '-keyfile', lab.key(s), '-out', 'made.crl', *when, *(['-md', v['sign'][1]] if v['sign'][1] else ['-md', 'default']), *(['-sigopt', 'rsa_padding_mode:pss'] if v['sign'][0] == 'pss' else []))
    b = lab.run('crl', '-in', 'made.crl', '-outform', 'DER')
    t = ['tbsCertList']
    v2 = bool(out) or v['number'] is not None or any(w is not None for _, _, w in v['revoked'])
    facts = [(t + ['version'], 1 if v2 else None), (t + ['signature', 'algorithm'], sigoid(v['sign'])), (t + ['revokedCertificates'] + ['#'] * bool(v['revoked']), len(v['revoked']) or None)] + dnfacts(t + ['issuer'], [[('CN', 'Authority ' + s)]])
    if v['last']: facts += times(t + ['thisUpdate'], v['last'])
    facts += times(t + ['nextUpdate'], v['nextu'])
    n = len(out) + (v['number'] is not None)
    facts.append((t + ['crlExtensions'] + ['#'] * bool(n), n or None))
    arts = []
    key = CRL[2]
    for i, (num, when, why) in enumerate(sorted(v['revoked'])):
        p = t + ['revokedCertificates', i]
        facts += [(p + ['userCertificate'], num)] + times(p + ['revocationDate'], when)
        if why is None or why == 'unspecified' and False: facts.append((p + ['crlEntryExtensions'], None))
        elif isinstance(why, str): arts.append(Art('reason', k('CRLReason', *SET5), pick(key, b, p + ['crlEntryExtensions', '=extnID=2.5.29.21', 'extnValue']), [([], CRLREASON[why])]))
        elif why[0] == 'hold': arts.append(Art('hold instruction', k('HoldInstructionCode', *SET5), pick(key, b, p + ['crlEntryExtensions', '=extnID=2.5.29.23', 'extnValue']), [([], (1, 2, 840, 10040, 2, HOLD[why[1]]))]))
        else: arts.append(Art('invalidity date', k('InvalidityDate', *SET5), pick(key, b, p + ['crlEntryExtensions', '=extnID=2.5.29.24', 'extnValue']), [([], '%04d%02d%02d%02d%02d%02dZ' % why[1])]))
    if v['number'] is not None: arts.append(Art('CRL number', k('CRLNumber', *SET5) + k('BaseCRLNumber', *SET5), pick(key, b, t + ['crlExtensions', '=extnID=2.5.29.20', 'extnValue']), [([], v['number'])]))
    arts += extarts(key, b, t + ['crlExtensions'], out)
    return [Art('CRL', CRL, b, facts), Art('tbs CRL', k('TBSCertList', *SET5), pick(key, b, t), [(p[1:], x) for p, x in facts])] + arts


@ext('issuingDistributionPoint', (2, 5, 29, 28), k('IssuingDistributionPoint', *SET5), st.fixed_dictionaries({'full': st.one_of(st.none(), st.lists(generalname().filter(lambda x: x[0] in ('URI', 'DNS', 'dirName')), min_size=1, max_size=3)),
     'only': st.sampled_from([None, 'onlyuser', 'onlyCA', 'onlyAA']), 'reasons': st.lists(st.sampled_from(REASONS[1:]), unique=True, max_size=4), 'indirect': st.booleans()}).filter(lambda d: d['full'] or d['only'] or d['reasons'] or d['indirect']))
def _(c, v):
    lines = distlines(c, {'full': v['full'], 'rel': None, 'issuer': None, 'reasons': []})
    if v['only']: lines.append(v['only'] + '=TRUE')
    if v['indirect']: lines.append('indirectCRL=TRUE')
    if v['reasons']: lines.append('onlysomereasons=' + ','.join(v['reasons']))
    f = gnsfacts(['distributionPoint', 'fullName'], v['full']) if v['full'] else [(['distributionPoint'], None)]
    f += [(['onlyContainsUserCerts'], v['only'] == 'onlyuser'), (['onlyContainsCACerts'], v['only'] == 'onlyCA'), (['indirectCRL'], v['indirect']), (['onlySomeReasons'], bits(v['reasons'], REASONS) if v['reasons'] else None)]
    return ('@' + c.section(lines), f) + (('rfc2459',) if v['only'] == 'onlyAA' else ())


# ------------------------------------------------------------------ keys and parameters
def numbers(text):
    """label -> number, from openssl's text report"""
    out = {}
    for m in re.finditer(r'^([A-Za-z][A-Za-z0-9 -]*):\s*(?:(-?\d+) \((-?)0x|\n((?:[ \t]+[0-9a-f:]+\n)+))', text + '\n', re.M):
        out[m[1].strip()] = int(m[2]) if m[2] else int(re.sub(r'[\s:]', '', m[4]), 16)
    return out


def rawbytes(text, label):
    m = re.search(r'^%s:\s*\n((?:[ \t]+[0-9a-f:]+\n)+)' % label, text + '\n', re.M)
    return bytes.fromhex(re.sub(r'[\s:]', '', m[1])) if m else None


PKCS8 = k('PrivateKeyInfo', 5208, 5958, 4211, 7292) + k('OneAsymmetricKey', 5958)
EPKI = k('EncryptedPrivateKeyInfo', 2985, 5208, 5958, 7292)
RSAPUB = k('RSAPublicKey', 2437, 3279, 3370, 4055, 5480, 8017)
RSAPRIV = k('RSAPrivateKey', 2437, 3447, 8017)
DSAPARAMS = k('Dss_Parms', 2459, 3279, 3370, 6664)


def bitstring(b): return ''.join('{:08b}'.format(x) for x in b)


@recipe('RSA key', 12, bits=st.sampled_from([512, 520, 1024, 1025, 1031, 2048]), e=st.sampled_from([3, 17, 65537, 2 ** 32 + 15]), primes=st.sampled_from([2, 2, 2, 3, 4]), how=st.integers(0, 3))
def _(lab, v):
    bits, primes = (max(v['bits'], 1024), min(v['primes'], 3)) if v['primes'] > 2 else (v['bits'], 2)
    if v['primes'] == 4: bits, primes = 4096, 4
    if primes == 4 and v['how']: bits, primes = 1024, 3
    lab.run('genrsa', '-primes', primes, '-out', 'r.pem', bits) if v['e'] == 65537 else lab.run('genpkey', '-algorithm', 'RSA', '-pkeyopt', 'rsa_keygen_bits:%d' % bits, '-pkeyopt', 'rsa_keygen_pubexp:%d' % v['e'], '-pkeyopt', 'rsa_keygen_primes:%d' % primes, '-out', 'r.pem')
    n = numbers(lab.run('pkey', '-in', 'r.pem', '-noout', '-text').decode())
    names = [('modulus', 'modulus'), ('publicExponent', 'publicExponent'), ('privateExponent', 'privateExponent'), ('prime1', 'prime1'), ('prime2', 'prime2'), ('exponent1', 'exponent1'), ('exponent2', 'exponent2'), ('coefficient', 'coefficient')]
    f = [([a], n[b]) for a, b in names] + [(['version'], 0 if primes == 2 else 1)]
    many = []
    for i in range(3, primes + 1):
        p = ['otherPrimeInfos', i - 3]
        many += [(p + ['prime'], n['prime%d' % i]), (p + ['exponent'], n['exponent%d' % i]), (p + ['coefficient'], n['coefficient%d' % i])]
    if primes > 2: many.append((['otherPrimeInfos', '#'], primes - 2))
    old = lab.run('pkey', '-in', 'r.pem', '-traditional', '-outform', 'DER')
    p8 = lab.run('pkcs8', '-topk8', '-nocrypt', '-in', 'r.pem', '-outform', 'DER')
    pub = lab.run('pkey', '-in', 'r.pem', '-pubout', '-outform', 'DER')
    raw = lab.run('rsa', '-in', 'r.pem', '-RSAPublicKey_out', '-outform', 'DER')
    keys = RSAPRIV if primes == 2 else k('RSAPrivateKey', 3447, 8017)
    return [Art('RSA private key', keys, old, f + many), Art('RSA public key', RSAPUB, raw, f[:2]), Art('public key', SPKI, pub, [(['algorithm', 'algorithm'], KEYOID['rsa']), (['subjectPublicKey'], bitstring(raw)), (['algorithm', 'parameters'], b'\5\0')]),
            Art('private key', PKCS8, p8, [(['version'], 0), (['privateKeyAlgorithm', 'algorithm'], KEYOID['rsa']), (['privateKey'], old), (['attributes'], None)]), Art('private key in it', keys, pick(PKCS8[0], p8, ['privateKey']), f + many)]


@recipe('DSA key', 8, size=st.sampled_from([(1024, 160), (2048, 224), (2048, 256), (512, 160)]))
def _(lab, v):
    par = 'dsap-%d-%d.pem' % v['size']
    if not os.path.exists(lab.path(par)): lab.run('genpkey', '-genparam', '-algorithm', 'DSA', '-pkeyopt', 'dsa_paramgen_bits:%d' % v['size'][0], '-pkeyopt', 'dsa_paramgen_q_bits:%d' % v['size'][1], '-out', par)
    lab.run('genpkey', '-paramfile', par, '-out', 'd.pem')
    n = numbers(lab.run('pkey', '-in', 'd.pem', '-noout', '-text').decode())
    params = lab.run('dsaparam', '-in', par, '-outform', 'DER')
    f = [(['p'], n['P']), (['q'], n['Q']), (['g'], n['G'])]
    old = lab.run('pkey', '-in', 'd.pem', '-traditional', '-outform', 'DER')
    p8 = lab.run('pkcs8', '-topk8', '-nocrypt', '-in', 'd.pem', '-outform', 'DER')
    pub = lab.run('pkey', '-in', 'd.pem', '-pubout', '-outform', 'DER')
    lab.write('m', repr(v))
    lab.run('dgst', '-sha1', '-sign', 'd.pem', '-out', 'sig', 'm')
    return [Art('DSA parameters', DSAPARAMS, params, f), Art('DSA private key', k('DSAPrivateKey', 2459), old, [(['version'], 0)] + f + [(['public'], n['pub']), (['private'], n['priv'])]),
            Art('private key', PKCS8, p8, [(['version'], 0), (['privateKeyAlgorithm', 'algorithm'], KEYOID['dsa'])]),
            Art('public key', SPKI, pub, [(['algorithm', 'algorithm'], KEYOID['dsa']), (['algorithm', 'parameters'], params)]),
            Art('DSA public key', k('DSAPublicKey', 3279, 5480), bytes(int(x, 2) for x in re.findall('.' * 8, pick2(SPKI[0], pub, ['subjectPublicKey']))), [([], n['pub'])]),
            Art('DSA signature', k('Dss_Sig_Value', 2459, 3279, 3370, 6955), lab.read('sig'), [(['r'], sigparts(lab)[0]), (['s'], sigparts(lab)[1])])]


def sigparts(lab):
    """r and s of the signature in the file sig, by openssl asn1parse"""
    return [int(x, 16) for x in re.findall(r'INTEGER\s*:(-?[0-9A-F]+)', lab.run('asn1parse', '-inform', 'DER', '-in', 'sig').decode())]


def pick2(key, b, path):
    """bit string value at the path"""
    return pick(key, b, path, raw=True)


def curves():
    p = subprocess.run(['openssl', 'ecparam', '-list_curves'], stdout=subprocess.PIPE)
    return [x for x in re.findall(r'^\s+(\S+)\s*:', p.stdout.decode(), re.M) if not x.startswith('Oakley') and x != 'SM2']


@recipe('EC key', 20, curve=st.one_of(st.sampled_from(sorted(CURVES)), st.sampled_from(curves())), explicit=st.booleans(), form=st.sampled_from(['uncompressed', 'compressed', 'hybrid']), nopub=st.booleans())
def _(lab, v):
    lab.run('genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:' + v['curve'], '-pkeyopt', 'ec_param_enc:' + ('explicit' if v['explicit'] else 'named_curve'), '-out', 'e.pem')
    text = lab.run('pkey', '-in', 'e.pem', '-noout', '-text').decode()
    enc = 'explicit' if v['explicit'] else 'named_curve'
    opts = ['-conv_form', v['form'], '-param_enc', enc]
    old = lab.run('ec', '-in', 'e.pem', '-outform', 'DER', *(opts + ['-no_public'] * v['nopub']))
    pub = lab.run('ec', '-in', 'e.pem', '-pubout', '-outform', 'DER', *opts)
    params = lab.run('ecparam', '-name', v['curve'], '-outform', 'DER', *opts)
    p8 = lab.run('pkcs8', '-topk8', '-nocrypt', '-in', 'e.pem', '-outform', 'DER')
    priv = rawbytes(text, 'priv')
    oid = CURVES.get(v['curve'])
    arts = []
    point = bytes(int(x, 2) for x in re.findall('.' * 8, pick2(SPKI[0], pub, ['subjectPublicKey'])))
    if not v['explicit']:
        facts = [(['namedCurve'], oid)] if oid else []
        arts += [Art('EC parameters', k('EcpkParameters', 3279) + k('ECParameters', 5480), params, facts)]
        arts += [Art('EC private key', k('ECPrivateKey', 5915), old, [(['version'], 1), (['privateKey'], int.from_bytes(priv, 'big').to_bytes(len(pick(('rfc5915', 'ECPrivateKey'), old, ['privateKey'])), 'big'))] + [(['parameters'] + p, x) for p, x in facts]
                 + [(['publicKey'], None if v['nopub'] else bitstring(point))])]
        inner = pick(PKCS8[0], p8, ['privateKey'])
        arts.append(Art('EC private key in PKCS#8', k('ECPrivateKey', 5915), inner, [(['version'], 1), (['parameters'], None)]))
    else:
        t = lab.run('ecparam', '-name', v['curve'], '-param_enc', 'explicit', '-noout', '-text').decode()
        n = numbers(t)
        num = lambda *l: [n[x] for x in l if x in n]
        f = []
        if 'prime-field' in t:
            f += [(['ecParameters', 'fieldID', 'fieldType'], (1, 2, 840, 10045, 1, 1)), (['ecParameters', 'order'], n['Order'] if 'Order' in n else None), (['ecParameters', 'fieldID', 'parameters'], integer(n['Prime']))]
        else:
            f += [(['ecParameters', 'fieldID', 'fieldType'], (1, 2, 840, 10045, 1, 2))]
        c = re.search(r'Cofactor:\s+(\d+)', t)
        if c: f.append((['ecParameters', 'cofactor'], int(c[1])))
        s = rawbytes(t, 'Seed')
        f.append((['ecParameters', 'curve', 'seed'], bitstring(s) if s else None))
        arts.append(Art('explicit EC parameters', k('EcpkParameters', 3279), params, f))
        arts.append(Art('explicit EC parameters', k('ECParameters', 3279), params, [(p[1:], x) for p, x in f]))
    arts += [Art('private key', PKCS8, p8, [(['version'], 0), (['privateKeyAlgorithm', 'algorithm'], KEYOID['ec'])]),
             Art('public key', SPKI, pub, [(['algorithm', 'algorithm'], KEYOID['ec']), (['algorithm', 'parameters'], params)]), Art('point', k('ECPoint', 3279, 5480, 5753), b'\4' + length(len(point)) + point, [([], point)])]
    lab.write('m', repr(v))
    lab.run('dgst', '-sha256', '-sign', 'e.pem', '-out', 'sig', 'm')
    r, s = sigparts(lab)
    return arts + [Art('ECDSA signature', k('ECDSA_Sig_Value', 3279, 5480, 5753), lab.read('sig'), [(['r'], r), (['s'], s)])]


def length(n): return bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])


def integer(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big')
    return b'\2' + length(len(b)) + b


@recipe('Edwards and Montgomery keys', 6, kind=st.sampled_from(['ED25519', 'ED448', 'X25519', 'X448']))
def _(lab, v):
    lab.run('genpkey', '-algorithm', v['kind'], '-out', 'x.pem')
    oid = KEYOID[{'ED25519': 'ed', 'ED448': 'ed448', 'X25519': 'x', 'X448': 'x448'}[v['kind']]]
    text = lab.run('pkey', '-in', 'x.pem', '-noout', '-text').decode()
    p8 = lab.run('pkcs8', '-topk8', '-nocrypt', '-in', 'x.pem', '-outform', 'DER')
    pub = lab.run('pkey', '-in', 'x.pem', '-pubout', '-outform', 'DER')
    priv = rawbytes(text, 'priv')
    return [Art('private key', PKCS8, p8, [(['version'], 0), (['privateKeyAlgorithm', 'algorithm'], oid), (['privateKeyAlgorithm', 'parameters'], None), (['privateKey'], b'\4' + length(len(priv)) + priv)]),
            Art('public key', SPKI, pub, [(['algorithm', 'algorithm'], oid), (['algorithm', 'parameters'], None), (['subjectPublicKey'], bitstring(rawbytes(text, 'pub')))]),
            Art('private octets', k('CurvePrivateKey', 8410), pick(PKCS8[0], p8, ['privateKey']), [([], priv)])]


CIPHERS = {'aes-128-cbc': (2, 16, 840, 1, 101, 3, 4, 1, 2), 'aes-192-cbc': (2, 16, 840, 1, 101, 3, 4, 1, 22), 'aes-256-cbc': (2, 16, 840, 1, 101, 3, 4, 1, 42), 'des-ede3-cbc': (1, 2, 840, 113549, 3, 7), 'camellia-128-cbc': (1, 2, 392, 200011, 61, 1, 1, 1, 2)}
PRFS = {'hmacWithSHA1': 7, 'hmacWithSHA224': 8, 'hmacWithSHA256': 9, 'hmacWithSHA384': 10, 'hmacWithSHA512': 11}
PBES1 = {'PBE-SHA1-3DES': 3, 'PBE-SHA1-2DES': 4}


def pbe(v):
    """options for openssl pkcs8 and the facts about the algorithm identifier"""
    if v['how'] == 'pbes1': return ['-v1', v['pbes1'], '-iter', v['iter']]
    if v['how'] == 'scrypt': return ['-scrypt', '-scrypt_N', v['n'], '-scrypt_r', v['r'], '-scrypt_p', v['p'], '-v2', v['cipher']]
    return ['-v2', v['cipher'], '-v2prf', v['prf'], '-iter', v['iter']]


def pbearts(key, b, path, v):
    """the parts of a password based encryption algorithm identifier at the path"""
    alg = (1, 2, 840, 113549, 1, 12, 1, PBES1[v['pbes1']]) if v['how'] == 'pbes1' else (1, 2, 840, 113549, 1, 5, 13)
    facts = [(path + ['algorithm'], alg)]
    par = pick(key, b, path + ['parameters'])
    if v['how'] == 'pbes1': return facts, [Art('PBE parameters', k('Pkcs_12PbeParams', 7292), par, [(['iterations'], v['iter']), (['salt'], pick(('rfc7292', 'Pkcs_12PbeParams'), par, ['salt']))])]
    P = ('rfc8018', 'PBES2_params')
    kdf = (1, 2, 840, 113549, 1, 5, 12) if v['how'] == 'pbes2' else (1, 3, 6, 1, 4, 1, 11591, 4, 11)
    arts = [Art('PBES2 parameters', k('PBES2_params', 8018), par, [(['keyDerivationFunc', 'algorithm'], kdf), (['encryptionScheme', 'algorithm'], CIPHERS[v['cipher']])])]
    kp = pick(P, par, ['keyDerivationFunc', 'parameters'])
    if v['how'] == 'pbes2':
        f = [(['iterationCount'], v['iter']), (['keyLength'], None), (['prf', 'algorithm'], (1, 2, 840, 113549, 2, PRFS[v['prf']]))]
        arts.append(Art('PBKDF2 parameters', k('PBKDF2_params', 8018, 3370), kp, f))
    else:
        arts.append(Art('scrypt parameters', k('Scrypt_params', 7914), kp, [(['costParameter'], v['n']), (['blockSize'], v['r']), (['parallelizationParameter'], v['p'])]))
    arts.append(Art('initialisation vector', k('AES_IV', 3565, 8018) if v['cipher'].startswith('aes') else k('CBCParameter', 3370, 5753) if v['cipher'].startswith('des') else [], pick(P, par, ['encryptionScheme', 'parameters'])))
    return facts, arts


PBESTRAT = dict(how=st.sampled_from(['pbes2', 'pbes2', 'pbes1', 'scrypt']), cipher=st.sampled_from(sorted(CIPHERS)), prf=st.sampled_from(sorted(PRFS)), iter=st.one_of(st.integers(1, 300), st.sampled_from([127, 128, 255, 256, 1000, 2048])),
                n=st.sampled_from([2, 16, 128, 256]), r=st.integers(1, 8), p=st.integers(1, 3), pbes1=st.sampled_from(sorted(PBES1)))


@recipe('encrypted private key', 15, kind=st.sampled_from(['rsa', 'ec', 'ed', 'dsa']), **PBESTRAT)
def _(lab, v):
    b = lab.run('pkcs8', '-topk8', '-in', lab.key(v['kind']), '-outform', 'DER', '-passout', 'pass:secret', *pbe(v))
    f, arts = pbearts(EPKI[1], b, ['encryptionAlgorithm'], v)
    return [Art('encrypted private key', EPKI, b, f)] + arts


@recipe('DH parameters', 4, group=st.sampled_from([1, 2, 3]))
def _(lab, v):
    n = 'dhx%d.pem' % v['group']
    if not os.path.exists(lab.path(n)): lab.run('genpkey', '-genparam', '-algorithm', 'DHX', '-pkeyopt', 'dh_rfc5114:%d' % v['group'], '-out', n)
    lab.run('genpkey', '-paramfile', n, '-out', 'dh.pem')
    pub = lab.run('pkey', '-in', 'dh.pem', '-pubout', '-outform', 'DER')
    t = numbers(lab.run('pkey', '-in', 'dh.pem', '-noout', '-text').decode())
    lab.write('dhpub', pub)
    n = [int(x, 16) for x in re.findall(r'INTEGER\s*:(-?[0-9A-F]+)', lab.run('asn1parse', '-inform', 'DER', '-in', 'dhpub').decode())]
    t.update(zip(('P', 'G', 'Q'), n))
    return [Art('public key', SPKI, pub, [(['algorithm', 'algorithm'], (1, 2, 840, 10046, 2, 1))]),
            Art('DH domain parameters', k('DomainParameters', 2459, 3279, 3370, 5480, 6955), pick(SPKI[0], pub, ['algorithm', 'parameters']), [(['p'], t['P']), (['g'], t['G']), (['q'], t['Q'])]),
            Art('DH public key', k('DHPublicKey', 3279, 3370, 5480), bytes(int(x, 2) for x in re.findall('.' * 8, pick2(SPKI[0], pub, ['subjectPublicKey']))), [([], t['public-key'])])]


MD = st.sampled_from(['sha1', 'sha224', 'sha256', 'sha384', 'sha512'])


@recipe('PSS and OAEP parameters', 12, md=MD, mgf=MD, salt=st.integers(0, 60), omd=MD, omgf=MD, label=st.one_of(st.none(), st.binary(min_size=1, max_size=10)))
def _(lab, v):
    out = []
    b = lab.run('req', '-x509', '-new', '-key', lab.key('rsa2048'), '-subj', '/CN=x', '-config', lab.write('p.cnf', '[req]\ndistinguished_name=d\n[d]\n'), '-' + v['md'], '-sigopt', 'rsa_padding_mode:pss', '-sigopt', 'rsa_pss_saltlen:%d' % v['salt'], '-sigopt', 'rsa_mgf1_md:' + v['mgf'], '-outform', 'DER')
    par = pick(CERT[2], b, ['signatureAlgorithm', 'parameters'])
    f = [(['hashAlgorithm', 'algorithm'], HASH[v['md']]), (['maskGenAlgorithm', 'algorithm'], (1, 2, 840, 113549, 1, 1, 8)), (['saltLength'], v['salt']), (['trailerField'], 1)]
    out.append(Art('PSS parameters', k('RSASSA_PSS_params', 4055, 8017), par, f))
    out.append(Art('certificate', CERT, b, [(['signatureAlgorithm', 'algorithm'], (1, 2, 840, 113549, 1, 1, 10))]))
    if v['mgf'] != 'sha1': out.append(Art('hash in MGF', k('AlgorithmIdentifier', *SET5), pick(('rfc4055', 'RSASSA_PSS_params'), par, ['maskGenAlgorithm', 'parameters']), [(['algorithm'], HASH[v['mgf']])]))
    lab.write('m', 'message')
    e = lab.run('cms', '-encrypt', '-in', 'm', '-outform', 'DER', '-aes128', '-recip', lab.cert('rsa2048'), '-keyopt', 'rsa_padding_mode:oaep', '-keyopt', 'rsa_oaep_md:' + v['omd'], '-keyopt', 'rsa_mgf1_md:' + v['omgf'], *(['-keyopt', 'rsa_oaep_label:' + v['label'].hex()] if v['label'] else []))
    env = pick(('rfc5652', 'ContentInfo'), e, ['content'])
    par = pick(('rfc5652', 'EnvelopedData'), env, ['recipientInfos', 0, 'ktri', 'keyEncryptionAlgorithm', 'parameters'])
    f = [(['hashFunc|hashAlgorithm', 'algorithm'], HASH[v['omd']]), (['maskGenFunc|maskGenAlgorithm', 'algorithm'], (1, 2, 840, 113549, 1, 1, 8)), (['pSourceFunc|pSourceAlgorithm', 'algorithm'], (1, 2, 840, 113549, 1, 1, 9))]
    if v['label']: f.append((['pSourceFunc|pSourceAlgorithm', 'parameters'], b'\4' + length(len(v['label'])) + v['label']))
    out.append(Art('OAEP parameters', k('RSAES_OAEP_params', 2437, 3560, 4055, 8017), par, f))
    return out


# ------------------------------------------------------------------ PKCS #7 and CMS
CONTENTINFO = k('ContentInfo', 2315, 3852, 5652)
CT = {'data': (1, 2, 840, 113549, 1, 7, 1), 'signed': (1, 2, 840, 113549, 1, 7, 2), 'enveloped': (1, 2, 840, 113549, 1, 7, 3), 'digested': (1, 2, 840, 113549, 1, 7, 5), 'encrypted': (1, 2, 840, 113549, 1, 7, 6),
      'authEnveloped': (1, 2, 840, 113549, 1, 9, 16, 1, 23)}
MESSAGE = st.one_of(st.binary(max_size=20), st.text(st.sampled_from('abc \n'), max_size=80).map(str.encode), st.integers(1, 300).map(lambda n: b'x' * n))


def signed(keys, octets, ber, v, certs, crls, n, encap, label):
    """SignedData octets as the types of several modules"""
    f = [(['certificates'] + ['#'] * bool(certs), certs or None), (['crls'] + ['#'] * bool(crls), crls or None), (['signerInfos', '#'], n)]
    return Art(label, keys, octets, f + encap, ber)


@recipe('PKCS#7 certificates', 5, n=st.integers(0, 3), crls=st.booleans())
def _(lab, v):
    certs = [lab.cert(x, 'Authority ' + x) for x in ('rsa', 'ec', 'dsa')][:v['n']]
    args = [y for c in certs for y in ('-certfile', c)]
    if v['crls']:
        lab.write('cidx7', '')
        lab.write('c7.cnf', '[ca]\ndefault_ca=c\n[c]\ndatabase=cidx7\n')
        lab.run('ca', '-config', 'c7.cnf', '-gencrl', '-cert', lab.cert('rsa', 'Authority rsa'), '-keyfile', lab.key('rsa'), '-crldays', 3, '-md', 'sha256', '-out', 'c7.crl')
        args += ['-in', 'c7.crl']
    else: args += ['-nocrl']
    b = lab.run('crl2pkcs7', *args, '-outform', 'DER')
    content = pick(CONTENTINFO[2], b, ['content'])
    return [Art('PKCS#7', CONTENTINFO, b, [(['contentType'], CT['signed'])]),
            signed(k('SignedData', 2315, 3852, 5652), content, False, v, v['n'], int(v['crls']), 0, [(['version'], 1), (['contentInfo|encapContentInfo', 'contentType|eContentType'], CT['data']), (['contentInfo|encapContentInfo', 'content|eContent'], None)], 'certificates only')]


SMD = st.sampled_from(['sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5'])


def signerfacts(p, lab, kind, md, keyid, old):
    ca = 'Authority ' + kind
    f = [(p + ['digestAlgorithm', 'algorithm'], HASH[md])]
    if keyid: return f + [(p + ['version'], 3)]
    q = p + (['issuerAndSerialNumber'] if old else ['sid', 'issuerAndSerialNumber'])
    return f + [(p + ['version'], 1)] + dnfacts(q + ['issuer'], [[('CN', ca)]]) + [(q + ['serialNumber'], serial(lab, lab.cert(kind, ca)))]


def serial(lab, path):
    return int(lab.run('x509', '-in', path, '-noout', '-serial').decode().split('=')[1], 16)


@recipe('PKCS#7 signature', 12, data=MESSAGE, kind=st.sampled_from(['rsa', 'ec', 'dsa']), md=SMD, detach=st.booleans(), noattr=st.booleans(), nocerts=st.booleans(), two=st.booleans(), binary=st.booleans())
def _(lab, v):
    lab.write('m', v['data'])
    kinds = [v['kind']] + ['rsa' if v['kind'] != 'rsa' else 'ec'] * v['two']
    args = [y for x in kinds for y in ('-signer', lab.cert(x, 'Authority ' + x), '-inkey', lab.key(x))]
    b = lab.run('smime', '-sign', '-in', 'm', '-outform', 'DER', '-md', v['md'], *args, *(['-nodetach'] * (not v['detach']) + ['-noattr'] * v['noattr'] + ['-nocerts'] * v['nocerts'] + ['-binary'] * v['binary']))
    content = pick(CONTENTINFO[2], b, ['content'])
    f = [(['version'], 1), (['certificates'] + ['#'] * (not v['nocerts']), None if v['nocerts'] else len(kinds)), (['signerInfos', '#'], len(kinds)), (['digestAlgorithms', '#'], 1)]
    data = v['data'] if v['binary'] else b''.join(x + b'\r\n' for x in v['data'].split(b'\n')) [:-2]
    text = v['binary']
    new = f + [(['encapContentInfo', 'eContentType'], CT['data']), (['encapContentInfo', 'eContent'], None if v['detach'] else v['data'])][:2 if text or v['detach'] else 1]
    old = f + [(['contentInfo', 'contentType'], CT['data'])]
    i = 0
    new = new + [(['signerInfos', i, 'signedAttrs'], None)] if v['noattr'] and len(kinds) == 1 else new
    arts = [Art('PKCS#7', CONTENTINFO, b, [(['contentType'], CT['signed'])]), Art('signed data', k('SignedData', 3852, 5652), content, new), Art('signed data', k('SignedData', 2315), content, old)]
    if len(kinds) == 1:
        si = pick(('rfc5652', 'SignedData'), content, ['signerInfos', 0])
        arts += [Art('signer', k('SignerInfo', 3852, 5652), si, signerfacts([], lab, v['kind'], v['md'], False, False)), Art('signer', k('SignerInfo', 2315), si, signerfacts([], lab, v['kind'], v['md'], False, True))]
        if not v['noattr']: arts += attributes(si, v['md'], CT['data'], None)
    return arts


def attributes(si, md, ctype, data):
    """the signed attributes of a SignerInfo"""
    S = ('rfc5652', 'SignerInfo')
    at = lambda oid: pick(S, si, ['signedAttrs', '=attrType=' + dot(oid), 'attrValues', 0])
    arts = [Art('content type attribute', k('ContentType', 3852, 5652), at((1, 2, 840, 113549, 1, 9, 3)), [([], ctype)]),
            Art('message digest attribute', k('MessageDigest', 3852, 5652), at((1, 2, 840, 113549, 1, 9, 4)), [([], hashlib.new(md, data).digest())] if data is not None else []),
            Art('signing time attribute', k('SigningTime', 3852, 5652), at((1, 2, 840, 113549, 1, 9, 5)), [])]
    return arts


@recipe('CMS signature', 15, data=MESSAGE, kind=st.sampled_from(['rsa', 'ec', 'dsa', 'ed']), md=SMD, keyid=st.booleans(), detach=st.booleans(), noattr=st.booleans(), nocerts=st.booleans(), econtent=st.one_of(st.none(), OIDS), cades=st.booleans(),
        receipt=st.one_of(st.none(), st.tuples(st.sampled_from(['all', 'first']), MAILS, st.one_of(st.none(), MAILS))), stream=st.booleans())
def _(lab, v):
    lab.write('m', v['data'])
    v = dict(v, noattr=v['noattr'] and not v['receipt'] and not v['cades'])
    kind, md = v['kind'], v['md'] if v['kind'] != 'ed' else 'sha512'
    ca = lab.cert(kind, 'Authority ' + kind)
    args = ['-signer', ca, '-inkey', lab.key(kind), '-binary', '-md', md] + ['-keyid'] * v['keyid'] + ['-nodetach'] * (not v['detach']) + ['-noattr'] * v['noattr'] + ['-nocerts'] * v['nocerts'] + ['-cades'] * v['cades']
    if v['econtent']: args += ['-econtent_type', dot(v['econtent'])]
    if v['receipt']: args += ['-receipt_request_' + v['receipt'][0], '-receipt_request_to', v['receipt'][1]] + (['-receipt_request_from', v['receipt'][2]] if v['receipt'][2] else [])
    ber = v['stream'] and not v['detach']
    b = lab.run('cms', '-sign', '-in', 'm', '-outform', 'DER', *args, *(['-stream'] if ber else ['-noindef']))
    if ber: return [Art('CMS', CONTENTINFO[1:], b, [(['contentType'], CT['signed'])], True)]
    ct = v['econtent'] or CT['data']
    content = pick(CONTENTINFO[2], b, ['content'])
    version = 3 if v['keyid'] or ct != CT['data'] else 1
    f = [(['version'], version), (['encapContentInfo', 'eContentType'], tuple(ct)), (['encapContentInfo', 'eContent'], None if v['detach'] else v['data']), (['certificates'] + ['#'] * (not v['nocerts']), None if v['nocerts'] else 1),
         (['signerInfos', '#'], 1), (['signerInfos', 0, 'signatureAlgorithm', 'algorithm'], {'rsa': KEYOID['rsa'], 'ed': KEYOID['ed']}.get(kind) or SIG.get((kind, md), None))]
    if f[-1][1] is None: f.pop()
    f += [(['signerInfos', 0] + p, x) for p, x in signerfacts([], lab, kind, md, v['keyid'], False)]
    if v['noattr']: f.append((['signerInfos', 0, 'signedAttrs'], None))
    arts = [Art('CMS', CONTENTINFO[1:], b, [(['contentType'], CT['signed'])]), Art('signed data', k('SignedData', 3852, 5652), content, f)]
    if v['noattr']: return arts
    si = pick(('rfc5652', 'SignedData'), content, ['signerInfos', 0])
    arts += attributes(si, md, tuple(ct), v['data'])
    at = lambda oid: pick(('rfc5652', 'SignerInfo'), si, ['signedAttrs', '=attrType=' + oid, 'attrValues', 0])
    der = lab.der(ca)
    if v['cades']:
        if md == 'sha1': arts.append(Art('signing certificate', k('SigningCertificate', 2634, 5035), at('1.2.840.113549.1.9.16.2.12'), [(['certs', '#'], 1), (['certs', 0, 'certHash'], hashlib.sha1(der).digest())]))
        else: arts.append(Art('signing certificate 2', k('SigningCertificateV2', 5035), at('1.2.840.113549.1.9.16.2.47'), [(['certs', '#'], 1), (['certs', 0, 'hashAlgorithm', 'algorithm'], HASH[md]), (['certs', 0, 'certHash'], hashlib.new(md, der).digest())]))
    if v['receipt']:
        which, to, frm = v['receipt']
        f = [(['receiptsFrom', 'receiptList', 0, 0, 'rfc822Name'], frm)] if frm else [(['receiptsFrom', 'allOrFirstTier'], {'all': 0, 'first': 1}[which])]
        arts.append(Art('receipt request', k('ReceiptRequest', 2634, 5035), at('1.2.840.113549.1.9.16.2.1'), f + [(['receiptsTo', '#'], 1), (['receiptsTo', 0, 0, 'rfc822Name'], to)]))
        if v['nocerts'] or kind != 'rsa' or v['detach']: return arts
        lab.write('signed', b)
        r = lab.run('cms', '-sign_receipt', '-in', 'signed', '-inform', 'DER', '-outform', 'DER', '-signer', lab.cert('rsa', 'Authority rsa'), '-inkey', lab.key('rsa'))
        rc = pick(('rfc5652', 'SignedData'), pick(CONTENTINFO[2], r, ['content']), ['encapContentInfo', 'eContent'])
        arts.append(Art('receipt', k('Receipt', 2634, 5035), rc, [(['version'], 1), (['contentType'], tuple(ct)), (['originatorSignatureValue'], pick(('rfc5652', 'SignerInfo'), si, ['signature'])),
                                                                    (['signedContentIdentifier'], pick(('rfc2634', 'ReceiptRequest'), at('1.2.840.113549.1.9.16.2.1'), ['signedContentIdentifier']))]))
    return arts


ENC = {'aes128': CIPHERS['aes-128-cbc'], 'aes192': CIPHERS['aes-192-cbc'], 'aes256': CIPHERS['aes-256-cbc'], 'des3': CIPHERS['des-ede3-cbc'], 'camellia128': CIPHERS['camellia-128-cbc'], 'aes-128-gcm': (2, 16, 840, 1, 101, 3, 4, 1, 6), 'aes-256-gcm': (2, 16, 840, 1, 101, 3, 4, 1, 46)}
WRAP = {16: (2, 16, 840, 1, 101, 3, 4, 1, 5), 24: (2, 16, 840, 1, 101, 3, 4, 1, 25), 32: (2, 16, 840, 1, 101, 3, 4, 1, 45)}
RECIPIENT = st.one_of(st.tuples(st.just('rsa'), st.booleans()), st.tuples(st.sampled_from(['ec', 'secp384r1']), st.booleans()), st.tuples(st.just('secret'), st.sampled_from([16, 24, 32]), st.binary(min_size=1, max_size=12)), st.tuples(st.just('password'), st.just(0)))


@recipe('CMS encryption', 20, data=MESSAGE, to=st.lists(RECIPIENT, min_size=1, max_size=1), cipher=st.sampled_from(sorted(ENC)), kdf=st.sampled_from(['sha1', 'sha256', 'sha384', 'sha512']), cofactor=st.booleans())
def _(lab, v):
    lab.write('m', v['data'])
    args, tail, facts, arts = [], [], [], []
    for i, r in enumerate(v['to']):
        p = ['recipientInfos', i]
        if r[0] == 'rsa':
            tail += ['-recip', lab.cert('rsa', 'Authority rsa')]
            if r[1]: args.append('-keyid')
            facts += [(p + ['ktri', 'version'], 2 if r[1] else 0), (p + ['ktri', 'keyEncryptionAlgorithm', 'algorithm'], KEYOID['rsa'])]
            if not r[1]: facts += [(p + ['ktri', 'rid', 'issuerAndSerialNumber', 'serialNumber'], serial(lab, lab.cert('rsa', 'Authority rsa')))] + dnfacts(p + ['ktri', 'rid', 'issuerAndSerialNumber', 'issuer'], [[('CN', 'Authority rsa')]])
        elif r[0] in ('ec', 'secp384r1'):
            tail += ['-recip', lab.cert(r[0], 'Authority ' + r[0]), '-keyopt', 'ecdh_kdf_md:' + v['kdf']] + (['-keyopt', 'ecdh_cofactor_mode:1'] if v['cofactor'] else [])
            if r[1]: args.append('-keyid')
            facts += [(p + ['kari', 'version'], 3), (p + ['kari', 'originator', 'originatorKey', 'algorithm', 'algorithm'], KEYOID['ec']), (p + ['kari', 'ukm'], None), (p + ['kari', 'recipientEncryptedKeys', '#'], 1)]
            scheme = (1, 3, 132, 1, 14 if v['cofactor'] else 11, {'sha224': 0, 'sha256': 1, 'sha384': 2, 'sha512': 3}.get(v['kdf'])) if v['kdf'] != 'sha1' else (1, 3, 133, 16, 840, 63, 0, 3 if v['cofactor'] else 2)
            facts.append((p + ['kari', 'keyEncryptionAlgorithm', 'algorithm'], scheme))
            if not r[1]: facts.append((p + ['kari', 'recipientEncryptedKeys', 0, 'rid', 'issuerAndSerialNumber', 'serialNumber'], serial(lab, lab.cert(r[0], 'Authority ' + r[0]))))
        elif r[0] == 'secret':
            args += ['-secretkey', '11' * r[1], '-secretkeyid', r[2].hex()]
            facts += [(p + ['kekri', 'version'], 4), (p + ['kekri', 'kekid', 'keyIdentifier'], r[2]), (p + ['kekri', 'kekid', 'date'], None), (p + ['kekri', 'keyEncryptionAlgorithm', 'algorithm'], WRAP[r[1]])]
        else:
            args += ['-pwri_password', 'secret']
            facts += [(p + ['pwri', 'version'], 0), (p + ['pwri', 'keyDerivationAlgorithm', 'algorithm'], (1, 2, 840, 113549, 1, 5, 12)), (p + ['pwri', 'keyEncryptionAlgorithm', 'algorithm'], (1, 2, 840, 113549, 1, 9, 16, 3, 9))]
    gcm = v['cipher'].endswith('gcm')
    b = lab.run('cms', '-encrypt', '-in', 'm', '-outform', 'DER', '-binary', '-noindef', '-' + v['cipher'], *args, *tail)
    content = pick(CONTENTINFO[2], b, ['content'])
    e = 'authEncryptedContentInfo' if gcm else 'encryptedContentInfo'
    facts += [(['recipientInfos', '#'], len(v['to'])), (['originatorInfo'], None), ([e, 'contentType'], CT['data']), ([e, 'contentEncryptionAlgorithm', 'algorithm'], ENC[v['cipher']]), (['unprotectedAttrs'] if not gcm else ['unauthAttrs'], None)]
    keys = k('AuthEnvelopedData', 5083) if gcm else k('EnvelopedData', 3852, 5652)
    arts = [Art('CMS', CONTENTINFO[1:], b, [(['contentType'], CT['authEnveloped' if gcm else 'enveloped'])]), Art('enveloped data', keys, content, facts)]
    par = pick(keys[-1], content, [e, 'contentEncryptionAlgorithm', 'parameters'])
    if gcm: arts.append(Art('GCM parameters', k('GCMParameters', 5084), par, [(['aes-ICVlen'], 16)]))
    if v['to'][0][0] in ('ec', 'secp384r1'):
        a = pick(keys[-1], content, ['recipientInfos', 0, 'kari', 'keyEncryptionAlgorithm', 'parameters'])
        arts.append(Art('key wrap algorithm', k('KeyWrapAlgorithm', 3370, 5753), a, [(['algorithm'], WRAP[{'aes128': 16, 'aes-128-gcm': 16, 'aes192': 24, 'aes256': 32, 'aes-256-gcm': 32}[v['cipher']]])] if v['cipher'].startswith('aes') else []))
        ri = pick(keys[-1], content, ['recipientInfos', 0])
        arts.append(Art('recipient', k('RecipientInfo', 3852, 5652), ri, [(['kari', 'version'], 3)]))
    if v['to'][0][0] == 'password':
        a = pick(keys[-1], content, ['recipientInfos', 0, 'pwri', 'keyDerivationAlgorithm', 'parameters'])
        arts.append(Art('PBKDF2 parameters', k('PBKDF2_params', 3370, 8018), a, [(['iterationCount'], 2048)]))
    return arts


@recipe('CMS digest, data and encrypted data', 8, data=MESSAGE, md=SMD, cipher=st.sampled_from(['aes128', 'aes192', 'aes256', 'des3']))
def _(lab, v):
    lab.write('m', v['data'])
    n = {'aes128': 16, 'aes192': 24, 'aes256': 32, 'des3': 24}[v['cipher']]
    d = lab.run('cms', '-digest_create', '-binary', '-md', v['md'], '-in', 'm', '-outform', 'DER', '-nodetach')
    p = lab.run('cms', '-data_create', '-binary', '-in', 'm', '-outform', 'DER')
    e = lab.run('cms', '-EncryptedData_encrypt', '-binary', '-in', 'm', '-outform', 'DER', '-' + v['cipher'], '-secretkey', '22' * n)
    at = lambda b: pick(CONTENTINFO[2], b, ['content'])
    return [Art('CMS', CONTENTINFO, d, [(['contentType'], CT['digested'])]), Art('CMS', CONTENTINFO, p, [(['contentType'], CT['data']), (['content'], b'\4' + length(len(v['data'])) + v['data'])]), Art('CMS', CONTENTINFO, e, [(['contentType'], CT['encrypted'])]),
            Art('digested data', k('DigestedData', 3852, 5652), at(d), [(['version'], 0), (['digestAlgorithm', 'algorithm'], HASH[v['md']]), (['encapContentInfo', 'eContent'], v['data']), (['digest'], hashlib.new(v['md'], v['data']).digest())]),
            Art('encrypted data', k('EncryptedData', 2315, 3852, 5652), at(e), [(['version'], 0), (['encryptedContentInfo', 'contentType'], CT['data']), (['encryptedContentInfo', 'contentEncryptionAlgorithm', 'algorithm'], ENC[v['cipher']])]),
            Art('data', k('Data', 2315) , at(p), [([], v['data'])])]


@recipe('PKCS#7 encryption', 8, data=MESSAGE, cipher=st.sampled_from(['aes128', 'aes192', 'aes256', 'des3']), two=st.booleans())
def _(lab, v):
    lab.write('m', v['data'])
    who = [lab.cert('rsa', 'Authority rsa')] + [lab.cert('rsa2048', 'Authority rsa2048')] * v['two']
    b = lab.run('smime', '-encrypt', '-in', 'm', '-outform', 'DER', '-binary', '-' + v['cipher'], *who)
    content = pick(CONTENTINFO[2], b, ['content'])
    f = [(['version'], 0), (['recipientInfos', '#'], len(who)), (['encryptedContentInfo', 'contentType'], CT['data']), (['encryptedContentInfo', 'contentEncryptionAlgorithm', 'algorithm'], ENC[v['cipher']])]
    old = f + [(['recipientInfos', 0, 'version'], 0)] if len(who) > 1 else f + dnfacts(['recipientInfos', 0, 'issuerAndSerialNumber', 'issuer'], [[('CN', 'Authority rsa')]]) + [(['recipientInfos', 0, 'issuerAndSerialNumber', 'serialNumber'], serial(lab, who[0]))]
    return [Art('PKCS#7', CONTENTINFO, b, [(['contentType'], CT['enveloped'])]), Art('enveloped data', k('EnvelopedData', 2315), content, old), Art('enveloped data', k('EnvelopedData', 3852, 5652), content, f)]


# ------------------------------------------------------------------ PKCS #12
BAGS = {1: 'KeyBag', 2: 'PKCS8ShroudedKeyBag', 3: 'CertBag', 4: 'CRLBag', 5: 'SecretBag', 6: 'SafeContents'}
BAG = (1, 2, 840, 113549, 1, 12, 10, 1)
PB = st.sampled_from(['NONE', 'aes-256-cbc', 'aes-128-cbc', 'des-ede3-cbc', 'PBE-SHA1-3DES', 'PBE-SHA1-2DES'])


@recipe('PKCS#12', 15, kind=st.sampled_from(['rsa', 'ec', 'dsa']), keypbe=PB, certpbe=PB, iter=st.one_of(st.integers(1, 300), st.sampled_from([1, 2, 2048, 1000])), noiter=st.booleans(), nomaciter=st.booleans(), nomac=st.booleans(), md=st.sampled_from(['sha1', 'sha256', 'sha512']), name=st.one_of(st.none(), TEXTS), caname=st.one_of(st.none(), TEXTS),
        extra=st.booleans(), what=st.sampled_from(['both', 'both', 'nokeys', 'nocerts']), csp=st.one_of(st.none(), TEXTS))
def _(lab, v):
    ca = lab.cert(v['kind'], 'Authority ' + v['kind'])
    args = ['-keypbe', v['keypbe'], '-certpbe', v['certpbe'], '-macalg', v['md']] + (['-name', v['name']] if v['name'] else []) + (['-noiter'] if v['noiter'] else ['-iter', v['iter']]) + (['-nomaciter'] if v['nomaciter'] else []) + (['-nomac'] if v['nomac'] else []) + (['-CSP', v['csp']] if v['csp'] else [])
    if v['extra']: args += ['-certfile', lab.cert('rsa2048', 'Other')] + (['-caname', v['caname']] if v['caname'] else [])
    args += ['-nokeys'] if v['what'] == 'nokeys' else ['-inkey', lab.key(v['kind'])]
    if v['what'] == 'nocerts': args += ['-nocerts']
    lab.run('pkcs12', '-export', '-in', ca, '-passout', 'pass:secret', '-out', 'made.p12', *args)
    b = lab.read('made.p12')
    P, C = ('rfc7292', 'PFX'), CONTENTINFO[2]
    f = [(['version'], 3), (['authSafe', 'contentType'], CT['data'])]
    arts = []
    if v['nomac']: f.append((['macData'], None))
    else:
        n = 1 if v['nomaciter'] else v['iter'] if not v['noiter'] else 2048
        m = [(['mac', 'digestAlgorithm', 'algorithm'], HASH[v['md']])] + ([(['iterations'], 1)] if v['nomaciter'] else [])
        f += [(['macData'] + p, x) for p, x in m]
        arts.append(Art('MAC', k('MacData', 7292), pick(P, b, ['macData']), m))
    arts.append(Art('PKCS#12', k('PFX', 2985, 7292), b, f))
    safe = octetstring(pick(P, b, ['authSafe', 'content']))
    S = ('rfc7292', 'AuthenticatedSafe')
    n = int(pick2(S, safe, ['#']))
    want = (v['what'] != 'nocerts' or v['extra']) + (v['what'] != 'nokeys')
    arts.append(Art('authenticated safe', k('AuthenticatedSafe', 7292), safe, [(['#'], want)]))
    for i in range(n):
        ct = pick(S, safe, [i, 'contentType'])
        inner = pick(S, safe, [i, 'content'])
        if ct == b'\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x07\x06':
            E = ('rfc5652', 'EncryptedData')
            arts.append(Art('encrypted safe', k('EncryptedData', 2315, 3852, 5652), inner, [(['version'], 0), (['encryptedContentInfo', 'contentType'], CT['data'])]))
            continue
        content = octetstring(inner)
        D = ('rfc7292', 'SafeContents')
        arts.append(Art('safe contents', k('SafeContents', 7292), content, [(['#'], int(pick2(D, content, ['#'])))]))
        for j in range(int(pick2(D, content, ['#']))):
            oid = pick2(D, content, [j, 'bagId'])
            bag = pick(D, content, [j, 'bagValue'])
            what = BAGS.get(oid[-1])
            facts = {'KeyBag': [(['version'], 0), (['privateKeyAlgorithm', 'algorithm'], KEYOID[v['kind']])], 'CertBag': [(['certId'], (1, 2, 840, 113549, 1, 9, 22, 1))]}.get(what, [])
            if what == 'CertBag' and not v['extra']: facts.append((['certValue'], b'\4' + length(len(lab.der(ca))) + lab.der(ca)))
            if oid[:-1] == BAG: arts.append(Art('bag', k(what, 7292), bag, facts))
            if what == 'KeyBag': arts.append(Art('private key', PKCS8, bag, facts))
            if what == 'PKCS8ShroudedKeyBag':
                arts.append(Art('encrypted private key', EPKI, bag, []))
                if v['keypbe'].startswith('PBE'): arts.append(Art('PBE parameters', k('Pkcs_12PbeParams', 7292), pick(EPKI[1], bag, ['encryptionAlgorithm', 'parameters']), [(['iterations'], 1 if v['noiter'] else v['iter'])]))
            at = pick2(D, content, [j, 'bagAttributes'])
            if what != 'CertBag':
                f = [([j, 'bagId'], tuple(oid))]
                p = [j, 'bagAttributes', '=attrType=1.2.840.113549.1.9.20', 'attrValues', 0]
                if v['name']:
                    f.append((p, b'\x1e' + length(2 * len(v['name'])) + v['name'].encode('utf-16-be')))
                    arts.append(Art('friendly name', k('DirectoryString', 2985, 5280), pick(D, content, p), [(['*'], v['name'])]))
                if v['csp']: f.append(([j, 'bagAttributes', '=attrType=1.3.6.1.4.1.311.17.1', 'attrValues', 0], b'\x1e' + length(2 * len(v['csp'])) + v['csp'].encode('utf-16-be')))
                arts.append(Art('safe contents', k('SafeContents', 7292), content, f))
    return arts


def octetstring(b):
    """the contents of an encoded OCTET STRING"""
    n = b[1]
    return b[2:] if n < 128 else b[2 + n - 128:]


# ------------------------------------------------------------------ OCSP
OCSPREQ, OCSPRSP, BASIC = k('OCSPRequest', 2560, 6960), k('OCSPResponse', 2560, 5940, 6960), k('BasicOCSPResponse', 2560, 5126, 6960)


@recipe('OCSP', 15, serials=st.lists(st.one_of(st.integers(0, 2 ** 100), st.sampled_from([0, 1, 127, 128, 255])), min_size=1, max_size=4, unique=True), md=st.sampled_from(['sha1', 'sha256', 'sha384']), nonce=st.booleans(), sign=st.sampled_from([None, 'rsa', 'ec']), kind=st.sampled_from(['rsa', 'ec', 'dsa']),
        status=st.lists(st.tuples(st.sampled_from(['V', 'R', 'E', None]), moment(1970, 2049), st.one_of(st.none(), st.sampled_from(sorted(CRLREASON)))), min_size=4, max_size=4), keyid=st.booleans(), days=st.one_of(st.none(), st.integers(1, 1000)), nocerts=st.booleans())
def _(lab, v):
    ca = lab.cert(v['kind'], 'Authority ' + v['kind'])
    args = ['-issuer', ca, '-' + v['md']] + [y for s in v['serials'] for y in ('-serial', str(s))]
    args += [] if v['nonce'] else ['-no_nonce']
    if v['sign']: args += ['-signer', lab.cert(v['sign'], 'Authority ' + v['sign']), '-signkey', lab.key(v['sign'])]
    lab.run('ocsp', *args, '-reqout', 'ocsp.req')
    b = lab.read('ocsp.req')
    name = pick(CERT[2], lab.der(ca), ['tbsCertificate', 'subject'])
    spk = pick2(CERT[2], lab.der(ca), ['tbsCertificate', 'subjectPublicKeyInfo', 'subjectPublicKey'])
    raw = bytes(int(spk[i:i + 8], 2) for i in range(0, len(spk), 8))
    h = lambda x: hashlib.new(v['md'], x).digest()
    t = ['tbsRequest']
    f = [(t + ['version'], 0), (t + ['requestList', '#'], len(v['serials']))]
    one = lambda p, s: [(p + ['hashAlgorithm', 'algorithm'], HASH[v['md']]), (p + ['issuerNameHash'], h(name)), (p + ['issuerKeyHash'], h(raw)), (p + ['serialNumber'], s)]
    for i, s in enumerate(v['serials']): f += one(t + ['requestList', i, 'reqCert'], s)
    f.append((t + ['requestExtensions'] + (['#'] if v['nonce'] else []), 1 if v['nonce'] else None))
    if v['sign']: f += [(['optionalSignature', 'signatureAlgorithm', 'algorithm'], SIG[v['sign'], 'sha256']), (['optionalSignature', 'certs', '#'], 1)] + dnfacts(t + ['requestorName', 'directoryName'], [[('CN', 'Authority ' + v['sign'])]])
    else: f += [(['optionalSignature'], None), (t + ['requestorName'], None)]
    arts = [Art('OCSP request', OCSPREQ, b, f), Art('certificate identifier', k('CertID', 2560, 6960), pick(OCSPREQ[1], b, t + ['requestList', 0, 'reqCert']), one([], v['serials'][0]))]
    hx = lambda n: '0' * (len('%x' % n) % 2) + '%X' % n
    u = lambda m: ('%04d%02d%02d%02d%02d%02dZ' % m)[2:]
    lines = []
    for s, (st_, when, why) in zip(v['serials'], v['status']):
        if st_ is None: continue
        lines.append('%s\t490101000000Z\t%s\t%s\tunknown\t/CN=x%s\n' % (st_, (u(when) + (',' + why if why else '')) if st_ == 'R' else '', hx(s), hx(s)))
    lab.write('oidx', ''.join(lines))
    lab.write('oidx.attr', 'unique_subject=no\n')
    lab.run('ocsp', '-index', 'oidx', '-CA', ca, '-rsigner', ca, '-rkey', lab.key(v['kind']), '-reqin', 'ocsp.req', '-respout', 'ocsp.rsp', *((['-ndays', v['days']] if v['days'] else []) + ['-resp_key_id'] * v['keyid'] + ['-resp_no_certs'] * v['nocerts']))
    r = lab.read('ocsp.rsp')
    f = [(['responseStatus'], 0), (['responseBytes', 'responseType'], (1, 3, 6, 1, 5, 5, 7, 48, 1, 1))]
    arts.append(Art('OCSP response', OCSPRSP, r, f))
    basic = pick(OCSPRSP[2], r, ['responseBytes', 'response'])
    t = ['tbsResponseData']
    told = [(s, x) for s, x in zip(v['serials'], v['status']) if x[0] != 'E']       # openssl answers nothing about expired certificates
    f = [(t + ['version'], 0), (t + ['responses', '#'], len(told)), (['certs'] + ['#'] * (not v['nocerts']), None if v['nocerts'] else 1), (['signatureAlgorithm', 'algorithm'], SIG[v['kind'], 'sha256'])]
    f += [(t + ['responderID', 'byKey'], hashlib.sha1(raw).digest())] if v['keyid'] else dnfacts(t + ['responderID', 'byName'], [[('CN', 'Authority ' + v['kind'])]])
    for i, (s, (st_, when, why)) in enumerate(told):
        p = t + ['responses', i]
        f += one(p + ['certID'], s) + [(p + ['nextUpdate'], None)] * (not v['days'])
        if st_ == 'R': f += [(p + ['certStatus', 'revoked', 'revocationTime'], '%04d%02d%02d%02d%02d%02dZ' % when), (p + ['certStatus', 'revoked', 'revocationReason'], CRLREASON[why] if why else None)]
        elif st_ == 'V': f.append((p + ['certStatus', 'good'], None))
        elif st_ is None: f.append((p + ['certStatus', 'unknown'], None))
    arts.append(Art('basic OCSP response', BASIC, basic, f))
    if v['nonce']: f = arts[-1].facts; f.append((t + ['responseExtensions', 0, 'extnID'], (1, 3, 6, 1, 5, 5, 7, 48, 1, 2)))
    return arts


@recipe('OCSP refusal', 2, code=st.sampled_from([1, 2, 3, 5, 6]))
def _(lab, v):
    """openssl answers a malformed request with malformedRequest; the other codes are written by hand from RFC 2560"""
    return [Art('OCSP refusal', OCSPRSP, bytes([0x30, 3, 10, 1, v['code']]), [(['responseStatus'], v['code']), (['responseBytes'], None)])]


# ------------------------------------------------------------------ time stamps
@recipe('time stamp', 15, data=MESSAGE, md=st.sampled_from(['sha1', 'sha224', 'sha256', 'sha384', 'sha512']), policy=st.one_of(st.none(), OIDS), cert=st.booleans(), nonce=st.booleans(), kind=st.sampled_from(['rsa', 'ec']), serial=st.one_of(st.integers(1, 2 ** 100), st.sampled_from([127, 128, 255])),
        accuracy=st.tuples(st.one_of(st.none(), st.integers(1, 10 ** 6)), st.one_of(st.none(), st.integers(1, 999)), st.one_of(st.none(), st.integers(1, 999))), digits=st.just(0), ordering=st.booleans(), tsaname=st.booleans(), chain=st.booleans(), smd=st.sampled_from(['sha1', 'sha256', 'sha512']), refuse=st.sampled_from([None, None, None, 'md', 'policy']))
def _(lab, v):
    lab.write('m', v['data'])
    lab.run('ts', '-query', '-config', lab.write('e.cnf', ''), '-data', 'm', '-' + v['md'], '-out', 'q.tsq', *((['-tspolicy', dot(v['policy'])] if v['policy'] else []) + ['-cert'] * v['cert'] + ['-no_nonce'] * (not v['nonce'])))
    q = lab.read('q.tsq')
    h = hashlib.new(v['md'], v['data']).digest()
    imp = [(['messageImprint', 'hashAlgorithm', 'algorithm'], HASH[v['md']]), (['messageImprint', 'hashedMessage'], h)]
    f = [(['version'], 1), (['reqPolicy'], v['policy']), (['certReq'], v['cert']), (['extensions'], None)] + imp + ([] if v['nonce'] else [(['nonce'], None)])
    arts = [Art('time stamp query', k('TimeStampReq', 3161), q, f)]
    ca = lab.cert(v['kind'], 'Stamper ' + v['kind'], ext='extendedKeyUsage=critical,timeStamping')
    s = '%x' % (v['serial'] - 1)
    lab.write('tsser', '0' * (len(s) % 2) + s + '\n')
    acc = ','.join('%s:%d' % (n, x) for n, x in zip(('secs', 'millisecs', 'microsecs'), v['accuracy']) if x is not None)
    pol = v['policy'] or (1, 2, 3, 4, 1)
    lab.write('ts.cnf', '[tsa]\ndefault_tsa=t\n[t]\nserial=tsser\ncrypto_device=builtin\nsigner_digest=%s\ndefault_policy=1.2.3.4.1\nother_policies=%s\ndigests=%s\n%sordering=%s\ntsa_name=%s\ness_cert_id_chain=%s\nclock_precision_digits=%d\ness_cert_id_alg=%s\n' % (
        v['smd'], dot(pol) if v['refuse'] != 'policy' else '1.2.3.4.1', 'sha1, sha224, sha256, sha384, sha512' if v['refuse'] != 'md' else 'sha384' if v['md'] != 'sha384' else 'sha1', 'accuracy=%s\n' % acc if acc else '', 'yes' if v['ordering'] else 'no', 'yes' if v['tsaname'] else 'no', 'yes' if v['chain'] else 'no', v['digits'], v['smd']))
    lab.run('ts', '-reply', '-config', 'ts.cnf', '-section', 't', '-queryfile', 'q.tsq', '-signer', ca, '-inkey', lab.key(v['kind']), '-out', 'r.tsr')
    r = lab.read('r.tsr')
    refused = v['refuse'] == 'md' or (v['refuse'] == 'policy' and v['policy'] and tuple(v['policy']) != (1, 2, 3, 4, 1))
    R = ('rfc3161', 'TimeStampResp')
    if refused:
        arts.append(Art('time stamp refusal', [R], r, [(['status', 'status'], 2), (['timeStampToken'], None), (['status', 'failInfo'], '1' if v['refuse'] == 'md' else '0' * 15 + '1')]))
        return arts
    arts.append(Art('time stamp reply', [R], r, [(['status', 'status'], 0), (['status', 'failInfo'], None), (['timeStampToken', 'contentType'], CT['signed'])]))
    sd = pick(R, r, ['timeStampToken', 'content'])
    arts.append(Art('time stamp token', k('SignedData', 3852, 5652), sd, [(['version'], 3), (['encapContentInfo', 'eContentType'], (1, 2, 840, 113549, 1, 9, 16, 1, 4)), (['certificates'] + ['#'] * v['cert'], 1 if v['cert'] else None)]))
    info = pick(('rfc5652', 'SignedData'), sd, ['encapContentInfo', 'eContent'])
    f = [(['version'], 1), (['policy'], pol), (['serialNumber'], v['serial']), (['ordering'], v['ordering'])] + imp
    if acc: f += [(['accuracy', n], x) for n, x in zip(('seconds', 'millis', 'micros'), v['accuracy'])]
    else: f.append((['accuracy'], None))
    if v['nonce']: f.append((['nonce'], int.from_bytes(pickint(('rfc3161', 'TimeStampReq'), q, ['nonce']), 'big', signed=True)))
    else: f.append((['nonce'], None))
    f += dnfacts(['tsa', 'directoryName'], [[('CN', 'Stamper ' + v['kind'])]]) if v['tsaname'] else [(['tsa'], None)]
    arts.append(Art('time stamp', k('TSTInfo', 3161), info, f))
    si = pick(('rfc5652', 'SignedData'), sd, ['signerInfos', 0])
    at = lambda oid: pick(('rfc5652', 'SignerInfo'), si, ['signedAttrs', '=attrType=' + oid, 'attrValues', 0])
    der = lab.der(ca)
    if v['smd'] == 'sha1': arts.append(Art('signing certificate', k('SigningCertificate', 2634, 5035), at('1.2.840.113549.1.9.16.2.12'), [(['certs', '#'], 1), (['certs', 0, 'certHash'], hashlib.sha1(der).digest())]))
    else: arts.append(Art('signing certificate 2', k('SigningCertificateV2', 5035), at('1.2.840.113549.1.9.16.2.47'), [(['certs', 0, 'hashAlgorithm', 'algorithm'], HASH[v['smd']]), (['certs', 0, 'certHash'], hashlib.new(v['smd'], der).digest())]))
    return arts


def pickint(key, b, path):
    x = pick2(key, b, path)
    return x.to_bytes(x.bit_length() // 8 + 1, 'big', signed=True)


# ------------------------------------------------------------------ CMP
CMPBODY = {'ir': 0, 'cr': 2, 'p10cr': 4, 'kur': 7, 'genm': 21, 'rr': 11}
BODIES = ['ir', 'ip', 'cr', 'cp', 'p10cr', 'popdecc', 'popdecr', 'kur', 'kup', 'krr', 'krp', 'rr', 'rp', 'ccr', 'ccp', 'ckuann', 'cann', 'rann', 'crlann', 'pkiconf', 'nested', 'genm', 'genp', 'error', 'certConf']


@recipe('CMP', 8, cmd=st.sampled_from(['ir', 'cr', 'kur', 'p10cr', 'rr', 'genm']), auth=st.sampled_from(['secret', 'secret', 'cert']), ref=st.binary(min_size=1, max_size=12).map(lambda b: b.hex()), d=simplename(), popo=st.sampled_from([0, 1, 1]), days=st.one_of(st.none(), st.integers(1, 1000)), sans=st.lists(st.one_of(HOSTS, st.just('10.1.2.3')), max_size=2, unique=True),
        kind=st.sampled_from(['rsa', 'ec']), reason=st.sampled_from([-1, 0, 1, 4, 5]), md=st.sampled_from(['sha256', 'sha384']), mac=st.sampled_from(['hmac-sha1', 'hmacWithSHA256']), recipient=st.one_of(st.none(), simplename()), implicit=st.booleans(), policies=st.lists(OIDS, max_size=2, unique=True))
def _(lab, v):
    kind = v['kind']
    ca = lab.cert('rsa')
    end = lab.cert(kind + ('' if kind == 'ec' else '2048'), 'end', False, 'rsa')
    endkey = lab.key(kind + ('' if kind == 'ec' else '2048'))
    new = endkey
    args = ['cmp', '-config', '', '-cmd', v['cmd'], '-use_mock_srv', '-srv_cert', ca, '-srv_key', lab.key('rsa'), '-rsp_cert', end, '-batch', '-digest', v['md'], '-srv_trusted', ca, '-trusted', ca, '-unprotected_errors', '-no_check_time', '-ignore_keyusage', '-accept_raverified']
    if v['cmd'] == 'p10cr':
        lab.run('req', '-new', '-config', lab.write('p.cnf', '[req]\ndistinguished_name=d\n[d]\n'), '-key', new, '-subj', subj(v['d']), '-out', 'p10.csr')
        args += ['-csr', 'p10.csr']
    elif v['cmd'] in ('ir', 'cr', 'kur'): args += ['-newkey', new, '-popo', v['popo']] + (['-subject', subj(v['d'])] if v['cmd'] != 'kur' else []) + (['-sans', ','.join(v['sans'])] if v['sans'] else []) + (['-policy_oids', ','.join(dot(o) for o in v['policies'])] if v['policies'] else [])
    if v['cmd'] in ('ir', 'cr', 'kur', 'p10cr'): args += (['-days', v['days']] if v['days'] else []) + (['-implicit_confirm', '-grant_implicitconf'] if v['implicit'] else [])
    if v['cmd'] in ('kur', 'rr'): args += ['-oldcert', end]
    if v['cmd'] == 'rr': args += ['-revreason', v['reason']]
    if v['cmd'] == 'genm': args += ['-infotype', 'signKeyPairTypes']
    if v['auth'] == 'secret' and v['cmd'] not in ('kur',): args += ['-ref', v['ref'], '-secret', 'pass:secret', '-srv_ref', v['ref'], '-srv_secret', 'pass:secret', '-mac', v['mac']]
    else: args += ['-cert', end, '-key', endkey]
    if v['recipient']: args += ['-recipient', subj(v['recipient'])]
    for i in range(4):
        for n in ('cq%d', 'cr%d'):
            if os.path.exists(lab.path(n % i)): os.remove(lab.path(n % i))
    lab.run(*args, '-certout', 'cmp.out', '-reqout', 'cq0 cq1 cq2 cq3', '-rspout', 'cr0 cr1 cr2 cr3')
    arts = []
    P = ('rfc4210', 'PKIMessage')
    secret = v['auth'] == 'secret' and v['cmd'] != 'kur'
    for i in range(4):
        for n in ('cq%d', 'cr%d'):
            if not os.path.exists(lab.path(n % i)): continue
            b = lab.read(n % i)
            f = [(['header', 'pvno'], 2), (['header', 'protectionAlg', 'algorithm'], (1, 2, 840, 113533, 7, 66, 13) if secret else None)]
            if f[-1][1] is None: f.pop()
            if n == 'cq%d':
                if secret: f.append((['header', 'senderKID'], v['ref'].encode()))
                if v['recipient']: f += dnfacts(['header', 'recipient', 'directoryName'], v['recipient'])
            if n == 'cq%d' and i == 0:
                f.append((['body', {'ir': 'ir', 'cr': 'cr', 'kur': 'kur', 'p10cr': 'p10cr', 'rr': 'rr', 'genm': 'genm'}[v['cmd']]] + ['#'] * (v['cmd'] != 'p10cr'), 1)) if v['cmd'] != 'p10cr' else f.append((['body', 'p10cr', 'certificationRequestInfo', 'version'], 0))
                if v['cmd'] in ('ir', 'cr', 'kur'):
                    p = ['body', v['cmd'], 0, 'certReq']
                    if v['cmd'] != 'kur': f += dnfacts(p + ['certTemplate', 'subject'], v['d'])
                    f += [(p + ['certReqId'], 0), (p + ['certTemplate', 'publicKey', 'algorithm', 'algorithm'], KEYOID[kind]), (p + ['certTemplate', 'validity'], None) if not v['days'] else (p + ['certTemplate', 'serialNumber'], None)]
                    pop = {0: [(['body', v['cmd'], 0, 'popo|pop', 'raVerified'], None)], 1: [(['body', v['cmd'], 0, 'popo|pop', 'signature', 'algorithmIdentifier', 'algorithm'], SIG[kind, v['md']])]}.get(v['popo'], [])
                    f += pop
                    msgs = pick(P, b, ['body', v['cmd']])
                    msgs = octetstring(msgs)
                    g = [(x[0][2:], x[1]) for x in f if x[0][:1] == ['body'] and x[0][-1] != '#']
                    arts.append(Art('certificate requests', k('CertReqMessages', 2511, 4211), msgs, [(['#'], 1)] + g))
                if v['cmd'] == 'rr':
                    f += [(['body', 'rr', 0, 'certDetails', 'serialNumber'], serial(lab, end))] + dnfacts(['body', 'rr', 0, 'certDetails', 'issuer'], [[('CN', 'someone')]])
            arts.append(Art('CMP message %s' % (n % i), [P], b, f))
            if secret:
                par = pick(P, b, ['header', 'protectionAlg', 'parameters'])
                arts.append(Art('password based MAC parameters', k('PBMParameter', 2511, 4210, 4211), par, [(['mac', 'algorithm'], {'hmac-sha1': (1, 3, 6, 1, 5, 5, 8, 1, 2)}.get(v['mac'], None))] if v['mac'] == 'hmac-sha1' and n == 'cq%d' else []))
    return arts


@recipe('system certificates', 2, n=st.integers(0, 10 ** 6))
def _(lab, v):
    """one of the certificates of the system store, with what openssl reports about it"""
    d = '/etc/ssl/certs'
    names = sorted(x for x in os.listdir(d) if x.endswith('.pem')) if os.path.isdir(d) else []
    if not names: raise Refused('no certificates')
    p = os.path.join(d, names[v['n'] % len(names)])
    b = lab.run('x509', '-in', p, '-outform', 'DER')
    rep = lab.run('x509', '-in', p, '-noout', '-serial', '-dates', '-dateopt', 'iso_8601').decode()
    f = [(['tbsCertificate', 'serialNumber'], int(re.search(r'serial=(-?[0-9A-F]+)', rep)[1], 16))]
    for w, n in (('notBefore', 'notBefore'), ('notAfter', 'notAfter')):
        m = tuple(map(int, re.search(w + r'=(\d+)-(\d+)-(\d+) (\d+):(\d+):(\d+)Z', rep).groups()))
        f += times(['tbsCertificate', 'validity', n], m)
    spki = lab.run('pkey', '-pubin', '-in', lab.write('pub', lab.run('x509', '-in', p, '-noout', '-pubkey')), '-outform', 'DER')
    return [Art('system certificate', CERT, b, f), Art('public key', SPKI, spki, [])]
