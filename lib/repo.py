"""Adapter to the code under test: builds values through the public pyasn1 API
of the modules in /repo and reads them back.  Knows nothing about how a module
is written: only public names, component names and values."""
import os, sys, importlib

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True


def setup():
    """make /repo's working tree importable, with pyasn1 from the project's venv"""
    sys.pycache_prefix = '/nonexistent'
    if REPO not in sys.path: sys.path.insert(0, REPO)
    if VENV not in sys.path: sys.path.append(VENV)
    import pyasn1_modules
    d = os.path.dirname(os.path.abspath(pyasn1_modules.__file__))
    if d != os.path.join(os.path.realpath(REPO), 'pyasn1_modules') and d != os.path.join(REPO, 'pyasn1_modules'):
        raise RuntimeError('pyasn1_modules imported from %s' % d)


setup()
from pyasn1 import error
from pyasn1.type import base, univ, char, useful, namedtype
from pyasn1.codec.der import encoder as der_enc, decoder as der_dec
from pyasn1.codec.ber import encoder as ber_enc, decoder as ber_dec
from pyasn1.codec.cer import encoder as cer_enc, decoder as cer_dec
import asn1ref

PyAsn1Error = error.PyAsn1Error
KIND = {'BOOLEAN': univ.Boolean, 'INTEGER': univ.Integer, 'BIT STRING': univ.BitString,
        'OCTET STRING': univ.OctetString, 'NULL': univ.Null, 'OBJECT IDENTIFIER': univ.ObjectIdentifier,
        'ENUMERATED': univ.Enumerated, 'SEQUENCE': univ.Sequence, 'SET': univ.Set,
        'SEQUENCE OF': univ.SequenceOf, 'SET OF': univ.SetOf, 'CHOICE': univ.Choice, 'ANY': univ.Any,
        'UTCTime': useful.UTCTime, 'GeneralizedTime': useful.GeneralizedTime,
        'ObjectDescriptor': useful.ObjectDescriptor, 'T61String': char.TeletexString,
        'ISO646String': char.VisibleString}
for _n in asn1ref.CHARKINDS:
    if _n not in KIND: KIND[_n] = getattr(char, _n)


class Mismatch(Exception):
    """observable behaviour differs from the reference"""


def module(name):
    return importlib.import_module('pyasn1_modules.' + name)


_specs = {}


def lookup(mod, name):
    try:
        return getattr(module(mod), name)
    except AttributeError:
        raise Mismatch('%s has no name %r' % (mod, name))


def spec(mod, name):
    """fresh schema object for an exported type (class or schema instance)"""
    k = (mod, name)
    if k not in _specs:
        c = lookup(mod, name)
        if isinstance(c, type):
            if not issubclass(c, base.Asn1Type): raise Mismatch('%s.%s is not an ASN.1 type' % k)
            _specs[k] = c()
        elif isinstance(c, base.Asn1Type): _specs[k] = c
        else: raise Mismatch('%s.%s is not an ASN.1 type' % k)
    return _specs[k]


def new(mod, name):
    """a new instance, the way a user of the module makes one"""
    c = lookup(mod, name)
    return c() if isinstance(c, type) else c.clone()


def clear_cache():
    _specs.clear()


def native(kind, v):
    if kind == 'BIT STRING': return tuple(int(c) for c in v)
    if kind == 'NULL': return ''
    if kind == 'BOOLEAN': return bool(v)
    return v


SCALAR = set(KIND) - {'SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF', 'CHOICE'}


class Adapter(object):
    def __init__(self, model):
        self.M = model

    # ---------------------------------------------------------------- build
    def build(self, t, v, owner, mode='inplace'):
        """value v of reference type t, built through the exported name
        owner = (module, name).

        mode 'inplace': obj['a']['b'] = x, the way the documentation does it;
        mode 'assign': parts that are of an exported type are built from that
        exported type on their own and then assigned."""
        r = self.M.eff(t)
        if r.kind in SCALAR:
            return spec(*owner).clone(native(r.kind, v))
        obj = new(*owner)
        self.fill(r, v, obj, mode)
        return obj

    def fill(self, r, v, obj, mode):
        k = r.kind
        if k in ('SEQUENCE', 'SET'):
            if k in ('SEQUENCE', 'SET'): obj.clear()
            for f in r.fields:
                if f.name in v: self.put(obj, f.name, f.type, v[f.name], mode)
        elif k == 'CHOICE':
            self.put(obj, v[0], r.byname[v[0]].type, v[1], mode)
        else:
            obj.clear()
            for i, x in enumerate(v): self.put(obj, i, r.elem, x, mode)

    def put(self, obj, key, t, v, mode):
        r = self.M.eff(t)
        setter = obj.setComponentByPosition if isinstance(key, int) else obj.setComponentByName
        if r.kind in SCALAR:
            setter(key, native(r.kind, v))
            return
        if mode == 'assign' and t.ref is not None and not t.tags and not t.cons:
            setter(key, self.build(t, v, t.ref, mode))
            return
        sub = obj.getComponentByPosition(key) if isinstance(key, int) else obj.getComponentByName(key)
        self.fill(r, v, sub, mode)

    # -------------------------------------------------------------- extract
    def extract(self, t, obj, path=''):
        r = self.M.eff(t)
        k = r.kind
        if k == 'ANY' and not isinstance(obj, univ.Any):
            return der_enc.encode(obj)          # an ANY may hold the value itself
        if not isinstance(obj, KIND[k]):
            raise Mismatch('%s: is a %s, published as %s' % (path or '.', type(obj).__name__, k))
        if k in ('INTEGER', 'ENUMERATED'):
            if k == 'INTEGER' and isinstance(obj, (univ.Enumerated, univ.Boolean)):
                raise Mismatch('%s: is a %s, published as %s' % (path or '.', type(obj).__name__, k))
            return int(obj)
        if k == 'BOOLEAN': return bool(obj)
        if k == 'NULL': return None
        if k == 'BIT STRING': return obj.asBinary() if len(obj) else ''
        if k in ('OCTET STRING', 'ANY'):
            if k == 'OCTET STRING' and isinstance(obj, (univ.Any, char.AbstractCharacterString)):
                raise Mismatch('%s: is a %s, published as %s' % (path or '.', type(obj).__name__, k))
            return obj.asOctets()
        if k == 'OBJECT IDENTIFIER': return tuple(obj)
        if k in asn1ref.CHARSET: return str(obj)
        if k in ('SEQUENCE', 'SET'):
            if isinstance(obj, (univ.Choice,)):
                raise Mismatch('%s: is a %s, published as %s' % (path or '.', type(obj).__name__, k))
            names = list(obj.componentType)
            want = [f.name for f in r.fields]
            if (names != want) if k == 'SEQUENCE' else (sorted(names) != sorted(want)):
                raise Mismatch('%s: components %s, published %s' % (path or '.', names, want))
            out = {}
            for f in r.fields:
                if f.default is not None: c = obj.getComponentByName(f.name)
                else: c = obj.getComponentByName(f.name, default=None, instantiate=False)
                if c is None or not c.isValue:
                    continue
                out[f.name] = self.extract(f.type, c, path + '/' + f.name)
            return out
        if k == 'CHOICE':
            names = list(obj.componentType)
            if sorted(names) != sorted(r.byname):
                raise Mismatch('%s: alternatives %s, published %s' % (path or '.', names, list(r.byname)))
            n = obj.getName()
            return (n, self.extract(r.byname[n].type, obj.getComponent(), path + '/' + n))
        return [self.extract(r.elem, x, '%s[%d]' % (path, i)) for i, x in enumerate(obj)]
