"""One-off bootstrap aid (NOT used by any check): prints each module of
/repo/pyasn1_modules as ASN.1-like text, which was then reviewed and edited by
hand against the published specifications to become /verif/ref/*.asn1."""
import ast, importlib, pkgutil, sys, os
import pyasn1_modules
from pyasn1.type import base, univ, tag, constraint, namedtype, opentype, char, useful

KINDS = {univ.Boolean: 'BOOLEAN', univ.Integer: 'INTEGER', univ.BitString: 'BIT STRING',
  univ.OctetString: 'OCTET STRING', univ.Null: 'NULL', univ.ObjectIdentifier: 'OBJECT IDENTIFIER',
  univ.Real: 'REAL', univ.Enumerated: 'ENUMERATED', univ.Sequence: 'SEQUENCE', univ.Set: 'SET',
  univ.SequenceOf: 'SEQUENCE OF', univ.SetOf: 'SET OF', univ.Choice: 'CHOICE', univ.Any: 'ANY',
  useful.UTCTime: 'UTCTime', useful.GeneralizedTime: 'GeneralizedTime', useful.ObjectDescriptor: 'ObjectDescriptor'}
for n in 'NumericString PrintableString TeletexString T61String VideotexString IA5String GraphicString VisibleString ISO646String GeneralString UniversalString BMPString UTF8String'.split():
    KINDS[getattr(char, n)] = n
CLS = {0: 'UNIVERSAL ', 64: 'APPLICATION ', 128: '', 192: 'PRIVATE '}
mods = {}
owner = {}   # id(class) -> (mod, name)

def load():
    for m in sorted(x.name for x in pkgutil.iter_modules(pyasn1_modules.__path__)):
        mod = importlib.import_module('pyasn1_modules.' + m)
        src = open(mod.__file__).read()
        names = []
        for node in ast.parse(src).body:
            if isinstance(node, ast.ClassDef):
                names.append(node.name)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name) and t.id not in names:
                        names.append(t.id)
        mods[m] = (mod, names)
        for n in names:
            v = getattr(mod, n, None)
            if isinstance(v, type) and issubclass(v, base.Asn1Type) and v not in KINDS:
                owner.setdefault(id(v), (v.__module__.split('.')[-1], v.__name__))

def kindof(obj):
    for c in type(obj).__mro__:
        if c in KINDS: return c
    raise TypeError(type(obj))

def flat(c):
    """list of effective conjunct constraints"""
    if type(c) is constraint.ConstraintsIntersection:
        r = []
        for x in c._values: r += flat(x)
        return r
    return [c]

def num(x):
    if isinstance(x, base.Asn1Type): x = int(x)
    if x == float('inf') : return 'MAX'
    if x == float('-inf'): return 'MIN'
    return repr(x)

def val(x):
    if isinstance(x, (univ.Integer,)): return str(int(x))
    if isinstance(x, bytes): return "'%s'H" % x.hex().upper()
    if isinstance(x, (univ.ObjectIdentifier,)): return '{' + str(x) + '}'
    if isinstance(x, univ.Null): return 'NULL'
    if isinstance(x, univ.OctetString): return "'%s'H" % x.asOctets().hex().upper()
    if isinstance(x, char.AbstractCharacterString): return '"%s"' % str(x)
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return '"%s"' % x
    raise TypeError(repr(x))

def con(c):
    t = type(c)
    if t is constraint.ConstraintsIntersection: return ' ^ '.join('(%s)' % con(x) for x in c._values)
    if t is constraint.ConstraintsUnion: return ' | '.join(con(x) for x in c._values)
    if t is constraint.ValueSizeConstraint:
        return 'SIZE(%s..%s)' % (num(c.start), num(c.stop))
    if t is constraint.ValueRangeConstraint:
        return '%s..%s' % (num(c.start), num(c.stop))
    if t is constraint.SingleValueConstraint: return ' | '.join(val(x) for x in c._values)
    if t is constraint.PermittedAlphabetConstraint: return 'FROM ' + repr(''.join(sorted(map(str,c._values))))
    if t is constraint.WithComponentsConstraint:
        return 'WITH COMPONENTS {%s}' % ', '.join('%s %s' % (n, {'ComponentPresentConstraint':'PRESENT','ComponentAbsentConstraint':'ABSENT'}[type(x).__name__]) for n, x in c._values)
    raise TypeError(repr(c))

def tags(o): 
    return [(t.tagClass, t.tagFormat, t.tagId) for t in o.tagSet.superTags]

def tagexpr(pt, et):
    """text to derive tags et from tags pt, or None"""
    def T(t): return '[%s%d]' % (CLS[t[0]], t[2])
    if pt == et: return ''
    if len(et) == len(pt) + 1 and et[:-1] == pt: return T(et[-1]) + ' EXPLICIT '
    if len(et) == len(pt) and et[:-1] == pt[:-1] and et[-1][1]==pt[-1][1]: return T(et[-1]) + ' IMPLICIT '
    return None

def ref(o, m):
    om, on = o
    return on if om == m else om + '.' + on

def nv(o):
    return dict(o.namedValues) if hasattr(o, 'namedValues') and o.namedValues else {}

def same_components(a, b):
    ca, cb = a.componentType, b.componentType
    if ca is cb: return True
    if isinstance(ca, namedtype.NamedTypes): return ca == cb and ca is cb or (len(ca)==0 and len(cb)==0)
    return False

def texpr(obj, m, self_id=None, ind=1):
    """type expression for schema object obj, in module m. self_id: class being defined"""
    notes = ''
    for P in type(obj).__mro__:
        if P is object: break
        if id(P) == self_id: continue
        isbase = P in KINDS
        if not isbase and id(P) not in owner: continue
        if not isbase and owner[id(P)][0] is None: continue
        p = P()
        te = tagexpr(tags(p), tags(obj))
        pc, oc = flat(p.subtypeSpec), flat(obj.subtypeSpec)
        extra = None
        if [repr(x) for x in oc[:len(pc)]] == [repr(x) for x in pc]: extra = oc[len(pc):]
        nvs = nv(obj)
        compsame = not isinstance(obj, (base.ConstructedAsn1Type,)) or same_components(obj, p)
        if not isbase:
            if te is None or extra is None or not compsame: continue
            # extra named values
            if nvs != nv(p): continue
            s = te + ref(owner[id(P)], m)
            for x in extra: s += ' (%s)' % con(x)
            return s
        # built-in
        if te is None:
            te = '[RAW %s] ' % ' '.join('%d:%d:%d' % t for t in tags(obj))
        if extra is None:
            extra = oc; te = '/*BASECONSTRAINT DROPPED*/' + te
        k = KINDS[P]
        cs = ''.join(' (%s)' % con(x) for x in extra)
        if k in ('INTEGER', 'ENUMERATED', 'BIT STRING') and nvs and k:
            return te + k + ' { ' + ', '.join('%s(%d)' % kv for kv in nvs.items()) + ' }' + cs
        if k in ('SEQUENCE OF', 'SET OF'):
            ct = obj.componentType
            inner = 'NONE' if ct is None else texpr(ct, m, None, ind + 1)
            return te + k.split()[0] + cs + ' OF ' + inner
        if k in ('SEQUENCE', 'SET', 'CHOICE'):
            ct = obj.componentType
            lines = []
            for nt in ct.namedTypes:
                line = '    ' * ind + nt.name + ' ' + texpr(nt.asn1Object, m, None, ind + 1)
                if nt.openType:
                    line += ' DEFINED BY %s IN %s' % (nt.openType.name, findmap(nt.openType, m))
                if isinstance(nt, namedtype.DefaultedNamedType):
                    line += ' DEFAULT ' + dval(nt.asn1Object)
                elif isinstance(nt, namedtype.OptionalNamedType):
                    line += ' OPTIONAL'
                lines.append(line)
            return te + k + cs + ' {\n' + ',\n'.join(lines) + '\n' + '    ' * (ind - 1) + '}'
        return te + k + cs
    raise TypeError(obj)

def dval(o):
    from pyasn1.codec.der import encoder
    if isinstance(o, univ.BitString): return "'%s'B" % o.asBinary() if len(o) else "''B"
    if isinstance(o, univ.Boolean): return 'TRUE' if o else 'FALSE'
    if isinstance(o, (univ.Integer, univ.ObjectIdentifier, univ.OctetString, char.AbstractCharacterString, univ.Null)): return val(o)
    try:
        return '<DER %s>' % encoder.encode(o).hex()
    except Exception as e:
        return '<SCHEMA %s>' % type(o).__name__

def findmap(ot, m):
    tm = ot._OpenType__typeMap
    for mm in [m] + [x for x in mods if x != m]:
        mod, names = mods[mm]
        for n in names:
            if getattr(mod, n, None) is tm: return n if mm == m else mm + '.' + n
    return 'ANON{' + ', '.join('%s: %s' % (k, texpr(v, m, None, 3)) for k, v in tm.items()) + '}'

def tmpl(v, m, path=''):
    from pyasn1.codec.der import encoder
    r = []
    if isinstance(v, (univ.SequenceOf, univ.SetOf)):
        items = [(str(i), v.getComponentByPosition(i, default=None, instantiate=False)) for i in range(len(v))]
    else:
        items = []
        for i, nt in enumerate(v.componentType.namedTypes):
            x = v.getComponentByPosition(i, default=None, instantiate=False)
            if isinstance(nt, namedtype.DefaultedNamedType) and x is not None and x == nt.asn1Object: 
                continue
            items.append((nt.name, x))
    for n, x in items:
        if x is None or x is univ.noValue: continue
        p = path + n
        if x.isValue: r.append('%s = %s' % (p, encoder.encode(x).hex()))
        elif isinstance(x, base.ConstructedAsn1Type) and x._componentValues is not univ.noValue and len(x._componentValues):
            r += tmpl(x, m, p + '/')
        else: r.append('%s ~ %s' % (p, texpr(x, m)))
    return r

def dump(m):
    from pyasn1.codec.der import encoder
    mod, names = mods[m]
    out = []
    for n in names:
        if not hasattr(mod, n): continue
        v = getattr(mod, n)
        if isinstance(v, type):
            if not issubclass(v, base.Asn1Type): continue
            if v in KINDS: out.append('%s ::= %s' % (n, KINDS[v])); continue
            if owner[id(v)] != (m, n):
                out.append('%s ::= %s' % (n, ref(owner[id(v)], m)))   # alias
            else:
                out.append('%s ::= %s' % (n, texpr(v(), m, id(v))))
        elif isinstance(v, base.Asn1Type):
            if isinstance(v, univ.ObjectIdentifier) and v.isValue:
                out.append('%s OID ::= %s' % (n, v))
            elif isinstance(v, univ.Integer) and v.isValue and kindof(v) is univ.Integer:
                out.append('%s INT ::= %d' % (n, v))
            elif v.isValue:
                try: h = encoder.encode(v).hex()
                except Exception as e: h = 'ERR %s' % str(e)[:100]
                out.append('%s VALUE %s ::= %s' % (n, texpr(v, m), h))
            else:
                if isinstance(v, base.ConstructedAsn1Type) and v._componentValues is not univ.noValue:
                    out.append('%s TEMPLATE %s ::= { %s }' % (n, texpr(type(v)(), m), ', '.join(tmpl(v, m))))
                else:
                    out.append('%s SCHEMA ::= %s' % (n, texpr(v, m)))
        elif isinstance(v, dict):
            pass
        elif isinstance(v, float): pass
    return '\n'.join(out)

if __name__ == '__main__':
    load()
    outdir = sys.argv[1]
    os.makedirs(outdir, exist_ok=True)
    for m in mods:
        if m == 'pem': continue
        try: txt = dump(m)
        except Exception as e:
            print(m, type(e), e); raise
        open(os.path.join(outdir, m + '.asn1'), 'w').write(txt + '\n')
