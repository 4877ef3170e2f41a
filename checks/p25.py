"""P25: recursive string encoding and decoding is lossless and non-destructive.

Random nested structures are transcoded and compared with a reference
transcoder; the input is compared with a deep picture taken before, and no
container may be shared between input and result.
"""
import random
from kit import *
from node import utils
from node.utils import StrCodec

ANCHORS = ['src/node/utils.py']
RULE = ('a case is one random structure (depth up to 6) of text, bytes, lists, tuples, dictionaries, nodes and other values '
        'with an encoding and mode, encoded, decoded, and decoded after encoding; non-trivial: results agreed')
QUICK, THOROUGH = 9000, 150000
MIN = {'structures': 15000, 'nodes': 3000, 'undecodable-soft': 600, 'undecodable-strict': 300, 'round-trips': 3000,
       'bytes': 5000, 'keys': 5000, 'reused': 500}
ASSUMPTIONS = ['text is encodable in the chosen encoding', 'keys stay distinct', 'no named tuples']

TEXT = {'utf-8': ['', 'a', 'ü', '日本', '\U0001f600', '\x00', 'x' * 50, '<UNSET>', 'e\u0301', '\ufeff', 'Ã¼'],
        'ascii': ['', 'a', 'abc', '\x00', '~', 'key', 'x' * 50],
        'latin-1': ['', 'a', 'ü', 'ÿ', '\x80', '\x00', 'Ã¼'],
        'cp1252': ['', 'a', 'ü', '€', '\x00'],
        'utf-16-le': ['', 'a', 'ü', '日本', '\U0001f600'],
        'koi8-r': ['', 'a', 'я', 'Ж']}
BYTES = [b'', b'a', b'abc', b'\xc3\xbc', b'\xff', b'\xff\xfe', b'\x80abc', b'\xe6\x97\xa5', b'\xe6\x97', b'a\x81b', b'\xed\xa0\x80',
         b'ab\xff' * 5, b'\x00', b'\xf0\x9f\x98\x80', b'\xc0\x80']


class List(list):
    pass


class Text(str):
    pass


class Opaque(object):
    pass


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 48), 'encoding': rng.choice(['utf-8', 'utf-8', 'utf-8'] + sorted(TEXT)),
            'soft': rng.random() < .6, 'bytes': rng.choice(['none', 'any', 'good']), 'size': rng.choice([1, 3, 6])}


class Maker(object):

    def __init__(self, rng, mon, encoding, kinds, size):
        self.rng, self.mon, self.encoding, self.kinds, self.size = rng, mon, encoding, kinds, size
        self.texts = TEXT[encoding]
        self.containers = []

    def bytes(self):
        rng = self.rng
        self.mon.ev('bytes')
        if self.kinds == 'good':
            return rng.choice(self.texts).encode(self.encoding)
        return rng.choice(BYTES)

    def key(self):
        k = self.rng.random()
        if k < .6:
            self.mon.ev('keys')
            return self.rng.choice(self.texts)
        if k < .7 and self.kinds != 'none':
            return self.bytes()
        if k < .8:
            return (self.rng.choice(self.texts), self.rng.choice(self.texts))
        return self.rng.choice([0, 1, 2.5, None, (1, 2), True])

    def pairs(self, depth):
        out, seen = [], set()
        for _ in range(self.rng.randrange(self.size)):
            k = self.key()
            # distinct however text and bytes are converted
            sig = self.norm(k)
            if sig not in seen:
                seen.add(sig)
                out.append((k, self.make(depth + 1)))
        return out

    def norm(self, k):
        if isinstance(k, tuple):
            return tuple(self.norm(x) for x in k)
        if isinstance(k, bytes):
            try:
                return k.decode(self.encoding)
            except UnicodeDecodeError:
                return k
        return k

    def make(self, depth=0):
        rng = self.rng
        k = rng.randrange(5, 12) if not depth and rng.random() < .9 else rng.randrange(12 if depth < 5 else 5)
        if k in (0, 1):
            t = rng.choice(self.texts)
            return Text(t) if rng.random() < .1 else t
        if k == 2:
            return self.bytes() if self.kinds != 'none' else rng.choice(self.texts)
        if k in (3, 4):
            return rng.choice([0, 1.5, None, True, UNSET, Opaque(), object, {1, 'a'}, bytearray(b'x'), len, 10 ** 30,
                               frozenset(['a']), range(3), Ellipsis])
        if k in (5, 6):
            x = [self.make(depth + 1) for _ in range(rng.randrange(self.size))]
            if rng.random() < .1:
                x = List(x)
        elif k == 7:
            return tuple(self.make(depth + 1) for _ in range(rng.randrange(self.size)))
        elif k in (8, 9):
            p = self.pairs(depth)
            x = odict(p) if rng.random() < .15 else dict(p)
        else:
            self.mon.ev('nodes')
            cls = rng.choice([VBaseNode, VOrderedNode, PlainOdictNode, VAttributedNode, FallbackNode])
            x = moody(cls, rng.choice((None,) * 4 + MOODS))(name=rng.choice(self.texts))
            if cls is VAttributedNode:
                x.attrs['ü'] = 'ü'
            for key, val in self.pairs(depth):
                if cls is VAttributedNode and (not isinstance(key, str) or INode.providedBy(val)):
                    continue
                x[key] = val
        self.containers.append(x)
        return x


def picture(v):
    """Deep image of a structure, with identities of containers and objects."""
    if isinstance(v, dict):
        return (type(v), id(v), [(picture(k), picture(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v), id(v), [picture(x) for x in v])
    if INode.providedBy(v):
        return (type(v), id(v), v.__name__, id(v.__parent__), [(picture(k), picture(x)) for k, x in v.items()])
    if isinstance(v, (str, bytes)):
        return (type(v), v)
    return (id(v), repr(v))


class Undecodable(Exception):
    pass


def ref_encode(v, enc, soft):
    if isinstance(v, str):
        return v.encode(enc)
    if isinstance(v, bytes):
        try:
            v.decode(enc)
        except UnicodeDecodeError:
            if not soft:
                raise Undecodable()
        return v
    return recurse(v, lambda x: ref_encode(x, enc, soft))


def ref_decode(v, enc, soft):
    if isinstance(v, bytes):
        try:
            return v.decode(enc)
        except UnicodeDecodeError:
            if not soft:
                raise Undecodable()
            return v
    return recurse(v, lambda x: ref_decode(x, enc, soft))


def recurse(v, fn):
    if isinstance(v, dict) or INode.providedBy(v):
        return {fn(k): fn(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(fn(x) for x in v)
    if isinstance(v, list):
        return type(v)(fn(x) for x in v)
    return v


def agree(mon, got, want, inputs, path=''):
    mon.ev('comparisons')
    if isinstance(want, (dict, list, tuple)):
        if type(got) is not type(want):
            raise Violation('structure', 'at {}: {} expected {}'.format(path, type(got), type(want)))
        if id(got) in inputs and got != ():
            raise Violation('shared', 'at {}: container of the input'.format(path))
        if len(got) != len(want):
            raise Violation('structure', 'at {}: {} expected {}'.format(path, short(got), short(want)))
        if isinstance(want, dict):
            for (k, v), (kk, w) in zip(got.items(), want.items()):
                agree(mon, k, kk, inputs, path + '/key')
                agree(mon, v, w, inputs, '{}/{!r}'.format(path, kk))
        else:
            for i, (v, w) in enumerate(zip(got, want)):
                agree(mon, v, w, inputs, '{}/{}'.format(path, i))
    elif isinstance(want, (str, bytes)):
        if not isinstance(got, type(want) if type(want) in (str, bytes) else str) or got != want:
            raise Violation('text', 'at {}: {} expected {}'.format(path, short(got), short(want)))
    elif got is not want:
        raise Violation('value', 'at {}: {} expected {}'.format(path, short(got), short(want)))


def inputs_of(v, out):
    if isinstance(v, (list, tuple, dict)) or INode.providedBy(v):
        out.add(id(v))
        for x in (v.values() if not isinstance(v, (list, tuple)) else v):
            inputs_of(x, out)
        if not isinstance(v, (list, tuple)):
            for x in v:
                inputs_of(x, out)
    return out


def only_text(v):
    """No bytes anywhere, so that decoding restores the original."""
    if isinstance(v, bytes):
        return False
    if isinstance(v, dict) or INode.providedBy(v):
        return all(only_text(k) and only_text(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(only_text(x) for x in v)
    return True


def plain(v):
    return recurse(v, plain)


def run(case, mon):
    rng = random.Random(case['seed'])
    enc, soft = case['encoding'], case['soft']
    maker = Maker(rng, mon, enc, case['bytes'], case['size'])
    ob = maker.make()
    mon.ev('structures')
    if enc == 'utf-8' and soft and rng.random() < .4:
        encode, decode = utils.encode, utils.decode
        mon.ev('reused')
    elif enc == 'utf-8' and soft and rng.random() < .5:
        codec = StrCodec()
        encode, decode = codec.encode, codec.decode
    else:
        codec = StrCodec(enc, soft) if rng.random() < .5 else StrCodec(encoding=enc, soft=soft)
        encode, decode = codec.encode, codec.decode
    before = picture(ob)
    inputs = inputs_of(ob, set())

    def call(fn, ref, arg, what):
        mon.ev('structures')
        try:
            want = ref(arg, enc, soft)
        except Undecodable:
            mon.ev('undecodable-strict')
            raises(mon, UnicodeDecodeError, 'strict', what, fn, arg)
            return None
        if soft and want is not None:
            mon.ev('undecodable-soft', has_undecodable(arg, enc))
        got = ok(mon, 'fails', what, fn, arg)
        agree(mon, got, want, inputs)
        mon.true(picture(ob) == before, 'modified', 'input changed by', what)
        return got
    got = call(encode, ref_encode, ob, 'encode')
    if got is not None:
        back = call(decode, ref_decode, got, 'decode')
        if only_text(ob):
            mon.ev('round-trips')
            agree(mon, back, plain(ob), inputs)
    call(decode, ref_decode, ob, 'decode')
    # results do not depend on what was done before
    call(encode, ref_encode, ob, 'encode again')
    mon.state((enc, soft, len(maker.containers), got is None))


def has_undecodable(v, enc):
    if isinstance(v, bytes):
        try:
            v.decode(enc)
        except UnicodeDecodeError:
            return True
        return False
    if isinstance(v, dict) or INode.providedBy(v):
        return any(has_undecodable(k, enc) or has_undecodable(x, enc) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(has_undecodable(x, enc) for x in v)
    return False


def fixed(mon):

    def large():
        for size in (300, 3000):
            text = ['\xfc%d' % i for i in range(size)]
            data = [t.encode('utf-8') for t in text]
            mon.eq(utils.encode(list(text)), data, 'large', 'encoded list')
            mon.eq(utils.decode(list(data)), text, 'large', 'decoded list')
            mon.eq(utils.encode(tuple(text)), tuple(data), 'large', 'encoded tuple')
            mon.eq(utils.decode(tuple(data)), tuple(text), 'large', 'decoded tuple')
            mon.eq(utils.encode(dict(zip(text, text))), dict(zip(data, data)), 'large', 'encoded dict')
            mon.eq(utils.decode(dict(zip(data, data))), dict(zip(text, text)), 'large', 'decoded dict')
            long = ''.join(text)
            mon.eq(utils.decode(long.encode('utf-8')), long, 'large', 'text')
            mon.eq(utils.encode(long), long.encode('utf-8'), 'large', 'text')
        got, exp = b'x', 'x'
        for i in range(60):
            got, exp = ([got], [exp]) if i % 3 else ({b'k': got}, {'k': exp})
        mon.eq(utils.decode(got), exp, 'large', 'nested')
        mon.eq(utils.encode(exp), got, 'large', 'nested')
        mon.ev('large')
    yield 'large', large
