# Declarations drawn at random (always the same ones). Executed by gen_derive.py.
import random
N_STRUCTS, N_ENUMS = 90, 70
rnd = random.Random(20261119)
LEAF = ['u8', 'u16', 'u32', 'u64', 'u64', 'u64', 'i8', 'i32', 'i64', 'u128', 'bool', 'bool', 'char', 'String', 'String', 'Vec<u8>', 'Vec<u16>', 'Vec<String>', 'Option<u64>', 'Option<bool>', 'Option<String>',
        '(u64, bool)', '[u8; 3]', 'BTreeMap<u64, String>', 'BTreeMap<String, u8>', 'Value', '()', 'Plain', 'AllOpt', 'Unit', 'Option<Plain>', 'Vec<AllOpt>', 'LooseUnit', 'TransBytes']
NO_DEFAULT = {'Value'}
POOL = ['a', 'b', 'c', 'm', 'n', 'y', 'z', 'aa', 'ab', 'ba', 'zz', 'id', 'key', 'mid', 'foo', 'bar', 'kind', 'name', 'value', 'first', 'second', 'offset', 'payload', 'a_long_field_name', 'another_field_name_longer_than_23', 'field_name_of_23_bytes_x', 'field_name_of_24_bytes_xy']
KEYS_STR = ['', 'A', 'a', 'B', 'Z', 'zz', 'aB', 'ä', 'x y', 'longer', 'quite a long key with more than 23 bytes', 'value', 'tag']
KEYS_INT = [0, 1, 2, 3, 7, 10, 23, 24, 25, 100, 255, 256, 65535, 65536, 4294967295, 4294967296, 18446744073709551615]
TAGS = ['t', 'v', 'tag', 'kind', 'mm', 'mode', 0, 5, 24, 300]
MAPS = {'Plain': {'zeta', 'alpha', 'mid'}, 'AllOpt': {'x', 'y'}}


def chance(p): return rnd.random() < p


def draw_fields(n, keyed, taken=(), opt_ok=True):
    fs, keys = [], set(taken)
    names = rnd.sample(POOL, n)
    for i, nm in enumerate(names):
        ty = rnd.choice(LEAF)
        kw = {}
        if chance(.15) and ty not in NO_DEFAULT: kw['skip'] = True
        else:
            if chance(.15):
                c = rnd.choice(['cap', 'small', 'plus', 'not'])
                if c == 'cap': ty = 'u64'; kw.update(enc='enc_cap')
                if c == 'small': ty = 'u16'; kw.update(dec='dec_small')
                if c == 'plus': ty = 'u64'; kw.update(enc='enc_plus', dec='dec_plus', w='u128')
                if c == 'not': ty = 'bool'; kw.update(enc='enc_not', dec='dec_not')
            if keyed and chance(.3):
                kw['opt'] = True
                if chance(.25): ty = 'u64'; kw['skip_if'] = rnd.choice(['is_zero', 'is_odd']); kw.pop('enc', 0); kw.pop('dec', 0); kw.pop('w', 0)
            if keyed and chance(.35): kw['key'] = rnd.choice(KEYS_STR + KEYS_INT)
        k = kw.get('key', nm)
        if keyed and not kw.get('skip'):
            if k in keys:
                kw.pop('key', None)
                k = nm
            if k in keys: continue
            keys.add(k)
        elif kw.get('skip') and nm in keys: continue
        fs.append((nm, ty, kw))
    return fs


def make_fields(fs, tuple):
    return [F(f'f{i}' if tuple else nm, ty, **({k: v for k, v in kw.items() if k != 'key'} if tuple else kw)) for i, (nm, ty, kw) in enumerate(fs)]


RANDOM = []
for i in range(N_STRUCTS):
    nm = f'S{i}'
    shape = rnd.choice(['map', 'map', 'map', 'map', 'array', 'array', 'tuple', 'tuple'])
    n = rnd.choice([0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    if shape == 'tuple': n = max(n, 1)
    fs = draw_fields(n, shape == 'map')
    if shape == 'tuple' and not fs: fs = [('f0', 'u64', {})]
    nd = any(ty in NO_DEFAULT for _, ty, _ in fs) or chance(.4)
    t = Struct(nm, make_fields(fs, shape == 'tuple'), array=shape == 'array', tuple=shape == 'tuple', unknown=chance(.25) and shape != 'tuple', no_default=nd)
    if t.no_default: NO_DEFAULT.add(nm)
    if shape == 'map': MAPS[nm] = {f.key for f in t.fields if not f.skip}
    RANDOM.append(t)
    if chance(.5): LEAF.append(nm)
    if not nd and chance(.2): LEAF.append(f'Option<{nm}>')
EMBED = ['Child', 'Units']
for i in range(N_ENUMS):
    nm = f'E{i}'
    tag = rnd.choice(TAGS) if chance(.4) else None
    vs, keys, missing = [], set(), False
    for j in range(rnd.choice([1, 2, 3, 3, 4, 5])):
        vn = rnd.choice(['A', 'B', 'C', 'Num', 'Rec', 'Other', 'LongVariantNameHere', 'TheVariantNameOfMoreThan23Bytes', 'Z', 'Tuple', 'Gone', 'Free']) + str(j)
        kw = {}
        if chance(.35):
            k = rnd.choice(KEYS_STR + KEYS_INT)
            if k not in keys: kw['key'] = k
        k = kw.get('key', vn)
        if k in keys: continue
        keys.add(k)
        if tag is not None:
            kind = rnd.choice(['rec', 'rec', 'rec', 'new'])
            if kind == 'new':
                c = [m for m, ks in MAPS.items() if tag not in ks]
                v = Var(vn, new=rnd.choice(c), **kw)
            else:
                if not missing and chance(.2): kw['missing'] = missing = True
                v = Var(vn, make_fields(draw_fields(rnd.choice([0, 1, 2, 3, 4]), True, (tag,)), False), unknown=chance(.2), **kw)
        else:
            kind = rnd.choice(['bare', 'bare', 'new', 'rec', 'rec', 'tuple', 'array', 'unit', 'embed' if i > 5 else 'rec'])
            if kind == 'bare':
                if chance(.25) and 'key' not in kw:
                    d = rnd.choice([0, 1, 5, 23, 24, -1, -24, -25, 255, 256, 65536])
                    if d in keys: continue
                    keys.add(d)
                    kw['disc'] = d
                v = Var(vn, **kw)
            elif kind == 'new': v = Var(vn, new=rnd.choice(LEAF), **kw)
            elif kind == 'rec': v = Var(vn, make_fields(draw_fields(rnd.choice([0, 1, 2, 3, 4]), True), False), unknown=chance(.2), **kw)
            elif kind == 'tuple': v = Var(vn, make_fields(draw_fields(rnd.choice([2, 3, 4]), False), True), tuple=True, unknown=False, **kw)
            elif kind == 'array': v = Var(vn, make_fields(draw_fields(rnd.choice([1, 2, 3]), False), False), array=True, unknown=chance(.2), **kw)
            elif kind == 'unit': v = Var(vn, as_struct=True, unknown=chance(.2), **kw)
            else: v = Var(vn, new=rnd.choice(EMBED), embed=True)
        vs.append(v)
    if not vs: continue
    # Values of discriminants need plain variants throughout.
    if any(v.disc is not None for v in vs):
        vs = [v for v in vs if v.new is None and v.fields is None and not v.as_struct]
    t = Enum(nm, vs, tag=tag)
    NO_DEFAULT.add(nm)
    RANDOM.append(t)
    if tag is None and chance(.2) and not any(v.embed for v in vs): EMBED.append(nm)
    if chance(.4): LEAF.append(rnd.choice([nm, f'Vec<{nm}>', f'Option<{nm}>']))
    NO_DEFAULT.add(nm)
