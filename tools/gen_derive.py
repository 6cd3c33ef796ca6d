#!/usr/bin/env python3
"""The catalogue of derived codecs: one table gives the declarations (harness/catalogue/src/derived.rs), what they
mean to the verifier (spec/derived_gen.rs, contracts/derived_gen.ct) and to the bridge (harness/src/derived_gen.rs)."""
import os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '// Generated by tools/gen_derive.py.\n'


class F:
    def __init__(s, name, ty, key=None, opt=False, skip=False, skip_if=None, enc=None, dec=None, w=None):
        s.name, s.ty, s.key, s.opt, s.skip, s.skip_if, s.enc, s.dec = name, ty, (name if key is None else key), opt, skip, skip_if, enc, dec
        s.renamed = key is not None
        s.w = w or ty

    def attrs(s):
        a = []
        if s.renamed: a.append(f'rename = {lit(s.key)}')
        if s.opt: a.append('optional')
        if s.skip: a.append('skip')
        if s.skip_if: a.append(f'skip_serializing_if = "{s.skip_if}"')
        if s.enc: a.append(f'serialize_with = "{s.enc}"')
        if s.dec: a.append(f'deserialize_with = "{s.dec}"')
        return f'#[cbor({", ".join(a)})] ' if a else ''

    def w_of(s, x): return f'{s.enc}_s({x})' if s.enc else x


def lit(k): return f'"{k}"' if isinstance(k, str) else str(k)


class Rec:
    """Fields in a map, in an array, or none at all."""
    def __init__(s, p, fields, shape, unknown=False, tuple=False, gen=None):
        s.p, s.fields, s.shape, s.unknown, s.tuple, s.gen = p, fields, shape, unknown, tuple, gen
        s.live = [f for f in fields if not f.skip]
        s.canon = sorted(s.live, key=lambda f: keyorder(f.key)) if shape == 'map' else s.live


class Struct:
    def __init__(s, name, fields, array=False, unknown=False, no_default=False, transparent=False, tuple=False, unit=False, gen=None, nc=False):
        s.name, s.transparent, s.no_default, s.tuple, s.unit, s.gen, s.array, s.unknown = name, transparent, no_default, tuple, unit, gen, array, unknown
        s.fields = fields
        shape = 'unit' if unit else 'array' if array or tuple else 'map'
        s.rec = Rec(snake(name), fields, shape, unknown, tuple, gen)
        s.default = not no_default


class Var:
    def __init__(s, name, fields=None, new=None, tuple=False, key=None, disc=None, array=False, as_struct=False, skip=False, embed=False, unknown=False, missing=False, default=False, braces=False):
        s.name, s.fields, s.new, s.tuple, s.key, s.disc, s.array, s.as_struct, s.skip, s.embed, s.unknown, s.missing, s.default, s.braces = name, fields, new, tuple, key, disc, array, as_struct, skip, embed, unknown, missing, default, braces
        s.k = name if key is None else key

    def attrs(s):
        a = []
        if s.key is not None: a.append(f'rename = {lit(s.key)}')
        for n, b in (('as_array', s.array), ('as_struct', s.as_struct), ('skip', s.skip), ('embed', s.embed), ('allow_unknown', s.unknown), ('missing', s.missing)):
            if b: a.append(n)
        return ('#[default] ' if s.default else '') + (f'#[cbor({", ".join(a)})] ' if a else '')


class Enum:
    def __init__(s, name, vars, tag=None, untagged=False, with_default=False, no_decode=False):
        s.name, s.vars, s.tag, s.untagged, s.with_default, s.tagged = name, vars, tag, untagged, with_default, tag is not None
        s.no_decode = no_decode or untagged
        s.gen = None
        s.default = with_default
        for v in vars:
            v.p = snake(name) + '_' + snake(v.name)
            v.bare = v.fields is None and v.new is None and not v.as_struct and tag is None and not untagged
            if v.fields is None and v.new is None and untagged: v.bare = True
            if v.new is None and not v.bare:
                shape = 'unit' if v.fields is None else 'array' if v.array or v.tuple else 'map'
                v.rec = Rec(v.p, v.fields or [], shape, v.unknown, v.tuple)


def snake(n): return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()
def keyorder(k): return (0, k) if isinstance(k, int) else (1, len(k), k)


TAKEN = {}
exec(open(os.path.join(ROOT, 'tools', 'catalogue.py')).read())

# ---------------------------------------------------------------- declarations
D = ['//! Declarations that use the derive macros in every supported way.\n' + HEAD.replace('// ', '//! ') + '''#![allow(clippy::all)]
use oasis_cbor::{Decode, DecodeError, Encode, Value};

''']
D.append(HELPERS_RS)


def fields_rs(fields, tuple):
    if tuple: return '(' + ', '.join(f'{f.attrs()}{PUB}{f.ty}' for f in fields) + ')'
    return '{ ' + ', '.join(f'{f.attrs()}{PUB}{f.name}: {f.ty}' for f in fields) + ' }'


def declare(t, D):
    global PUB
    der = ['Clone', 'PartialEq', 'Debug'] + (['Default'] if t.default else []) + ['Encode'] + ([] if getattr(t, 'no_decode', False) else ['Decode'])
    a = []
    if isinstance(t, Struct):
        if t.transparent: a.append('transparent')
        if t.array: a.append('as_array')
        if t.unknown: a.append('allow_unknown')
        if t.no_default: a.append('no_default')
        PUB = 'pub '
        body = ';' if t.unit else ' ' + fields_rs(t.fields, t.tuple) + (';' if t.tuple else '')
        kind = 'struct'
    else:
        if t.tagged: a.append(f'tag = {lit(t.tag)}')
        if t.untagged: a.append('untagged')
        if t.with_default: a.append('with_default')
        PUB = ''
        vs = []
        for v in t.vars:
            x = v.attrs() + v.name
            if v.new: x += f'({v.new})'
            elif v.fields is not None: x += (' ' if not v.tuple else '') + fields_rs(v.fields, v.tuple)
            if v.disc is not None: x += f' = {v.disc}'
            vs.append('    ' + x + ',\n')
        body = ' {\n' + ''.join(vs) + '}'
        kind = 'enum'
    g = f'<{t.gen}: Encode + Decode>' if t.gen else ''
    D.append(f'#[derive({", ".join(der)})]\n' + (f'#[cbor({", ".join(a)})]\n' if a else '') + f'pub {kind} {t.name}{g}{body}\n')


for t in TYPES: declare(t, D)
open(f'{ROOT}/harness/catalogue/src/derived.rs', 'w').write(''.join(D))

# ---------------------------------------------------------------- what they mean
S, C = [], []
BY = {t.name: t for t in TYPES}
KEYS = {}


def bytes_of(s): return list(s.encode())


def kname(k):
    """The key as a specification function."""
    if k not in KEYS:
        KEYS[k] = f'k_{k}' if isinstance(k, str) and re.fullmatch('[A-Za-z0-9_]+', k) else f'k{len(KEYS)}_' if isinstance(k, str) else f'k_n{k}' if k >= 0 else f'k_m{-k}'
    return KEYS[k] + '()'


def dflt(ty):
    """What `Default::default()` stands for."""
    if ty in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'char'): return '0int'
    if ty == 'bool': return 'false'
    if ty == 'String': return 'Seq::<char>::empty()'
    if ty.startswith('Vec<'): return f'Seq::<<{ty[4:-1]} as Ty>::M>::empty()'
    if ty.startswith('Option<'): return f'None::<<{ty[7:-1]} as Ty>::M>'
    if ty in BY: return f'{snake(ty)}_default()'
    raise Exception(ty)


def ps(rec, byref=False): return ', '.join(f'{f.name}: {f.ty}' for f in rec.fields)
def names(rec): return ', '.join(f.name for f in rec.fields)
def tup(xs): xs = list(xs); return '(' + ', '.join(xs) + (',)' if len(xs) == 1 else ')')


def rec_spec(r):
    p = r.p
    G, GA = (f'<{r.gen}: Encode + Decode>', f'<{r.gen}>') if r.gen else ('', '')
    T = f'::{GA}' if r.gen else ''
    GP = f'<{r.gen}: Codec>' if r.gen else ''
    o = []
    o.append(f'pub type {p.upper()}{GA} = {tup(f"<{f.ty} as Ty>::M" for f in r.fields)};\n' if not r.gen else '')
    M = p.upper() if not r.gen else tup(f'<{f.ty} as Ty>::M' for f in r.fields)
    n = len(r.live)
    o.append(f'pub open spec fn {p}_m{G}({ps(r)}) -> {M} {{ {tup(f.name + ".m()" for f in r.fields)} }}\n')

    def entry(f):
        y = f.w_of(f.name)
        if f.opt and f.skip_if: return f'(if {f.skip_if}_s({f.name}) {{ None }} else {{ Some({y}.e()) }})'
        if f.opt: return f'(if {y}.omit() {{ None }} else {{ Some({y}.e()) }})'
        return f'Some({y}.e())'
    res = tup(f'm_{f.name}' if not f.skip else dflt(f.ty) for f in r.fields)
    # Encoding
    if r.shape == 'map':
        o.append(f'pub open spec fn {p}_d{G}({ps(r)}) -> Seq<KO> {{ ' + 'Seq::empty()' + ''.join(f'.push(({kname(f.key)}, {entry(f)}))' for f in r.live) + ' }\n')
        o.append(f'pub open spec fn {p}_e{G}({ps(r)}) -> V {{ V::M(ents({p}_d({names(r)}))) }}\n')
    elif r.shape == 'array':
        o.append(f'pub open spec fn {p}_a{G}({ps(r)}) -> Seq<V> {{ ' + 'Seq::empty()' + ''.join(f'.push({f.w_of(f.name)}.e())' for f in r.live) + ' }\n')
        o.append(f'pub open spec fn {p}_e{G}({ps(r)}) -> V {{ V::A({p}_a({names(r)})) }}\n')
    else:
        o.append(f'pub open spec fn {p}_e() -> V {{ V::M(Seq::empty()) }}\n')
    # Decoding
    if r.shape == 'unit':
        o.append(f'pub open spec fn {p}_dec(v: V) -> R<{M}> {{ match v {{ V::M(s) => {"Ok(())" if r.unknown else "if s.len() > 0 { Err(DecodeError::UnknownField) } else { Ok(()) }"}, _ => if is_null(v) {{ Ok(()) }} else {{ Err(DecodeError::UnexpectedType) }} }} }}\n')
    else:
        x = f'Ok::<{M}, DecodeError>({res})'
        x = x if r.unknown else f'if s.len() > 0 {{ Err::<{M}, DecodeError>(DecodeError::UnknownField) }} else {{ {x} }}'
        for f in reversed(r.canon):
            look = f'f_next::<{f.w}>(s)' if r.shape == 'array' else f'f_{"loose" if r.unknown else "strict"}::<{f.w}>(s, {kname(f.key)})'
            if f.dec: x = f'match {f.dec}_s(w_{f.name}) {{ Err(e) => Err(e), Ok(m_{f.name}) => {x} }}'
            x = f'match {look} {{ Err(e) => Err(e), Ok(({"w_" if f.dec else "m_"}{f.name}, s)) => {x} }}'
        st = 'V' if r.shape == 'array' else 'KV'
        o.append(f'#[verifier::opaque]\npub open spec fn {p}_take{G}(s: Seq<{st}>) -> R<{M}> {{ {x} }}\n')
        pat = 'V::A(s) => ' + f'{p}_take{T}(s)' if r.shape == 'array' else 'V::M(s) => ' + f'{p}_take{T}(tsort(s))'
        o.append(f'pub open spec fn {p}_dec{G}(v: V) -> R<{M}> {{ match v {{ {pat}, _ => Err(DecodeError::UnexpectedType) }} }}\n')
    # Round trip

    def rt(f):
        if f.skip: return f'{f.name}.m() == {dflt(f.ty)}'
        y = f.w_of(f.name)
        c = [f'{y}.rt_top()']
        if f.dec or f.enc: c.append(f'{f.dec}_s({y}.m()) == Ok::<<{f.ty} as Ty>::M, DecodeError>({f.name}.m())' if f.dec else f'{y}.m() == {f.name}.m()')
        if f.opt and f.skip_if: c.append(f'({f.skip_if}_s({f.name}) ==> d_top::<{f.w}>(null()) == Ok::<<{f.w} as Ty>::M, DecodeError>({y}.m()))')
        elif f.opt: c.append(f'!{y}.lost()')
        return ' && '.join(c)
    GR = GP or G
    o.append(f'pub open spec fn {p}_rt{GR}({ps(r)}) -> bool {{ ' + ('\n    &&& '.join([''] + [rt(f) for f in r.fields]) if r.fields else 'true') + ' }\n')
    back = f'''pub proof fn {p}_back{GP}({ps(r)})
    requires {p}_rt({names(r)})
    ensures {p}_dec{T}({p}_e({names(r)})) == Ok::<{M}, DecodeError>({p}_m({names(r)})), {p}_dec{T}(norm({p}_e({names(r)}))) == Ok::<{M}, DecodeError>({p}_m({names(r)})), wf({p}_e({names(r)})), !has_dup({p}_e({names(r)}))
'''
    wps = ', '.join(f'w_{f.name}: <{f.w} as Ty>::M' for f in r.canon)
    wms = ''.join(f', m_{f.name}: <{f.ty} as Ty>::M' for f in r.canon if f.dec)
    okres = tup((f'm_{f.name}' if f.dec else f'w_{f.name}') if not f.skip else dflt(f.ty) for f in r.fields)
    decs = ''.join(f', {f.dec}_s(w_{f.name}) == Ok::<<{f.ty} as Ty>::M, DecodeError>(m_{f.name})' for f in r.canon if f.dec)
    args = ', '.join(f'{f.w_of(f.name)}.m()' for f in r.canon) + ''.join(f', {f.name}.m()' for f in r.canon if f.dec)
    if r.shape == 'map' and n:
        ks = [kname(f.key) for f in r.canon]
        o.append(f'pub open spec fn {p}_ks() -> Seq<V> {{ seq![{", ".join(ks)}] }}\n')
        o.append(f'''pub proof fn {p}_keys()
    ensures {", ".join([f"plain({k})" for k in ks] + [f"ord({ks[i]}, {ks[j]}) is Less" for i in range(n) for j in range(i + 1, n)])}
{{
''' + ''.join(less(r.canon[i].key, r.canon[j].key) for i in range(n) for j in range(i + 1, n)) + ''.join(f'    {KEYS[f.key]}_lit();\n' for f in r.canon if isinstance(f.key, str)) + '}\n')
        o.append(f'''proof fn {p}_chain{GP}(l: Seq<KO>, {wps}{wms})
    requires rising(l), l.len() == {n}{"".join(f", l[{i}].0 == {ks[i]}, d_top::<{f.w}>(or_null(l[{i}].1)) == Ok::<<{f.w} as Ty>::M, DecodeError>(w_{f.name})" for i, f in enumerate(r.canon))}{decs}
    ensures {p}_take{T}(ents(l)) == Ok::<{M}, DecodeError>({okres})
{{
    
    reveal({p}_take); let l0 = l;
''' + ''.join(f'    lemma_field_step::<{f.w}>(l{i}, w_{f.name}); let l{i + 1} = l{i}.drop_first();{" assert(l%d[0] == l[%d]);" % (i + 1, i + 1) if i + 1 < n else ""}\n' for i, f in enumerate(r.canon)) + f'''    assert(l{n}.len() == 0); assert(ents(l{n}).len() == 0) by {{ reveal_with_fuel(ents, 1); }}
}}
''')
        pos = {f.name: i for i, f in enumerate(r.live)}
        cpos = {f.name: i for i, f in enumerate(r.canon)}
        perm = [pos[f.name] for f in r.canon]
        inv = [cpos[f.name] for f in r.live]
        o.append(f'''{back}{{
    
    {p}_keys();
''' + ''.join(fieldlemma(f) for f in r.live) + f'''    let dd = {p}_d({names(r)});
    let ll: Seq<KO> = seq![{", ".join(f"dd[{i}]" for i in perm)}];
    lemma_rearranged(dd, ll, seq![{", ".join(f"{i}int" for i in perm)}], seq![{", ".join(f"{i}int" for i in inv)}]);
    assert(rising(ll)) by {{ reveal(rising); }}
    lemma_map_fields(dd, ll);
    {p}_chain{T}(ll, {args});
    {p}_chain{T}(normo(ll), {args});
}}
''')
        # Presence, strictness, order
        o.append(f'''/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_{p}{GP}({ps(r)})
    ensures {", ".join(f"lookup(ents({p}_d({names(r)})), {kname(f.key)}) == {entry(f)}" for f in r.live)}
{{
    
    {p}_keys();
    let dd = {p}_d({names(r)});
{"".join(f"    lemma_ord_refl({k});" for k in ks)}
    assert(apart(dd));
{"".join(f"    lemma_lookup_ents(dd, {i});" for i in range(n))}
}}
''')
        if not r.unknown:
            o.append(f'''/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_{p}{G}(s: Seq<KV>)
    ensures {p}_dec{T}(V::M(s)) is Ok ==> declared(s, {p}_ks()), {p}_dec{T}(V::M(s)) is Ok ==> {p}_found{T}(s)
{{
    
    if {p}_dec{T}(V::M(s)) is Ok {{
        {p}_keys(); reveal({p}_take);
        let s0 = tsort(s);
''' + ''.join(f'        let s{i + 1} = f_strict::<{f.w}>(s{i}, {kname(f.key)})->Ok_0.1;\n' for i, f in enumerate(r.canon)) + f'''        let q{n} = Seq::<V>::empty();
        lemma_declared_none(s{n}, q{n});
''' + ''.join(f'        let q{i} = seq![{", ".join(ks[i:])}]; assert(q{i}.drop_first() =~= q{i + 1}); lemma_declared_step::<{r.canon[i].w}>(s{i}, q{i});\n' for i in reversed(range(n))) + f'''        lemma_declared_any(s, q0);
        assert(q0 =~= {p}_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
''' + ''.join(f'        lemma_strict_loose::<{f.w}>(s{i}, {kname(f.key)}); lemma_loose_step::<{f.w}>(s{i}, {kname(f.key)});\n' for i, f in enumerate(r.canon)) + '''    }
}
''')
        else:
            o.append(f'''/// Unknown keys are ignored wherever they sort; every field from the entry of its key.
pub proof fn c14_{p}{G}(s: Seq<KV>)
    requires distinct_keys(s)
    ensures {p}_dec{T}(V::M(s)) is Ok ==> {p}_found{T}(s), {" && ".join(f"d_top::<{f.w}>(or_null(lookup(s, {kname(f.key)}))) is Ok" + (f" && {f.dec}_s(d_top::<{f.w}>(or_null(lookup(s, {kname(f.key)})))->Ok_0) is Ok" if f.dec else "") for f in r.canon)} ==> {p}_dec{T}(V::M(s)) is Ok
{{
    
    {p}_keys(); reveal({p}_take);
    lemma_sort_lookup(s);
    let s0 = tsort(s);
''' + ''.join(f'    lemma_loose_step::<{f.w}>(s{i}, {kname(f.key)}); if f_loose::<{f.w}>(s{i}, {kname(f.key)}) is Ok {{ let s{i + 1} = f_loose::<{f.w}>(s{i}, {kname(f.key)})->Ok_0.1;\n' for i, f in enumerate(r.canon)) + '}' * n + '''}
''')
        fnd = []
        for i, f in enumerate(r.fields):
            if f.skip: continue
            want = f'd_top::<{f.w}>(or_null(lookup(s, {kname(f.key)})))'
            got = f'{p}_dec{T}(V::M(s))->Ok_0.{i}'
            fnd.append(f'{want} == Ok::<<{f.w} as Ty>::M, DecodeError>({got})' if not f.dec else f'{want} is Ok && {f.dec}_s({want}->Ok_0) == Ok::<<{f.ty} as Ty>::M, DecodeError>({got})')
        o.append(f'pub open spec fn {p}_found{G}(s: Seq<KV>) -> bool {{ {" && ".join(fnd)} }}\n')
        o.append(f'''pub proof fn c14_{p}_order{G}(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures {p}_dec{T}(V::M(s)) == {p}_dec{T}(V::M(t))
{{ lemma_tsort_same(s, t); }}
''')
    elif r.shape == 'map':
        o.append(f'{back}{{ lemma_no_entries(); reveal({p}_take); }}\n')
    elif r.shape == 'array':
        o.append(f'''proof fn {p}_chain{GP}(s: Seq<V>, {wps}{wms})
    requires s.len() == {n}{"".join(f", d_top::<{f.w}>(s[{i}]) == Ok::<<{f.w} as Ty>::M, DecodeError>(w_{f.name})" for i, f in enumerate(r.canon))}{decs}
    ensures {p}_take{T}(s) == Ok::<{M}, DecodeError>({okres})
{{
    
    reveal({p}_take); let s0 = s;
''' + ''.join(f'    lemma_next_step::<{f.w}>(s{i}, w_{f.name}); let s{i + 1} = s{i}.drop_first();\n' for i, f in enumerate(r.canon)) + '}\n')
        o.append(f'''{back}{{
    
''' + ''.join(fieldlemma(f) for f in r.live) + f'''    let aa = {p}_a({names(r)});
    lemma_arr_fields(aa);
    {p}_chain{T}(aa, {args});
    {p}_chain{T}(norms(aa), {args});
}}
''')
        o.append(f'''/// As many elements as there are fields.
pub proof fn c14_{p}{G}(v: V)
    ensures {p}_dec{T}(v) is Ok ==> v is A && v->A_0.len() {">=" if r.unknown else "=="} {n}
{{ reveal({p}_take); reveal(f_next); }}
''')
    else:
        o.append(f'''pub proof fn {p}_back()
    ensures {p}_dec({p}_e()) is Ok, norm({p}_e()) == {p}_e(), wf({p}_e()), !has_dup({p}_e())
{{ lemma_no_entries(); }}
''')
    return ''.join(o)


def less(a, b):
    if isinstance(a, int) or isinstance(b, int): return ''
    x, y = bytes_of(a), bytes_of(b)
    i = 0
    if len(x) == len(y):
        while x[i] == y[i]: i += 1
    return f'    lemma_text_less({bs(a)}, {bs(b)}, {i});\n'


def bs(s): return 'seq![' + ', '.join(f'{b}u8' for b in bytes_of(s)) + ']' if s else 'Seq::<u8>::empty()'


def fieldlemma(f):
    y = f.w_of(f.name)
    if f.opt and not f.skip_if: return f'    lemma_optional::<{f.w}>({y});\n'
    return f'    lemma_required::<{f.w}>({y});\n'


def ty_impl(name, M, m, gen=None):
    G = f'<{gen}: Encode + Decode>' if gen else ''
    n = f'{name}<{gen}>' if gen else name
    return f'''impl{G} Ty for {n} {{
    type M = {M};
    open spec fn m(self) -> {M} {{ {m} }}
    open spec fn is_byte() -> bool {{ false }}
    open spec fn byte(m: {M}) -> u8 {{ arbitrary() }}
    open spec fn of_byte(b: u8) -> {M} {{ arbitrary() }}
}}
'''


def strs(t):
    """String keys that the generated code names."""
    out = []
    def rec(r):
        if r.shape == 'map': out.extend(f.key for f in r.live)
    if isinstance(t, Struct):
        if not t.transparent: rec(t.rec)
    else:
        if t.tagged: out.append(t.tag)
        for v in t.vars:
            if v.disc is None or not v.bare: out.append(v.k)
            if hasattr(v, 'rec'): rec(v.rec)
    return [k for k in dict.fromkeys(out) if isinstance(k, str)]


def start(t, dec=False): return '@start\n' + reveals(t, dec) + '\nbroadcast use crate::derived::derived_facts;\nproof { ' + ' '.join(f'{kname(k)[:-2]}_lit();' for k in strs(t)) + (' lemma_vw_any(value);' if dec else '') + ' }\n'


def reveals(t, dec):
    rs = [t.rec] if isinstance(t, Struct) else [v.rec for v in t.vars if hasattr(v, 'rec') and not v.skip]
    if isinstance(t, Struct) and t.transparent: rs = []
    if not dec: return ''
    out = ''.join(f'reveal({r.p}_take); ' for r in rs if r.shape != 'unit')
    if any(r.shape == 'array' for r in rs): out += 'reveal(f_next); '
    if any(r.shape == 'map' and r.unknown for r in rs): out += 'reveal(f_loose); '
    if any(r.shape == 'map' and not r.unknown for r in rs): out += 'reveal(f_strict); '
    return out


def key(t, tr): return f'vx_catalogue::derived::<{t.name}{"<" + t.gen + ">" if t.gen else ""} as {tr}>'


def struct(t):
    r, p = t.rec, t.rec.p
    G = f'<{t.gen}: Encode + Decode>' if t.gen else ''
    T = f'::<{t.gen}>' if t.gen else ''
    GP = f'<{t.gen}: Codec>' if t.gen else ''
    n = f'{t.name}<{t.gen}>' if t.gen else t.name
    selfs = ', '.join(f'self.{i if t.tuple else f.name}' for i, f in enumerate(t.fields))
    S.append(f'\n// ------------------------------------------------------------------ {t.name}\n')
    if t.transparent:
        f = t.fields[0]
        M = f'(<{f.ty} as Ty>::M,)'
        S.append(ty_impl(t.name, M, '(self.0.m(),)'))
        e, omit, dec = 'self.0.e()', 'self.0.omit()', f'match d_top::<{f.ty}>(v) {{ Ok(m) => Ok((m,)), Err(e) => Err(e) }}'
        d = f'({dflt(f.ty)},)' if t.default else ''
        codec = f'''    open spec fn rt(&self) -> bool {{ self.0.rt_top() }}
    proof fn back(&self) {{ lemma_required(self.0); }}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ self.0.rt_top() && (is_null(self.e()) ==> Self::d_def() == Ok::<{M}, DecodeError>(self.m())) }}
    proof fn back_top(&self) {{ self.0.back_top(); }}
    open spec fn lost(&self) -> bool {{ self.omit() && Self::d_def() != Ok::<{M}, DecodeError>(self.m()) }}
    proof fn empty_law(&self) {{}}
'''
        emp = ''
    else:
        M = r.p.upper() if not t.gen else tup(f'<{f.ty} as Ty>::M' for f in r.fields)
        S.append(rec_spec(r))
        S.append(ty_impl(t.name, M, f'{p}_m({selfs})' if t.fields else '()', t.gen))
        dec = f'{p}_dec{T}(v)'
        d = tup(dflt(f.ty) for f in t.fields) if t.default else ''
        if t.unit:
            e, omit = 'null()', 'true'
            codec = '''    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
'''
        else:
            e, omit = f'{p}_e({selfs})', 'no_items(self.e())' if r.shape == 'map' else 'false'
            must = any(not f.opt for f in r.live) or r.shape != 'map'
            simple = all(not (f.skip or f.skip_if or f.enc) for f in r.fields) and t.default
            if must: lost, law = 'false', f'{p}_some({selfs});' if r.shape == 'map' else ''
            elif simple: lost, law = ' || '.join(f'self.{f.name}.lost()' for f in r.fields) or 'false', f'if self.omit() {{ {p}_none({selfs}); ' + ' '.join(f'self.{f.name}.empty_law();' for f in r.fields) + ' }'
            else: lost, law = f'self.omit() && Self::d_def() != Ok::<{M}, DecodeError>(self.m())', ''
            if must and r.shape == 'map':
                i = next(i for i, f in enumerate(r.live) if not f.opt)
                S.append(f'proof fn {p}_some{GP}({ps(r)}) ensures ents({p}_d({names(r)})).len() > 0 {{ lemma_ents_at({p}_d({names(r)})); assert({p}_d({names(r)})[{i}].1 is Some); }}\n')
            elif not must and simple and r.fields:
                S.append(f'proof fn {p}_none{GP}({ps(r)}) requires ents({p}_d({names(r)})).len() == 0 ensures {", ".join(f"{f.name}.omit()" for f in r.fields)} {{ lemma_ents_at({p}_d({names(r)})); ' + ' '.join(f'if !{f.name}.omit() {{ assert({p}_d({names(r)})[{i}].1 is Some); }}' for i, f in enumerate(r.fields)) + ' }\n')
            elif not must and simple: law = ''
            codec = f'''    open spec fn rt(&self) -> bool {{ {p}_rt{T}({selfs}) }}
    proof fn back(&self) {{ {p}_back({selfs}); }}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ self.rt() }}
    proof fn back_top(&self) {{}}
    open spec fn lost(&self) -> bool {{ {lost} }}
    proof fn empty_law(&self) {{ {law} }}
'''
    if t.default:
        S.append(f'pub open spec fn {p}_default() -> <{n} as Ty>::M {{ {d} }}\n')
        C.append(f'@keep {key(t, "Default")}\n@fn {key(t, "Default")}::default\n@props C12 C13\n@sig\nensures ret.m() == {p}_default()\n')
    ddef = f'Ok({p}_default())' if t.default else 'Err(DecodeError::MissingField)'
    S.append(f'impl{GP} Codec for {n} {{\n{codec}}}\n')
    C.append(f'''@impl {key(t, "Encode")}
open spec fn e(&self) -> V {{ {e} }}
open spec fn empty(&self) -> bool {{ false }}
open spec fn omit(&self) -> bool {{ {omit} }}
@fn {key(t, "Encode")}::into_cbor_value
@props C13 C15
{start(t)}@fn {key(t, "Encode")}::into_optional_cbor_value
@props C15
@impl {key(t, "Decode")}
open spec fn d_def() -> R<Self::M> {{ {ddef} }}
open spec fn d_from(v: V) -> R<Self::M> {{ {dec} }}
@fn {key(t, "Decode")}::try_from_cbor_value
@props C12 C13 C14
@attrs
#[verifier::spinoff_prover]
{start(t, True)}''')
    if t.default: C.append(f'@fn {key(t, "Decode")}::try_default\n@props C12\n')
    if r.shape == 'map' and not t.transparent:
        C.append(f'@impl {key(t, "EncodeAsMap")}\nproof fn as_map(&self) {{}}\n')


def ne(ks):
    """Proof that keys differ."""
    o = ''
    for i in range(len(ks)):
        for j in range(i + 1, len(ks)):
            a, b = ks[i], ks[j]
            if isinstance(a, str) and isinstance(b, str):
                x, y = bytes_of(a), bytes_of(b)
                if len(x) == len(y): o += f'    lemma_texts_differ({bs(a)}, {bs(b)}, {next(i for i in range(len(x)) if x[i] != y[i])});\n'
                else: o += f'    lemma_texts_differ({bs(a)}, {bs(b)}, 0);\n'
    return o


def enum(t):
    p, n = snake(t.name), t.name
    S.append(f'\n// ------------------------------------------------------------------ {n}\n')
    M = f'{n}M'
    tag = kname(t.tag) if t.tagged else None
    for v in t.vars:
        if hasattr(v, 'rec') and not v.skip: S.append(rec_spec(v.rec))

    def key_of(v): return v.disc if v.disc is not None and v.bare else v.k

    def payload(v):
        if v.new: return f'(<{v.new} as Ty>::M)'
        if v.fields is None: return ''
        return '(' + tup(f'<{f.ty} as Ty>::M' for f in v.fields) + ')'

    def pat(v, ty=n):
        if v.new: return f'{ty}::{v.name}(inner)'
        if v.fields is None: return f'{ty}::{v.name}'
        if v.tuple: return f'{ty}::{v.name}({", ".join(f.name for f in v.fields)})'
        return f'{ty}::{v.name} {{ {", ".join(f.name for f in v.fields)} }}'

    def args(v): return ', '.join(f.name for f in v.fields or [])

    def m(v):
        if v.new: return f'{M}::{v.name}(inner.m())'
        if v.fields is None: return f'{M}::{v.name}'
        return f'{M}::{v.name}({tup(f.name + ".m()" for f in v.fields)})'

    def inner(v): return 'inner.e()' if v.new else f'{v.p}_e({args(v)})'

    def e(v):
        if v.skip: return 'V::S(23)'
        if v.embed: return 'inner.e()'
        if v.bare: return kname(key_of(v))
        if t.untagged or v.missing: return inner(v)
        if t.tagged: return f'V::M(tagged({inner(v)}->M_0, {tag}, {kname(v.k)}))'
        return f'V::M(one({kname(v.k)}, {inner(v)}))'
    S.append(f'#[allow(inconsistent_fields)]\npub enum {M} {{ ' + ', '.join(v.name + payload(v) for v in t.vars) + ' }\n')
    S.append(ty_impl(n, M, 'match self { ' + ', '.join(f'{pat(v)} => {m(v)}' for v in t.vars) + ' }'))
    E_ = 'match *self { ' + ', '.join(f'{pat(v)} => {e(v)}' for v in t.vars) + ' }'
    live = [v for v in t.vars if not v.skip]
    bares = [v for v in live if v.bare and not v.embed]
    maps = [v for v in live if not v.bare and not v.embed]
    embs = [v for v in live if v.embed]
    asmap = not t.untagged and all(not v.skip and not v.embed and not v.bare for v in t.vars)
    begin = '@start\n' + reveals(t, False) + '\nbroadcast use crate::derived::derived_facts;\nproof { ' + ' '.join(f'{kname(k)[:-2]}_lit();' for k in strs(t))
    arms = ''
    if t.tagged:
        arms = ' match &self { ' + ' '.join(f'{pat(v)} => {{ inner.as_map(); }}' for v in maps if v.new) + ' _ => {} }' if any(v.new for v in maps) else ''
    C.append(f"""@impl {key(t, "Encode")}
open spec fn e(&self) -> V {{ {E_} }}
open spec fn empty(&self) -> bool {{ false }}
open spec fn omit(&self) -> bool {{ false }}
@fn {key(t, "Encode")}::into_cbor_value
@props C13 C15
{begin}{arms} }}
@fn {key(t, "Encode")}::into_optional_cbor_value
@props C15
""")
    if asmap:
        C.append(f'@impl {key(t, "EncodeAsMap")}\nproof fn as_map(&self) {{ ' + ('match *self { ' + ' '.join(f'{pat(v)} => {{ inner.as_map(); }}' for v in maps if v.new and v.missing) + ' _ => {} }' if any(v.new and v.missing for v in maps) else '') + ' }\n')
    if t.untagged: return

    def ok(v, w): return f'{M}::{v.name}({w})' if v.new or v.fields is not None else f'{M}::{v.name}'

    def dec(v, x):
        d = f'd_top::<{v.new}>({x})' if v.new else f'{v.p}_dec({x})'
        return f'match {d} {{ Ok(m) => Ok({ok(v, "m")}), Err(e) => Err(e) }}'
    unk = 'Err(DecodeError::UnknownField)'

    def emb(v):
        x = unk
        for w in reversed(embs): x = f'match d_top::<{w.new}>({v}) {{ Ok(m) => Ok({ok(w, "m")}), _ => {x} }}'
        return x

    def chain(vs, f, cond, last):
        x = last
        for v in reversed(vs): x = f'if {cond(v)} {{ {f(v)} }} else {{ {x} }}'
        return x
    if t.tagged:
        S.append(f'pub open spec fn {p}_by(k: V, x: V) -> R<{M}> {{ ' + chain(maps, lambda v: dec(v, 'x'), lambda v: f'k == {kname(v.k)} || k == V::S(23)' if v.missing else f'k == {kname(v.k)}', unk) + ' }\n')
        D_ = f'match v {{ V::M(s) => {p}_by(untag(s, {tag}).0, V::M(untag(s, {tag}).1)), _ => Err(DecodeError::UnexpectedType) }}'
    else:
        S.append(f'pub open spec fn {p}_bare(v: V) -> R<{M}> {{ ' + chain(bares, lambda v: f'Ok({ok(v, None)})', lambda v: f'v == {kname(key_of(v))}', emb('v')) + ' }\n')
        if maps:
            S.append(f'pub open spec fn {p}_by(k: V, x: V) -> R<{M}> {{ ' + chain(maps, lambda v: dec(v, 'x'), lambda v: f'k == {kname(v.k)}', emb('V::M(one(k, x))')) + ' }\n')
            D_ = f'match v {{ V::M(s) => if s.len() != 1 {{ {unk} }} else {{ {p}_by(s[0].0, s[0].1) }}, _ => {p}_bare(v) }}'
        else: D_ = f'{p}_bare(v)'
    S.append(f'pub open spec fn {p}_dec(v: V) -> R<{M}> {{ {D_} }}\n')
    if t.default:
        d = next(v for v in t.vars if v.default)
        S.append(f'pub open spec fn {p}_default() -> {M} {{ {M}::{d.name} }}\n')
        C.append(f'@keep {key(t, "Default")}\n@fn {key(t, "Default")}::default\n@props C12 C13\n@sig\nensures ret.m() == {p}_default()\n@fn {key(t, "Decode")}::try_default\n@props C12\n')
    ddef = f'Ok({p}_default())' if t.default else 'Err(DecodeError::MissingField)'
    # What an embedded value must not be taken for
    if embs:
        c = ' || '.join([f'v == {kname(key_of(v))}' for v in bares] + ['false'])
        cm = ' && '.join(['s.len() == 1'] + [f's[0].0 != {kname(v.k)}' for v in maps]) if maps else 'true'
        S.append(f'pub open spec fn {p}_own(v: V) -> bool {{ match v {{ V::M(s) => !({cm}), _ => {c} }} }}\n')

    def rt(v):
        if v.skip: return 'false'
        if v.bare: return 'true'
        if v.embed:
            return f'inner.rt_top() && !{p}_own(inner.e()) && !{p}_own(norm(inner.e()))' + ''.join(f' && d_top::<{w.new}>(inner.e()) is Err && d_top::<{w.new}>(norm(inner.e())) is Err' for w in embs[:embs.index(v)])
        if v.new:
            if t.tagged: return f'inner.rt_top() && inner.e() is M && tag_free(inner.e()->M_0, {tag}) && inner.e()->M_0.len() + 1 < two64()' + (f' && inner.rt()' if v.missing else '')
            return 'inner.rt_top()'
        return f'{v.p}_rt({args(v)})'

    def back(v):
        if v.skip: return ''
        if v.bare: return 'assert(norm(self.e()) == self.e());'
        if v.embed: return 'lemma_required(inner); assert(inner.e() is M ==> norm(inner.e()) is M && norm(inner.e())->M_0.len() == inner.e()->M_0.len()) by { lemma_norm_unfold(inner.e()); if inner.e() is M { lemma_nsort(normm(inner.e()->M_0)); } } lemma_only(inner.e()); lemma_only(norm(inner.e()));'
        o = 'lemma_required(inner); ' if v.new else f'{v.p}_back({args(v)}); '
        i = inner(v)
        if t.tagged:
            if not v.new:
                if v.rec.live: o += f'lemma_tag_free({v.p}_d({args(v)}), {tag}); '
                if v.rec.shape == 'unit' or not v.rec.live: o += 'lemma_no_entries(); '
            if v.missing: o += f'lemma_no_tag({i}->M_0, {tag}); lemma_tagged({i}->M_0, {tag}, {kname(v.k)}); lemma_still_free({i}->M_0, {tag}); lemma_no_tag(norm({i})->M_0, {tag}); '
            else: o += f'lemma_tagged({i}->M_0, {tag}, {kname(v.k)}); '
        else: o += f'lemma_one({kname(v.k)}, {i}); '
        return o
    ks = [t.tag] if t.tagged else []
    for v in live:
        if not v.embed: ks.append(key_of(v))
    S.append(f"""pub proof fn {p}_differ()
    ensures {", ".join(f"{kname(a)} != {kname(b)}" for i, a in enumerate(ks[1:] if t.tagged else ks) for b in (ks[1:] if t.tagged else ks)[i + 1:]) or "true"}{"".join(f", {kname(f.key)} != {tag}" for v in live if hasattr(v, "rec") and v.rec.shape == "map" for f in v.rec.live) if t.tagged else ""}
{{
{ne(ks[1:] if t.tagged else ks)}{"".join(ne([t.tag, f.key]) for v in live if hasattr(v, "rec") and v.rec.shape == "map" for f in v.rec.live) if t.tagged else ""}}}
""")
    lits = ' '.join(f'{kname(k)[:-2]}_lit();' for k in dict.fromkeys(ks) if isinstance(k, str))
    S.append(f"""impl Codec for {n} {{
    open spec fn rt(&self) -> bool {{ match *self {{ {", ".join(f"{pat(v)} => {rt(v)}" for v in t.vars)} }} }}
    proof fn back(&self) {{
        {p}_differ(); {lits}
        match *self {{ {" ".join(f"{pat(v)} => {{ {back(v)} }}" for v in t.vars)} }}
    }}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<{M}, DecodeError>(self.m())) }}
    proof fn back_top(&self) {{}}
    open spec fn lost(&self) -> bool {{ false }}
    proof fn empty_law(&self) {{}}
}}
""")
    rv = reveals(t, True)
    cl = f"@closure 0\n|p0: &(usize, &(Value, Value))| -> (r: bool) ensures r == (vw(p0.1.0) == {tag})\n" if t.tagged else ''
    C.append(f"""@impl {key(t, "Decode")}
open spec fn d_def() -> R<Self::M> {{ {ddef} }}
open spec fn d_from(v: V) -> R<Self::M> {{ {p}_dec(v) }}
@fn {key(t, "Decode")}::try_from_cbor_value
@props C12 C13 C14
@attrs
#[verifier::spinoff_prover]
@start
{rv}
broadcast use crate::derived::derived_facts;
proof {{ {" ".join(f"{kname(k)[:-2]}_lit();" for k in strs(t))} lemma_vw_any(value); }}
{cl}""")


ORDER = TYPES
for t in TYPES:
    if isinstance(t, Struct): struct(t)
    else: enum(t)

lits = []
for k, n in list(KEYS.items()):
    if isinstance(k, str):
        lits.append(f'pub open spec fn {n}() -> V {{ V::T({bs(k)}) }}\npub proof fn {n}_lit() ensures V::T(encode_utf8("{k}"@)) == {n}(), plain({n}()) {{ reveal_strlit("{k}"); lemma_key("{k}", {bs(k)}); }}\n')
    else:
        lits.append(f'pub open spec fn {n}() -> V {{ {"V::U" if k >= 0 else "V::N"}({k}) }}\n')
PRE = '''use crate::spec::*;
use crate::lemmas::*; use crate::lemmas_order::*; use crate::lemmas_norm::*; use crate::lemmas_writer::*; use crate::lemmas_code::*; use crate::map_access::*;
use crate::stdspec::*;
use crate::typed::*; use crate::typed_lemmas::*; use crate::typed_theorems::*; use crate::typed_props::*; use crate::derived::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::{Encode, EncodeAsMap};
use crate::vx_catalogue::derived::*;
use vstd::seq_lib::*; use vstd::multiset::*;
use vstd::utf8::*;
'''
open(f'{ROOT}/spec/derived_gen.rs', 'w').write(HEAD + PRE + HELPERS_SPEC + ''.join(lits) + ''.join(S))
open(f'{ROOT}/contracts/derived_gen.ct', 'w').write(f'''@mod vx_catalogue::derived
use crate::spec::*; use crate::stdspec::*; use crate::typed::*; use crate::typed_lemmas::*; use crate::derived::*; use crate::derived_gen::*;
use crate::oasis_cbor_value::values::SimpleValue;
use crate::oasis_cbor::encode::EncodeAsMap;
''' + HELPERS_CT + ''.join(C))

# ---------------------------------------------------------------- the bridge
B = [HEAD + 'use crate::{derived::*, gen::*, model::*, typed::*};\n#[allow(unused_imports)]\nuse oasis_cbor::Value;\nuse vx_catalogue::derived::*;\n\n']


def bkey(k): return f'V::t({lit(k)})' if isinstance(k, str) else f'V::int({k})'


def b_items(fields, shape, get):
    """Statements that build the item."""
    o = ''
    for f in fields:
        if f.skip: continue
        y = f'm_{f.enc}(&{get(f)})' if f.enc else get(f)
        if shape == 'array': o += f'xs.push({y}.item()); '
        elif f.opt and f.skip_if: o += f'if !m_{f.skip_if}(&{get(f)}) {{ es.push(({bkey(f.key)}, {y}.item())) }} '
        elif f.opt: o += f'if !{y}.omit() {{ es.push(({bkey(f.key)}, {y}.item())) }} '
        else: o += f'es.push(({bkey(f.key)}, {y}.item())); '
    return f'{{ let mut xs: Vec<V> = vec![]; {o}V::A(xs) }}' if shape == 'array' else f'{{ let mut es: Vec<(V, V)> = vec![]; {o}V::M(es) }}'


def b_dec(fields, shape, make, unknown):
    if shape == 'unit': return f'unit(v, {str(unknown).lower()}).map(|_| {make([])})'
    o, vals, i = '', [], 0
    for f in fields:
        if f.skip: vals.append((f, 'Default::default()')); continue
        if shape == 'array': x = f'top::<{f.w}>(a.get({i}).ok_or(D::Missing)?)?'; i += 1
        else: x = f'field::<{f.w}>(m, &{bkey(f.key)})?'
        if f.dec: x = f'm_{f.dec}({x})?'
        vals.append((f, x))
    ks = ', '.join(bkey(f.key) for f in fields if not f.skip)
    if shape == 'array': return f'{{ let a = elements(v, {i}, {str(unknown).lower()})?; Ok({make(vals)}) }}'
    return f'{{ let m = entries(v, &[{ks}], {str(unknown).lower()})?; Ok({make(vals)}) }}'


def b_rt(fields, get):
    c = []
    for f in fields:
        x = get(f)
        if f.skip: c.append(f'{x} == <{f.ty} as Default>::default()'); continue
        y = f'm_{f.enc}(&{x})' if f.enc else x
        c.append(f'{y}.rt_top()')
        if f.dec or f.enc: c.append(f'm_{f.dec}({y}).as_ref() == Ok(&{x})' if f.dec else f'{y} == {x}')
        if f.opt and f.skip_if: c.append(f'(!m_{f.skip_if}(&{x}) || <{f.w} as Ty>::def() == Ok({y}.clone()))')
        elif f.opt: c.append(f'(!{y}.omit() || <{f.w} as Ty>::def() == Ok({y}.clone()))')
    return ' && '.join(c) or 'true'


def b_make(name, tuple, unit=False):
    def mk(vals):
        if unit: return name
        if tuple: return f'{name}({", ".join(x for _, x in vals)})'
        return f'{name} {{ {", ".join(f.name + ": " + x for f, x in vals)} }}'
    return mk


def arb(f): return f'if r.p(1, 2) {{ Default::default() }} else {{ <{f.ty} as Ty>::arb(r, d) }}' if f.skip else f'<{f.ty} as Ty>::arb(r, d.saturating_sub(1))'


def b_struct(t, B):
    g, n = ('<T: Ty>', f'{t.name}<T>') if t.gen else ('', t.name)
    mk = b_make(t.name, t.tuple, t.unit)
    shape = t.rec.shape
    get = lambda f: f'self.{t.fields.index(f)}' if t.tuple else f'self.{f.name}'
    if t.transparent:
        ty = t.fields[0].ty
        item, dec = 'self.0.item()', f'top::<{ty}>(v).map({t.name})'
        rt, omit = 'self.0.rt_top()', 'self.0.omit()'
        top = 'self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self))'
    else:
        item = 'V::null()' if t.unit else b_items(t.fields, shape, get)
        dec = b_dec(t.fields, shape, mk, t.unknown)
        rt = b_rt(t.fields, get)
        omit = 'true' if t.unit else 'self.item() == V::M(vec![])'
        top = 'self.rt()'
    keys = '' if t.transparent or shape != 'map' else ', '.join(bkey(f.key) for f in t.rec.live)
    B.append(f'''impl{g} Ty for {n} {{
    fn arb(r: &mut Rng, d: u32) -> Self {{ let _ = (&r, d); {mk([(f, arb(f)) for f in t.fields])} }}
    fn item(&self) -> V {{ {item} }}
    fn dec(v: &V) -> DR<Self> {{ {dec} }}
    fn def() -> DR<Self> {{ {"Ok(Default::default())" if t.default else "Err(D::Missing)"} }}
    fn empty(&self) -> bool {{ false }}
    fn omit(&self) -> bool {{ {omit} }}
    fn rt(&self) -> bool {{ {rt} }}
    fn rt_top(&self) -> bool {{ {top} }}
    fn keys() -> Vec<V> {{ vec![{keys}] }}
    fn loose() -> bool {{ {str(t.unknown).lower()}{"".join(f" || <{f.ty} as Ty>::loose()" for f in t.fields)} }}
}}
''')


def b_enum(t, B):
    n = t.name
    def pat(v):
        if v.new: return f'{n}::{v.name}(inner)'
        if v.fields is None: return f'{n}::{v.name}'
        if v.tuple: return f'{n}::{v.name}({", ".join(f.name for f in v.fields)})'
        return f'{n}::{v.name} {{ {", ".join(f.name for f in v.fields)} }}'
    def shape(v): return 'map' if v.fields is None else v.rec.shape if hasattr(v, 'rec') else 'map'
    def key_of(v): return v.disc if v.disc is not None and v.bare else v.k
    def inner(v): return 'inner.item()' if v.new else b_items(v.fields or [], shape(v), lambda f: f'(*{f.name})' if False else f.name)
    def item(v):
        if v.skip: return 'V::S(23)'
        if v.embed: return 'inner.item()'
        if v.bare: return bkey(key_of(v))
        if t.untagged or v.missing: return inner(v)
        if t.tagged: return f'with_tag({inner(v)}, {bkey(t.tag)}, {bkey(v.k)})'
        return f'V::M(vec![({bkey(v.k)}, {inner(v)})])'
    def arb1(v):
        if v.new: return f'{n}::{v.name}(<{v.new} as Ty>::arb(r, d.saturating_sub(1)))'
        return b_make(f'{n}::{v.name}', v.tuple, v.fields is None)([(f, arb(f)) for f in v.fields or []])
    live = [v for v in t.vars if not v.skip]
    bares = [v for v in live if v.bare and not v.embed]
    maps = [v for v in live if not v.bare and not v.embed]
    embs = [v for v in live if v.embed]
    arbs = f'match r.below({len(t.vars)}) {{ ' + ' '.join(f'{i} => {arb1(v)},' if i + 1 < len(t.vars) else f'_ => {arb1(v)},' for i, v in enumerate(t.vars)) + ' }'
    items = 'match self { ' + ' '.join(f'{pat(v)} => {item(v)},' for v in t.vars) + ' }'
    items = re.sub(r'&(\w+)\)', r'\1)', items) if False else items
    if t.untagged:
        B.append(f'#[allow(unused_variables)]\nimpl Shape for {n} {{\n    fn arb(r: &mut Rng, d: u32) -> Self {{ {arbs} }}\n    fn item(&self) -> V {{ {items} }}\n}}\n')
        return
    def dec1(v):
        if v.new: return f'top::<{v.new}>(v).map({n}::{v.name})'
        return b_dec(v.fields or [], 'unit' if v.fields is None else shape(v), b_make(f'{n}::{v.name}', v.tuple, v.fields is None), v.unknown)
    emb = ''.join(f'if let Ok(x) = top::<{v.new}>(whole) {{ return Ok({n}::{v.name}(x)) }} ' for v in embs)
    if t.tagged:
        arms = ''.join(f'if k == {bkey(v.k)}{" || k == V::S(23)" if v.missing else ""} {{ return {dec1(v)} }} ' for v in maps)
        dec = f'let (k, v) = untag(v, &{bkey(t.tag)})?; let v = &v; {arms}Err(D::Unknown)'
    else:
        arms = ''.join(f'if k == &{bkey(v.k)} {{ return {dec1(v)} }} ' for v in maps)
        m = f'V::M(m) => {{ if m.len() != 1 {{ return Err(D::Unknown) }} let (k, v) = &m[0]; let _ = (k, v); {arms}{emb}}} ' if maps else ''
        dec = f'let whole = v; let _ = whole; match v {{ {m}_ => {{ ' + ''.join(f'if *v == {bkey(key_of(v))} {{ return Ok({n}::{v.name}) }} ' for v in bares) + f'{emb}}} }} Err(D::Unknown)'
    def rt(v):
        if v.skip: return 'false'
        if v.bare: return 'true'
        if v.embed: return 'inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self)'
        if v.new: return 'inner.rt_top()'
        return b_rt(v.fields or [], lambda f: f'(*{f.name})')
    ks = list(dict.fromkeys([bkey(v.k) for v in maps] + [bkey(f.key) for v in maps if hasattr(v, 'rec') for f in v.rec.live] + ([bkey(t.tag)] if t.tagged else [])))
    loose = any(v.unknown for v in t.vars)
    B.append(f'''#[allow(unused_variables)]
impl Ty for {n} {{
    fn arb(r: &mut Rng, d: u32) -> Self {{ {arbs} }}
    fn item(&self) -> V {{ {items} }}
    fn dec(v: &V) -> DR<Self> {{ {dec} }}
    fn def() -> DR<Self> {{ {"Ok(Default::default())" if t.default else "Err(D::Missing)"} }}
    fn empty(&self) -> bool {{ false }}
    fn rt(&self) -> bool {{ match self {{ {" ".join(f"{pat(v)} => {rt(v)}," for v in t.vars)} }} }}
    fn rt_top(&self) -> bool {{ self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }}
    fn keys() -> Vec<V> {{ vec![{", ".join(ks)}] }}
    fn others() -> Vec<V> {{ vec![{", ".join(bkey(key_of(v)) for v in bares)}] }}
    fn loose() -> bool {{ {str(loose).lower()}{"".join(f" || <{v.new} as Ty>::loose()" for v in t.vars if v.new)}{"".join(f" || <{f.ty} as Ty>::loose()" for v in t.vars for f in v.fields or [])} }}
}}
''')


def b_all(types, B):
    for t in types: (b_struct if isinstance(t, Struct) else b_enum)(t, B)
    names = [t.name + ('<u64>' if t.gen else '') for t in types if not getattr(t, 'untagged', False)] + [f'{t.name}<{x}>' for t in types if t.gen for x in ('Option<bool>', 'Plain')]
    B.append('pub fn declarations() -> Vec<Decl> { vec![' + ', '.join(f'decl::<{n}>("{n}")' for n in names) + '] }\n')


b_all(TYPES, B)
open(f'{ROOT}/harness/src/derived_gen.rs', 'w').write(''.join(B))

# ---------------------------------------------------------------- more declarations, drawn at random, for the bridge only
exec(open(os.path.join(ROOT, 'tools', 'random_catalogue.py')).read())
RD = ['//! Declarations drawn at random: only run, not part of the proof.\n' + HEAD.replace('// ', '//! ') + '#![allow(clippy::all)]\nuse oasis_cbor::{Decode, Encode, Value};\nuse std::collections::BTreeMap;\nuse vx_catalogue::derived::*;\n\n']
for t in RANDOM: declare(t, RD)
open(f'{ROOT}/harness/random/src/lib.rs', 'w').write(''.join(RD))
RB = [HEAD + '#![allow(unused)]\nuse crate::{derived::*, gen::*, model::*, typed::*};\n#[allow(unused_imports)]\nuse oasis_cbor::Value;\nuse std::collections::BTreeMap;\nuse vx_catalogue::derived::*;\nuse vx_random::*;\n\n']
b_all(RANDOM, RB)
open(f'{ROOT}/harness/src/random_gen.rs', 'w').write(''.join(RB))
