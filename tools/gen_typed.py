#!/usr/bin/env python3
"""Generates spec/typed_gen.rs and contracts/typed_gen.ct: the repetitive parts (integers, tuples)."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
I = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
spec, ct, thm = [], [], []


def ty(name, M, m, byte=False, gen=''):
    spec.append(f'''impl{gen} Ty for {name} {{
    type M = {M};
    open spec fn m(self) -> {M} {{ {m} }}
    open spec fn is_byte() -> bool {{ {'true' if byte else 'false'} }}
    open spec fn byte(m: {M}) -> u8 {{ {"m as u8" if byte else "arbitrary()"} }}
    open spec fn of_byte(b: u8) -> {M} {{ {"b as int" if byte else "arbitrary()"} }}
}}
''')


for n in [*U, *I, 'u128']:
    ty(n, 'int', 'self as int', n == 'u8')
    ty('&' + n, 'int', '*self as int')
ty('bool', 'bool', 'self')
ty('char', 'int', 'self as int')
ty('String', 'Seq<char>', 'self@')
ty('&str', 'Seq<char>', 'self@')
ty('()', '()', '()')
ty('Value', 'V', 'vw(self)')
ty('Option<T>', 'Option<T::M>', 'match self { Some(x) => Some(x.m()), None => None }', gen='<T: Ty>')
ty('Vec<T>', 'Seq<T::M>', 'seqm(self@)', gen='<T: Ty>')
ty('[T; N]', 'Seq<T::M>', 'seqm(self@)', gen='<T: Ty, const N: usize>')
for c in ('BTreeMap', 'HashMap'):
    ty(f'{c}<K, T>', 'Map<K::M, T::M>', f'map_of(pairm(vx_items::<(K, T), {c}<K, T>>(self)))', gen='<K: Ty, T: Ty>')
for c in ('BTreeSet', 'HashSet'):
    ty(f'{c}<T>', 'Set<T::M>', f'seqm(vx_items::<T, {c}<T>>(self)).to_set()', gen='<T: Ty>')
for c, b in (('BTreeMap', ' + Ord'), ('HashMap', ' + Eq + std::hash::Hash')):
    spec.append(f'''/// Assumes that keys are equal exactly when they stand for the same thing.
impl<K: Ty{b}, T: Ty> Collected<(K, T)> for {c}<K, T> {{ open spec fn gathered(s: Seq<(K, T)>, r: Self) -> bool {{ r.m() == map_of(pairm(s)) }} }}
''')
for c, b in (('BTreeSet', ' + Ord'), ('HashSet', ' + Eq + std::hash::Hash')):
    spec.append(f'''/// Assumes that elements are equal exactly when they stand for the same thing.
impl<T: Ty{b}> Collected<T> for {c}<T> {{ open spec fn gathered(s: Seq<T>, r: Self) -> bool {{ r.m() == seqm(s).to_set() }} }}
''')
for k in range(1, 11):
    A = [f'A{i}' for i in range(k)]
    ty('(' + ', '.join(A) + ',)', '(' + ', '.join(a + '::M' for a in A) + ',)', '(' + ', '.join(f'self.{i}.m()' for i in range(k)) + ',)',
       gen='<' + ', '.join(a + ': Ty' for a in A) + '>')

for n in [*U, *I]:
    thm.append(f'''impl Codec for {n} {{
    open spec fn rt(&self) -> bool {{ true }}
    proof fn back(&self) {{}}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ true }}
    proof fn back_top(&self) {{}}
    open spec fn lost(&self) -> bool {{ false }}
    proof fn empty_law(&self) {{}}
}}
''')
for c in ('BTreeMap', 'HashMap'):
    b = ' + Ord' if c[0] == 'B' else ' + Eq + std::hash::Hash'
    thm.append(f'''impl<K: Codec{b}, T: Codec> Codec for {c}<K, T> {{
    open spec fn rt(&self) -> bool {{ rt_pairs(vx_items::<(K, T), {c}<K, T>>(*self)) }}
    proof fn back(&self) {{
        broadcast use {{axiom_keys_{c.lower()}, axiom_items_cap_{c.lower()}, axiom_cap_max}};
        let s = vx_items::<(K, T), {c}<K, T>>(*self);
        lemma_map_back(s);
        lemma_norm_unfold(self.e());
    }}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ self.rt() }}
    proof fn back_top(&self) {{}}
    open spec fn lost(&self) -> bool {{ false }}
    proof fn empty_law(&self) {{ let s = pairm(vx_items::<(K, T), {c}<K, T>>(*self)); assert(s =~= Seq::empty()); assert(map_of(s) == Map::<K::M, T::M>::empty()); }}
}}
/// Iteration yields every key once; keys are equal exactly when they stand for the same thing.
pub broadcast axiom fn axiom_keys_{c.lower()}<K: Ty, T: Ty>(m: {c}<K, T>) ensures diff_keys(#[trigger] vx_items::<(K, T), {c}<K, T>>(m));
pub broadcast axiom fn axiom_items_cap_{c.lower()}<K: Ty, T: Ty>(m: {c}<K, T>) ensures (#[trigger] vx_items::<(K, T), {c}<K, T>>(m)).len() <= vx_cap();
''')
for c in ('BTreeSet', 'HashSet'):
    b = ' + Ord' if c[0] == 'B' else ' + Eq + std::hash::Hash'
    thm.append(f'''impl<T: Codec{b}> Codec for {c}<T> {{
    open spec fn rt(&self) -> bool {{ forall|i: int| 0 <= i < vx_items::<T, {c}<T>>(*self).len() ==> (#[trigger] vx_items::<T, {c}<T>>(*self)[i]).rt() }}
    proof fn back(&self) {{
        broadcast use {{axiom_items_cap_{c.lower()}, axiom_cap_max}};
        let s = vx_items::<T, {c}<T>>(*self);
        lemma_seq_back(s);
        lemma_norm_unfold(self.e());
    }}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ self.rt() }}
    proof fn back_top(&self) {{}}
    open spec fn lost(&self) -> bool {{ false }}
    proof fn empty_law(&self) {{ let s = seqm(vx_items::<T, {c}<T>>(*self)); assert(s =~= Seq::empty()); assert(s.to_set() =~= Set::<T::M>::empty()); }}
}}
pub broadcast axiom fn axiom_items_cap_{c.lower()}<T: Ty>(m: {c}<T>) ensures (#[trigger] vx_items::<T, {c}<T>>(m)).len() <= vx_cap();
''')
for k in range(1, 11):
    A = [f'A{i}' for i in range(k)]
    r = range(k)
    thm.append(f'''impl<{', '.join(a + ': Codec' for a in A)}> Codec for ({', '.join(A)},) {{
    open spec fn rt(&self) -> bool {{ {' && '.join(f'self.{i}.rt()' for i in r)} }}
    proof fn back(&self) {{
        {' '.join(f'self.{i}.back();' for i in r)}
        let e = seq![{', '.join(f'self.{i}.e()' for i in r)}];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert({' && '.join(f'norms(e)[{i}] == norm(self.{i}.e())' for i in r)});
        lemma_wf_all_arr(e, {k});
    }}
    proof fn byte_law(&self) {{}}
    open spec fn rt_top(&self) -> bool {{ self.rt() }}
    proof fn back_top(&self) {{}}
    open spec fn lost(&self) -> bool {{ {' || '.join(f'self.{i}.lost()' for i in r)} }}
    proof fn empty_law(&self) {{ {' '.join(f'self.{i}.empty_law();' for i in r)} }}
}}
''')
open(f'{ROOT}/spec/typed_theorems_gen.rs', 'w').write('// Generated by tools/gen_typed.py: round trips of integers, maps, sets and tuples.\n' + ''.join(thm))

pg = []
for n, b in [*U.items(), *I.items()]:
    s = n[0] == 'i'
    lo, hi = (-2**(b-1), 2**(b-1)-1) if s else (0, 2**b-1)
    neg = f'z is N && {lo} <= z->N_0 <= {hi} ==> r is Ok && r->Ok_0 as int == z->N_0' if s else 'z is N ==> r is Err && r->Err_0 is UnexpectedType'
    wide = f'z is N && !({lo} <= z->N_0 <= {hi})' if s else 'false'
    pg.append(f'''pub fn c09_{n}(x: {n}, w: Value) {{
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == {"v_int(x as int)" if s else "V::U(x as int)"} && vw(u) == vw(v));
    let r = from_value::<{n}>(w);
    assert(z is U && z->U_0 <= {hi} ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert({neg});
    assert(z is U && z->U_0 > {hi} || {wide} ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = {n}::try_default();
    assert(d == Ok::<{n}, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}}
''')
for k in range(1, 11):
    A = [f'A{i}' for i in range(k)]
    t = '(' + ', '.join(A) + ',)'
    sl = lambda i: f'{A[i]}::d_from(z->A_0[{i}])'
    ok = ' && '.join(f'{sl(i)} is Ok' for i in range(k))
    pg.append(f'''/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple{k}<{', '.join(a + ': Decode' for a in A)}>(v: Value) requires !is_null(vw(v)) {{
    let ghost z = vw(v);
    let r = from_value::<{t}>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= {k} && {ok});
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    {' '.join(f"assert(r is Ok ==> r->Ok_0.{i}.m() == {sl(i)}->Ok_0);" for i in range(k))}
    {' '.join(f"assert(z is A && z->A_0.len() == {j}{''.join(f' && {sl(i)} is Ok' for i in range(j))} ==> r is Err && r->Err_0 is MissingField);" for j in range(k))}
    {' '.join(f"assert(z is A && z->A_0.len() > {j}{''.join(f' && {sl(i)} is Ok' for i in range(j))} && {sl(j)} is Err ==> r is Err && r->Err_0 == {sl(j)}->Err_0);" for j in range(k))}
}}
''')
open(f'{ROOT}/spec/typed_props_gen.rs', 'w').write('// Generated by tools/gen_typed.py: the properties of integers and tuples.\n' + ''.join(pg))

D, E = 'oasis_cbor::decode::', 'oasis_cbor::encode::'
for n, b in [*U.items(), *I.items()]:
    s = n[0] == 'i'
    d = f'd_int(v, {-2**(b-1)}, {2**(b-1)-1})' if s else f'd_uint(v, {2**b-1})'
    ct.append(f'''@impl {D}<{n} as Decode>
open spec fn d_def() -> R<int> {{ Ok(0) }}
open spec fn d_from(v: V) -> R<int> {{ {d} }}
@fn {D}<{n} as Decode>::try_default
@props C12
@fn {D}<{n} as Decode>::try_from_cbor_value
@props C09 C11
''')
    for r, m in (('', '*self'), ('&', '**self')):
        ct.append(f'''@impl {E}<{r}{n} as Encode>
open spec fn e(&self) -> V {{ {f"v_int({m} as int)" if s else f"V::U({m} as int)"} }}
open spec fn empty(&self) -> bool {{ {m} == 0 }}
open spec fn omit(&self) -> bool {{ self.empty() }}
@fn {E}<{r}{n} as Encode>::is_empty
@props C15
@fn {E}<{r}{n} as Encode>::into_cbor_value
@props C09
''')
for k in range(1, 11):
    T = [f'TupleElement{i}' for i in range(k)]
    t = '(' + ','.join(T) + (',' if k == 1 else '') + ')'
    M = '(' + ', '.join(a + '::M' for a in T) + ',)'

    def chain(f, tail):
        o = tail
        for i in reversed(range(k)):
            o = f'match {f(i)} {{ Err(e) => Err(e), Ok(x{i}) => {o} }}'
        return o
    res = 'Ok((' + ', '.join(f'x{i}' for i in range(k)) + ',))'
    ct.append(f'''@impl {D}<{t} as Decode>
open spec fn d_def() -> R<{M}> {{ {chain(lambda i: f'{T[i]}::d_def()', res)} }}
open spec fn d_from(v: V) -> R<{M}> {{ match v {{ V::A(a) => {chain(lambda i: f'slot::<{T[i]}>(a, {i})', res)}, _ => Err(DecodeError::UnexpectedType) }} }}
@fn {D}<{t} as Decode>::try_default
@props C12
@fn {D}<{t} as Decode>::try_from_cbor_value
@props C10 C11
@impl {E}<{t} as Encode>
open spec fn e(&self) -> V {{ V::A(seq![{', '.join(f'self.{i}.e()' for i in range(k))}]) }}
open spec fn empty(&self) -> bool {{ {' && '.join(f'self.{i}.empty()' for i in range(k))} }}
open spec fn omit(&self) -> bool {{ self.empty() }}
@fn {E}<{t} as Encode>::is_empty
@props C15
@fn {E}<{t} as Encode>::into_cbor_value
@props C10
@end
assert(vw(ret)->A_0 =~= self.e()->A_0);
''')
open(f'{ROOT}/spec/typed_gen.rs', 'w').write('// Generated by tools/gen_typed.py: the types and what they stand for.\n' + ''.join(spec))
open(f'{ROOT}/contracts/typed_gen.ct', 'w').write('//# Generated by tools/gen_typed.py.\n' + '\n'.join(ct))
