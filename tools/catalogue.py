# The declarations. Executed by gen_derive.py.
HELPERS_RS = '''/// Helpers that attributes name.
pub fn is_zero(x: &u64) -> bool { *x == 0 }
pub fn is_odd(x: &u64) -> bool { *x % 2 == 1 }
pub fn enc_cap(x: &u64) -> u64 { if *x > 1000 { 1000 } else { *x } }
pub fn dec_small(x: u16) -> Result<u16, DecodeError> { if x < 1000 { Ok(x) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub fn enc_plus(x: &u64) -> u128 { *x as u128 + 1 }
pub fn dec_plus(x: u128) -> Result<u64, DecodeError> { if 1 <= x && x <= u64::MAX as u128 + 1 { Ok((x - 1) as u64) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub fn enc_not(x: &bool) -> bool { !*x }
pub fn dec_not(x: bool) -> Result<bool, DecodeError> { Ok(!x) }
'''
HELPERS_SPEC = '''pub open spec fn is_zero_s(x: u64) -> bool { x == 0 }
pub open spec fn is_odd_s(x: u64) -> bool { x % 2 == 1 }
pub open spec fn enc_cap_s(x: u64) -> u64 { if x > 1000 { 1000 } else { x } }
pub open spec fn dec_small_s(x: int) -> R<int> { if x < 1000 { Ok(x) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub open spec fn enc_plus_s(x: u64) -> u128 { (x + 1) as u128 }
pub open spec fn dec_plus_s(x: int) -> R<int> { if 1 <= x <= 0x1_0000_0000_0000_0000 { Ok(x - 1) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub open spec fn enc_not_s(x: bool) -> bool { !x }
pub open spec fn dec_not_s(x: bool) -> R<bool> { Ok(!x) }
'''
HELPERS_CT = '''@fn vx_catalogue::derived::is_zero
@props C15
@sig
ensures ret == is_zero_s(*x)
@fn vx_catalogue::derived::is_odd
@props C15
@sig
ensures ret == is_odd_s(*x)
@fn vx_catalogue::derived::enc_cap
@props C13
@sig
ensures ret == enc_cap_s(*x)
@fn vx_catalogue::derived::dec_small
@props C13
@sig
ensures dm(ret) == dec_small_s(x as int)
@fn vx_catalogue::derived::enc_plus
@props C13
@sig
ensures ret == enc_plus_s(*x)
@fn vx_catalogue::derived::dec_plus
@props C13
@sig
ensures dm(ret) == dec_plus_s(x as int)
@fn vx_catalogue::derived::enc_not
@props C13
@sig
ensures ret == enc_not_s(*x)
@fn vx_catalogue::derived::dec_not
@props C13
@sig
ensures dm(ret) == dec_not_s(x)
'''
TYPES = [
    Struct('Plain', [F('zeta', 'u64'), F('alpha', 'String'), F('mid', 'Vec<u8>')]),
    Struct('Opt', [F('must', 'u64'), F('n', 'u64', opt=True), F('b', 'bool', opt=True), F('s', 'String', opt=True)], no_default=True),
    Struct('OptMore', [F('v', 'Vec<u16>', opt=True), F('d', 'Value', opt=True), F('t', '(u64, bool)', opt=True)], no_default=True),
    Struct('Renamed', [F('first', 'u64', key='b'), F('second', 'bool', key=300), F('third', 'Option<bool>', key=7), F('plain', 'u8')]),
    Struct('AllOpt', [F('x', 'u64', opt=True), F('y', 'Option<bool>', opt=True)]),
    Struct('Nested', [F('inner', 'Plain'), F('list', 'Vec<AllOpt>'), F('maybe', 'Option<Plain>')]),
    Struct('OptNested', [F('inner', 'AllOpt', opt=True), F('unit', 'Unit', opt=True), F('plain', 'Plain', opt=True)]),
    Struct('Unit', [], unit=True),
    Struct('EmptyBraces', []),
    Struct('AsArr', [F('a', 'u64'), F('hidden', 'u64', skip=True), F('z', 'Option<String>')], array=True),
    Struct('LooseArr', [F('a', 'u64'), F('b', 'bool')], array=True, unknown=True),
    Struct('Tup', [F('f0', 'u64'), F('f1', 'Option<bool>'), F('f2', 'String')], tuple=True),
    Struct('NewT', [F('f0', 'u64')], tuple=True),
    Struct('Trans', [F('f0', 'u64')], tuple=True, transparent=True),
    Struct('TransOpt', [F('f0', 'Option<Plain>')], tuple=True, transparent=True),
    Struct('Loose', [F('a', 'u64'), F('z', 'Option<bool>', opt=True), F('k', 'u8', key=7)], unknown=True),
    Struct('NoDef', [F('a', '[u64; 2]')], no_default=True),
    Struct('HoldsNoDef', [F('a', 'NoDef'), F('o', 'Option<NoDef>')], no_default=True),
    Struct('Skips', [F('a', 'u64'), F('h', 'String', skip=True), F('i', 'Option<u8>', skip=True), F('z', 'bool')]),
    Struct('SkipIf', [F('a', 'u64', opt=True, skip_if='is_zero'), F('b', 'u64', opt=True, skip_if='is_odd'), F('c', 'u64')]),
    Struct('With', [F('p', 'u64', enc='enc_plus', dec='dec_plus', w='u128'), F('q', 'bool', opt=True, enc='enc_not', dec='dec_not')], no_default=True),
    Struct('LongNames', [F('zeta_zeta_zeta_zeta_zeta', 'u64'), F('alpha_alpha_alpha_alpha_alpha', 'u64', opt=True), F('mid', 'bool', key='name of 23 bytes exactly'[:23]), F('e', 'u8', key='')]),
    Struct('BigKeys', [F('e', 'u64', key=18446744073709551615), F('d', 'u8', key=4294967296), F('c', 'bool', key=65536), F('text', 'u64'), F('b', 'u64', key=256, opt=True), F('a', 'Option<u64>', key=24), F('z', 'u64', key=0)]),
    Struct('TupMix', [F('f0', 'u64'), F('f1', 'u8', skip=True), F('f2', 'u64', enc='enc_plus', dec='dec_plus', w='u128'), F('f3', 'u16', dec='dec_small')], tuple=True),
    Struct('ArrMix', [F('h', 'u8', skip=True), F('b', 'bool', enc='enc_not', dec='dec_not'), F('a', 'Option<bool>', opt=True)], array=True),
    Struct('Codecs', [F('cap', 'u64', enc='enc_cap'), F('small', 'u16', dec='dec_small', opt=True), F('both', 'u64', enc='enc_plus', dec='dec_plus', w='u128', opt=True, skip_if='is_zero', key=9)], no_default=True),
    Struct('LooseCodecs', [F('b', 'bool', enc='enc_not', dec='dec_not'), F('a', 'u16', dec='dec_small', opt=True), F('h', 'u8', skip=True), F('k', 'u64', opt=True, skip_if='is_odd')], unknown=True, no_default=True),
    Struct('LooseUnit', [], unit=True, unknown=True),
    Struct('EmptyTup', [], tuple=True),
    Struct('EmptyArr', [], array=True),
    Struct('TransBytes', [F('f0', 'Vec<u8>')], tuple=True, transparent=True),
    Struct('TransOpt2', [F('f0', 'AllOpt')], tuple=True, transparent=True),
    Struct('HasTrans', [F('b', 'TransBytes', opt=True), F('o', 'TransOpt2', opt=True), F('l', 'Vec<TransBytes>'), F('m', 'Option<LooseUnit>')], no_default=True),
    Struct('ArrSkips', [F('h', 'u8', skip=True), F('a', 'u64'), F('i', 'u64', skip=True), F('b', 'u64')], array=True),
    Struct('TupSkips', [F('f0', 'u8', skip=True), F('f1', 'u64'), F('f2', 'u64', skip=True), F('f3', 'Option<u64>')], tuple=True),
    Struct('Gen', [F('one', 'T'), F('o', 'Option<T>')], no_default=True, gen='T'),
    Enum('Units', [Var('A'), Var('B', key='bee'), Var('C'), Var('D', key=5)]),
    Enum('Disc', [Var('A', disc=0), Var('B', disc=-3), Var('C', disc=300), Var('D', disc=70000, default=True)], with_default=True),
    Enum('Mixed', [Var('Nothing'), Var('New', new='u64'), Var('Pair', [F('f0', 'u64'), F('f1', 'Option<bool>')], tuple=True), Var('Rec', [F('b', 'u64'), F('a', 'Option<String>', opt=True)], key='r'), Var('Gone', new='u64', skip=True)]),
    Enum('Shapes', [Var('Arr', [F('x', 'u64'), F('h', 'u8', skip=True), F('y', 'bool')], array=True), Var('Braces', []), Var('AsStruct', as_struct=True)]),
    Enum('More', [Var('Hide', [F('a', 'u64'), F('h', 'u8', skip=True)]), Var('Deep', new='Plain'), Var('Free', [F('a', 'u64')], unknown=True)]),
    Enum('Child', [Var('One'), Var('Two', new='u64'), Var('Three', [F('n', 'u64')])]),
    Enum('Parent', [Var('Own'), Var('Two', new='bool'), Var('Kid', new='Child', embed=True)]),
    Enum('OnlyUnits', [Var('Own'), Var('Kid', new='Child', embed=True)]),
    Enum('Tagged', [Var('Deep', new='Plain'), Var('Rec', [F('b', 'u64'), F('a', 'Option<String>', opt=True)], key='r'), Var('Nothing')], tag='v'),
    Enum('Fallback', [Var('Free', [F('a', 'u64')], unknown=True), Var('Rest', [F('a', 'u64')], missing=True)], tag='v'),
    Enum('TagNum', [Var('One', [F('a', 'u64')], key=1), Var('Two', new='AllOpt', key=2)], tag=0),
    Enum('Bare', [Var('Num', new='u64'), Var('Rec', [F('a', 'u64'), F('b', 'bool', opt=True)]), Var('Nothing'), Var('Gone', skip=True)], untagged=True),
    Enum('LongVars', [Var('AVariantNameOfMoreThan23Bytes'), Var('AnotherVariantNameOfMoreThan23Bytes', new='u64'), Var('Num', new='bool', key=24), Var('Big', key=4294967296), Var('X', key='', new='u8')]),
    Enum('DiscNames', [Var('A', key='a', disc=24), Var('B', disc=-25), Var('C', disc=23), Var('D', key=7, disc=256)]),
    Enum('VarMix', [Var('Tup', [F('f0', 'u64', enc='enc_plus', dec='dec_plus', w='u128'), F('f1', 'u8', skip=True), F('f2', 'bool')], tuple=True), Var('Arr', [F('x', 'u16', dec='dec_small'), F('y', 'Option<u8>')], array=True, unknown=True), Var('EmptyTup', [], tuple=True), Var('LooseUnit', as_struct=True, unknown=True)]),
    Enum('VarRec', [Var('Rec', [F('b', 'bool', enc='enc_not', dec='dec_not', key=3), F('n', 'u64', opt=True, skip_if='is_zero'), F('o', 'u8', opt=True)]), Var('Loose', [F('n', 'u16', dec='dec_small', opt=True)], unknown=True)]),
    Enum('Kids', [Var('Own', key='o'), Var('Num', new='Units', embed=True), Var('Kid', new='Child', embed=True), Var('Rec', [F('a', 'u64')], key='r')]),
    Enum('TagDisc', [Var('A', disc=1), Var('B', key='b', disc=2), Var('LooseC', disc=3, unknown=True)], tag='t'),
    Enum('TagMid', [Var('Rec', [F('a', 'u64'), F('zz', 'u64')]), Var('Opt', [F('l', 'u64', key=3), F('yy', 'u64', opt=True)])], tag='m'),
    Enum('SkipShapes', [Var('Tup', [F('f0', 'u8', skip=True), F('f1', 'u64'), F('f2', 'u64', skip=True), F('f3', 'u64')], tuple=True), Var('Arr', [F('h', 'u8', skip=True), F('x', 'u64'), F('y', 'u64')], array=True)]),
    Enum('FallNew', [Var('One', [F('a', 'u64')]), Var('Rest', new='Plain', missing=True), Var('Gone', [F('a', 'u64')], skip=True)], tag='kind of tag that is longer'),
    Struct('HasEnums', [F('u', 'Units'), F('m', 'Option<Mixed>'), F('t', 'Vec<Tagged>'), F('c', 'Disc', opt=True)], no_default=True),
]
