"""Which contract translation units decide which property."""
from collections import namedtuple
_TU = namedtuple('TU', 'file name std defs flags tier')
def TU(file, std='c++17', defs=(), flags=(), tier='quick'):
    tag = file.rsplit('.', 1)[0] + ':' + std + ''.join(':' + d for d in defs) + ''.join(':' + f for f in flags)
    return _TU(file, tag, std, tuple(defs), tuple(flags), tier)
def ops(sel, std='c++17', extra=(), tier='quick'): return TU('ops.cpp', std, ('VP_SEL=%d' % sel,) + tuple(extra), (), tier)
S1 = ('VP_SET=1',)
MIN = ('BOOST_VARIANT_MINIMIZE_SIZE',)
S7 = ('VP_SET=1', 'VP_STATES=7')
def stds(sel, tier='quick'): return [ops(sel, s, (), tier) for s in ('c++11', 'c++20')]
def more(sel): return [ops(sel, 'c++11', S7, 'thorough'), ops(sel, 'c++14', S1, 'thorough'), ops(sel, 'c++17', S7, 'thorough'), ops(sel, 'c++20', S7, 'thorough'), ops(sel, 'c++17', S1 + ('NDEBUG',), 'thorough'), ops(sel, 'c++17', S1 + ('BOOST_VARIANT_MINIMIZE_SIZE',), 'thorough')]
def each(file, defs=(), quick=('c++17',), tier='thorough'): return [TU(file, s, defs, (), 'quick' if s in quick else tier) for s in ('c++11', 'c++14', 'c++17', 'c++20')]
CONV = [TU('c15.cpp', 'c++17', ('VP_PART=1',)), TU('c15.cpp', 'c++17', ('VP_PART=2',))]
PROPS = {
    'C01': [ops(15 + 16, 'c++17', S1), ops(15, 'c++17', MIN), TU('huge.cpp', 'c++17', MIN), TU('huge.cpp', 'c++17', (), (), 'thorough')] + stds(15) + more(15 + 32) + CONV + [TU('c07.cpp', 'c++17', ('VP_BIG',)), TU('c20.cpp')],
    'C02': [ops(15 + 16, 'c++17', S1)] + stds(15) + more(15 + 32) + [TU('c13.cpp'), TU('c20.cpp'), TU('c17.cpp'), TU('c08.cpp', 'c++17', ('VP_PART=2',))] + CONV,
    'C03': [ops(1, 'c++17', S1), TU('constc.cpp'), TU('constc.cpp', 'c++11')] + stds(1) + more(1),
    'C04': [ops(4, 'c++17', S1), ops(4, 'c++17', MIN)] + stds(4) + more(4),
    'C05': [ops(4, 'c++17', S1), ops(4, 'c++17', MIN)] + stds(4) + more(4) + CONV,
    'C06': [ops(8, 'c++17', S1), ops(8, 'c++17', MIN)] + stds(8) + more(8),
    'C07': each('c07.cpp', (), ('c++11', 'c++17')) + [TU('c07.cpp', 'c++17', ('VP_BIG',)), TU('c07.cpp', 'c++17', ('BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=2',)), TU('huge.cpp', 'c++17', MIN), TU('constc.cpp'), TU('constc.cpp', 'c++11')],
    'C08': [TU('c08.cpp', 'c++17', ('VP_PART=%d' % p,), (), 'quick') for p in range(5)] + [TU('c08.cpp', 'c++11', ('VP_PART=0',))] + [TU('c08.cpp', s, ('VP_PART=%d' % p,), (), 'thorough') for s in ('c++14', 'c++20') for p in range(3)],
    'C09': each('c09.cpp', (), ('c++11', 'c++17')) + [TU('c09.cpp', 'c++17', ('BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT',)), TU('c17.cpp'), TU('constc.cpp')],
    'C10': each('c10.cpp', (), ('c++11', 'c++17')) + [TU('c10.cpp', 'c++17', ('BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT',))],
    'C11': each('c11.cpp', (), ('c++11', 'c++17')) + [TU('c11.cpp', 'c++17', ('VP_ORDER',), (), 'thorough'), TU('c17.cpp'), TU('constc.cpp')],
    'C12': each('c12.cpp', (), ('c++11', 'c++17')),
    'C13': each('c13.cpp', (), ('c++11', 'c++17')),
    'C14': each('c14.cpp', (), ('c++11', 'c++17')) + [TU('c14.cpp', 'c++17', ('BOOST_VARIANT_MINIMIZE_SIZE',)), ops(13, 'c++17', S1)] + more(13),
    'C15': each('c15.cpp', ('VP_PART=1',), ('c++11', 'c++17')) + each('c15.cpp', ('VP_PART=2',), ('c++11', 'c++17')),
    'C16': each('c16.cpp', (), ('c++11', 'c++17')) + [ops(15, 'c++17', S1), TU('c13.cpp')] + CONV + more(15),
    'C17': each('c17.cpp', (), ('c++11', 'c++17')),
    'C18': each('c18.cpp', (), ('c++11', 'c++17')),
    'C19': each('c19.cpp', (), ('c++11', 'c++17')),
    'C20': each('c20.cpp', (), ('c++11', 'c++17')),
}
TRUSTED = ['engine/lcv.cpp (VC generator, memory/lifetime/exception model)', 'Z3 4.8.12', 'clang 18 front end (C++ to LLVM IR)', 'contracts/*.hpp (the specifications)']
ASSUMPTIONS = [
    'content types obey the contracts of contracts/vp.hpp (destructors do not throw; == and hash are functions of the value)',
    'the verified text is the clang-18 IR of the headers; g++ code is only exercised by the native replay and the thorough cross-validation',
    'the library templates are verified for the listed configurations of bounded types, not for every possible type list',
]
EXTRA_ASSUMPTIONS = {}
# properties that also answer for the operations and observers that establish the pre-states
STRICT = {'C01', 'C02', 'C07', 'C09'}
