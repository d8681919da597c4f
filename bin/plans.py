"""What is built and run for each property."""
ASAN = ['-fsanitize=address', '-DBOOST_USE_UCONTEXT', '-DBOOST_USE_ASAN', '-g1', '-fno-omit-frame-pointer']
UBSAN = ['-fsanitize=undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']
CONFIGS = {
    # quick
    'g11':    {'cc': ['g++', '-std=c++11', '-O2']},                                        # C++11 branch, assertions, fcontext
    'g17n':   {'cc': ['g++', '-std=c++17', '-O3', '-DNDEBUG']},                            # C++14 branch, optimised, fcontext
    'asan20': {'cc': ['clang++', '-std=c++20', '-O1'] + ASAN, 'cost': 3, 'batch': 250},    # C++14 branch, ucontext, AddressSanitizer
    'asan11': {'cc': ['clang++', '-std=c++11', '-O1'] + ASAN, 'cost': 3, 'batch': 250},    # C++11 branch, ucontext, AddressSanitizer
    # thorough
    'g20':    {'cc': ['g++', '-std=c++20', '-O2', '-D_GLIBCXX_ASSERTIONS']},
    'g14':    {'cc': ['g++', '-std=c++14', '-O0']},
    'c11':    {'cc': ['clang++', '-std=c++11', '-O3', '-DNDEBUG']},
    'c14':    {'cc': ['clang++', '-std=c++14', '-O2']},
    'c20n':   {'cc': ['clang++', '-std=c++20', '-O3', '-DNDEBUG']},
    'uc17':   {'cc': ['g++', '-std=c++17', '-O2', '-DBOOST_USE_UCONTEXT']},
    'seg17':  {'cc': ['g++', '-std=c++17', '-O2', '-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS', '-DBOOST_USE_UCONTEXT']},
    'seg11':  {'cc': ['g++', '-std=c++11', '-O2', '-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS', '-DBOOST_USE_UCONTEXT']},
    'ub14':   {'cc': ['clang++', '-std=c++14', '-O1'] + ASAN + UBSAN, 'cost': 4, 'batch': 250},
    'ub11':   {'cc': ['clang++', '-std=c++11', '-O1'] + ASAN + UBSAN, 'cost': 4, 'batch': 250},
    'gasan17': {'cc': ['g++', '-std=c++17', '-O1'] + ASAN, 'cost': 2, 'batch': 250},
    'tsan20': {'cc': ['clang++', '-std=c++20', '-O1', '-g1', '-fsanitize=thread', '-DBOOST_USE_UCONTEXT', '-DBOOST_USE_TSAN'], 'cost': 3, 'batch': 50},
    'alt17':  {'cc': ['g++', '-std=c++17', '-O2', '-DBOOST_NO_CXX14_GENERIC_LAMBDAS']},          # C++11 branch with std::invoke
    'alt20n': {'cc': ['clang++', '-std=c++20', '-O2', '-DNDEBUG', '-DBOOST_NO_CXX14_GENERIC_LAMBDAS']},
    'noalign': {'cc': ['g++', '-std=c++14', '-O2', '-DBOOST_NO_CXX11_STD_ALIGN']},               # branch without std::align
    'g11e':   {'cc': ['g++', '-std=c++11', '-O1', '-fno-elide-constructors']},                    # every elidable move is made
    'g23':    {'cc': ['g++', '-std=c++23', '-Os', '-fstack-protector-all', '-D_GLIBCXX_DEBUG']},
    'c2b':    {'cc': ['clang++', '-std=c++2b', '-Os', '-fstack-protector-all']},
    'tsan11': {'cc': ['clang++', '-std=c++11', '-O1', '-g1', '-fsanitize=thread', '-DBOOST_USE_UCONTEXT', '-DBOOST_USE_TSAN'], 'cost': 3, 'batch': 50},
}
COMMON = [('engine.cpp', []), ('world.cpp', []), ('fiber_uc.cpp', [])]
HARNESSES = {
    'hist': [('hist.cpp', [])] + [('hist_kind.cpp', ['-DKIND=%d' % k]) for k in range(7)] + COMMON,
    'xfer': [('xfer.cpp', [])] + [('xfer_part.cpp', ['-DPART=%d' % k]) for k in range(5)] + COMMON,
    'iter': [('iter.cpp', [])] + COMMON,
    'callable': [('callable.cpp', [])] + [('callable_part.cpp', ['-DPART=%d' % k]) for k in range(6)] + COMMON,
    'mem': [('mem.cpp', [])] + COMMON,
    'pipe': [('pipe.cpp', [])] + COMMON,
    'fault': [('fault.cpp', [])] + COMMON,
    'threads': [('threads.cpp', [])] + COMMON,
    'alloc': [('alloc.cpp', [])] + COMMON,
    'scale': [('scale.cpp', [])] + COMMON,
    'exc': [('exc.cpp', [])] + COMMON,
}
ASPECT = {n: 1 << i for i, n in enumerate('CONTROL FRAME VALUE VALID EXC UNWIND STACK PAYLOAD FUNCTOR ITER ALIGN STABLE FAULT THREAD PIPE MOVE ALLOC'.split())}


def M(s):
    m = 0
    for n in s.split():
        m |= ASPECT[n]
    return m


# harnesses that bring their own stack memory, or rely on frames that gcc's split stacks cannot unwind
NOSEG = {'exc', 'callable', 'mem', 'fault', 'alloc', 'scale'}
LEVEL = {'C15': 'fault_enumeration'}
# relative speed of the builds (cases per second compared to g11)
SPEED = {'seg17': 0.4, 'seg11': 0.4, 'asan20': 0.1, 'asan11': 0.1, 'ub14': 0.07, 'ub11': 0.07, 'gasan17': 0.1, 'tsan20': 0.1, 'tsan11': 0.1, 'uc17': 0.4, 'g14': 0.5}
Q = ['g11', 'g17n', 'asan20']
T = ['g11', 'g17n', 'asan20', 'asan11', 'g20', 'g14', 'c11', 'c14', 'c20n', 'uc17', 'seg17', 'seg11', 'ub14', 'ub11', 'gasan17']


G = ['g11', 'g17n']     # harnesses that a quick run leaves out of the slow build; [] = only in thorough runs


def plan(mask, parts, quick=Q, thorough=T, qn=0.6, tn=12.0):
    """parts: (harness, profile, cases of the g11 quick run[, builds of the quick run])"""
    def items(cfgs, f, is_quick):
        r = []
        for part in parts:
            h, p, n = part[:3]
            for c in (part[3] if is_quick and len(part) > 3 else cfgs):
                if c.startswith('seg') and h in NOSEG:
                    continue
                r.append((h, p, M(mask), c, max(64, int(n * f * SPEED.get(c, 1.0)))))
        # slow builds first
        return sorted(r, key=lambda i: SPEED.get(i[3], 1.0))
    return {'quick': items(quick, qn, True), 'thorough': items(thorough, tn, False)}


_SG = ('scale', 'scale', 1600, G)
_CG, _XG = ('callable', 'callable', 150000, ['g17n']), ('xfer', 'xfer', 60000, [])
PLANS = {
    'C01': plan('VALUE', [('xfer', 'xfer', 400000), ('hist', 'value', 150000), ('hist', 'mixed', 50000), _SG]),
    'C02': plan('CONTROL FRAME', [('hist', 'control', 200000), ('hist', 'mixed', 80000), ('hist', 'compose', 60000), _CG, _XG, _SG]),
    'C03': plan('VALID', [('hist', 'valid', 220000), ('hist', 'mixed', 80000), ('hist', 'move', 60000), _CG, _XG, _SG]),
    'C04': plan('EXC', [('hist', 'exc', 220000), ('exc', 'exc', 120000), ('hist', 'mixed', 60000), ('hist', 'compose', 60000), _CG, _SG]),
    'C05': plan('UNWIND', [('hist', 'unwind', 220000), ('hist', 'mixed', 60000), ('hist', 'compose', 60000), _CG, _SG]),
    'C06': plan('STACK', [('hist', 'stack', 220000), ('hist', 'mixed', 60000), ('hist', 'fault', 60000), _CG, ('alloc', 'alloc', 12000, G), _SG]),
    'C07': plan('PAYLOAD', [('hist', 'payload', 220000), ('hist', 'mixed', 60000), ('hist', 'fault', 60000), ('xfer', 'xfer', 100000, G), ('fault', 'fault', 8000), _SG]),
    'C08': plan('FUNCTOR', [('callable', 'callable', 1500000), ('hist', 'functor', 100000), ('hist', 'mixed', 40000), _SG]),
    'C09': plan('MOVE CONTROL VALID STACK UNWIND VALUE PAYLOAD', [('hist', 'move', 350000), ('xfer', 'stable', 60000, []), _SG]),
    'C10': plan('ITER', [('iter', 'iter', 1200000)]),
    'C11': plan('ALIGN STACK FRAME FUNCTOR', [('mem', 'mem', 150000)], quick=['g11', 'g17n', 'ub14', 'asan11']),
    'C12': plan('PIPE CONTROL VALUE VALID EXC FRAME', [('pipe', 'pipe', 160000), ('hist', 'compose', 60000), ('scale', 'scale', 4000, G)]),
    'C13': plan('STABLE VALUE', [('xfer', 'stable', 800000), ('hist', 'value', 60000)]),
    'C15': plan('FAULT EXC STACK PAYLOAD FUNCTOR UNWIND VALUE VALID', [('fault', 'fault', 40000), ('hist', 'fault', 120000), ('exc', 'exc', 40000)]),
    'C16': plan('THREAD', [('threads', 'threads', 150000)], quick=['g11', 'g17n', 'tsan20', 'tsan11'], thorough=['g11', 'g17n', 'tsan20', 'tsan11', 'c14', 'uc17', 'asan20', 'asan11', 'c20n']),
    'C17': plan('ALLOC STACK FRAME VALUE UNWIND EXC', [('alloc', 'alloc', 60000), _SG]),
}
_D = [('hist', p) for p in ('mixed', 'control', 'exc', 'unwind', 'payload', 'move', 'fault', 'functor')]
_E = [('xfer', 'xfer', 20000), ('xfer', 'stable', 10000), ('iter', 'iter', 20000), ('pipe', 'pipe', 4000), ('fault', 'fault', 600), ('exc', 'exc', 12000)]
_F = [('callable', 'callable', 100000), ('mem', 'mem', 20000), ('threads', 'threads', 4000)]
DIFF = {
    'quick': [(h, p, ['g11', 'g17n', 'asan20', 'c14', 'asan11', 'alt17', 'g14', 'g20', 'c20n'], 4000) for h, p in _D] + [('hist', 'anystack', ['g17n', 'seg17', 'uc17'], 6000)] + [(h, p, ['g11', 'c14', 'g17n', 'alt17', 'g14'] + (['noalign'] if h in ('iter', 'pipe') else []), n) for h, p, n in _E],
    'thorough': [(h, p, [c for c in T if not c.startswith('seg')] + ['alt17', 'alt20n', 'g11e', 'g23', 'c2b'], 40000) for h, p in _D]
    + [(h, p, ['g11', 'g17n', 'asan20', 'asan11', 'c14', 'c20n', 'uc17', 'g20', 'alt17', 'alt20n', 'g11e', 'g23', 'c2b'] + (['noalign'] if h in ('iter', 'pipe') else []), 10 * n) for h, p, n in _E]
    + [(h, p, ['g11', 'g17n', 'c11', 'c14', 'c20n', 'g20', 'alt17', 'alt20n'], n) for h, p, n in _F]
    + [('hist', 'anystack', ['g17n', 'g11', 'seg17', 'seg11', 'uc17', 'c14'], 60000)]
    + [('hist', p, ['seg17', 'seg11'], 20000) for p in ('mixed', 'control', 'payload', 'move', 'functor')],
}
