"""Which harnesses decide which property, with which program shapes."""
from itertools import product

ASSUME = [
    'clang 18 -O1 LLVM IR of /repo (C++20, YACLIB_LOG off) is what is executed symbolically; the translation from C++ to IR is trusted',
    'sequentially consistent interleavings at every atomic/mutex/condition-variable/thread operation, except where a harness runs in race mode (C++ memory model)',
    'operator new never fails; the libstdc++/pthread models of harness/vf_model.cpp stand for the C++ runtime',
]
LL = ['--leak', '--lifetime']

CHECKS = {}
CHECKS['C01'] = dict(
    bounds='1 promise, 1 future, 1 producer thread, 1 consumer thread, 1-2 continuations, all schedules to termination; payload 32-bit symbolic',
    jobs=[
        dict(src='c01_pair.cpp', flags=LL + ['--spurcv', '1'], params=list(product(range(14), range(4)))),
    ])
NA = {}

# ---- pipelines (harness/pipe.h)
RN = 'Val Res Void Ref VoidT Fut FutPend SFut SFutPend Async CoFut RunA FutChain CoShared TMake TSched TSchedThen TLazy TCoro TMakeThen TLazyPend TSchedA TCoAwait TSchedFut TLazyA'.split()


def grp(r):
    return 0 if r < 5 else 1 if r < 14 else 2 if r < 18 else 3


def sig_ok(s, r):
    if r == 3 or s > 8:
        return False
    if r >= 5 and s in (2, 4, 8):
        return False
    if r in (2, 4) and s in (6, 7):
        return False
    return True


STEPS = [(s, r) for s in range(9) for r in range(25) if sig_ok(s, r)]


def in_grp(g):
    return [x for x in STEPS if grp(x[1]) == g or x[1] in (0, 1)]


def pipe_jobs(src, base, variant_flags, firsts, one=True, extra=()):
    jobs = []
    for g in range(4):
        steps = in_grp(g)
        own = [x for x in steps if grp(x[1]) == g]
        q = [(s, r, 99, 0, 0) + tuple(extra) for s, r in own] if one else []
        q += [(a, b, s, r, 1) + tuple(extra) for a, b in firsts for s, r in own]
        t = [(a, b, s, r, 0) + tuple(extra) for a, b in steps for s, r in steps if grp(b) == g or grp(r) == g]
        t = [x for x in dict.fromkeys(t) if x not in set(q)]
        jobs.append(dict(src=src, name='%sg%d' % (base, g), defs=['-DGRP=%d' % g], flags=variant_flags, params=q, tparams=t))
    return jobs


CHECKS['C02'] = dict(
    bounds='chains of 1 step (every callback signature x return kind) and of 2 steps (quick: 4 first steps x every second step; thorough: every pair), 11 symbolic sources, symbolic outcome of source and of every callback (value/error/exception/throw/stop, 32-bit payload), 4 attachment modes per step, executor refusing from submission 0, 1 or never',
    jobs=pipe_jobs('c02_eager.cpp', 'c02', ['--leak'], [(3, 1), (6, 1), (7, 0), (0, 0)]))

# ---- combinators (harness/c09_when.cpp): form, policy, inputs, threads, keep shared copies
SEQ = ['--leak', '--lifetime', '--exact']
THR = ['--leak', '--exact']
SHARED_FORMS = (3, 4, 12, 23, 22, 11)


def when_jobs(forms, pols, empties):
    seq, thr, thr3 = [], [], []
    for f in forms:
        for p in pols:
            for n in ([0] if f in empties else []) + [1, 2, 3]:
                if n == 1 and f in (1, 2, 6, 11, 21, 23, 24, 4):
                    continue
                for k in ([0, 1] if f in SHARED_FORMS and n else [0]):
                    seq.append((f, p, n, 0, k))
            for k in ([0, 1] if f in SHARED_FORMS else [0]):
                thr.append((f, p, 2, 1, k))
                thr3.append((f, p, 3, 1, k))
    return [dict(src='c09_when.cpp', flags=SEQ, params=seq), dict(src='c09_when.cpp', flags=THR, params=thr, tparams=thr3)]


CHECKS['C09'] = dict(
    bounds='WhenAll (iterator/variadic/tuple/mixed unique+shared/void) and Join, policies None and FirstFail, 0-3 inputs; every order of completions before and after the call on one thread, and 2 inputs (thorough 3) completed by a thread each while main combines; every outcome per input, 32-bit payloads',
    jobs=when_jobs((0, 1, 2, 3, 4, 5, 6, 10, 11, 12), (0, 1), (0, 3, 5, 10)))
CHECKS['C10'] = dict(
    bounds='WhenAny (iterator/variadic/shared/mixed/different types/void), policies None, FirstFail and LastFail, 0-3 inputs; every order of completions before and after the call on one thread, and 2 inputs (thorough 3) completed by a thread each while main combines; every outcome per input, 32-bit payloads',
    jobs=when_jobs((20, 21, 22, 23, 24, 25), (0, 1, 2), (20,)))

# ---- waiting (harness/c11_wait.cpp): form, who completes, what happens afterwards
UNT = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
TIM = (20, 21, 22, 23, 24, 25, 26, 27)
CHECKS['C11'] = dict(
    bounds='Wait/WaitFor/WaitUntil over 1-3 futures (variadic, iterator+count, iterator pair; plain, shared, mixed), each completed by its own thread or by one thread in either order with any subset completed before; symbolic timeout, timeout may strike at any moment; then Get, continuation, drop, a second wait, or the same wait again',
    jobs=[dict(src='c11_wait.cpp', flags=THR, params=[(f, w, p) for f in UNT + TIM for w in (0, 1) for p in range(5)] + [(f, 2, p) for f in (2, 3, 22, 26) for p in (0, 1, 4)]),
          dict(src='c11_wait.cpp', flags=THR + ['--lifetime'], params=[(f, 1, p) for f in UNT + TIM if f not in (6, 8, 9) for p in (0,)] + [(f, w, p) for f in (21, 22, 25) for w in (0, 1) for p in (1, 2)], tparams=[(f, 1, 0) for f in (6, 8, 9)] + [(f, 2, 0) for f in (2, 3, 22, 26)])])

# ---- SharedFuture observers (harness/c06_shared.cpp): attached before, thread A, thread B, main keeps a copy, producer
KINDS = range(19)
C06_SEQ = [(k, 99, 99, c, p) for k in KINDS for c in (0, 1) for p in ((0, 1, 2, 3, 4, 5) if c == 0 else (0,)) if k not in (6, 7, 8)]
C06_ONE = [(99, k, 99, c, 0) for k in KINDS for c in (0, 1)] + [(99, k, 99, 0, p) for k in KINDS for p in (1, 2, 3, 4, 5)]
C06_PRE = [(k0, k, 99, 0, 0) for k0 in (0, 2, 5, 10, 11) for k in (0, 2, 4, 6, 7, 9, 10, 11, 16)]
C06_TWO = [(99, a, b, c, 0) for a in (0, 2, 7, 9, 6, 11) for b in (0, 2, 7, 9, 11, 4) if a <= b for c in (0,)]
C06_TWO_T = [(99, a, b, c, p) for a in KINDS for b in KINDS if a <= b for c in (0, 1) for p in (0, 1, 2, 3, 4, 5) if p == 0 or c == 0]
C06_TWO += [x for x in C06_TWO_T if x[3] == 0 and x[4] == 0 and x not in set(C06_TWO)]
C06_TWO_T = [x for x in C06_TWO_T if x not in set(C06_TWO)]
CHECKS['C06'] = dict(
    bounds='one SharedFuture, 19 kinds of observer (callbacks on and off executors, Share, Connect, Wait, Get, Touch, Ready, WhenAny, co_await/Await/AwaitSticky/AwaitOn), one attached before, up to two threads attaching while a third sets the value (6 kinds of producer), with and without a copy kept; value/error/drop with symbolic 32-bit payload; all schedules to termination',
    jobs=[dict(src='c06_shared.cpp', flags=THR + ['--lifetime'], params=C06_SEQ),
          dict(src='c06_shared.cpp', flags=THR, params=C06_ONE + C06_PRE + C06_TWO, tparams=C06_TWO_T),
          dict(src='c06_shared.cpp', flags=THR + ['--lifetime'], params=[(99, k, 99, c, 0) for k in (0, 2, 5, 7, 9, 11) for c in (0, 1)])])

# ---- Strand (harness/c07_strand.cpp): executor, pattern, stop, keep, job form
C07_F = [(e, p, 0, (p + f) % 2, f) for e in (0, 1, 4, 5, 7, 8, 9, 10) for p in (0, 1, 2, 3, 4, 5, 6) for f in (0, 1) if not (p in (2, 3) and e in (1, 5, 8, 10) and f)]
C07_P = [(e, p, s, s % 2, (s + p) % 2) for e in (2, 6) for p in (0, 1, 5, 4) for s in range(4)] + [(3, p, s, 0, p % 2) for p in (0, 4) for s in (0, 2)]
C07_R = [(e, p, 0, 0, f) for e in (0, 1, 5, 7, 8, 9, 10) for p in (0, 1, 5) for f in (0, 1) if not (e == 10 and p == 1 and f)] + [(2, 0, s, 0, 1) for s in (0, 1, 2, 3)] + [(6, 0, 0, 0, 1)]
C07_L = [(e, p, 0, 0, 1) for e in (0, 1, 5, 7, 8, 9, 10) for p in (0, 4, 5)] + [(2, 0, s, 1, 1) for s in (0, 2)]
C07_T = [(e, p, 0, k, f) for e in (0, 1, 4, 5, 7, 8, 9, 10) for p in range(9) for k in (0, 1) for f in (0, 1)]
C07_TP = [(e, p, s, s % 2, f) for e in (2, 3, 6) for p in (0, 1, 2, 4, 5, 6) for s in range(4) for f in (0, 1)]
CHECKS['C07'] = dict(
    bounds='1-3 submitting threads (and a job submitting from inside), 2-5 jobs (intrusive Job and functor), executor under the strand: in place, a thread per submission, real FairThreadPool with 1-2 workers with nobody/Stop/HardStop/SoftStop at any moment, Manual, strand over strand, refusing from submission 0/1/2 on; all schedules to termination incl. weak-CAS spurious failure (1 per run); race mode (C++ memory model happens-before) on the smaller shapes',
    jobs=[dict(src='c07_strand.cpp', flags=THR, params=C07_F + C07_P, tparams=[x for x in C07_T + C07_TP if x not in set(C07_F + C07_P)]),
          dict(src='c07_strand.cpp', flags=['--race', '--leak', '--exact'], params=C07_R, tparams=[(e, 2, 0, 0, 0) for e in (1, 5, 8)] + [(6, 0, s, 0, 1) for s in (1, 2)]),
          dict(src='c07_strand.cpp', flags=THR + ['--lifetime'], params=C07_L, tparams=[(e, 1, 0, 0, f) for e in (1, 5, 8) for f in (0, 1)])])

# ---- WaitGroup / OneShotEvent (harness/c16_group.cpp): src, waiter A, waiter B, early, post
def c16_kinds(src):
    return (0, 1, 2, 3, 4, 5, 7, 8, 9) + ((6,) if src in (8, 9) else ())


C16_1 = [(s, k, 99, e, p) for s in range(14) for k in c16_kinds(s) for e in (0, 1) for p in (0, 1, 2) if not (p == 1 and k == 2)]
C16_2 = [(s, a, b, e, 0) for s in (0, 8, 9, 10) for a in c16_kinds(s) for b in c16_kinds(s) if a <= b and b != 9 and not {a, b} <= {1, 2, 8} for e in (0, 1)]
C16_2T = [(s, a, b, e, p) for s in range(14) for a in c16_kinds(s) for b in c16_kinds(s) if a <= b for e in (0, 1) for p in (0, 1, 2)]
C16_L = [(s, k, 99, 0, p) for s in (0, 2, 3, 8) for k in c16_kinds(s) if k not in (8, 9) for p in (0, 1)]
C16_R = [(s, k, 99, e, 0) for s in (0, 1, 2, 3, 8, 10) for k in c16_kinds(s) if k not in (8,) for e in (0, 1)]
CHECKS['C16'] = dict(
    bounds='count of 2-4 made of ctor count, Add, Done, Attach and Consume (variadic, iterator+count, iterator pair, with and without implicit Add) or a OneShotEvent with Set / Call+Set; two completing threads, up to two concurrent waiters out of 10 kinds (Wait, WaitFor, WaitUntil, co_await, AwaitInline, AwaitSticky, AwaitOn, TryAdd), registered before or concurrently, plus waiters arriving afterwards; group destroyed as soon as a waiter returned, or Reset and reused; timeouts may strike at any moment; symbolic 32-bit payloads',
    jobs=[dict(src='c16_group.cpp', flags=THR, params=C16_1 + C16_2, tparams=[x for x in C16_2T if x not in set(C16_2)]),
          dict(src='c16_group.cpp', flags=THR + ['--lifetime'], params=C16_L, tparams=[x for x in C16_1 if x not in set(C16_L)]),
          dict(src='c16_group.cpp', flags=['--race', '--leak', '--exact'], params=C16_R, tparams=[x for x in C16_1 if x not in set(C16_R)])])

# ---- FairThreadPool (harness/c08_pool.cpp): workers, pattern, stopper, job form
NESTP = (4, 5)
C08 = [(w, p, s, (p + s) % 2) for w in (1, 2) for p in range(8) for s in range(13) if not (s == 12 and p in (3, 5, 6) and w == 2)]
C08_T = [(w, p, s, f) for w in (1, 2, 3) for p in range(8) for s in range(13) for f in (0, 1)]
C08_R = [(w, p, s, 1) for w in (1, 2) for p in (0, 1, 2, 4) for s in range(12) if not (w == 2 and p == 1 and s > 8)]
CHECKS['C08'] = dict(
    bounds='1-2 workers (thorough 3), 1-4 jobs from 1-2 submitting threads (and from inside a job), intrusive and functor jobs; Stop/SoftStop/HardStop and combinations of two of them at any moment, after all submissions, or from inside a running job; Wait entered at any moment; a submission after Wait; spurious condition-variable wake-ups (1 per run); race mode for the happens-before part',
    jobs=[dict(src='c08_pool.cpp', flags=THR + ['--spurcv', '1'], params=C08, tparams=[x for x in C08_T if x not in set(C08)]),
          dict(src='c08_pool.cpp', flags=['--race', '--leak', '--exact'], params=C08_R),
          dict(src='c08_pool.cpp', flags=THR + ['--lifetime'], params=[(w, p, s, 1) for w in (1, 2) for p in (0, 2) for s in range(13)])])

# ---- coroutine Mutex (harness/c14_mutex.cpp): option, executor, rounds, forms of the coroutines
MF = [0, 1, 2, 30, 31, 32] + [10 * l + u for l in (1, 4, 5, 7) for u in range(3, 9)] + [10 * l + u for l in (2, 6) for u in range(3, 8)]
M3 = [(0, 0, 0), (24, 24, 24), (1, 0, 24), (13, 24, 0), (25, 15, 2), (0, 30, 43)]
C14_A = [(o, e, 1, f, g, 99) for o in range(4) for e in (0, 1, 3) for f in MF for g in (0, 24) if (f + g + o) % 2 == 0 or f < 30]
C14_B = [(o, e, 2, f, g, 99) for o in range(4) for e in (0, 2, 4, 5) for f in (0, 1, 13, 24, 25, 15, 30) for g in (0, 24)]
C14_C = [(o, e, 1) + t for o in range(4) for e in (0, 1, 3, 4, 5) for t in M3] + [(o, 1, 2, 24, 0, 99) for o in range(4)] + [(o, 2, 2) + t for o in range(4) for t in M3]
C14_R = [(o, e, 1, f, g, 99) for o in range(4) for e in (0, 1, 3) for f in (0, 1, 13, 24, 14, 5 + 10, 30) for g in (0, 24, 1)] + [(o, 0, 1) + t for o in range(4) for t in M3]
C14_T = [(o, e, r) + t for o in range(4) for e in range(6) for r in (1, 2) for t in M3 + [(f, g, 99) for f in MF for g in MF if f <= g]]
CHECKS['C14'] = dict(
    bounds='Mutex<Batching,FIFO> in its four combinations, 2-3 coroutines with 1-2 lock/unlock rounds, 8 ways of locking x 9 ways of unlocking; executors: inline on the starting threads, a thread per submission (one or two such executors), Manual, FairThreadPool with one worker, Strand; all schedules; symbolic words written in the critical sections; happens-before checked in race mode',
    jobs=[dict(src='c14_mutex.cpp', flags=THR, params=C14_A + C14_B + C14_C, tparams=C14_T),
          dict(src='c14_mutex.cpp', flags=['--race', '--leak', '--exact'], params=C14_R),
          dict(src='c14_mutex.cpp', flags=THR + ['--lifetime'], params=[x for x in C14_R if x[5] == 99 or x[0] in (1, 2)])])

# ---- coroutine SharedMutex (harness/c15_shared_mutex.cpp): option, executor, rounds, forms of the coroutines
S_SH, S_EX, S_MX = (0, 1, 2, 3, 4, 5), (10, 11, 12, 13, 14, 15), (20, 21)
C15_2 = [(o, e, r, f, g, 99, 99) for o in range(4) for e in (0, 1) for r in (1, 2) for f in S_SH + S_EX + S_MX for g in (0, 10, 12, 20) if not (r == 2 and e == 1 and f in (4, 14, 5, 15, 3, 13)) and not (f == g == 20 and r == 2)]
C15_X = [(o, e, 2, f, g, 99, 99) for o in range(4) for e in (2, 3, 4) for f, g in ((0, 10), (10, 12), (2, 11), (1, 13))]
C15_3f = [(0, 10, 10), (10, 0, 0), (0, 12, 2), (2, 10, 12), (1, 11, 0), (0, 0, 12), (5, 10, 10), (15, 0, 10)]
C15_3 = [(o, e, 1) + t + (99,) for o in range(4) for e in (0, 1, 2, 3, 4) for t in C15_3f]
C15_4f = [(10, 0, 0, 10), (0, 10, 0, 10), (0, 0, 10, 10), (10, 10, 0, 0), (0, 12, 2, 10)]
C15_4 = [(o, e, 1) + t for o in range(4) for e in (0, 1) for t in C15_4f]
C15_R = [(o, e, 1, f, g, 99, 99) for o in range(4) for e in (0, 1) for f in (0, 1, 2, 10, 11, 12, 20) for g in (0, 10, 12)] + [(o, 0, 1) + t + (99,) for o in range(4) for t in C15_3f[:6]]
C15_T = [(o, e, r, f, g, 99, 99) for o in range(4) for e in range(5) for r in (1, 2) for f in S_SH + S_EX + S_MX for g in S_SH + S_EX + S_MX if f <= g] + [(o, e, 2) + t + (99,) for o in range(4) for e in (0, 1, 2) for t in C15_3f[:4]] + [(o, 2, 1) + t for o in range(4) for t in C15_4f]
CHECKS['C15'] = dict(
    qbudget=800,
    bounds='SharedMutex<FIFO,ReadersFIFO> in its four combinations; 2 coroutines with 1-2 rounds, 3 and 4 coroutines with one round (readers and writers mixed), 6 ways of shared and 6 of exclusive locking plus both in one coroutine; executors: inline on the starting threads, one or two thread-per-submission executors, Manual, FairThreadPool; all schedules; symbolic words written in the critical sections; happens-before checked in race mode',
    jobs=[dict(src='c15_shared_mutex.cpp', flags=THR, params=C15_2 + C15_X + C15_3 + C15_4, tparams=[x for x in C15_T if x not in set(C15_2 + C15_X)]),
          dict(src='c15_shared_mutex.cpp', flags=['--race', '--leak', '--exact'], params=C15_R),
          dict(src='c15_shared_mutex.cpp', flags=THR + ['--lifetime'], params=[x for x in C15_R if x[5] == 99])])

# ---- coroutines (harness/c13_coro.cpp): return type, kind of co_await, sources, own executor, stopped executor, coroutines, n, wide
K_F = (0, 1, 2, 3, 4, 7, 9, 10, 11, 13, 15, 16, 17, 19, 25, 50, 51)
K_S = (5, 6, 8, 12, 14, 18, 20, 26)
K_N = (21, 22, 23, 24)
K_T = (30, 31, 32, 33, 34, 35, 36, 40, 41, 42, 43, 44, 45, 46)
K_ALL = K_F + K_S + K_N + K_T
K_STICKY, K_ONB = (9, 10, 11, 12, 13, 14, 22, 23), (15, 16, 17, 18, 19, 20, 21, 51)
C13_1 = [(r, k, w, o, 0, 1, 0, 0) for r in range(5) for k in K_ALL for w in (0, 1, 2, 4) for o in (0, 1) if not (r == 3 and w == 4 and k not in K_N + (36, 46)) and not (r in (3, 4) and w in (0, 2)) and not (k in K_N + (36, 46) and w != 0) and (r == 0 or o == 1 or k in K_T)]
C13_N = [(r, k, w, 1, 0, 1, 3, 0) for r in (0, 1) for k in (3, 4, 11, 17, 8, 14, 20) for w in (2, 3, 4)]
C13_ST = [(r, k, w, 1, st, 1, 0, 1) for r in (0, 1, 2) for st, ks in ((1, K_ONB), (2, K_ALL), (3, K_STICKY)) for k in ks for w in ((0, 4, 2) if r == 0 else (4,)) if not (k in K_N + (36, 46) and w != 0 and not (r and w == 4)) and k not in (31, 35, 41, 45)]
C13_C = [(r, k, w, o, 0, 2, 0, 0) for r in (0, 1, 2) for k in (5, 6, 12, 18) for w in (0, 2, 4) for o in (0, 1)] + [(r, k, w, 0, 0, 2, 1, 0) for r in (0, 2) for k in (8, 14, 20, 26) for w in (0, 2, 4)]
C13_CT = [(r, k, w, o, 0, 2, n, 0) for r in (0, 1, 2) for k in K_S for w in (0, 1, 2, 4) for o in (0, 1) for n in (1, 2)]
C13_E = [(r, k, w, 1, 0, 1, 0, 1) for r in range(3) for k in (0, 1, 5, 9, 15, 21, 32, 42) for w in (0, 4)]
C13_R = [(r, k, 1, o, 0, 1, 0, 0) for r in (0, 1, 2) for k in K_F + K_S + K_T if k not in (36, 46) for o in (0, 1) if r == 0 or o]
C13_L = [(r, k, w, o, 0, 1, 0, 0) for r in (0, 1, 2) for k in K_ALL for o in (0, 1) for w in ((1, 4) if k not in K_N + (36, 46) else (0,)) if (r == 0 or o) and not (k in (8, 14, 20) and w == 1)] + [x for x in C13_ST if x[0] == 0 and x[2] in (0, 4)]
C13_V = [(r, k, w, o, 0, 1, 0, 0) for r in range(5) for k in (0, 1, 2, 5, 7, 9, 10, 12, 15, 16, 18, 21, 22, 25, 30, 32, 33, 35, 42, 43, 44, 50) for w in (1, 4) for o in (0, 1) if r == 0 or o][:] 
C13_V = [x for x in C13_V if not (x[0] == 3 and x[2] == 4) and not (x[1] in K_N and x[2] != 1)] + [x for x in C13_ST if x[0] < 2 and x[1] in (9, 15, 16, 21, 22)] + [x for x in C13_C if x[1] in (5, 12, 18) and x[2] == 2]
CHECKS['C13'] = dict(
    bounds='coroutines returning Future, Task (ToFuture/Get/Detach) and SharedFuture; 43 kinds of co_await over 1-3 unique/shared/mixed objects, 7 kinds of Tasks, On/Yield/CurrentExecutor; sources ready before, completed by one or several threads at any moment, or after suspension; own executor or none; either executor refusing from its first or second submission on; two coroutines on one SharedFuture; nested coroutines; every outcome of the awaited object and way of finishing, symbolic payloads; built with symmetric transfer, without it, and with it only outside of final_suspend',
    jobs=[dict(src='c13_coro.cpp', flags=THR, params=C13_1 + C13_N + C13_ST + C13_C + C13_E, tparams=[x for x in C13_CT if x not in set(C13_C)]),
          dict(src='c13_coro.cpp', flags=['--race', '--leak', '--exact'], params=C13_R),
          dict(src='c13_coro.cpp', flags=THR + ['--lifetime'], params=C13_L),
          dict(src='c13_coro.cpp', variant='nosym', name='c13_nosym', flags=THR, params=C13_V, tparams=C13_1),
          dict(src='c13_coro.cpp', variant='nofinal', name='c13_nofinal', flags=THR, params=C13_V[::3], tparams=C13_V)])


# ---- Task pipelines (harness/c12_lazy.cpp)
def lazy_jobs():
    jobs = []
    for g in range(4):
        steps = in_grp(g)
        own = [x for x in steps if grp(x[1]) == g]
        q = [(s, r, 99, 0, l) for s, r in own for l in (1, 2)] + ([(99, 0, 99, 0, 3)] if g == 0 else [])
        q += [(a, b, s, r, 0) for a, b in ((3, 1), (0, 0), (6, 1), (7, 0)) for s, r in own if (a, b) != (7, 0) or s in (0, 3)]
        q += [(s, r, 3, 1, 0) for s, r in own]
        t = [(s, r, 99, 0, 3) for s, r in own] + [(a, b, s, r, l) for a, b in steps for s, r in steps if grp(b) == g or grp(r) == g for l in (0, 1)]
        q = list(dict.fromkeys(q))
        jobs.append(dict(src='c12_lazy.cpp', name='c12g%d' % g, defs=['-DGRP=%d' % g], flags=['--leak', '--exact', '--lifetime'], params=q, tparams=[x for x in dict.fromkeys(t) if x not in set(q)]))
    return jobs


CHECKS['C12'] = dict(
    qbudget=750,
    bounds='heads: MakeTask, Schedule and LazyContract with and without executor, pending contract, coroutine (also awaiting), async head; 0-2 Then steps of every callback signature x return kind; started by ToFuture, ToFuture(e), Get, Detach, Detach(e), returned from a callback (eager, on an executor, lazy), co_await, Await (then taken, looked at, or destroyed), or abandoned by destruction, assignment or Cancel; every outcome per step, 4 attachment modes, executor refusing from submission 0, 1 or never; 32-bit symbolic payloads',
    jobs=lazy_jobs())

# ---- executors: placement of steps (harness/c05_place.cpp), Called xor Dropped (harness/c05_jobs.cpp)
C05_P1 = [(a, 99, 99, s, 1) for a in range(8) for s in range(12)]
C05_P2 = [(a, b, 99, s, 0) for a in range(8) for b in range(8) for s in range(12) if (a * 3 + b * 5 + s) % 3 == 0 or s >= 9]
C05_P2T = [(a, b, 99, s, 1) for a in range(8) for b in range(8) for s in range(12)]
C05_P3 = [(a, b, c, s, 0) for a in (0, 1, 5) for b in range(8) for c in (0, 1) for s in (0, 2, 3, 6, 7, 9) if (a + b + c + s) % 3 == 0]
C05_P3T = [(a, b, c, s, 0) for a in range(8) for b in range(8) for c in range(8) for s in range(12)]
C05_J1 = [(k, s, f, 99, 0) for k in range(10) for s in range(4) for f in range(13) if s == 0 or k in (4, 5, 6, 9)]
C05_J2 = [(k, s, f, g, o) for k in range(10) for s in range(4) for f, g in ((0, 1), (2, 3), (5, 10), (4, 8), (6, 12), (7, 11), (9, 0), (3, 3), (1, 5)) for o in (0, 1) if s == 0 or k in (4, 5, 6, 9)]
C05_J2T = [(k, s, f, g, o) for k in range(10) for s in range(4) for f in range(13) for g in range(13) for o in (0, 1) if (s == 0 or k in (4, 5, 6, 9)) and f <= g]
CHECKS['C05'] = dict(
    qbudget=750,
    bounds='placement: pipelines of 1-3 steps from 12 kinds of source and 8 kinds of step, each step attached by ThenInline, Then(A), Then(B) or Then, ended by Get, DetachInline, Detach(A), Detach(B), Detach or dropped, A and B refusing from their submission 0-3 / 0-2 or never, symbolic payloads; jobs: 13 ways of handing work to Inline, stopped Inline, Manual, Strand over each (and over a Strand), FairThreadPool with 1-2 workers; 1-2 items from 1-2 threads with Stop/HardStop/SoftStop at any moment, all schedules',
    jobs=[dict(src='c05_place.cpp', flags=['--leak', '--exact', '--lifetime'], params=C05_P1 + C05_P2 + C05_P3, tparams=[x for x in C05_P2T + C05_P3T if x not in set(C05_P3)]),
          dict(src='c05_jobs.cpp', flags=THR, params=C05_J1 + C05_J2, tparams=[x for x in C05_J2T if x not in set(C05_J2)]),
          dict(src='c05_jobs.cpp', flags=['--race', '--leak', '--exact'], params=[x for x in C05_J1 if x[0] in (4, 5, 9) and x[1] < 3]),
          dict(src='c05_jobs.cpp', flags=THR + ['--lifetime'], params=[x for x in C05_J1 if x[1] in (0, 2)])])

# ---- data races under the C++ memory model, over all multi-threaded harnesses
RACE = ['--race', '--exact', '--only', 'race', '--only', 'memory']
C04_W = when_jobs((0, 1, 2, 3, 4, 5, 6, 10, 11, 12), (0, 1), ())[1]['params'] + when_jobs((20, 21, 22, 23, 24, 25), (0, 1, 2), ())[1]['params']
C04_WT = [x for x in C04_W if x[0] in (3, 4, 12, 22)]
C04_6T = [x for x in C06_TWO if 18 in x[:3]] + C06_TWO_T
C04_11 = [x for x in CHECKS['C11']['jobs'][0]['params'] if x[0] != 9 and x[1] != 2]
CHECKS['C04'] = dict(
    qbudget=850,
    bounds='client programs: every multi-threaded program of the other checks at 2 library threads plus main (one promise/future pair; SharedFuture with up to 2 attaching threads; WhenAll/Join/WhenAny with 2 inputs; Wait/WaitFor/WaitUntil over 1-3 futures; WaitGroup/OneShotEvent; Strand; FairThreadPool with 1-2 workers; Mutex and SharedMutex with 2-3 coroutines; co_await of everything on threads); every schedule, vector clocks follow the memory orders in the code',
    jobs=[dict(src='c01_pair.cpp', flags=RACE, params=list(product(range(14), range(4)))),
          dict(src='c06_shared.cpp', flags=RACE, params=C06_ONE + [x for x in C06_TWO if 18 not in x[:3]], tparams=C04_6T),
          dict(src='c09_when.cpp', flags=RACE, params=[x for x in C04_W if x not in C04_WT], tparams=C04_WT),
          dict(src='c11_wait.cpp', flags=RACE, params=C04_11, tparams=[x for x in CHECKS['C11']['jobs'][0]['params'] if x not in set(C04_11)]),
          dict(src='c05_jobs.cpp', flags=RACE, params=[x for x in C05_J1 if x[0] in (4, 5, 9) and x[1] < 3 and x[2] in (0, 1, 4, 7, 11)]),
          dict(src='c07_strand.cpp', flags=RACE, params=[x for x in C07_R if x[1] in (0, 1)], tparams=C07_R),
          dict(src='c08_pool.cpp', flags=RACE, params=[x for x in C08_R if x[0] == 1 or x[2] in (0, 2, 3)], tparams=C08_R),
          dict(src='c13_coro.cpp', flags=RACE, params=[x for x in C13_R if x[3] == 1], tparams=C13_R + C13_C),
          dict(src='c14_mutex.cpp', flags=RACE, params=C14_R[::3], tparams=C14_R),
          dict(src='c15_shared_mutex.cpp', flags=RACE, params=C15_R[::3], tparams=C15_R),
          dict(src='c16_group.cpp', flags=RACE, params=[x for x in C16_R if x[3] == 0], tparams=C16_R)])

# ---- ownership: everything released exactly once (harness/c03_drop.cpp): source, step 1, step 2, ending, executor
OWN = ['--leak', '--lifetime', '--exact', '--only', 'leak', '--only', 'memory', '--only', 'lifetime']
C03_SH = (2, 16, 18)


def c03_ok(s, s1, e):
    return s1 or s not in C03_SH or e in (0, 1, 3, 4, 7, 10)


C03_1 = [(s, a, 0, e, 0) for s in range(19) for a in range(8) for e in range(15) if c03_ok(s, a, e)]
C03_1T = [x for x in C03_1 if x[1] in (2, 4, 7) and (x[3] == 7 or x[0] in C03_SH)]
C03_E = [(s, a, 0, e, k) for s in range(19) for a in range(8) for e in range(15) for k in (1, 2, 3)
         if c03_ok(s, a, e) and not (a and e == 7) and not (s in C03_SH and a in (2, 4, 7)) and (s in (1, 3, 8, 12, 14, 15, 16) or a in (2, 4, 7) or e == 4)]
C03_2 = [(s, a, b, e, k) for s in range(19) if s not in C03_SH for a in range(1, 8) for b in range(1, 8) for e in (0, 1, 2, 4, 5, 6, 8, 10, 13) for k in range(4)]
C03_1Q = [x for x in C03_1 if x not in set(C03_1T) and (x[1] == 0 or x[3] in (0, 2) or (x[0] + x[1] * 5 + x[3] * 3) % 3 == 0)]
C03_EQ = [x for x in C03_E if not (x[4] == 1 and x[1] == 4) and (x[0] + x[1] * 3 + x[3] * 5 + x[4]) % 6 == 0]
C03_2Q = [x for x in C03_2 if (x[0] + x[1] * 3 + x[2] * 5 + x[3] * 7) % 11 == 0 and x[4] == sum(x[:4]) % 4 and x[4] != 1]
CHECKS['C03'] = dict(
    qbudget=1250,
    bounds='19 sources (contracts with and without executor, shared contract, Run, RunShared, Schedule, LazyContract, AsyncContract, Share, WhenAll/WhenAny/Join of 2 unique or shared inputs, unwrapped futures, coroutines returning Future/Task/SharedFuture that await a future, On(e), AwaitOn(e)), 0-2 of 7 kinds of step (inline, on an executor, through a Strand, throwing, returning a pending future or a Task, error handler), 15 endings (drop, Get, Detach forms, timed wait then drop, Connect, Split, coroutine, WaitGroup consume/attach, overwritten handle, Ready/Touch), executors: a thread per submission, in place, strand, FairThreadPool with HardStop at any moment, refusing from submission 0, 1 or never; every promise set to a value, error, exception or dropped by a concurrent thread; values, functors and coroutine locals own heap memory; every schedule',
    jobs=[dict(src='c03_drop.cpp', flags=OWN, params=C03_1Q + C03_EQ + C03_2Q, tparams=C03_1 + [x for x in C03_E if x not in set(C03_EQ)] + C03_2[::5]),
          dict(src='c09_when.cpp', flags=OWN, params=C04_W, tparams=C04_WT),
          dict(src='c05_jobs.cpp', flags=OWN, params=[x for x in C05_J1 if x[0] in (4, 5, 9)], tparams=C05_J1),
          dict(src='c06_shared.cpp', flags=OWN, params=C06_ONE, tparams=C06_TWO),
          dict(src='c13_coro.cpp', flags=OWN, params=[x for x in C13_L if x[3] == 1], tparams=C13_L + C13_C),
          dict(src='c16_group.cpp', flags=OWN, params=C16_L, tparams=C16_1)])

# ---- allocations: the pipelines of C02 and C12 with an allocation oracle, and harness/c20_alloc.cpp
ALLOC = ['--exact', '--only', '~allocations', '--only', 'memory']
C20_1 = [(0, k, 0) for k in range(24)] + [(1, k, n) for k in range(12) for n in (8, 33)] + [(1, k, 12) for k in list(range(20, 28)) + [30, 31, 32, 33]]
C20_1 += [(2, k, n) for k in range(10) for n in (1, 2, 3)] + [(2, 10, 1)] + [(2, k, n) for k in (0, 1, 4, 5, 7, 8) for n in (10, 17)]
C20_1 += [(3, k, n) for k in range(4) for n in (1, 2, 3)] + [(4, k, n) for k in range(11) for n in (1, 2, 3)] + [(4, k, 9) for k in (1, 4, 5, 6, 10)] + [(5, k, n) for k in range(4) for n in (1, 2)]
CHECKS['C20'] = dict(
    qbudget=900,
    bounds='pipelines: every shape of the C02 and C12 checks (all sources, 1-2 steps of every callback signature x return kind incl. unwrapping of Future/Task/SharedFuture, 4 attachment modes, refusing executor; Tasks started or abandoned in 16 ways), allocations compared with the steps built at every attachment and at the end; 24 single operations with 256-byte functors; WhenAll/Join/WhenAny with every policy in iterator form with 4 against 8 and 33 inputs, variadic with 4 against 12, completed before/after/around the call in both orders, one symbolic failing input; waits over 1-17 futures in all forms; co_await of 1-9 futures; Strand submissions of existing jobs from one or two threads over four executors',
    jobs=[dict(src='c20_alloc.cpp', flags=['--exact', '--only', '~allocat', '--only', '~heap', '--only', 'memory'], params=C20_1, tparams=[(1, k, n) for k in range(12) for n in (5, 16, 17, 40)])]
    + [dict(src='c02_eager.cpp', name='c20g%d' % g, defs=j['defs'] + ['-DALLOCS'], flags=ALLOC, params=j['params'][::3], tparams=j['params'] + j['tparams'][::4]) for g, j in enumerate(CHECKS['C02']['jobs'])]
    + [dict(src='c12_lazy.cpp', name='c20l%d' % g, defs=j['defs'] + ['-DALLOCS'], flags=ALLOC, params=[x for x in j['params'] if x[4]][::2] + [x for x in j['params'] if not x[4]][::6], tparams=j['params'] + j['tparams'][::8]) for g, j in enumerate(CHECKS['C12']['jobs'])])

# ---- yaclib_std::atomic (harness/c19_atomic.cpp): type, volatile, mode, operations, memory orders, first operation

# kind, k, acquisitions, operations of fiber 0, of the others, tick, injector, sleep, pick, nested, -dmin, dmax/step, draws, menu
C18_L = [(0, 3, 1, 3, 3, 0, 0, 1, 2, 0, 0, 0, 4, 0), (0, 2, 2, 3, 3, 10, 0, 1, 1, 0, 0, 0, 2, 0), (0, 3, 1, 3, 3, 0, 1, 1, 2, 0, 0, 0, 4, 0),
         (2, 3, 1, 3, 3, 0, 0, 1, 2, 0, 0, 0, 4, 0), (2, 2, 1, 3, 3, 0, 0, 1, 1, 1, 0, 0, 2, 0), (4, 3, 1, 51, 51, 0, 0, 1, 2, 0, 0, 0, 4, 0),
         (1, 2, 1, 15, 15, 10, 0, 1, 1, 0, 5, 60, 2, 0), (1, 2, 1, 15, 15, 10, 0, 1, 1, 0, 1000, 60, 2, 0), (3, 2, 1, 15, 15, 10, 0, 1, 1, 1, 5, 60, 2, 0),
         (5, 2, 1, 255, 255, 10, 0, 1, 1, 0, 5, 60, 2, 0), (5, 2, 1, 255, 255, 10, 1, 1, 1, 0, 5, 60, 2, 0), (1, 3, 1, 1, 4, 10, 0, 1, 2, 0, 5, 15, 4, 4),
         (1, 3, 1, 8, 3, 10, 0, 1, 2, 0, 5, 60, 4, 0), (5, 3, 1, 3, 20, 10, 0, 1, 2, 0, 5, 15, 4, 3), (5, 3, 1, 64, 65, 10, 0, 1, 2, 0, 5, 15, 4, 3)]
C18_LT = [(0, 3, 2, 3, 3, 0, 0, 1, 2, 0, 0, 0, 4, 0), (0, 4, 1, 1, 1, 0, 0, 1, 2, 0, 0, 0, 4, 0), (4, 3, 1, 51, 51, 0, 1, 1, 2, 0, 0, 0, 4, 0),
          (4, 2, 2, 51, 51, 0, 0, 1, 1, 0, 0, 0, 2, 0), (2, 3, 1, 3, 3, 0, 0, 1, 2, 1, 0, 0, 4, 0), (1, 3, 1, 15, 15, 10, 0, 1, 2, 0, 5, 15, 4, 4),
          (3, 3, 1, 15, 15, 10, 0, 1, 2, 0, 5, 15, 4, 4), (5, 2, 2, 255, 255, 10, 0, 1, 1, 0, 5, 60, 2, 0), (5, 3, 1, 255, 255, 10, 0, 1, 2, 0, 5, 15, 4, 3),
          (1, 2, 1, 15, 15, 10, 0, 16, 8, 0, 5, 60, 16, 0)]
# scenario, k, tick, injector, sleep, pick, draws, 1 + longest duration
C18_C = [(0, 2, 10, 0, 1, 1, 2, 0), (0, 3, 0, 0, 1, 1, 2, 0), (1, 3, 0, 0, 1, 1, 2, 0), (2, 3, 0, 0, 1, 1, 2, 0), (3, 3, 0, 0, 1, 1, 2, 0), (0, 3, 0, 1, 1, 1, 2, 0),
         (4, 3, 0, 0, 1, 2, 4, 0), (4, 3, 0, 1, 1, 2, 4, 0), (5, 2, 10, 0, 1, 1, 2, 41), (6, 2, 10, 0, 1, 1, 2, 41), (7, 2, 10, 1, 1, 1, 2, 41), (5, 3, 10, 0, 1, 2, 4, 0),
         (8, 2, 10, 0, 1, 1, 2, 61), (9, 2, 10, 0, 1, 1, 2, 61), (8, 3, 10, 0, 1, 2, 4, 0), (10, 3, 10, 0, 1, 1, 2, 0), (11, 3, 10, 0, 1, 1, 2, 0), (12, 3, 10, 0, 1, 1, 2, 0),
         (13, 2, 10, 0, 1, 1, 2, 0), (13, 3, 10, 0, 1, 1, 2, 0), (10, 3, 10, 1, 1, 1, 2, 0)]
C18_CT = [(s, 4, 0, 0, 1, 2, 4, 0) for s in (0, 1, 2, 3, 4, 10, 11, 12)] + [(s, 3, 10, 1, 1, 2, 4, 0) for s in (5, 6, 8, 9)] + [(s, 3, 10, 0, 1, 2, 4, 61) for s in (5, 6, 7, 8, 9)]
C18_T = [(0, 2, 0, 0, 1, 1, 2, 0), (0, 3, 0, 0, 1, 2, 4, 0), (0, 2, 10, 1, 1, 1, 2, 0), (1, 2, 10, 0, 1, 1, 2, 41), (2, 2, 0, 0, 1, 1, 2, 0), (3, 3, 0, 0, 1, 1, 2, 0), (3, 3, 0, 1, 1, 1, 2, 0),
         (4, 2, 0, 0, 1, 1, 2, 0), (4, 3, 0, 0, 1, 2, 4, 0), (5, 2, 0, 0, 1, 1, 2, 0), (5, 3, 0, 0, 1, 2, 4, 0), (5, 2, 0, 1, 1, 1, 2, 0), (6, 2, 0, 0, 1, 1, 2, 0), (7, 2, 0, 0, 1, 1, 2, 0),
         (8, 2, 0, 0, 1, 1, 2, 0), (8, 2, 0, 1, 1, 1, 2, 0), (8, 1, 0, 0, 1, 1, 2, 0), (9, 2, 10, 0, 1, 1, 2, 41), (9, 3, 10, 0, 1, 2, 4, 0), (10, 1, 0, 0, 1, 1, 2, 0)]
C18_TT = [(2, 3, 0, 0, 1, 2, 4, 0), (1, 3, 10, 0, 1, 2, 4, 0), (1, 2, 10, 1, 1, 1, 2, 41), (9, 3, 10, 0, 1, 2, 4, 41), (4, 3, 0, 1, 1, 2, 4, 0), (5, 3, 0, 1, 1, 2, 4, 0)]
C18_P = [(11, 2, 0, 0, 1, 1, 2, 0), (11, 3, 0, 1, 1, 2, 4, 0), (12, 1, 0, 0, 1, 1, 2, 0), (13, 1, 0, 0, 1, 1, 2, 0)]
C18_PT = [(12, 2, 0, 0, 1, 1, 2, 0), (12, 2, 0, 1, 1, 1, 2, 0), (11, 3, 0, 0, 1, 2, 4, 0)]
CHECKS['C18'] = dict(
    qbudget=300,
    bounds='FIBER backend; every choice of the scheduler (all fibers of the run queue and of a wait queue reachable by the draw; the draw is explicit nondeterminism) and every yield at an injection point (injector on at each point, or one optional yield at every client step); k=2-3 fibers (4 in the thorough tier) doing one or two acquisitions each with any mix of lock, try_lock, try_lock_for/until and the shared forms on all six mutex types; durations symbolic in [-5,60] ns ([-1000,60] once) against a tick of 10 ns for k=2 and from a menu for most k=3 runs; recursion depth 2; 13 condition-variable scenarios (notify_one/all with and without the mutex, predicate and timed waits, several waiters with equal, different and past deadlines); threads: join in any order, nested threads, detach at any moment also by the thread itself, move and swap, arguments, sleeps; thread-local pointers: up to 3 assignments of 8 kinds per fiber, two types, with and without an initial value. Not covered: condition_variable_any (the FIBER backend has none), exceptions thrown by a thread function or by join on a thread that is not joinable, extra random sleep above 1 ns in the quick tier, more than 4 fibers',
    jobs=[dict(src='c18_locks.cpp', variant='fiber', name='c18_locks', flags=['--exact', '--leak'], params=C18_L, tparams=C18_LT),
          dict(src='c18_cv.cpp', variant='fiber', name='c18_cv', flags=['--exact', '--leak'], params=C18_C, tparams=C18_CT),
          dict(src='c18_thread.cpp', variant='fiber', name='c18_thread', flags=['--exact', '--leak'], params=C18_T, tparams=C18_TT),
          dict(src='c18_thread.cpp', variant='fiber', name='c18_thread_p', flags=['--exact'], params=C18_P, tparams=C18_PT)])

C19_F = ['--exact', '--spurcas', '0']
C19_D = ['-D_GLIBCXX_ASSERTIONS', '-fsanitize=signed-integer-overflow', '-fsanitize-trap=all']
C19_1 = [(t, v, m, 1, 1, 99) for t in range(22) for v in (0, 1) for m in (0, 1) if not (t >= 20 and v)]
C19_I = [(t, 0, 2, 1, 0, 99) for t in range(22)]
C19_2 = [(t, t % 2 if t < 20 else 0, 1, 2, 0, 99) for t in range(22) if t not in (5, 6, 10)] + [(19, 0, 0, 5, 0, 99)]
C19_2T = [(t, 0, 0, 2, 1, f) for t in range(22) for f in range(23)] + [(t, 1, 1, 2, 0, 99) for t in range(20)] + [(t, 0, 1, 3, 0, f) for t in (0, 2, 7, 14, 18) for f in range(23)] + [(t, 0, 2, 2, 0, 99) for t in (0, 2, 8, 13, 14)]
CHECKS['C19'] = dict(
    qbudget=700,
    bounds='both fault-injection backends; bool, all integers of 8-64 bits, char16_t, wchar_t, float, double, pointers to objects of 1, 4 and 12 bytes, void*, an enumeration and two classes of 8 bytes; plain and volatile objects; every operation with every valid memory order after construction from an arbitrary value (one operation), any two operations in sequence (three in the thorough tier), arbitrary operands; compare_exchange_weak forced or allowed to fail at any call; injector off, and on at every second point (in the FIBER backend inside a fiber under the scheduler); signed overflow and invalid memory orders trapped. Not covered: long double, volatile class objects',
    jobs=[dict(src='c19_atomic.cpp', variant=v, name='c19_' + v, defs=C19_D, flags=C19_F, params=C19_1 + C19_I + C19_2, tparams=C19_2T) for v in ('thread', 'fiber')])
