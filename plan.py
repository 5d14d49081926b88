"""What each property's check runs."""
ASSUMPTIONS = [
    'The ROS packages rmw_dds_common depends on (rcutils, rmw, rosidl, rcpputils) are not in the sandbox; '
    'model/vp_ros.h and model/ros.cpp give them the behaviour of their public documentation.',
    'The compiled parts of libstdc++ and libc are modelled in model/runtime.cpp and the executor; header-only '
    'parts of libstdc++ are executed as they are.',
]
DEF = dict(params={}, srcs=[], time=400, mem=3000, samples=4, validate=3, steps=20000000, atomics=2, solver_timeout=60000, leaks=False,
           covers=[], ndebug=True, defines=[], bounds='', opt='sroa,early-cse,simplifycfg')
PROPS = {}


def prop(pid, quick, thorough=None, **kw):
    PROPS[pid] = dict(quick=quick, thorough=thorough, **kw)


def J(name, harness, **kw):
    d = dict(DEF)
    d.update(kw)
    d['name'], d['harness'] = name, harness
    d['params'] = dict({'flathash': 1} if d['srcs'] and 'graph_cache.cpp' in d['srcs'] else {}, **d['params'])
    return d


def jobs(pid, tier):
    p = PROPS[pid]
    js = p['quick'] if tier == 'quick' or not p['thorough'] else p['quick'] + p['thorough']
    js = js() if callable(js) else js
    assert len({j['name'] for j in js}) == len(js), 'job names of %s' % pid
    return [dict(j) for j in js]


GID = dict(srcs=['gid_utils.cpp'])
TIME = dict(srcs=['time_utils.cpp'], opt='sroa')

prop('P18', [J('clamp', 'time.cpp', **TIME, covers=['in range', 'saturated', 'normalised'],
               bounds='every pair of 64-bit sec/nsec'),
             J('clamp-assert', 'time.cpp', **TIME, ndebug=False, covers=['in range'], bounds='every pair of 64-bit sec/nsec')])

SEC = dict(srcs=['security.cpp'])
SYMF = [J('focus%d' % i, 'security.cpp', **SEC, params=dict(mode=1, focus=i, len=5)) for i in range(7)]
prop('P30', [J('presence', 'security.cpp', **SEC, params=dict(mode=0), covers=['complete', 'incomplete', 'pkcs11', 'file', 'crl'])] + SYMF[4:6])
prop('P31', SYMF[:4] + [J('longer%d' % i, 'security.cpp', **SEC, params=dict(mode=1, focus=i, longer=3)) for i in range(4)])
prop('P32', [J('root', 'security.cpp', **SEC, params=dict(mode=2)), J('rootsym', 'security.cpp', **SEC, params=dict(mode=3)),
             J('prefix', 'security.cpp', **SEC, params=dict(mode=4))])
prop('P33', [J('presence', 'security.cpp', **SEC, params=dict(mode=0), covers=['complete', 'crl'])] + SYMF[6:])

GRAPH = dict(srcs=['graph_cache.cpp', 'gid_utils.cpp'])
prop('P01', [J('lens-%d%d' % (a, b), 'registry.cpp', **GRAPH, params=dict(op0=a, op1=b, steps=2, query=1, gid_bytes=1, lens=3)) for a in (0, 1) for b in (0, 1)] +
     [J('long-%d%d' % (a, b), 'registry.cpp', **GRAPH, params=dict(op0=a, op1=b, steps=2, query=1, gid_bytes=1, tail=300)) for a in (0, 1) for b in (0, 1)] + [J('hist-%d%d' % (a, b), 'registry.cpp', **GRAPH, params=dict(op0=a, op1=b, steps=3, query=1)) for a in (0, 1) for b in range(4)])


def H(name, ops, **kw):
    kw.setdefault('params', {})
    p = dict(kw.pop('params'), steps=len(ops))
    for i, o in enumerate(ops):
        p['op%d' % i] = o
    return J(name, 'cache.cpp', **GRAPH, params=p, **kw)


A, U, R, AN, RN, AW, AR, DW, DR, W, RD, XW, XR, CLR = range(14)

def hists(tag, seqs, **kw):
    return [H(tag + '-' + '.'.join(str(o) for o in s), s, **kw) for s in seqs]



def lens(seqs, query):
    """Names of different lengths, and long ones."""
    return hists('lens', seqs, params=dict(query=query, gid_bytes=1, lens=3, nr=1, nw=1)) + \
        hists('long', seqs, params=dict(query=query, gid_bytes=1, tail=300))


prop('P02', [x for h in range(1, 4) for x in hists('how%d' % h, [[U, W, XW], [U, RD, XR], [W, RD]], params=dict(query=4, nodes=1, how=h))] + hists('info', [[U, W, W], [U, RD, RD], [U, W, RD], [W, U, U], [U, RD, R], [U, W, XW], [A, U, W, W]], params=dict(query=4, nodes=2)) +
     lens([[W, W], [RD, RD], [U, W], [U, RD]], 4) +
     hists('info2', [[U, W, W], [U, RD, RD]], params=dict(query=4, nodes=1, nr=2, nw=2)))
prop('P28', hists('few', [[A, U], [U, W], [U, RD]], params=dict(query=256, gid_bytes=1, sns=0, stype=0, few=1, nr=0)) +
     hists('dump', [[W, RD], [W, W], [U], [A, AN, AW], [U, R], [W, XW], [RD, RD, XR], [A, A]], params=dict(query=256, gid_bytes=1, sns=0, stype=0)))
prop('P04', lens([[U, W], [U, RD], [U, U]], 2) + hists('bynode', [[U, W, RD], [U, U, W], [U, W, W], [U, RD, RD], [U, RD, XR], [U, W, R], [A, U, W]], params=dict(query=2, nodes=2)) +
     hists('bynode2', [[U, W, W], [U, RD, RD]], params=dict(query=2, nodes=1, nr=2, nw=2)))
prop('P05', lens([[A, U], [A, AN], [U, U]], 1) + hists('nodes', [[A, U, U], [U, A, R], [U, U, U], [U, A, A], [A, A, A], [U, A, U, A], [A, U, R, A], [A, AN, A, U]], params=dict(query=1, nodes=2)))
prop('P06', lens([[A, AN, AN, AW], [A, AN, AN, AR], [A, AN, AN, RN]], 8) + hists('local', [[A, AN, AN, AW, AR], [A, AN, AW, AW, DW], [A, AN, AR, AR, DR], [A, AN, AN, RN, AN], [A, U, AW, RN, AN], [A, AN, AN, AW, RN],
     [A, U, DW, DR, RN], [A, A, AN, AN, AW], [A, A, AN, AN, AW, AR], [A, U, U, AN, RN]], params=dict(query=40, nodes=1)) +
     hists('remote', [[A, AN, AN, AW, W, DW], [A, AN, W, RD, AW, AR], [A, AN, RD, AR, XR], [A, A, AN, AN, W, AW, RN]], params=dict(query=40, nodes=2)))
prop('P03', lens([[W, W], [W, RD], [RD, RD]], 64) + hists('names', [[W, W, RD], [RD, RD, W], [W, W, XW], [RD, RD, XR], [W, RD, RD], [U, W, W], [W, W, R]], params=dict(query=64, nodes=1)))
prop('P07', lens([[A, A], [A, U, R]], 7) + hists('part', [[A, U, A, U], [U, A, R, A], [U, R, U], [A, U, R, U], [A, AN, U, R], [A, AN, AW, U, R], [U, A, AN, R], [U, W, R, U], [U, RD, R, A]],
                  params=dict(query=7, nodes=1)))
prop('P08', hists('cb', [[-1, -1, -1]] + [[a, -1, -1] for a in (A, U)] + [[A, AN, -1, -1], [U, -1, -1, -1]] +
                  [[A, AN, AW, DW], [A, AN, AR, DR], [A, AN, CLR, AW], [W, -1, -1], [RD, -1, -1], [CLR, -1, -1]], params=dict(query=16, nops=14)))
prop('P15', [J('order', 'gid.cpp', **GID, params=dict(mode=0), covers=['equal', 'different']), J('map', 'gid.cpp', **GID, params=dict(mode=3), covers=['map'])])
prop('P16', [J('conversion', 'gid.cpp', **GID, params=dict(mode=1), covers=['converted'])])
prop('P17', [J('text%d' % i, 'gid.cpp', **GID, params=dict(mode=2, at=i, sym=2), covers=['text']) for i in range(16)])
QOS = dict(srcs=['qos.cpp'])


def QJ(name, mode, **kw):
    p = dict(kw.pop('params', {}), mode=mode)
    return J(name, 'qos.cpp', **QOS, params=p, **kw)


prop('P20', [QJ('verdict%d' % r, 0, params=dict(rel=r), bounds='publisher reliability %d, everything else arbitrary' % r,
                covers=['warning', 'error'] if r == 3 else ['ok', 'warning', 'error']) for r in range(5)])
prop('P21', [QJ('reason-policies', 1, params=dict(part=7, size=40), covers=['error', 'warning']),
             QJ('reason-times', 1, params=dict(part=24, size=70), covers=['error']),
             QJ('reason-mixed', 1, params=dict(part=9, size=100), covers=['error', 'warning']),
             QJ('reason-tight', 1, params=dict(part=3, size=90, tight=1), covers=['error', 'warning']),
             QJ('arguments', 6)])


def adapt(tag, mode):
    return [QJ('%s%d' % (tag, n), mode, params=dict(n=n)) for n in range(3)] + \
        [QJ('%s3-%d' % (tag, d), mode, params=dict(n=3, dims=d)) for d in (7, 9, 12)] + \
        [QJ('%s4-%d' % (tag, d), mode, params=dict(n=4, dims=d)) for d in (1, 2, 4, 8, 16)]


prop('P22', adapt('sub', 2))
prop('P23', adapt('pub', 3))
prop('P24', [QJ('%s%d-%d' % (t, n, d), m, params=dict(n=n, uniform=1, dims=d), covers=['compatible']) for t, m in (('sub', 2), ('pub', 3))
             for n, d in ((1, 31), (2, 31), (3, 8), (3, 16), (3, 7))])
prop('P25', [QJ('topic-%d%d-%d' % (s, n, d), 4, params=dict(sub=s, n=n, dims=d)) for s in (0, 1) for n, d in ((0, 31), (1, 31), (2, 7), (2, 24))])
prop('P26', [QJ('services', 5)])
CTX = dict(srcs=['context.cpp', 'graph_cache.cpp', 'gid_utils.cpp'])


def C(name, ops, **kw):
    p = dict(kw.pop('params', {}), steps=len(ops))
    for i, o in enumerate(ops):
        p['op%d' % i] = o
    return J(name, 'context.cpp', **CTX, params=p, **kw)


def ctxs(tag, seqs, **kw):
    return [C(tag + '-' + '.'.join(str(o) for o in s), s, **kw) for s in seqs]


ADDS, REMS = (0, 2, 4, 6, 8), (1, 3, 5, 7, 9)
prop('P12', ctxs('seq', [[0, a, b] for a in ADDS for b in ADDS] + [[0, a, 1] for a in ADDS] +
                 [[0, a, b] for a, b in ((2, 3), (4, 5), (6, 3), (6, 5), (6, 7), (6, 9), (8, 3), (8, 5), (8, 7), (8, 9))] +
                 [[0, 2, 4, 7], [0, 2, 4, 9], [0, 6, 8, 7], [0, 6, 8, 9], [0, 0, 2, 3], [0, 0, 6, 7], [0, 0, 8, 9], [0, 0, 4, 1]],
                 params=dict(what=1, fail=2)) +
     ctxs('nopub', [[0, 6, a] for a in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)], params=dict(what=1, missing=1)) +
     ctxs('nocb', [[0, 8, a] for a in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)], params=dict(what=1, missing=2)))
prop('P13', ctxs('rb', [[0, b, a] for b in (2, 4, 6, 8) for a in ADDS] + [[0, 0, a] for a in ADDS + (1,)] +
                 [[0, 0, b, a] for b in (2, 6) for a in ADDS + (1,)] + [[0, 6, 8, a] for a in range(10)], params=dict(what=2, fail=1)) +
     ctxs('all', [[0, a, b, c] for a in (2, 6, 8) for b in ADDS for c in (0, 4, 8)], params=dict(what=2, fail=2)) +
     ctxs('other', [[0, 2, a] for a in ADDS] + [[0, 0, 0], [0, 0, 6]], params=dict(what=2, fail=1, other=1)) +
     ctxs('nopub', [[0, 6, a] for a in range(10)], params=dict(what=2, missing=1)) +
     ctxs('nocb', [[0, 8, a] for a in range(10)], params=dict(what=2, missing=2)))
for _pid, _w in (('P12', 1), ('P13', 2)):
    PROPS[_pid]['quick'] += ctxs('again', [[0, 2, 2], [0, 4, 4], [0, 6, 6], [0, 8, 8], [0, 2, 6], [0, 4, 8]], params=dict(what=_w, fail=1, loose=1), covers=['again'])
    PROPS[_pid]['quick'] += ctxs('absent', [[0, 2, 3], [0, 4, 5], [0, 6, 7], [0, 8, 9]], params=dict(what=_w, fail=1, loose=1), covers=['absent'])
prop('P10', [J('fail%d-%d%d%d' % (q, p, n, e), 'alloc.cpp', **GRAPH, params=dict(mode=0, q=q, participants=p, nodes=n, endpoints=e), leaks=True,
               covers=['failed', 'enough']) for q in range(7) for p, n, e in ((1, 1, 1), (2, 2, 2))])
prop('P11', [J('args%d' % q, 'alloc.cpp', **GRAPH, params=dict(mode=1, q=q, participants=1, nodes=1, endpoints=1)) for q in range(5)])


def K(name, ops, **kw):
    p = dict(kw.pop('params', {}), threads=len(ops), **{'len%d' % t: len(l) for t, l in enumerate(ops)})
    for t, l in enumerate(ops):
        for i, o in enumerate(l):
            p['t%d%d' % (t, i)] = o
    return J(name, 'conc.cpp', **GRAPH, params=p, **kw)


prop('P09', [K('two-%d.%d.%d' % (q, a, b), [[q], [a, b]]) for q in range(13, 22)
             for a, b in ((0, 1), (1, 0), (0, 0), (1, 1), (2, 0), (3, 1), (2, 3), (3, 2), (4, 0), (1, 4), (5, 4), (6, 5), (5, 6), (5, 0), (2, 5), (3, 5))] +
     [K('nodes-%d.%d.%d' % (q, a, b), [[q], [a, b]]) for q in (15, 16, 17, 18, 20, 21)
      for a, b in ((7, 8), (8, 7), (5, 7), (7, 5), (9, 8), (11, 9), (12, 10), (0, 9), (1, 10), (4, 7))] +
     [K('dump', [[22], [0, 5]])] + [K('pair-%d' % a, [[a], [-1]], params=dict(nops=23)) for a in range(23)],
     [K('any-%d' % q, [[q], [-1, -1]], params=dict(nops=13)) for q in range(13, 23)])
prop('P27', [J('round-trip', 'typehash.cpp', **QOS, params=dict(mode=0), covers=['unset', 'text', 'round trip']),
             J('cut', 'typehash.cpp', **QOS, params=dict(mode=1, part=0), covers=['malformed', 'parsed', 'absent'])] +
            [J('altered%d' % i, 'typehash.cpp', **QOS, params=dict(mode=1, part=i), covers=['parsed']) for i in range(1, 5)] +
            [J('longer%d' % n, 'typehash.cpp', **QOS, params=dict(mode=0, longer=n), covers=['round trip'], steps=400000000) for n in (300, 66000)] +
            [J('bytes', 'typehash.cpp', **QOS, params=dict(mode=2, len=2), covers=['malformed', 'absent']),
             J('arguments', 'typehash.cpp', **QOS, params=dict(mode=3), covers=['unset', 'failed'])])


def X(name, ops, **kw):
    p = dict(kw.pop('params', {}), threads=len(ops), len=len(ops[0]))
    for t, l in enumerate(ops):
        for i, o in enumerate(l):
            p['t%d%d' % (t, i)] = o
    return J(name, 'ctxconc.cpp', **CTX, params=p, **kw)


prop('P14', [X('pair-%d' % a, [[a], [-1]], params=dict(fail=1)) for a in range(10)] +
     [X('three-%d' % a, [[a], [b], [c]], params=dict(fail=0), atomics=1) for a, b, c in ((0, 2, 10), (4, 6, 10), (8, 9, 11))])
prop('P19', [K('%s-%d' % (n, a), [[a], [c]], params=dict(mode=1)) for n, c in (('replace', 23), ('clear', 24)) for a in range(13)])

# The same code with its assertions in effect (the other jobs are compiled with NDEBUG).
for _pid, _names in dict(
        P01=('hist-00', 'hist-11'), P02=('info-1.9.9', 'info-1.10.10'), P03=('names-9.9.10', 'names-1.9.9'), P04=('bynode-1.9.10',),
        P05=('nodes-0.1.1',), P06=('local-0.3.3.5.6', 'local-0.3.5.5.7', 'local-0.3.6.6.8', 'local-0.3.3.4.3'), P07=('part-0.1.0.1', 'part-1.2.1'),
        P08=('cb-0.3.5.7', 'cb-0.3.6.8'), P10=('fail3-111', 'fail5-111'), P12=('seq-0.6.7', 'seq-0.8.9', 'seq-0.2.3', 'seq-0.4.5', 'seq-0.0.1'),
        P13=('rb-0.2.6', 'rb-0.6.8', 'rb-0.2.4', 'rb-0.4.2', 'rb-0.0.0'), P15=('order',), P16=('conversion',), P17=('text0',), P28=('dump-0.3.5',)).items():
    _l = PROPS[_pid]['quick']
    for _n in _names:
        _j = [j for j in _l if j['name'] == _n]
        assert _j, (_pid, _n)
        _l.append(dict(_j[0], name=_n + '-assert', ndebug=False))


def S(name, mode, n, **kw):
    return J(name, 'scale.cpp', **GRAPH, params=dict(kw.pop('params', {}), mode=mode, n=n), covers=['many'],
             bounds='%d of them, concrete but for one of them' % n, **kw)


for _r in (0, 1):
    PROPS['P01']['quick'].append(S('many%d' % _r, 0, 260, params=dict(reader=_r)))
    PROPS['P02']['quick'].append(S('many%d' % _r, 0, 260, params=dict(reader=_r)))
    PROPS['P04']['quick'].append(S('many%d' % _r, 3, 520, params=dict(reader=_r)))
PROPS['P03']['quick'].append(S('many', 1, 520))
PROPS['P05']['quick'].append(S('many', 2, 260))
PROPS['P06']['quick'].append(S('many', 4, 260, steps=400000000))
PROPS['P28']['quick'].append(S('many', 5, 260, steps=400000000))
for _d in (1, 2, 4, 8, 16):
    PROPS['P22']['quick'].append(QJ('sub-many-%d' % _d, 2, params=dict(n=258, dims=_d), bounds='258 publishers, all alike but one'))
    PROPS['P23']['quick'].append(QJ('pub-many-%d' % _d, 3, params=dict(n=258, dims=_d), bounds='258 subscriptions, all alike but one'))
for _s in (0, 1):
    PROPS['P25']['quick'].append(QJ('topic-many-%d' % _s, 4, params=dict(sub=_s, n=258, dims=5), bounds='258 endpoints, all alike but one'))
for _t, _m in (('sub', 2), ('pub', 3)):
    for _d in (7, 8, 16):
        PROPS['P24']['quick'].append(QJ('%s-many-%d' % (_t, _d), _m, params=dict(n=258, uniform=1, dims=_d), covers=['compatible'],
                                        bounds='258 endpoints, all alike but one'))


def mid(pid, seqs, query, **kw):
    PROPS[pid]['quick'] += hists('mid', seqs, params=dict(dict(query=query, mid=1, nodes=1), **kw))


# Queries between the changes.
PROPS['P01']['quick'] += [J('mid-%d%d' % (a, b), 'registry.cpp', **GRAPH, params=dict(op0=a, op1=b, steps=3, query=0, mid=1)) for a in (0, 1) for b in range(4)]
mid('P02', [[U, W, XW], [U, RD, XR], [W, U], [RD, U], [A, W, R], [U, W, R], [U, W, U], [W, W], [RD, W]], 4)
mid('P03', [[W, W], [RD, RD], [W, RD], [W, XW], [RD, XR], [W, XW, W], [RD, XR, RD]], 64)
mid('P04', [[U, W, XW], [U, RD, XR], [W, U, U], [RD, U, U], [U, W, R], [U, W, W], [U, RD, RD]], 2)
mid('P05', [[A, U], [U, A], [U, U], [U, R], [A, U, R], [U, R, U], [A, AN, RN], [A, AN, AN]], 1)
PROPS['P01']['quick'] += [J('once-%d%d' % (a, b), 'registry.cpp', **GRAPH, params=dict(op0=a, op1=b, steps=3, query=0, mid=2)) for a in (0, 1) for b in range(4)]
for _pid, _q, _l in (('P02', 4, [[U, W, XW, W], [U, RD, XR, RD], [W, U, R], [RD, U, R], [A, W, R], [U, W, W], [U, RD, RD], [W, XW, W], [RD, XR, RD], [U, W, U]]),
                     ('P03', 64, [[W, W], [RD, RD], [W, RD], [W, XW, W], [RD, XR, RD], [W, W, XW], [RD, RD, XR]]),
                     ('P04', 2, [[U, W, XW, W], [U, RD, XR, RD], [W, U, U], [RD, U, U], [U, W, R], [U, R, U], [U, W, W], [U, U, R]]),
                     ('P05', 1, [[U, U, R], [U, R, U], [A, U, A], [A, AN, RN, AN], [U, U, U], [A, U, R]]),
                     ('P07', 7, [[U, R, U], [A, U, R, U], [U, W, R, U]])):
    for _f in (0, 1) if _pid in ('P02', 'P03', 'P04') else (0,):
        PROPS[_pid]['quick'] += hists('once%d' % _f, _l, params=dict(query=_q, mid=2, nodes=1, flip=_f))
# What shows only with nodes, or with as many nodes as before.
PROPS['P05']['quick'] += lens([[A, A, U], [A, A, AN]], 1)
PROPS['P07']['quick'] += lens([[A, A, U], [A, A, AN]], 7) + hists('two', [[U, U], [A, U, U]], params=dict(query=7, nodes=2))
PROPS['P28']['quick'] += hists('short', [[U], [A, AN]], params=dict(query=256, gid_bytes=1, sns=1, stype=0, lens=3, nr=0, few=1))
mid("P28", [[W, XW], [RD, XR], [A, R], [U, R]], 256, gid_bytes=1, sns=0, stype=0, few=1, nr=0)


# Earlier calls with other arguments.
def again(pid, *names):
    l = PROPS[pid]['quick']
    for n in names:
        j = [x for x in l if x['name'] == n]
        assert j, (pid, n)
        l.append(dict(j[0], name=n + '-again', params=dict(j[0]['params'], prior=1)))


again('P15', 'order', 'map')
again('P16', 'conversion')
again('P17', 'text0', 'text15')
again('P18', 'clamp')
again('P20', *['verdict%d' % r for r in range(5)])
again('P21', 'reason-policies', 'reason-times', 'arguments')
again('P22', 'sub0', 'sub1', 'sub2')
again('P23', 'pub0', 'pub1', 'pub2')
again('P24', 'sub1-31', 'pub1-31', 'sub2-31', 'pub2-31')
again('P25', 'topic-01-31', 'topic-11-31', 'topic-00-31', 'topic-10-31')
again('P26', 'services')
again('P27', 'round-trip', 'cut', 'bytes', 'arguments')
again('P30', 'presence', 'focus4')
again('P31', 'focus0', 'focus2')
again('P32', 'rootsym', 'prefix')
again('P33', 'presence', 'focus6')


PURE = dict(srcs=['qos.cpp', 'gid_utils.cpp', 'time_utils.cpp', 'security.cpp'])
prop('P34', [J('pair-%d' % a, 'pure.cpp', **PURE, params=dict(op0=a), covers=['warm', 'cold']) for a in range(12)])


def T(name, op, fault, **kw):
    return J(name, 'throw.cpp', **CTX, params=dict(dict(op=op, fault=fault), **kw.pop('params', {})), leaks=True, **kw)


prop('P35', [T('callback-%d' % o, o, 0, covers=['thrown']) for o in list(range(13)) + list(range(30, 40))] +
     [T('demangle-%d' % o, o, 1, covers=['thrown', 'enough']) for o in range(17, 22)] +
     [T('memory-%d' % o, o, 2, covers=['enough'] + (['thrown'] if o in (0, 1, 4, 5, 7) else [])) for o in list(range(23)) + list(range(30, 40))] +
     [T('stream-22', 22, 3, params=dict(most=120), covers=['thrown']), ] +
     [T('publish-%d' % o, o, 4, params=dict(most=1), covers=['thrown']) for o in range(30, 40)])


# ------------------------------------------------------------------------------------------------------- the thorough tier
def deep(pid, *lists):
    PROPS[pid]['thorough'] = (PROPS[pid]['thorough'] or []) + \
        [dict(j, name='deep-' + j['name'], time=max(j['time'], 1500), mem=max(j['mem'], 3600), steps=max(j['steps'], 400000000)) for l in lists for j in l]


def anyhists(tag, seqs, **kw):
    kw['params'] = dict(kw.get('params', {}), nops=14)
    return hists(tag, seqs, **kw)


deep('P01', [J('hist4-%d%d%d' % (a, b, d), 'registry.cpp', **GRAPH, params=dict(op0=a, op1=b, op2=d, steps=4, query=1, gid_bytes=1)) for a in (0, 1) for b in range(4) for d in range(4)])
deep('P02', hists('any', [[U, a, b] for a in (A, U, R, W, RD) for b in (W, RD, XW, XR, U, R)], params=dict(query=4, nodes=2)),
     hists('four', [[U, W, XW, W], [U, RD, XR, RD], [U, W, R, U], [U, W, U, RD], [U, W, W, XW], [W, RD, U, U]], params=dict(query=4, nodes=1)))
deep('P03', hists('any', [[a, b, d] for a in (W, RD) for b in (W, RD, XW, XR, R, U) for d in (W, RD, XW, XR)], params=dict(query=64, nodes=1)),
     hists('four', [[W, W, W, XW], [RD, RD, RD, XR], [W, RD, W, RD], [W, XW, W, XW]], params=dict(query=64, nodes=1)))
deep('P04', hists('any', [[U, a, b] for a in (A, U, R, W, RD) for b in (W, RD, XW, XR, U, R)], params=dict(query=2, nodes=2)),
     hists('four', [[U, W, RD, XW], [U, W, XW, W], [U, RD, XR, RD], [U, W, R, U], [U, U, W, RD]], params=dict(query=2, nodes=1)))
deep('P05', hists('any', [[a, b, d] for a in (A, U) for b in (A, U, R, AN) for d in (A, U, R, AN, RN)], params=dict(query=1, nodes=2)),
     hists('four', [[U, R, U, R], [A, U, U, R], [U, U, U, U], [A, A, AN, RN], [A, AN, AN, RN]], params=dict(query=1, nodes=2)))
deep('P06', hists('any', [[A, AN, a, b] for a in (AN, AW, AR, U, RN, R) for b in (AN, RN, AW, AR, DW, DR, U, R)], params=dict(query=40, nodes=1)),
     hists('six', [[A, AN, AN, AW, AR, DW], [A, AN, AW, AR, RN, AN], [A, AN, AW, DW, AW, AR], [A, AN, AR, RN, AN, AR]], params=dict(query=40, nodes=1)))
deep('P07', hists('any', [[a, b, d] for a in (A, U) for b in (A, U, R, W, RD) for d in (A, U, R)], params=dict(query=7, nodes=1)),
     hists('five', [[A, U, R, A, U], [U, A, R, U, R], [A, R, A, R, A], [A, AN, AW, R, A]], params=dict(query=7, nodes=1)))
deep('P08', anyhists('any', [[a, b, -1] for a in (A, U, W, RD, CLR) for b in range(14)] + [[A, AN, a, -1] for a in (AN, AW, AR, DW, DR, RN, CLR, U, R)], params=dict(query=16)))
_rest = lambda a: [[a], [-1], [-1]]
deep('P09', [K('three-%d' % q, [[q], [0], [1]]) for q in range(13, 22)] + [K('three-%d.%d' % (q, w), [[q], [w], [4]]) for q in (13, 16, 18) for w in (0, 5, 7)],
     [K('queries-%d' % a, [[a], [13 + a % 9], [0]]) for a in range(13, 22)])
deep('P10', [J('fail%d-%d%d%d' % (q, p, n, e), 'alloc.cpp', **GRAPH, params=dict(mode=0, q=q, participants=p, nodes=n, endpoints=e), leaks=True,
               covers=['failed', 'enough']) for q in range(7) for p, n, e in ((3, 2, 2), (1, 4, 3), (2, 3, 3))])
deep('P12', ctxs('all', [[0, a, b, d] for a in range(10) for b in ADDS for d in range(10)], params=dict(what=1, fail=2)))
deep('P13', ctxs('every', [[0, a, b, d] for a in range(10) for b in (2, 4, 6, 8) for d in range(10)], params=dict(what=2, fail=2)))
deep('P14', [X('any-%d.%d' % (a, b), [[a, b], [-1, -1]], params=dict(fail=0, nops=10), atomics=1) for a, b in ((0, 2), (4, 5), (6, 7), (8, 9), (2, 1))],
     [X('three-%d.%d.%d' % (a, b, c), [[a], [b], [c]], params=dict(fail=0), atomics=1) for a, b, c in ((0, 1, 2), (2, 4, 6), (6, 8, 0), (3, 5, 7), (7, 9, 1), (2, 11, 12), (6, 7, 10), (8, 9, 4))])
deep('P17', [J('text%d' % i, 'gid.cpp', **GID, params=dict(mode=2, at=i, sym=3), covers=['text']) for i in range(14)])
deep('P19', [K('%s-%d.%d' % (n, a, b), [[a], [b], [c]], params=dict(mode=1)) for n, c in (('replace', 23), ('clear', 24)) for a, b in ((0, 1), (1, 4), (5, 0), (7, 9), (3, 2), (0, 0))])
deep('P21', [QJ('reason-tight%d' % n, 1, params=dict(part=31, size=n, tight=1)) for n in (0, 1, 2, 20, 40, 200)],
     [QJ('reason-all%d' % d, 1, params=dict(part=d, size=n)) for d, n in ((31, 700), (15, 120), (28, 60))])
for _t, _m, _p in (('sub', 2, 'P22'), ('pub', 3, 'P23')):
    deep(_p, [QJ('%s3-%d' % (_t, d), _m, params=dict(n=3, dims=d)) for d in (19, 21, 24, 28, 15)],
         [QJ('%s4-%d' % (_t, d), _m, params=dict(n=4, dims=d)) for d in (3, 5, 6, 9, 12, 17)],
         [QJ('%s6-%d' % (_t, d), _m, params=dict(n=6, dims=d)) for d in (1, 2, 4, 8, 16)])
deep('P24', [QJ('%s%d-%d' % (t, n, d), m, params=dict(n=n, uniform=1, dims=d), covers=['compatible']) for t, m in (('sub', 2), ('pub', 3))
             for n, d in ((3, 24), (3, 31), (4, 7), (4, 24))])
deep('P25', [QJ('topic-%d%d-%d' % (s, n, d), 4, params=dict(sub=s, n=n, dims=d)) for s in (0, 1) for n, d in ((2, 31), (3, 7), (3, 24))])
deep('P27', [J('bytes%d' % n, 'typehash.cpp', **QOS, params=dict(mode=2, len=n), covers=['malformed']) for n in (3, 4)])
deep('P28', hists('any', [[a, b] for a in (A, U) for b in (A, U, R, AN) if (a, b) != (U, U)] + [[a, b] for a in (W, RD) for b in (W, RD, XW, XR)] + [[A, AN, AN], [A, AN, AR], [A, AN, RN]],
                  params=dict(query=256, gid_bytes=1, sns=0, stype=0)))
deep('P30', [J('len%d' % i, 'security.cpp', **SEC, params=dict(mode=1, focus=i, len=7)) for i in (4, 5)])
deep('P31', [J('len%d' % i, 'security.cpp', **SEC, params=dict(mode=1, focus=i, len=7)) for i in range(4)])
deep('P32', [J('prefixlen', 'security.cpp', **SEC, params=dict(mode=4, plen=40)), J('rootlen', 'security.cpp', **SEC, params=dict(mode=3, rlen=5))])
deep('P33', [J('len6', 'security.cpp', **SEC, params=dict(mode=1, focus=6, len=7))])
deep('P34', [J('three-%d.%d.%d' % (a, b, d), 'pure.cpp', **PURE, params=dict(op0=a, op1=b, op2=d, threads=3), atomics=1)
             for a, b, d in ((1, 1, 1), (3, 3, 3), (6, 7, 8), (9, 9, 9), (10, 11, 11), (7, 8, 9), (8, 8, 8))])
deep('P35', [T('memory-%d' % o, o, 2, params=dict(most=40), covers=['enough']) for o in list(range(23)) + list(range(30, 40))])
