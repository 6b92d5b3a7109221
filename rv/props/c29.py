"""Status bits of the gravimeter."""
import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = a batch of status words (all 65536 over a thorough run) as integers or as a table column. Non-trivial: at least one bit set; '
        'signature: group, block of words, table layout.')
ASSUMPTIONS = ['Words have sixteen bits, most significant first; flags are the characters 0 and 1. Tables may be extended in place.']
TARGETS = ['utils.decode_dgs_status_bits']
FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host',
         'NavMod1', 'NavMod2', 'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def bits(w):
    return {f: '1' if w >> (15 - i) & 1 else '0' for i, f in enumerate(FLAGS)}


def single(ctx):
    base = (ctx.idx * 512) % 65536
    step = 1 if ctx.tier == 'thorough' else 8
    ws = list(range(base, base + 512, step)) + [1 << ctx.randint(0, 15), 65535, 0]
    for w in ws:
        d = ctx.call('utils.decode_dgs_status_bits', w)
        ctx.same(list(d.items()), list(bits(w).items()), 'flags of status word %d' % w)
        del ctx.events[:-4]
    ctx.count('words', len(ws))
    ctx.cover('single', base)


def table(ctx):
    n = ctx.pick(0, 1, 2, 20, 300) if ctx.idx % 25 else ctx.pick(1500, 5000, 70000)
    key = ctx.pick('status', 'status', 'stat_word')
    ws = [int(w) for w in ctx.rng.integers(0, 65536, n)]
    if ctx.chance(.3):
        ws = [ctx.pick(0, 65535, 1, 32768, 255, 43690) for _ in range(n)]
    before = {'a': ctx.rng.random(n), key: np.array(ws, dtype=ctx.pick('int64', 'int64', 'uint16', 'int32', 'uint64', '>u2', 'object')), 'b': ['x%d' % i for i in range(n)]}
    if key != 'status' and ctx.chance(.7):      # words of another instrument under the usual name
        before['status'] = ctx.rng.integers(0, 65536, n)
    kinds = {}
    names = [list(before)[i] for i in ctx.rng.permutation(len(before))]
    df = pd.DataFrame({k: before[k] for k in names})
    lab = ctx.pick('range', 'offset', 'shuffled', 'time', 'same', 'twice', 'names')
    idx = {'range': list(range(n)), 'offset': list(range(100, 100 + n)), 'shuffled': [int(i) for i in ctx.rng.permutation(n)],
           'same': [0] * n, 'twice': [i % (n // 2 + 1) for i in range(n)], 'names': ['r%d' % i for i in range(n)],
           'time': list(pd.date_range('2024-01-01', periods=n, freq='s'))}[lab]
    df.index = idx
    kinds = dict(df.dtypes)
    ctx.inputs = {'columns': names, 'words': ws, 'index': lab}
    out = ctx.call('utils.decode_dgs_status_bits', df, **({} if key == 'status' else {'key': key}))
    ctx.check(isinstance(out, pd.DataFrame), 'a table is returned for a table')
    ctx.same(list(out.index), idx, 'row labels')
    ctx.same(sorted(out.columns), sorted(names + FLAGS), 'columns after decoding')
    ctx.same([c for c in out.columns if c in FLAGS], FLAGS, 'order of the flags')
    ctx.same([c for c in out.columns if c not in FLAGS], names, 'order of the other columns')
    for f in FLAGS:
        ctx.same([str(v) for v in out[f]], [bits(w)[f] for w in ws], 'column of flag ' + f)
    for k in names:
        ctx.same(list(out[k]), list(before[k]), 'column %s after decoding' % k)
        ctx.same(str(out[k].dtype), str(kinds[k]), 'type of column %s after decoding' % k)
    ctx.cover('table', n, key, tuple(names), lab)


def refuse(ctx):
    bad = ('12', 3.0, None, [1, 2], b'1', {'status': 3}, np.array([1, 2]))[ctx.idx % 7]
    ok, res = ctx.call_raw('utils.decode_dgs_status_bits', bad)
    ctx.check(not ok, 'a status of type %s is accepted' % type(bad).__name__, got=res)
    ctx.cover('refuse', type(bad).__name__)


GROUPS = [Group('single', single, 128, 128), Group('table', table, 100, 2000), Group('refuse', refuse, 14, 40)]
