"""What decides which property."""

def mc(group, depth, pts, limit=2500, tdepth=None, tpts=None, tlimit=30000, **kw):
    return dict(group=group, depth=depth, pts=pts, limit=limit, thorough=dict(depth=tdepth or depth, pts=tpts or pts, limit=tlimit), **kw)

def every(quick, thorough, without=()):
    """all topics"""
    return [(t, quick, thorough) for t in TOPICS if t not in without]


TOPICS = ['perm', 'pad', 'split', 'diff', 'arith', 'smaller', 'stat', 'dot', 'map', 'modulo', 'cplxreal', 'window', 'dft', 'sdft', 'conv', 'mfr',
          'corr', 'interp', 'lin', 'ctor', 'convert', 'elem', 'hist', 'state', 'fail', 'store', 'threads']

PROPS = {
    'C01': dict(topics={'std': [('state', 1, 20), ('hist', 2, 40)]}, mc=[mc('state', 2, 1, limit=2500, every=8, tdepth=2, tpts=2, tlimit=20000)]),
    'C02': dict(topics={'std': [('hist', 4, 80)]}, mc=[mc('len', 2, 3, limit=3000, every=8, tdepth=2, tpts=4)]),
    'C03': dict(topics={'std': [('arith', 1, 30)]}, mc=[mc('arith', 2, 2, every=2, tdepth=3)]),
    'C04': dict(topics={'std': [('smaller', 1, 12)]}, mc=[mc('smaller', 2, 4, tdepth=2, tpts=6)]),
    'C05': dict(topics={'std': [('elem', 1, 12)]}, mc=[mc('elem', 1, 4, limit=2000, tdepth=1, tpts=7)]),
    'C06': dict(topics={'std': [('threads', 2, 40)]}, mc=[mc('threads', 3, 6, module='Threads', limit=3000, every=2, tdepth=5, tpts=8)]),
    'C07': dict(topics={'std': [('store', 3, 40)]}, mc=[mc('len', 2, 3, limit=400, every=20, tdepth=2, tpts=4, tlimit=6000, storages=True), mc('split', 2, 3, limit=150, every=4, storages=True)]),
    'C08': dict(topics={'std': [('fail', 2, 40)]}, mc=[mc('pair', 1, 3, limit=3000, every=20, tdepth=1, tpts=4)]),
    'C09': dict(topics={'std': [('perm', 3, 60)]}, mc=[mc('perm', 3, 6, tdepth=5, tpts=9)]),
    'C10': dict(topics={'std': [('pad', 2, 30)]}, mc=[mc('pad', 1, 5, tdepth=2, tpts=4)]),
    'C11': dict(topics={'std': [('split', 2, 30)]}, mc=[mc('split', 2, 4, tdepth=2, tpts=6)]),
    'C12': dict(topics={'std': [('diff', 3, 60)]}, mc=[mc('diff', 3, 5, tdepth=4, tpts=7)]),
    'C13': dict(topics={'std': [('stat', 1, 20)]}, mc=[mc('stat', 1, 6, tdepth=2, tpts=7)]),
    'C14': dict(topics={'std': [('dot', 2, 30)]}, mc=[mc('dot', 2, 4, tdepth=2, tpts=7)]),
    'C15': dict(topics={'std': [('cplxreal', 1, 15)]}, mc=[mc('cplxreal', 2, 3, tdepth=3, every=2)]),
    'C16': dict(topics={'std': [('map', 2, 40)]}, mc=[mc('map', 2, 3, tdepth=3, tpts=4)]),
    'C17': dict(topics={'std': [('dft', 2, 40)]}, mc=[mc('dft', 2, 4, limit=3000, every=4, tdepth=3, tpts=6)]),
    'C18': dict(topics={'std': [('sdft', 2, 40)]}, mc=[mc('dft', 2, 5, limit=3000, every=6, tdepth=3, tpts=7)]),
    'C19': dict(topics={'std': [('window', 2, 40)]}, mc=[mc('window', 2, 4, limit=3000, every=2, tdepth=2, tpts=7)]),
    'C20': dict(topics={'std': [('conv', 1, 12)]}, mc=[mc('conv', 2, 3, tdepth=2, tpts=6)]),
    'C21': dict(topics={'std': [('mfr', 1, 20)]}, mc=[mc('mfr', 2, 4, every=2, tdepth=2, tpts=7)]),
    'C22': dict(topics={'std': [('corr', 2, 40)]}, mc=[mc('corr', 2, 3, tdepth=3, tpts=3)]),
    'C23': dict(topics={'std': [('interp', 1, 20)]}, mc=[mc('interp', 1, 4, limit=2000, tdepth=2, tpts=3)]),
    'C24': dict(topics={'std': [('lin', 1, 20)]}, mc=[mc('lin', 2, 4, every=3, tdepth=2, tpts=6)]),
    'C25': dict(topics={'mat': [('mat', 1, 8)]}, mc=[mc('len', 2, 3, limit=3000, every=8, tdepth=2, tpts=4, driver='mat', lift=True), mc('pair', 1, 3, limit=1500, every=20, tdepth=1, tpts=4, driver='mat', lift=True)]),
    'C26': dict(topics={'cif': every(1, 8, ['ctor', 'store', 'state']) + [('clone', 1, 8)]}, mc=[mc('len', 2, 3, limit=2000, every=8, tdepth=2, tpts=4, driver='cif', worlds=['c32', 'c64']), mc('pair', 1, 3, limit=2000, every=20, tdepth=1, tpts=4, driver='cif', worlds=['c32', 'c64'])]),
    'C27': dict(topics={'nostd': every(1, 6, ['store', 'threads']), 'sse2': every(1, 10), 'avx2': every(1, 10)}),
    'C28': dict(topics={'std': [('modulo', 3, 60)]}, mc=[mc('modulo', 2, 4, tdepth=3)]),
    'C29': dict(topics={'std': [('ctor', 1, 12), ('convert', 1, 20)]}, mc=[mc('type', 2, 3, tdepth=3, tpts=4, every=3)]),
    'C30': dict(topics={'std': [('fn', 1, 20)]}, mc=[mc('fn', 14, 3, module='FnMC', limit=1500, tdepth=14, tpts=4, tlimit=20000, worlds=['c32', 'c64'])]),
}

NOT_CLAIMED = {}
