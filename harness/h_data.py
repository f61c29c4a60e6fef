"""Records a small simulation, then plays histories of window settings and queries on its data."""
import os, shutil, tempfile, warnings
import numpy, h5py
warnings.simplefilter('ignore')
from common import q, rat
from h_sim import Model, cfgs

NAMES = ('x', 'dx', 'dxH', 'w', 'z', 'y', 'u', 'p')


def raw(simu, M):
    """the recorded table, read from the file itself, components in the order of the numerical method"""
    with h5py.File(simu.data.h5path, 'r') as f:
        g = f['global'][:]
        tab = {}
        for n in NAMES:
            a, b = [int(v) for v in f[n].attrs['inds']]
            tab[n] = [[rat(float(v)) for v in row[a:b]] for row in g]
    return tab


def ordered(p, order):
    """polynomial with the components renumbered as in the numerical method"""
    return [{'c': t['c'], 'm': [[v[0], order[v[0]][v[1] - 1]] for v in t['m']]} for t in p]


def sel(s, none=None):
    if s['k'] == 'none':
        return none
    if s['k'] == 'int':
        return s['a'][0]
    one = lambda o: o[0] if o else None
    return slice(one(s['a']), one(s['b']), one(s['c']))


def window(d):
    return {'exc': '', 'start': int(d.start), 'stop': int(d.stop), 'step': int(d.step), 'tstart': rat(float(d.tstart)), 'tstop': rat(float(d.tstop))}


def play(simu, e, fs):
    d = simu.data
    if e['op'] == 'set':
        v = None if not e['v'] else e['v'][0]
        if e['what'][0] == 't' and v is not None:
            v = (v / 1000.) / fs
        setattr(d, e['what'], v)
        return window(d)
    ts, vs = sel(e['ts']), sel(e['vs'])
    name = e['name']
    if e['style'] == 'item':
        if e['vs']['k'] == 'none' and e['ts']['k'] == 'none':
            v = d[name]
        elif e['vs']['k'] == 'none':
            v = d[name, ts]
        else:
            v = d[name, ts, vs]
    else:
        kw = {}
        if e['gain'] != '1':
            g = float(q(e['gain']))
            kw['postprocess'] = lambda a: g * a
        if name == 'dtEd':
            name, kw['DtE'] = 'dtE', 'deltaH'
        if e['vs']['k'] != 'none':
            kw['vslice'] = vs
        v = getattr(d, name)(tslice=ts, **kw)
    v = numpy.asarray(v)
    if v.ndim == 1:
        out = [rat(float(a)) for a in v]
    else:
        out = [[rat(float(a)) for a in row] for row in v]
    return {'exc': '', 'dim': v.ndim, 'v': out}


def run(job):
    from pyphs import Simulation
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    m, nt, fs = job['m'], job['nt'], float(q(job['cf']['fs']))
    out = {'nt': nt, 'ev': job['ev'], 'obs': [], 'exc': '', 'sent': {}, 'D': {'tab': {n: [] for n in NAMES}, 'fs': job['cf']['fs'], 'H': [], 'o': []}}
    try:
        M = Model(m, 'mod')
        mc = cfgs(job['cf'])
        sc = dict(mc, fs=fs, path=os.path.join(d, 'res'), lang='python', pbar=False, timer=False)
        meth = M.core.to_method(config=mc)
        simu = meth.to_simulation(config=sc, inits={'x': [float(q(v)) for v in job['x0']]})
        u = [[float(q(v)) for v in job['u'][i % len(job['u'])]] for i in range(nt)]
        p = [[float(q(v)) + i for v in job['p'][i % len(job['p'])]] for i in range(nt)]
        simu.init(u=numpy.array(u), p=numpy.array(p), nt=nt)
        if job['run']:
            simu.process()
        out['sent'] = {'u': [[rat(v) for v in r] for r in u], 'p': [[rat(v) for v in r] for r in p]}
        D = out['D']
        D['tab'] = raw(simu, M)
        mx = [str(s) for s in meth.x]
        order = {'x': [mx.index(str(s)) + 1 for s in M.x], 'p': [1 + i for i in range(len(M.p))], 'u': [1 + i for i in range(len(M.u))]}
        D['H'] = ordered(m['H'], order)
        D['o'] = [ordered(o, order) for o in m['o']]
        for e in job['ev']:
            try:
                if e['op'] == 'reopen':
                    simu = Simulation(meth, config=sc, erase=False)
                    r = window(simu.data)
                else:
                    r = play(simu, e, fs)
            except Exception as x:
                r = {'exc': type(x).__name__ + ': ' + str(x)[:200]}
            out['obs'].append(r)
    except Exception as e:
        import traceback
        out['exc'] = type(e).__name__ + ': ' + str(e)[:200] + traceback.format_exc()[-400:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
