"""Synthesizes signals, writes and reads wave files."""
import os, shutil, tempfile, warnings, wave, struct, io, contextlib
import numpy
warnings.simplefilter('ignore')
from pyphs import signalgenerator
from pyphs.misc.signals.waves import wavwrite, wavread
from common import q, rat

KEYS = {'tsig': 'tsig', 'tdeb': 'tdeb', 'tend': 'tend', 'A': 'A', 'A1': 'A1', 'f0': 'f0', 'f1': 'f1', 'ratio': 'cycle_ratio',
        'attack': 'attack_ratio', 'decay': 'decay_ratio', 'noise': 'bkgrd_noise', 'offset': 'offset', 'phi': 'phi'}
DEFAULT = {'tdeb': '0', 'tend': '0', 'A': '1', 'A1': '0', 'ratio': '1', 'attack': '0', 'decay': '0', 'noise': '0', 'offset': '0', 'phi': '-90'}


def num(v):
    return rat(float(v))


def synth(s):
    a = {'which': s['which'], 'fs': s['fs']}
    if s['ncycles'] != 1:
        a['ncycles'] = s['ncycles']
    if s['ramp']:
        a['ramp_on'] = True
    for k, n in KEYS.items():
        if DEFAULT.get(k) != s[k]:
            a[n] = float(q(s[k]))
            if k in ('tsig', 'tdeb', 'tend'):
                a[n] = exact(s[k], s['fs'])
    return signalgenerator(**a)


def exact(t, fs):
    """a float whose product with fs is on the right side of whole numbers"""
    v = q(t)
    f = float(v)
    n = int(v * fs)
    while int(f * fs) < n:
        f = float(numpy.nextafter(f, 1e9))
    return f


def wavitem(w, d, name, sig=None, fs=None):
    it = {'kind': 'wav', 'exc': '', 'w': {k: w[k] for k in ('sig', 'fs', 'fade', 'norm', 'out', 'tone')}}
    try:
        vals = [float(q(v)) for v in w['sig']] if sig is None else sig
        sig = {'list': lambda: vals, 'array': lambda: numpy.array(vals), 'generator': lambda: (v for v in vals)}[w['form']]()
        path = os.path.join(d, name)
        kw = {}
        if w['norm'] == 'max':
            kw['normalize'] = True
        elif w['norm'] != '':
            kw['normalize'] = float(q(w['norm']))
        if w['out']:
            kw['fs_out'] = w['out']
        if w['fade'] != '0':
            kw['timefades'] = exact(w['fade'], w['fs'])
        with contextlib.redirect_stdout(io.StringIO()):
            wavwrite(sig, w['fs'], path + ('.wav' if w['ext'] else ''), **kw)
            readback(it, path + '.wav')
    except Exception as e:
        it['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return it


def readback(it, path):
    rate, got = wavread(path)
    it['rate'] = int(rate)
    it['got'] = [num(v) for v in got]
    f = wave.open(path, 'rb')
    b = f.readframes(f.getnframes())
    f.close()
    it['bytes'] = list(struct.unpack('<%dh' % (len(b) // 2), b))


def run(job):
    d = tempfile.mkdtemp(prefix='sig')
    try:
        if job['kind'] == 'data':
            return {'job': job, 'it': data(job, d)}
        it = {'kind': 'synth', 's': job['s'], 'exc': '', 'got': []}
        items = [it]
        try:
            sig = synth(job['s'])
            it['got'] = [num(v) for v in sig]
            # the signal goes to a file
            w = dict(job['w'], sig=it['got'], fs=job['s']['fs'], form='array', norm='max', fade='0', out=0)
            items.append(wavitem(w, d, 'b', sig=[float(v) for v in sig]))
        except Exception as e:
            it['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        items.append(wavitem(job['w'], d, 'a'))
        return {'job': job, 'it': items}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def data(job, d):
    """a recorded simulation exported to files"""
    from h_sim import Model
    import pyphs
    m = Model(job['m'], 'm', False)
    items = []
    fs = job['fs']
    with contextlib.redirect_stdout(io.StringIO()):
        cf = {'fs': float(fs), 'path': d, 'pbar': False, 'timer': False}
        simu = m.core.to_simulation(config=cf)
        nt = job['nt']
        rng = numpy.random.RandomState(job['seed'])
        simu.init(u=rng.uniform(-1, 1, size=(nt, len(m.core.y))), nt=nt)
        simu.process()
    for k, w in enumerate(job['ws']):
        it = {'kind': 'wav', 'exc': '', 'w': {}}
        try:
            name, gain = w['var'], float(q(w['gain']))
            # the file holds every sample of the reading window, whatever the reading step
            a, b = (0, nt) if k % 2 == 0 else (rng.randint(0, nt // 3), rng.randint(nt // 2, nt + 1))
            simu.data.start = simu.data.stop = simu.data.step = None
            vals = [float(v) * gain for v in getattr(simu.data, name)(vslice=w['i'])][a:b]
            if k % 2 or k % 3 == 1:
                simu.data.stop, simu.data.start, simu.data.step = b, a, 1 + k % 3
            it['w'] = {'sig': [num(v) for v in vals], 'fs': fs, 'fade': w['fade'], 'norm': w['norm'], 'out': 0, 'tone': []}
            kw = {'normalize': True if w['norm'] == 'max' else float(q(w['norm']))}
            path = os.path.join(d, 'out%d' % k)
            with contextlib.redirect_stdout(io.StringIO()):
                simu.data.wavwrite(name, w['i'], path=path, gain=gain, timefades=exact(w['fade'], fs), **kw)
            readback(it, path + '.wav')
        except Exception as e:
            it['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        items.append(it)
    return items
