"""Checks over the register machine CoreMachine (P01, P02, P03, P06)."""
from vf.base import corrupt_selftest

CFG = '''INIT %(init)s
NEXT %(next)s
CONSTANTS Reg = {%(regs)s}
 Kinds <- KindsC
 MaxDim = %(maxdim)d
 Fills <- FillsC
 Pick <- %(pick)s
%(more)s
CHECK_DEADLOCK FALSE
'''


def tla_seq(l):
    return '<<' + ', '.join('"%s"' % k for k in l) + '>>'


def wrapper(name, base, kinds, fills):
    return '---- MODULE %s ----\nEXTENDS %s\nKindsC == %s\nFillsC == %s\n====\n' % (name, base, tla_seq(kinds), fills)


def cfg(init, nxt, regs, maxdim, pick, more):
    return CFG % dict(init=init, next=nxt, regs=', '.join('"%s"' % r for r in regs),
                      maxdim=maxdim, pick=pick, more=more)


def check(ctx, kinds, regs, model_kinds, num, depth, maxdim=9, model_depth=4, model_regs=None,
          model_fills='{2, 3}', model_dim=4, need=None, explore='CoreExplore', trace='CoreTrace', init='Init',
          invs='TypeOK Decomposition ConnectSound ConcatSound', lin=False, profiles=()):
    # 1. exhaustive exploration of the specification
    ctx.model('W', cfg(init, 'Next', model_regs or ['A'], model_dim, 'PickAll',
                       ' Depth = %d\nVIEW View\nINVARIANTS %s' % (model_depth, invs)),
              files={'W.tla': wrapper('W', explore, model_kinds, model_fills)})
    # 2. behaviours of the specification
    scripts = ctx.generate('W', cfg(init, 'Next', regs, maxdim, 'PickOne', ' Depth = %d\nINVARIANT Emit' % depth),
                           num, depth + 1, files={'W.tla': wrapper('W', explore, kinds, '1..40')})
    for kinds2, regs2, num2, depth2 in profiles:     # the same machine, other operation mixes
        scripts += ctx.generate('W', cfg(init, 'Next', regs2, maxdim, 'PickOne', ' Depth = %d\nINVARIANT Emit' % depth2),
                                num2 * (10 if ctx.thorough else 1), depth2 + 1,
                                files={'W.tla': wrapper('W', explore, kinds2, '1..40')})
    if need:
        scripts = [s for s in scripts if any(e['op'] == need for e in s)]
    jobs = [{'regs': regs, 'ev': s, 'lin': lin} for s in scripts]
    # 3. the real code executes them
    res = ctx.harness('h_core', jobs)
    traces, src = [], []
    for j, r in zip(jobs, res):
        if r.get('harness') == 'late':      # others did not end
            pass
        elif 'harness' in r:
            ctx.violation('history not executed: %s' % str(r)[:400], {'job': j, 'result': r})
        else:
            traces.append(r)
            src.append(j)
    # 4. the specification judges the traces
    tcfg = cfg('TInit', 'TNext', regs, maxdim, 'PickAll', '' if lin else ' NoReg = "none"')
    files = wrapper('WT', trace, kinds, '1..40')
    verdicts = validate(ctx, tcfg, files, traces)
    good = []
    for t, v in zip(traces, verdicts):
        if v:
            i = int(v[1])
            ctx.violation('clause %s at step %d: %s' % (v[0], i + 1, str(t['ev'][i])[:300]),
                          {'ev': t['ev'], 'obs': t['obs'][i], 'clause': v})
        else:
            if not t['obs'][-1]['exc']:
                good.append(t)
    ops = {}
    for t in traces:
        for e in t['ev']:
            ops[e['op']] = ops.get(e['op'], 0) + 1
    ctx.cov['operations_executed'] = ops
    if traces:
        ctx.sample({'history': traces[0]['ev']})
    if good and not ctx.violations:
        def swap_M(t):
            o = t['obs'][-1]['reg']
            for r in o:
                if o[r]['M'] and len(o[r]['M']) > 1:
                    o[r]['M'][0][1] = '12345/7'
                    return t

        def drop_x(t):
            o = t['obs'][-1]['reg']
            for r in o:
                if len(o[r]['x']) > 1:
                    o[r]['x'] = o[r]['x'][::-1]
                    return t

        def blk(t):
            o = t['obs'][-1]['reg']
            for r in o:
                if o[r]['blocks']:
                    o[r]['blocks'][-1]['v'][0][0] = '999'
                    return t

        def law(t):
            o = t['obs'][-1]['reg']
            for r in o:
                if o[r]['z']:
                    o[r]['z'][0] = '999'
                    return t
        v = validate(ctx, tcfg, files, [c for c in (f(__import__('copy').deepcopy(t)) for f in (swap_M, drop_x, blk, law)
                                                     for t in good[:12]) if c], quiet=True)
        if not v or any(x is None for x in v):
            from vf.base import CheckError
            raise CheckError('self-test: a corrupted trace was accepted')
        ctx.cov['binding_selftests'] = len(v)
    ctx.assumptions += ['symbols of distinct components are distinct',
                        'matrix entries are rationals with small numerators; coefficients compared within 1e-9']


def validate(ctx, tcfg, wrap, traces, quiet=False):
    orig = ctx.tlc

    def tlc(module, c, files=None, **kw):
        files = dict(files or {})
        files['WT.tla'] = wrap
        return orig(module, c, files=files, **kw)
    ctx.tlc = tlc
    try:
        return ctx.validate('WT', tcfg, traces, quiet=quiet)
    finally:
        ctx.tlc = orig
