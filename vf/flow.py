"""The usual end of a check: execute scripts on the code, let the specification judge."""
from vf.base import corrupt_selftest


def replay(ctx, harness, jobs, module, cfg, corruptions=(), key=None, job_timeout=60, good=None, total=800, opname='op', proj=None):
    res = ctx.harness(harness, jobs, job_timeout=job_timeout, total=total)
    traces, src = [], []
    for j, r in zip(jobs, res):
        if r.get('harness') == 'late':      # others did not end
            pass
        elif 'harness' in r:
            ctx.violation('not executed: %s' % str(r)[:500], {'job': j, 'result': r})
        else:
            traces.append(r)
            src.append(j)
    if not traces:
        return []
    judged = [proj(t) for t in traces] if proj else traces
    verdicts = ctx.validate(module, cfg, judged)
    ok = []
    for t, j, v in zip(traces, src, verdicts):
        if v:
            i = int(v[1]) if v[1].isdigit() else 0
            ev = t.get('ev') or []
            at = ev[i] if i < len(ev) else {}
            ob = (t.get('obs') or [{}])
            ob = ob[i] if isinstance(ob, list) and i < len(ob) else {}
            ctx.violation('clause %s at step %d: %s %s' % (v[0], i + 1, str(at)[:300], str(ob.get('exc') or t.get('exc') or '')[:200] if isinstance(ob, dict) else ''),
                          {'job': j, 'trace': t, 'verdict': v}, key=key(t, v) if key else None)
        else:
            ok.append(t)
    ops = {}
    for t in traces:
        for e in t.get('ev') or []:
            if isinstance(e, dict) and opname in e:
                ops[e[opname]] = ops.get(e[opname], 0) + 1
    if ops:
        d = ctx.cov.setdefault('operations_executed', {})
        for k, n in ops.items():
            d[k] = d.get(k, 0) + n
    if traces:
        ctx.sample(str(traces[0].get('ev', traces[0]))[:1500])
    if ok and corruptions and not ctx.violations:
        corrupt_selftest(ctx, module, cfg, [proj(t) for t in ok] if proj else ok, corruptions)
    return ok
