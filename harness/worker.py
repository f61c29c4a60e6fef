"""Runs harness/<module>.py:run(job) for the jobs in ./jobs.json, writing
out.ndjson.  Executed by the interpreter of the project, on the code in /repo."""
import sys, os, json, signal, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ['VERIF_REPO'])


import common


class JobTimeout(BaseException):
    pass


def on_alarm(*_):
    raise JobTimeout()


def main():
    out = open('out.ndjson', 'w')
    # everything the code prints is noise
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out.write('\n'); out.flush()
    mod = __import__(sys.argv[1])
    jobs = json.load(open('jobs.json'))
    signal.signal(signal.SIGALRM, on_alarm)
    tmo = float(os.environ.get('VERIF_JOB_TIMEOUT', '30'))
    hangs = 0
    for i, job in jobs:
        if 0 < int(os.environ.get('VERIF_HANGS', '0')) <= hangs:     # enough was seen
            out.write(json.dumps({'i': i, 'r': {'harness': 'late'}}) + '\n'); out.flush()
            continue
        out.write(json.dumps({'start': i}) + '\n'); out.flush()
        try:
            common.PHASE[0] = ''
            signal.setitimer(signal.ITIMER_REAL, tmo, 1.0)
            r = mod.run(job)
        except JobTimeout:
            r = {'harness': 'hang', 'phase': common.PHASE[0]}
            hangs += 1
        except Exception as e:
            r = {'harness': 'error', 'type': type(e).__name__, 'msg': str(e)[:300],
                 'tb': traceback.format_exc()[-1500:]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out.write(json.dumps({'i': i, 'r': r}) + '\n'); out.flush()


main()
