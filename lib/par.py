"""fork-based map; results must be plain data (terms do not cross processes)"""
import os, pickle, sys, traceback

def pmap(f, jobs, n=None):
    n = n or min(os.cpu_count() or 4, 8)
    jobs = list(jobs)
    if len(jobs) <= 1 or n == 1: return [f(j) for j in jobs]
    n = min(n, len(jobs))
    # dynamic distribution through a pipe of job numbers
    r, w = os.pipe()
    data = b''.join(i.to_bytes(4, 'little') for i in range(len(jobs)))
    pids = []; outs = []
    sys.stdout.flush(); sys.stderr.flush()
    for k in range(n):
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(pr); os.close(w)
                res = []
                while True:
                    b = os.read(r, 4)
                    if len(b) < 4: break
                    i = int.from_bytes(b, 'little')
                    try: res.append((i, True, f(jobs[i])))
                    except Exception as e:
                        res.append((i, False, (type(e).__name__, str(e), traceback.format_exc())))
                with os.fdopen(pw, 'wb') as fh: pickle.dump(res, fh)
            except BaseException:
                traceback.print_exc(); code = 1
            os._exit(code)
        os.close(pw); pids.append(pid); outs.append(pr)
    os.close(r)
    os.write(w, data[:60000]); os.close(w)
    out = [None] * len(jobs); got = set()
    for pid, pr in zip(pids, outs):
        with os.fdopen(pr, 'rb') as fh: b = fh.read()
        os.waitpid(pid, 0)
        if not b: raise RuntimeError('worker died')
        for i, ok, v in pickle.loads(b):
            if not ok:
                from program import AnalysisError
                raise AnalysisError('%s: %s\n%s' % v)
            out[i] = v; got.add(i)
    if len(got) != len(jobs): raise RuntimeError('lost jobs')
    return out
