"""Checks of the form: scripts -> program -> trace -> TLC."""
import json, os, random, subprocess
from vlib import *


def run_chunks(binary, d, scripts, timeout=300, env=None):
    """binary: path, or [path, extra arguments...].
    scripts: [chunk -> text]. Returns [(chunk, how it ended, last line)]."""
    binary = [binary] if isinstance(binary, str) else list(binary)
    os.makedirs(d, exist_ok=True)
    procs, bad = [], []
    for c, text in enumerate(scripts, 1):
        open('%s/s%d.txt' % (d, c), 'w').write(text)
        procs.append(subprocess.Popen(binary[:1] + ['%s/s%d.txt' % (d, c), '%s/t%d.ndjson' % (d, c)]
                                      + binary[1:],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                      env=dict(os.environ, **(env or {}))))
    for c, p in enumerate(procs, 1):
        try:
            _, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            rc = 'timeout'
        if rc != 0:
            path = '%s/t%d.ndjson' % (d, c)
            lines = open(path, errors='replace').read().split('\n') if os.path.exists(path) else []
            good = []
            for l in lines:
                try:
                    json.loads(l)
                    good.append(l)
                except ValueError:
                    pass
            if not good:
                good = ['{"op":"reset"}']
            bad.append((c, rc, (lines[-1] if lines else '')[:300], (err or '')[-300:]))
            good.append('{"op":"end"}')
            open(path, 'w').write('\n'.join(good) + '\n')
    return bad


def judge(binary, spec, d, scripts, cats, env=None, workers=JOBS, count=None):
    """Run and validate. Returns (problems, stats): problems are
    (chunk, what)."""
    bad = run_chunks(binary, d, scripts, env=env)
    text, st = tlc(spec, env={'TRACE_DIR': d, 'TRACE_CHUNKS': str(len(scripts))}, workers=workers)
    if not_evaluable(text, st):
        if len(scripts) == 1:
            return ([(c, 'the program ended with %s in %s %s' % (rc, l, err)) for c, rc, l, err in bad]
                    + [(1, 'the trace is not one of the specification: ' + tlc_error(text))]), st
        probs = []
        for c, s in enumerate(scripts, 1):
            p, st = judge(binary, spec, d + '-n%d' % c, [s], cats, env, 1)
            probs += [(c, what) for _, what in p]
        return probs, st
    if not st['ok']:
        raise ToolError('TLC failed on %s\n%s' % (d, tlc_error(text)))
    probs = [(c, 'the program ended with %s in %s %s' % (rc, l, err)) for c, rc, l, err in bad]
    for ck, i, what, exp in mismatches(text):
        if any(what == c or (c.endswith('*') and what.startswith(c[:-1])) for c in cats):
            probs.append((ck, '%s at event %d: expected %s' % (what, i, exp)))
        else:
            log('  note: mismatch of kind %s, decided by another check' % what)
    return probs, st


def campaign(chk, name, binary, spec, scripts, cats, env=None, source=None, reset='R'):
    """scripts: [chunk -> [scenario -> [lines]]]; each scenario starts with a reset."""
    d = os.path.join(chk.dir, name)
    text = ['\n'.join('\n'.join(s) for s in ch) + '\n' for ch in scripts]
    probs, st = judge(binary, spec, d, text, cats, env)
    chk.states += st['states']
    chk.transitions += st['transitions']
    chk.traces += sum(len(ch) for ch in scripts)
    chk.extra.setdefault('scenarios', {})[name] = sum(len(ch) for ch in scripts)
    chk.samples.append({'campaign': name, 'script': scripts[0][0][:40]})
    for n, (ck, what) in enumerate(probs[:4]):
        # confirm: one scenario at a time, then the chunk
        done = False
        again, _ = judge(binary, spec, d + '-c%d' % n, [text[ck - 1]], cats, env, workers=1)
        if not again:
            log('  note: not reproduced: ' + what[:300])
            continue
        replay = text[ck - 1]
        lo = scripts[ck - 1]
        # bisect for a single scenario that fails alone
        per = ['\n'.join(s) + '\n' for s in lo]
        k = min(len(per), 64)
        one, _ = judge(binary, spec, d + '-b%d' % n, per, cats, env) if len(per) <= 200 else ([], None)
        if one:
            replay, what = per[one[0][0] - 1], one[0][1]
        else:
            what = again[0][1]
        chk.violation('%s: %s' % (name, what), {
            'kind': 'simple', 'source': source, 'spec': spec, 'cats': list(cats), 'env': env or {},
            'script': replay})
        if len(chk.found) >= 2:
            return
    shutil.rmtree(d, ignore_errors=True)


def spread(items, n=8):
    return [items[i::n] for i in range(n) if items[i::n]]
