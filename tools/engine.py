"""Campaigns on the run-time engine: generate scenarios, run them in the real
library, validate what it did with spec/TraceRegistry.tla."""
import json, os, re, subprocess
import gen
from vlib import *

CHUNKS = 8


def run_scripts(binary, d, scripts, timeout=600):
    """Run the engine on each chunk. Returns [(chunk, scn, signal)] of crashes."""
    os.makedirs(d, exist_ok=True)
    procs, crashes = [], []
    for c, lines in enumerate(scripts, 1):
        open('%s/s%d.txt' % (d, c), 'w').write('\n'.join(lines) + '\n')
        procs.append(subprocess.Popen(
            ['%s' % binary, '%s/s%d.txt' % (d, c), '%s/t%d.ndjson' % (d, c)],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    for c, p in enumerate(procs, 1):
        try:
            _, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            rc = 'timeout'
        if rc != 0:
            path = '%s/t%d.ndjson' % (d, c)
            data = open(path, errors='replace').read() if os.path.exists(path) else ''
            lines = data.split('\n')
            good = []
            for l in lines:
                try:
                    json.loads(l)
                    good.append(l)
                except ValueError:
                    pass
            scn = None
            for l in good:
                if l.startswith('{"op":"reset"'):
                    scn = json.loads(l)['scn']
            good.append('{"op":"end","s":-1}')
            open(path, 'w').write('\n'.join(good) + '\n')
            crashes.append((c, scn, rc, (err or '').strip()[-300:], lines[-1][:400] if lines else ''))
    return crashes


def validate(d, chunks, heap=None, workers=JOBS):
    text, st = tlc('TraceRegistry.tla', env={'TRACE_DIR': d, 'TRACE_CHUNKS': str(chunks)},
                   heap=heap, workers=workers)
    if not_evaluable(text, st):
        if chunks == 1:
            return [(1, 1, 'trace', tlc_error(text))], st
        ms = []
        for c in range(1, chunks + 1):
            dc = '%s-n%d' % (d, c)
            os.makedirs(dc, exist_ok=True)
            shutil.copy('%s/t%d.ndjson' % (d, c), dc + '/t1.ndjson')
            m, st = validate(dc, 1, heap, 1)
            ms += [(c,) + x[1:] for x in m]
            shutil.rmtree(dc)
        return ms, st
    if not st['ok']:
        raise ToolError('TLC failed on %s\n%s' % (d, tlc_error(text)))
    return mismatches(text), st


def split_scenarios(lines):
    out = {}
    cur = None
    for l in lines:
        if l.startswith('R '):
            cur = int(l.split()[1])
            out[cur] = []
        if cur is not None:
            out[cur].append(l)
    return out


def wanted(cat, cats):
    return cat == 'trace' or any(cat == c or (c.endswith('*') and cat.startswith(c[:-1])) for c in cats)


def confirm(chk, binary, script, cats, tag):
    """Re-run one script; (what, replay script) if the same kind of problem
    is seen again."""
    d = os.path.join(chk.dir, 'confirm-' + tag)
    cr = run_scripts(binary, d, [script], timeout=120)
    if cr:
        return 'the program ended with %s in %s %s' % (cr[0][2], cr[0][4], cr[0][3])
    ms, st = validate(d, 1, workers=1)
    ms = [m for m in ms if wanted(m[2], cats)]
    if ms:
        return '%s: expected %s' % (ms[0][2], ms[0][3])
    return None


def campaign(chk, name, binary, variant, shapes, scripts, cats, sample=True):
    """scripts: [chunk -> list of scenarios (lists of lines)]"""
    d = os.path.join(chk.dir, name)
    flat = [[l for s in ch for l in s] for ch in scripts]
    crashes = run_scripts(binary, d, flat)
    ms, st = validate(d, len(flat))
    chk.states += st['states']
    chk.transitions += st['transitions']
    n = 0
    for c in range(1, len(flat) + 1):
        n += sum(1 for l in open('%s/t%d.ndjson' % (d, c)) if l.startswith('{"op":"reset"'))
    chk.traces += n
    chk.extra.setdefault('scenarios', {})[name] = n
    if sample:
        chk.samples.append({'campaign': name, 'script': [l for l in scripts[0][0] if l[0] != 'T'][:40]})
    tries = 0
    for c, scn, rc, err, where in crashes:
        scr = split_scenarios(flat[c - 1]).get(scn, flat[c - 1])
        for script in (scr, flat[c - 1]):
            what = confirm(chk, binary, script, cats, '%s-c%d' % (name, tries))
            tries += 1
            if what:
                chk.violation('%s, scenario %s: %s' % (name, scn, what), {
                    'kind': 'engine', 'variant': variant, 'shapes': list(shapes),
                    'cats': list(cats), 'script': script})
                break
        if chk.found:
            break
    kinds = {}
    for ck, i, what, exp in ms:
        kinds.setdefault(what, []).append((ck, i, exp))
    for what in sorted(kinds):
        if not wanted(what, cats):
            log('  note: %s: %d mismatch(es) of kind %s, decided by another check' % (
                name, len(kinds[what]), what))
            continue
        for ck, i, exp in kinds[what][:3]:
            ev = open('%s/t%d.ndjson' % (d, ck)).read().split('\n')
            scn = None
            for l in ev[:i]:
                if l.startswith('{"op":"reset"'):
                    scn = json.loads(l)['scn']
            scr = split_scenarios(flat[ck - 1]).get(scn)
            ok = None
            for script in (scr, flat[ck - 1]):
                ok = confirm(chk, binary, script, [what], '%s-%d' % (name, tries))
                tries += 1
                if ok:
                    chk.violation('%s, scenario %s: %s' % (name, scn, ok), {
                        'kind': 'engine', 'variant': variant, 'shapes': list(shapes),
                        'cats': list(cats), 'script': script})
                    break
            if ok:
                break
    if not chk.found:
        shutil.rmtree(d, ignore_errors=True)


def run_campaigns(chk, specs, cats):
    """specs: [(name, variant, shapes, scenarios, profile)]"""
    bins = build_engines(sorted({(v, tuple(sh)) for _, v, sh, _, _ in specs}))
    for name, v, sh, n, profile in specs:
        prof = dict(profile, shapes=list(sh))
        scripts = gen.generate('%d-%s' % (chk.seed, name), v, CHUNKS, max(1, n // CHUNKS), prof)
        campaign(chk, name, bins[(v, tuple(sh))], v, tuple(sh), scripts, cats)
        if len(chk.found) >= 3:
            return
