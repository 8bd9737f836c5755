"""One property = one or more engines.  An engine is a TLA+ module pair (a model
checked exhaustively, and a <Name>Trace module) plus a driver of the real code.
Clause names start with the property they decide, so several properties can share
an engine and each check reports only its own clauses."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from vh.env import VERIF, REPO
from vh import tlc
from vh.rec import Recorder

# property -> list of (driver module, driver function, trace module)
# and list of (model module, cfg) to check exhaustively
PROPS = {}


def prop(pid, traces, models):
    PROPS[pid] = {'traces': traces, 'models': models}


from vh import registry  # noqa  (fills PROPS)


class DriverTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise DriverTimeout('the driver did not finish in time')


def known_findings():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def reset_seeds(seed):
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))


def _owner(clause):
    return clause.split('_', 1)[0]


def _in_repo(tb):
    root = os.path.join(os.path.abspath(REPO), 'pyHalo') + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def _drive(drv, fn, tier, seed):
    """-> (recorders, crash) ; crash is a note when the code under test raised where
    the specification has no error"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(520 if tier == 'quick' else 7200)
    try:
        reset_seeds(seed)
        mod = importlib.import_module('vh.drivers.' + drv)
        traces = getattr(mod, fn)(tier, seed)
        if isinstance(traces, Recorder):
            traces = [traces]
        return list(traces), None
    except Exception as e:
        if _in_repo(e.__traceback__):
            return [], {'what': '%s: %s' % (type(e).__name__, e), 'log': traceback.format_exc()[-3000:]}
        raise
    finally:
        signal.alarm(0)


def run(pid, tier, seed):
    t0 = time.time()
    if pid not in PROPS:
        print('unknown property ' + str(pid))
        return 2
    cfg = PROPS[pid]
    outdir = os.path.join(os.environ.get('VERIF_OUT') or os.path.join(VERIF, 'out'), pid)
    os.makedirs(outdir, exist_ok=True)
    violations, known = [], []
    cov = {}
    n_traces = n_events = 0
    tl_states = 0
    samples = []
    findings = [f for f in known_findings() if f.get('kind') == 'known' and f['property'] == pid]

    # the specification itself
    mstats = []
    for module, mcfg in cfg['models']:
        name = mcfg if tier == 'quick' else mcfg + 'Deep'
        if not os.path.exists(os.path.join(tlc.SPEC, name + '.cfg')):
            name = mcfg
        st = tlc.check(module, name, timeout=300 if tier == 'quick' else 3000)
        if not st['ok']:
            print('MODEL-CHECK FAILED %s/%s\n%s' % (module, name, st.get('log', '')))
            return 2
        mstats.append(dict(module=module, cfg=name, **{k: st[k] for k in
                                                       ('states_generated', 'distinct_states', 'depth', 'wall_s')}))

    # the code against the specification
    for drv, fn, tmod in cfg['traces']:
        traces, crash = _drive(drv, fn, tier, seed)
        if crash is not None:
            violations.append({'property': pid, 'trace': '', 'line': 0, 'op': fn, 'clause': pid + '_raised',
                               'case': '', 'module': tmod, 'event': {}, 'note': crash['what'], 'log': crash['log']})
        for k, rec in enumerate(traces):
            path = os.path.join(outdir, '%s_%s_%d.ndjson' % (tmod, fn, k))
            rec.write(path)
            v = tlc.validate(tmod, path, timeout=800 if tier == 'quick' else 4000)
            n_traces += 1
            n_events += len(rec.events)
            tl_states += v['stats']['states_generated']
            own_ops = {}
            for c, n in v['cov'].items():
                cov[c] = cov.get(c, 0) + n
            for i, e in enumerate(rec.events):
                if len(own_ops) < 6 and e['op'] not in own_ops and len(json.dumps(e)) < 2500:
                    own_ops[e['op']] = dict(line=i + 1, trace=os.path.basename(path), event=e)
            if len(samples) < 12:
                samples += list(own_ops.values())
            for b in v['bad']:
                if _owner(b['clause']) not in (pid, 'uninterpretable'):
                    continue
                ev = rec.events[b['l'] - 1] if 0 < b['l'] <= len(rec.events) else {}
                item = {'property': pid, 'trace': path, 'line': b['l'], 'op': ev.get('op', b['op']),
                        'clause': b['clause'], 'case': ev.get('case', ''), 'module': tmod, 'event': ev,
                        'note': rec.notes.get(b['l'], ''), 'log': v.get('log', '')}
                hit = None
                for f in findings:
                    if f['clause'] == item['clause'] and f['case'] == item['case'] and item['case'] != '':
                        hit = f
                if hit is not None:
                    known.append((hit, item))
                else:
                    violations.append(item)

    seen = set()
    for f, item in known:
        key = (f['clause'], f['case'])
        if key not in seen:
            seen.add(key)
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))

    if violations:
        rp = os.path.join(outdir, 'violation.json')
        with open(rp, 'w') as fh:
            json.dump({'violations': violations[:40], 'tier': tier, 'seed': seed}, fh, indent=1)
        for w in violations[:8]:
            print('  %s line %d op=%s clause=%s case=%s %s' % (os.path.basename(w['trace']), w['line'], w['op'],
                                                               w['clause'], w['case'], str(w['note'])[:300]))
            if w.get('log'):
                print('   | ' + w['log'][-1200:].replace('\n', '\n   | '))
        print('VIOLATION property=%s replay=%s' % (pid, rp))

    mine = {c: n for c, n in sorted(cov.items()) if _owner(c) == pid}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(m['distinct_states'] for m in mstats),
            'transitions': sum(m['states_generated'] for m in mstats),
            'traces_validated_against_impl': n_traces,
            'events_validated_against_impl': n_events,
            'samples': samples[:12],
            'clause_evaluations': mine,
            'models': mstats,
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': registry.ASSUMPTIONS,
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if violations:
        return 1
    print('OK property=%s tier=%s traces=%d events=%d clauses=%d model_states=%d wall=%.1fs' % (
        pid, tier, n_traces, n_events, len(mine), ev['coverage']['states'], ev['wall_s']))
    if not mine:
        print('no clause of %s was evaluated' % pid)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    v = d['violations'][0]
    if not v['trace']:
        print(v['note'])
        print(v['log'])
        return 1
    r = tlc.validate(v['module'], v['trace'])
    for b in r['bad'][:20]:
        print(b)
    return 1 if r['bad'] else 0
