"""Common frame of the checks: obligations, findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Check:
    """one run of one property's check.

    ob(...) records a discharged obligation, bad(...) a violated one; finish()
    writes the evidence and the report and returns the exit status."""

    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time()
        s.n = 0
        s.groups = {}
        s.viol = []
        s.samples = []
        s.fns = set()
        s.sites = set()
        s.rules = []
        s.assume = []
        s.trust = ['clang 18 front end (IR of the real build command lines)', '/verif/lib abstract interpreter and domain']
        s.counts = {}
        s.errs = []
        s.level = 'proof'

    def rule(s, text):
        if text not in s.rules:
            s.rules.append(text)

    def ob(s, group, sample=None, n=1):
        s.n += n
        s.groups[group] = s.groups.get(group, 0) + n
        if sample is not None and (len(s.samples) < 12 or s.groups[group] == n) and len(s.samples) < 60:
            s.samples.append('%s: %s' % (group, sample))

    def bad(s, group, where, what, key=None):
        """violated obligation; key identifies the instance for the known-findings file"""
        s.n += 1
        s.groups[group] = s.groups.get(group, 0) + 1
        s.viol.append((group, where, what, key or group))

    def floor(s, group, least):
        """instance-count floor: fewer obligations than confirmed by hand means the analysis lost its anchor"""
        if s.groups.get(group, 0) < least:
            s.err('%s: %d instances of rule %s, at least %d expected' % (
                s.prop, s.groups.get(group, 0), group, least))

    def err(s, text):
        """the analysis could not decide an instance"""
        s.errs.append(text)

    def used(s, eng):
        s.fns |= eng.fnseen
        s.counts['abstract states'] = s.counts.get('abstract states', 0) + eng.nstates
        s.counts['abstract steps'] = s.counts.get('abstract steps', 0) + eng.steps
        s.counts['basic blocks'] = len(getattr(s, '_bb', set()) | eng.bbseen)
        s._bb = getattr(s, '_bb', set()) | eng.bbseen

    def known(s):
        out = {}
        try:
            for l in open(KNOWN):
                l = l.rstrip('\n')
                if l.startswith('known: property=%s ' % s.prop):
                    rest = l.split(' ', 2)[2]
                    k, _, txt = rest.partition(' | ')
                    out[k.strip()[len('key='):]] = txt
        except OSError:
            pass
        return out

    def finish(s):
        kn = s.known()
        new = []
        hit = set()
        for v in s.viol:
            if v[3] in kn:
                hit.add(v[3])
            else:
                new.append(v)
        for k in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (s.prop, kn[k]))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rep = os.path.join(VERIF, 'evidence', s.prop + '.report.txt')
        with open(rep, 'w') as f:
            f.write('property %s, tier %s\n' % (s.prop, s.tier))
            for r in s.rules:
                f.write('rule: %s\n' % r)
            for g, w, t, k in new:
                f.write('\n[%s] at %s (instance %s)\n    %s\n' % (g, w, k, t))
            for g, w, t, k in s.viol:
                if k in hit:
                    f.write('\nknown finding %s at %s\n    %s\n' % (k, w, t))
            if not new:
                f.write('\nno violation outside the known findings\n')
        ev = {
            'property': s.prop, 'tier': s.tier, 'seed': s.seed, 'level': s.level,
            'coverage': {
                'obligations': s.n, 'discharged': s.n - len(s.viol),
                'checker_cmd': 'python3 run.py %s %s' % (s.prop, s.tier),
                'trusted_base': s.trust,
                'explanation': 'Static analysis of the IR compiled from the current /repo sources (no execution, no solver). '
                               'An obligation is one rule instance (call site, abstract path end, or function/operand-class pair).',
                'rules': s.rules, 'obligations_by_rule': s.groups,
                'functions_analysed': sorted(s.fns), 'counts': s.counts,
                'samples': s.samples, 'undecided': s.errs,
                'known_findings_hit': sorted(hit),
            },
            'assumptions': s.assume, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new),
        }
        with open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s: %d obligations, %d discharged, %d known, %d new violations, %d functions, %.1fs' % (
            s.prop, s.n, s.n - len(s.viol), len(s.viol) - len(new), len(new), len(s.fns), time.time() - s.t0))
        if new:
            for g, w, t, k in new[:12]:
                print('  [%s] %s: %s' % (g, w, t))
            print('VIOLATION property=%s replay=%s' % (s.prop, rep))
            return 1
        if s.errs:
            for t in s.errs[:12]:
                print('ANALYSIS-ERROR property=%s %s' % (s.prop, t))
            return 2
        return 0


def pool_map(fn, items, workers=None, chunk=None):
    """parallel map over forked workers (fn sees the parent's loaded program)"""
    import multiprocessing as mp
    n = workers or min(8, os.cpu_count() or 1)
    items = list(items)
    if n <= 1 or len(items) < 4:
        return [fn(x) for x in items]
    with mp.get_context('fork').Pool(n) as p:
        return p.map(fn, items, chunk or max(1, len(items) // (n * 6)))
