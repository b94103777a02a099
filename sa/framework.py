"""Obligation bookkeeping, evidence, known findings and verdicts."""
import json
import os
import re
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')

TRUSTED = [
    'rustc nightly 1.101 front end (type checking, trait resolution, MIR construction at -Zmir-opt-level=0)',
    'driver/main.rs (transcribes MIR) and sa/engine.py, facts.py, terms.py (abstract interpreter)',
    'sa/models.py and sa/contracts.py (documented contracts of std items whose bodies are not analysed)',
]


class Anchor(Exception):
    """something the rule is anchored at is missing from the program"""


# checks that also look at the types of witness/types.rs
WIDE = {'C%d' % i for i in range(10, 30)}


class Check:
    def __init__(self, pid, tier, seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = 0
        self.good = 0
        self.rules = {}
        self.viol = {}
        self.functions = {}
        self.paths = 0
        self.loops = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.extra = {}
        self.fresh_dump = None
        self.work = []
        self._D = None
        self.profile = ''
        self.narrow = None      # why the witness types could not be analysed

    # ------------------------------------------------------------------ input
    @property
    def D(self):
        if self._D is None:
            from engine import Dump
            p = os.environ.get('FOURLEAF_DUMP')
            if p is None:
                p, w = self.build(False)
                self.work.append(w)
            self._D = Dump(p)
        return self._D

    def debug_profile(self):
        """from here on the program is the one built with debug assertions"""
        self.profile = ' [debug assertions]'
        p, w = self.build(True)
        self.work.append(w)
        from engine import Dump
        self._D = Dump(p)

    def build(self, debug_assertions):
        import build
        try:
            return build.dump(wide=self.pid in WIDE, debug_assertions=debug_assertions)
        except build.BuildError as e:
            if self.pid not in WIDE:
                raise
            # the crate itself may still build: then only its own types are looked at
            self.narrow = str(e)
            s = 'witness types do not build against this tree; only the types of the crate were analysed'
            if s not in self.notes:
                self.notes.append(s)
            return build.dump(debug_assertions=debug_assertions)

    # ------------------------------------------------------------------ record
    def ob(self, rule, site, ok, detail='', at=None):
        """one obligation: `rule` instantiated at `site` (both free of line numbers)"""
        self.obs += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.good += 1
            r[1] += 1
            if len(self.samples) < 12 and r[0] == 1:
                self.samples.append('%s at %s: holds' % (rule, site))
        else:
            key = '%s@%s' % (rule, site)
            v = self.viol.setdefault(key, [])
            if len(v) < 6:
                v.append(('%s%s' % (detail, self.profile), at))
        return ok

    def fail(self, rule, site, detail, at=None):
        return self.ob(rule, site, False, detail, at)

    def floor(self, what, n, least):
        return self.ob('instances', what, n >= least,
                       'only %d instance(s) of "%s" found, at least %d were confirmed by hand: '
                       'the rule would pass vacuously' % (n, what, least))

    def analysed(self, name, npaths, at=None):
        self.functions[name] = self.functions.get(name, 0) + npaths
        self.paths += npaths

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    # ------------------------------------------------------------------ verdict
    def known(self):
        res = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith('finding:'):
                    m = re.match(r'property=(\S+) key="([^"]*)" ?(.*)$', l[8:].strip())
                    if m and m.group(1) == self.pid:
                        res[m.group(2)] = m.group(3)
        return res

    def finish(self):
        known = self.known()
        hits = [k for k in self.viol if k in known]
        new = [k for k in self.viol if k not in known]
        os.makedirs(EVID, exist_ok=True)
        lines = []
        for k in sorted(new):
            for d, at in self.viol[k]:
                lines.append('%s\n    %s%s' % (k, d, ('\n    at %s' % (at,)) if at else ''))
        replay = os.path.join(EVID, self.pid + '.violation.txt')
        if new:
            with open(replay, 'w') as f:
                f.write('property %s: %d violated obligation(s)\n' % (self.pid, len(new)))
                f.write('re-run: python3 sa/main.py %s\n\n' % self.pid)
                f.write('\n'.join(lines) + '\n')
        elif os.path.exists(replay):
            os.remove(replay)
        cov = {
            'obligations': self.obs,
            'discharged': self.good,
            'checker_cmd': 'python3 sa/main.py %s' % self.pid,
            'trusted_base': TRUSTED,
            'explanation': 'abstract interpretation of the MIR of the current source: every control '
                           'flow path of the listed functions is covered (loops by unrolling to a constant '
                           'bound or by inferred inductive invariants); obligations are rule instances '
                           'decided on those paths',
            'rules': {r: {'instances': a, 'discharged': b} for r, (a, b) in sorted(self.rules.items())},
            'functions_analysed': len(self.functions),
            'functions': {k: v for k, v in sorted(self.functions.items())},
            'paths': self.paths,
            'loops': self.loops,
            'samples': self.samples,
            'notes': self.notes,
        }
        cov.update(self.extra)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'proof',
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
        }
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d functions, %d paths, %.1fs' % (
            self.pid, self.obs, self.good, len(self.functions), self.paths, time.time() - self.t0))
        for k in sorted(hits):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k] or k))
        if new:
            print('\n'.join(lines))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        return 0

    def cleanup(self):
        for w in self.work:
            shutil.rmtree(w, ignore_errors=True)


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ck = Check(pid, tier, seed)
    try:
        import importlib
        mod = importlib.import_module('checks.' + pid.lower())
        try:
            mod.run(ck)
            if tier == 'thorough':
                ck.debug_profile()
                mod.run(ck)
        except Anchor as e:
            ck.fail('anchor', str(e).split('\n')[0], 'the rule cannot be instantiated: %s' % e)
        except Exception as e:      # fail closed: an undecided property is not a held one
            tb = traceback.format_exc()
            ck.fail('analysis', type(e).__name__, 'the analysis gave no verdict: %s\n%s' % (e, tb[-3000:]))
        return ck.finish()
    finally:
        ck.cleanup()
