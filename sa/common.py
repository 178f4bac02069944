"""Shared plumbing: building the MIR dump, reporting, evidence."""
import json, os, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MIRX_REPO') or '/repo'


class CheckError(Exception):
    pass


def scratch():
    base = os.path.join(VERIF, '.cache')
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix='run.', dir=base)


def load_program():
    from sa.mir import Program
    pre = os.environ.get('MIRX_JSON')          # development only: reuse a dump
    if pre:
        with open(pre) as f:
            return Program(json.load(f))
    d = scratch()
    try:
        r = subprocess.run([os.path.join(VERIF, 'build_mir.sh'), d], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout)
            raise CheckError('the MIR of the current tree could not be produced')
        with open(os.path.join(d, 'mir.json')) as f:
            return Program(json.load(f))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p)).get('findings', [])
    except FileNotFoundError:
        return []


class Report:
    """Collects obligations; a violation has a stable key (no line numbers) and a text."""

    def __init__(self, prop, technique):
        self.prop, self.technique = prop, technique
        self.t0 = time.time()
        self.ok, self.viol, self.undecided, self.notes = [], [], [], []
        self.counts = {}
        self.assumptions = []

    def good(self, text):
        self.ok.append(text)

    def bad(self, key, text):
        if all(k != key for k, _ in self.viol):
            self.viol.append((key, text))

    def unk(self, text):
        self.undecided.append(text)

    def check(self, cond, key, good, bad):
        (self.good(good) if cond else self.bad(key, bad))
        return cond

    def floor(self, name, n, least):
        """An anchor that must match at least `least` instances (public API, not spelling)."""
        self.counts[name] = n
        if n < least:
            self.unk('%s: %d instances recognised, %d expected' % (name, n, least))

    def finish(self):
        known = [k for k in known_findings() if k.get('property') == self.prop]
        kk = {k['key']: k for k in known}
        new = [(k, t) for k, t in self.viol if k not in kk]
        tier = os.environ.get('VERIF_TIER', 'quick')
        ev = {
            'property': self.prop,
            'tier': tier if tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.technique,
                'obligations': len(self.ok) + len(self.viol) + len(self.undecided),
                'discharged': len(self.ok),
                'undecided': len(self.undecided),
                'counts': self.counts,
                'discharged_list': self.ok[:400],
                'undecided_list': self.undecided[:100],
                'violations_list': ['%s: %s' % v for v in self.viol][:100],
                'notes': self.notes[:60],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violations'
              % (self.prop, ev['coverage']['obligations'], len(self.ok), len(self.undecided), len(self.viol)))
        for k, v in sorted(self.counts.items()):
            print('  analysed %s: %d' % (k, v))
        for t in self.undecided[:20]:
            print('  UNDECIDED %s' % t)
        for k, t in self.viol:
            if k in kk:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kk[k].get('what', t)))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for k, t in new:
                    f.write('%s\n    %s\n' % (k, t))
            for k, t in new:
                print('  %s: %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
