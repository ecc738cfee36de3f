"""Check runner: obligations, known findings, evidence and exit codes."""
import json, os, sys, time, traceback
from program import VERIF, REPO, AnalysisBroken, NoTool, rel


EVID = os.environ.get('MARA_EVID', os.path.join(VERIF, 'evidence'))


current = None


class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obl = []            # (name, ok)
        self.viol = []
        self.notes = {}
        self.samples = []
        self.analysed = set()    # functions the rule looked at
        self.t0 = time.time()
        self.assumptions = []
        self.minimum = 1
        self.rules = []
        self.interp = None       # the interpreter of the obligation at hand
        self.allow = {'std::to_string', 'std::basic_string::operator+=', 'std::exception::what'}       # external functions that occur in the specification itself
        self.met = {}

    def rule(self, text): self.rules.append(text)

    def ob(self, name, ok, where='', msg='', sample=None, firm=False):
        """one obligation; ok is the verdict of the rule for this instance"""
        un = self.interp.unmodelled - self.allow if self.interp is not None else set()
        for n in un: self.met.setdefault(n, name)
        if not ok and un and not firm: return self.undecided(name, where, 'depends on constructs without a model (%s); the comparison did not succeed: %s' % (', '.join(sorted(un)), msg))
        self.obl.append((name, bool(ok)))
        if ok:
            if len(self.samples) < 12: self.samples.append({'obligation': name, 'where': where, 'verdict': 'holds', **({'detail': sample} if sample else {})})
        else:
            self.viol.append({'key': name, 'where': where, 'msg': msg})
        return bool(ok)

    def undecided(self, name, where, why):
        """the construct is outside what the rule can judge: recorded in the evidence, neither proved nor reported"""
        self.obl.append((name, None))
        self.notes.setdefault('undecided', []).append({'obligation': name, 'where': where, 'why': why[:300]})

    def seen(self, fns):
        for f in fns: self.analysed.add(f if isinstance(f, str) else '%s:%s %s' % (rel(f[0]), f[1], f[2]))


def parallel(c, jobs):
    """obligations of several independent jobs, each decided in a process of its own"""
    import pickle
    kids = []
    for fn in jobs:
        r, w = os.pipe(); pid = os.fork()
        if pid:
            os.close(w); kids.append((pid, os.fdopen(r, 'rb'))); continue
        os.close(r); out = None
        try:
            c.obl = []; c.viol = []; c.notes = {}; c.samples = []; c.analysed = set(); c.met = {}
            try: fn(c); err = None
            except AnalysisBroken as e: err = str(e)
            out = (c.obl, c.viol, c.notes, c.samples, c.analysed, c.met, err)
        except BaseException: traceback.print_exc()
        finally:
            with os.fdopen(w, 'wb') as fh: pickle.dump(out, fh)
            sys.stdout.flush(); sys.stderr.flush(); os._exit(0)
    errs = []
    for pid, fh in kids:
        data = fh.read(); fh.close(); os.waitpid(pid, 0)
        out = pickle.loads(data) if data else None
        if out is None: errs.append('a process of the analysis failed'); continue
        c.obl += out[0]; c.viol += out[1]; c.samples = (c.samples + out[3])[:12]; c.analysed |= out[4]; c.met.update(out[5])
        for k, v in out[2].items():
            if isinstance(v, list): c.notes.setdefault(k, []).extend(v)
            else: c.notes.setdefault(k, v)
        if out[6]: errs.append(out[6])
    if errs: raise AnalysisBroken('; '.join(errs)[:300])


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, desc = rest.partition(' :: ')
                out[key.strip()] = desc.strip()
    return out


def run(pid, fn, tier, level='other'):
    global current
    c = current = Check(pid, tier)
    evp = os.path.join(EVID, pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        fn(c)
        if len(c.obl) < c.minimum:
            raise AnalysisBroken('only %d rule instances found, %d were confirmed by hand' % (len(c.obl), c.minimum))
    except AnalysisBroken as e:
        if isinstance(e, NoTool): print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
        c.notes['incomplete'] = str(e)
    except Exception as e:
        traceback.print_exc(); c.notes['incomplete'] = 'internal error: %r' % e
    return finish(c, level)


def finish(c, level='other'):
    pid, tier = c.pid, c.tier
    evp = os.path.join(EVID, pid + '.json')
    rc = 0
    if 'incomplete' in c.notes and not c.viol:        # nothing was found to be wrong, but not everything could be judged
        print('UNDECIDED property=%s %s' % (pid, c.notes['incomplete'][:500]))
        if os.environ.get('MARA_STRICT'): return 2
    if os.environ.get('MARA_MET'): print('met', c.met)
    kf = known_findings(pid)
    new = [v for v in c.viol if v['key'] not in kf]
    for v in c.viol:
        if v['key'] in kf: print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['key'], kf[v['key']]))
    if new:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for v in new: fh.write('property %s\nobligation: %s\nwhere: %s\n%s\n\n' % (pid, v['key'], v['where'], v['msg']))
        for v in new[:20]: print('  %s: %s [%s]' % (v['where'], v['msg'][:600], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': {'explanation': 'static analysis of the resolved AST of the current working tree of ' + REPO + '; no code of the project is run. Rules: ' + ' | '.join(c.rules),
                       'obligations': len(c.obl), 'discharged': sum(1 for _, ok in c.obl if ok),
                       'functions_analysed': len(c.analysed), 'functions': sorted(c.analysed)[:60],
                       'samples': c.samples, **c.notes},
          'assumptions': c.assumptions, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(new)}
    with open(evp, 'w') as fh: json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d hold, %d violated (%d known); %d functions analysed; %.1fs' % (pid, len(c.obl), sum(1 for _, ok in c.obl if ok), len(new), len(c.viol) - len(new), len(c.analysed), time.time() - c.t0))
    return rc
