"""Collects obligations, coverage and violations of one property check and writes the evidence."""
import json, os, time
from .facts import VERIF, REPO, AnalysisError


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obligations = []      # (id, where)
        self.discharged = 0
        self.violations = {}       # key -> (message, where)
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.rule = ''
        self.limits = []

    def analysed(self, ip):
        for k in ip.analysed:
            f = ip.prog.funcs.get(k)
            if f:
                self.functions.add(f.where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, what, where=''):
        self.obligations.append((what, where))
        self.discharged += 1
        if len(self.samples) < 40:
            self.samples.append({'obligation': what, 'at': where})

    def bad(self, key, message, where=''):
        self.obligations.append((key, where))
        if key not in self.violations:
            self.violations[key] = (message, where)

    def fan(self, work, items, procs=6):
        """work(part, item) for every item, in forked processes; the parts are merged in the order of the items"""
        import multiprocessing, pickle
        items = list(items)

        def child(i, conn):
            part = Report(self.prop, self.tier, self.seed)
            try:
                work(part, items[i])
                conn.send((None, part.obligations, part.discharged, part.violations, part.functions, part.counts, part.samples))
            except AnalysisError as ex:
                conn.send((str(ex),))
            except BaseException as ex:
                conn.send(('%s: %s' % (type(ex).__name__, ex),))
            conn.close()
        ctx = multiprocessing.get_context('fork')
        done, running, nxt = {}, {}, 0
        while len(done) < len(items):
            while nxt < len(items) and len(running) < procs:
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(nxt, w))
                p.start()
                w.close()
                running[nxt] = (p, r)
                nxt += 1
            for i, (p, r) in list(running.items()):
                if r.poll(0.02) or not p.is_alive():
                    try:
                        done[i] = r.recv()
                    except EOFError:
                        done[i] = ('a part of the analysis ended unexpectedly',)
                    p.join()
                    del running[i]
        for i in range(len(items)):
            d = done[i]
            if d[0] is not None:
                raise AnalysisError(d[0])
            self.obligations += d[1]
            self.discharged += d[2]
            for k, v in d[3].items():
                self.violations.setdefault(k, v)
            self.functions |= d[4]
            for k, v in d[5].items():
                self.count(k, v)
            self.samples = (self.samples + d[6])[:40]

    def require(self, cond, key, message, where=''):
        if cond:
            self.ok(key, where)
        else:
            self.bad(key, message, where)
        return bool(cond)

    def need(self, cond, message):
        """anchor check: the analysis cannot be carried out otherwise"""
        if not cond:
            raise AnalysisError(message)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def finish(rep, level, meta):
    known = {(k['property'], k['key']): k for k in known_findings() if k.get('status', 'open') == 'open'}
    new = {}
    for key, (msg, where) in rep.violations.items():
        k = known.get((rep.prop, key))
        if k:
            print('KNOWN-FINDING: property=%s %s' % (rep.prop, k['what']))
        else:
            new[key] = (msg, where)
    rdir = os.path.join(VERIF, 'evidence', 'violations')
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    replay = None
    if new:
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, rep.prop + '.json')
        json.dump([{'key': k, 'message': m, 'at': w} for k, (m, w) in new.items()], open(replay, 'w'), indent=1)
        for k, (m, w) in list(new.items())[:12]:
            print('  [%s] %s\n      at %s' % (k, m, w))
    nob = len(rep.obligations)
    cov = {
        'rule': rep.rule,
        'explanation': meta.get('explanation', rep.rule),
        'obligations': nob, 'discharged': rep.discharged,
        'checker_cmd': './check %s --tier %s' % (rep.prop, rep.tier),
        'trusted_base': meta.get('trusted_base', ['clang 18 front end (parsing, overload resolution, template instantiation)', 'parse-time stand-ins for ROS/lanelet headers in /verif/stubs', 'abstract transformers of /verif/sa']),
        'functions_analysed': sorted(rep.functions)[:400],
        'counts': rep.counts, 'sample_obligations': rep.samples,
        'violations': [{'key': k, 'message': m, 'at': w, 'known': k not in new} for k, (m, w) in rep.violations.items()],
        'limits': rep.limits,
    }
    ev = {
        'property': rep.prop, 'tier': rep.tier, 'seed': rep.seed, 'level': level, 'coverage': cov,
        'assumptions': rep.assumptions + meta.get('assumptions', []),
        'wall_s': round(time.time() - rep.t0, 3),
        'violations': len(new),
    }
    json.dump(ev, open(os.path.join(edir, rep.prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions analysed, %s, %.1f s' % (
        rep.prop, nob, rep.discharged, len(rep.functions), ', '.join('%s=%s' % kv for kv in sorted(rep.counts.items())), time.time() - rep.t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (rep.prop, replay))
        return 1
    return 0
