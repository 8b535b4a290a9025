#!/usr/bin/env python3
"""Runs the check of one property:  run.py C15 [quick|thorough]   (or: run.py --setup)

Each property is decided by stages: TLC enumerates the state graph of a specification and a Rust driver
replays its transitions on the real code (MC), or the driver records a run and TLC checks it (TR).
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the machinery failed."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time, traceback, resource
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
SPECS = os.path.join(ROOT, 'specs')
TARGET = os.path.join(ROOT, 'target')
TLAJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()

class Tool(Exception):
    pass

def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)

def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_TARGET_DIR=TARGET,
             RUSTFLAGS='--force-warn unconditional_recursion --cap-lints warn', LIBCLANG_PATH='/usr/lib/llvm-14/lib')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    return e

def build(bins):
    """bins: list of (bin, features)."""
    for b, feat in bins:
        t = time.time()
        # "rs:": the crate that builds libursa with its portable big numbers
        crate, feat = ('harness_rs', feat[3:]) if feat.startswith('rs:') else ('harness', feat)
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', b, '--features', feat],
                           cwd=os.path.join(ROOT, crate), env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            err = [l for l in p.stdout.splitlines() if l.startswith('error')]
            print(p.stdout[-6000:])
            raise Tool('cargo build of %s failed: %s' % (b, err[:3]))
        log('built', b, '%.1fs' % (time.time() - t))

def tlc(workdir, module, cfg, out, workers=1, env=None, heap='6g', timeout=800, simulate=None):
    meta = os.path.join(workdir, 'meta-' + os.path.basename(out))
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', TLAJ, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-config', cfg]
    if simulate:
        cmd += simulate
    cmd += [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    with open(out, 'w') as f:
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Tool('TLC timeout on %s %s' % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode

def tlc_stats(txt):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', txt)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def dig(c, path):
    for k in path.split('.'):
        c = c.get(k) if isinstance(c, dict) else None
    return c

class Run:
    def __init__(self, prop, tier, conf):
        self.prop, self.tier, self.conf = prop, tier, conf
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.work = os.path.join(ROOT, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.viol, self.known = [], {}
        self.states = self.trans = self.traces = self.edges_run = self.events = 0
        self.ops, self.samples, self.assume, self.notes = {}, [], list(conf.get('assumptions', [])), []
        self.lock = threading.Lock()

    # --- known findings -------------------------------------------------
    def load_known(self):
        self.kf = []
        p = os.path.join(ROOT, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                if l.startswith('finding: '):
                    d = json.loads(l[len('finding: '):])
                    if d['property'] == self.prop:
                        self.kf.append(d)

    def is_known(self, v):
        call = json.dumps(v.get('call'), sort_keys=True)
        for k in self.kf:
            if re.search(k['call'], call) and re.search(k.get('got', ''), str(v.get('got'))):
                self.known.setdefault(k['what'], 0)
                self.known[k['what']] += 1
                return True
        return False

    def report(self, stage, v):
        if self.is_known(v):
            return
        with self.lock:
            n = len(self.viol)
            if n >= 20:
                self.viol.append(None)
                return
            path = os.path.join(self.work, 'violation-%d.json' % n)
            v = dict(v, property=self.prop, stage=stage)
            json.dump(v, open(path, 'w'), indent=1)
            self.viol.append(path)
            if n < 5:
                print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
                print('   ', json.dumps(v)[:1500], flush=True)

    # --- stages ---------------------------------------------------------
    def t(self, x):
        """tier dependent setting: (quick, thorough)"""
        return x[0 if self.tier == 'quick' else 1] if isinstance(x, tuple) else x

    def gen(self, i, s):
        """TLC part of an MC stage; may run before the build is finished."""
        cfg = self.t(s['cfg'])
        out = os.path.join(self.work, 'tlc%d.out' % i)
        t = time.time()
        rc = tlc(self.work, s['module'], cfg, out, heap=s.get('heap', '6g'), simulate=self.t(s.get('simulate')))
        edges, ids, n = [], {}, 0
        inits, seen_t = [], set()
        tail = []
        with open(out) as f:
            for l in f:
                if l.startswith('"@@'):
                    d = json.loads(json.loads(l)[2:])
                    sk, tk = json.dumps(d['s'], sort_keys=True), json.dumps(d['t'], sort_keys=True)
                    if sk not in ids:
                        ids[sk] = len(ids)
                        inits.append({'init': ids[sk], 'v': d['s']})
                    if tk not in ids:
                        ids[tk] = len(ids)
                    edges.append((ids[sk], d['e']['c'], d['e']['r'], ids[tk]))
                else:
                    tail.append(l)
        txt = ''.join(tail)
        if rc != 0 or ('No error has been found' not in txt and not s.get('simulate')):
            print(txt[-3000:])
            raise Tool('TLC failed on %s %s (rc %d): the specification violates its own properties or is broken' % (s['module'], cfg, rc))
        g, dst = tlc_stats(txt)
        os.remove(out)
        if not edges:
            raise Tool('no transitions from ' + s['module'])
        m = re.search(r'Finished computing initial states: (\d+) ', txt)
        if m and len(inits) > int(m.group(1)):
            raise Tool('%s: %d states nothing leads to, but %s initial states' % (s['module'], len(inits), m.group(1)))
        log('TLC %s %s: %d distinct states, %d generated, %d transitions, %.1fs' % (s['module'], cfg, dst, g, len(edges), time.time() - t))
        s['_'] = (edges, inits, g, dst)

    def select(self, s, edges, inits):
        cap = self.t(s.get('cap', (20000, 200000)))
        if len(edges) <= cap:
            return edges, True
        rnd = random.Random(self.seed)
        cls = {}
        skey = s.get('strat', ())
        for i, (a, c, r, b) in enumerate(edges):
            k = (c.get('op'), json.dumps(r)[:12] if not isinstance(r, str) or len(r) > 8 else r) + tuple(json.dumps(dig(c, x)) for x in skey)
            if s.get('strat_num') and isinstance(r, str) and r.isdigit():
                k = (k[0], '#') + k[2:]
            cls.setdefault(k, []).append(i)
        for v in cls.values():
            rnd.shuffle(v)
        keep, left = set(), cap
        order = sorted(cls.values(), key=len)
        for j, v in enumerate(order):
            q = left // (len(order) - j)
            keep.update(v[:q])
            left -= min(q, len(v))
        # the tree edges that lead to the sources
        first = {}
        start = {x['init'] for x in inits}
        for i, (a, c, r, b) in enumerate(edges):
            if b not in first and b not in start:
                first[b] = i
        for i in list(keep):
            a = edges[i][0]
            while a not in start:
                p = first[a]
                if p in keep and edges[p][0] == a:
                    break
                keep.add(p)
                a = edges[p][0]
        return [edges[i] for i in sorted(keep)], False

    def driver(self, s, args, what):
        cmd = [os.path.join(TARGET, 'debug', s.get('bin', self.conf['bin']))] + args
        budget = self.t(s.get('budget', (100, 600)))
        cmd += ['seed=%d' % (self.seed + s.get('seed_off', 0)), 'budget=%s' % budget] + list(self.t(s.get('args', [])))
        e = dict(os.environ)
        if s.get('threads'):
            e['RAYON_NUM_THREADS'] = str(s['threads'])
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=budget + 250, env=e, cwd=self.work,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30)))
        except subprocess.TimeoutExpired:
            self.report(what, {'call': {'op': 'hang'}, 'got': 'the code under test does not return', 'cmd': cmd})
            return False
        if p.returncode != 0:
            if p.returncode in (-6, -11, -4, -8, -7):
                self.report(what, {'call': {'op': 'abort'}, 'got': 'the code under test killed the process: signal %d' % -p.returncode, 'cmd': cmd, 'output': p.stdout[-1500:]})
                return False
            print(p.stdout[-3000:])
            raise Tool('driver failed (%d): %s' % (p.returncode, ' '.join(cmd)))
        if p.stdout.strip():
            print(p.stdout[-2000:])
        log('driver', what, '%.1fs' % (time.time() - t))
        return True

    def mc(self, i, s):
        edges, inits, g, dst = s['_']
        sel, full = self.select(s, edges, inits)
        used = {a for a, _, _, _ in sel}
        ef = os.path.join(self.work, 'edges%d.ndjson' % i)
        with open(ef, 'w') as f:
            for x in inits:
                if x['init'] in used:
                    f.write(json.dumps(x) + '\n')
            for a, c, r, b in sel:
                f.write(json.dumps({'s': a, 'c': c, 'r': r, 't': b}) + '\n')
        rep = os.path.join(self.work, 'rep%d.json' % i)
        ok = self.driver(s, ['replay', 'in=' + ef, 'out=' + rep], 'replay:' + s['module'])
        self.states += dst
        self.trans += g
        if not ok:
            return
        d = json.load(open(rep))
        log('  replayed %d of %d transitions (%d over budget, %d unreached), %d mismatches' % (d['executed'], len(edges), d['skipped_budget'], d['unreached'], d['mismatches']))
        self.edges_run += d['executed']
        self.traces += d['executed']
        for k, v in d['ops'].items():
            self.ops[k] = self.ops.get(k, 0) + v
        for b in d['bad']:
            self.report('replay:' + s['module'], b)
        if d['executed'] == 0:
            raise Tool('nothing replayed')
        rnd = random.Random(self.seed)
        for a, c, r, b in rnd.sample(sel, min(3, len(sel))):
            self.samples.append({'model': s['module'], 'call': c, 'result': r})
        self.notes.append({'spec': s['module'], 'cfg': self.t(s['cfg']), 'distinct_states': dst, 'transitions_in_graph': len(edges), 'replayed': d['executed'], 'whole_graph': full and d['skipped_budget'] == 0 and d['unreached'] == 0})
        if not s.get('keep'):
            os.remove(ef)

    def tr(self, i, s):
        n = self.t(s.get('n', (50, 500)))
        tf = os.path.join(self.work, 'trace%d.ndjson' % i)
        if not self.driver(s, [s.get('mode', 'record'), 'out=' + tf, 'n=%d' % n], 'record:' + s['module']):
            return
        lines = open(tf).read().splitlines()
        if not lines:
            raise Tool('empty trace')
        bad = [j for j, l in enumerate(lines) if '"panic: ' in l]
        known_bad = 0
        for j in bad:
            d = json.loads(lines[j])
            self.report('trace:' + s['module'], {'call': d['c'], 'got': d['r'], 'expected': 'no panic', 'at': j + 1})
        # chunked, so that rejection is localised and checked in parallel
        out = os.path.join(self.work, 'trace%d.out' % i)
        t = time.time()
        rej = self.tlc_trace(s, tf, out)
        self.events += len(lines)
        self.traces += 1
        if rej is not None:
            ev = json.loads(lines[rej - 1]) if 1 <= rej <= len(lines) else {}
            self.report('trace:' + s['module'], {'call': ev.get('c'), 'got': ev.get('r'), 'expected': 'a result the specification allows', 'at': rej,
                                                 'path': [json.loads(x)['c'] for x in lines[max(0, rej - 12):rej - 1]], 'trace': tf})
        else:
            # the binding is not vacuous: a recording with one result changed must be rejected
            rnd = random.Random(self.seed * 7919 + i)
            idx = [j for j, l in enumerate(lines) if isinstance(json.loads(l)['r'], (str, bool)) and not (json.loads(l)['c'].get('op') in s.get('free', ()))]
            if idx and s.get('corrupt', True):
                j = rnd.choice(idx)
                d = json.loads(lines[j])
                d['r'] = (not d['r']) if isinstance(d['r'], bool) else 'corrupted'
                cf = os.path.join(self.work, 'corrupt%d.ndjson' % i)
                open(cf, 'w').write('\n'.join(lines[:j] + [json.dumps(d)] + lines[j + 1:j + 3]) + '\n')
                r2 = self.tlc_trace(s, cf, out + 'c')
                if r2 != j + 1:
                    raise Tool('the trace specification %s accepts a corrupted result at %d (%s): %s' % (s['module'], j + 1, r2, lines[j][:300]))
                os.remove(cf)
            for l in rnd.sample(lines, min(2, len(lines))):
                if len(l) < 1500:
                    self.samples.append({'trace': s['module'], 'event': json.loads(l)})
            for l in lines:
                d = json.loads(l)
                k = 'rec:' + str(d['c'].get('op'))
                self.ops[k] = self.ops.get(k, 0) + 1
        self.notes.append({'trace_spec': s['module'], 'events': len(lines)})
        log('  TLC %s: %d events %s, %.1fs' % (s['module'], len(lines), 'accepted' if rej is None else 'REJECTED at %d' % rej, time.time() - t))

    def tlc_trace(self, s, tf, out):
        rc = tlc(self.work, s['module'], self.t(s['cfg']), out, env={'TRACE': tf}, heap=s.get('heap', '4g'))
        txt = open(out).read()
        m = re.search(r'TRACE-REJECTED at (\d+)', txt)
        if m:
            return int(m.group(1))
        if rc == 0 and 'No error has been found' in txt:
            g, d = tlc_stats(txt)
            self.states += d
            self.trans += g
            return None
        # an evaluation error on ill-typed results is a rejection of the next event
        m = re.search(r'l = (\d+)', txt[txt.rfind('State '):]) if 'Error:' in txt else None
        if m and ('Attempted to' in txt or 'The exception was' in txt or 'evaluat' in txt):
            ms = re.findall(r'\bl = (\d+)', txt)
            return int(ms[-1])
        print(txt[-3000:])
        raise Tool('TLC failed on trace ' + s['module'])

    def go(self):
        self.load_known()
        stages = [s for s in self.conf['stages'] if self.tier in s.get('tiers', ('quick', 'thorough'))]
        errs = []
        def guarded(f, *a):
            try:
                f(*a)
            except Exception as e:
                errs.append(e)
        ths = [threading.Thread(target=guarded, args=(self.gen, i, s)) for i, s in enumerate(stages) if s['kind'] == 'mc']
        for t in ths:
            t.start()
        bins = []
        for s in stages:
            b = (s.get('bin', self.conf['bin']), s.get('feature', self.conf['feature']))
            if b not in bins:
                bins.append(b)
        guarded(build, bins)
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        for i, s in enumerate(stages):
            getattr(self, s['kind'])(i, s)
        for op in self.conf.get('require', []):
            if not any(re.search(op, k) for k in self.ops) and not self.viol:
                raise Tool('vacuous: nothing matching %s was exercised (%s)' % (op, sorted(self.ops)[:40]))

    def evidence(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.conf.get('level', 'model_checking'),
              'coverage': {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
                           'transitions_replayed_on_code': self.edges_run, 'recorded_events_checked_by_tlc': self.events,
                           'calls_by_result': self.ops, 'stages': self.notes,
                           'known_findings_seen': self.known, 'samples': self.samples[:12]},
              'assumptions': self.assume, 'wall_s': round(time.time() - T0, 1), 'violations': len(self.viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)

def main():
    from props import PROPS
    if sys.argv[1] == '--setup':
        done = []
        for p in PROPS.values():
            for s in p['stages']:
                b = (s.get('bin', p['bin']), s.get('feature', p['feature']))
                if b not in done:
                    done.append(b)
        build(done)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    r = Run(prop, tier, PROPS[prop])
    try:
        r.go()
    except Tool as e:
        print('ERROR', e)
        if not r.viol:
            r.evidence()
            return 2
    except Exception:
        traceback.print_exc()
        if not r.viol:
            r.evidence()
            return 2
    for w in sorted(r.known):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    r.evidence()
    log('%s %s: %d states, %d transitions replayed, %d recorded events, %d violations' % (prop, tier, r.states, r.edges_run, r.events, len(r.viol)))
    return 1 if r.viol else 0

if __name__ == '__main__':
    sys.exit(main())
