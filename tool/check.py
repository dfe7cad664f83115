#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: extracts the functions under contract from /repo's current sources, has Verus
discharge every obligation, probes the contracts for vacuity, and runs the bounded stand-in / the
search for failing inputs against the compiled code of /repo."""
import sys, os, re, json, time, subprocess, threading, resource, shutil, signal, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import gen
from props import P

ROOT = gen.ROOT
REPO = gen.REPO
T0 = time.time()
NCPU = os.cpu_count() or 4
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(ROOT, '.build')


def log(*a):
    print('[%5.1fs]' % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ deductive part
def scan_assumptions(text):
    """mechanical scan of the generated crate for everything that is assumed, not proved"""
    res = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        l2 = l.split('//')[0]
        if re.search(r'\b(assume|admit)\s*\(', l2):
            res.append('assume/admit: ' + l.strip())
        for kw in ('external_body', 'assume_specification', 'external_trait_specification', 'external_type_specification',
                   'axiom fn', 'verifier::external', 'exec_allows_no_decreases_clause', 'verifier::truncate', 'global size_of'):
            if kw in l2:
                # name: the next line with fn / struct / the rest of this line
                j = i
                while j < len(lines) and not re.search(r'\b(fn|struct|trait|static|global)\b|assume_specification', lines[j]):
                    j += 1
                nm = lines[j].strip() if j < len(lines) else ''
                c = ''
                q = i - 1
                while q >= 0 and lines[q].strip().startswith('//'):
                    c = lines[q].strip().lstrip('/ ') + ' ' + c
                    q -= 1
                res.append(('%s: %s %s' % (kw, nm[:160], ('(' + c.strip() + ')') if c else '')).strip())
                break
    return sorted(set(res))


class Verus:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.c = P[prop]
        self.status = 'undecided'
        self.reason = ''
        self.failed = []
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.g = None
        self.text = ''
        self.out = ''
        self.vac_total = self.vac_failed = 0
        self.vac_bad = []
        self.seeds = []
        self.slow = []
        self.exh = []
        self.witness = None
        self.part_gens = []
        self.vac_out = ''
        self.no_vacuity = False

    def run_verus(self, path, extra=(), timeout=None, threads=4):
        cmd = ['verus', '--crate-type=lib', path, '--num-threads', str(threads), '--output-json', '--time', '--rlimit', '40', '--triggers-mode', 'silent'] + list(extra)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout or (240 if self.tier == 'quick' else 1500))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, 'verus did not end in time', cmd
        try:
            j = json.loads(o[o.index('{'):])
        except ValueError:
            j = None
        return j, e, cmd

    def run(self):
        try:
            self.run_()
        except Exception as e:  # generator problems are never an alarm
            self.status = 'undecided'
            self.reason = 'generator: %s: %s' % (type(e).__name__, e)

    def run_(self):
        d = os.path.join(BUILD, 'gen')
        os.makedirs(d, exist_ok=True)
        ov = gen.load_overlays()
        g = self.g = gen.Gen(ov, self.c['fns'], self.c.get('theory', ()), modular=self.c.get('modular', ()), faults=self.c.get('faults', False))
        self.text = g.generate()
        path = os.path.join(d, self.prop + '.rs')
        open(path, 'w').write(self.text)
        vt = threading.Thread(target=self.vacuity, args=(ov, d))
        vt.start()
        j, e, cmd = self.run_verus(path)
        self.retried = False
        if j is None or re.search(r'(?m)^error: .*rlimit\) exceeded', e) and not re.search(r'(?m)^error: (?!.*rlimit\) exceeded|aborting)', e):
            # the solver gave up: try again with a solver process of its own for every function
            self.retried = True
            j2, e2, cmd2 = self.run_verus(path, ['-V', 'spinoff-all'], 300 if self.tier == 'quick' else 1500)
            if j2 is not None:
                j, e, cmd = j2, e2, cmd2
        self.cmd = ' '.join(cmd)
        self.out = e
        vt.join()
        if j is None:
            self.reason = 'verus gave no result: ' + e[-400:]
            return
        self.fns = {}
        self.errs = []
        self.count(j)
        self.status, self.reason, self.failed = self.judge(g, j, e, self.vac_bad)
        if self.c.get('mains'):
            self.parts(ov, d)
        if self.status == 'proved':
            r = self.exhaustive(d)
            if r:
                self.status, self.reason = r

    def count(self, j):
        vr = j.get('verification-results', {})
        self.verified += vr.get('verified', 0)
        self.errors += vr.get('errors', 0)
        t = j.get('times-ms', {})
        self.smt_ms += t.get('smt', {}).get('smt-run', 0)
        for m in t.get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                k = f['function'].split('::', 1)[-1]
                o = self.fns.setdefault(k, [0, True])
                o[0] += f.get('time-micros', 0) // 1000
                o[1] = o[1] and f.get('success', False)

    def judge(self, g, j, e, vac_bad, tag=None, text=''):
        """the outcome of one run of Verus: (status, reason, failed obligations of the code)"""
        vr = j.get('verification-results', {})
        # error blocks
        errs = []
        lines = text.split('\n')
        for b in re.split(r'(?m)^(?=error)', e):
            m = re.match(r'error(?:\[\w+\])?: (.*)', b)
            if not m or m.group(1).startswith('aborting'):
                continue
            # the section where the code is: prefer an extracted function over a theory
            secs = [g.where(int(x)) for x in re.findall(r'(?m)^(?: *--> [^:]*:)(\d+):', b)]
            lns = [int(x) for x in re.findall(r'(?m)^ *(\d+) \|', b)]
            allsecs = [g.where(x) for x in lns]
            sec = next((s for s in secs + allsecs if s.startswith('fn ')), secs[0] if secs else '?')
            errs.append((m.group(1), sec, b.strip(), any(tag and tag in lines[x - 1] for x in lns if x <= len(lines))))
        self.errs += [x[:3] for x in errs]
        if vr.get('success', not vr.get('encountered-error', True)) and vr.get('errors') == 0 and vr.get('verified', 0) > 0:
            if g.lost:
                # the obligations were accepted although an annotation found no place: the
                # contract itself (spec) must have been placed
                if any('not found' in m and 'function' in m or 'item' in m for _, m in g.lost):
                    return 'undecided', 'not extracted: %s' % g.lost, []
            if vac_bad:
                return 'undecided', 'vacuous: ' + ', '.join(vac_bad), []
            return 'proved', '', []
        if vr.get('encountered-vir-error') or not vr or (vr.get('errors', 0) == 0):
            return 'undecided', 'outside the verifier\'s reach: ' + '; '.join('%s in %s' % x[:2] for x in errs[:3]), []
        if g.lost:
            return 'undecided', 'lost anchor: ' + '; '.join('%s: %s' % x for x in g.lost), []
        hard = [x for x in errs if 'rlimit' not in x[0].lower() and 'resource limit' not in x[0].lower()]
        # a failing lemma of the theory is a problem of the proof library, not of the code
        code = [x for x in hard if x[1].startswith('fn ') or x[1].startswith('item ')]
        if not code:
            return 'undecided', 'no obligation of the code failed: ' + '; '.join('%s in %s' % x[:2] for x in errs[:3]), []
        kinds = ('postcondition', 'precondition', 'post-condition', 'pre-condition', 'requires', 'invariant', 'assertion', 'overflow', 'underflow', 'decreases',
                 'division', 'arithmetic', 'bounds', 'shift', 'unreachable', 'recommend', 'index')
        if not any(any(k in x[0] for k in kinds) for x in code):
            return 'undecided', 'outside the verifier\'s reach: ' + '; '.join('%s in %s' % x[:2] for x in errs[:3]), []
        if tag:
            own = [x for x in code if x[3]]
            if not own:
                return 'undecided', 'an obligation failed that states more than this property: ' + '; '.join('%s in %s' % x[:2] for x in code[:3]), []
            code = own
        return 'failed', '; '.join('%s in %s' % x[:2] for x in code[:3]), [x[:3] for x in code]

    def parts(self, ov, d):
        """main functions of the tools, each in a crate of its own in which all it calls is known by contract only.
        Their contracts state more than this property: of the obligations, those marked with the tag are the property's"""
        tag = self.c.get('tag')

        def part(name):
            g = gen.Gen(ov, [name], (), modular=[x for x in ov if x != name], faults=self.c.get('faults', False))
            text = g.generate()
            path = os.path.join(d, '%s_%s.rs' % (self.prop, name))
            open(path, 'w').write(text)
            only = ['--verify-root', '--verify-function', '*' + self.emitted(ov[name])] if self.tier == 'quick' else []
            j, e, cmd = self.run_verus(path, only, threads=1)
            return name, g, text, j, e, ([], 0, 0) if self.no_vacuity else self.vacuous(ov, d, name)

        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(part, self.c['mains']))
        und = []
        for name, g, text, j, e, (bad, total, hit) in res:
            self.part_gens.append(g)
            self.text += text
            self.out += e if j is None or j.get('verification-results', {}).get('errors', 1) else ''
            if j is None:
                und.append('%s: verus gave no result: %s' % (name, e[-300:]))
                continue
            self.count(j)
            self.vac_total += total
            self.vac_failed += hit
            st, why, failed = self.judge(g, j, e, bad, tag, text)
            if st == 'failed':
                self.failed += failed
            elif st == 'undecided':
                und.append('%s: %s' % (name, why))
        if self.failed:
            self.status = 'failed'
            self.reason = '; '.join('%s in %s' % x[:2] for x in self.failed[:3])
        elif und:
            self.status = 'undecided'
            self.reason = '; '.join([self.reason] * bool(self.reason) + und)[:2000]

    def emitted(self, o):
        m = re.search(r'\bfn (\w+)', ' '.join(t for k, _, t in o.sections if k == 'header'))
        return m.group(1) if m else o.fn.split('::')[-1]

    def exhaustive(self, d):
        """contracts of floating-point expressions, decided by evaluating the expression of the current source on
        every value of its argument; the source file is compiled as it is, with the evaluation appended"""
        self.exh = []
        for x in self.g.exhaustive:
            src = re.sub(r'(?m)^\s*extern crate \w+;', '', open(os.path.join(REPO, 'src', x['file'])).read())
            src = re.sub(r'(?m)^\s*use log::[^;]*;', 'macro_rules! info { ($($t:tt)*) => {}; } macro_rules! debug { ($($t:tt)*) => {}; }', src)
            src += EXHAUSTIVE % x
            base = os.path.join(d, '%s_%s' % (self.prop, x['stand_in']))
            open(base + '.rs', 'w').write(src)
            cmd = ['rustc', '--edition', '2018', '-Awarnings', '-C', 'opt-level=1', '-C', 'overflow-checks=on', '-o', base, base + '.rs']
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                return 'undecided', 'the length of the buffer in %s cannot be evaluated: %s' % (x['fn'], p.stderr[-300:])
            try:
                p = subprocess.run([base], capture_output=True, text=True, timeout=60, preexec_fn=limits, env=dict(os.environ, RUST_BACKTRACE='0'))
                out = p.stdout
            except subprocess.TimeoutExpired:
                out = ''
            m = re.search(r'EXHAUSTIVE ok (\d+)', out)
            if m:
                self.exh.append('%s: `%s` evaluated for every %s in %d..=%d (%s values): %s' % (x['fn'], x['expr'], x['var'], x['lo'], x['hi'], m.group(1), x['ensures']))
                continue
            m = re.search(r'EXHAUSTIVE fails (\d+) (\S+)', out)
            if m:
                self.failed = [('the buffer length %s = %s does not satisfy %s for %s = %s, and %s does not end normally' % (
                    x['expr'], m.group(2), x['ensures'], x['var'], m.group(1), x['shows']), 'fn ' + x['fn'], out)]
                self.witness = {'what': x['shows'], 'input': '%s = %s' % (x['var'], m.group(1)), 'input_hex': '%02x' % int(m.group(1)),
                                'message': 'the call ends with a panic (buffer length %s)' % m.group(2)}
                return 'failed', self.failed[0][0]
            return 'undecided', 'the assumed contract of the buffer length in %s does not hold: %s' % (x['fn'], out[-200:])
        return None

    def vacuity(self, ov, d):
        """every function in a crate of its own, with probes that must fail"""
        if self.no_vacuity:
            return
        g = gen.Gen(ov, self.c['fns'], self.c.get('theory', ()), modular=self.c.get('modular', ()), faults=self.c.get('faults', False))
        with ThreadPoolExecutor(3) as ex:
            for bad, total, hit in ex.map(lambda n: self.vacuous(ov, d, n), [f for f in g.fns if f not in self.c.get('modular', ())]):
                self.vac_bad += bad
                self.vac_total += total
                self.vac_failed += hit

    def vacuous(self, ov, d, name):
        g = gen.Gen(ov, [name], (), vac=True, modular=[x for x in ov if x != name], faults=self.c.get('faults', False))
        text = g.generate()
        path = os.path.join(d, '%s_%s_vac.rs' % (self.prop, name))
        open(path, 'w').write(text)
        j, e, _ = self.run_verus(path, ['--verify-root', '--verify-function', '*' + self.emitted(ov[name]), '--multiple-errors', '100', '--no-auto-recommends-check'],
                                 timeout=120, threads=1)
        return self.vac_hits(g, text, j, e)

    def vac_hits(self, g, text, j, e):
        hit = set()
        lines = text.split('\n')
        for m in re.finditer(r'(?m)^error: assertion failed\n *--> [^:]*:(\d+):', e):
            k = re.search(r'VAC<(\d+)>', lines[int(m.group(1)) - 1])
            if k:
                hit.add(int(k.group(1)))
        # where the solver gave up, it did not prove false: not vacuous as far as it got
        gave_up = set()
        for m in re.finditer(r'(?m)^error: .*rlimit\) exceeded.*\n *--> [^:]*:(\d+):', e):
            gave_up.add(g.where(int(m.group(1))))
        for n, l in enumerate(lines):
            k = re.search(r'VAC<(\d+)>', l)
            if k and g.where(n + 1) in gave_up:
                hit.add(int(k.group(1)))
        bad = []
        if j is None or j.get('verification-results', {}).get('encountered-vir-error'):
            self.vac_out = e[-2000:]
        else:
            bad = [p for k, p in enumerate(g.vac_points) if k not in hit]
        return bad, len(g.vac_points), len(hit)


EXHAUSTIVE = """
fn exhaustive_value(%(var)s: u8) -> usize { %(expr)s }
#[allow(dead_code)]
fn exhaustive_fib(n: u32) -> u128 { let (mut a, mut b) = (0u128, 1u128); for _ in 0..n { let c = a + b; a = b; b = c; } a }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let fib = exhaustive_fib;
    let _ = &fib;
    let mut n = 0;
    let mut bad = None;
    for %(var)s in %(lo)du8..=%(hi)d {
        let r = std::panic::catch_unwind(move || exhaustive_value(%(var)s));
        let ok = match r { Ok(r) => %(ensures)s, Err(_) => false };
        n += 1;
        if !ok {
            let shown = match r { Ok(r) if r <= 1 << 28 => std::panic::catch_unwind(move || { %(shows)s; }).is_err(), Ok(_) => false, Err(_) => true };
            if shown {
                println!("EXHAUSTIVE fails {} {:?}", %(var)s, r.ok());
                return;
            }
            bad = bad.or(Some((%(var)s, r.ok())));
        }
    }
    match bad { Some(b) => println!("EXHAUSTIVE unclear {:?}", b), None => println!("EXHAUSTIVE ok {}", n) }
}
"""


# ------------------------------------------------------------------ bounded part
def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Harness:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.c = P[prop]
        self.err = None
        self.fail = None
        self.evals = self.distinct = 0
        self.samples = []
        self.dir = os.path.join(BUILD, 'run', '%s.%d' % (prop, os.getpid()))

    def cargo(self, args, what):
        env = dict(os.environ)
        env.update(CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_INCREMENTAL='0',
                   CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), RUSTFLAGS='-Awarnings')
        env.pop('CARGO_BUILD_TARGET', None)
        p = subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'] + args, env=env, capture_output=True, text=True)
        if p.returncode:
            self.err = '%s does not build: %s' % (what, p.stderr[-3000:])
            return False
        return True

    def stale(self):
        """cargo goes by modification times: if the sources are not those of the last build, build them anew"""
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
            for f in sorted(fs):
                h.update(os.path.join(d, f)[len(REPO):].encode() + b'\0' + open(os.path.join(d, f), 'rb').read() + b'\0')
        h.update(open(os.path.join(REPO, 'Cargo.toml'), 'rb').read())
        stamp = os.path.join(BUILD, 'target', 'sources')
        fp = os.path.join(BUILD, 'target', 'debug', '.fingerprint')
        os.makedirs(fp, exist_ok=True)
        old = open(stamp).read().split() if os.path.exists(stamp) else []
        if h.hexdigest() not in old:
            for x in os.listdir(fp):
                if x.startswith('stringology-') or x.startswith('vharness-'):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            open(stamp, 'w').write(h.hexdigest())

    def build(self):
        self.err = None
        self.stale()
        b = []
        for x in self.c['bins']:
            b += ['--bin', x]
        if b and not self.cargo(['--manifest-path', REPO + '/Cargo.toml'] + b, 'repository'):
            return False
        hm = os.path.join(ROOT, 'harness')
        if REPO != '/repo':
            hm = os.path.join(BUILD, 'harness_alt')
            shutil.rmtree(hm, ignore_errors=True)
            shutil.copytree(os.path.join(ROOT, 'harness'), hm)
            t = open(hm + '/Cargo.toml').read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(hm + '/Cargo.toml', 'w').write(t)
        return self.cargo(['--manifest-path', hm + '/Cargo.toml'], 'harness')

    def go(self, seconds, seed, nsh=None, deep=False, hangs=False):
        nsh = nsh or NCPU
        os.makedirs(self.dir, exist_ok=True)
        procs = []
        tgt = os.path.join(BUILD, 'target', 'debug')
        for i in range(nsh):
            tmp = os.path.join(self.dir, 's%d' % i)
            os.makedirs(tmp, exist_ok=True)
            of = open(os.path.join(tmp, 'out.txt'), 'w')
            env = dict(os.environ, RUST_BACKTRACE='0')
            env.pop('RUST_LOG', None)
            p = subprocess.Popen([os.path.join(tgt, 'vharness'), self.prop, '--tier', self.tier, '--seed', str(seed),
                                  '--shard', str(i), '--nshards', str(nsh), '--seconds', str(seconds), '--bins', tgt, '--tmp', tmp] + (['--deep'] if deep else []),
                                 stdout=of, stderr=open(os.path.join(tmp, 'err.txt'), 'w'), preexec_fn=limits, env=env, cwd=tmp)
            procs.append((i, p, tmp))
        end = time.time() + seconds * 2 + 60
        hung = []
        for i, p, tmp in procs:
            try:
                p.wait(timeout=max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                hung.append(i)
            # kill the whole session (tools that were left)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        for i, p, tmp in procs:
            out = open(os.path.join(tmp, 'out.txt')).read()
            cur = ''
            try:
                cur = open(os.path.join(tmp, 'current.txt'), errors='replace').read()
            except OSError:
                pass
            summ = None
            for l in out.split('\n'):
                if l.startswith('{"fail"'):
                    f = json.loads(l)['fail']
                    if 'cannot start' in f['message']:
                        self.err = f['message']
                        continue
                    if self.fail is None or len(f['input']) < len(self.fail['input']):
                        self.fail = f
                elif l.startswith('{"evaluations"'):
                    summ = json.loads(l)
            if summ:
                self.evals += summ['evaluations']
                self.distinct += summ['distinct_nontrivial']
                self.samples += summ['samples']
            elif i in hung and deep and not hangs:
                pass  # a long input that takes too long tells nothing
            elif i in hung:
                self.fail = self.fail or {'what': cur.split('\n')[0], 'input': cur, 'input_hex': '', 'message': 'the case did not end within %d s' % (seconds + 50)}
            else:
                e = open(os.path.join(tmp, 'err.txt')).read()[-1000:]
                if p.returncode in (-6, -11, 134, 139, -4):
                    self.fail = self.fail or {'what': cur.split('\n')[0], 'input': cur, 'input_hex': '', 'message': 'aborted with signal %d: %s' % (-p.returncode, e)}
                else:
                    self.err = self.err or 'harness shard %d ended with %s: %s' % (i, p.returncode, e)
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\w+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3).strip()))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = P[prop]
    secs = float(os.environ.get('VERIF_SECONDS', '8' if tier == 'quick' else '150'))
    os.makedirs(BUILD, exist_ok=True)
    v = Verus(prop, tier)
    h = Harness(prop, tier, seed)
    vt = threading.Thread(target=v.run)
    vt.start()
    built = h.build()
    if not built:
        built = h.build()
    if not built:
        vt.join()
        print('ERROR: %s' % h.err)
        sys.exit(2)
    log('built')
    h.go(secs, seed)
    log('bounded stand-in: %d cases%s' % (h.evals, ', failing input found' if h.fail else ''))
    vt.join()
    log('verus: %s, %d verified, %d errors %s' % (v.status, v.verified, v.errors, v.reason))
    if h.err and not h.fail:
        print('ERROR: ' + h.err)
        sys.exit(2)
    if v.witness and not h.fail:
        h.fail = v.witness
    if v.status == 'failed' and not h.fail:
        log('searching for a failing input')
        h.go(25 if tier == 'quick' else 150, seed + 1000, deep=True, hangs=True)
        if not h.fail:
            h.go(45 if tier == 'quick' else 200, seed + 1000)
        h.err = None
    elif v.status == 'undecided' and not h.fail:
        h.go(20, seed + 500)
        if not h.fail:
            # a case without end tells something only where the functions take linear time
            h.go(20, seed + 500, deep=True, hangs=prop in ('P03', 'P05', 'P08', 'P09'))
        h.err = None
    violation = None
    if h.fail:
        violation = {'kind': 'failing input', 'failing_input': h.fail}
    elif v.status == 'failed':
        violation = {'kind': 'failed obligation'}
    if tier == 'thorough' and v.status == 'proved':
        # proof stability: other solver seeds
        path = os.path.join(BUILD, 'gen', prop + '.rs')
        for s in (7, 23, 91):
            j, e, _ = v.run_verus(path, ['--smt-option', 'smt.random_seed=%d' % s, '--smt-option', 'sat.random_seed=%d' % s])
            ok = bool(j and j['verification-results'].get('success'))
            v.seeds.append({'seed': s, 'accepted': ok})
    # evidence
    ov = gen.load_overlays()
    fns = v.g.fns if v.g else c['fns']
    proved = v.status == 'proved'
    trusted = scan_assumptions(v.text)
    gens = ([v.g] if v.g else []) + v.part_gens
    mains = c.get('mains', [])
    callees = [f for f in dict.fromkeys(f for g in v.part_gens for f in g.fns) if f not in mains and f not in fns]
    trusted += ['extraction: ' + x for x in sorted(set(x for g in gens for x in g.used))]
    trusted += ['extraction: comments and attributes of the extracted functions are dropped',
                'Verus %s, its standard library contracts (vstd) and Z3' % '0.2026.09.13.671956e',
                'rustc compiles the functions as Verus reads them']
    trusted += ['assumption: ' + t for f in list(fns) + mains for t in ov[f].trust]
    trusted += ['assumption: ' + t for t in c.get('assume', ())]
    home = {p: set(gen.Gen(ov, P[p]['fns'], (), modular=P[p].get('modular', ())).fns) - set(P[p].get('modular', ())) | set(P[p].get('mains', ())) for p in P}
    cov = {
        'obligations': v.verified + v.errors,
        'discharged': v.verified,
        'checker_cmd': getattr(v, 'cmd', 'verus'),
        'trusted_base': trusted or ['none'],
        'functions_under_contract': [ov[f].fn for f in fns if f not in c.get('modular', ())] + [ov[f].fn for f in mains],
        'contracts_discharged_in_other_checks': {ov[f].fn: [p for p in P if f in home[p]]
                                                 for f in [f for f in fns if f in c.get('modular', ())] + callees},
        'functions_total_loops': sum(g.loops for g in gens),
        'back_end': 'Verus / Z3',
        'solver_ms': v.smt_ms,
        'theorems': c.get('theorems', []),
        'verus_status': v.status,
        'verus_reason': v.reason,
        'vacuity_probes': v.vac_total,
        'vacuity_probes_reachable': v.vac_failed,
        **({'vacuity_probes_without_answer': v.vac_out} if v.vac_out else {}),
        'functions_changed_since_contracts_were_written': sorted(set(x for g in gens for x in g.changed)),
        'bounded_stand_in_for': c.get('bounded', ''),
        'evaluations': h.evals,
        'distinct_nontrivial': h.distinct,
        'rule': c['rule'],
        'samples': h.samples[:6] or ['none'],
        'explanation': ('every obligation generated from the current source was accepted' if proved else
                        'NOT proved on this run (%s): the outcome rests on the bounded stand-in only' % v.reason),
    }
    if mains:
        cov['verified_on_their_own'] = ('%s: each in a crate of its own, in which the functions it calls are known by their contracts only and the lemmas '
                                        'of the theories are taken as stated in the quick tier; both are discharged in the checks of the properties they belong to%s' % (
                                            ', '.join(mains), '; an obligation counts for this property if it is marked %s' % c['tag'] if c.get('tag') else ''))
    if v.exh:
        cov['contracts_decided_on_their_whole_domain'] = v.exh
    if v.seeds:
        cov['proof_stability'] = v.seeds
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'proof' if proved else 'exploration',
        'coverage': cov,
        'assumptions': trusted,
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if violation else 0,
    }
    known = None
    if violation and h.fail:
        key = h.fail['what'] + ' ' + h.fail.get('input_hex', '')
        for rx, txt in known_findings(prop):
            if rx.search(key):
                known = txt
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for _, txt in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    if not violation or known:
        print('OK property=%s verus=%s (%d obligations) bounded cases=%d' % (prop, v.status, v.verified, h.evals))
        sys.exit(0)
    rd = os.path.join(ROOT, 'replay')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, prop + '.json')
    violation['property'] = prop
    violation['verus'] = {'status': v.status, 'failed_obligations': [{'obligation': x[0], 'where': x[1], 'output': x[2]} for x in v.failed],
                          'output': v.out[-20000:]}
    violation['how'] = ('failing_input.input_hex is the input (what names the function or tool and its parameters); '
                        'run `VERIF_SEED=%d python3 tool/check.py %s --tier %s` in /verif to see it again' % (seed, prop, tier))
    json.dump(violation, open(rp, 'w'), indent=1)
    if h.fail:
        print('failing input: %s on %s: %s' % (h.fail['what'], h.fail['input'][:300], h.fail['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    else:
        for x in v.failed[:5]:
            print('failed obligation: %s (%s)' % (x[0], x[1]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    sys.exit(1)


if __name__ == "__main__":
    main()
