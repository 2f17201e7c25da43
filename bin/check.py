#!/usr/bin/env python3
"""Decide one property: check.py <property id> [--tier quick|thorough]
   Replay a reported violation: check.py --replay <file>
   See DESIGN.md, "The runner"."""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import annotate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
OUT = os.path.join(VERIF, 'out')
DEFS = ['-DHAVE_CONFIG_H=1', '-DSYSCONFDIR=/etc', '-DWITH_OOMF', '-DWITH_PTHREADS']
BASEFLAGS = ['--no-standard-checks', '--bounds-check', '--pointer-check',
             '--div-by-zero-check', '--unwinding-assertions', '--slice-formula',
             '--no-malloc-may-fail']
# back ends; 'uf' treats arrays with lazily added constraints and can report a
# spurious failure (never a spurious success), so its failures are only used
# when no other back end answers
BACKENDS = {'uf': ['--arrays-uf-always'],
            'ufc': ['--arrays-uf-always', '--sat-solver', 'cadical'],
            'z3': ['--z3', '--external-smt2-solver', 'z3-new'],
            'cvc5': ['--cvc5'],
            'cad': ['--sat-solver', 'cadical'],
            'sat': []}
BNAME = {'cad': 'cbmc SAT (CaDiCaL)', 'uf': 'cbmc SAT (MiniSat 2.2.1) with array theory', 'ufc': 'cbmc SAT (CaDiCaL) with array theory', 'sat': 'cbmc SAT (MiniSat 2.2.1)',
         'z3': 'z3 (z3-new) via SMT2', 'cvc5': 'cvc5 1.1.2 via SMT2'}
DFCC_LOOPS = ['__CPROVER_contracts_' + x for x in (
    'write_set_check_assigns_clause_inclusion', 'write_set_check_assignment', 'write_set_check_array_set',
    'write_set_check_array_copy', 'write_set_check_array_replace', 'write_set_check_havoc_object',
    'write_set_check_frees_clause_inclusion', 'write_set_check_deallocate', 'write_set_havoc_slice')]
LOCK = threading.Lock()


def sh(cmd, timeout, cwd=None, mem_gb=12, reg=None):
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, cwd=cwd, preexec_fn=lim)
    if reg is not None:
        reg.append(p)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, '', 'timeout', time.time() - t0


def load_unit(path):
    txt = open(path).read()
    m = re.match(r'/\*VP\s*(\{.*?\n\})\s*\*/', txt, re.S)
    if not m:
        return None
    u = json.loads(m.group(1))
    u['path'] = path
    u['name'] = os.path.basename(path)[:-2]
    u['text'] = txt
    return u


def units_for(pid):
    us = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'units', '*.c'))):
        u = load_unit(f)
        if u and (pid in u['properties'] or any(pid in x.get('properties', []) for x in u.get('per', {}).values())):
            us += [v for v in split(u) if pid in v['properties']]
    return us


def split(u):
    """goto-instrument enforces one contract per binary: a unit that enforces
    several is decided once per function, its harness told which by VP_OP"""
    if len(u.get('enforce', [])) < 2:
        return [u]
    r = []
    for i, f in enumerate(u['enforce']):
        v = dict(u, enforce=[f], functions=[f], name=u['name'] + '.' + f,
                 defs=u.get('defs', []) + ['-DVP_OP=%d' % i])
        v.update(u.get('per', {}).get(f, {}))
        r.append(v)
    return r


class Run:
    """One unit, decided against the current source."""

    def __init__(self, u, pid, tier, seed, deadline):
        self.u, self.pid, self.tier, self.seed, self.deadline = u, pid, tier, seed, deadline
        self.wd = tempfile.mkdtemp(prefix=u['name'] + '.', dir=os.path.join(OUT, 'work'))
        self.res = {'unit': u['name'], 'functions': u.get('functions', u.get('enforce', [])),
                    'enforced': u.get('enforce', []), 'replaced': u.get('replace', []),
                    'obligations': 0, 'discharged': 0, 'solver_s': 0.0, 'stage': None,
                    'covers': 0, 'notes': []}

    globals = None

    def left(self):
        return self.deadline - time.time()

    def note(self, s):
        self.res['notes'].append(s)

    # ---- building -----------------------------------------------------
    def incs(self, first=None):
        cfg = os.path.join(REPO, '_build')
        if not os.path.exists(os.path.join(cfg, 'config.h')):
            cfg = os.path.join(VERIF, 'lib', 'fallback')
        r = []
        if first:
            r.append('-I' + first)
        return r + ['-I' + os.path.join(VERIF, 'lib'), '-I' + cfg, '-I' + SRC]

    def sources_ok(self):
        for f in self.u.get('sources', []):
            if not os.path.exists(os.path.join(SRC, f)):
                return False
        return True

    def annotated(self, loops):
        """directory with (annotated) copies of the unit's sources"""
        d = os.path.join(self.wd, 'src_' + ('ann' if loops else 'raw'))
        os.makedirs(d, exist_ok=True)
        for f in self.u.get('sources', []):
            txt = open(os.path.join(SRC, f), errors='surrogateescape').read()
            ds = [x for x in self.u.get('loops', []) if x.get('file', self.u['sources'][0]) == f]
            if self.own:
                ds = [x for x in ds if x['func'] in self.u.get('enforce', [])]
            if loops and ds:
                txt = annotate.apply(txt, ds)
            elif not loops:
                ds = [x for x in ds if x.get('always')]
                if ds:
                    txt = annotate.apply(txt, ds)
            if self.u.get('ptr_order'):
                txt = annotate.ptr_order(txt)
            txt = annotate.rename_defs(txt, self.u.get('stub_defs', []))
            if f == self.u['sources'][0]:
                txt = annotate.no_varargs(txt, self.u.get('novararg', []))
            with open(os.path.join(d, f), 'w', errors='surrogateescape') as o:
                o.write('#line 1 "%s"\n' % os.path.join(SRC, f) + txt)
        return d

    own = False                         # only the loops of the enforced function carry a contract

    def build(self, mode):
        if mode != 'PROVE' or not self.u.get('loops') or not self.u.get('enforce'):
            return self.build1(mode)
        try:
            gb, why = self.build1(mode)
        except annotate.Inapplicable as x:
            gb, why = None, 'loop annotation does not fit the source: %s' % x
        if gb or all(x['func'] in self.u['enforce'] for x in self.u['loops']):
            return gb, why
        # a loop of another function in the unit was rewritten: leave those plain
        self.own = True
        gb, w2 = self.build1(mode)
        self.own = False
        if gb:
            self.note('without the loop contracts of other functions (%s)' % why[:200])
        return gb, w2

    def build1(self, mode):
        loops = mode == 'PROVE' and bool(self.u.get('loops'))
        d = self.annotated(loops)
        a = os.path.join(self.wd, mode + '.a.gb')
        b = os.path.join(self.wd, mode + '.b.gb')
        cmd = ['goto-cc', '--function', 'harness', '-DVP_' + mode, '-DNDEBUG'] + DEFS + \
            self.u.get('defs', []) + self.incs(d) + [self.u['path']] + \
            [os.path.join(SRC, x) for x in self.u.get('extra', [])] + ['-o', a]
        rc, o, e, t = sh(cmd, min(120, self.left()))
        if rc != 0:
            return None, 'goto-cc failed: ' + (o + e)[-800:]
        if self.u.get('plain'):
            return a, None
        defined = set()
        for f in self.u.get('sources', []) + self.u.get('extra', []):
            p = os.path.join(SRC, f)
            defined |= set(annotate.functions_defined(open(p, errors='replace').read()))
        rc, o, e, t = sh(['goto-instrument', '--list-symbols', a], 60)
        if rc == 0:
            self.globals = set(l.split()[0] for l in o.splitlines() if l.split() and '::' not in l.split()[0])
        cmd = ['goto-instrument', '--dfcc', 'harness']
        for f in self.u.get('enforce', []):
            if f not in defined:
                return None, 'function %s is no longer defined in the unit sources' % f
            cmd += ['--enforce-contract', f]
        for f in self.u.get('replace', []):
            cmd += ['--replace-call-with-contract', f]
        if loops:
            cmd += ['--apply-loop-contracts']
        for v in self.u.get('keep_static', []):
            if v in getattr(self, 'globals', ()):
                cmd += ['--nondet-static-exclude', v]
        cmd += [a, b]
        rc, o, e, t = sh(cmd, min(200, self.left()))
        if rc != 0:
            return None, 'goto-instrument failed: ' + (o + e)[-800:]
        return b, None

    def cbmc(self, gb, mode, extra=(), timeout=300):
        flags = list(BASEFLAGS)
        drop = self.u.get('noflags', [])
        flags = [f for f in flags if f not in drop] + self.u.get('flags', [])
        uw = self.u.get('unwind', 1) if mode == 'PROVE' else self.u.get('bound_unwind', self.u.get('unwind', 1))
        if self.tier == 'thorough' and mode == 'PROVE' and 'thorough_unwind' in self.u:
            uw = self.u['thorough_unwind']
        us = self.u.get('unwindset', []) if mode == 'PROVE' else self.u.get('bound_unwindset', self.u.get('unwindset', []))
        us = list(us)
        if not self.u.get('plain'):
            us += ['%s.0:40' % f for f in DFCC_LOOPS]
        cmd = ['cbmc', '--verbosity', '4', '--unwind', str(uw)] + flags
        if us:
            cmd += ['--unwindset', ','.join(us)]
        bes = self.u.get('backends', ['uf', 'z3'])
        best, whys = {}, []
        with cf.ThreadPoolExecutor(len(bes)) as ex:
            procs = []
            futs = {ex.submit(self.cbmc1, cmd + BACKENDS[be] + list(extra) + [gb],
                              min(timeout, self.left()), procs): be for be in bes}
            for f in cf.as_completed(futs):
                be = futs[f]
                props, why = f.result()
                if props is None:
                    whys.append('%s: %s' % (be, why))
                    continue
                best[be] = props
                c = self.classify(props)
                if not be.startswith('uf') or not any(c[k] for k in ('sem', 'tool', 'ann', 'err')):
                    self.kill(procs)
                    break
        for be in ('z3', 'cvc5', 'sat', 'cad', 'uf', 'ufc'):
            if be in best:
                c = self.classify(best[be])
                if not be.startswith('uf') and any(not any(
                        self.classify(best[b])[k] for k in ('sem', 'tool', 'ann', 'err'))
                        for b in best if b.startswith('uf')):
                    continue
                if be == 'uf' and 'ufc' in best and not any(
                        self.classify(best['ufc'])[k] for k in ('sem', 'tool', 'ann', 'err')):
                    continue
                self.res['backend'] = BNAME[be]
                self.used = be
                return best[be], None
        return None, '; '.join(whys)

    def kill(self, procs):
        self.stop = True
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.stop = False

    used = 'uf'

    def cbmc1(self, cmd, timeout, procs):
        rc, o, e, t = sh(cmd, timeout, mem_gb=self.u.get('mem_gb', 12), reg=procs)
        with LOCK:
            self.res['solver_s'] += t
        if rc is None:
            return None, 'solver timeout after %.0f s' % t
        props, cur = [], ''
        for l in o.splitlines():
            m = re.match(r'^\[(\S+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
            if m:
                props.append({'property': m.group(1), 'description': m.group(4), 'status': m.group(5),
                              'sourceLocation': {'file': m.group(2) or cur, 'line': m.group(3) or '?'}})
                continue
            m = re.match(r'^(\S+) function (\S+)$', l)
            if m:
                cur = m.group(1)
        if not props:
            return None, 'cbmc gave no result (rc=%s): %s' % (rc, (o + e)[-300:])
        return props, None

    # ---- classification -----------------------------------------------
    TOOL = re.compile(r'unwinding assertion|undefined function should be unreachable|'
                      r'no body for callee|recursion unwinding|unsupported|'
                      r'decreases|is valid prior to|dead object|dynamic allocation', re.I)
    ANN = re.compile(r'loop invariant|Check invariant|decreases clause|variant|'
                     r'assigns clause inclusion|loop assigns', re.I)

    def artefact(self, p):
        """goto-instrument --dfcc --apply-loop-contracts (6.11) checks assignments to
        scalar locals inside loops that carry no contract against a write set to
        which it never added the local.  A plain identifier that is no global is
        such a local, and writing it is never a frame violation."""
        m = re.match(r'Check that ([A-Za-z_]\w*) is assignable$', p.get('description', ''))
        return bool(m) and self.globals is not None and m.group(1) not in self.globals

    def classify(self, props, loop_lines=True):
        r = {'ok': [], 'sem': [], 'tool': [], 'ann': [], 'reach': [], 'vac': [], 'err': [], 'ign': []}
        for p in props:
            d = p.get('description', '')
            st = p.get('status')
            if d.startswith('VPREACH'):
                (r['reach'] if st == 'FAILURE' else r['vac']).append(p)
            elif st == 'SUCCESS':
                r['ok'].append(p)
            elif st == 'FAILURE':
                if re.search(r'\.(pointer_arithmetic|pointer)\.\d+$', p['property']) and \
                        re.search(r'pointer relation|same object violation|pointer arithmetic', d):
                    # C pointer-comparison pedantry without an access; not a property
                    r['ign'].append(p)
                elif self.artefact(p):
                    r['ign'].append(p)
                elif self.ANN.search(d) or 'loop_' in p['property'] or '.loop' in p['property']:
                    r['ann'].append(p)
                elif self.TOOL.search(d) or '.unwind.' in p['property'] or \
                        '.recursion' in p['property'] or 'no-body' in p['property']:
                    r['tool'].append(p)
                else:
                    r['sem'].append(p)
            else:
                r['err'].append(p)
        return r

    def pname(self, p):
        """readable name of an obligation: contract clauses are named by the
        text given in the unit"""
        d = p.get('description', '')
        m = re.match(r'(.*)\.postcondition\.(\d+)$', p['property'])
        if m:
            f = re.sub(r'^.*::', '', m.group(1)).replace('__CPROVER_contracts_', '')
            f = re.sub(r'_wrapped.*', '', f)
            q = self.clauses(f)
            n = int(m.group(2)) - 1
            if 0 <= n < len(q):
                return '%s ensures: %s' % (f, q[n])
        loc = p.get('sourceLocation', {})
        return '%s: %s (%s:%s)' % (p['property'], d, os.path.basename(loc.get('file', '?')), loc.get('line', '?'))

    def clauses(self, f):
        m = re.search(r'#define Q_%s\(E\)(.*?[^\\])\n' % re.escape(f), self.u['text'], re.S)
        if not m:
            return []
        return re.findall(r'\bE\(\s*"((?:[^"\\]|\\.)*)"', m.group(1))

    # ---- native -------------------------------------------------------
    def unmodelled(self):
        """list operations the code can reach that the unit gives no meaning to:
        run natively, the real ones would be handed the unit's stand-in lists"""
        a = os.path.join(self.wd, 'BOUND.a.gb')
        try:
            self.build('BOUND')
        except annotate.Inapplicable:
            pass
        if not os.path.exists(a):
            return []
        rc, o, e, t = sh(['goto-instrument', '--reachable-call-graph', a], 60)
        called = set(m.group(1) for m in re.finditer(r'-> (\w+)', o)) if rc == 0 else set()
        rc, o, e, t = sh(['goto-instrument', '--list-undefined-functions', a], 60)
        return sorted(called & set(x for x in o.split() if x.startswith('list_'))) if rc == 0 else []

    def native_build(self):
        lib = native_lib(self.left())
        d = self.annotated(False)
        exe = os.path.join(self.wd, 'native')
        cmd = ['gcc', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer',
               '-DVP_NATIVE', '-DNDEBUG'] + DEFS + self.u.get('defs', []) + self.incs(d) + \
            [self.u['path']] + [os.path.join(SRC, x) for x in self.u.get('extra', [])] + \
            ['-Wl,-z,muldefs', '-o', exe] + ([lib] if lib else []) + \
            ['-lpthread', '-lwrap', '-lipmiconsole', '-lutil']
        rc, o, e, t = sh(cmd, min(120, self.left()), mem_gb=1 << 20)
        if rc != 0:
            self.note('native build failed: ' + (o + e)[-400:])
            return None
        return exe

    def native(self, exe, args, timeout):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0')
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=env, stdin=subprocess.DEVNULL, cwd=self.wd)
        except subprocess.TimeoutExpired as x:
            return None, (x.stdout or b'').decode('utf8', 'replace')
        return p.returncode, p.stdout.decode('utf8', 'replace') + p.stderr.decode('utf8', 'replace')[-1500:]

    def save_replay(self, kind, failed, values=None, native_out='', verifier=''):
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        path = os.path.join(OUT, 'replay', '%s-%s.json' % (self.pid, self.u['name']))
        json.dump({'property': self.pid, 'unit': self.u['name'], 'kind': kind,
                   'failed_obligations': failed, 'inputs': values,
                   'native_output': native_out[-3000:], 'verifier_output': verifier[-6000:],
                   'how': 'python3 /verif/bin/check.py --replay ' + path}, open(path, 'w'), indent=1)
        return path

    def try_values(self, exe, vals):
        f = os.path.join(self.wd, 'vals')
        open(f, 'w').write('\n'.join(map(str, vals)) + '\n')
        rc, o = self.native(exe, ['replay', f], 30)
        return ('VPFAIL' in o), o, rc

    def trace_values(self, gb, mode, prop, timeout):
        flags = [f for f in BASEFLAGS if f not in self.u.get('noflags', [])] + self.u.get('flags', [])
        uw = self.u.get('unwind', 1) if mode == 'PROVE' else self.u.get('bound_unwind', self.u.get('unwind', 1))
        us = self.u.get('unwindset', []) if mode == 'PROVE' else self.u.get('bound_unwindset', self.u.get('unwindset', []))
        us = list(us)
        if not self.u.get('plain'):
            us += ['%s.0:40' % f for f in DFCC_LOOPS]
        cmd = ['cbmc', '--trace', '--verbosity', '4', '--unwind', str(uw)] + flags
        cmd = [c for c in cmd if c != '--slice-formula']
        if us:
            cmd += ['--unwindset', ','.join(us)]
        cmd += BACKENDS['z3' if self.used.startswith('uf') and 'z3' in self.u.get('backends', ['z3']) else self.used] + ['--property', prop, gb]
        rc, o, e, t = sh(cmd, min(timeout, self.left()))
        self.res['solver_s'] += t
        if rc is None:
            return None, ''
        vals = [int(v) for v in re.findall(r'^\s*vp_nd_val=(-?\d+)l?', o, re.M)]
        return vals, o

    # ---- the decision -------------------------------------------------
    def decide(self):
        u, res = self.u, self.res
        t0 = time.time()
        res['verdict'] = 'held'
        sem, why = [], None
        if not self.sources_ok():
            why = 'a source file of the unit is missing'
            props = None
            gb = None
        else:
            try:
                gb, why = self.build('PROVE')
            except annotate.Inapplicable as x:
                gb, why = None, 'loop annotation does not fit the source: %s' % x
            props = None
            if gb:
                props, why = self.cbmc(gb, 'PROVE', timeout=u.get('timeout', 400))
        c = None
        if props:
            c = self.classify(props)
            res['obligations'] = sum(len(c[k]) for k in ('ok', 'sem', 'tool', 'ann', 'err'))
            res['discharged'] = len(c['ok'])
            res['covers'] = len(c['reach'])
            if not any(c[k] for k in ('sem', 'tool', 'ann', 'err', 'vac')) and c['reach'] and c['ok']:
                res['stage'] = 'proved' if not u.get('bounded') else 'bounded'
                if u.get('bounded'):
                    res['bound'] = u['bounded']
                res['wall_s'] = round(time.time() - t0, 1)
                return res
            sem = c['sem']
            for k in ('tool', 'ann', 'err', 'vac', 'sem'):
                for p in c[k][:4]:
                    self.note('%s: %s' % (k, self.pname(p)))
        if why:
            self.note(why)
        # not proved: look for a concrete failing input
        exe = None
        if self.sources_ok():
            un = self.unmodelled()
            if un:
                self.note('not run natively: no model of ' + ', '.join(un))
            else:
                exe = self.native_build()
        failed = [self.pname(p) for p in sem]
        if exe:
            v = self.random(exe, failed, 10 if sem else 25)
            if v:
                v['wall_s'] = round(time.time() - t0, 1)
                return v
        bsem = []
        bprops = None
        same = not u.get('loops') and 'bound_unwind' not in u and not u.get('two_sizes')
        gbb = None
        if self.sources_ok() and (not same or not props):
            try:
                gbb, bwhy = self.build('BOUND')
            except annotate.Inapplicable as x:
                gbb, bwhy = None, str(x)
            if gbb:
                bprops, bwhy = self.cbmc(gbb, 'BOUND', timeout=u.get('bound_timeout', 200))
            if bwhy:
                self.note('bounded: ' + bwhy)
            if bprops:
                bc = self.classify(bprops)
                bsem = bc['sem']
                if bsem and exe:
                    v = self.cex(gbb, 'BOUND', bsem, exe)
                    if v:
                        return v
        if exe and sem and gb and not bsem:
            v = self.cex(gb, 'PROVE', sem, exe)
            if v:
                return v
        native_ok = 'native_runs' in res or (bool(props) and not sem)
        bounded_clean = bprops is not None and not bsem
        if bsem or (sem and not bounded_clean) or (sem and same):
            fs = bsem or sem
            res['verdict'] = 'violated'
            res['confirmed'] = False
            res['failed'] = [self.pname(p) for p in fs]
            res['replay'] = self.save_replay('undischarged obligation', res['failed'], None, '',
                                             json.dumps(fs[:20], indent=1))
        elif bounded_clean:
            res['stage'] = 'bounded'
            res['bound'] = u.get('bound_text', 'loops unwound %s times' % u.get('bound_unwind', u.get('unwind', 1)))
            res['obligations'] = len(bc['ok'])
            res['discharged'] = 0
            res['bounded_ok'] = len(bc['ok'])
        elif native_ok:
            res['stage'] = 'undecided'
        else:
            res['verdict'] = 'error'
        res['wall_s'] = round(time.time() - t0, 1)
        return res

    def random(self, exe, failed, secs):
        res = self.res
        dump = os.path.join(self.wd, 'rand')
        secs = int(min(self.u.get('random_s', secs), max(3, self.left() - 10)))
        rc, o = self.native(exe, ['random', str(self.seed), str(secs), dump], secs + 60)
        if 'VPFAIL' in o or 'ERROR: AddressSanitizer' in o:
            vals = [int(x) for x in open(dump).read().split()] if os.path.exists(dump) else None
            names = sorted(set(re.findall(r'VPFAIL (.*)', o)))
            res['verdict'] = 'violated'
            res['confirmed'] = True
            res['failed'] = failed or names
            res['replay'] = self.save_replay('failing input found by native search over the '
                                             'contract\'s preconditions, on the real code',
                                             failed + names, vals, o)
            return res
        m = re.search(r'VPRESULT pass n=(\d+) ok=(\d+)', o)
        if m:
            res['native_runs'] = int(m.group(2))
            self.note('native random search: %s runs, %s satisfied the preconditions, no failure' % m.groups())
        else:
            self.note('native run gave no result: ' + o[-200:])
        return None

    def cex(self, gb, mode, sem, exe):
        res = self.res
        for p in sem[:3]:
            if self.left() < 20:
                break
            vals, o = self.trace_values(gb, mode, p['property'], 90)
            if not vals:
                continue
            bad, out, rc = self.try_values(exe, vals)
            if bad:
                res['verdict'] = 'violated'
                res['confirmed'] = True
                res['failed'] = [self.pname(q) for q in sem]
                res['replay'] = self.save_replay('counterexample (%s), confirmed on the real code' % mode,
                                                 res['failed'], vals, out)
                return res
            self.note('counterexample to %s did not fail natively (rc=%s)' % (self.pname(p), rc))
        return None

    def clean(self):
        shutil.rmtree(self.wd, ignore_errors=True)


_lib = {}


def native_lib(left):
    """archive of every other /repo source, for symbols a unit does not define"""
    with LOCK:
        if 'lib' in _lib:
            return _lib['lib']
        d = tempfile.mkdtemp(prefix='lib.', dir=os.path.join(OUT, 'work'))
        _lib['dir'] = d
        cfg = os.path.join(REPO, '_build')
        if not os.path.exists(os.path.join(cfg, 'config.h')):
            cfg = os.path.join(VERIF, 'lib', 'fallback')
        objs = []

        def one(f):
            o = os.path.join(d, os.path.basename(f)[:-2] + '.o')
            rc, _, _, _ = sh(['gcc', '-g', '-O1', '-w', '-fsanitize=address', '-DNDEBUG', '-Dmain=vp_real_main'] + DEFS +
                             ['-I' + cfg, '-I' + SRC, '-c', f, '-o', o], 100, mem_gb=1 << 20)
            return o if rc == 0 else None
        with cf.ThreadPoolExecutor(8) as ex:
            objs = [o for o in ex.map(one, sorted(glob.glob(os.path.join(SRC, '*.c')))) if o]
        lib = os.path.join(d, 'libconman.a')
        rc, o, e, t = sh(['ar', 'rcs', lib] + objs, 60)
        _lib['lib'] = lib if rc == 0 else None
        return _lib['lib']


def known_findings(pid):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                r.append(l)
    return r


def do_replay(path):
    j = json.load(open(path))
    os.makedirs(os.path.join(OUT, 'work'), exist_ok=True)
    if not j.get('inputs'):
        print('no failing input recorded; failed obligations:')
        for f in j['failed_obligations']:
            print('  ' + f)
        print(j.get('verifier_output', ''))
        return 1
    u = load_unit(os.path.join(VERIF, 'units', j['unit'].split('.')[0] + '.c'))
    u = [v for v in split(u) if v['name'] == j['unit']][0]
    r = Run(u, j['property'], 'quick', 1, time.time() + 300)
    exe = r.native_build()
    bad, out, rc = r.try_values(exe, j['inputs'])
    print(out)
    r.clean()
    return 1 if bad else 0


def main():
    if sys.argv[1] == '--replay':
        sys.exit(do_replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv else None
    t0 = time.time()
    os.makedirs(os.path.join(OUT, 'work'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    deadline = t0 + (840 if tier == 'quick' else 7000)
    us = [u for u in units_for(pid) if not only or u['name'] == only or u['name'].split('.')[0] == only]
    if not us:
        print('no unit for ' + pid)
        sys.exit(2)
    runs = [Run(u, pid, tier, seed, deadline) for u in us]
    runs.sort(key=lambda r: -r.u.get('cost', 1))

    def go(r):
        try:
            return r.decide()
        except Exception as x:      # an error of the machinery, never a violation
            import traceback
            r.res['verdict'] = 'error'
            r.res['notes'].append(traceback.format_exc()[-1500:])
            return r.res
    jobs = int(os.environ.get('VP_JOBS', '8'))
    with cf.ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(go, runs))
    if not os.environ.get('VP_KEEP'):
        for r in runs:
            r.clean()
        if 'dir' in _lib:
            shutil.rmtree(_lib['dir'], ignore_errors=True)
    viol = [r for r in results if r['verdict'] == 'violated']
    errs = [r for r in results if r['verdict'] == 'error']
    nfun = sorted(set(f for r in results for f in r['functions'] if r['verdict'] == 'held'))
    trusted = sorted(set(t for u in us for t in u.get('trusted', [])))
    proved = [r for r in results if r.get('stage') == 'proved']
    bounded = [r for r in results if r.get('stage') == 'bounded']
    und = [r for r in results if r.get('stage') == 'undecided']
    level = manifest_level(pid)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'obligations': sum(r['obligations'] for r in results),
              'discharged': sum(r['discharged'] for r in proved) + sum(r.get('discharged', 0) for r in bounded),
              'checker_cmd': '; '.join(sorted(set('cbmc %s' % ' '.join(BASEFLAGS) for r in results))) +
              ' on goto-instrument --dfcc binaries of: ' + ', '.join(r['unit'] for r in results),
              'trusted_base': ['cbmc 6.11.0 / goto-cc / goto-instrument --dfcc', 'x86-64 Linux data model'] + trusted,
              'functions_under_contract': nfun,
              'units_proved_without_bound': [r['unit'] for r in proved],
              'units_bounded': {r['unit']: r.get('bound', '') for r in bounded},
              'units_undecided': [r['unit'] for r in und],
              'reachability_covers': sum(r['covers'] for r in results),
              'solver_s': round(sum(r['solver_s'] for r in results), 1),
              'backends': sorted(set(r.get('backend', '') for r in results if r.get('backend'))),
              'units': results,
              'explanation': 'Every obligation is generated by goto-instrument/cbmc from the current text of '
                             '/repo/src on this run; see DESIGN.md for what each unit states.'},
          'assumptions': trusted + sorted(set(a for u in us for a in u.get('assumptions', []))),
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    if os.environ.get('VP_REPO') is None:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in results:
        print('%-36s %-9s %s obligations=%d discharged=%d covers=%d %.1fs solver' % (
            r['unit'], r['verdict'], r.get('stage') or '-', r['obligations'], r['discharged'], r['covers'], r['solver_s']))
        for n in r['notes'][:10]:
            print('    ' + n[:400].replace('\n', '\n      '))
        if r['verdict'] == 'violated':
            for f in r.get('failed', [])[:8]:
                print('    FAILED ' + f)
    for l in known_findings(pid):
        print(l)
    if viol:
        for r in sorted(viol, key=lambda r: not r.get('confirmed')):
            tail = '' if r.get('confirmed') else ' no-failing-input-found'
            print('VIOLATION property=%s replay=%s%s' % (pid, r['replay'], tail))
            if r.get('confirmed'):
                break
        sys.exit(1)
    if errs:
        print('ERROR: undecided units: ' + ', '.join(r['unit'] for r in errs))
        sys.exit(2)
    print('OK property=%s: %d units, %d functions under contract' % (pid, len(results), len(nfun)))
    sys.exit(0)


def manifest_level(pid):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == pid:
                return c['level']
    except (OSError, ValueError, KeyError):
        pass
    return 'proof'


if __name__ == '__main__':
    main()
