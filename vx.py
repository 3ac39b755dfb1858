#!/usr/bin/env python3
"""vx.py - decide one property of libkqueue by symbolic execution of its sources.

  vx.py check <property> [--tier quick|thorough] [--keep]
  vx.py setup                      build the executor, check the tool chain
  vx.py run <harness.c> [-D...]    one ad-hoc query (development)

Everything is rebuilt from VX_REPO (default /repo) on every run, in a scratch
directory that is removed afterwards.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shlex, shutil
import subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
CLANG, LINK, OPT = 'clang-18', 'llvm-link-18', 'opt-18'
JOBS = int(os.environ.get('VX_JOBS', '8'))
SYMX = None
CF = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-std=gnu11', '-w', '-emit-llvm', '-c']


def sh(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    r = subprocess.run(cmd, **kw)
    r.text = r.stdout.decode(errors='replace') if r.stdout else ''
    return r


def die(msg):
    print('vx: ' + msg, flush=True)
    sys.exit(2)


def build_symx():
    """The executor, compiled from symx/ unless build/ has it for these sources."""
    srcs = sorted(glob.glob(HERE + '/symx/*'))
    key = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()[:16]
    os.makedirs(HERE + '/build', exist_ok=True)
    exe = HERE + '/build/symx-' + key
    if os.path.exists(exe):
        return exe
    with open(HERE + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        inc = ['-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS']
        d = tempfile.mkdtemp(prefix='vxb', dir=HERE + '/build')
        try:
            ps = [(n, subprocess.Popen(['g++', '-O2', '-std=c++17', '-w'] + inc + ['-c', '%s/symx/%s.cpp' % (HERE, n),
                   '-o', '%s/%s.o' % (d, n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for n in ('expr', 'symx')]
            for n, p in ps:
                o = p.communicate()[0]
                if p.returncode:
                    die('cannot build symx: ' + o.decode()[:2000])
            r = sh(['g++', d + '/expr.o', d + '/symx.o', '-o', d + '/symx', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
            if r.returncode:
                die('cannot link symx: ' + r.text[:2000])
            os.rename(d + '/symx', exe)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return exe


class Lib:
    """The library's current sources: bitcode, and objects for a replay."""
    def __init__(self, work):
        self.w = work
        self.defs = []
        cm = work + '/cm'
        env = dict(os.environ, CC='gcc', LC_ALL='C.UTF-8')
        self.srcs = []          # (path, flags)
        r = sh(['cmake', '-S', REPO, '-B', cm, '-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_BUILD_TYPE=Debug',
                '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], env=env)
        self.config = 'cmake'
        try:
            for c in json.load(open(cm + '/compile_commands.json')):
                f = os.path.normpath(os.path.join(c['directory'], c['file']))
                if not f.startswith(os.path.normpath(REPO) + '/src/'):
                    continue
                a = c.get('arguments') or shlex.split(c['command'])
                fl = [x for x in a if re.match(r'-[ID].|-std=', x)]
                fl = [os.path.normpath(os.path.join(c['directory'], x[2:])).join(['-I', '']) if x.startswith('-I') else x for x in fl]
                if f not in [s for s, _ in self.srcs]:
                    self.srcs.append((f, fl))
        except (OSError, ValueError, KeyError):
            pass
        if not self.srcs:
            self.config = 'built-in configuration (cmake failed)'
            names = ['common/' + n for n in 'debug filter kevent knote kqueue libkqueue map'.split()] + \
                    ['linux/' + n for n in 'platform read signal timer user vnode write proc'.split()]
            fl = ['-D_XOPEN_SOURCE=600', '-I' + HERE + '/model/cfg', '-I' + REPO + '/include', '-I' + REPO + '/src/common']
            self.srcs = [('%s/src/%s.c' % (REPO, n), fl) for n in names]
        objs, ps = [], []
        for i, (f, fl) in enumerate(self.srcs):
            o = '%s/l%d.bc' % (work, i)
            ps.append((f, subprocess.Popen([CLANG] + CF + fl + [f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            objs.append(o)
        ko = work + '/kmodel.bc'
        ps.append(('kmodel.c', subprocess.Popen([CLANG] + CF + ['-fno-builtin', '-I' + HERE + '/model', HERE + '/model/kmodel.c', '-o', ko],
                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, p in ps:
            o = p.communicate()[0]
            if p.returncode:
                die('cannot compile %s: %s' % (f, o.decode()[:1500]))
        self.inc = [x for _, fl in self.srcs[:1] for x in fl if x.startswith('-I')]
        r = sh([LINK] + objs + [ko, '-o', work + '/lib.bc'])
        if r.returncode:
            die('cannot link the library: ' + r.text[:1500])
        self.native = {}

    def harness(self, q, out):
        h = out + '.h.bc'
        r = sh([CLANG] + CF + ['-fno-builtin', '-I' + HERE + '/model', '-I' + HERE + '/harness', '-D_GNU_SOURCE'] + self.inc + q['d'] +
               [HERE + '/harness/' + q['h'], '-o', h])
        if r.returncode:
            return 'harness does not compile: ' + r.text[:800]
        r = sh([LINK, self.w + '/lib.bc', h, '-o', out + '.l.bc'])
        if r.returncode:
            return 'harness does not link: ' + r.text[:800]
        r = sh([OPT, '-passes=mem2reg', out + '.l.bc', '-o', out + '.bc'])
        return 'opt: ' + r.text[:500] if r.returncode else None

    def native_objs(self, tsan=False):
        """Objects of the unmodified sources whose calls to f go to the model's mk_f."""
        if tsan in self.native:
            return self.native[tsan]
        w = self.w + ('/t' if tsan else '/n')
        NF = ['-g', '-O0', '-w', '-fPIC'] if tsan else ['-g', '-O0', '-w', '-fPIC', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment']
        LF = NF + ['-fsanitize=thread'] if tsan else NF       # the model and the harness stay invisible to the thread sanitizer
        ko = w + 'kmodel.o'
        sh(['gcc', '-std=gnu11', '-fno-builtin', '-DNATIVE'] + (['-DTSAN'] if tsan else []) + [ '-I' + HERE + '/model'] + NF + [HERE + '/model/kmodel.c', '-c', '-o', ko])
        syms = sh(['nm', '--defined-only', ko]).text
        mk = sorted(set(re.findall(r' [TW] mk_(\w+)$', syms, re.M)))
        open(w + 'redef', 'w').write(''.join('%s mk_%s\n' % (f, f) for f in mk))
        objs, ps = [], []
        for i, (f, fl) in enumerate(self.srcs):
            o = '%s%d.o' % (w, i)
            ps.append((f, o, subprocess.Popen(['gcc', '-std=gnu11'] + LF + fl + [f, '-c', '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            objs.append(o)
        ok = True
        for f, o, p in ps:
            p.communicate()
            if p.returncode:
                ok = False
                continue
            sh(['objcopy', '--redefine-syms=' + w + 'redef', o])
        self.native[tsan] = (objs + [ko], NF, ok)
        return self.native[tsan]

    def replay(self, q, v, dst):
        """Run the counterexample against the real code. -> (verdict, text)"""
        tsan = v['kind'] == 'race'
        objs, NF, ok = self.native_objs(tsan)
        exe = os.path.join(dst, 'replay')
        r = sh(['gcc', '-std=gnu11', '-DNATIVE', '-D_GNU_SOURCE', '-I' + HERE + '/model', '-I' + HERE + '/harness'] + self.inc + NF + q['d'] +
               [HERE + '/harness/' + q['h'], '-c', '-o', exe + '.o'])
        if not r.returncode:
            r = sh(['gcc'] + (['-fsanitize=thread'] if tsan else NF) + [exe + '.o'] + objs + ['-o', exe, '-lpthread'])
        if r.returncode:
            return 'not built', r.text[:2000]
        open(dst + '/values', 'w').write('\n'.join(str(x) for x in v['nd']) + '\n')
        env = dict(os.environ, TSAN_OPTIONS='exitcode=66', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1:exitcode=97:halt_on_error=1')
        try:
            r = sh([exe, dst + '/values'], env=env, timeout=20)
        except subprocess.TimeoutExpired:
            return ('reproduced (does not end)' if v['kind'] == 'termination' else 'timeout'), ''
        rc = r.returncode
        if tsan:
            for k in range(6):
                if 'WARNING: ThreadSanitizer: data race' in r.text: return 'reproduced (TSan)', r.text
                r = sh([exe, dst + '/values'], env=env, timeout=20)
            return 'race not observed (exit %d)' % rc, r.text
        if rc == 99: return 'reproduced', r.text
        if rc in (97, 98) or rc < 0: return 'reproduced (%s)' % {97: 'UBSan', 98: 'ASan'}.get(rc, 'signal %d' % -rc), r.text
        if rc == 77: return 'assumption not met', r.text
        return 'not reproduced (exit %d)' % rc, r.text


def run_query(lib, q, tlim):
    out = '%s/q_%s' % (lib.w, q['name'])
    t0 = time.time()
    err = lib.harness(q, out)
    if err:
        return dict(q=q, error=err, res=None, wall=time.time() - t0)
    t = q.get('time', tlim)
    cmd = [SYMX, out + '.bc', '--out', out + '.json', '--time', str(t), '--maxviol', '6'] + [x.replace('@SRC', os.path.normpath(REPO) + '/src/') for x in q.get('opts', [])]
    try:
        r = sh(cmd, timeout=t * 2 + 30)
        txt = r.text
    except subprocess.TimeoutExpired:
        txt = 'symx did not stop'
        json.dump(dict(complete=False, why='time limit', paths=0, instructions=0, assertions=0, queries=0, solver_s=0.0, wall_s=time.time() - t0,
                       covers={}, functions=[], violations=[], infeasible_branches=0, unknown=1), open(out + '.json', 'w'))
    try:
        res = json.load(open(out + '.json'))
    except (OSError, ValueError):
        return dict(q=q, error='no result: ' + txt[-600:], res=None, wall=time.time() - t0)
    return dict(q=q, error=None, res=res, wall=time.time() - t0, txt=txt)


def load_findings():
    """known-findings.txt: 'open: property=X query=NAME msg=/regex/ text' and 'fixed: ...' lines."""
    out = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) query=(\S+) msg=/(.*?)/ (.*)', l.strip())
            if m:
                out.append(dict(prop=m[1], query=m[2], msg=re.compile(m[3]), text=m[4]))
    return out


def check(prop, tier, keep=False):
    global SYMX
    sys.path.insert(0, HERE)
    import queries
    if prop not in queries.Q:
        die('no such property: ' + prop)
    t0 = time.time()
    qs = [q for q in queries.Q[prop] if tier == 'thorough' or q.get('tier', 'quick') == 'quick']
    if tier == 'thorough':      # a thorough variant of the same name replaces the quick one
        names = {q['name'] for q in qs if q.get('tier') == 'thorough'}
        qs = [q for q in qs if q.get('tier') == 'thorough' or q['name'] not in names]
    tlim = 1800 if tier == 'thorough' else 200
    work = tempfile.mkdtemp(prefix='vx-%s-' % prop)
    outdir = '%s/out/%s' % (HERE, prop)
    shutil.rmtree(outdir, ignore_errors=True)
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            fs = ex.submit(build_symx)
            fl = ex.submit(Lib, work)
            try:
                SYMX = fs.result()
                lib = fl.result()
            except SystemExit:
                sys.exit(2)
        qs.sort(key=lambda q: -q.get('w', 1))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda q: run_query(lib, q, tlim), qs))
        known = load_findings()
        nviol, fails, notes = 0, [], []
        for r in rs:
            q = r['q']
            if r['error']:
                fails.append('%s: %s' % (q['name'], r['error']))
                continue
            d = r['res']
            for v in d['violations']:
                k = [f for f in known if f['prop'] == prop and f['query'] == q['name'] and f['msg'].search(v['msg'] + ' @ ' + v.get('stack', ''))]
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['text']), flush=True)
                    continue
                dst = '%s/%s-%d' % (outdir, q['name'], nviol)
                os.makedirs(dst, exist_ok=True)
                verdict, txt = lib.replay(q, v, dst)
                rep = dict(property=prop, query=q['name'], harness=q['h'], defines=q['d'], violation=v, replay=verdict, replay_output=txt[:6000])
                json.dump(rep, open(dst + '/report.json', 'w'), indent=1)
                r.setdefault('replays', []).append(verdict)
                if not verdict.startswith('reproduced') and not v.get('uninit') and v['kind'] not in ('overflow', 'termination'):
                    # the interpreter and the compiled code disagree: not a violation of the code
                    print('vx: %s: counterexample not confirmed by the compiled code (%s): %s @ %s' % (q['name'], verdict, v['msg'], v.get('where')), flush=True)
                    fails.append('%s: unconfirmed counterexample: %s' % (q['name'], v['msg']))
                    continue
                nviol += 1
                print('VIOLATION property=%s replay=%s' % (prop, dst), flush=True)
                print('  query %s: %s: %s\n  at %s\n  %s\n  replay: %s' % (q['name'], v['kind'], v['msg'], v.get('where'), v.get('stack', '')[:300], verdict), flush=True)
            if not d['complete']:
                notes.append('%s: not completed (%s)' % (q['name'], d.get('why')))
            elif not d['violations']:
                for c in q.get('covers', []):
                    if not d['covers'].get(c):
                        fails.append('%s: vacuous, never reaches "%s"' % (q['name'], c))
        un = [r for r in rs if r['res'] and str(r['res'].get('why', '')).startswith('unsupported')]
        if un and len(un) == len(rs) and not any(r['res']['covers'].get(c) for r in rs for c in r['q'].get('covers', [])):
            fails.append('nothing was decided: ' + un[0]['res']['why'])
        evidence(prop, tier, qs, rs, nviol, notes, fails, time.time() - t0, lib)
        for n in notes:
            print('vx: ' + n, flush=True)
        for r in rs:
            if r['res']:
                d = r['res']
                print('  %-22s %s paths=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs' % (r['q']['name'], 'complete' if d['complete'] else 'INCOMPLETE',
                      d['paths'], d['assertions'], d['queries'], d['solver_s'], r['wall']), flush=True)
        if nviol:
            return 1
        if fails:
            for f in fails:
                print('vx: ' + f, flush=True)
            return 2
        print('%s: held on everything explored (%d queries, %.1f s)' % (prop, len(qs), time.time() - t0))
        return 0
    finally:
        if keep:
            print('kept ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def evidence(prop, tier, qs, rs, nviol, notes, fails, wall, lib):
    import queries
    ok = [r for r in rs if r['res']]
    S = lambda k: sum(r['res'][k] for r in ok)
    fn = sorted({'%s (%s)' % (f, os.path.basename(p)) for r in ok for f, p in r['res']['functions']
                 if p and '/src/' in p})
    cov = dict(
        explanation='Symbolic execution of the library\'s bitcode against the operating-system model; every assertion is decided by the SMT solver '
                    '(or by the constant/bit-level pre-pass) for all values of the symbolic inputs on each path, and every feasible path within the bounds is taken.',
        functions_encoded=fn, functions_encoded_count=len(fn),
        configuration=lib.config, sources=[os.path.relpath(s, REPO) for s, _ in lib.srcs],
        bounds=[dict(query=r['q']['name'], harness=r['q']['h'], defines=r['q']['d'], bound=r['q'].get('bound', '')) for r in rs],
        paths=S('paths'), instructions=S('instructions'), forks=S('forks'), merged_branches=S('merged_branches'),
        infeasible_branches=S('infeasible_branches'), assertions=S('assertions'), assertions_with_symbolic_operands=S('assertions_symbolic'),
        solver_queries=S('queries'), decided_by_bit_prepass=S('bit_decided'), query_cache_hits=S('cache_hits'), solver_unknown=S('unknown'), solver_s=round(S('solver_s'), 2),
        symbolic_variables=S('vars'),
        queries_run=[dict(query=r['q']['name'], complete=r['res']['complete'], why=r['res'].get('why', ''), paths=r['res']['paths'], assertions=r['res']['assertions'],
                          solver_queries=r['res']['queries'], solver_s=round(r['res']['solver_s'], 2), wall_s=round(r['wall'], 2), covers=r['res']['covers'],
                          violations=len(r['res']['violations']), replays=r.get('replays', [])) for r in ok],
        exhaustive=all(r['res']['complete'] for r in ok) and len(ok) == len(rs),
        incomplete=notes, errors=fails)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=queries.ASSUMPTIONS + queries.NOTES.get(prop, []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)


def adhoc(argv):
    """vx.py run harness.c [-D..] [--opts]: development helper"""
    global SYMX
    SYMX = build_symx()
    work = tempfile.mkdtemp(prefix='vx-run-')
    try:
        lib = Lib(work)
        q = dict(name='x', h=os.path.basename(argv[0]), d=[a for a in argv[1:] if a.startswith('-D')], opts=[a for a in argv[1:] if not a.startswith('-D')])
        r = run_query(lib, q, int(os.environ.get('T', '120')))
        if r['error']:
            print(r['error']); return 2
        d = r['res']
        print('complete' if d['complete'] else 'INCOMPLETE ' + str(d['why']), {k: d[k] for k in ('paths', 'instructions', 'assertions', 'queries', 'solver_s', 'wall_s')}, d['covers'])
        for v in d['violations']:
            dst = work + '/r'; os.makedirs(dst, exist_ok=True)
            verdict, txt = lib.replay(q, v, dst)
            print('VIOL', v['kind'], v['msg'], '@', v['where'], v['stack'][:400], 'uninit=%s' % v['uninit'], '->', verdict)
            if os.environ.get('V'): print(v['nd'], txt[:3000])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        exe = build_symx()
        print('built', exe)
        return 0
    if a[:1] == ['run']:
        return adhoc(a[1:])
    if a[:1] == ['check']:
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return check(a[1], tier, '--keep' in a)
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
