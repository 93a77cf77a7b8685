#!/usr/bin/env python3
"""Driver: check.py PROPERTY [quick|thorough]

Compiles /repo's current sources and the property's harnesses to LLVM bitcode, has symx decide
every assertion for all values within the stated bounds, replays counterexamples (and a sample of
the explored paths) against a native build of the same sources, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not decide."""
import sys, os, re, json, subprocess, hashlib, time, shutil, tempfile, glob, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get('SYMX_REPO', '/repo')
BUILD = os.path.join(V, 'build')
BC = '-O1 -fno-pic -fno-pie -fno-builtin -fno-vectorize -fno-slp-vectorize -gline-tables-only -D__NO_CTYPE -U_FORTIFY_SOURCE -w'.split()
# code under test: library calls stay calls, but clearing loops may become memset
TBC = [x for x in BC if x != '-fno-builtin'] + ['-fno-builtin-' + f for f in 'printf fprintf sprintf snprintf vprintf vfprintf vsprintf vsnprintf puts fputs putchar fputc putc fwrite fread fgets getc fgetc pow exp exp2 exp10 log log10 log2 sqrt floor ceil fabs fmod ldexp strcmp strncmp strcpy strncpy strcat strncat strlen strnlen strchr strrchr strstr strspn strcspn strpbrk strtok strdup strndup stpcpy memcmp bcmp memchr memmove memccpy atoi atol atof strtol strtod isdigit isascii toascii toupper tolower isspace isalpha abs labs malloc calloc realloc free qsort bsearch exit abort fopen fclose round roundf lround rint cos sin tan atan erf fmin fmax strcasecmp strncasecmp'.split()]
NCPU = int(os.environ.get('SYMX_J', os.cpu_count() or 8))
T0 = time.time()

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class Broken(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def dirhash(d, pat=r'\.(c|cc|cpp|h|hpp|in)$'):
    h = hashlib.sha256()
    for root, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if re.search(pat, f):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def engine():
    srcs = sorted(glob.glob(V + '/engine/*'))
    key = sha(*[open(s, 'rb').read() for s in srcs])
    exe = BUILD + '/symx'; stamp = exe + '.key'
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(['bash', V + '/engine/build.sh', BUILD], capture_output=True, text=True)
        if r.returncode:
            raise Broken('engine build failed: ' + r.stderr[-2000:])
        open(stamp, 'w').write(key)
    return exe

def run_many(cmds):
    def one(c):
        r = subprocess.run(c, capture_output=True, text=True)
        return (r.returncode, c, r.stderr)
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, c, err in ex.map(one, cmds):
            if rc:
                raise Broken('compile failed: %s\n%s' % (' '.join(c), err[-3000:]))

def makevars(path, names):
    t = open(path).read().replace('\\\n', ' ')
    out = []
    for n in names:
        m = re.search(r'(?m)^%s\s*=\s*(.*)$' % n, t)
        if m:
            out += [w for w in m.group(1).split() if w.endswith('.c') or w.endswith('.cpp')]
    return out

# ---- targets: (list of (source, extra flags)), include dirs, language
def target(name):
    if name.startswith('sctk:'):
        main = name.split(':')[1]
        d = REPO + '/src/sclite'
        libs = makevars(d + '/makefile.in', ['glib_c', 'statlib_c', 'netlib_c', 'align_c'])
        if not libs:
            raise Broken('no sources found in makefile.in')
        return dict(dir=d, srcs=[(d + '/' + s, []) for s in libs] + [(d + '/' + main, ['-Dmain=tool_main'])], inc=[d], cxx=False, hashdirs=[d])
    import targets
    return targets.get(name, REPO, V)

LOCKS = {}; LL = threading.Lock()
def locked(*key):
    with LL:
        return LOCKS.setdefault(key, threading.Lock())

def build_target(name, native):
    with locked('t', name, native):
        return build_target_(name, native)

def build_target_(name, native):
    t = target(name)
    cc = (['g++'] if t['cxx'] else ['gcc']) if native else (['clang++-18'] if t['cxx'] else ['clang-18'])
    flags = (['-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer'] + t.get('nflags', [])) if native else (['-c', '-emit-llvm'] + TBC + t.get('bflags', []))
    inc = ['-I' + i for i in ((t.get('ninc') or t['inc']) if native else t['inc'])] + ['-I' + V + '/rt']
    key = sha(name, native, ' '.join(flags), ' '.join(inc), *([dirhash(d) for d in t['hashdirs']] + [dirhash(V + '/rt')] + [str(s) for s in t['srcs']]))
    out = '%s/%s/%s' % (BUILD, 'nat' if native else 'bc', key)
    if os.path.isdir(out):
        return t, out, key
    tmp = out + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    ext = '.o' if native else '.bc'
    cmds = []
    for s, fl in t['srcs'] + ([] if native else [(x, []) for x in t.get('bsrcs', [])]):
        o = tmp + '/' + re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, REPO)) + ext
        iscxx = s.endswith('.cpp')
        c = cc if iscxx == t['cxx'] else ((['gcc'] if native else ['clang-18']) if not iscxx else cc)
        f = [x for x in flags if iscxx or not x.startswith('-std=c++')]
        ii = [x for x in inc if iscxx or 'stubs' not in x]
        cmds.append(c + (['-c'] if native else []) + f + fl + ii + [s, '-o', o])
    if native:
        cmds.append(['gcc', '-c', '-O1', '-g', '-w', '-fsanitize=address', '-I' + V + '/rt', V + '/rt/replay.c', '-o', tmp + '/replay' + ext])
    else:
        cmds.append(['clang-18', '-c', '-emit-llvm'] + BC + ['-I' + V + '/rt', V + '/rt/rt.c', '-o', tmp + '/rt.bc'])
    try:
        run_many(cmds)
    except Broken:
        shutil.rmtree(tmp, ignore_errors=True); raise
    if not native:
        r = subprocess.run(['llvm-link-18', '-o', tmp + '/all.linked'] + glob.glob(tmp + '/*.bc'), capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True); raise Broken('llvm-link: ' + r.stderr[-2000:])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return t, out, key

def build_job(job, tier, native):
    with locked('j', job['name'], native):
        return build_job_(job, tier, native)

def prebuild(jobs, tier, pool):
    for native in (False, True):
        for t in sorted(set(j['target'] for j in jobs)):
            pool.submit(build_target, t, native)
        for j in jobs:
            if not native or not j.get('no_native_samples'):
                pool.submit(build_job, j, tier, native)

def build_job_(job, tier, native):
    t, d, key = build_target(job['target'], native)
    defs = dict(job.get('defs', {})); defs.update(job.get(tier, {}))
    df = ['-D%s=%s' % kv for kv in sorted(defs.items())]
    h = V + '/harness/' + job['harness']
    cxx = h.endswith('.cpp')
    hk = sha(key, open(h, 'rb').read(), dirhash(V + '/harness', r'\.h$'), ' '.join(df), native)
    outd = BUILD + '/h/' + hk
    os.makedirs(outd, exist_ok=True)
    inc = ['-I' + i for i in ((t.get('ninc') or t['inc']) if native else t['inc'])] + ['-I' + V + '/rt', '-I' + V + '/harness']
    if native:
        exe = outd + '/replay'
        if not os.path.exists(exe):
            cc = 'g++' if (cxx or t['cxx']) else 'gcc'
            hc = 'g++' if cxx else 'gcc'
            c1 = [hc, '-c', '-O1', '-g', '-w', '-fsanitize=address'] + (t.get('nflags', []) if cxx else []) + t.get('hflags', []) + df + inc + [h, '-o', outd + '/h.o']
            run_many([c1])
            run_many([[cc, '-fsanitize=address', '-Wl,--wrap=exit', outd + '/h.o'] + sorted(glob.glob(d + '/*.o')) + ['-lm', '-o', exe]])
        return exe
    bc = outd + '/p.bc'
    if not os.path.exists(bc):
        hc = 'clang++-18' if cxx else 'clang-18'
        run_many([[hc, '-c', '-emit-llvm'] + BC + (t.get('bflags', []) if cxx else []) + t.get('hflags', []) + df + inc + [h, '-o', outd + '/h.bc']])
        run_many([['llvm-link-18', '-o', bc + '.tmp', d + '/all.linked', outd + '/h.bc']])
        os.rename(bc + '.tmp', bc)
    return bc

def replay(exe, model, timeout=20):
    sd = tempfile.mkdtemp(prefix='symx-replay-')
    try:
        mf = sd + '/model.txt'
        with open(mf, 'w') as f:
            for k, v in model.items():
                f.write('%s %d\n' % (k, v))
        os.mkdir(sd + '/w')
        env = dict(os.environ, SYMX_MODEL=mf, ASAN_OPTIONS='exitcode=66:detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=1000000:detect_stack_use_after_return=0', LC_ALL='C')
        try:
            r = subprocess.run([exe], cwd=sd + '/w', env=env, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL)
            return r.returncode, r.stderr.decode('latin1')[-6000:]
        except subprocess.TimeoutExpired:
            return 'timeout', ''
    finally:
        shutil.rmtree(sd, ignore_errors=True)

def classify(rc, err):
    if rc == 0: return 'ok'
    if rc == 3: return 'assertion'
    if rc == 4: return 'assume'
    if rc == 66: return 'memory'
    if rc == 'timeout': return 'nontermination'
    if isinstance(rc, int) and rc < 0: return 'signal%d' % -rc
    return 'exit%s' % rc

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import props
    P = props.PROPS[pid]
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if isinstance(k, dict) and k['property'] == pid]
    os.makedirs(V + '/evidence', exist_ok=True)
    jobs = [j for j in P['jobs'] if not j.get('tiers') or tier in j['tiers']]
    only = os.environ.get('SYMX_ONLY')
    pool = ThreadPoolExecutor(4); fe = pool.submit(engine)
    prebuild([j for j in jobs if not only or only == j['name']], tier, pool)
    exe = fe.result()
    tot = {}; jobev = []; samples = []; validated = 0; kf = set(); viol = None; err = None
    for j in jobs:
        if only and only != j['name']: continue
        bc = build_job(j, tier, False)
        out = '%s/out-%s-%s-%d.json' % (BUILD, pid, j['name'], os.getpid())
        limit = j.get('time', {}).get(tier, 700 if tier == 'quick' else 10000)
        mv = 1 + (50 if known else 0)
        cmd = [exe, '-o', out, '-j', str(NCPU), '-t', str(limit), '-mv', str(mv)] + [str(x) for x in j.get('opts', [])] + [bc]
        for attempt in (0, 1):   # a worker ended from outside (memory pressure by other processes): once more
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                if attempt == 0 and r.returncode < 0: continue
                raise Broken('symx failed: %s %s' % (r.returncode, r.stderr[-2000:]))
            res = json.load(open(out)); os.unlink(out)
            if attempt or not any(e['event'] == 'error' and e['msg'] == 'worker died' for e in res['events']): break
        ev = res.pop('events'); fns = res.pop('functions')
        log('%s/%s: %s paths=%d instr=%d queries=%d z3=%d (%.1fs) wall=%.1fs %s' % (pid, j['name'], res['status'], res['paths'], res['instructions'], res['queries'], res['z3_calls'], res['solver_s'], res['wall_s'], res['incomplete_why']))
        if r.stderr.strip(): log('stderr:', r.stderr[-1000:])
        errs = [e for e in ev if e['event'] == 'error']
        vs = [e for e in ev if e['event'] == 'violation']
        for e in vs:
            tag = re.match(r'\[(KF-[A-Za-z0-9-]+)\]', e['msg'])
            if tag and any(k['id'] == tag.group(1) and k.get('status') == 'known' for k in known):
                kf.add(tag.group(1)); continue
            nat = build_job(j, tier, True)
            rc, se = replay(nat, e['model'], 30)
            cl = classify(rc, se)
            log('counterexample [%s] %s | %s | native: %s' % (e['kind'], e['msg'], e['stack'], cl))
            for n in e['notes']: log('   note:', n)
            if cl in ('ok', 'assume'):
                err = err or 'counterexample not reproduced natively (%s: %s at %s)' % (e['kind'], e['msg'], e['stack'])
                continue
            rd = V + '/replays'; os.makedirs(rd, exist_ok=True)
            rp = '%s/%s-%s.json' % (rd, pid, j['name'])
            json.dump(dict(property=pid, job=j['name'], tier=tier, kind=e['kind'], msg=e['msg'], stack=e['stack'], model=e['model'], notes=e['notes'], native=cl, native_stderr=se, how='python3 /verif/replay.py ' + rp), open(rp, 'w'), indent=1)
            viol = viol or rp
            break
        jobev.append(dict(job=j['name'], harness=j['harness'], target=j['target'], bounds=j.get('bounds', {}).get(tier, ''), functions_encoded=len(fns), result=res))
        for k in ('paths', 'completed', 'proved', 'instructions', 'queries', 'z3_calls', 'byte_domain', 'cache_hits', 'sat', 'unsat', 'unknown', 'forks', 'assertions'):
            tot[k] = tot.get(k, 0) + res[k]
        tot['solver_s'] = tot.get('solver_s', 0) + res['solver_s']
        tot.setdefault('functions', set()).update(fns)
        if viol: break
        if errs:
            err = err or 'engine error: %s at %s' % (errs[0]['msg'], errs[0]['stack'])
        if res['status'] == 'incomplete':
            err = err or 'exploration incomplete: ' + res['incomplete_why']
        if res['unknown']: err = err or 'solver returned unknown'
        missing = [l for l in j.get('reach', []) if l not in res['reach']]
        if missing and not vs: err = err or 'vacuity: labels never reached: %s' % missing
        if not res['completed'] and not vs: err = err or 'vacuity: no path completed'
        # validate a sample of explored paths against the native build
        sm = [e['model'] for e in ev if e['event'] == 'sample'][-6:]
        if sm and not j.get('no_native_samples'):
            nat = build_job(j, tier, True)
            with ThreadPoolExecutor(NCPU) as ex:
                rs = list(ex.map(lambda m: replay(nat, m, 60), sm))
            for m, (rc, se) in zip(sm, rs):
                cl = classify(rc, se)
                if cl == 'ok':
                    validated += 1
                else:
                    log('native run of an explored path disagrees: %s\n%s' % (cl, se[-1500:]))
                    if cl in ('assertion', 'memory') or cl.startswith('signal'):
                        tagm = re.search(r'\[(KF-[A-Za-z0-9-]+)\]', se)
                        if tagm and any(k['id'] == tagm.group(1) for k in known): continue
                        rd = V + '/replays'; os.makedirs(rd, exist_ok=True)
                        rp = '%s/%s-%s.json' % (rd, pid, j['name'])
                        json.dump(dict(property=pid, job=j['name'], tier=tier, kind=cl, msg='native disagreement', model=m, native=cl, native_stderr=se, how='python3 /verif/replay.py ' + rp), open(rp, 'w'), indent=1)
                        viol = viol or rp
                    else:
                        err = err or 'native/symbolic disagreement: ' + cl
            samples += [dict(job=j['name'], input=m) for m in sm[:2]]
        if viol: break
    repo_fn = sorted(f for f in tot.get('functions', ()) if not f.startswith(('__sym', '_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu')))
    evd = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
               coverage=dict(states=tot.get('forks', 0) + tot.get('paths', 0), transitions=tot.get('instructions', 0), traces_validated_against_impl=validated, samples=samples[:12],
                             paths_explored=tot.get('paths', 0), assertions_evaluated=tot.get('assertions', 0), assertions_discharged_by_query=tot.get('proved', 0),
                             queries=tot.get('queries', 0), z3_queries=tot.get('z3_calls', 0), byte_domain_queries=tot.get('byte_domain', 0), cache_hits=tot.get('cache_hits', 0), z3_sat=tot.get('sat', 0), z3_unsat=tot.get('unsat', 0), solver_s=round(tot.get('solver_s', 0), 3),
                             functions_encoded=repo_fn, jobs=jobev, exhaustive=not err and not viol and not only,
                             explanation='symbolic execution of LLVM bitcode compiled from the working tree; every path feasible within the bounds is explored and each assertion decided on it'),
               assumptions=P.get('assumptions', []) + COMMON, wall_s=round(time.time() - T0, 2), violations=1 if viol else 0)
    json.dump(evd, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k in sorted(kf):
        kk = [x for x in known if x['id'] == k][0]
        print('KNOWN-FINDING: property=%s %s' % (pid, kk['what']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, viol)); return 1
    if err:
        print('ERROR %s: %s' % (pid, err)); return 2
    print('OK %s (%s)' % (pid, tier)); return 0

COMMON = ['libc is modelled by /verif/rt/rt.c (virtual files, C locale, fixed clock, malloc never fails and fills with 0xA5)',
          'code compiled by clang-18 -O1 for x86-64 with WITH_SLM off', 'trusted: clang front end, /verif/engine, Z3 4.8.12']
if __name__ == '__main__':
    try:
        rc = main()
    except Broken as b:
        print('ERROR', b); rc = 2
    sys.stdout.flush(); os._exit(rc)
