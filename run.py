#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]
Decides one property: compiles its contract translation units against /repo's current headers to LLVM IR, lets
engine/lcv discharge every obligation on every path, replays counterexamples natively, writes evidence/<id>.json.
Exit 0: every obligation discharged (or, for functions out of reach, the labelled bounded stand-in passed).
Exit 1: VIOLATION.  Exit 2: the check itself could not run."""
import concurrent.futures as cf, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
GXX = 'g++'
BASE = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'contracts'), '-DBOOST_EXCEPTION_DISABLE', '-w']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-discard-value-names', '-c', '-emit-llvm']
JOBS = int(os.environ.get('VP_JOBS', str(os.cpu_count() or 8)))

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout after %s s' % timeout

def build_engine():
    src = os.path.join(HERE, 'engine', 'lcv.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'lcv-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        rc, o = sh([CLANG, '-O2', '-std=c++17', '-fexceptions', '-w', '-I/usr/lib/llvm-18/include', src, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-o', tmp])
        if rc: print(o); print('ERROR: the verifier does not build'); sys.exit(2)
        os.rename(tmp, out)
    return out

STRICT = []
def tu_flags(tu): return ['-std=' + tu.std] + ['-D' + d for d in tu.defs] + STRICT + list(tu.flags)
def src_of(tu): return os.path.join(HERE, 'contracts', tu.file)

def native(tu, out, san=False, cxx=None):
    cxx = cxx or CLANG
    fl = ['-O0', '-g1', '-rdynamic'] + (['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined'] if san else [])
    std = [f for f in tu_flags(tu)]
    obj = out + '.o'; rt = out + '.rt.o'
    rc, o = sh([cxx] + std + fl + BASE + ['-c', src_of(tu), '-o', obj], timeout=600)
    if rc: return rc, o
    rc, o = sh([cxx, '-std=c++17'] + fl + ['-w', '-c', os.path.join(HERE, 'runtime', 'vp_rt.cpp'), '-o', rt], timeout=300)
    if rc: return rc, o
    return sh([cxx] + fl + [obj, rt, '-ldl', '-o', out], timeout=300)

def canon_img(s):
    """shape of a state image: discriminator, live objects, heap structure (scalar bytes outside live objects are stale)"""
    cls, body = s.split('|', 1)
    return cls, body

def main():
    ap = sys.argv[1:]
    if ap[0] == '--setup': print('built ' + build_engine()); return 0
    pid = ap[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in ap: tier = ap[ap.index('--tier') + 1]
    only = ap[ap.index('--only') + 1] if '--only' in ap else None
    verbose = '-v' in ap
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time(); deadline = t0 + (float(os.environ.get('VP_BUDGET', '600')) if tier == 'quick' else 6 * 3600)
    engine = build_engine()
    if pid in checks.STRICT: STRICT.append('-DVP_STRICT')
    prop = checks.PROPS[pid]
    tus = [t for t in prop if tier == 'thorough' or t.tier == 'quick']
    work = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=BUILD)
    try:
        return go(pid, tier, seed, tus, engine, work, t0, deadline, only, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def go(pid, tier, seed, tus, engine, work, t0, deadline, only, verbose):
    rdir = os.path.join(BUILD, 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    notes = []; viol = []     # viol: (kind, entry, text, replay, confirmed)
    known = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if l.strip() and not l.startswith('#')] if os.path.exists(os.path.join(HERE, 'known_findings.txt')) else []
    known = [k for k in known if k.startswith('finding: property=%s ' % pid)]
    # 1. the verified text: IR of the real headers, regenerated now
    rc, o = sanity(work)
    if rc:
        print(o[-3000:]); print('ERROR: <boost/variant.hpp> itself does not compile'); return 2
    def comp(i):
        bc = os.path.join(work, 'tu%d.bc' % i)
        rc, o = sh([CLANG] + tu_flags(tus[i]) + BASE + IRFLAGS + [src_of(tus[i]), '-o', bc], timeout=600)
        return i, bc, rc, o
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for i, bc, rc, o in ex.map(comp, range(len(tus))):
            if rc:
                # does the same text fail with the other compiler too?
                rc2, o2 = sh([GXX] + tu_flags(tus[i]) + BASE + ['-fsyntax-only', src_of(tus[i])], timeout=600)
                rp = os.path.join(rdir, 'compile_%d.txt' % i)
                open(rp, 'w').write('obligation: wellformed - the operations named by the property are available with their documented signatures\nTU %s flags %s\n\n--- clang\n%s\n--- g++ (exit %d)\n%s\n' % (tus[i].file, tu_flags(tus[i]), o[-20000:], rc2, o2[-20000:]))
                viol.append(('wellformed', tus[i].name, 'contract no longer compiles: ' + first_error(o), rp, rc2 != 0))
                continue
            L = [e for e in sh([engine, bc, '--list'])[1].split() if e.startswith('vc_')]
            if not L: notes.append('no entries in ' + tus[i].name)
            for e in L:
                if only is None or re.search(only, e): jobs.append((i, bc, e))
    # 2. discharge
    maxsec = 150 if tier == 'quick' else 3000
    dump = os.path.join(work, 'smt'); os.makedirs(dump)
    def disc(j):
        i, bc, e = j
        out = os.path.join(work, '%d_%s.json' % (i, e))
        left = deadline - time.time()
        if left < 5: return j, None, 'check budget used up'
        rc, o = sh([engine, bc, '--entry', e, '--out', out, '--max-sec', str(min(maxsec, left)), '--repo', os.path.join(REPO, '')] + (['--dump', dump] if tier == 'thorough' or '--second-solver' in sys.argv else []), timeout=min(maxsec, left) * 2 + 60)
        try: d = json.load(open(out))
        except Exception as x: return j, None, 'verifier failed (%d) %s' % (rc, o[-300:])
        return j, d, ''
    res = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for j, d, why in ex.map(disc, jobs): res.append((j, d, why))
    ob_total = ob_done = inst = paths = insts = smtq = 0; smts = 0.0
    funcs = set(); covers = {}; kinds = {}; gen = {}; post = {}; samples = []; undecided = []; blocked = 0; cuse = {}
    failing = []
    for (i, bc, e), d, why in res:
        if d is None: undecided.append((i, e, why)); continue
        fk = set()
        for f in d['failures']: fk.add(f['kind'])
        n = len(d['obligations'])
        ob_total += n
        ok = d['status'] == 'ok' and d['complete']
        if ok and not d['fail_count']: ob_done += n
        elif ok: ob_done += max(0, n - len(fk))
        inst += sum(d['obligations'].values()); paths += d['paths']; insts += d['insts']; smtq += d['smt_queries']; smts += d['smt_s']; blocked += d['gen_blocked']
        funcs |= set(d['functions'])
        for k, v in d['covers'].items(): covers.setdefault(e + '@' + tus[i].name, {})[k] = v
        for k, v in d['obligations'].items(): kinds[k] = kinds.get(k, 0) + v
        for c in d.get('contracts_used', []): cuse[c] = cuse.get(c, 0) + 1
        for g in d['gen_images']: gen.setdefault(g.split('|')[0], set()).add(g)
        for g in d['post_images']: post.setdefault(g.split('|')[0], set()).add(g)
        if d['fail_count']: failing.append((i, e, d))
        elif not ok: undecided.append((i, e, d['status'] + ': ' + d['why']))
        if verbose: print('%-50s %-10s %s paths=%d fail=%d ob=%d t=%.1f gb=%d %s' % (e + '@' + tus[i].name, d['status'], d['complete'], d['paths'], d['fail_count'], n, d['wall_s'], d['gen_blocked'], d['why'][:200]))
    # 3. counterexamples
    nat = {}
    def get_native(i, san, cxx=None):
        k = (i, san, cxx)
        if k not in nat:
            out = os.path.join(work, 'nat_%d_%d_%s' % (i, san, (cxx or 'c').replace('+', 'x')))
            rc, o = native(tus[i], out, san, cxx)
            nat[k] = out if rc == 0 else None
        return nat[k]
    for n, (i, e, d) in enumerate(failing):
        seen = set(); done = False; best = None
        for f in d['failures']:
            if len(seen) >= 6 or (n > 12 and seen): break
            if (f['kind'], f['msg']) in seen: continue
            seen.add((f['kind'], f['msg']))
            rp = os.path.join(rdir, '%s_%d_%d.txt' % (e, i, len(seen)))
            with open(rp, 'w') as h:
                for c in f['choices']: h.write('c %d\n' % (c if not isinstance(c, list) else c[0]))
                for s in f['syms']: h.write('s %d\n' % (int(s) & (2**64 - 1)))
                for u in f['ufs']: h.write('u ' + ' '.join(str(int(x) & (2**64 - 1)) for x in u) + '\n')
            conf = None
            if n <= 12:
                for san in (False, True):
                    b = get_native(i, san)
                    if not b: continue
                    rc, o = sh([b, e, rp], timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=17', UBSAN_OPTIONS='exitcode=17', VP_TIMEOUT='60'))
                    if rc == 17 or rc < 0: conf = o; break
            info = rp.replace('.txt', '.info.txt')
            with open(info, 'w') as h:
                h.write('property %s\nfailed obligation: %s: %s\nentry: %s in contracts/%s flags %s\nreplay input: %s\n' % (pid, f['kind'], f['msg'], e, tus[i].file, tu_flags(tus[i]), rp))
                h.write('replay: %s %s -O0 -g1 -rdynamic %s %s %s -ldl -o /tmp/replay && /tmp/replay %s %s\n' % (CLANG, ' '.join(tu_flags(tus[i])), ' '.join(BASE), src_of(tus[i]), os.path.join(HERE, 'runtime/vp_rt.cpp'), e, rp))
                h.write('native replay: %s\n' % ('CONFIRMED\n' + conf if conf else 'not reproduced'))
                h.write('choices:\n' + '\n'.join('  %s' % x for x in f['labels']) + '\ntrace:\n' + '\n'.join('  ' + x for x in f['trace']) + '\nsmt: %s\n' % str(f.get('smt', ''))[:20000])
            item = (f['kind'], e, f['msg'], info, conf is not None)
            if best is None or (conf and not best[4]): best = item
            if conf: break
        if best: viol.append(best)
    # 4. functions out of the verifier's reach: bounded stand-in
    bounded = []
    for i, e, why in undecided:
        b = get_native(i, False)
        if not b: notes.append('%s: undecided and no native build' % e); bounded.append(dict(entry=e, why=why, result='no native build')); continue
        left = max(10, min(60 if tier == 'quick' else 600, deadline + 60 - time.time()))
        for salt in (0, 1, 1000 + seed):
            rc, o = sh([b, e, '--explore', str(salt)], timeout=left * 2 + 20, env=dict(os.environ, VP_TIMEOUT='100000', VP_MAX_PATHS=str(200000 if tier == 'quick' else 5000000)))
            if rc == 17:
                info = os.path.join(rdir, '%s_explore.txt' % e); open(info, 'w').write('entry %s (bounded stand-in: %s)\nreplay: %s --explore %d\n%s' % (e, why, e, salt, o))
                viol.append(('bounded', e, o.split('\n')[0], info, True)); break
        bounded.append(dict(entry=e, tu=tus[i].name, why=why[:300], result=o.strip()[-200:]))
        notes.append('BOUNDED %s: %s -> %s' % (e, why[:160], o.strip()[-80:]))
    # 5. cross-validation of the verifier against the compiled code (thorough): every choice vector, natively
    cross = dict(entries=0, paths=0)
    if tier == 'thorough':
        def xv(j):
            i, bc, e = j; tot = 0
            for cxx in (None, GXX):
                b = nat.get((i, False, cxx))
                if not b: continue
                for salt in (0, 1, 1000 + seed):
                    rc, o = sh([b, e, '--explore', str(salt)], timeout=900, env=dict(os.environ, VP_TIMEOUT='800', VP_MAX_PATHS='3000000'))
                    m = re.search(r'paths=(\d+)', o)
                    if m: tot += int(m.group(1))
                    if rc == 17: return j, tot, o
            return j, tot, None
        with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda k: get_native(*k), [(i, False, c) for i in range(len(tus)) for c in (None, GXX)]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (i, bc, e), tot, o in ex.map(xv, jobs):
                cross['entries'] += 1; cross['paths'] += tot
                if o and not any(v[1] == e for v in viol):
                    info = os.path.join(rdir, '%s_xv.txt' % e); open(info, 'w').write('entry %s (native exploration)\n%s' % (e, o)); viol.append(('native', e, o.split('\n')[0], info, True))
    # 6. a second solver re-decides what Z3 answered (thorough)
    second = dict(solver='cvc5', queries=0, agree=0, unknown=0, disagree=0); Q = [os.path.join(dump, f) for f in sorted(os.listdir(dump))]
    def cvc(f): return f, sh(['cvc5', '--tlimit=20000', f], timeout=60)[1].strip().split('\n')[0]
    if Q and shutil.which('cvc5'):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f, a in ex.map(cvc, Q):
                second['queries'] += 1; k = 'agree' if a == 'unsat' else 'disagree' if a == 'sat' else 'unknown'; second[k] += 1
                if k == 'disagree': notes.append('SOLVERS DISAGREE on ' + os.path.basename(f)); shutil.copy(f, rdir)
                elif k == 'unknown' and second['unknown'] < 4: notes.append('second solver: ' + a[:100])
    # vacuity
    exp = {}
    ef = os.path.join(HERE, 'contracts', 'covers.json')
    if os.path.exists(ef): exp = json.load(open(ef)).get(pid, {})
    vac = []
    for k, v in exp.items():
        if only or not any(t.name == k.split('@')[1] for t in tus): continue
        for c in v:
            if not covers.get(k, {}).get(c): vac.append(k + ': ' + c)
    if '--record-covers' in sys.argv:
        all_ = json.load(open(ef)) if os.path.exists(ef) else {}
        all_[pid] = {k: sorted(v) for k, v in sorted(covers.items())}
        json.dump(all_, open(ef, 'w'), indent=0, sort_keys=True)
    for x in vac: notes.append('VACUITY not reached any more: ' + x)
    # history closure: every state an operation leaves is (up to values and stale bytes) a state the contracts start from
    clo = closure(gen, post)
    # report
    viol = [v for v in viol if not any(v[1] in k and v[0] in k for k in known)] if known else viol
    for k in known: print('KNOWN-FINDING: ' + k[len('finding: '):])
    for x in notes: print('NOTE ' + x)
    wall = time.time() - t0
    repo_funcs = sorted(f for f in funcs if f.startswith('include/'))
    src_funcs = {}   # by definition in the headers: number of instantiations verified
    for f in repo_funcs:
        k = ' '.join(re.sub(r'<.*', '', f, flags=re.S).split()[:3] if 'operator' in f else re.sub(r'<.*', '', f, flags=re.S).split()[:2]); src_funcs[k] = src_funcs.get(k, 0) + 1
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(wall, 2), violations=len(viol), assumptions=checks.ASSUMPTIONS + checks.EXTRA_ASSUMPTIONS.get(pid, []),
        coverage=dict(obligations=ob_total, discharged=ob_done, checker_cmd='%s <IR of contracts/{%s}> --entry <each of %d contracts>' % (os.path.basename(engine), ','.join(sorted(set(t.file for t in tus))), len(jobs)),
            trusted_base=checks.TRUSTED, contracts=len(jobs), translation_units=[t.name for t in tus], obligation_instances=inst, obligation_kinds=kinds, paths=paths, ir_instructions_interpreted=insts,
            smt_queries=smtq, smt_seconds=round(smts, 2), back_end='lcv path-complete VC generation over LLVM IR; ground obligations decided by evaluation, symbolic ones by Z3 (bit-vectors, uninterpreted functions)',
            functions_under_contract=len(src_funcs), function_instantiations=len(repo_funcs), functions=src_funcs, callee_contracts_used=cuse, pre_states_blocked=blocked,
            undecided_bounded=bounded, vacuity_failures=vac, history_closure=clo, native_cross_validation=cross, second_solver=second, covers={k: v for k, v in list(covers.items())[:40]}))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s tier=%s contracts=%d obligations=%d discharged=%d instances=%d paths=%d smt=%d (%.1fs) functions=%d bounded=%d wall=%.1fs' % (pid, tier, len(jobs), ob_total, ob_done, inst, paths, smtq, smts, len(src_funcs), len(bounded), wall))
    if viol:
        viol.sort(key=lambda v: not v[4])
        for v in viol[:20]: print('FAILED obligation %s in %s: %s [%s]' % (v[0], v[1], v[2], 'confirmed natively' if v[4] else 'not replayed'))
        v = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, v[3], '' if v[4] else ' no-failing-input-found'))
        return 1
    return 0

def first_error(o):
    m = re.search(r'error: (.*)', o); return m.group(1)[:200] if m else o[:200]
def sanity(work):
    f = os.path.join(work, 'sanity.cpp'); open(f, 'w').write('#include <boost/variant.hpp>\nint main() { boost::variant<int, char> v(1); return v.which(); }\n')
    rc, o = sh([CLANG, '-std=c++17'] + BASE + ['-fsyntax-only', f], timeout=300)
    if rc: return sh([GXX, '-std=c++17'] + BASE + ['-fsyntax-only', f], timeout=300)
    return rc, o
def shape(img):
    """live objects, discriminator-like and pointer structure of an image; returns (frozenset(objs), {off: val})"""
    body = img.split('|', 1)[1]; toks = []; d = 0; cur = ''
    for ch in body:
        cur += ch
        if ch == '[': d += 1
        elif ch == ']': d -= 1
        elif ch == ';' and d == 0: toks.append(cur[:-1]); cur = ''
    objs = frozenset(t for t in toks if t.startswith('obj@')); by = {}
    for t in toks:
        if not t.startswith('obj@'): k, v = t.split(':', 1); by[k] = v
    return objs, by
def strip(v): return re.sub(r'(?<=[\[;])\d+:[^;\[\]]*;', '', v) if v.startswith('heap') else v
def matches(g, p):
    if g[0] != p[0]: return False
    for k, v in g[1].items():
        w = p[1].get(k)
        if v.startswith('heap'):
            if w is None or strip(v) != strip(w): return False
        elif v == '*': continue
        elif v != w and int(k) < 8: return False   # discriminator
    for k, w in p[1].items():
        if w.startswith('heap') and not g[1].get(k, '').startswith('heap'): return False
    return True
def closure(gen, post):
    out = dict(configurations=0, states_in=0, states_out=0, not_closed=0, examples=[])
    for c, ps in post.items():
        G = [shape(g) for g in gen.get(c, ())]
        if not G: continue
        out['configurations'] += 1; out['states_in'] += len(G)
        for p in ps:
            out['states_out'] += 1
            s = shape(p)
            if not any(matches(g, s) for g in G):
                out['not_closed'] += 1
                if len(out['examples']) < 10: out['examples'].append(p[:300])
    return out
if __name__ == '__main__': sys.exit(main())
