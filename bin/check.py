#!/usr/bin/env python3
"""Contract check driver.

  check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--keep] [-v]

Generates the contract units of a property, compiles them together with /repo's current sources to
LLVM IR, lets lcv generate and discharge every obligation, replays counterexamples natively, and
writes /verif/evidence/PROPERTY.json.  Exit 0: nothing violated.  Exit 1: VIOLATION lines printed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.dont_write_bytecode = True
import props as P

CLANG, OPT = '/usr/bin/clang++-18', '/usr/bin/opt-18'
BASE = ['-std=c++20', '-fno-exceptions', '-include', 'cstdint', '-D_GLIBCXX_ASSERTIONS', '-w', '-DVP_UTIL="' + REPO + '/src/util.cc"',
        '-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'contracts')]
IRFLAGS = BASE + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g1',
                  '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return,bool,float-cast-overflow',
                  '-fsanitize-trap=all']
NATFLAGS = [f for f in BASE if f != '-fno-exceptions'] + ['-O1', '-g', '-DVP_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,null',
                   '-fno-sanitize-recover=all']
NPROC = int(os.environ.get('VP_JOBS', str(min(8, os.cpu_count() or 4))))
LCV = os.path.join(VERIF, 'build', 'lcv')
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=1', UBSAN_OPTIONS='print_stacktrace=0')


def run(cmd, timeout=None, mem_gb=10, asan=False, killable=None, **kw):
    def pre():
        os.setpgid(0, 0)
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=pre, env=ENV, **kw)
    if killable is not None:
        killable.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -99, o, e
    finally:
        if killable is not None:
            killable.discard(p)


def build_engine():
    r = subprocess.run(['make', '-s', '-C', os.path.join(VERIF, 'engine')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(LCV):
        print(r.stdout)
        print('engine build failed')
        sys.exit(2)


class Unit:
    def __init__(self, expr, header):
        self.expr, self.header = expr, header
        self.name = 'vph_' + re.sub(r'_+', '_', re.sub(r'[^A-Za-z0-9]+', '_', expr)).strip('_')
        if len(self.name) > 100:
            self.name = self.name[:80] + '_' + hashlib.sha1(expr.encode()).hexdigest()[:10]
        self.res = None


class Check:
    def __init__(self, prop, tier, only, verbose):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.t0 = time.time()
        self.cfg = P.PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.dir = os.path.join(VERIF, 'build', 'run', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replaydir = os.path.join(VERIF, 'build', 'replay', prop)
        shutil.rmtree(self.replaydir, ignore_errors=True)
        os.makedirs(self.replaydir)
        self.deadline = self.t0 + float(os.environ.get('VP_DEADLINE', self.cfg.get('deadline', {}).get(tier, 420 if tier == 'quick' else 820)))
        seen, self.units = set(), []
        for header, exprs in self.cfg['units'](tier):
            for e in exprs:
                u = Unit(e, header)
                if u.name in seen:
                    continue
                seen.add(u.name)
                if only and not re.search(only, u.expr):
                    continue
                self.units.append(u)
        self.lock = threading.Lock()
        self.stop = False
        self.running = set()
        self.confirmed = 0

    def say(self, s):
        if self.verbose:
            with self.lock:
                print(f'[{time.time()-self.t0:6.1f}] {s}', file=sys.stderr, flush=True)

    # ------------------------------------------------------------------ translation units
    def source(self, units, native=False):
        hs = []
        for u in units:
            if u.header not in hs:
                hs.append(u.header)
        s = ''.join(f'#include "{h}"\n' for h in hs)
        for u in units:
            s += f'extern "C" void {u.name}() {{ vp::{u.expr}(); }}\n'
        if native:
            s += 'static const vpn::Entry tab[] = {' + ','.join(f'{{"{u.name}",{u.name}}}' for u in units) + '};\n'
            s += f'int main(int argc, char **argv) {{ return vpn::run(tab, {len(units)}, argc, argv); }}\n'
        return s

    def compile_ir(self, tag, units):
        b = os.path.join(self.dir, tag)
        open(b + '.cc', 'w').write(self.source(units))
        # with the loop annotations, if they still fit the code
        for ann in (['-DLOGIC_CONTRACTS'], []):
            rc, o, e = run([CLANG] + IRFLAGS + ann + ['-emit-llvm', '-c', b + '.cc', '-o', b + '.bc'], timeout=max(5, self.deadline - time.time()))
            if not rc:
                break
        if rc:
            return None, e[-3000:]
        rc, o, e = run([OPT, '-passes=' + self.cfg.get('passes', 'mem2reg,loop-simplify,lcssa'), b + '.bc', '-o', b + '.o.bc'], timeout=300)
        if rc:
            return None, e[-3000:]
        try:
            os.unlink(b + '.bc')
        except OSError:
            pass
        return b + '.o.bc', ''

    def lcv(self, bc, tag, units, inline, qt, ut):
        out = os.path.join(self.dir, tag + '.json')
        pat = '|'.join(u.name for u in units)
        cmd = [LCV, bc, '-o', out, '--units', pat, '--query-timeout', str(qt), '--unit-timeout', str(ut)]
        if inline:
            cmd.append('--inline')
        rc, o, e = run(cmd, timeout=max(5, min(self.deadline - time.time(), (ut + 10) * len(units))), mem_gb=12, killable=self.running)
        res = {}
        try:
            for l in open(out):
                try:
                    d = json.loads(l)
                    res[d['unit']] = d
                except ValueError:
                    pass
        except OSError:
            pass
        return res, rc, e

    def work(self, tag, units, inline=False):
        """verify a chunk of units; returns nothing, fills u.res"""
        if self.stop or time.time() > self.deadline:
            return
        bc, err = self.compile_ir(tag, units)
        if bc is None:
            if len(units) > 1:
                h = len(units) // 2
                self.work(tag + 'a', units[:h], inline)
                self.work(tag + 'b', units[h:], inline)
            else:
                units[0].res = dict(unit=units[0].name, status='uncompilable', reason=err, obligations=0, bad=[])
            return
        todo = list(units)
        qt, ut = self.cfg.get('query_timeout', 20), self.cfg.get('unit_timeout', 100)
        while todo and not self.stop and time.time() < self.deadline:
            res, rc, e = self.lcv(bc, tag, todo, inline, qt, ut)
            for u in todo:
                if u.name in res:
                    if inline and u.res:
                        res[u.name]['retry_of'] = u.res['status']
                    u.res = res[u.name]
            rest = [u for u in todo if u.name not in res]
            if self.stop:
                break
            if rest and len(rest) == len(todo) or (rest and rc == 0):
                rest[0].res = dict(unit=rest[0].name, status='error', reason='verifier stopped: rc=%s %s' % (rc, e[-300:]), obligations=0, bad=[])
                rest = rest[1:]
            todo = rest
        try:
            os.unlink(bc)
        except OSError:
            pass

    def pool(self, jobs, n=NPROC):
        with cf.ThreadPoolExecutor(n) as ex:
            for f in [ex.submit(fn, *a) for fn, *a in jobs]:
                f.result()

    # ------------------------------------------------------------------ native replay
    def native(self, units, tag):
        b = os.path.join(self.dir, tag)
        open(b + '.nat.cc', 'w').write(self.source(units, True))
        extra = [os.path.join(REPO, 'src/util.cc')]
        rc, o, e = run([CLANG] + NATFLAGS + [b + '.nat.cc'] + extra + ['-o', b + '.nat'], timeout=600, asan=True)
        return (b + '.nat', '') if rc == 0 else (None, e[-2000:])

    def write_replay(self, u, data):
        p = os.path.join(self.replaydir, u.name + '.json')
        d = dict(property=self.prop, unit=u.name, contract=u.expr, header=u.header, how='replay with: %s/bin/replay.py %s' % (VERIF, p))
        d.update(data)
        json.dump(d, open(p, 'w'), indent=1)
        return p

    def confirm(self, u):
        """u failed: decide violation with / without failing input.  Returns (replay path, confirmed, text)"""
        bad = [b for b in u.res['bad'] if not b['clause'].startswith('finding:')]
        exe, err = self.native([u], u.name)
        tried = []
        if exe:
            for b in bad:
                if b['result'] != 'sat':
                    continue
                m = {k: v for k, v in b['model'].items()}
                rc, o, e = run([exe, 'replay', u.name] + [f'{k}={v}' for k, v in m.items()], timeout=60, asan=True)
                tried.append(dict(inputs=m, rc=rc, output=(o + e)[-1500:]))
                if rc not in (0, 3, 4, -99):
                    return self.write_replay(u, dict(obligation=b['clause'], kind=b['kind'], location=b['loc'], inputs=m, native_output=(o + e)[-3000:], verifier=u.res)), True, b
            r = self.search(exe, u, 20)
            if r:
                return self.write_replay(u, dict(obligation=bad[0]['clause'], kind=bad[0]['kind'], location=bad[0]['loc'], inputs=r[0], native_output=r[1], verifier=u.res)), True, bad[0]
        b = bad[0]
        return self.write_replay(u, dict(obligation=b['clause'], kind=b['kind'], location=b['loc'], replays=tried, compile=err, verifier=u.res)), False, b

    def search(self, exe, u, secs, maxruns=2000000):
        rc, o, e = run([exe, 'search', u.name, str(secs), str(self.seed), str(maxruns)], timeout=secs + 60, asan=True)
        u.searched = (o + e)[-300:]
        m = re.search(r'SEARCHED \S+ runs=(\d+) accepted=(\d+)', o)
        if m:
            u.searched = dict(runs=int(m.group(1)), accepted=int(m.group(2)))
        if rc == 1:
            m = re.search(r'INPUTS \S+ (\{.*\})', o)
            return (json.loads(m.group(1)) if m else {}), (o + e)[-3000:]
        return None

    def go(self):
        units = self.units
        n = len(units)
        size = max(1, min(self.cfg.get('chunk', 12), (n + NPROC - 1) // NPROC))
        # heavy instances first, spread over the chunks
        units = sorted(units, key=lambda u: -sum(int(x) for x in re.findall(r'\d+', u.expr)))
        k = max(1, (n + size - 1) // size)
        chunks = [units[i::k] for i in range(k)]
        # the units with loops first, each on its own: they take the longest
        solo = [u for u in units if re.search(self.cfg.get('solo', '$^'), u.expr)]
        if solo:
            rest = [u for u in units if u not in solo]
            k = max(1, (len(rest) + size - 1) // size)
            chunks = [[u] for u in solo] + [rest[i::k] for i in range(k) if rest[i::k]]
        nsolo = len(solo)
        self.lemmas = threading.Thread(target=self.lean)
        self.lemmas.start()
        self.say(f'{n} units in {len(chunks)} chunks')
        prog = [0]

        def job(i, c):
            self.work('m%d' % i, c)
            for u in c:
                if u.res and u.res['status'] not in ('proved',):
                    self.say(f'{u.expr}: {u.res["status"]} {u.res.get("reason","")[:300]} ' + '; '.join(b['clause'] + '@' + b['loc'] + ' ' + b['result'] for b in u.res['bad'][:3]))
            prog[0] += len(c)
            self.say(f'{prog[0]}/{n} done')
            # enough failures, confirmed by failing inputs: no need to go on
            bad = sorted((u for u in c if self.is_failed(u) and not hasattr(u, 'conf')), key=lambda u: u.res.get('wall_s', 0))
            for u in bad[:2]:
                if self.confirmed >= 3:
                    break
                u.conf = self.confirm(u)
                with self.lock:
                    self.confirmed += bool(u.conf[1])
            if self.confirmed >= 3 and not self.stop:
                self.stop = True
                for p in list(self.running):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
        # two pools: loops that do not come to an end must not keep the other units from being reached
        jobs = [(job, i, c) for i, c in enumerate(chunks)]
        if nsolo:
            side = threading.Thread(target=self.pool, args=(jobs[:nsolo], 5))
            side.start()
            self.pool(jobs[nsolo:], 5)
            side.join()
        else:
            self.pool(jobs)
        # a unit that fails or is undecided modularly is tried again on the callee bodies
        again = [u for u in units if u.res and u.res.get('contracts_used') and (self.is_failed(u) or u.res['status'] in ('unknown', 'error'))]
        for u in again:
            if hasattr(u, 'conf') and not u.conf[1]:
                del u.conf
        if again and self.confirmed < 3:
            self.stop = False
            for at in range(0, len(again), 64):
                part = again[at:at + 64]
                if time.time() - self.t0 > 520:
                    # no time left to decide whether the body or only the callee contract fails: not a violation by itself
                    for u in again[at:]:
                        if not (hasattr(u, 'conf') and u.conf[1]):
                            u.res = dict(u.res, status='unknown', reason='fails against the callee contracts; callee bodies not tried, out of time', bad=[dict(b, result='unknown') for b in u.res['bad']])
                    break
                self.say(f'{len(part)} units again on callee bodies')
                self.pool([(self.work, 'i%d' % i, [u], True) for i, u in enumerate(part, at)])
                # failures that stay on the bodies are confirmed now: no need to go on after a few
                for u in [u for u in part if self.is_failed(u) and not hasattr(u, 'conf')][:3]:
                    if self.confirmed < 3:
                        u.conf = self.confirm(u)
                        self.confirmed += bool(u.conf[1])
                if self.confirmed >= 3:
                    break
        return self.report()

    def lean(self):
        """lemmas that a proof assistant proves"""
        self.lean_res = []
        for f in self.cfg.get('lean', []):
            path = os.path.join(VERIF, 'contracts', f)
            t = time.time()
            try:
                rc, o, e = run(['lean', path], timeout=300, asan=True)
            except OSError as x:
                rc, o, e = -1, '', str(x)
            ok = rc == 0 and 'sorry' not in o + e + open(path).read() and 'error' not in o
            self.lean_res.append(dict(file=f, theorems=len(re.findall(r'(?m)^theorem ', open(path).read())), accepted=ok, output=(o + e)[-600:], s=round(time.time() - t, 2)))

    @staticmethod
    def is_failed(u):
        return bool(u.res and any(b['result'] == 'sat' and not b['clause'].startswith('finding:') for b in u.res['bad']))

    def report(self):
        units = self.units
        failed = [u for u in units if self.is_failed(u)]
        skipped = [u for u in units if u.res is None]
        undecided = [u for u in units if u.res and not self.is_failed(u) and (u.res['status'] in ('unknown', 'error', 'uncompilable', 'vacuous'))
                     and not all(b['clause'].startswith('finding:') and b['result'] == 'sat' for b in u.res['bad'] or [dict(clause='', result='')])]
        violations = []

        def conf(u):
            p, ok, b = getattr(u, 'conf', None) or self.confirm(u)
            with self.lock:
                violations.append((u, p, ok, b))
        # prefer variety: small units first
        failed.sort(key=lambda u: (not getattr(u, 'conf', (0, False))[1], u.res.get('wall_s', 0)))
        pick = failed[:8] if self.confirmed < 3 else [u for u in failed if getattr(u, 'conf', (0, False))[1]]
        self.pool([(conf, u) for u in pick])
        if not any(v[2] for v in violations) and len(failed) > 8:
            self.pool([(conf, u) for u in failed[8:24]])
        # bounded stand-in for what the verifier could not decide
        bounded = []
        cand = [u for u in undecided if u.res['status'] != 'uncompilable'] + skipped
        budget = min(self.cfg.get('bounded_total', 120), max(0, 860 - (time.time() - self.t0) - 40))
        if cand and budget > 5 and not violations:
            per = max(0.5, min(self.cfg.get('bounded_each', 5), budget * NPROC / len(cand) - 1))

            def bnd(group, tag):
                exe, err = self.native(group, tag)
                for u in group:
                    if not exe or time.time() - self.t0 > 860:
                        u.searched = 'not run: ' + err[-200:]
                        continue
                    r = self.search(exe, u, per)
                    with self.lock:
                        bounded.append(u)
                    if r:
                        u.res = u.res or dict(unit=u.name, status='skipped', bad=[], obligations=0)
                        p = self.write_replay(u, dict(obligation='bounded search', inputs=r[0], native_output=r[1], verifier=u.res))
                        m = re.search(r'FAILED [^:]*: (.*)', r[1])
                        with self.lock:
                            violations.append((u, p, True, dict(clause=m.group(1) if m else 'bounded search', kind='bounded', loc='')))
            g = max(1, min(12, (len(cand) + NPROC - 1) // NPROC))
            self.pool([(bnd, cand[i:i + g], 'b%d' % i) for i in range(0, len(cand), g)])
        # findings
        known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
        known = {f['id']: f for f in known if f.get('status') == 'open'}
        present = {}
        for u in units:
            for b in (u.res or {}).get('bad', []):
                if b['clause'].startswith('finding:'):
                    fid = b['clause'][8:].split(' ')[0]
                    if b['result'] == 'sat':
                        if fid in known and known[fid]['property'] == self.prop:
                            present.setdefault(fid, []).append(u.expr)
                        else:
                            p = self.write_replay(u, dict(obligation=b['clause'], inputs=b['model'], verifier=u.res))
                            violations.append((u, p, True, b))
        for fid, us in sorted(present.items()):
            print(f'KNOWN-FINDING: property={self.prop} {known[fid]["what"]} [{fid}; {len(us)} instances, e.g. {us[0]}]')
        for f in known.values():
            if f['property'] == self.prop and f.get('always') and f['id'] not in present:
                print(f'KNOWN-FINDING: property={self.prop} {f["what"]} [{f["id"]}]')
        # a violation with a failing input first
        violations.sort(key=lambda v: not v[2])
        for u, p, ok, b in violations[:12]:
            print(f'  obligation "{b["clause"]}" of {u.expr} {b.get("loc","")}')
            print(f'VIOLATION property={self.prop} replay={p}' + ('' if ok else ' no-failing-input-found'))
        self.evidence(failed, undecided, skipped, bounded, violations, present)
        return 1 if violations else 0

    def evidence(self, failed, undecided, skipped, bounded, violations, present):
        rs = [u.res for u in self.units if u.res]
        tot = sum(r.get('obligations', 0) for r in rs)
        nf = sum(1 for r in rs for b in r['bad'])
        disch = sum(r.get('by_normalisation', 0) + r.get('by_smt', 0) for r in rs)
        fns, cu, solvers = {}, set(), {}
        for r in rs:
            for f in r.get('functions', []):
                fns[f] = fns.get(f, 0) + 1
            cu |= set(r.get('contracts_used', []))
            for k, v in r.get('solvers', {}).items():
                solvers[k] = solvers.get(k, 0) + v
        names = sorted(set(n for n in demangle([f for f in fns if not f.startswith(('_ZN2vp', '_ZZN2vp', 'vp'))])))
        fam = {}
        for u in self.units:
            k = u.expr.split('<')[0]
            d = fam.setdefault(k, dict(units=0, proved=0, failed=0, undecided=0, obligations=0))
            d['units'] += 1
            if u.res:
                d['obligations'] += u.res.get('obligations', 0)
            if u in failed: d['failed'] += 1
            elif u in undecided or u in skipped: d['undecided'] += 1
            else: d['proved'] += 1
        self.lemmas.join()
        tot += sum(l['theorems'] for l in self.lean_res)
        disch += sum(l['theorems'] for l in self.lean_res if l['accepted'])
        cov = dict(
            obligations=tot, discharged=disch,
            checker_cmd=f'{LCV} <units>.bc (VC generation from clang 18 LLVM IR of {REPO}; back ends: term normalisation, z3-new, cvc5)',
            trusted_base=P.TRUSTED + self.cfg.get('trusted', []),
            units=len(self.units), units_proved=len(self.units) - len(failed) - len(undecided) - len(skipped),
            units_failed=len(failed), units_undecided=len(undecided), units_not_reached=len(skipped),
            by_backend=dict(normalisation=sum(r.get('by_normalisation', 0) for r in rs), smt=sum(r.get('by_smt', 0) for r in rs), smt_queries_by_solver=solvers),
            solver_s=round(sum(r.get('solver_s', 0) for r in rs), 2), vcgen_s=round(sum(r.get('exec_s', 0) for r in rs), 2),
            families=fam, functions_under_contract=len(names), functions=names[:400], callee_contracts_used=sorted(demangle(list(cu))),
            undecided=[dict(unit=u.expr, status=u.res['status'], reason=u.res.get('reason', '')[:300], clauses=[b['clause'] for b in u.res['bad']][:5], bounded=getattr(u, 'searched', None)) for u in undecided][:100],
            not_reached=[u.expr for u in skipped][:100],
            bounded_stand_ins=[dict(unit=u.expr, bound=getattr(u, 'searched', None)) for u in bounded][:100],
            known_findings=present, lean_lemmas=self.lean_res,
            samples=[u.expr for u in self.units[:: max(1, len(self.units) // 12)]],
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='proof', coverage=cov,
                  assumptions=P.ASSUMPTIONS + self.cfg.get('assumptions', []), wall_s=round(time.time() - self.t0, 2), violations=len(violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for u in sorted((u for u in self.units if u.res), key=lambda u: -u.res.get('wall_s', 0))[:15]:
            self.say(f'slow {u.res.get("wall_s", 0):.1f}s {u.expr}')
        print(f'{self.prop}: {len(self.units)} contract units, {tot} obligations, {disch} discharged, {len(failed)} units failed, '
              f'{len(undecided) + len(skipped)} undecided (bounded stand-in on {len(bounded)}), {time.time()-self.t0:.1f}s')


def demangle(names):
    if not names:
        return []
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        # keep the templates' names, not their hundreds of instances
        out = []
        for l in r.stdout.splitlines():
            l = re.sub(r' \[with.*|requires.*', '', l)
            d, s = 0, ''
            l = l.replace('operator<<', 'operator#LL').replace('operator>>', 'operator#RR').replace('operator<=', 'operator#LE').replace('operator>=', 'operator#GE').replace('operator<', 'operator#L').replace('operator>', 'operator#R')
            for c in l:
                if c == '<': d += 1
                elif c == '>': d -= 1
                elif d == 0: s += c
            s = s.split('(')[0].strip().split(' ')[-1] if 'operator' not in s else s.split('(')[0].strip()
            for a, b in (('#LL', '<<'), ('#RR', '>>'), ('#LE', '<='), ('#GE', '>='), ('#L', '<'), ('#R', '>')):
                s = s.replace(a, b)
            out.append(s)
        return out
    except OSError:
        return names


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    build_engine()
    c = Check(a.property, a.tier, a.only, a.v)
    rc = c.go()
    shutil.rmtree(c.dir, ignore_errors=True) if not a.v else None
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
