"""Driver: building witnesses from /repo's current tree, obligations, reports, evidence."""
import hashlib
import json
import concurrent.futures.process
import multiprocessing
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from . import ir, terms as T
from .explore import Explorer, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NBDL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++-18'
FLAGS = ['-std=c++26', '-include', 'cstdint', '-include', 'string',
         '-include', 'algorithm', '-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL', '-DBOOST_ASIO_NO_TYPEID']
WARN = ['-Wno-undefined-internal', '-Wno-undefined-inline', '-Wno-undefined-func-template',
        '-Wno-everything', '-ferror-limit=50']


class AnalysisError(Exception):
    """the analysis itself cannot give an answer"""


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(VERIF, 'wit'), os.path.join(VERIF, 'tools')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


_hash = None


def cache_dir():
    global _hash
    if _hash is None:
        _hash = tree_hash()
    d = os.path.join(BUILD, 'ir-' + _hash)
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        # IR of trees that nobody has looked at for a while goes
        for x in os.listdir(BUILD):
            if x.startswith('ir-') and x != 'ir-' + _hash and time.time() - os.path.getmtime(os.path.join(BUILD, x)) > 1500:
                subprocess.run(['rm', '-rf', os.path.join(BUILD, x)])
    return d


def nsa():
    p = os.path.join(BUILD, 'nsa')
    src = os.path.join(VERIF, 'tools', 'nsa.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        build_tools()
    return p


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    cfg = subprocess.run(['llvm-config-18', '--cxxflags', '--ldflags', '--libs'], capture_output=True, text=True,
                         check=True).stdout.split()
    cfg = [c for c in cfg if not c.startswith('-std=')]
    src = os.path.join(VERIF, 'tools', 'nsa.cpp')
    out = os.path.join(BUILD, 'nsa')
    r = subprocess.run(['g++', '-O1', src, '-o', out + '.tmp'] + cfg + ['-std=c++17', '-fno-rtti'],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build nsa: ' + r.stderr[-2000:])
    os.rename(out + '.tmp', out)


def includes(shims=()):
    inc = []
    for s in shims:
        inc += ['-I', os.path.join(VERIF, 'wit', 'shim', s)]
    return inc + ['-I', os.path.join(REPO, 'include'), '-I/usr/include/jsoncpp']


class CompileError(Exception):
    def __init__(self, wit, stderr, shims=()):
        self.wit, self.stderr, self.shims = wit, stderr, shims
        super().__init__(wit)

    def errors(self):
        return [l for l in self.stderr.splitlines() if ': error:' in l or ': fatal error:' in l]

    def __reduce__(self):
        return CompileError, (self.wit, self.stderr, self.shims)

    def in_library(self):
        """the errors, if the first of them is one of the library: in its sources, or in what they instantiate (not in the witness, and not
        for want of something that a stand-in for a dependency does not have)"""
        lines = self.stderr.splitlines()
        errors = self.errors()
        if not errors or errors[0].startswith(VERIF):
            return []
        at = lines.index(errors[0])
        rest = lines[at:lines.index(errors[1], at + 1) if len(errors) > 1 else len(lines)]
        mine = os.path.join(REPO, 'include')
        # an error in a header of a dependency: the instantiations that lead to it, from the innermost
        who = next((l for l in [errors[0]] + [l for l in rest if 'requested here' in l or 'in instantiation' in l] if l.startswith((mine, VERIF))), '')
        if not who.startswith(mine):
            return []
        if self.shims and any(w in errors[0] for w in ('no member named', 'no type named', 'no template named', 'no matching', 'undeclared', 'file not found', 'unknown type')):
            return []
        return [l for l in errors if not l.startswith(VERIF)]


def compile_ir(wit, shims=(), defines=(), opt=True, nsa_args=(), text=None):
    """compile wit/<wit>.cpp (or the text given) against /repo/include; returns ir.Module"""
    tag = wit + (('-' + hashlib.sha256(repr((shims, defines, opt, nsa_args) + ((text,) if text else ())).encode()).hexdigest()[:8])
                 if (shims or defines or not opt or nsa_args or text) else '')
    d = cache_dir()
    out = os.path.join(d, tag + '.json')
    if not os.path.exists(out):
        bc = os.path.join(d, f'{tag}.{os.getpid()}.bc')
        src = os.path.join(VERIF, 'wit', wit + '.cpp')
        if text is not None:
            src = os.path.join(d, f'{tag}.cpp')
            with open(src + f'.{os.getpid()}', 'w') as f:
                f.write(text)
            os.rename(src + f'.{os.getpid()}', src)
        cmd = [CXX] + FLAGS + includes(shims) + (['-I', os.path.join(VERIF, 'wit')] if text is not None else []) + ['-D' + x for x in defines] + WARN + [
            '-O2', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', src, '-o', bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CompileError(wit, r.stderr, shims)
        tmp = out + f'.{os.getpid()}.tmp'
        r = subprocess.run([nsa(), bc, tmp] + ([] if opt else ['-O0']) + list(nsa_args), capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError(f'nsa failed on {wit}: {r.stderr[-2000:]}')
        os.unlink(bc)
        os.rename(tmp, out)
    return ir.Module(out)


def syntax_check(text, shims=(), defines=(), name='snippet'):
    """type-check a program; returns (ok, stderr)"""
    d = cache_dir()
    key = hashlib.sha256((text + repr((shims, defines))).encode()).hexdigest()[:16]
    p = os.path.join(d, f'{name}-{key}.cpp')
    res = p + '.res'
    if os.path.exists(res):
        j = json.load(open(res))
        return j[0], j[1]
    with open(p, 'w') as f:
        f.write(text)
    cmd = [CXX] + FLAGS + includes(shims) + ['-I', os.path.join(VERIF, 'wit')] + ['-D' + x for x in defines] + WARN + ['-fno-crash-diagnostics', '-fsyntax-only', p]
    r = subprocess.run(['prlimit', '--as=8000000000'] + cmd, capture_output=True, text=True)
    with open(res + '.tmp', 'w') as f:
        json.dump([r.returncode == 0, r.stderr], f)
    os.rename(res + '.tmp', res)
    return r.returncode == 0, r.stderr


def facts(chk, prelude, items, shims=(), defines=(), name='facts'):
    """decide compile-time facts: [(what, constant expression)], one obligation each"""
    lines = [prelude]
    for i, (what, expr) in enumerate(items):
        assert '"' not in what
        lines.append(f'static_assert(({expr}), "[{chk.pid}#{i}] {what}");')
    ok, err = syntax_check('\n'.join(lines) + '\n', shims, defines, name)
    bad = {}
    other = []
    for l in err.splitlines():
        if ': error:' in l or ': fatal error:' in l:
            m = re.search(r'\[' + chk.pid + r'#(\d+)\]', l)
            if m:
                bad[int(m.group(1))] = l
            else:
                other.append(l)
    if other and not bad:
        raise CompileError(name, err, shims)
    for i, (what, expr) in enumerate(items):
        chk.type_ob(i not in bad, what, f'static fact is false: {" ".join(expr.split())}')
    if items:
        chk.sample(f'type fact: {items[0][0]}: {" ".join(items[0][1].split())}')


def pmap(fn, items, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def short_name(s):
    """function name without template arguments, parameters and return type"""
    out, depth = [], 0
    s = s.replace('operator()', 'operator call').replace('(anonymous namespace)', 'anon')
    for ch in s:
        if ch in '<(':
            depth += 1
            if ch == '(' and depth == 1 and out and ''.join(out).strip() not in ('auto', 'decltype'):
                break
        elif ch in '>)':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return ''.join(out).strip().split(' ')[-1][:80] if 'operator' not in ''.join(out) else ''.join(out).strip()[-80:]


def where(loc):
    """innermost source positions of an event inside /repo"""
    if not loc:
        return ''
    fr = [l for l in loc if '/include/nbdl' in l[0] or '/include/mpdef' in l[0]]
    out = []
    for f, n, s in fr[:4]:
        f = f[f.index('/include/') + 1:] if '/include/' in f else f
        f = os.path.normpath(f)
        s = short_name(s)
        out.append(f'{f}:{n} ({s})' if s else f'{f}:{n}')
    return ' <- '.join(out)


def _call(item):
    return _work(item)


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obligations = 0
        self.fail = []
        self.analysed = {'witness_functions': 0, 'paths': 0, 'abstract_steps': 0, 'event_sites': 0, 'basic_blocks': 0,
                         'loops': 0, 'type_facts': 0}
        self.samples = []
        self.fns = []
        self.notes = []
        self.repo_sites = set()
        self.level = 'other'

    def explore(self, mod, fname, **kw):
        if fname not in mod.fns:
            raise AnalysisError(f'witness function {fname} vanished')
        ex = Explorer(mod, fname, **kw)
        try:
            ex.run()
        except Unsupported as e:
            raise AnalysisError(f'{fname}: {e}')
        except RecursionError:
            raise AnalysisError(f'{fname}: recursion limit')
        a = self.analysed
        a['witness_functions'] += 1
        a['paths'] += len(ex.traces)
        a['abstract_steps'] += ex.steps
        a['event_sites'] += len(ex.sites)
        a['basic_blocks'] += len(ex.blocks)
        a['loops'] += len(ex.loops)
        self.fns.append(fname)
        for f in {b[0] for b in ex.blocks}:
            for insts in mod.fns[f].blocks.values():
                for i in insts:
                    for l in i.get('loc', []):
                        if '/include/nbdl' in l[0] or '/include/mpdef' in l[0]:
                            self.repo_sites.add((os.path.normpath(l[0]), l[2]))
        if len(ex.traces) == 0 and kw.get('monitor') is None:
            # a function with no path to an exit
            self.notes.append(f'{fname}: no terminating path')
        return ex

    def read_code(self, mod, fns, entry, steps):
        """notes what was analysed other than by exploring; returns where it is in /repo"""
        self.analysed['witness_functions'] += 1
        self.analysed['abstract_steps'] += steps
        self.fns.append(entry)
        here = {}
        for f in fns:
            self.analysed['basic_blocks'] += len(mod.fns[f].blocks)
            for insts in mod.fns[f].blocks.values():
                for i in insts:
                    for l in i.get('loc', []):
                        if '/include/nbdl' in l[0] or '/include/mpdef' in l[0]:
                            n = os.path.normpath(l[0])
                            self.repo_sites.add((n, l[2]))
                            here[(n, l[2])] = min(l[1], here.get((n, l[2]), l[1]))
        return [f'{os.path.relpath(n, REPO)}:{k} {f}' for (n, f), k in sorted(here.items())]

    def ob(self, ok, what, detail='', loc=None, trace=None, names=None, key=None):
        """one obligation"""
        self.obligations += 1
        if not ok:
            f = {'what': what, 'detail': detail, 'where': where(loc) if loc else '', 'key': key or what}
            if trace is not None:
                f['path'] = [e.show(names) + (f'   [{where(e.loc)}]' if e.loc else '') for e in trace.events] + [trace.kind]
                f['conditions'] = [f'{T.show(k, names) if isinstance(k, tuple) and k and isinstance(k[0], str) and k[0] in ("res", "icmp", "op", "arg", "load", "cast", "sel") else k} = {v}'
                                   for k, v in trace.facts.items()]
            self.fail.append(f)
        return ok

    def parallel(self, fn, items, workers=8):
        """fn(check, item) for every item, in processes of their own; what they find is merged"""
        ctx = multiprocessing.get_context('fork')
        me = self

        items = list(items)

        def work(i):
            item = items[i]
            sub = Check(me.pid, me.rule)
            try:
                fn(sub, item)
            except AnalysisError as e:
                return str(e), None
            return None, (sub.obligations, len(sub.fail), sub.fail[:200], sub.analysed, sub.samples, sub.fns, sub.notes, sub.repo_sites)
        global _work
        _work = work
        with concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctx) as pool:
            try:
                res = list(pool.map(_call, range(len(items)), chunksize=1))
            except concurrent.futures.process.BrokenProcessPool:
                raise AnalysisError('an analysis process was ended from outside (out of memory?)')
        for err, r in res:
            if err:
                raise AnalysisError(err)
            n, _, fail, an, samples, fns, notes, sites = r
            self.obligations += n
            self.fail += fail
            for k, v in an.items():
                self.analysed[k] += v
            for x in samples:
                self.sample(x)
            self.fns += fns
            self.notes += notes
            self.repo_sites |= sites

    def type_ob(self, ok, what, detail='', key=None):
        self.analysed['type_facts'] += 1
        return self.ob(ok, what, detail, key=key)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return [e for e in json.load(open(p))['entries'] if e.get('status') == 'open']
    return []


def unlisted(chk):
    """violations found so far that are no known findings (what is violated stays so if the rest cannot be analysed)"""
    known = [e for e in known_findings() if e['property'] == chk.pid]
    return [f for f in chk.fail if not any(re.fullmatch(e['match'], f['key']) for e in known)]


def finish(chk, min_obligations):
    """evidence, report, exit code"""
    known = [e for e in known_findings() if e['property'] == chk.pid]
    shown, new = {}, []
    for f in chk.fail:
        for e in known:
            if re.fullmatch(e['match'], f['key']):
                shown.setdefault(e['id'], (e, 0))
                shown[e['id']] = (e, shown[e['id']][1] + 1)
                break
        else:
            new.append(f)
    wall = time.time() - chk.t0
    if chk.obligations < min_obligations and not new:
        raise AnalysisError(f'{chk.pid}: only {chk.obligations} obligations generated, expected at least {min_obligations}')
    cov = {'explanation': chk.rule, 'obligations': chk.obligations,
           'discharged': chk.obligations - len(chk.fail),
           'known_findings_reproduced': sum(n for _, n in shown.values()),
           **{k: v for k, v in chk.analysed.items() if v},
           'repo_functions_in_analysed_code': len(chk.repo_sites),
           'repo_files_in_analysed_code': sorted({os.path.relpath(f, REPO) for f, _ in chk.repo_sites}),
           'functions': chk.fns[:40], 'samples': chk.samples or ['(type-level obligations only)'],
           'exhaustive': True}
    if chk.notes:
        cov['notes'] = chk.notes[:20]
    ev = {'property': chk.pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ['clang 18 lowers the witness program faithfully', 'LLVM O2 passes preserve semantics',
                          'the witness instantiation represents other instantiations of the same templates'],
          'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', chk.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{chk.pid}: {chk.obligations} obligations over {chk.analysed["witness_functions"]} witness functions, '
          f'{chk.analysed["paths"]} paths, {chk.analysed["event_sites"]} event sites, {chk.analysed["type_facts"]} type facts; '
          f'{len(chk.repo_sites)} functions of /repo in the analysed code; {wall:.1f}s')
    for e, n in shown.values():
        print(f'KNOWN-FINDING: property={chk.pid} {e["id"]}: {e["what"]} ({n} obligations)')
    if new:
        rp = os.path.join(BUILD, 'reports')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, chk.pid + '.txt')
        with open(path, 'w') as f:
            f.write(f'property {chk.pid}\nrule: {chk.rule}\n{len(new)} violated obligation(s)\n\n')
            for x in new[:60]:
                f.write(f'* {x["what"]}\n  {x["detail"]}\n')
                if x['where']:
                    f.write(f'  at {x["where"]}\n')
                if x.get('path'):
                    f.write('  path:\n' + ''.join(f'    {p}\n' for p in x['path']))
                    f.write('  under:\n' + ''.join(f'    {p}\n' for p in x['conditions']))
        for x in new[:8]:
            print(f'  {x["what"]}: {x["detail"]}' + (f' at {x["where"]}' if x['where'] else ''))
        print(f'VIOLATION property={chk.pid} replay={path}')
        return 1
    return 0
