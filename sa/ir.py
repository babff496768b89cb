"""Loading of the normalised IR written by tools/nsa."""
import json
import re
import subprocess

_tmpl = re.compile(r'(?:^|[ :])((?:evt|evtx)_\w+)')


def split_template(d):
    """'void wit::evt_up<0, 1>(unsigned long)' -> ('evt_up', [0, 1])"""
    m = _tmpl.search(d)
    if not m:
        return None
    name = m.group(1)
    rest = d[m.end(1):]
    targs = []
    if rest.startswith('<'):
        depth = 0
        cur = ''
        for ch in rest:
            if ch == '<':
                depth += 1
                if depth == 1:
                    continue
            if ch == '>':
                depth -= 1
                if depth == 0:
                    break
            if ch == ',' and depth == 1:
                targs.append(cur.strip())
                cur = ''
                continue
            cur += ch
        targs.append(cur.strip())
    out = []
    for t in targs:
        t2 = re.sub(r'^\([^)]*\)', '', t)
        t2 = re.sub(r'u?l{0,2}$', '', t2) if re.match(r'^-?\d+u?l{0,2}$', t2) else t2
        try:
            out.append(int(t2))
        except ValueError:
            out.append({'true': 1, 'false': 0}.get(t2, t2))
    return name, tuple(out)


class Fn:
    def __init__(self, d):
        self.d = d
        self.name = d['name']
        self.demangled = d['demangled']
        self.args = d['args']
        self.blocks = {b['id']: b['insts'] for b in d['blocks']}
        self.entry = d['blocks'][0]['id'] if d['blocks'] else None
        self._headers = None

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t['op']
        if op == 'br':
            return list(t['succ'])
        if op == 'switch':
            return [t['default']] + [c[1] for c in t['cases']]
        if op == 'invoke':
            return [t['normal'], t['unwind']]
        return []

    @property
    def headers(self):
        """blocks that are the target of a back edge (DFS)"""
        if self._headers is None:
            color, hs = {}, set()
            stack = [(self.entry, iter(self.succs(self.entry)))]
            color[self.entry] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 1:
                        hs.add(s)
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._headers = hs
        return self._headers

    def body(self, h):
        """blocks of the natural loop(s) with header h (blocks on a cycle through h)"""
        preds = {}
        for b in self.blocks:
            for s in self.succs(b):
                preds.setdefault(s, set()).add(b)
        # reachable from h
        fwd, st = {h}, [h]
        while st:
            for s in self.succs(st.pop()):
                if s not in fwd:
                    fwd.add(s)
                    st.append(s)
        bwd, st = {h}, [h]
        while st:
            for p in preds.get(st.pop(), ()):
                if p not in bwd:
                    bwd.add(p)
                    st.append(p)
        return fwd & bwd


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        chains = [[d['frames'][i] for i in c] for c in d['chains']]
        for f in d['functions']:
            for b in f['blocks']:
                for i in b['insts']:
                    if 'loc' in i:
                        i['loc'] = chains[i['loc']]
        self.fns = {f['name']: Fn(f) for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.demangled = dict(d['decls'])
        for f in d['functions']:
            self.demangled[f['name']] = f['demangled']
        self._ev = {}

    def event_of(self, callee):
        if callee not in self._ev:
            dm = self.demangled.get(callee, callee)
            self._ev[callee] = split_template(dm) if ('evt_' in dm or 'evtx_' in dm) else None
        return self._ev[callee]

    def witnesses(self, prefix='wit_'):
        return [f for n, f in sorted(self.fns.items()) if n.startswith(prefix)]
