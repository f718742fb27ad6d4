"""Harness for the printing and drawing back-ends: the text or figure is read back as a circuit and compared with the program, wire by wire."""
import builtins
import contextlib
import io
import json
import math
import os
import re
import shutil
import sys
import tempfile

from . import sym as S
from .device import number
from .engine import PathAbort
from .observers import Keep, Mark, Program, command, outcomes

# ---------------------------------------------------------------- programs


def special(name):
    from projectq import ops
    if name == 'dagbox':
        class Twist(ops.BasicGate):
            def __init__(self, a):
                super().__init__()
                self.a = a

            def __str__(self):
                return 'Twist(%s)' % self.a

            def __eq__(self, o):
                return type(o) is type(self) and self.a == o.a

            def __hash__(self):
                return 7
        return ops.DaggeredGate(Twist(2))
    return getattr(ops, name)


class Drawn(Program):
    """the programs of the observers and the symbols the pictures have of their own"""
    NAMES = dict(z=('Z', 1, 0), cz=('Z', 1, 1), ccz=('Z', 1, 2), sdag=('Sdag', 1, 0), sqrtswap=('SqrtSwap', 2, 0), csqrtswap=('SqrtSwap', 2, 1), dagbox=('dagbox', 1, 0), ch=('H', 1, 1), cch=('H', 1, 2), cx0=('X', 1, 1), ch0=('H', 1, 1))
    NEXT = ()

    def next(self, eng):
        from projectq import ops
        h = self.h
        save = self.count
        self.count += 1
        op = self.pick('op', self.alphabet)
        if op not in self.NAMES and op not in ('rxx', 'crxx', 'sqrtswapdag', 'measure', 'ph', 'r', 'rz', 'csqrtswapdag', 'swap', 'cswap'):
            self.count = save
            keep, self.alphabet = self.alphabet, [op]
            try:
                return super().next(eng)
            finally:
                self.alphabet = keep
        if op in self.NAMES:
            name, nt, nc = self.NAMES[op]
            g = special(name)
        else:
            ang = lambda: h.angle('%sang%d' % (self.tag, self.count))
            nt, nc = dict(rxx=(2, 0), crxx=(2, 1), sqrtswapdag=(2, 0), csqrtswapdag=(2, 1), measure=(1, 0), ph=(1, 0), r=(1, 0), rz=(1, 0), swap=(2, 0), cswap=(2, 1))[op]
            g = {'rxx': lambda: ops.Rxx(ang()), 'crxx': lambda: ops.Rxx(ang()), 'r': lambda: ops.R(ang()), 'ph': lambda: ops.Ph(ang()), 'rz': lambda: ops.Rz(ang()), 'measure': lambda: ops.Measure,
                 'swap': lambda: ops.Swap, 'cswap': lambda: ops.Swap}.get(op, lambda: ops.get_inverse(ops.SqrtSwap))()
        used = []
        for k in range(nt + nc):
            used.append(self.pick('q%d_' % k, self.live - set(used)))
        tg, ct = used[:nt], used[nt:]
        tags = []
        if op == 'measure':
            tags = [Mark(1)] + self.tags_of(tg[0])
        return command(eng, g, [[i] for i in tg], ct, tags=tags, state='0' * nc if op.endswith('0') else None)

    def tags_of(self, i):
        """every second qubit is a mapped one"""
        from projectq.meta import LogicalQubitIDTag
        return [LogicalQubitIDTag(50 + i)] if i % 2 else []


class Want:
    """(spec) what a command is to look like"""

    def __init__(self, cmd):
        from projectq import ops
        g = cmd.gate
        self.t = [q.id for r in cmd.qubits for q in r]
        self.c = sorted(q.id for q in cmd.control_qubits)
        self.negative = '0' in str(cmd.control_state)
        self.kind, self.param = type(g).__name__, getattr(g, 'angle', None)
        if isinstance(g, ops.DaggeredGate):
            self.kind = type(g._gate).__name__ + '+'
        self.all = set(self.t) | set(self.c)
        self.gate = g

    def __repr__(self):
        return '%s%s|%s' % (self.kind, self.t, self.c)


class Got:
    """a symbol of a picture"""

    def __init__(self, kind, t, c, x0, x1, param=None, span=None, filled=True):
        self.kind, self.t, self.c, self.x0, self.x1, self.param, self.span, self.filled = kind, list(t), sorted(c), x0, x1, param, span, filled
        self.all = set(self.t) | set(self.c)

    def __repr__(self):
        return '%s%s|%s' % (self.kind, self.t, self.c)


# ---------------------------------------------------------------- TikZ
NUM = r'-?(?:SYM\d+|[\d.]+(?:e-?\d+)?)'
NODE = re.compile(r'\\node\[([^\]]*)\] \((\w[\w\-]*)\) at \((%s),-(%s)\) ?\{(.*)\}' % (NUM, NUM), re.S)
EDGE = re.compile(r'\\draw \((?:\[([^\]]*)\])?([\w\-]+)(?:\.(\w+))?\) edge ?\[edgestyle\] \((?:\[([^\]]*)\])?([\w\-]+)(?:\.(\w+))?\)')
RECT = re.compile(r'\\draw\[([^\]]*)\] \(\[yshift=(%s)cm\](\w+)\) rectangle \(\[yshift=-(%s)cm\](\w+)\) node\[pos=\.5\] \{(.*)\}' % (NUM, NUM), re.S)
REF = re.compile(r'\((?:\[[^\]]*\])?([A-Za-z][\w\-]*)(?:\.[\w ]+)?\)')


class Unreadable(Exception):
    pass


def statements(body):
    out, cur, depth = [], '', 0
    for ch in body:
        depth += (ch == '{') - (ch == '}')
        if ch == ';' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        raise Unreadable('text after the last statement: ' + cur)
    return out


def parts(text):
    i = text.index('\\begin{document}')
    begin = text.index('\\begin{tikzpicture}', i)
    m = re.search(r'\\end\{tikzpicture\}\s*\\end\{document\}\s*$', text)
    if not m or not text.startswith('\\documentclass'):
        raise Unreadable('frame')
    body = text[begin:m.start()]
    k = body.rindex('\\tikzstyle{edgestyle}')
    k = body.index('\n', k)
    return body[:k], body[k:]


def read_tikz(text):
    """symbols of a picture in the order they are drawn, and the wires between them"""
    head, body = parts(text)
    styles = set(re.findall(r'\\tikzstyle\{(\w+)\}=\[', head)) | set(re.findall(r'(\w+)/\.style', head))
    nodes, order, edges, rects, strokes, used = {}, [], [], [], {}, set()
    pending = []
    for st in statements(body):
        if st.startswith('\\node'):
            m = NODE.fullmatch(st)
            if not m:
                raise Unreadable(st)
            style, name, x, y, txt = m.groups()
            if name in nodes:
                raise Unreadable('two nodes named ' + name)
            used |= {s for s in style.split(',') if '=' not in s}
            nodes[name] = dict(style=style.split(',')[0], x=number(x), y=float(y), text=txt, name=name, kind=None, n=len(nodes))
            order.append(nodes[name])
            if style.split(',')[0] == 'none' and not txt:
                pending.append(nodes[name])
            continue
        for r in REF.findall(st):
            if r not in nodes:
                raise Unreadable('%s leads to an undefined node %s' % (st, r))
        m = EDGE.fullmatch(st)
        if m:
            s1, a, p1, s2, b, p2 = m.groups()
            if a == b:
                if p1 != 'center' or p2 != 'center':
                    raise Unreadable(st)
                strokes[a] = strokes.get(a, '') + 'end'
                if nodes[a] in pending:
                    pending.remove(nodes[a])
            else:
                edges.append((a, b, s1))
            used.add('edgestyle')
            continue
        m = RECT.fullmatch(st)
        if m:
            style, _, a, _, b, name = m.groups()
            used |= {s for s in style.split(',') if '=' not in s}
            rects.append((a, b, name, pending))
            pending = []
            continue
        m = re.fullmatch(r'\\draw\[([^\]]*)\] \((?:\[[^\]]*\])?(\w+)\.(\w+)\)--\((?:\[[^\]]*\])?(\w+)\.(\w+)\)', st)
        if m and m.group(2) == m.group(4):
            used |= {s for s in m.group(1).split(',') if '=' not in s}
            strokes[m.group(2)] = strokes.get(m.group(2), '') + ('|' if (m.group(3), m.group(5)) == ('north', 'south') else '-' if (m.group(3), m.group(5)) == ('west', 'east') else 'x')
            continue
        if st.startswith('\\draw[edgestyle] (') and ' to ' in st:
            strokes[REF.findall(st.replace('.\ncenter', '.center'))[0]] = 'm'
            used.add('edgestyle')
            continue
        raise Unreadable(st)
    if pending:
        raise Unreadable('node without meaning %s' % pending[0]['name'])
    if used - styles:
        raise Unreadable('undefined styles %s' % sorted(used - styles))
    return assemble(nodes, order, edges, rects, strokes)


def assemble(nodes, order, edges, rects, strokes):
    whole = lambda n: n['style'] != 'xstyle' or not n['text']
    box = {}                    # name -> index of the box
    for k, (a, b, name, mem) in enumerate(rects):
        for n in mem:
            box[n['name']] = k
        lines = sorted({int(n['y']) for n in mem})
        if not mem or box.get(a) != k or box.get(b) != k or lines != list(range(int(nodes[a]['y']), int(nodes[b]['y']) + 1)):
            raise Unreadable('box %s from %s to %s' % (name, a, b))
        for l in lines:
            three = [n for n in mem if n['y'] == l]
            if len(three) != 3:
                raise Unreadable('box %s on line %d' % (name, l))
    comp = {n: ('box', box[n]) if n in box else ('node', n) for n in nodes}
    parent = {}

    def find(v):
        while parent.get(v, v) != v:
            v = parent[v]
        return v
    horizontal = []
    for a, b, shift in edges:
        if whole(nodes[a]) and whole(nodes[b]) and nodes[a]['y'] == nodes[b]['y']:
            horizontal.append((a, b, shift))
        else:
            parent[find(comp[a])] = find(comp[b])
    legs = [(a, b) for a, b, _ in edges if nodes[a]['style'] == nodes[b]['style'] == 'swapstyle']
    mids = {}
    for a, b, _ in edges:
        if not whole(nodes[a]) or not whole(nodes[b]):
            m, leg = (a, b) if not whole(nodes[a]) else (b, a)
            mids.setdefault(m, []).append(leg)
    legs += [tuple(v) for v in mids.values() if len(v) == 2]
    joined = {n for a, b, _ in edges if nodes[a]['y'] != nodes[b]['y'] for n in (a, b)}
    for n in order:             # a control dot on the line between the legs of a swap
        if n['style'] == 'phase' and n['name'] not in joined:
            for a, b in legs:
                ys = sorted((nodes[a]['y'], nodes[b]['y']))
                d = nodes[a]['x'] - n['x']
                if ys[0] < n['y'] < ys[1] and (n['x'] is nodes[a]['x'] or not isinstance(d, S.Sym) and d == 0 or isinstance(d, S.Sym) and not d.t):
                    parent[find(comp[n['name']])] = find(comp[a])
    groups = {}
    for n in order:
        groups.setdefault(find(comp[n['name']]), []).append(n)
    out = []
    seq = {}                    # line -> names of the left and right node of each symbol
    for root, mem in sorted(groups.items(), key=lambda kv: kv[1][0]['n']):
        boxes = {box[n['name']] for n in mem if n['name'] in box}
        phases = [n for n in mem if n['style'] == 'phase']
        rest = [n for n in mem if n['style'] != 'phase' and n['name'] not in box]
        ph = [int(n['y']) for n in phases]
        x0, x1, span, param = mem[0]['x'], mem[0]['x'], None, None
        marks = sorted(strokes.get(n['name'], '') for n in rest)
        if len(boxes) == 1 and not rest:
            a, b, name, inner = rects[min(boxes)]
            t = sorted({int(n['y']) for n in inner})
            kind, param = box_name(name)
            span = t
            x1 = nodes[b]['x']
            x0 = nodes[a]['x']
        elif boxes:
            raise Unreadable('a box joined with something else')
        elif not rest:
            kind, t, ph = 'CZ', ph, []
        elif rest[0]['style'] == 'xstyle' and len(rest) == 1 and marks == ['|-']:
            kind, t = 'XGate', [int(rest[0]['y'])]
        elif all(n['style'] == 'swapstyle' or n['style'] == 'xstyle' for n in rest):
            legs = [n for n in rest if n['style'] == 'swapstyle']
            mid = [n for n in rest if n['style'] == 'xstyle']
            if len(legs) != 2 or any(strokes.get(n['name']) != 'xx' for n in legs) or len(mid) > 1:
                raise Unreadable('swap %s' % [n['name'] for n in rest])
            kind, t = 'SwapGate', [int(n['y']) for n in legs]
            if mid:
                if mid[0]['y'] != sum(t) / 2 or 'frac{1}{2}' not in mid[0]['text']:
                    raise Unreadable('swap mark')
                kind = 'SqrtSwapGate' + ('+' if 'dagger' in mid[0]['text'] else '')
        elif len(rest) == 1 and rest[0]['style'] == 'measure' and marks == ['m']:
            kind, t = 'MeasureGate', [int(rest[0]['y'])]
        elif len(rest) == 1 and rest[0]['style'] == 'none' and rest[0]['text'].startswith('$\\Ket{0}'):
            kind, t = 'AllocateQubitGate', [int(rest[0]['y'])]
            m = re.search(r'\\textcolor\{red\}\{(\d+)\}', rest[0]['text'])
            param = int(m.group(1)) if m else None
        elif len(rest) == 1 and rest[0]['style'] == 'none' and marks == ['end']:
            kind, t = 'DeallocateQubitGate', [int(rest[0]['y'])]
        else:
            raise Unreadable('symbol %s' % [n['name'] for n in mem])
        g = Got(kind, t, ph, x0, x1, param, span)
        g.nodes = mem
        out.append(g)
        for n in mem:
            if whole(n):
                seq.setdefault(int(n['y']), []).append(n)
    return out, seq, horizontal, box


def box_name(s):
    """(kind, parameter) of the text in a box"""
    s = s.strip()
    m = re.fullmatch(r'(\w+)\$_\{(%s)(\\pi)?\}\$' % NUM, s)
    if m:
        v = number(m.group(2))
        return m.group(1), v * math.pi if m.group(3) else v
    m = re.fullmatch(r'(\w+)\((%s)\)' % NUM, s)
    if m and not s.startswith('Twist'):
        return m.group(1), number(m.group(2))
    dag = False
    for e in ('${}^\\dagger$', '^\\dagger'):
        if s.endswith(e):
            s, dag = s[:-len(e)], True
    if re.fullmatch(r'Twist\(2(\.00)?\)', s):
        s = 'Twist'
    return dict(SqrtSwap='SqrtSwapGate', Swap='SwapGate', H='HGate', Z='ZGate', S='SGate', X='XGate', Barrier='BarrierGate', Measure='MeasureGate').get(s, s) + ('+' if dag else ''), None


# ---------------------------------------------------------------- comparison
def compare(h, want, got, loc, tol, cz=True):
    """the symbols on every wire are those of the program, in its order"""
    per_w, per_g = {}, {}
    for w in want:
        for q in w.all:
            per_w.setdefault(loc(q), []).append(w)
    for g in got:
        for l in g.all:
            per_g.setdefault(l, []).append(g)
    pair = {}
    h.true('every operation once', len(want) == len(got), '%s / %s' % (want, got))
    lines = set(per_w) | set(per_g)
    for l in sorted(lines):
        ws, gs = per_w.get(l, []), per_g.get(l, [])
        gs = [g for g in gs if not (g.span and l not in exact(g, want, loc))]
        ws = [w for w in ws if not hidden(w, l, loc)]
        h.true('operations of a wire', len(ws) == len(gs), 'wire %d: %s / %s' % (l, ws, gs))
        for w, g in zip(ws, gs):
            h.true('one symbol per operation', pair.setdefault(id(g), w) is w, '%s %s' % (w, g))
    h.true('one symbol per operation', len(pair) == len(want) and len({id(w) for w in pair.values()}) == len(want))
    for g in got:
        w = pair[id(g)]
        t, c = [loc(q) for q in w.t], sorted(loc(q) for q in w.c)
        if g.span:
            h.true('lines of a box', g.span == list(range(min(t), max(t) + 1)), '%s %s' % (w, g))
            h.true('controls', g.c == [x for x in c if not min(t) < x < max(t)], '%s %s' % (w, g))
        elif g.kind == 'CZ':
            h.true('lines of a symbol', w.kind == 'ZGate' and sorted(g.t) == sorted(t + c), '%s %s' % (w, g))
        else:
            h.true('lines of a symbol', sorted(g.t) == sorted(t) and g.c == c, '%s %s' % (w, g))
        h.true('kind of a symbol', g.kind == 'CZ' or g.kind == w.kind, '%s %s' % (w, g))
        if w.kind == 'AllocateQubitGate':
            h.true('qubit id', g.param in (None, w.t[0]), g.param)
        elif w.param is not None:
            h.true('parameter shown', g.param is not None)
            d = g.param - w.param
            h.true('parameter', (d <= tol) & (d >= -tol) if isinstance(d, S.Sym) else abs(d) <= tol, '%s %s' % (g.param, w.param))
        if w.negative:
            h.true('negative control is drawn as such', not g.filled)
        else:
            h.true('positive control is drawn as such', g.filled)


def exact(g, want, loc):
    """lines of a box which some operation of that name acts on (the others only pass through)"""
    out = set()
    for w in want:
        t = [loc(q) for q in w.t]
        if g.span == list(range(min(t), max(t) + 1)) and w.kind == g.kind:
            out |= set(t)
    return out | set(g.c)


def hidden(w, l, loc):
    t = [loc(q) for q in w.t]
    return len(t) > 1 and l not in t and min(t) < l < max(t) and w.kind not in ('SwapGate', 'SqrtSwapGate', 'SqrtSwapGate+')


# ---------------------------------------------------------------- set-up
@contextlib.contextmanager
def scratch():
    """a directory of its own (the drawer writes its settings file there), values printed by number, output kept"""
    old, d = os.getcwd(), tempfile.mkdtemp(prefix='vf-pic-')
    js, out, inp = json.JSONEncoder.default, sys.stdout, builtins.input
    try:
        S.TOKENS = []
        os.chdir(d)
        json.JSONEncoder.default = lambda self, o: str(o)
        sys.stdout = io.StringIO()
        yield d
    finally:
        S.TOKENS = None
        json.JSONEncoder.default, sys.stdout, builtins.input = js, out, inp
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def setup(h, cls, n, last, alphabet, length, answers=None):
    """an engine with the drawer; how measurements are answered"""
    from projectq import MainEngine
    how = h.choice('outcomes', answers) if answers else 'default1'
    drawer = cls(accept_input=how == 'asked', default_measure=int(how == 'default1'))
    keep = Keep()
    eng = MainEngine(drawer, []) if last else MainEngine(keep, [drawer])
    given = []

    def ask(prompt=''):
        v = ['no', '2', ''][len(given) % 3] if len(given) % 2 == 0 else h.choice('answer%d' % len(given), '01')
        given.append(v)
        return v
    builtins.input = ask
    sys.modules[cls.__module__].input = ask
    return drawer, keep, eng, how, given


def feed(h, eng, first, prog, length, start, delivery):
    from projectq import ops
    cmds = [command(eng, ops.Allocate, ([i],)) for i in start]
    for _ in range(length):
        cmds.append(prog.next(eng))
    flush = command(eng, ops.FlushGate(), ([99],))
    if delivery == 'batch':
        cmds.insert(len(start), flush)
        first.receive(list(cmds))
    else:
        cmds.append(flush)
        for c in cmds:
            first.receive([c])
    return cmds


def real(cmds):
    from projectq import ops
    return [c for c in cmds if not isinstance(c.gate, type(ops.FlushGate()))]


def aftermath(h, eng, cmds, keep, last, how, given, n, length):
    """outcomes under the program's identity, forwarded commands unchanged"""
    from projectq import ops
    if not last:
        h.true('forwarded unchanged and in order', len(keep.cmds) == len(cmds) and all(a is b for a, b in zip(keep.cmds, cmds)))
        h.true('tags are kept', all([t.n for t in c.tags if isinstance(t, Mark)] == [1] for c in keep.cmds if c.gate == ops.Measure))
        h.true('no outcome is made up', not outcomes(eng, n, length) and not given)
        return
    want = {}
    ans = [int(v) for v in given if v in ('0', '1')]
    for c in cmds:
        if c.gate == ops.Measure:
            i = c.qubits[0][0].id
            v = ans.pop(0) if how == 'asked' else int(how == 'default1')
            want[50 + i if i % 2 else i] = v
    h.true('outcomes under the identity of the program', outcomes(eng, n, max(n, length)) == want, '%s %s' % (outcomes(eng, n, max(n, length)), want))
    h.true('questions asked', not ans and (how == 'asked' or not given))


def printer(h, n, alphabet, length, last=True, start=None, delivery='batch', answers=None):
    from projectq.backends import CommandPrinter
    with scratch():
        drawer, keep, eng, how, given = setup(h, CommandPrinter, n, last, alphabet, length, answers)
        start = list(range(n)) if start is None else start
        prog = Drawn(h, n, start, alphabet)
        cmds = feed(h, eng, drawer, prog, length, start, delivery)
        lines = [l for l in sys.stdout.getvalue().split('\n') if l]
        want = [Want(c) for c in real(cmds)]
        h.true('one line per operation', len(lines) == len(want), lines)
        for l, w in zip(lines, want):
            g = read_line(l)
            h.true('the line reads as an operation', g is not None, l)
            h.true('kind of operation', g.kind == w.kind, '%s %s' % (l, w))
            h.true('qubits', g.t == w.t and g.c == w.c, '%s %s' % (l, w))
            if w.param is not None:
                h.true('parameter shown', g.param is not None)
                h.same('parameter', g.param, w.param)
            h.true('negative control is drawn as such' if w.negative else 'positive control is drawn as such', not w.negative)
        aftermath(h, eng, cmds, keep, last, how, given, n, length)


def read_line(l):
    m = re.fullmatch(r'(.*) \| (.*)', l)
    if not m:
        return None
    name, qs = m.group(1), m.group(2)
    regs = re.findall(r'(?:Qubit|Qureg)\[([^\]]*)\]', qs)
    regs = [[int(a) for b in r.split(', ') for a in (range(int(b.split('-')[0]), int(b.split('-')[1]) + 1) if '-' in b else [b])] for r in regs]
    nc = len(re.match(r'C*', name).group(0))
    name = name[nc:]
    c = []
    if nc:
        c = regs.pop(0)
        if len(c) != nc:
            return None
    kind, param = box_name(name)
    kind = dict(Allocate='AllocateQubitGate', Deallocate='DeallocateQubitGate').get(kind, kind)
    return Got(kind, [i for r in regs for i in r], c, 0, 0, param)


def tikz(h, n, alphabet, length, last=True, perm=None, ordered=(0, 1), parallel=(1, 0), dims=False, twice=False, start=None, delivery='batch', answers=None):
    import projectq.backends._circuits._drawer as md
    import projectq.backends._circuits._to_latex as ml
    from projectq.backends import CircuitDrawer
    with scratch() as d:
        drawer, keep, eng, how, given = setup(h, CircuitDrawer, n, last, alphabet, length, answers)
        if perm:
            drawer.set_qubit_locations(dict(enumerate(perm)))
        loc = lambda i: perm[i] if perm and i < len(perm) else i
        start = list(range(n)) if start is None else start
        prog = Drawn(h, n, start, alphabet)
        cmds = feed(h, eng, drawer, prog, length, start, delivery)
        aftermath(h, eng, cmds, keep, last, how, given, n, length)
        want = [Want(c) for c in real(cmds)]
        if len({q for w in want for q in w.all}) < (len(perm) if perm else n):
            raise PathAbort
        o, p = bool(h.choice('ordered', ordered)), bool(h.choice('parallel', parallel))
        settings = ml.get_default_settings()
        settings['gates']['AllocateQubitGate']['draw_id'] = True
        if dims:
            for k, v in sorted(dims.items()):
                for e in v:
                    x = h.real('%s_%s' % (k, e), 0.01, 5)
                    settings['gates'].setdefault(k, {})[e] = x
        old = ml.get_default_settings
        ml.get_default_settings = lambda: settings
        try:
            texts = []
            for o2, p2 in [(o, p)] + ([(not o, True)] if twice else []):
                if os.path.exists('settings.json'):
                    os.remove('settings.json')
                texts.append((o2, p2, drawer.get_latex(ordered=o2, draw_gates_in_parallel=p2)))
        finally:
            ml.get_default_settings = old
        for o2, p2, text in texts:
            try:
                got, seq, horizontal, box = read_tikz(text)
            except Unreadable as e:
                h.fail('the picture can be read', str(e)[:300])
            compare(h, want, got, loc, 0.0006 * math.pi)
            layout(h, got, seq, horizontal, box, o2, p2, want, loc)


def layout(h, got, seq, horizontal, box, ordered, parallel, want, loc):
    """wires join neighbours, symbols stand in order and not in each other's way"""
    have = {}
    for a, b, shift in horizontal:
        have[tuple(sorted((a, b)))] = have.get(tuple(sorted((a, b))), 0) + 1
    need = 0
    for l, ns in seq.items():
        quantum = True
        for a, b in zip(ns, ns[1:]):
            if 'm' == a.get('kind'):
                pass
            k = have.get(tuple(sorted((a['name'], b['name']))), 0)
            h.true('symbols stand in order', a['x'] < b['x'] if not same_box(a, b, box) else a['x'] < b['x'] if isinstance(b['x'] - a['x'], S.Sym) or b['x'] != a['x'] else True, '%s %s' % (a['name'], b['name']))
            if same_box(a, b, box) or b['text'].startswith('$\\Ket'):
                h.true('no wire inside a box or before a qubit', k == 0, (a['name'], b['name']))
                continue
            need += 1
            if a['style'] == 'measure':
                quantum = False
            elif a['text'].startswith('$\\Ket') or a['name'] in box:
                quantum = True
            if a['style'] in ('measure',):
                h.true('classical wire after a measurement', k == 2, (a['name'], b['name']))
            elif quantum and (a['name'] in box or a['text'].startswith('$\\Ket')):
                h.true('quantum wire', k == 1, (a['name'], b['name']))
            else:
                h.true('neighbours are joined', k in (1, 2), (a['name'], b['name']))
    h.true('no other wires', len(have) == need, sorted(have))
    ext = []
    for g in got:
        ls = [n['y'] for n in g.nodes]
        ext.append((int(min(ls)), int(max(ls))))
    for j, b in enumerate(got):
        for i, a in enumerate(got[:j]):
            if ext[i][1] >= ext[j][0] and ext[j][1] >= ext[i][0] and (len(a.nodes) > 1 or len(b.nodes) > 1) and not (a.kind == 'AllocateQubitGate' and b.kind == 'AllocateQubitGate'):
                h.true('symbols are not in each other\'s way', a.x1 < b.x0, '%s %s' % (a, b))
            elif not parallel and a.kind != 'AllocateQubitGate' and b.kind != 'AllocateQubitGate':
                h.true('not in parallel', a.x1 < b.x0, '%s %s' % (a, b))
    if ordered:
        # drawn in the order of the program
        h.true('drawn in the order of the program', [(g.kind if g.kind != 'CZ' else 'ZGate', sorted(g.all - (set(g.span or ()) - exact(g, want, loc)))) for g in got]
               == [(w.kind, sorted(l for l in {loc(q) for q in w.all} if not hidden(w, l, loc))) for w in want], '%s %s' % (got, want))


def same_box(a, b, box):
    return a['name'] in box and box.get(b['name']) == box[a['name']]


# ---------------------------------------------------------------- matplotlib
def mpl(h, n, alphabet, length, last=True, order=None, delivery='batch', answers=None, twice=False, start=None):
    os.environ['MPLBACKEND'] = 'Agg'
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from projectq import ops
    from projectq.backends import CircuitDrawerMatplotlib
    with scratch():
        drawer, keep, eng, how, given = setup(h, CircuitDrawerMatplotlib, n, last, alphabet, length, answers)
        start = list(range(n)) if start is None else start
        prog = Drawn(h, n, start, alphabet)
        cmds = feed(h, eng, drawer, prog, length, start, delivery)
        aftermath(h, eng, cmds, keep, last, how, given, n, length)
        want = [Want(c) for c in real(cmds) if c.gate not in (ops.Allocate, ops.Deallocate)]
        ids = []
        for c in real(cmds):
            if c.gate == ops.Allocate and c.qubits[0][0].id not in ids:
                ids.append(c.qubits[0][0].id)
        if sorted(ids) != list(range(n)) or not want:
            raise PathAbort
        for _ in range(2 if twice else 1):
            kw = dict(drawing_order=dict(enumerate(order))) if order else {}
            loc = (lambda i: order[i]) if order else (lambda i: n - 1 - i)
            far = any(len(w.t) > 1 and w.kind not in ('SwapGate',) and max(loc(i) for i in w.t) - min(loc(i) for i in w.t) >= len(w.t) for w in want)
            try:
                fig, ax = drawer.draw(qubit_labels={i: 'q%d' % i for i in ids}, **kw)
            except RuntimeError as e:
                plt.close('all')
                h.true('refused only when a box would cover other wires', far and 'neighbouring' in str(e), str(e))
                return
            h.true('a box over other wires is refused', not far)
            try:
                got, labels = read_figure(ax, n)
            except Unreadable as e:
                h.fail('the figure can be read', str(e)[:300])
            finally:
                plt.close(fig)
            h.true('labels', labels == {loc(i): 'q%d' % i for i in ids}, labels)
            compare(h, want, got, loc, 0.0051)
            for g in got:
                lo, hi = min(g.all), max(g.all)
                for k in got:
                    if k is not g and abs(k.x0 - g.x0) < 1e-9 and len(g.all) > 1 and any(lo <= x <= hi for x in k.all):
                        wg = [w for w in want if {loc(q) for q in w.all} == g.all]
                        wk = [w for w in want if {loc(q) for q in w.all} == k.all]
                        later = len(k.all) == 1 and any(want.index(b) > want.index(a) for a in wg for b in wk)
                        h.true('a later one-qubit gate is not under a vertical line' if later else 'symbols are not in each other\'s way', False, '%s %s' % (g, k))


def read_figure(ax, n):
    import numpy as np
    from matplotlib.patches import Arc, Circle, Rectangle
    wires = None
    syms, circles, boxes, verticals = [], [], [], []
    for c in ax.collections:
        lab = c.get_label()
        if lab == 'qubit_wires':
            wires = sorted(s[0][1] for s in c.get_segments())
            spans = [(s[0][0], s[1][0]) for s in c.get_segments()]
            for s in c.get_segments():
                if s[0][1] != s[1][1]:
                    raise Unreadable('a wire is not level')
    if wires is None or len(wires) != n or any(b - a < 1e-9 for a, b in zip(wires, wires[1:])):
        raise Unreadable('wires %s' % wires)

    def wire(y):
        k = [i for i, w in enumerate(wires) if abs(w - y) < 1e-9]
        if len(k) != 1:
            raise Unreadable('nothing at height %s' % y)
        return k[0]
    left, right = min(a for a, b in spans), max(b for a, b in spans)
    for c in ax.collections:
        lab = c.get_label()
        if lab == 'qubit_wires':
            continue
        ext = [p.get_extents() for p in c.get_paths()]
        mid = lambda e: ((e.x0 + e.x1) / 2, (e.y0 + e.y1) / 2)
        if lab == 'NOT':
            x, y = mid(ext[0])
            if abs(mid(ext[1])[0] - x) > 1e-9 or abs(mid(ext[1])[1] - y) > 1e-9 or ext[1].height < ext[0].height * .99:
                raise Unreadable('cross')
            syms.append(Got('XGate', [wire(y)], [], x, x))
        elif lab == 'CZ':
            (x, a), (x2, b), (x3, m) = map(mid, ext)
            if abs(x - x2) > 1e-9 or abs(x - x3) > 1e-9 or abs(ext[2].height - abs(a - b)) > 1e-9:
                raise Unreadable('CZ')
            syms.append(Got('CZ', [wire(a), wire(b)], [], x, x))
        elif lab == 'SWAP':
            segs = c.get_segments()
            legs = {}
            for s in segs[:4]:
                p = s.mean(axis=0)
                legs.setdefault(wire(p[1]), []).append((p[0], np.sign((s[1] - s[0])[0] * (s[1] - s[0])[1])))
            x = segs[4][0][0]
            if len(segs) != 5 or len(legs) != 2 or any(sorted(v[1] for v in l) != [-1, 1] or any(abs(v[0] - x) > 1e-9 for v in l) for l in legs.values()) or {wire(segs[4][0][1]), wire(segs[4][1][1])} != set(legs):
                raise Unreadable('swap')
            syms.append(Got('SwapGate', sorted(legs), [], x, x))
        elif lab == 'Measure':
            x, y = mid(ext[0])
            syms.append(Got('MeasureGate', [wire(y)], [], x, x))
        else:
            raise Unreadable('collection %s' % lab)
    arcs = []
    for p in ax.patches:
        if isinstance(p, Arc):
            arcs.append(p)
        elif isinstance(p, Circle):
            fc = p.get_facecolor()
            circles.append((p.center[0], wire(p.center[1]), p.get_fill() and sum(fc[:3]) == 0))
        elif isinstance(p, Rectangle):
            boxes.append(p)
        else:
            raise Unreadable('patch')
    if len(arcs) != sum(s.kind == 'MeasureGate' for s in syms):
        raise Unreadable('measurement marks')
    labels = {}
    for t in ax.texts:
        x, y = t.get_position()
        s = t.get_text()
        own = [b for b in boxes if abs(b.get_x() + b.get_width() / 2 - x) < 1e-9 and abs(b.get_y() + b.get_height() / 2 - y) < 1e-9]
        if not own:
            if x >= left or wire(y) in labels:
                raise Unreadable('text %s outside a box' % s)
            labels[wire(y)] = s
            continue
        b = own[0]
        boxes.remove(b)
        span = [i for i, w in enumerate(wires) if b.get_y() < w < b.get_y() + b.get_height()]
        kind, param = box_name(s)
        if t.get_zorder() <= b.get_zorder():
            raise Unreadable('text behind its box')
        syms.append(Got(kind, span, [], x, x, param, span))
    if boxes:
        raise Unreadable('empty box')
    for l in ax.lines:
        (x, x2), (a, b) = l.get_data()
        if abs(x - x2) > 1e-9:
            raise Unreadable('line')
        verticals.append((x, wire(min(a, b)), wire(max(a, b))))
    # controls belong to the vertical line they sit on, which ends at symbols
    for x, a, b in verticals:
        cs = [c for c in circles if abs(c[0] - x) < 1e-9 and a <= c[1] <= b]
        own = [s for s in syms if abs(s.x0 - x) < 1e-9 and (a in s.all or b in s.all or any(a <= v <= b for v in s.all))]
        full = [s for s in own if {a, b} <= s.all | {c[1] for c in cs}]
        # the symbol joined by the line: the one at an end of it
        full = [s for s in full if any(e in s.all for e in (a, b)) or len(full) == 1]
        if not full or not cs:
            raise Unreadable('a vertical line joins nothing')
        s = full[0]
        for c in cs:
            circles.remove(c)
            if s.kind == 'CZ' and c[1] in s.t:
                continue
            s.c.append(c[1])
            s.filled = s.filled and c[2]
        s.c.sort()
        s.all = set(s.t) | set(s.c)
    if circles:
        raise Unreadable('a control without a line')
    for s in syms:
        if not left < s.x0 < right:
            raise Unreadable('symbol %s off the wires' % s)
    syms.sort(key=lambda s: s.x0)
    return syms, labels
