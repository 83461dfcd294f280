"""Reader for Breakpad symbol files (only what the oracles need)."""
import re


class Sym:
    pass


def parse(data):
    """-> Sym, or raises ValueError on a malformed or truncated file"""
    s = Sym()
    s.module = s.code_id = None
    s.files, s.origins = {}, {}
    s.funcs, s.publics = {}, {}
    s.stack, s.info = [], []
    s.order = []
    if not data:
        raise ValueError('empty')
    if not data.endswith(b'\n'):
        raise ValueError('last line is not terminated')
    cur = None
    for ln in data.decode('utf8', 'replace').split('\n')[:-1]:
        k, _, rest = ln.partition(' ')
        if k == 'MODULE':
            if s.module:
                raise ValueError('second MODULE line')
            s.module = ln
        elif s.module is None:
            raise ValueError('no MODULE line first')
        elif k == 'INFO':
            s.info.append(ln)
            if rest.startswith('CODE_ID'):
                s.code_id = rest
            cur = None
        elif k == 'FILE':
            n, _, p = rest.partition(' ')
            if int(n) in s.files:
                raise ValueError('FILE %s twice' % n)
            s.files[int(n)] = p
            cur = None
        elif k == 'INLINE_ORIGIN':
            n, _, p = rest.partition(' ')
            if int(n) in s.origins:
                raise ValueError('INLINE_ORIGIN %s twice' % n)
            s.origins[int(n)] = p
            cur = None
        elif k == 'FUNC':
            a = ln.split(' ')
            m = a[1] == 'm'
            if m:
                del a[1]
            addr = int(a[1], 16)
            if addr in s.funcs or addr in s.publics:
                raise ValueError('two symbols at %x' % addr)
            cur = {'addr': addr, 'm': m, 'size': int(a[2], 16), 'psize': int(a[3], 16), 'name': ' '.join(a[4:]), 'lines': [], 'inlines': []}
            s.funcs[addr] = cur
            s.order.append(addr)
        elif k == 'PUBLIC':
            a = ln.split(' ')
            m = a[1] == 'm'
            if m:
                del a[1]
            addr = int(a[1], 16)
            if addr in s.funcs or addr in s.publics:
                raise ValueError('two symbols at %x' % addr)
            s.publics[addr] = {'addr': addr, 'm': m, 'psize': int(a[2], 16), 'name': ' '.join(a[3:])}
            s.order.append(addr)
            cur = None
        elif k == 'STACK':
            s.stack.append(ln)
            cur = None
        elif k == 'INLINE':
            if cur is None:
                raise ValueError('INLINE outside FUNC')
            a = rest.split(' ')
            f, o = int(a[2]), int(a[3])
            if f not in s.files or o not in s.origins:
                raise ValueError('INLINE uses an undefined number: ' + ln)
            cur['inlines'].append((int(a[0]), int(a[1]), s.files[f], s.origins[o], tuple(a[4:])))
        else:
            if cur is None:
                raise ValueError('unexpected line %r' % ln[:80])
            a = ln.split(' ')
            if len(a) != 4:
                raise ValueError('bad line record %r' % ln[:80])
            f = int(a[3])
            if f not in s.files:
                raise ValueError('line uses an undefined file: ' + ln)
            cur['lines'].append((int(a[0], 16), int(a[1], 16), int(a[2]), s.files[f]))
    if s.module is None:
        raise ValueError('no MODULE line')
    if s.order != sorted(s.order):
        raise ValueError('symbols out of order')
    return s


_X = r'[0-9a-f]{1,8}'
_REC = {
    'MODULE': re.compile(r'MODULE \S+ \S+ [0-9A-Fa-f]{32,41} .*\S.*'),
    'INFO': re.compile(r'INFO \S.*'),
    'FILE': re.compile(r'FILE (\d+) .*'),
    'INLINE_ORIGIN': re.compile(r'INLINE_ORIGIN (\d+) .*\S.*'),
    'FUNC': re.compile(r'FUNC (?:m )?(%s) (%s) %s .*' % (_X, _X, _X)),
    'PUBLIC': re.compile(r'PUBLIC (?:m )?(%s) %s .*' % (_X, _X)),
    'INLINE': re.compile(r'INLINE (\d+) \d+ (\d+) (\d+)(?: %s %s)+' % (_X, _X)),
    'STACK': re.compile(r'STACK (?:CFI INIT [0-9a-f]+ [0-9a-f]+ (?:\S+: .*)?|CFI [0-9a-f]+ (?:\S+: .*)?|WIN [04](?: [0-9a-f]+){8} [01] .*)'),
}
_LINE = re.compile(r'(%s) (%s) (\d+) (\d+)' % (_X, _X))
_RANK = {'MODULE': 0, 'INFO': 1, 'FILE': 2, 'INLINE_ORIGIN': 3, 'FUNC': 4, 'PUBLIC': 4, 'INLINE': 4, 'line': 4, 'STACK': 5}


def validate(data):
    """every line is one Breakpad record, in order, with all its references resolved -> None or what is wrong"""
    if not data.endswith(b'\n'):
        return 'the last line is not terminated'
    try:
        text = data.decode('utf8')
    except UnicodeDecodeError as e:
        return 'not UTF-8: %s' % e
    m = re.search('[\x00-\x09\x0b-\x1f\x7f]', text)
    if m:
        return 'control character %r in the line %r' % (m.group(), text[text.rfind('\n', 0, m.start()) + 1:][:100].split('\n')[0])
    rank = nfile = norig = 0
    last = -1
    infunc = False
    for i, ln in enumerate(text.split('\n')[:-1]):
        k = ln.split(' ', 1)[0]
        if k not in _REC:
            k = 'line'
        rx = _LINE if k == 'line' else _REC[k]
        m = rx.fullmatch(ln)
        if not m:
            return 'line %d is not a valid record: %r' % (i + 1, ln[:120])
        if (i == 0) != (k == 'MODULE'):
            return 'line %d: %r' % (i + 1, ln[:120])
        if _RANK[k] < rank:
            return 'line %d: a %s record after later kinds: %r' % (i + 1, k, ln[:120])
        rank = _RANK[k]
        if k == 'FILE':
            if int(m.group(1)) != nfile:
                return 'line %d: files are not numbered consecutively: %r' % (i + 1, ln[:120])
            nfile += 1
        elif k == 'INLINE_ORIGIN':
            if int(m.group(1)) != norig:
                return 'line %d: inline origins are not numbered consecutively: %r' % (i + 1, ln[:120])
            norig += 1
        elif k in ('FUNC', 'PUBLIC'):
            a = int(m.group(1), 16)
            if a <= last:
                return 'line %d: addresses do not increase: %r' % (i + 1, ln[:120])
            last = a
            infunc = k == 'FUNC'
        elif k in ('INLINE', 'line'):
            if not infunc:
                return 'line %d: outside a function: %r' % (i + 1, ln[:120])
            f = int(m.group(4 if k == 'line' else 2))
            if f >= nfile or k == 'INLINE' and int(m.group(3)) >= norig:
                return 'line %d: a number that is not defined: %r' % (i + 1, ln[:120])
    return None


def fkey(f):
    return (f['addr'], f['size'], f['psize'], f['name'], tuple(f['lines']), tuple(sorted(f['inlines'])))


def blocks(data):
    """split a stream of concatenated symbol files at MODULE lines"""
    out = []
    pos = [m.start() for m in re.finditer(rb'^MODULE ', data, re.M)]
    if data and (not pos or pos[0] != 0):
        return None
    for a, b in zip(pos, pos[1:] + [len(data)]):
        out.append(data[a:b])
    return out


def attribution(s):
    """digest of which source files the lines and inlined calls of each function are said to be in"""
    import hashlib
    return hashlib.sha1(repr([(a, sorted({l[3] for l in f['lines']} | {i[2] for i in f['inlines']})) for a, f in sorted(s.funcs.items())]).encode()).hexdigest()
