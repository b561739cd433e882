"""A small POSIX shell and the few programs the senders use, over a Vfs.

``Shell.run(text)`` is a generator: it yields before every effect (a number =
delay in seconds, or a callable = wait until true), so effects of concurrent
sessions interleave one by one.  It returns the exit status.
"""
import errno
import fnmatch
import hashlib
import os
import posixpath


class Killed(Exception):
    """The remote shell is killed by a signal: the session ends without an exit status."""


class Syntax(Exception):
    pass


class Exit(Exception):
    def __init__(self, code):
        self.code = code


KNOWN = {'rsync', 'dd', 'tee', 'install', 'find', 'xargs', 'python', 'python3', 'perl', 'awk', 'sed', 'tar', 'gzip',
         'ln', 'flock', 'sudo', 'timeout', 'nohup', 'bash', 'head', 'tail', 'grep', 'sleep'}
OPS = ['&&', '||', ';;', ';', '&', '|', '(', ')', '\n']


def lex(text):
    """Tokens: ('op', s), ('redir', fd, op), ('word', [(kind, text, quoted)])."""
    out = []
    i, n = 0, len(text)
    word = None

    def flush():
        nonlocal word
        if word is not None:
            out.append(('word', word))
            word = None

    def add(kind, s, q):
        nonlocal word
        if word is None:
            word = []
        if word and word[-1][0] == kind == 'lit' and word[-1][2] == q:
            word[-1] = ('lit', word[-1][1] + s, q)
        else:
            word.append((kind, s, q))

    def dollar(j, q):
        """text[j] == '$'; returns the next index."""
        k = j + 1
        if k < n and text[k] == '{':
            e = text.find('}', k)
            if e < 0:
                raise Syntax('bad substitution')
            add('var', text[k + 1:e], q)
            return e + 1
        if k < n and text[k] == '(':
            depth, e = 1, k + 1
            while e < n and depth:
                depth += {'(': 1, ')': -1}.get(text[e], 0)
                e += 1
            if depth:
                raise Syntax('unterminated $(')
            add('sub', text[k + 1:e - 1], q)
            return e
        if k < n and text[k] in '?$!#@*-':
            add('var', text[k], q)
            return k + 1
        e = k
        while e < n and (text[e].isalnum() and text[e].isascii() or text[e] == '_'):
            e += 1
        if e == k:
            add('lit', '$', q)
            return k
        add('var', text[k:e], q)
        return e

    while i < n:
        c = text[i]
        if c in ' \t':
            flush()
            i += 1
        elif c == '#' and word is None:
            e = text.find('\n', i)
            i = n if e < 0 else e
        elif c == "'":
            e = text.find("'", i + 1)
            if e < 0:
                raise Syntax('unterminated quoted string')
            add('lit', text[i + 1:e], True)
            i = e + 1
        elif c == '"':
            add('lit', '', True)
            i += 1
            while True:
                if i >= n:
                    raise Syntax('unterminated quoted string')
                c = text[i]
                if c == '"':
                    i += 1
                    break
                if c == '\\' and i + 1 < n and text[i + 1] in '$`"\\\n':
                    if text[i + 1] != '\n':
                        add('lit', text[i + 1], True)
                    i += 2
                elif c == '$':
                    i = dollar(i, True)
                elif c == '`':
                    e = text.find('`', i + 1)
                    if e < 0:
                        raise Syntax('unterminated `')
                    add('sub', text[i + 1:e], True)
                    i = e + 1
                else:
                    add('lit', c, True)
                    i += 1
        elif c == '\\':
            if i + 1 >= n:
                add('lit', '\\', True)
                i += 1
            else:
                if text[i + 1] != '\n':
                    add('lit', text[i + 1], True)
                i += 2
        elif c == '`':
            e = text.find('`', i + 1)
            if e < 0:
                raise Syntax('unterminated `')
            add('sub', text[i + 1:e], False)
            i = e + 1
        elif c == '$':
            i = dollar(i, False)
        elif c in '<>':
            fd = None
            if word is not None and len(word) == 1 and word[0][0] == 'lit' and not word[0][2] \
                    and word[0][1].isdigit():
                fd = int(word[0][1])
                word = None
            flush()
            for op in ('>>', '>&', '>|', '<<', '<&', '<>', '>', '<'):
                if text.startswith(op, i):
                    out.append(('redir', fd, op))
                    i += len(op)
                    break
        else:
            for op in OPS:
                if text.startswith(op, i):
                    flush()
                    out.append(('op', op))
                    i += len(op)
                    break
            else:
                add('lit', c, False)
                i += 1
    flush()
    return out


def plain(tok):
    """The unquoted literal text of a word token, or None."""
    if tok[0] == 'word' and len(tok[1]) == 1 and tok[1][0][0] == 'lit' and not tok[1][0][2]:
        return tok[1][0][1]
    return None


RESERVED = {'if', 'then', 'else', 'elif', 'fi', 'while', 'until', 'for', 'do', 'done', 'case', 'esac', '{', '}', '!'}


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def op(self, *ops):
        p = self.peek()
        return p[0] == 'op' and p[1] in ops

    def kw(self, *ws):
        return plain(self.peek()) in ws

    def skip(self):
        while self.op('\n', ';'):
            self.i += 1

    def program(self):
        r = self.list(())
        if self.peek()[0] != 'eof':
            raise Syntax(f'unexpected {self.peek()[1]!r}')
        return r

    def list(self, ends):
        out = []
        while self.op('\n'):
            self.i += 1
        while self.peek()[0] != 'eof' and not (ends and self.kw(*ends)) and not self.op(')'):
            a = self.andor()
            bg = False
            if self.op('&'):
                bg = True
                self.i += 1
            elif self.op(';', '\n'):
                self.i += 1
            elif self.peek()[0] != 'eof' and not (ends and self.kw(*ends)) and not self.op(')'):
                raise Syntax(f'unexpected {self.peek()[1]!r}')
            out.append((a, bg))
            while self.op('\n'):
                self.i += 1
        return ('list', out)

    def andor(self):
        items = [(None, self.pipe())]
        while self.op('&&', '||'):
            o = self.peek()[1]
            self.i += 1
            while self.op('\n'):
                self.i += 1
            items.append((o, self.pipe()))
        return ('andor', items)

    def pipe(self):
        neg = False
        while self.kw('!'):
            neg = not neg
            self.i += 1
        items = [self.command()]
        while self.op('|'):
            self.i += 1
            items.append(self.command())
        return ('pipe', neg, items)

    def redirs(self):
        out = []
        while self.peek()[0] == 'redir':
            _, fd, op = self.peek()
            self.i += 1
            w = self.peek()
            if w[0] != 'word':
                raise Syntax('redirection without a target')
            self.i += 1
            out.append((fd, op, w))
        return out

    def command(self):
        if self.op('('):
            self.i += 1
            b = self.list(())
            if not self.op(')'):
                raise Syntax('expected )')
            self.i += 1
            return ('group', b, self.redirs(), True)
        if self.kw('{'):
            self.i += 1
            b = self.list(('}',))
            if not self.kw('}'):
                raise Syntax('expected }')
            self.i += 1
            return ('group', b, self.redirs(), False)
        if self.kw('if'):
            self.i += 1
            arms = []
            while True:
                c = self.list(('then',))
                if not self.kw('then'):
                    raise Syntax('expected then')
                self.i += 1
                b = self.list(('else', 'elif', 'fi'))
                arms.append((c, b))
                if self.kw('elif'):
                    self.i += 1
                    continue
                break
            els = None
            if self.kw('else'):
                self.i += 1
                els = self.list(('fi',))
            if not self.kw('fi'):
                raise Syntax('expected fi')
            self.i += 1
            return ('if', arms, els, self.redirs())
        if self.kw('while', 'until', 'for', 'case'):
            return ('unsupported', plain(self.peek()))
        if self.kw('then', 'else', 'fi', 'do', 'done', 'esac', '}'):
            raise Syntax(f'unexpected {plain(self.peek())!r}')
        words, reds = [], []
        while True:
            p = self.peek()
            if p[0] == 'word':
                words.append(p)
                self.i += 1
            elif p[0] == 'redir':
                reds += self.redirs()
            else:
                break
        if self.op('('):
            raise Syntax('unexpected (')
        if not words and not reds:
            raise Syntax(f'unexpected {self.peek()[1]!r}')
        return ('simple', words, reds)


class Out:
    """Where a command's output goes."""

    def __init__(self, fn):
        self.fn = fn

    def write(self, b):
        return self.fn(b)


class Shell:
    """proc must offer: sim, vfs, home, out(bytes), err(bytes), stdin reader
    ``read()`` (generator returning all of stdin), scp(args, proc) generator."""

    def __init__(self, proc, cwd=None, env=None):
        self.p = proc
        self.sim, self.vfs = proc.sim, proc.vfs
        self.cwd = cwd or proc.home
        self.status = 0
        self.env = env or {'HOME': proc.home, 'USER': 'u', 'PATH': '/bin', 'PWD': self.cwd, 'SHELL': '/bin/sh'}

    def path(self, p):
        return self.vfs.norm(p, self.cwd)

    # -- expansion --------------------------------------------------------
    def expand(self, tok, split=True):
        """Generator returning the list of fields."""
        fields = [[]]       # each: list of (text, quoted)
        segs = tok[1]
        for idx, (kind, s, q) in enumerate(segs):
            if kind == 'lit':
                if idx == 0 and not q and s.startswith('~'):
                    head, sep, tail = s.partition('/')
                    if head == '~' and (sep or len(segs) == 1):
                        s = self.p.home.rstrip('/') + sep + tail
                        fields[-1].append((s, True))
                        continue
                fields[-1].append((s, q))
                continue
            if kind == 'var':
                v = {'?': str(self.status), '$': '777', '#': '0', '!': '', '@': '', '*': '', '-': ''}.get(s)
                if v is None:
                    if not all(c.isalnum() or c == '_' for c in s):
                        self.sim.unsupported('shell parameter ${' + s + '}')
                    v = self.env.get(s, '')
            else:
                buf = []
                sub = Shell(self.p, self.cwd, dict(self.env))
                self.status = yield from sub.run(s, out=Out(buf.append))
                v = b''.join(buf).decode('utf-8', 'surrogateescape').rstrip('\n')
            if q or not split:
                fields[-1].append((v, True))
            else:
                parts = v.split()
                if v[:1].isspace() and fields[-1]:
                    fields.append([])
                for j, w in enumerate(parts):
                    if j:
                        fields.append([])
                    fields[-1].append((w, False))
                if v[-1:].isspace():
                    fields.append([])
        out = []
        for f in fields:
            if not f:
                continue
            text = ''.join(t for t, _ in f)
            if all(not t and not q for t, q in f):
                continue
            if split and any(not q and any(c in t for c in '*?[') for t, q in f):
                pat = ''.join(t if not q else ''.join('[' + c + ']' if c in '*?[' else c for c in t) for t, q in f)
                m = self.glob(pat)
                if m:
                    out += m
                    continue
            out.append(text)
        return out

    def glob(self, pat):
        if pat.startswith('/'):
            cur = [('/', '/')]
        else:
            cur = [('', self.cwd)]
        parts = [x for x in pat.split('/') if x]
        for i, comp in enumerate(parts):
            nxt = []
            for shown, real in cur:
                if not self.vfs.isdir(real):
                    continue
                if any(c in comp for c in '*?['):
                    for nm in self.vfs.listdir(real):
                        if nm.startswith('.') and not comp.startswith('.'):
                            continue
                        if fnmatch.fnmatchcase(nm, comp):
                            nxt.append((posixpath.join(shown, nm), posixpath.join(real, nm)))
                else:
                    r = self.vfs.norm(comp, real)
                    if self.vfs.exists(r):
                        nxt.append((posixpath.join(shown, comp), r))
            cur = nxt
        return sorted(s for s, _ in cur)

    # -- execution --------------------------------------------------------
    def run(self, text, out=None, err=None):
        out = out or Out(self.p.out)
        err = err or Out(self.p.err)
        try:
            tree = Parser(lex(text)).program()
        except Syntax as e:
            err.write(f'sh: 1: Syntax error: {e}\n'.encode())
            return 2
        try:
            yield from self.ex(tree, None, out, err)
        except Exit as e:
            return e.code
        return self.status

    def ex(self, t, inp, out, err):
        k = t[0]
        if k == 'list':
            for a, bg in t[1]:
                yield from self.ex(a, inp, out, err)
                if bg:
                    self.status = 0
        elif k == 'andor':
            for o, p in t[1]:
                if o == '&&' and self.status != 0:
                    continue
                if o == '||' and self.status == 0:
                    continue
                yield from self.ex(p, inp, out, err)
        elif k == 'pipe':
            _, neg, items = t
            cur = inp
            for j, c in enumerate(items):
                if j < len(items) - 1:
                    buf = []
                    yield from self.ex(c, cur, Out(buf.append), err)
                    cur = b''.join(buf)
                else:
                    yield from self.ex(c, cur, out, err)
            if neg:
                self.status = 0 if self.status else 1
        elif k == 'group':
            _, body, reds, subsh = t
            r = yield from self.redirect(reds, inp, out, err)
            if r is not None:
                if subsh:
                    sub = Shell(self.p, self.cwd, dict(self.env))
                    sub.status = self.status
                    try:
                        yield from sub.ex(body, *r)
                        self.status = sub.status
                    except Exit as e:
                        self.status = e.code
                else:
                    yield from self.ex(body, *r)
        elif k == 'if':
            _, arms, els, reds = t
            r = yield from self.redirect(reds, inp, out, err)
            if r is None:
                return
            for c, b in arms:
                yield from self.ex(c, *r)
                if self.status == 0:
                    yield from self.ex(b, *r)
                    return
            if els is not None:
                yield from self.ex(els, *r)
            else:
                self.status = 0
        elif k == 'unsupported':
            self.sim.unsupported('shell ' + t[1])
        else:
            yield from self.simple(t, inp, out, err)

    def redirect(self, reds, inp, out, err):
        for fd, op, w in reds:
            f = yield from self.expand(w, split=False)
            name = f[0] if f else ''
            if op in ('>&', '<&'):
                if op == '>&' and name == '1' and fd == 2:
                    err = out
                elif op == '>&' and name == '2' and fd in (1, None):
                    out = err
                else:
                    self.sim.unsupported('redirection ' + op + name)
                continue
            if op == '<<' or op == '<>':
                self.sim.unsupported('redirection ' + op)
            path = self.path(name)
            yield 0.0003
            if op == '<':
                if not self.vfs.isfile(path):
                    err.write(f'sh: 1: cannot open {name}: No such file\n'.encode('utf-8', 'surrogateescape'))
                    self.status = 2
                    return None
                inp = self.vfs.nodes[path]
                continue
            if path == '/dev/null':
                sink = Out(lambda b: None)
            else:
                try:
                    k = self.sim.fault('ssh.open_w')
                    if k:
                        raise OSError(errno.EACCES, 'Permission denied')
                    if op == '>>' and self.vfs.isfile(path):
                        pass
                    else:
                        self.vfs.create(path)
                except OSError as e:
                    err.write(f'sh: 1: cannot create {name}: {e.strerror}\n'.encode('utf-8', 'surrogateescape'))
                    self.status = 2
                    return None

                def wr(b, path=path):
                    if self.sim.fault('ssh.write') or self.vfs.full:
                        self.vfs.full = True
                    self.vfs.append(path, b)
                sink = Out(wr)
            if fd in (None, 1):
                out = sink
            elif fd == 2:
                err = sink
            else:
                self.sim.unsupported(f'redirection of {fd}')
        return inp, out, err

    def simple(self, t, inp, out, err):
        _, words, reds = t
        env = {}
        args = []
        for w in words:
            first = w[1][0]
            if not args and first[0] == 'lit' and not first[2] and '=' in first[1]:
                nm = first[1].split('=', 1)[0]
                if nm.isidentifier() and nm.isascii():
                    v = yield from self.expand(('word', [('lit', first[1].split('=', 1)[1], first[2])] + w[1][1:]),
                                               split=False)
                    env[nm] = v[0] if v else ''
                    continue
            args += yield from self.expand(w)
        r = yield from self.redirect(reds, inp, out, err)
        if r is None:
            return
        inp, out, err = r
        if not args:
            self.env.update(env)
            self.status = 0
            return
        yield 0.0005
        name = args[0]
        self.sim.log('sh', self.p.label, ' '.join(a[:300] for a in args[:6]))
        f = getattr(self, 'do_' + name, None) if name not in ('[', ':') else {'[': self.do_test, ':': self.do_true}[name]
        if f is None:
            base = name.rsplit('/', 1)[-1]
            if name.startswith(('/bin/', '/usr/bin/')):
                f = getattr(self, 'do_' + base, None)
            if f is None:
                if base in KNOWN:
                    self.sim.unsupported('remote program ' + name)
                err.write(f'sh: 1: {name}: not found\n'.encode('utf-8', 'surrogateescape'))
                self.status = 127
                return
        if name in EXTERNAL:
            k = self.sim.fault('ssh.prog')
            if k == 'fail':
                err.write(f'{name}: Input/output error\n'.encode())
                self.status = 1
                return
            if k == 'killed':
                if self.sim.ch.chance(0.5):
                    raise Killed()      # the shell had become the program itself
                self.status = 137
                return
            if k == 'slow':
                yield 20.0
        try:
            st = yield from f(args, inp, out, err)
            self.status = st or 0
        except OSError as e:
            err.write(f'{name}: {e.strerror}\n'.encode('utf-8', 'surrogateescape'))
            self.status = 1

    # -- builtins ---------------------------------------------------------
    def do_true(self, a, inp, out, err):
        return 0
        yield

    def do_false(self, a, inp, out, err):
        return 1
        yield

    def do_exit(self, a, inp, out, err):
        raise Exit(int(a[1]) if len(a) > 1 else self.status)
        yield

    def do_set(self, a, inp, out, err):
        self.sim.unsupported('shell set')
        yield

    def do_export(self, a, inp, out, err):
        return 0
        yield

    do_umask = do_export

    def do_cd(self, a, inp, out, err):
        b = [x for x in a[1:] if x != '--']
        p = self.path(b[0]) if b else self.p.home
        if not self.vfs.isdir(p):
            err.write(b"sh: 1: cd: can't cd\n")
            return 2
        self.cwd = p
        self.env['PWD'] = p
        return 0
        yield

    def do_pwd(self, a, inp, out, err):
        out.write(self.cwd.encode() + b'\n')
        return 0
        yield

    def do_echo(self, a, inp, out, err):
        a = a[1:]
        nl = True
        if a and a[0] == '-n':
            nl = False
            a = a[1:]
        s = ' '.join(a)
        if getattr(self.sim, 'sh_escapes', False):
            s = escapes(s)
        out.write(s.encode('utf-8', 'surrogateescape') + (b'\n' if nl else b''))
        return 0
        yield

    def do_printf(self, a, inp, out, err):
        if len(a) > 1 and a[1] == '--':
            a = a[:1] + a[2:]
        if len(a) < 2:
            err.write(b'printf: usage\n')
            return 2
        fmt, rest = a[1], list(a[2:])
        res = ''
        while True:
            i = 0
            used = False
            while i < len(fmt):
                c = fmt[i]
                if c == '\\':
                    s, i = one_escape(fmt, i)
                    res += s
                elif c == '%':
                    d = fmt[i + 1:i + 2]
                    if d == '%':
                        res += '%'
                    elif d in 'sb' and d:
                        v = rest.pop(0) if rest else ''
                        used = True
                        res += escapes(v) if d == 'b' else v
                    elif d == 'd':
                        v = rest.pop(0) if rest else '0'
                        used = True
                        res += v
                    else:
                        err.write(b'printf: bad conversion\n')
                        out.write(res.encode('utf-8', 'surrogateescape'))
                        return 1
                    i += 2
                else:
                    res += c
                    i += 1
            if not rest or not used:
                break
        out.write(res.encode('utf-8', 'surrogateescape'))
        return 0
        yield

    def do_test(self, a, inp, out, err):
        if a[0] == '[':
            if a[-1] != ']':
                err.write(b'sh: 1: [: missing ]\n')
                return 2
            a = a[:-1]
        a = a[1:]
        yield 0.0002

        def bad():
            err.write(b'sh: 1: [: unexpected operator\n')
            return 2

        def unary(o, x):
            p = self.path(x) if x else None
            v = self.vfs
            if o == '-e':
                return bool(x) and v.exists(p) and not (x.endswith('/') and v.isfile(p))
            if o == '-f':
                return bool(x) and v.isfile(p) and not x.endswith('/')
            if o == '-d':
                return bool(x) and v.isdir(p)
            if o == '-s':
                return bool(x) and v.exists(p) and (v.isdir(p) or bool(v.nodes[p]))
            if o in ('-r', '-w', '-x'):
                return bool(x) and v.exists(p)
            if o in ('-L', '-h'):
                return False
            if o == '-z':
                return x == ''
            if o == '-n':
                return x != ''
            return None

        def ev(b):
            n = len(b)
            if n == 0:
                return False
            if n == 1:
                return b[0] != ''
            if n == 2:
                if b[0] == '!':
                    return b[1] == ''
                return unary(b[0], b[1])
            if n == 3:
                if b[1] in ('=', '=='):
                    return b[0] == b[2]
                if b[1] == '!=':
                    return b[0] != b[2]
                if b[1] in ('-eq', '-ne', '-lt', '-gt', '-le', '-ge'):
                    try:
                        x, y = int(b[0]), int(b[2])
                    except ValueError:
                        return None
                    return {'-eq': x == y, '-ne': x != y, '-lt': x < y, '-gt': x > y, '-le': x <= y,
                            '-ge': x >= y}[b[1]]
                if b[0] == '!':
                    r = ev(b[1:])
                    return None if r is None else not r
            if n > 3:
                for o in ('-o', '-a'):
                    for i in range(1, n - 1):
                        if b[i] == o:
                            l, r = ev(b[:i]), ev(b[i + 1:])
                            if l is None or r is None:
                                return None
                            return (l or r) if o == '-o' else (l and r)
                if b[0] == '!':
                    r = ev(b[1:])
                    return None if r is None else not r
            return None
        r = ev(a)
        if r is None:
            return bad()
        return 0 if r else 1

    # -- programs ---------------------------------------------------------
    def opts(self, a, flags, err, witharg=''):
        """Minimal getopt: (set of flags, {flag: value}, operands) or None."""
        got, vals, rest = set(), {}, []
        i = 1
        end = False
        while i < len(a):
            x = a[i]
            if end or not x.startswith('-') or x == '-':
                rest.append(x)
            elif x == '--':
                end = True
            elif x.startswith('--'):
                nm = {'--parents': 'p', '--force': 'f', '--recursive': 'r', '--no-target-directory': 'T',
                      '--no-clobber': 'n', '--verbose': 'v'}.get(x)
                if nm is None:
                    err.write(f'{a[0]}: unrecognized option {x}\n'.encode('utf-8', 'surrogateescape'))
                    return None
                got.add(nm)
            else:
                j = 1
                while j < len(x):
                    c = x[j]
                    if c in witharg:
                        if j + 1 < len(x):
                            vals[c] = x[j + 1:]
                        else:
                            i += 1
                            vals[c] = a[i] if i < len(a) else ''
                        break
                    if c not in flags:
                        err.write(f'{a[0]}: invalid option -- {c}\n'.encode('utf-8', 'surrogateescape'))
                        return None
                    got.add(c)
                    j += 1
            i += 1
        return got, vals, rest

    def do_mkdir(self, a, inp, out, err):
        o = self.opts(a, 'pv', err, 'm')
        if o is None:
            return 1
        got, _, rest = o
        if not rest:
            err.write(b'mkdir: missing operand\n')
            return 1
        st = 0
        for r in rest:
            try:
                if 'p' in got:
                    full = self.path(r)
                    parts = full.split('/')
                    for i in range(2, len(parts) + 1):
                        q = '/'.join(parts[:i])
                        if self.vfs.isdir(q) or not q:
                            continue
                        yield 0.0002
                        if self.vfs.isdir(q):
                            continue
                        self.vfs.mkdir(q)
                else:
                    self.vfs.mkdir(self.path(r))
            except OSError as e:
                err.write(f"mkdir: cannot create directory '{r}': {e.strerror}\n".encode('utf-8', 'surrogateescape'))
                st = 1
        return st

    def do_rmdir(self, a, inp, out, err):
        for r in a[1:]:
            self.vfs.rmdir(self.path(r))
        return 0
        yield

    def do_mv(self, a, inp, out, err):
        o = self.opts(a, 'fnTvi', err)
        if o is None:
            return 1
        got, _, rest = o
        if len(rest) < 2:
            err.write(b'mv: missing file operand\n')
            return 1
        dst = rest[-1]
        d = self.path(dst)
        todir = self.vfs.isdir(d) and 'T' not in got
        if len(rest) > 2 and not todir:
            err.write(f"mv: target '{dst}' is not a directory\n".encode('utf-8', 'surrogateescape'))
            return 1
        st = 0
        for s in rest[:-1]:
            yield 0.0002
            sp = self.path(s)
            to = posixpath.join(d, posixpath.basename(sp)) if todir else d
            try:
                if not self.vfs.exists(sp) or (s.endswith('/') and self.vfs.isfile(sp)):
                    raise OSError(errno.ENOENT, 'No such file or directory')
                if sp == to:
                    raise OSError(errno.EINVAL, 'are the same file')
                if dst.endswith('/') and not todir and self.vfs.isfile(sp):
                    raise OSError(errno.ENOTDIR, 'Not a directory')
                if 'n' in got and self.vfs.exists(to):
                    continue
                if self.vfs.isdir(sp) and self.vfs.isfile(to):
                    raise OSError(errno.ENOTDIR, 'cannot overwrite non-directory')
                self.vfs.rename(sp, to)
            except OSError as e:
                err.write(f"mv: cannot move '{s}': {e.strerror}\n".encode('utf-8', 'surrogateescape'))
                st = 1
        return st

    def do_rm(self, a, inp, out, err):
        o = self.opts(a, 'frRv', err)
        if o is None:
            return 1
        got, _, rest = o
        st = 0
        if not rest and 'f' not in got:
            err.write(b'rm: missing operand\n')
            return 1
        for r in rest:
            p = self.path(r)
            yield 0.0002
            try:
                if not self.vfs.exists(p):
                    if 'f' not in got:
                        raise OSError(errno.ENOENT, 'No such file or directory')
                elif self.vfs.isdir(p):
                    if not got & {'r', 'R'}:
                        raise OSError(errno.EISDIR, 'Is a directory')
                    for q in sorted((q for q in self.vfs.nodes if q.startswith(p.rstrip('/') + '/')), reverse=True):
                        yield 0.0001
                        if self.vfs.isfile(q):
                            self.vfs.unlink(q)
                        elif self.vfs.isdir(q):
                            self.vfs.rmdir(q)
                    self.vfs.rmdir(p)
                else:
                    self.vfs.unlink(p)
            except OSError as e:
                err.write(f"rm: cannot remove '{r}': {e.strerror}\n".encode('utf-8', 'surrogateescape'))
                st = 1
        return st

    def do_cp(self, a, inp, out, err):
        o = self.opts(a, 'fprTv', err)
        if o is None:
            return 1
        got, _, rest = o
        if len(rest) != 2:
            self.sim.unsupported('cp with several operands')
        s, d = self.path(rest[0]), self.path(rest[1])
        if not self.vfs.isfile(s):
            raise OSError(errno.ENOENT, 'No such file or directory')
        if self.vfs.isdir(d):
            d = posixpath.join(d, posixpath.basename(s))
        data = self.vfs.nodes[s]
        self.vfs.create(d)
        for i in range(0, len(data), 8192):
            yield 0.0003
            self.write(d, data[i:i + 8192])
        return 0

    def write(self, p, data):
        if self.sim.fault('ssh.write'):
            self.vfs.full = True
        self.vfs.append(p, data)

    def do_cat(self, a, inp, out, err):
        st = 0
        names = [x for x in a[1:] if x != '--']
        if not names:
            data = inp if inp is not None else (yield from self.p.read_all())
            for i in range(0, len(data), 8192):
                out.write(data[i:i + 8192])
                yield 0.0003
            return 0
        for r in names:
            p = self.path(r)
            if not self.vfs.isfile(p):
                err.write(f'cat: {r}: No such file or directory\n'.encode('utf-8', 'surrogateescape'))
                st = 1
                continue
            out.write(self.vfs.nodes[p])
            yield 0.0003
        return st

    def do_touch(self, a, inp, out, err):
        for r in a[1:]:
            if r == '--':
                continue
            p = self.path(r)
            if not self.vfs.exists(p):
                if self.vfs.full:
                    raise OSError(errno.ENOSPC, 'No space left on device')
                self.vfs.create(p)
            yield 0.0002
        return 0

    def do_ls(self, a, inp, out, err):
        o = self.opts(a, 'a1ldA', err)
        if o is None:
            return 2
        st = 0
        for r in o[2] or ['.']:
            p = self.path(r)
            if not self.vfs.exists(p):
                err.write(f"ls: cannot access '{r}': No such file or directory\n".encode('utf-8', 'surrogateescape'))
                st = 2
            elif self.vfs.isfile(p) or 'd' in o[0]:
                out.write(r.encode('utf-8', 'surrogateescape') + b'\n')
            else:
                for n in self.vfs.listdir(p):
                    if not n.startswith('.') or o[0] & {'a', 'A'}:
                        out.write(n.encode('utf-8', 'surrogateescape') + b'\n')
        return st
        yield

    def do_stat(self, a, inp, out, err):
        if len(a) == 4 and a[1] == '-c' and a[2] == '%s' and self.vfs.exists(self.path(a[3])):
            out.write(b'%d\n' % len(self.vfs.nodes[self.path(a[3])] or b''))
            return 0
        if len(a) == 4 and a[1] == '-c' and a[2] != '%s':
            self.sim.unsupported('stat ' + a[2])
        err.write(b'stat: cannot stat\n')
        return 1
        yield

    def do_wc(self, a, inp, out, err):
        if '-c' not in a:
            self.sim.unsupported('wc')
        names = [x for x in a[1:] if x not in ('-c', '--')]
        if not names:
            data = inp if inp is not None else (yield from self.p.read_all())
            out.write(b'%d\n' % len(data))
            return 0
        for r in names:
            p = self.path(r)
            if not self.vfs.isfile(p):
                err.write(b'wc: No such file\n')
                return 1
            out.write(b'%d ' % len(self.vfs.nodes[p]) + r.encode('utf-8', 'surrogateescape') + b'\n')
        return 0

    def _sum(self, algo):
        def f(a, inp, out, err):
            for r in a[1:]:
                if r == '--':
                    continue
                p = self.path(r)
                if not self.vfs.isfile(p):
                    err.write(b'No such file\n')
                    return 1
                h = hashlib.new(algo, self.vfs.nodes[p]).hexdigest()
                out.write(h.encode() + b'  ' + r.encode('utf-8', 'surrogateescape') + b'\n')
            return 0
            yield
        return f

    @property
    def do_md5sum(self):
        return self._sum('md5')

    @property
    def do_sha256sum(self):
        return self._sum('sha256')

    def do_chmod(self, a, inp, out, err):
        rest = [x for x in a[1:] if x != '--']
        for r in rest[1:]:
            p = self.path(r)
            if not self.vfs.exists(p):
                raise OSError(errno.ENOENT, 'No such file or directory')
            try:
                self.vfs.modes[p] = int(rest[0], 8)
            except ValueError:
                self.sim.unsupported('chmod ' + rest[0])
        return 0
        yield

    def do_sync(self, a, inp, out, err):
        return 0
        yield

    def do_mktemp(self, a, inp, out, err):
        o = self.opts(a, 'd', err)
        if o is None or len(o[2]) != 1:
            self.sim.unsupported('mktemp')
        self.p.server.nmk += 1
        r = o[2][0].replace('XXXXXX', 'mk%04d' % self.p.server.nmk)
        if 'd' in o[0]:
            self.vfs.mkdir(self.path(r))
        else:
            self.vfs.create(self.path(r))
        out.write(r.encode() + b'\n')
        return 0
        yield

    def do_basename(self, a, inp, out, err):
        out.write(posixpath.basename(a[1].rstrip('/')).encode() + b'\n')
        return 0
        yield

    def do_dirname(self, a, inp, out, err):
        out.write((posixpath.dirname(a[1].rstrip('/')) or '.').encode() + b'\n')
        return 0
        yield

    def do_sh(self, a, inp, out, err):
        if len(a) >= 3 and a[1] == '-c':
            sub = Shell(self.p, self.cwd, dict(self.env))
            return (yield from sub.run(a[2], out, err))
        self.sim.unsupported('sh')

    def do_scp(self, a, inp, out, err):
        return (yield from self.p.scp(self, a, err))


EXTERNAL = {'mkdir', 'mv', 'rm', 'cp', 'cat', 'touch', 'ls', 'stat', 'wc', 'md5sum', 'sha256sum', 'chmod', 'rmdir',
            'mktemp', 'sync', 'scp', '/bin/mv', '/bin/mkdir', '/bin/rm'}


def one_escape(s, i):
    c = s[i + 1:i + 2]
    m = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}
    if c in m and c:
        return m[c], i + 2
    if c and c in '01234567':
        j = i + 1
        while j < len(s) and j < i + 5 and s[j] in '01234567':
            j += 1
        return chr(int(s[i + 1:j], 8) & 255), j
    return '\\', i + 1


def escapes(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1:i + 2] == 'c':
                return out
            x, i = one_escape(s, i)
            out += x
        else:
            out += s[i]
            i += 1
    return out
