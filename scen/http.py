"""Scripted HTTP answers for the simulated web servers."""
import socket

from sim import net

BAD = ['500', '404', '429', '403', '400', '502', '504', '304', '300', 'refused', 'dns', 'close', 'reset', 'trunc', 'trunc0', 'stall', 'stallmid',
       'garbage', 'resetmid']
REASON = {'200': 'OK', '503': 'Service Unavailable', '500': 'Internal Server Error', '404': 'Not Found'}


class Script:
    """Hands one outcome to each connection; body(req) gives the payload of a
    complete answer."""

    def __init__(self, sim, hosts, body, outcomes, framings=('length', 'chunked', 'close'), trunc_framings=None,
                 stall=True, extra=None):
        self.sim, self.body, self.outcomes = sim, body, list(outcomes)
        self.framings = framings
        self.trunc_framings = trunc_framings or framings
        self.attempts = []
        self.extra = extra or {}
        for h in hosts:
            for p in (80, 443):
                net.HOSTS[(h, p)] = lambda c: self.connect(c)

    def connect(self, conn):
        o = self.outcomes.pop(0) if self.outcomes else 'ok'
        a = dict(o=o, t=self.sim.now, path=None, host=conn.host)
        self.attempts.append(a)
        if o != 'ok':
            self.sim.note_fault('http:' + o)
        if o == 'refused':
            return None
        if o == 'dns':
            raise socket.gaierror(-2, 'Name or service not known')
        return Session(conn, self, a)


class Session(net.Handler):
    def __init__(self, conn, script, att):
        super().__init__(conn)
        self.script, self.att = script, att
        self.done = False

    def on_data(self, data):
        if self.done:
            return
        self.buf += data
        if b'\r\n\r\n' not in self.buf:
            return
        self.done = True
        head = self.buf.split(b'\r\n\r\n')[0].decode('latin-1')
        first = head.split('\r\n')[0].split(' ')
        a = self.att
        a['path'] = first[1] if len(first) > 1 else ''
        sim = self.sim
        sim.log('http', a['host'] + a['path'], a['o'])
        ch = sim.ch
        o = a['o']
        sc = self.script
        if o == 'close':
            return self.conn.close()
        if o == 'reset':
            return self.conn.kill(quiet=True)
        if o == 'stall':
            return
        if o == 'garbage':
            self.conn.reply(b'<html>no http here\x00\xff\n\n', fault=False)
            return self.conn.close()
        if o in sc.extra:
            status, body = '200', sc.extra[o](a)
        elif o.isdigit():
            status, body = o, b'<html>error</html>'
        else:
            status, body = '200', sc.body(a)
        trunc = o in ('trunc', 'trunc0', 'stallmid', 'resetmid')
        framing = ch.pick(list(sc.trunc_framings if trunc else sc.framings))
        h = f'HTTP/1.1 {status} {REASON.get(status, "X")}\r\nConnection: close\r\n'
        h += 'Content-Type: ' + ch.pick(['text/plain', 'application/json; charset=utf-8', 'application/octet-stream']) + '\r\n'
        if status != '200' and ch.chance(0.4):
            h += 'Retry-After: ' + ch.pick(['0', '1', '120', 'Wed, 15 Nov 2023 07:28:00 GMT']) + '\r\n'
        if framing == 'length':
            h += f'Content-Length: {len(body)}\r\n'
            pay = body
        elif framing == 'chunked':
            h += 'Transfer-Encoding: chunked\r\n'
            i = 1 + ch.draw(max(1, len(body)))
            pay = b''.join(b'%x\r\n%s\r\n' % (len(c), c) for c in (body[:i], body[i:]) if c) + b'0\r\n\r\n'
        else:
            pay = body
        whole = h.encode() + b'\r\n' + pay
        if trunc and framing == 'length' and not body:
            a['o'] = 'ok'       # nothing is missing
        if trunc:
            hl = len(whole) - len(pay)
            # cut inside the payload so that something of the content is missing
            keep = 0 if o == 'trunc0' else ch.draw(max(1, len(body.rstrip())))
            whole = whole[:hl + min(keep, len(pay) - 1 if pay else 0)]
            self.conn.reply(whole, fault=False)
            if o in ('trunc', 'trunc0'):
                self.conn.close()
            elif o == 'resetmid':
                self.conn.kill(quiet=True, after=True)
            return
        t = 0.0
        parts = [whole]
        if ch.chance(0.3) and len(whole) > 2:
            i = 1 + ch.draw(len(whole) - 1)
            parts = [whole[:i], whole[i:]]
        for p in parts:
            if ch.chance(0.15):
                t += ch.pick([0.5, 4.0])
            if t:
                sim.at(t, lambda p=p: self.conn.reply(p, fault=False))
            else:
                self.conn.reply(p, fault=False)
        sim.at(t + 1e-4, self.conn.close)


def walk(att, nurls, pause=0.5, ok='ok'):
    """Model of nurls fetches with one retry of 503. Returns ('ok'|'raise',
    number of attempts, problem)."""
    i = 0
    for _ in range(nurls):
        if i >= len(att):
            return 'raise', i, 'no request'
        o = att[i]['o']
        i += 1
        if o == '503':
            if i >= len(att):
                return 'raise', i, 'an unavailable service was not retried'
            if att[i]['t'] - att[i - 1]['t'] < pause:
                return 'raise', i, 'retried without a pause'
            if att[i]['path'] is not None and att[i]['path'] != att[i - 1]['path']:
                return 'raise', i, 'another resource was requested instead of retrying'
            o = att[i]['o']
            i += 1
        if o != ok:
            return 'raise', i, None
    return 'ok', i, None


def install():
    net.install()
    import ssl
    ctx = ssl.create_default_context()
    ssl._create_default_https_context = lambda *a, **k: ctx
    orig = ssl.create_default_context
    ssl.create_default_context = lambda *a, **k: ctx if not a and not k else orig(*a, **k)
