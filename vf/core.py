"""Running units of operations on the real code and judging them with the
Quint specification."""
import glob, json, os, queue, re, select, shutil, subprocess, sys, tempfile, threading, time
from dataclasses import dataclass, field

sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
CORES = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """The machinery itself failed (no verdict)."""


@dataclass
class Op:
    """One call. op is area_name; xs integers, ss octet strings, aux what only
    the driver needs. want: the outcome a specification behaviour prescribes
    (replay of behaviours), None if the specification judges the record."""
    op: str
    xs: list = field(default_factory=list)
    ss: list = field(default_factory=list)
    aux: list = field(default_factory=list)
    want: object = None
    cost: float = 1.0           # judging cost, in arbitrary units
    silent: bool = False        # not judged
    # what came back
    ok: bool = None
    ri: list = None
    rs: list = None
    exc: str = ''
    hang: str = ''              # 'hang' or 'died'

    def wire(self):
        return {'op': self.op, 'xs': [str(x) for x in self.xs], 'ss': [s.hex() for s in self.ss],
                'aux': [str(a) for a in self.aux]}

    def key(self):
        return (self.op, tuple(self.xs), tuple(self.ss), self.ok, tuple(self.ri or ()), tuple(self.rs or ()))

    def shown(self, limit=400):
        def short(v):
            v = str(v)
            return v if len(v) <= 140 else v[:100] + '...(%d)' % len(v)
        d = {'op': self.op, 'xs': [short(x) for x in self.xs[:24]], 'ss': [short(s.hex()) for s in self.ss[:8]]}
        if self.hang:
            d['outcome'] = self.hang
        elif self.ok:
            d['returned'] = [short(x) for x in (self.ri or [])[:24]] + [short(s.hex()) for s in (self.rs or [])[:6]]
        else:
            d['raised'] = self.exc
        if self.exc and self.ok:
            d['note'] = self.exc
        if self.want is not None:
            d['specified'] = short(self.want)
        return d


class Hang(Exception):
    pass


class Died(Exception):
    pass


class Driver:
    """A Jython process with the tree under test."""

    def __init__(self, scratch, log):
        self.scratch, self.log, self.p = scratch, log, None

    def start(self):
        self.stop()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JDK_JAVA_OPTIONS='-Xmx2g -Xss8m')
        env.pop('CLASSPATH', None)
        self.p = subprocess.Popen(
            ['/usr/bin/jython', '-B', '-Dpython.cachedir.skip=true',
             os.path.join(VERIF, 'jdriver', 'driver.py'), self.scratch],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.log, 'ab'), env=env,
            start_new_session=True, cwd=self.scratch)
        self.buf = b''
        self.send({'op': 'reset', 'xs': [], 'ss': []}, 180)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p.wait()
            self.p = None

    def send(self, d, timeout):
        try:
            self.p.stdin.write((json.dumps(d) + '\n').encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise Died()
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise Hang()
            if select.select([fd], [], [], min(left, 5))[0]:
                data = os.read(fd, 1 << 20)
                if not data:
                    raise Died()
                self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def reset(self):
        if self.p is None:
            self.start()
        else:
            try:
                self.send({'op': 'reset', 'xs': [], 'ss': []}, 60)
            except (Hang, Died):
                self.start()

    def call(self, op, timeout):
        r = self.send(op.wire(), timeout)
        op.ok, op.exc = r['ok'], r.get('exc', '')
        op.ri = [int(v) for v in r['ri']]
        op.rs = [bytes.fromhex(v) for v in r['rs']]
        return op


class Unit:
    """A generator of operations, run on fresh objects. The generator receives
    each operation back with its outcome."""

    def __init__(self, make, name='', cost=1.0, timeout=60):
        self.make, self.name, self.cost, self.timeout = make, name, cost, timeout
        self.ops = []
        self.hung = False

    def run(self, drv, timeout):
        drv.reset()
        self.ops, self.hung = [], False
        g = self.make()
        try:
            op = next(g)
            while True:
                self.ops.append(op)
                try:
                    drv.call(op, timeout)
                except (Hang, Died) as e:
                    op.hang = 'hang' if isinstance(e, Hang) else 'died'
                    op.ok, op.ri, op.rs = False, [], []
                    self.hung = True
                    drv.stop()
                    return
                op = g.send(op)
        except StopIteration:
            pass


def scratch_dir():
    os.makedirs(OUT, exist_ok=True)
    d = tempfile.mkdtemp(prefix='run-', dir=OUT)
    os.symlink(REPO, os.path.join(d, 'cryptopy'))
    return d


def run_units(units, scratch, procs=6):
    """Run all units on the real code, in parallel driver processes."""
    todo = queue.Queue()
    for u in sorted(units, key=lambda u: -u.cost):
        todo.put(u)
    errors, hangs, lock = [], [0], threading.Lock()

    def work(k):
        drv = Driver(scratch, os.path.join(scratch, 'driver%d.log' % k))
        try:
            while not errors:
                try:
                    u = todo.get_nowait()
                except queue.Empty:
                    break
                if hangs[0] >= 3:
                    u.ops = []
                    continue
                u.run(drv, u.timeout)
                if u.hung:
                    # once more in a new process, with more patience
                    u.run(drv, 2 * u.timeout)
                    if u.hung:
                        with lock:
                            hangs[0] += 1
        except (Hang, Died):
            errors.append('the driver does not start; see %s' % drv.log + tail(drv.log))
        except Exception as e:  # a generator failed
            import traceback
            errors.append(traceback.format_exc())
        finally:
            drv.stop()

    n = max(1, min(procs, len(units)))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise Broken(errors[0])


def tail(path):
    try:
        return ': ' + open(path, errors='replace').read()[-1500:]
    except OSError:
        return ''


# ------------------------------------------------------------ judging
PIECE = 6000        # literals stay below what Quint's parser can take


def q_oct(s):
    if len(s) > PIECE:
        return 'catAll(List(%s))' % ','.join(q_oct(s[i:i + PIECE]) for i in range(0, len(s), PIECE))
    return '{n:%d,v:%s}' % (len(s), '0x' + s.hex() if s else '0')


def q_int(x):
    if abs(x) >= 256 ** PIECE:
        b = abs(x).to_bytes((abs(x).bit_length() + 7) // 8, 'big')
        return '(%s%s.v)' % ('-' if x < 0 else '', q_oct(b))
    return str(x) if abs(x) < 10 ** 15 else ('-' if x < 0 else '') + hex(abs(x))


def q_event(name, op):
    return '{op:"%s",xs:List(%s),ss:List(%s),ok:%s,ri:List(%s),rs:List(%s)}' % (
        name, ','.join(map(q_int, op.xs)), ','.join(map(q_oct, op.ss)), 'true' if op.ok else 'false',
        ','.join(map(q_int, op.ri)), ','.join(map(q_oct, op.rs)))


TEMPLATE = '''// A recorded run of the implementation, judged step by step by the machine.
module trace {
  import octets.* from "%(rel)s/octets"
  import %(machine)s as m from "%(rel)s/%(machine)s"
%(chunks)s
  pure val TRACE: List[Ev] = %(all)s
  var pos: int
  var cur: { st: m::St, v: str }
  action init = all { pos' = 0, cur' = { st: m::start, v: "ok" } }
  action step = all {
    pos < %(n)d,
    pos' = pos + 1,
    cur' = if (TRACE[pos].op == "start") { st: m::start, v: "ok" }
           else if (TRACE[pos].op == "hang") { st: cur.st, v: "the call did not return" }
           else if (TRACE[pos].op == "died") { st: cur.st, v: "the call ended the interpreter" }
           else m::apply(cur.st, TRACE[pos])
  }
}
'''
START = '{op:"start",xs:List(),ss:List(),ok:true,ri:List(),rs:List()}'


def run_quint(args, timeout):
    env = dict(os.environ, NO_COLOR='1', NODE_OPTIONS='--max-old-space-size=3500')
    p = subprocess.Popen(['quint'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                         start_new_session=True, cwd=SPEC)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timeout'
    return p.returncode, out.decode(errors='replace')


def judge_shard(machine, units, dirname, k, timeout):
    """[(unit, op index, verdict)] for the verdicts other than ok; the number
    of judged records."""
    recs, where = [], []
    for u in units:
        recs.append(START)
        where.append(None)
        for i, op in enumerate(u.ops):
            if (op.silent or op.exc == 'absent') and not op.hang:
                continue
            recs.append(q_event(op.hang or op.op.split('_', 1)[1], op))
            where.append((u, i))
    chunks = [recs[i:i + 20] for i in range(0, len(recs), 20)]
    text = TEMPLATE % dict(
        rel='../../spec', machine=machine, n=len(recs),
        chunks='\n'.join('  pure val T%d: List[Ev] = List(\n    %s)' % (j, ',\n    '.join(c)) for j, c in enumerate(chunks)),
        all='T0' + ''.join('.concat(T%d)' % j for j in range(1, len(chunks))))
    path = os.path.join(dirname, 't%d.qnt' % k)
    open(path, 'w').write(text)
    itf = os.path.join(dirname, 't%d.itf.json' % k)
    rc, out = run_quint(['run', path, '--main', 'trace', '--max-samples=1', '--max-steps=%d' % len(recs),
                         '--out-itf', itf, '--verbosity=1'], timeout)
    if rc != 0 or not os.path.exists(itf):
        if re.search(r'[Rr]untime error|QNT5\d\d', out) or 'Evaluation error' in out:
            if len(units) == 1:
                return [(units[0], None, 'the specification does not define this outcome: ' + out.strip()[-300:])], len(recs) - 1
            h = len(units) // 2
            a, na = judge_shard(machine, units[:h], dirname, k, timeout)
            b, nb = judge_shard(machine, units[h:], dirname, k, timeout)
            return a + b, na + nb
        raise Broken('quint: rc %s: %s' % (rc, out[-2000:]))
    states = json.load(open(itf))['states']
    if len(states) != len(recs) + 1:
        raise Broken('quint judged %d of %d records' % (len(states) - 1, len(recs)))
    bad = []
    for j, st in enumerate(states[1:]):
        v = st['cur']['v']
        if v != 'ok' and where[j] is not None:
            bad.append((where[j][0], where[j][1], v))
    os.remove(itf)
    return bad, sum(1 for w in where if w is not None)


def judge(machine, units, dirname, timeout=800, shards=CORES):
    units = [u for u in units if u.ops]
    if not units:
        return [], 0
    cost = lambda u: 1 + sum(o.cost for o in u.ops)
    groups = [[0.0, []] for _ in range(min(shards, len(units)))]
    for u in sorted(units, key=lambda u: -cost(u)):
        g = min(groups, key=lambda g: g[0])
        g[0] += cost(u)
        g[1].append(u)
    res, errors = [], []

    def work(k, us):
        try:
            try:
                res.append(judge_shard(machine, us, dirname, k, timeout))
            except Broken:
                time.sleep(1)
                res.append(judge_shard(machine, us, dirname, k, timeout))
        except Exception as e:
            errors.append(repr(e))
    ts = [threading.Thread(target=work, args=(k, g[1])) for k, g in enumerate(groups)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise Broken(errors[0])
    bad = []
    for b, n in res:
        bad += b
    return bad, sum(n for b, n in res)


# ------------------------------------------------- behaviours of the machines
def unitf(v):
    """ITF value to Python."""
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#tup' in v:
            return tuple(unitf(x) for x in v['#tup'])
        if '#set' in v:
            return [unitf(x) for x in v['#set']]
        if '#map' in v:
            return [(unitf(a), unitf(b)) for a, b in v['#map']]
        return {k: unitf(x) for k, x in v.items() if k != '#meta'}
    if isinstance(v, list):
        return [unitf(x) for x in v]
    return v


def octets(o):
    return o['v'].to_bytes(o['n'], 'big') if o['n'] else b''


def behaviours(machine, dirname, seed, n, steps, step='step', invariant=None, timeout=600, init='init', ways=4):
    """Random behaviours of a machine of the specification, as lists of
    (op, xs, ss, ok, ri, rs); the number of states and steps visited."""
    res, errors, stats = [], [], []

    def work(k):
        m = n // ways + (1 if k < n % ways else 0)
        if not m:
            return
        d = os.path.join(dirname, 'b%s%d' % (machine, k))
        os.makedirs(d, exist_ok=True)
        args = ['run', machine + '.qnt', '--main', machine, '--mbt', '--max-samples=%d' % m, '--n-traces=%d' % m,
                '--max-steps=%d' % steps, '--seed=%d' % (seed * 1000 + k + 1), '--init', init, '--step', step,
                '--out-itf', os.path.join(d, 'b_{seq}.itf.json'), '--verbosity=1']
        if invariant:
            args += ['--invariant', invariant]
        for attempt in (0, 1):
            rc, out = run_quint(args, timeout)
            fs = sorted(glob.glob(os.path.join(d, 'b_*.itf.json')))
            if rc == 0 and fs:
                break
        else:
            errors.append('behaviours of %s: rc %s: %s' % (machine, rc, out[-1500:]))
            return
        seen = set()
        for f in fs:
            b, count = [], 0
            for st in json.load(open(f))['states']:
                count += 1
                ev = unitf(st['ev'])
                seen.add(json.dumps([st[x] for x in sorted(st) if x[0] != '#' and not x.startswith('mbt')], sort_keys=True))
                if ev['op']:
                    b.append((ev['op'], ev['xs'], [octets(o) for o in ev['ss']], ev['ok'], ev['ri'], [octets(o) for o in ev['rs']]))
            res.append((f, b))
            stats.append(count)
        stats.append(('distinct', len(seen)))
        shutil.rmtree(d)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(ways)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise Broken(errors[0])
    res.sort(key=lambda r: r[0])
    distinct = sum(s[1] for s in stats if isinstance(s, tuple))
    steps_ = sum(s - 1 for s in stats if not isinstance(s, tuple))
    return [b for f, b in res], distinct, steps_


def replay_unit(prefix, behaviour, name, adapt=None):
    """A unit that takes the implementation through a behaviour; the outcome
    of each step is compared with the specified one."""
    def make():
        for b in behaviour:
            op, xs, ss, ok, ri, rs = b
            for o in (adapt(b) if adapt else [Op(prefix + op, list(xs), list(ss), want=(ok, ri, rs))]):
                yield o
    return Unit(make, name)


def compare(units):
    """Mismatches between prescribed and observed outcomes."""
    bad = []
    for u in units:
        for i, op in enumerate(u.ops):
            if op.hang:
                bad.append((u, i, 'the call did not return' if op.hang == 'hang' else 'the call ended the interpreter'))
                break
            if op.want is None:
                continue
            ok, ri, rs = op.want
            if op.ok != ok:
                bad.append((u, i, 'raised where a result is defined' if ok else 'returned where the call must be refused'))
            elif ok and (list(op.ri) != list(ri) or list(op.rs) != list(rs)):
                bad.append((u, i, 'wrong result'))
    return bad
