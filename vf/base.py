"""What the plans share: the context of a run and helpers to make units."""
import copy, random
from dataclasses import dataclass, field
from typing import Callable
from . import core
from .core import Op, Unit


TEXT = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.'


class Context:
    def __init__(self, pid, tier, seed, rnd, scratch):
        self.pid, self.tier, self.seed, self.rnd, self.scratch = pid, tier, seed, rnd, scratch
        self.states = self.transitions = 0
        self.extra = {}

    @property
    def deep(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.deep else quick

    def octets(self, n):
        """n octets: mostly random, sometimes with an edge to them."""
        r = self.rnd.random()
        if n == 0:
            return b''
        if r < 0.08:
            return bytes(n)
        if r < 0.16:
            return b'\xff' * n
        s = bytearray(self.rnd.getrandbits(8) for _ in range(n))
        if r > 0.92:     # text, with white space and the like at its ends
            s = bytearray(self.rnd.choice(TEXT) for _ in s)
            s[self.rnd.choice([0, -1])] = self.rnd.choice(b' \t\n\r\0 %"\\')
        if r < 0.24:
            s[0] = 0
        elif r < 0.30:
            s[-1] = 0
        elif r < 0.36:
            s[0] = 0xff
        return bytes(s)

    def random(self, n):
        return bytes(self.rnd.getrandbits(8) for _ in range(n))

    def behaviours(self, machine, n, steps, invariant=None, step='step', init='init', prefix=None, adapt=None, keep=None):
        bs, states, transitions = core.behaviours(machine, self.scratch, self.seed, n, steps, step, invariant, init=init)
        self.states += states
        self.transitions += transitions
        self.extra.setdefault('behaviours', {})['%s.%s' % (machine, step)] = {
            'behaviours': len(bs), 'distinct_states': states, 'steps': transitions, 'invariant': invariant or ''}
        return [core.replay_unit(prefix, b, '%s behaviour %d' % (machine, i), adapt)
                for i, b in enumerate(bs) if keep is None or keep(b)]


@dataclass
class Plan:
    machine: str
    level: str
    rule: str
    build: Callable
    technique: str = ''
    note: str = ''
    assumptions: list = field(default_factory=list)
    nontrivial: Callable = lambda o: True
    least: int = 20


def batch(ops, size=20, name='calls', timeout=60):
    """Units of independent calls; some calls are made again later on, as an
    answer must not depend on what was asked before."""
    ops = list(ops)
    units = []
    rnd = random.Random(len(ops))
    for i in range(0, len(ops), size):
        part = ops[i:i + size]
        for j in range(-(-len(part) // 9) if len(part) > 1 else 0):
            k = rnd.randrange(len(part))
            if part[k].cost <= 60:
                part.insert(rnd.randrange(k + 1, len(part) + 1), copy.deepcopy(part[k]))
        units.append(Unit(lambda part=part: iter_ops(part), '%s %d' % (name, i // size),
                          cost=sum(o.cost for o in part), timeout=timeout))
    return units


def iter_ops(part):
    for o in part:
        yield o


def session(ops, name, timeout=60):
    return Unit(lambda: iter_ops(ops), name, cost=sum(o.cost for o in ops), timeout=timeout)


def crossed(ops, names, rnd, n):
    """ops and n pairs of calls more: one of them, and one with an argument
    taken from another. Whatever is kept from call to call has to be kept for
    all arguments together. names: the operations, and which of their integer
    arguments may be exchanged."""
    groups = {}
    for o in ops:
        if o.op in names and o.cost <= 60:
            groups.setdefault((o.op, len(o.xs), len(o.ss)), []).append(o)
    groups = [g for g in groups.values() if len(g) > 1]
    res = []
    for _ in range(n if groups else 0):
        g = rnd.choice(groups)
        a, b = rnd.choice(g), rnd.choice(g)
        c = copy.deepcopy(a)
        places = [(c.xs, b.xs, i) for i in names[a.op]] + [(c.ss, b.ss, i) for i in range(len(a.ss))]
        into, source, i = rnd.choice(places)
        into[i] = source[i]
        c.cost = max(a.cost, b.cost)
        res += [copy.deepcopy(a), c] if rnd.random() < .5 else [c, copy.deepcopy(a)]
    return ops + res


def flip(s, bit):
    b = bytearray(s)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)
