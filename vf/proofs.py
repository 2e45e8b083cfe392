"""Inductive invariants of spec/designs.qnt, proved with Apalache."""
import os, re, shutil, signal, socket, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core

DESIGNS = {
    'C02': ['streamBlocks'], 'C08': ['digits'], 'C09': ['digits'], 'C11': ['signedDigits', 'rightToLeft'],
    'C13': ['ladder'], 'C17': ['euclid'], 'C18': ['tonelli'], 'C19': ['trial'], 'C21': ['rightToLeft'],
    'C26': ['mixerCache'], 'C27': ['hmacHistory'], 'C29': ['expansion'], 'C30': ['orbits'],
}


def free_port():
    with socket.socket() as s:
        s.bind(('localhost', 0))
        return s.getsockname()[1]


def prove(module, scratch, timeout=240):
    """True if the invariant is inductive, False if not, None without answer."""
    d = os.path.join(scratch, 'prove-' + module)
    for attempt in (0, 1):
        os.makedirs(d, exist_ok=True)
        p = subprocess.Popen(['quint', 'verify', '--verbosity', '1', '--server-endpoint', 'localhost:%d' % free_port(),
                              '--main', module, '--inductive-invariant', 'inv', os.path.join(core.SPEC, 'designs.qnt')],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, start_new_session=True,
                             env=dict(os.environ, NO_COLOR='1'))
        try:
            out = p.communicate(timeout=timeout)[0].decode(errors='replace')
        except subprocess.TimeoutExpired:
            out = 'timeout'
        try:                       # quint's Apalache server, if it is left over
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode == 0 and 'No violation found' in out:
            return True
        if 'counterexample' in out:
            return False
    return None


def run(pid, scratch):
    """{module: what is known of its invariant} for the designs of a property."""
    names = DESIGNS.get(pid, [])
    with ThreadPoolExecutor(2) as ex:
        res = dict(zip(names, ex.map(lambda m: prove(m, scratch), names)))
    wrong = [m for m in names if res[m] is False]
    if wrong:
        raise core.Broken('the invariant of %s in spec/designs.qnt is not inductive' % ', '.join(wrong))
    return {m: 'inductive for all states' if res[m] else 'no answer from Apalache' for m in names}
