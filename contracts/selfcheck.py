"""contracts about a toy function: the good one must be proved, the bad ones
must be refuted (run at setup)."""
from pyvc.con import contract
CONTRACTS = []


@contract(CONTRACTS, ['-'])
def good(env):
    """sum over any length is linear"""
    n = env.int('n', 1)
    x, y = env.arr('x', [n]), env.arr('y', [n])
    env.equal('linear', env.np.sum(x + 2 * y), env.np.sum(x) + 2 * env.np.sum(y))


@contract(CONTRACTS, ['-'])
def bad(env):
    """false in one corner"""
    x = env.real('x')
    env.prove('x*x >= x', x * x >= x)


@contract(CONTRACTS, ['-'])
def bad_tail(env):
    """false at the last element only"""
    n = env.int('n', 1)
    x = env.arr('x', [n])
    env.equal('the last element is ignored', env.np.sum(x[:-1]), env.np.sum(x))
