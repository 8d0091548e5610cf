"""Reference definitions of all metrics (docs/metrics.md), independent of the engine.

A Snapshot holds plain numbers; judge(name, snapshot, value) raises PropertyViolation if the value is not what the
documentation defines for that snapshot."""
import math
import statistics

from harness import inv
from harness.core import require
from harness.drive import plain

REL = 1e-9


class Snapshot:
    def __init__(self, sim):
        agents = sorted(sim.schedule.agents, key=lambda a: a.unique_id)
        self.stake = {a.unique_id: float(a.stake) for a in agents}
        self.cost = {a.unique_id: float(a.cost) for a in agents}
        self.pools = [dict(id=pid, owner=p.owner, stake=float(p.stake), pledge=float(p.pledge), margin=float(p.margin),
                           cost=float(p.cost)) for pid, p in sim.pools.items()]
        self.scheme = inv.scheme_of(sim)
        self.steps = sim.schedule.steps
        self.n = len(agents)

    def column(self, name):
        return [p[name] for p in self.pools]

    def per_operator(self, value=None):
        out = {}
        for p in self.pools:
            out[p['owner']] = out.get(p['owner'], 0) + (1 if value is None else p[value])
        return out

    def stake_rank(self, agent):
        """1 + number of richer agents; equally rich ones with a lower id come first"""
        mine = (-self.stake[agent], agent)
        return 1 + sum(1 for b, s in self.stake.items() if (-s, b) < mine)

    def cost_rank(self, agent):
        mine = (self.cost[agent], agent)
        return 1 + sum(1 for b, c in self.cost.items() if (c, b) < mine)


def near(a, b, tol=REL, floor=1e-12):
    return abs(a - b) <= max(tol * max(abs(a), abs(b)), floor)


def mean(values):
    return math.fsum(values) / len(values)


def gini(values):
    """half the relative mean absolute difference, over all ordered pairs"""
    n, total = len(values), math.fsum(values)
    return math.fsum(abs(a - b) for a in values for b in values) / (2 * n * total)


def exact_sums(values):
    """Whether every sum of the values is exact in floating point arithmetic, in any order"""
    return math.fsum(values) < 2 ** 20 and all(v == math.floor(v * 2 ** 30) / 2 ** 30 for v in values)


def nakamoto_bounds(values):
    """(least, greatest) admissible answer: ties with one half may fall either way if the sums are subject to rounding"""
    total = math.fsum(values)
    ordered = sorted(values, reverse=True)
    out = []
    for slack in (0, 0) if exact_sums(values) else (-1e-12, 1e-12):
        acc, answer = [], len(ordered)
        for i, v in enumerate(ordered):
            acc.append(v)
            if math.fsum(acc) > total / 2 + slack * total:
                answer = i + 1
                break
        out.append(answer)
    return out[0], out[1]


def min_aggregate(pools):
    """(optimum with slightly relaxed, optimum with slightly tightened requirement) by exhaustive search"""
    total = math.fsum(p['stake'] for p in pools)
    best = {-1: math.inf, 1: math.inf}
    m = len(pools)
    for mask in range(1 << m):
        s = math.fsum(pools[i]['stake'] for i in range(m) if mask >> i & 1)
        for sign in (-1, 1):
            if s >= total / 2 * (1 + sign * 1e-3):
                v = math.fsum(pools[i]['pledge'] for i in range(m) if mask >> i & 1)
                best[sign] = min(best[sign], v)
    return best[-1], best[1]


def _number(name, got, want, snap, tol=REL):
    require(isinstance(got, (int, float)) and near(got, want, tol), '%s is %r instead of %r (pools: %.800r)', name, got,
            want, snap.pools)


EMPTY_ZERO = ['Pool count', 'Total pledge', 'Mean pledge', 'Median pledge', 'Average pools per operator',
              'Max pools per operator', 'Median pools per operator', 'Average saturation rate', 'Nakamoto coefficient',
              'Statistical distance', 'Min-aggregate pledge', 'Pledge rate', 'Pool homogeneity factor',
              'Mean stake rank', 'Mean cost rank', 'Median stake rank', 'Median cost rank', 'Number of pool splitters',
              'Mean margin', 'Median margin', 'Total delegated stake', 'Operator count']

BASIC = ['Pool count', 'Total pledge', 'Mean pledge', 'Median pledge', 'Average pools per operator',
         'Max pools per operator', 'Median pools per operator', 'Average saturation rate', 'Iterations',
         'Mean stake rank', 'Mean cost rank', 'Median stake rank', 'Median cost rank', 'Number of pool splitters',
         'Cost efficient stakeholders', 'StakePairs', 'Mean margin', 'Median margin', 'Stake per agent',
         'Stake per agent id', 'Total delegated stake', 'Total agent stake', 'Operator count']

DECENTRALISATION = ['Nakamoto coefficient', 'Statistical distance', 'Pledge rate', 'Pool homogeneity factor', 'Gini-id',
                    'Gini-id stake', 'Gini-id (k)', 'Gini-id stake (k)']


def judge(name, snap, value):
    got = plain(value)
    pools = snap.pools
    if not pools and name in EMPTY_ZERO:
        require(got == 0, '%s is %r although there are no pools', name, got)
        return
    if name == 'Pool count':
        require(got == len(pools), '%s is %r but there are %d pools', name, got, len(pools))
    elif name == 'Total pledge':
        _number(name, got, math.fsum(snap.column('pledge')), snap)
    elif name == 'Mean pledge':
        _number(name, got, mean(snap.column('pledge')), snap)
    elif name == 'Median pledge':
        _number(name, got, statistics.median(snap.column('pledge')), snap)
    elif name == 'Mean margin':
        _number(name, got, mean(snap.column('margin')), snap)
    elif name == 'Median margin':
        _number(name, got, statistics.median(snap.column('margin')), snap)
    elif name == 'Average pools per operator':
        _number(name, got, len(pools) / len(snap.per_operator()), snap)
    elif name == 'Max pools per operator':
        _number(name, got, max(snap.per_operator().values()), snap)
    elif name == 'Median pools per operator':
        _number(name, got, statistics.median(snap.per_operator().values()), snap)
    elif name == 'Average saturation rate':
        points = [snap.scheme.saturation(p['pledge']) for p in pools]
        if min(points) > 0:
            _number(name, got, mean([p['stake'] / z for p, z in zip(pools, points)]), snap)
    elif name == 'Iterations':
        require(got == snap.steps, '%s is %r after %d rounds', name, got, snap.steps)
    elif name in ('Mean stake rank', 'Mean cost rank', 'Median stake rank', 'Median cost rank'):
        rank = snap.stake_rank if 'stake' in name else snap.cost_rank
        ranks = [rank(p['owner']) for p in pools]
        want = mean(ranks) if 'Mean' in name else statistics.median(ranks)
        require(abs(got - want) <= 0.5 + 1e-9, '%s is %r, but the ranks of the owners of the pools are %r', name, got,
                ranks)
    elif name == 'Number of pool splitters':
        want = sum(1 for c in snap.per_operator().values() if c >= 2)
        require(got == want, '%s is %r instead of %r (owners: %r)', name, got, want, snap.column('owner'))
    elif name == 'Cost efficient stakeholders':
        profits = [snap.scheme.potential_profit(snap.stake[a], snap.cost[a]) for a in snap.stake]
        least, most = sum(p > 1e-12 for p in profits), sum(p > -1e-12 for p in profits)
        if snap.scheme.a0 == 0 and snap.scheme.kind < 4 and snap.scheme.k in (1, 2, 4, 8, 16):
            least = most = sum(p > 0 for p in profits)  # the reward is 1/k, without any rounding
        require(least <= got <= most, '%s is %r, but the profits that the stakeholders could make are %r', name, got,
                profits)
    elif name == 'StakePairs':
        want = sorted((p['id'], p['owner'], snap.stake[p['owner']], p['stake'], p['margin']) for p in pools)
        have = sorted(zip(got['pool_id'], got['owner_id'], got['x'], got['y'], got['r']))
        require(all(len(v) == len(pools) for v in got.values()), '%s has incomplete columns: %r', name, got)
        require(len(have) == len(want) and all(
            h[:2] == w[:2] and all(near(a, b) for a, b in zip(h[2:], w[2:])) for h, w in zip(have, want)),
            '%s lists (pool, owner, owner stake, pool stake, margin) %.800r instead of %.800r', name, have, want)
    elif name in ('Stake per agent', 'Stake per agent id'):
        per = snap.per_operator('stake')
        want = {a: per.get(a, 0) for a in snap.stake}
        if isinstance(got, list):
            have = dict(enumerate(got))
        else:
            have = {int(a): v for a, v in got.items()}
        require(sorted(have) == sorted(want) and all(near(have[a], want[a]) for a in want),
                '%s is %.800r instead of %.800r', name, have, want)
    elif name == 'Total delegated stake':
        _number(name, got, math.fsum(snap.column('stake')), snap)
    elif name == 'Total agent stake':
        _number(name, got, math.fsum(snap.stake.values()), snap)
    elif name == 'Operator count':
        require(got == len(snap.per_operator()), '%s is %r but the pools are owned by %r', name, got,
                snap.column('owner'))
    elif name == 'Nakamoto coefficient':
        per = list(snap.per_operator('stake').values())
        if math.fsum(per) > 0:
            least, most = nakamoto_bounds(per)
            require(got == int(got) and least <= got <= most, '%s is %r, expected %r for operators that control %r', name,
                    got, least, per)
            require(1 <= got <= len(per), '%s is %r with %d operators', name, got, len(per))
    elif name == 'Statistical distance':
        per = snap.per_operator('stake')
        want = math.fsum(abs(per.get(a, 0) - s) for a, s in snap.stake.items()) / 2
        _number(name, got, want, snap)
    elif name == 'Pledge rate':
        total = math.fsum(snap.column('stake'))
        if total > 0:
            _number(name, got, math.fsum(snap.column('pledge')) / total, snap)
    elif name == 'Pool homogeneity factor':
        top = max(snap.column('stake'))
        if top > 0:
            _number(name, got, math.fsum(snap.column('stake')) / (len(pools) * top), snap)
            require(got <= 1 + 1e-9, '%s is %r', name, got)
    elif name.startswith('Gini-id'):
        values = list(snap.per_operator('stake' if 'stake' in name else None).values())
        if name.endswith('(k)'):
            values += [0] * (int(snap.scheme.k) - len(values))
        if values and math.fsum(values) > 0:
            _number(name, got, gini(values), snap, 1e-8)
            require(-1e-12 <= got <= 1, '%s is %r', name, got)
    elif name == 'Min-aggregate pledge':
        if len(pools) <= 12:
            low, high = min_aggregate(pools)
            require(got != -2 and low * 0.97 - 1e-5 <= got <= high * 1.08 + 1e-5,
                    '%s is %r, but the optimum is %r (pools: %.800r)', name, got, high, pools)
    else:
        return False
    return True
