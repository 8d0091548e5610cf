"""Reference model of a stakeholder's decision: options, their utilities, and the plan that follows from them.

Everything is computed from the observable state (stakes, pools, delegations, rankings, parameters). Quantities that
depend on how ties at floating point level are resolved are intervals (low, high) or sets of acceptable outcomes.
"""
from harness import inv, refs
from harness.core import Skip
from harness.drive import profile_of

EPS = 1e-12


class PoolView:
    __slots__ = ('id', 'owner', 'stake', 'pledge', 'cost', 'margin', 'des', 'pp', 'private')

    def __init__(self, p):
        self.id, self.owner, self.stake, self.pledge, self.cost = p.id, p.owner, p.stake, p.pledge, p.cost
        self.margin, self.des, self.pp, self.private = p.margin, p.desirability, p.potential_profit, bool(p.is_private)


class Situation:
    """The state of the system as an agent finds it, immediately before it makes a decision."""

    def __init__(self, sim, agent):
        self.agent_id = agent.unique_id
        self.profile = profile_of(agent)
        self.stake, self.cost = agent.stake, agent.cost
        self.sch = inv.scheme_of(sim)
        self.phi = sim.extra_pool_cost_fraction
        self.rel, self.abs = sim.relative_utility_threshold, sim.absolute_utility_threshold
        self.pools = {pid: PoolView(p) for pid, p in sim.pools.items()}
        self.mine = {pid: p for pid, p in self.pools.items() if p.owner == self.agent_id}
        self.alloc = {pid: a for pid, a in inv.allocations(agent).items()}
        ranking = sim.pool_rankings if self.profile == 'nonmyopic' else sim.pool_rankings_myopic
        self.ranking = [None if p is None else p.id for p in ranking]  # in the order of the agent's profile
        self.nm_order = sorted(self.pools.values(), key=lambda p: (-p.des, -p.pp, p.id))
        self.fixed = [pid for pid in self.ranking if pid is None or self.pools[pid].owner != self.agent_id]
        self.k = self.sch.k
        self.delegators = {pid: dict(p.delegators) for pid, p in sim.pools.items()}

    # ------------------------------------------------------------------------------------------------- delegation
    def delegation(self, amount):
        """(allocations, ambiguous ids): how to delegate the amount. The leftover may go to any of the second item."""
        if amount < refs.MIN_UNIT:
            return {}, 0.0, []
        left = amount
        out = {}
        saturated = []
        definite = False
        any_eligible = False
        for pid in self.ranking:
            if pid is None:
                continue
            p = self.pools[pid]
            if p.owner == self.agent_id or p.private:
                continue
            any_eligible = True
            room = self.sch.saturation(p.pledge) - (p.stake - self.alloc.get(pid, 0.0))
            if room < EPS:
                if not definite:
                    saturated.append(pid)
                if room < -EPS:
                    definite = True
            if room > 0 and left > 0:
                a = min(left, room)
                out[pid] = a
                left -= a
        if not any_eligible:
            return {}, 0.0, []
        if left < EPS:
            left = 0.0
        return out, left, (saturated if definite else saturated + [None])

    def nm_counts(self, pid):
        """does an active pool count as saturated in the non-myopic valuation?"""
        covered = 0.0
        for p in self.nm_order:
            if p.id == pid:
                break
            covered += self.sch.saturation(p.pledge)
        return covered < 1 - EPS

    def too_close(self, own):
        """do saturation points of different sizes add up to the total stake, but for rounding errors?"""
        if self.sch.kind != 4:
            return False
        for ranked in (self.nm_order, sorted([p for p in self.pools.values() if p.owner != self.agent_id] + list(own),
                                             key=lambda p: (-p.des, -p.pp, p.id))):
            covered = 0.0
            for p in ranked:
                covered += self.sch.saturation(p.pledge)
                if abs(covered - 1) < 1e-9:
                    return True
        return False

    def delegator_utility(self, pid, a):
        p = self.pools[pid]
        current = p.stake - self.alloc.get(pid, 0.0) + a
        if self.profile == 'nonmyopic':
            nm = max(self.sch.saturation(p.pledge), p.stake) if self.nm_counts(pid) else p.pledge
            current = max(nm, current)
        return refs.delegator_share(self.sch, a, current, p.pledge, p.margin, p.cost)

    def delegation_utility(self, amount):
        """(low, high, allocations, leftover, places for the leftover)"""
        out, left, places = self.delegation(amount)
        base = sum(self.delegator_utility(pid, a) for pid, a in out.items())
        if not left or not places:
            return base, base, out, left, places
        options = []
        for place in places:
            if place is None:
                options.append(0.0)
            else:
                before = out.get(place, 0.0)
                was = self.delegator_utility(place, before) if before else 0.0
                options.append(self.delegator_utility(place, before + left) - was)
        return base + min(options), base + max(options), out, left, places

    # -------------------------------------------------------------------------------------------------- operation
    def terms(self, t):
        pledge = refs.pledge_per_pool(self.stake, t, self.sch.z0)
        cost = refs.cost_per_pool(self.cost, t, self.phi)
        return pledge, cost

    def margins(self, t):
        """(margins, estimated utility, ambiguous) for operating t pools"""
        sch = self.sch
        pledge, cost = self.terms(t)
        sat = sch.saturation(pledge)
        margins, utility, ambiguous = [], 0.0, False
        if self.profile == 'nonmyopic':
            profit = sch.potential_profit(pledge, cost)
        else:
            total = max(sum(p.stake for p in self.mine.values()), self.stake)
            profit = sch.profit(pledge, total / t, cost)
        for i in range(1, t + 1):
            pid = self.fixed[self.k - i]
            target = None if pid is None else self.pools[pid]
            if self.profile == 'nonmyopic':
                des = (target.des if target else 0.0) + refs.TARGET_BOOST
                if abs(profit - des) < EPS:
                    ambiguous = True
                if profit < des:
                    margins.append(0.0)
                    utility += refs.operator_share(sch, pledge, pledge, 0.0, cost)
                    continue
                des = max(des, target.pp if target else 0.0)
            else:
                des = refs.TARGET_BOOST
                if target:
                    des += refs.desirability(target.margin, sch.profit(target.pledge, target.stake, target.cost))
            m = max(1 - des / profit, 0.0) if profit > 0 else 0.0
            margins.append(m)
            utility += refs.operator_share(sch, sat, pledge, m, cost)
        return margins, utility, ambiguous

    def estimates(self):
        if not hasattr(self, '_estimates'):
            self._estimates = {t: self.margins(t) for t in range(1, self.k + 1)}
        return self._estimates

    def is_local_optimum(self, t, tol=1e-11):
        est = self.estimates()
        if est[t][2]:
            return True
        u = est[t][1]
        for s in (t - 1, t + 1):
            if s in est:
                if est[s][2]:
                    continue
                if est[s][1] > u + tol:
                    return False
        return True

    def kept(self, t):
        """ids of the pools that are kept when operating t pools"""
        if t >= len(self.mine):
            return set(self.mine)
        best = sorted(self.mine.values(), key=lambda p: (-p.des, -p.pp, -p.stake, p.id))
        return {p.id for p in best[:t]}

    def operation_utility(self, t):
        """(low, high) of the expected utility of the plan with t pools, over the assignments of margins to pools"""
        import numpy as np
        from scipy.optimize import linear_sum_assignment
        sch = self.sch
        pledge, cost = self.terms(t)
        margins, _, _ = self.estimates()[t]
        stakes = [self.mine[pid].stake - self.mine[pid].pledge + pledge for pid in self.kept(t)]
        stakes += [pledge] * (t - len(stakes))
        sat = sch.saturation(pledge)
        low = np.zeros((t, t))
        high = np.zeros((t, t))
        pp = sch.potential_profit(pledge, cost)
        others = [p for p in self.nm_order if p.owner != self.agent_id]
        des = [refs.desirability(m, pp) for m in margins]
        for j, m in enumerate(margins):
            if self.profile == 'nonmyopic':
                surely = sum(sch.saturation(p.pledge) for p in others
                             if p.des > des[j] + EPS or (p.des == des[j] and p.pp > pp + EPS))
                surely += sat * sum(1 for i in range(t) if des[i] > des[j] + EPS)
                maybe = sum(sch.saturation(p.pledge) for p in others
                            if p.des >= des[j] - EPS and (p.des != des[j] or p.pp >= pp - EPS))
                maybe += sat * sum(1 for i in range(t) if i != j and des[i] >= des[j] - EPS)
                states = set()
                if surely < 1 - EPS:
                    states.add(True)
                if maybe >= 1 - 2 * EPS:
                    states.add(False)
            for i, s in enumerate(stakes):
                if self.profile == 'nonmyopic':
                    values = [refs.operator_share(sch, max(sat, s) if c else pledge, pledge, m, cost) for c in states]
                else:
                    values = [refs.operator_share(sch, s, pledge, m, cost)]
                low[i, j], high[i, j] = min(values), max(values)
        r, c = linear_sum_assignment(low)
        lo = low[r, c].sum()
        r, c = linear_sum_assignment(high, maximize=True)
        hi = high[r, c].sum()
        rest = self.stake - pledge * t
        if rest > 0:
            dl, dh, _, _, _ = self.delegation_utility(rest)
            lo, hi = lo + dl, hi + dh
        return lo, hi

    # --------------------------------------------------------------------------------------------------- utilities
    def current_utility(self):
        u = 0.0
        for p in self.mine.values():
            u += refs.operator_share(self.sch, p.stake, p.pledge, p.margin, p.cost)
        for pid, a in self.alloc.items():
            p = self.pools[pid]
            u += refs.delegator_share(self.sch, a, p.stake, p.pledge, p.margin, p.cost)
        return u

    def expected_utility(self, own, alloc):
        """own: PoolView-like objects of the strategy; alloc: delegations. Exact for the given floats."""
        u = 0.0
        if self.profile == 'nonmyopic':
            ranked = sorted([p for p in self.pools.values() if p.owner != self.agent_id] + list(own),
                            key=lambda p: (-p.des, -p.pp, p.id))
            covered = 0.0
            for p in ranked:
                sat = self.sch.saturation(p.pledge)
                if p.owner == self.agent_id:
                    stake = max(sat, p.stake) if covered < 1 - EPS else p.pledge
                    u += refs.operator_share(self.sch, stake, p.pledge, p.margin, p.cost)
                covered += sat
        else:
            for p in own:
                u += refs.operator_share(self.sch, p.stake, p.pledge, p.margin, p.cost)
        for pid, a in alloc.items():
            if pid in self.pools:
                u += self.delegator_utility(pid, a)
        return u

    def threshold(self):
        cur = self.current_utility()
        exp = self.expected_utility(list(self.mine.values()), self.alloc)
        return max((1 + self.rel) * cur, cur + self.abs, (1 + self.rel) * exp, exp + self.abs)


class Decisions:
    """Base of histories that judge every decision of every agent: override judge(situation, plan, sim, when)."""

    def start(self, sim, cfg):
        for a in sim.schedule.agents:
            if not hasattr(a, 'new_strategy'):
                raise Skip('agents do not stage their plans')
        if not hasattr(sim, 'pool_rankings') or not hasattr(sim, 'pool_rankings_myopic'):
            raise Skip('no rankings')


class Plan:
    def __init__(self, strategy):
        self.alloc = dict(strategy.stake_allocations or {})
        self.own = {pid: PoolView(p) for pid, p in strategy.owned_pools.items()}
