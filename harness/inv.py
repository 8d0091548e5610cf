"""Invariants over simulation states (each raises PropertyViolation)."""
from harness.core import fail, require
from harness import refs
from harness.drive import agents_of, is_abstainer, profile_of

TOL = 1e-9


def scheme_of(sim):
    rs = sim.reward_scheme
    if hasattr(type(rs), 'reference'):
        return type(rs).reference(rs)  # a scheme of the harness
    kind = refs.SCHEME_KIND[type(rs).__name__]
    z0 = rs.global_saturation_threshold
    return refs.Scheme(kind, rs.k, rs.a0, z0, getattr(rs, 'crossover_factor', 8), getattr(rs, 'curve_root', 3))


def allocations(agent):
    if agent.strategy is None:
        return {}
    return dict(agent.strategy.stake_allocations or {})


def owned(agent):
    if agent.strategy is None:
        return {}
    return dict(agent.strategy.owned_pools)


# ---------------------------------------------------------------------------------------------------- bookkeeping
def ledger(sim, when=''):
    agents = agents_of(sim)
    recorded = {}
    for pool_id, pool in sim.pools.items():
        delegated = 0.0
        for delegator, amount in pool.delegators.items():
            require(delegator in agents, '%s: pool %s lists unknown delegator %s', when, pool_id, delegator)
            require(amount > 0, '%s: pool %s has a non-positive delegation %r by %s', when, pool_id, amount, delegator)
            delegated += amount
            recorded[(delegator, pool_id)] = amount
        require(abs(pool.stake - (pool.pledge + delegated)) <= TOL,
                '%s: pool %s has stake %r but pledge %r plus delegations %r', when, pool_id, pool.stake, pool.pledge,
                delegated)
        require(pool.pledge >= 0, '%s: pool %s has negative pledge %r', when, pool_id, pool.pledge)
        if pool.is_private:
            require(not pool.delegators, '%s: private pool %s has delegators %r', when, pool_id, pool.delegators)
    claimed = {}
    for agent_id, agent in agents.items():
        for pool_id, amount in allocations(agent).items():
            require(amount >= 0, '%s: agent %s delegates negative stake %r', when, agent_id, amount)
            require(pool_id in sim.pools, '%s: agent %s delegates to pool %s, which is not active', when, agent_id,
                    pool_id)
            claimed[(agent_id, pool_id)] = amount
    for key in set(recorded) | set(claimed):
        a, b = recorded.get(key, 0.0), claimed.get(key, 0.0)
        require(abs(a - b) <= TOL,
                '%s: agent %s delegates %r to pool %s according to its strategy but %r according to the pool', when,
                key[0], b, key[1], a)
        # an entry on one side only is tolerable only for dust
        require((key in recorded) == (key in claimed) or max(a, b) <= 1e-16,
                '%s: delegation of agent %s to pool %s is known to one side only', when, key[0], key[1])


# --------------------------------------------------------------------------------------------------------- budget
def budget(sim, inactive, initial, when=''):
    agents = agents_of(sim)
    require(set(agents) == set(initial), '%s: the set of stakeholders changed', when)
    total = 0.0
    for agent_id, agent in agents.items():
        stake0, cost0, profile0 = initial[agent_id]
        require(agent.stake == stake0 and agent.cost == cost0 and profile_of(agent) == profile0,
                '%s: stake, cost or profile of agent %s changed', when, agent_id)
        pledged = sum(p.pledge for p in sim.pools.values() if p.owner == agent_id)
        delegated = sum(p.delegators.get(agent_id, 0.0) for p in sim.pools.values())
        alloc = sum(allocations(agent).values())
        require(pledged + max(delegated, alloc) <= stake0 + TOL,
                '%s: agent %s owns %r but pledges %r and delegates %r', when, agent_id, stake0, pledged,
                max(delegated, alloc))
        if profile0 == 'abstainer':
            require(pledged == 0 and delegated == 0 and alloc == 0 and not owned(agent),
                    '%s: abstainer %s participates', when, agent_id)
    total = sum(p.stake for p in sim.pools.values())
    require(total <= 1 - inactive + TOL, '%s: the pools hold %r of the stake but only %r is active', when, total,
            1 - inactive)


def initial_endowment(sim):
    return {a.unique_id: (a.stake, a.cost, profile_of(a)) for a in sim.schedule.agents}


# ------------------------------------------------------------------------------------------------------- registry
def registry(sim, when=''):
    agents = agents_of(sim)
    seen = {}
    for agent_id, agent in agents.items():
        for pool_id, pool in owned(agent).items():
            require(pool_id not in seen, '%s: pool %s is owned by agents %s and %s', when, pool_id,
                    seen.get(pool_id), agent_id)
            seen[pool_id] = agent_id
            require(pool_id in sim.pools, '%s: agent %s believes to own pool %s, which is not active', when, agent_id,
                    pool_id)
            active = sim.pools[pool_id]
            require(pool.id == pool_id and active.id == pool_id, '%s: pool registered as %s has id %s / %s', when,
                    pool_id, active.id, pool.id)
            require(active.owner == agent_id and pool.owner == agent_id, '%s: pool %s of agent %s names owner %s', when,
                    pool_id, agent_id, active.owner)
            for field in ('cost', 'pledge', 'stake', 'margin', 'is_private'):
                require(getattr(active, field) == getattr(pool, field),
                        '%s: the owner of pool %s sees %s %r but the system has %r', when, pool_id, field,
                        getattr(pool, field), getattr(active, field))
            require(dict(active.delegators) == dict(pool.delegators),
                    '%s: the owner of pool %s sees different delegators than the system', when, pool_id)
    for pool_id, pool in sim.pools.items():
        require(pool_id in seen, '%s: active pool %s (owner %s) is not in its owner\'s strategy', when, pool_id,
                pool.owner)
        require(isinstance(pool_id, int) and pool_id > 0, '%s: pool id %r is not a positive number', when, pool_id)
        for delegator in pool.delegators:
            require(delegator in agents and delegator != pool.owner, '%s: pool %s has delegator %s (owner %s)', when,
                    pool_id, delegator, pool.owner)
    for agent_id, agent in agents.items():
        for pool_id in allocations(agent):
            require(pool_id in sim.pools, '%s: agent %s delegates to pool %s, which is not active', when, agent_id,
                    pool_id)


class IdHistory:
    """Pool ids are never reused, and pools keep their owner."""

    def __init__(self):
        self.owner = {}
        self.closed = set()
        self.last = set()
        self.max_before_group = 0

    def observe(self, sim, when=''):
        current = {pid: p.owner for pid, p in sim.pools.items()}
        for pid, owner in current.items():
            require(pid not in self.closed, '%s: pool id %s was reused after the pool had closed', when, pid)
            require(self.owner.get(pid, owner) == owner, '%s: pool %s changed owner from %s to %s', when, pid,
                    self.owner.get(pid), owner)
            if pid not in self.owner:
                require(pid > self.max_before_group, '%s: new pool got id %s although id %s had been used before', when,
                        pid, self.max_before_group)
            self.owner[pid] = owner
        self.closed |= self.last - set(current)
        self.last = set(current)

    def new_round(self, sim):
        self.max_before_group = max([self.max_before_group] + list(self.owner))


# ------------------------------------------------------------------------------------------------------- rankings
def _entries(ranking):
    return list(ranking)


def rankings(sim, when=''):
    sch = scheme_of(sim)
    for name, ranking in (('non-myopic', sim.pool_rankings), ('myopic', sim.pool_rankings_myopic)):
        entries = _entries(ranking)
        pools = [p for p in entries if p is not None]
        ids = [p.id for p in pools]
        require(sorted(ids) == sorted(sim.pools), '%s: the %s ranking lists pools %r but the active pools are %r', when,
                name, sorted(ids), sorted(sim.pools))
        for p in pools:
            a = sim.pools[p.id]
            require(p is a or (p.stake == a.stake and p.margin == a.margin and p.pledge == a.pledge),
                    '%s: the %s ranking holds an outdated version of pool %s', when, name, p.id)
        require(len(entries) >= sch.k, '%s: the %s ranking has %d places, less than k = %d', when, name, len(entries),
                sch.k)
        keys, scale = [], {}
        for p in pools:
            if name == 'non-myopic':
                reward = sch.reward(p.pledge, sch.saturation(p.pledge))
                profit = sch.potential_profit(p.pledge, p.cost)
            else:
                reward = sch.reward(p.pledge, p.stake)
                profit = sch.profit(p.pledge, p.stake, p.cost)
            keys.append((refs.desirability(p.margin, profit), profit, p.id, p))
            scale[p.id] = max(abs(reward), p.cost)
        for x, y in zip(keys, keys[1:]):
            # what different ways of calculating the same amount may differ by
            tol = 1e-14 * max(scale[x[2]], scale[y[2]])
            require(x[0] >= y[0] - tol,
                    '%s: %s ranking places pool %s (desirability %r) above pool %s (desirability %r)', when, name, x[2],
                    x[0], y[2], y[0])
            same = all(getattr(x[3], f) == getattr(y[3], f) for f in ('margin', 'pledge', 'cost')) and \
                (name == 'non-myopic' or x[3].stake == y[3].stake)
            if name == 'non-myopic' and not same:
                if x[3].desirability == y[3].desirability:
                    require(x[1] >= y[1] - 1e-11,
                            '%s: pools %s and %s tie in desirability but the one with less potential profit is first',
                            when, x[2], y[2])
            if name == 'myopic' and x[1] < -1e-9 and y[1] < -1e-9:
                require(x[2] < y[2], '%s: pools %s and %s make a loss but are not ranked by age in the myopic ranking',
                        when, x[2], y[2])
            if same:
                require(x[2] < y[2], '%s: identical pools %s and %s are not ranked by age in the %s ranking', when,
                        x[2], y[2], name)


# -------------------------------------------------------------------------------------------------- derived values
def derived(sim, when=''):
    sch = scheme_of(sim)
    for pool in sim.pools.values():
        pp = sch.potential_profit(pool.pledge, pool.cost)
        require(abs(pool.potential_profit - pp) <= TOL,
                '%s: pool %s has potential profit %r instead of %r', when, pool.id, pool.potential_profit, pp)
        d = refs.desirability(pool.margin, pp)
        require(abs(pool.desirability - d) <= TOL, '%s: pool %s has desirability %r instead of %r', when, pool.id,
                pool.desirability, d)
        require(0 <= pool.margin <= 1, '%s: pool %s has margin %r', when, pool.id, pool.margin)


def own_pools_terms(sim, agent, when=''):
    """Cost, pledge and privacy of the pools of an agent, right after the agent made a move."""
    sch = scheme_of(sim)
    mine = [p for p in sim.pools.values() if p.owner == agent.unique_id]
    t = len(mine)
    if t == 0:
        return
    cost = refs.cost_per_pool(agent.cost, t, sim.extra_pool_cost_fraction)
    pledge = refs.pledge_per_pool(agent.stake, t, sch.z0)
    if hasattr(type(agent), 'reference_terms'):
        pledge, cost = type(agent).reference_terms(agent, t)  # a profile of the harness
    for p in mine:
        require(abs(p.cost - cost) <= TOL, '%s: each of the %d pools of agent %s should cost %r, pool %s costs %r', when,
                t, agent.unique_id, cost, p.id, p.cost)
        require(abs(p.pledge - pledge) <= TOL, '%s: each of the %d pools of agent %s should have pledge %r, pool %s has %r',
                when, t, agent.unique_id, pledge, p.id, p.pledge)
        sat = sch.saturation(p.pledge)
        if abs(p.pledge - sat) > 1e-12 or p.pledge == sat == sch.z0:
            require(bool(p.is_private) == (p.pledge >= sat),
                    '%s: pool %s with pledge %r and saturation point %r is %s', when, p.id, p.pledge, sat,
                    'private' if p.is_private else 'public')
