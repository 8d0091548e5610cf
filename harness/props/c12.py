"""Operation plans, for every decision of generated simulations."""
from harness import decisions, refs
from harness.core import require

PROPERTY = 'C12'
RULE = ('large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'one generated simulation; every plan to operate pools is compared with a reference model of the number of '
        'pools, margins, terms and kept pools. Non-trivial: at least 3 moves, one of which opens or changes pools. '
        'Distinct by case.')
ASSUMPTIONS = ['any locally optimal number of pools is accepted (tolerance 1e-11 in utility)',
               'margins are compared as a multiset, with a tolerance of 1e-9 or 1e-12 of profit',
               'plans whose margins depend on an exact tie with the target are accepted as they are']


class Operation(decisions.Judge):
    def start(self, sim, cfg):
        self.seen = set()
        self.highest = 0

    def judge(self, sim, agent, s, plan, when, ctx):
        self.seen |= set(s.pools)
        self.highest = max([self.highest] + list(s.pools))
        if plan is None or not plan.own:
            return
        t = len(plan.own)
        require(1 <= t <= s.k, '%s: plans %d pools with k = %d', when, t, s.k)
        est = s.estimates()
        require(s.is_local_optimum(t), '%s: plans %d pools although %r', when, t,
                {i: est[i][1] for i in (t - 1, t, t + 1) if i in est})
        pledge, cost = s.terms(t)
        margins, _, ambiguous = est[t]
        for pid, p in plan.own.items():
            require(p.id == pid and p.owner == s.agent_id, '%s: plans pool %s with id %s and owner %s', when, pid, p.id,
                    p.owner)
            require(abs(p.pledge - pledge) <= 1e-12 and abs(p.cost - cost) <= 1e-12,
                    '%s: plans %d pools with pledge %r and cost %r, pool %s has %r and %r', when, t, pledge, cost, pid,
                    p.pledge, p.cost)
            profit = s.sch.potential_profit(p.pledge, p.cost)
            require(abs(p.pp - profit) <= 1e-9, '%s: plans %d pools with pledge %r and cost %r, but believes the potential '
                    'profit of pool %s to be %r instead of %r', when, t, pledge, cost, pid, p.pp, profit)
            des = refs.desirability(p.margin, profit)
            require(abs(p.des - des) <= 1e-9, '%s: plans %d pools with potential profit %r, but believes the desirability '
                    'of pool %s, with margin %r, to be %r instead of %r', when, t, profit, pid, p.margin, p.des, des)
            sat = s.sch.saturation(p.pledge)
            if abs(p.pledge - sat) > 1e-12 or p.pledge == sat == s.sch.z0:
                require(p.private == (p.pledge >= sat), '%s: plans pool %s with pledge %r and saturation point %r as %s '
                        'pool', when, pid, p.pledge, sat, 'a private' if p.private else 'a public')
        if not ambiguous:
            pp = s.sch.potential_profit(pledge, cost) if s.profile == 'nonmyopic' else 1.0
            got = sorted(p.margin for p in plan.own.values())
            for a, b in zip(got, sorted(margins)):
                require(abs(a - b) <= 1e-9 or abs(a - b) * abs(pp) <= 1e-12,
                        '%s: plans %d pools with margins %r instead of %r', when, t, got, sorted(margins))
            if any(margins):
                ctx.label('positive margins')
            if len(set(margins)) > 1:
                ctx.label('different margins')
        kept = {pid for pid in plan.own if pid in s.mine}
        require(kept == s.kept(t), '%s: plans %d pools and keeps %r of its pools %r instead of %r', when, t,
                sorted(kept), [(p.id, p.des, p.pp, p.stake) for p in s.mine.values()], sorted(s.kept(t)))
        for pid in kept:
            old, new = s.mine[pid], plan.own[pid]
            require(abs((new.stake - new.pledge) - (old.stake - old.pledge)) <= 1e-11,
                    '%s: expects delegations of %r to pool %s, which has %r', when, new.stake - new.pledge, pid,
                    old.stake - old.pledge)
        for pid in plan.own:
            if pid not in kept:
                require(pid not in self.seen and pid > self.highest, '%s: plans a new pool with the used id %s', when,
                        pid)
                require(abs(plan.own[pid].stake - pledge) <= 1e-12, '%s: plans a new pool with stake %r and pledge %r',
                        when, plan.own[pid].stake, pledge)
        self.seen |= set(plan.own)
        if len(s.mine) > t:
            ctx.label('closes pools')
        if t > len(s.mine) > 0:
            ctx.label('opens more pools')
        ctx.label('t=%s' % (t if t < 3 else '3+'))


EXPERIMENTS = [
    decisions.decision_experiment('plans', Operation, 900, 20000, n_max=20, k_max=10),
    decisions.scripted_decision_experiment('scripted', Operation, 900, 20000),
    decisions.large_decision_experiment('large', Operation, 96, 1500),
]
