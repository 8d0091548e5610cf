"""Reference models, written independently of the engine: reward formulas, reward split, valuations, decisions."""
from fractions import Fraction
import math

MIN_UNIT = 2.2e-17
TARGET_BOOST = 1e-6


class Scheme:
    """The parameters of a reward scheme as observed on a simulation, with the documented formulas."""

    def __init__(self, kind, k, a0, z0, crossover=8, root=3):
        self.kind, self.k, self.a0, self.z0, self.crossover, self.root = kind, k, a0, z0, crossover, root

    def saturation(self, pledge):
        if self.kind == 4:
            return min(self.a0 * pledge, self.z0)
        return self.z0

    def reward(self, pledge, stake):
        z0, a0 = self.z0, self.a0
        if self.kind == 4:
            return min(stake, self.saturation(pledge))
        s = min(stake, z0)
        if self.kind == 3:
            x = z0 / self.crossover
            p = min(pledge ** (1 / self.root) * x ** ((self.root - 1) / self.root), z0)
        else:
            p = min(pledge, z0)
        if self.kind in (0, 3):
            extra = p * a0 * (s - p * (1 - s / z0)) / z0
        elif self.kind == 1:
            extra = s * a0 * p / z0
        else:
            extra = a0 * p
        return (s + extra) / (1 + a0)

    def profit(self, pledge, stake, cost):
        return self.reward(pledge, stake) - cost

    def potential_profit(self, pledge, cost):
        return self.reward(pledge, self.saturation(pledge)) - cost


SCHEME_KIND = {'CardanoRSS': 0, 'SimplifiedRSS': 1, 'FlatPledgeBenefitRSS': 2, 'CurvePledgeBenefitRSS': 3,
               'CIP50RSS': 4}


def exact_reward(kind, k, a0, pledge, stake, crossover=8, root=3):
    """Exact rational reward (k may be a Fraction). For the curve scheme the pledge term is evaluated in floats."""
    z0 = 1 / Fraction(k)
    a0, pledge, stake = Fraction(a0), Fraction(pledge), Fraction(stake)
    if kind == 4:
        return min(stake, min(a0 * pledge, z0))
    s = min(stake, z0)
    if kind == 3:
        x = z0 / Fraction(crossover)
        if root == 1:
            p = pledge
        else:
            p = Fraction(math.exp((math.log(float(pledge)) + (root - 1) * math.log(float(x))) / root)) if pledge > 0 \
                else Fraction(0)
        p = min(p, z0)
    else:
        p = min(pledge, z0)
    if kind in (0, 3):
        extra = p * a0 * (s - p * (1 - s / z0)) / z0
    elif kind == 1:
        extra = s * a0 * p / z0
    else:
        extra = a0 * p
    return (s + extra) / (1 + a0)


def desirability(margin, profit):
    return max((1 - margin) * profit, 0.0)


def operator_share(scheme, stake, pledge, margin, cost):
    """What the operator of a pool earns if the pool has the given stake."""
    profit = scheme.reward(pledge, stake) - cost
    if profit <= 0 or stake <= 0:
        return profit
    return profit * (margin + (1 - margin) * pledge / stake)


def delegator_share(scheme, allocation, stake, pledge, margin, cost):
    profit = scheme.reward(pledge, stake) - cost
    if profit <= 0 or stake <= 0:
        return 0.0
    return profit * (1 - margin) * allocation / stake


def cost_per_pool(cost, t, phi):
    return cost * (1 + (t - 1) * phi) / t


def pledge_per_pool(stake, t, z0):
    return min(stake / t, z0)
