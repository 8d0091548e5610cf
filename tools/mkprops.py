"""Writes /verif/properties.jsonl (the list of properties lives here)."""
import json
import os

SIM, STK, PRO, POOL, RS, HLP, REP, ACT = ('logic/sim.py', 'logic/stakeholder.py', 'logic/stakeholder_profiles.py',
                                          'logic/pool.py', 'logic/reward_schemes.py', 'logic/helper.py',
                                          'logic/model_reporters.py', 'logic/activations.py')
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


HIST = 'every reachable state: after every move of every agent and after every round, for every configuration, ' \
       'activation order and seed'
NOHIST = 'The tests look at single hand-made states; no stable test runs a whole simulation and inspects the states ' \
         'in between, and none does so under simultaneous activation.'

prop('C01', 'Pool stake ledger: pools and stakeholders always agree on who delegates what',
     'At every moment the stake of each active pool equals its pledge plus the stake delegated to it, and the '
     'delegations recorded by a pool are exactly those in the current strategies of its delegators, all positive. A '
     'private pool holds no delegations. This holds for every activation order, including when several agents move '
     'simultaneously and when pools close, turn private or change their terms while others delegate to them.',
     ['histories', 'schedules', 'configurations'], HIST, NOHIST, [STK, POOL, SIM],
     [('moves are executed by undoing old and applying new delegations', STK + ' execute_strategy'),
      ('delegations are returned when a pool closes or turns private', STK + ' remove_delegations'),
      ('pool side of the ledger', POOL + ' update_delegation')],
     [('pool.delegators', 'stake delegated to a pool, by delegator', POOL),
      ('strategy.stake_allocations', 'stake an agent delegates, by pool', 'logic/strategy.py')],
     ['after each agent move', 'after each round'])

prop('C02', 'Stake budget: nobody commits stake they do not own',
     'No stakeholder ever pledges and delegates more stake than it owns, and all pools together never hold more than '
     'the active share of the total stake (one minus the inactive fraction). Stakeholders that abstain neither operate '
     'pools nor delegate. The stake, cost and behavioural profile of a stakeholder never change during a simulation.',
     ['histories', 'schedules', 'configurations'], HIST, NOHIST, [STK, PRO, HLP],
     [('pledge is capped by stake and saturation', HLP + ' calculate_pledge_per_pool'),
      ('only the remaining stake of an operator is delegated', STK + ' find_delegation_for_operator'),
      ('abstainers never plan a move', PRO + ' Abstainer')],
     [('agent.stake', 'wealth of a stakeholder', STK)], ['after each agent move', 'after each round'])

prop('C03', 'Pool registry: pools, owners and ids stay consistent',
     'The active pools are at all times exactly the pools in the strategies of their owners, with identical terms on '
     'both sides, each pool has one owner that never changes, and delegations only refer to active pools of other '
     'stakeholders. Pool ids are positive, unique, never reused after a pool closes, and grow with the time of opening, '
     'even if a simulation is stepped manually before it is run to the end. No planned move is left pending when a '
     'round is over.',
     ['histories', 'schedules', 'configurations'], HIST, NOHIST, [STK, SIM],
     [('opening, updating and closing pools', STK + ' open_pool / update_pool / close_pool'),
      ('pool id sequence', SIM + ' get_next_pool_id')],
     [('model.pools', 'active pools by id', SIM), ('strategy.owned_pools', 'pools of an agent by id', STK)],
     ['after each agent move', 'after each round'])

prop('C04', 'Pool rankings: complete and correctly ordered at all times',
     'The two rankings of the system contain every active pool exactly once, in its current version, at every moment. '
     'The non-myopic ranking is ordered by desirability at saturation (ties: higher potential profit, then older pool) '
     'and the myopic one by desirability at the current stake (ties: older pool), under the reward scheme parameters '
     'in force. There are always at least k places in the rankings, also after a change of k.',
     ['histories', 'schedules', 'configurations'], HIST, NOHIST, [STK, SIM, HLP],
     [('pools are taken out before and re-inserted after every change', STK + ' execute_strategy'),
      ('rankings are rebuilt on a change of parameters', SIM + ' change_phase'),
      ('ranking keys', HLP + ' pool_comparison_key')],
     [('pool_rankings', 'non-myopic ranking', SIM), ('pool_rankings_myopic', 'myopic ranking', SIM)],
     ['after each agent move', 'after each round'])

prop('C05', 'Pool terms and valuations match the parameters in force',
     'The potential profit of every active pool is its reward at saturation under the parameters in force minus its '
     'cost, its desirability is the share of it that is left after the margin (never negative), and margins lie between '
     '0 and 1. Right after an operator with t pools moves, each of its pools costs the average of one full and t-1 '
     'discounted costs, carries the pledge min(stake/t, saturation point 1/k), and is private exactly if its pledge '
     'reaches its saturation point.',
     ['histories', 'schedules', 'configurations'], HIST, NOHIST, [POOL, STK, HLP, SIM],
     [('derived values are recomputed whenever terms change', POOL + ' set_profit / margin setter'),
      ('terms of the pools of an operator', STK + ' find_operator_move'),
      ('recomputed for a new phase', SIM + ' change_phase')],
     [('pool.potential_profit, pool.desirability', 'valuation of a pool', POOL)],
     ['after each agent move', 'after each round'])

prop('C06', 'Initial population: stakes, costs and profiles follow the configuration',
     'A simulation starts with n stakeholders and no pools; the stakes, positive unless the file has zeros, add up to one minus the inactive '
     'fraction and are proportional to the chosen source (Pareto sample with the given shape, equal stakes, or the '
     'values of the file). Costs follow the uniform distribution on the given interval, profiles are assigned at random '
     'with the given weights, whatever the id, stake or cost of a stakeholder (a zero weight means no such stakeholder), and a known inactive fraction f makes the system use '
     'k/(1-f) instead of k. Fewer or more agents than the file has values are drawn from these values without or with '
     'replacement, respectively.',
     ['inputs', 'configurations'], 'every population size, source, shape, file content, cost interval, profile weight, '
     'inactive fraction and seed',
     'The tests check the length of one Pareto sample and one flat distribution; normalization, inactive stake, '
     'profiles, costs and their distributions are never exercised.', [SIM, HLP],
     [('sampling', HLP + ' generate_stake_distr_* / generate_cost_distr_unfrm / read_stake_distr_from_file'),
      ('normalization', SIM + ' normalize_agent_stake'), ('profiles', SIM + ' initialize_agents')],
     [('agent.stake, agent.cost', 'endowment', STK)], ['after construction'])

prop('C07', 'Reward formulas: every scheme pays exactly what it specifies',
     'For every pledge, stake, k and a0 each reward scheme pays the amount of its published formula (Cardano, '
     'simplified, flat pledge benefit, curved pledge benefit of CIP-7, CIP-50), up to rounding. Stake beyond '
     'the saturation point earns nothing extra, rewards never exceed the pool\'s share cap 1/k, are '
     'non-negative (except in the curved scheme, whose formula is not), and do not decrease when stake is added; without pledge influence (a0 = 0) all but CIP-50 pay min(stake, 1/k). '
     'Changing k or a0 of a scheme takes full effect at once, including the saturation point.',
     ['inputs', 'configurations'], 'every scheme, pledge <= stake in [0, 1], k >= 1 and a0 >= 0',
     'The tests compare a few hand-picked points and never the saturation, the bounds or changes of parameters.',
     [RS, HLP],
     [('formulas', RS + ' calculate_pool_reward'), ('k setter updates the saturation point', RS + ' RSS.k')],
     [('global_saturation_threshold', 'saturation point', RS)], ['reward and saturation functions'])

prop('C08', 'Reward split: operator and delegators share the pool profit exactly',
     'For every pool the operator\'s earnings and the earnings of all delegators add up exactly to the reward of the '
     'pool minus its cost when that is positive; a loss is borne by the operator alone and no delegator ever earns less '
     'than zero. Delegators earn in proportion to their stake after the margin is deducted, the operator earns the '
     'margin plus the share of its pledge. In every reachable state of a simulation the rewards of all pools together '
     'do not exceed the rewards of the epoch.',
     ['inputs', 'histories'], 'every scheme, margin, cost, pledge and set of delegations, and all reachable states',
     'No test relates what operator and delegators earn to each other or to the reward of the pool.', [HLP, RS, STK],
     [('split', HLP + ' calculate_operator_reward_from_pool / calculate_delegator_reward_from_pool'),
      ('utilities', HLP + ' calculate_operator_utility_from_pool / calculate_delegator_utility_from_pool')],
     (), ['split functions', 'agents\' current utilities in reachable states'])

prop('C09', 'Non-myopic valuation: a pool counts as saturated iff better pools do not suffice',
     'In the non-myopic valuation a pool is expected to reach saturation (or to keep its stake, if larger) exactly if '
     'the pools ranked above it cannot hold the whole stake of the system without being over-saturated; otherwise it is '
     'expected to keep only its pledge. This is exact for every k: k saturated pools hold all the stake, so the pool at '
     'position k counts and the one at position k+1 does not. The pool needed to cover a target stake is found '
     'consistently with this.',
     ['inputs', 'histories'], 'every ranking of pools, scheme, k up to 1000 and position, including rankings with '
     'empty places',
     'The tests look at two rankings with k = 10, for which floating point happens to work out.', [HLP, PRO],
     [('valuation', HLP + ' calculate_non_myopic_pool_stake'), ('target pool', HLP + ' find_target_pool')],
     (), ['valuation functions', 'expected utilities of agents'])

prop('C10', 'Inertia: stakeholders move only if it pays by more than the thresholds',
     'When it is its turn, a stakeholder changes its strategy only if the expected utility of the new strategy exceeds '
     'both its current utility and the expected utility of its current strategy by more than the relative and the '
     'absolute utility threshold. It then takes the best of its options, delegation or operating pools (delegation in a '
     'tie), and if no option clears the thresholds it keeps its strategy. Merely considering options changes nothing in '
     'the system: no pool, delegation, ranking or strategy.',
     ['histories', 'schedules', 'configurations'], 'every decision of every agent in every run, for every profile, '
     'threshold, scheme and activation order',
     'No test runs a decision; the ones that try are broken. It needs an independent computation of all options in '
     'thousands of reachable states.', [STK, PRO, HLP],
     [('comparison of options', STK + ' update_strategy'),
      ('utilities', PRO + ' calculate_*_utility_*')],
     [('agent.new_strategy', 'planned move', STK)], ['before and after each decision'])

prop('C11', 'Delegation: stake flows to the best-ranked public pools with room',
     'A delegating stakeholder fills the public pools of others in the order of its profile\'s ranking, giving each '
     'one no more than what is left until its saturation (not counting the stakeholder\'s own present delegation), '
     'until its stake is used up. What does not fit goes to the best-ranked of the pools that were already saturated, '
     'if any. It never delegates to a private pool or to its own pools, and an operator delegates just the stake that '
     'it does not pledge.',
     ['histories', 'schedules', 'configurations'], 'every delegation move in every run, for every profile, scheme and '
     'activation order',
     'The only test of this is broken; saturated, private, own and already used pools combine in ways that only '
     'simulations produce.', [STK],
     [('greedy filling', STK + ' determine_stake_allocations'),
      ('own stake is taken out and put back', STK + ' determine_stake_allocations')],
     [('strategy.stake_allocations', 'stake an agent delegates, by pool', 'logic/strategy.py')],
     ['planned strategies'])

prop('C12', 'Operation plans: number of pools, margins and kept pools follow the rules',
     'When a stakeholder chooses to operate t pools, t lies between 1 and k and neither t-1 nor t+1 pools would promise '
     'it more under its profile\'s (myopic or non-myopic) estimate. The i-th margin leaves just '
     'enough to outrank the pool of others at position k+1-i (for non-myopic stakeholders: also once that pool earns its '
     'full potential profit), and is zero if that is out of reach; each pool carries the prescribed pledge and cost, and if there are fewer pools than before the most desirable ones are kept. New pools get fresh '
     'ids.',
     ['histories', 'schedules', 'configurations'], 'every operator move in every run, for every profile, scheme and '
     'activation order',
     'No test exercises the search for the number of pools or the margins; the few that come close are broken.',
     [STK, PRO, HLP],
     [('search for the number of pools', STK + ' choose_pool_strategy'),
      ('margins', PRO + ' calculate_margins_and_utility'),
      ('pools to keep', STK + ' determine_pools_to_keep')],
     [('strategy.owned_pools', 'pools of an agent', 'logic/strategy.py')], ['planned strategies'])

prop('C13', 'Termination: runs stop exactly at equilibrium or at the iteration limit',
     'A single-phase run stops right after the configured number of consecutive rounds without any move, or '
     'when the maximum number of rounds is reached, whichever comes first, and never otherwise. It reports an equilibrium '
     'exactly in the former case, at the round that lies the configured number of rounds before the last one. A '
     'reported equilibrium is a fixed point: no stakeholder would move if activated again.',
     ['histories', 'configurations', 'schedules'], 'every configuration, idle window >= 1 and iteration limit >= 1',
     'No stable test runs a simulation to its end.', [SIM, STK],
     [('idle rounds are counted', SIM + ' step'), ('convergence', SIM + ' has_converged'),
      ('moves mark the round as not idle', STK + ' advance')],
     [('consecutive_idle_steps', 'length of the idle streak', SIM)], ['every round', 'final state'])

prop('C14', 'Activation order: everybody acts once per round, in the configured order',
     'In every round each stakeholder is activated exactly once. Sequential activation follows the ids, random '
     'activation draws a fresh uniformly random order each round, simultaneous activation lets all plan before any '
     'executes, and semi-simultaneous activation does so within disjoint random groups of five. Planned moves are '
     'executed exactly once, and outside (semi-)simultaneous activation immediately.',
     ['schedules', 'configurations', 'histories'], 'every number of agents, seed and round',
     'No test runs a scheduler.', [ACT, SIM, STK],
     [('grouping', ACT + ' SemiSimultaneousActivation'), ('choice of scheduler', SIM + ' Simulation.__init__'),
      ('immediate execution', STK + ' step')],
     (), ['agent activations'])

prop('C15', 'Reproducibility: the seed determines the whole simulation',
     'Two simulations with the same parameters and seed go through identical states in every round and produce '
     'identical results, no matter which other simulations were run before, in between or concurrently in the '
     'same process, and no matter in which process they run. If no seed is given, the seed recorded in the initial '
     'state description reproduces the simulation.',
     ['histories', 'schedules', 'configurations'], 'every configuration and seed, every interleaving with other '
     'simulations, and different processes',
     'No test runs the same simulation twice.', [SIM, HLP, ACT],
     [('one seed for all generators', SIM + ' Simulation.__init__'),
      ('seeded sampling', HLP + ' generate_*')],
     [('model.random', 'generator of activation orders and profiles', SIM)], ['every round', 'output files'])

prop('C16', 'Phases: changed parameters take effect completely and touch nothing else',
     'If several values are given for a parameter, the system moves to the next value exactly when an equilibrium '
     'under the current ones is reached (keeping the last value when a list is exhausted), and records the round of '
     'the change. From then on all rewards, saturation points, valuations and rankings are those of the new '
     'parameters (with k inflated if the inactive stake is known), while pools, delegations and strategies are left as '
     'they were. A run is complete only after the last phase.',
     ['histories', 'configurations'], 'every combination of parameter lists of any length, scheme and seed',
     'No test uses more than one phase.', [SIM, RS, POOL],
     [('transition', SIM + ' change_phase'), ('k setter', RS)],
     [('current_phase, pivot_steps', 'phase bookkeeping', SIM)], ['round in which the phase changes'])

prop('C17', 'Pool and operator metrics report what their documentation defines',
     'In every state each metric about pools, pledges, margins, saturation, ranks, costs and operators equals '
     'its documented definition applied to the active pools and stakeholders, e.g. counts, sums, means, medians, '
     'maxima per operator, and ranks (of the owner of each pool) in which 1 is the richest or '
     'cheapest. All of them are 0 (or empty) when there are '
     'no pools, and none of them changes the state.',
     ['inputs', 'histories'], 'every set of pools, owners, pledges, margins, stakes and costs; every reachable state',
     'The tests compare a handful of the metrics on one or two small states each.', [REP, HLP],
     [('metrics', REP), ('registry of metrics', REP + ' ALL_MODEL_REPORTEERS, REPORTER_IDS')],
     (), ['metric functions'])

prop('C18', 'Decentralisation metrics report what their documentation defines',
     'In every state the Nakamoto coefficient is the smallest number of operators that together control more than half '
     'of the stake in pools, and statistical distance, Gini coefficients, homogeneity factor, pledge rate and '
     'min-aggregate pledge equal their definitions. They do not depend on the order or the ids of pools, nor (except '
     'for distances and sums) on the unit of stake. Nakamoto coefficients lie between 1 and the number of operators, '
     'Gini coefficients between 0 and 1 when there are pools.',
     ['inputs', 'histories'], 'every set of pools, owners, pledges and stakes; every reachable state',
     'The tests compare single points and no laws.', [REP],
     [('metrics', REP), ('solver for the min-aggregate pledge', REP + ' get_min_aggregate_pledge')],
     (), ['metric functions'])

prop('C19', 'Metrics time series: one faithful row per round',
     'The recorded time series has exactly the requested metrics and one value per round, namely the value of the '
     'metric in the state at the beginning of that round. The metrics file holds the same series. Which metrics are '
     'requested has no influence on the course of the simulation.',
     ['configurations', 'histories'], 'every selection of metrics and every run',
     'No stable test collects metrics over a run.', [SIM, REP],
     [('collection at the start of every round', SIM + ' step'), ('file', SIM + ' export_metrics_file'),
      ('identifiers', REP + ' REPORTER_IDS')],
     [('datacollector', 'time series', SIM)], ['every round', 'metrics.csv'])

prop('C20', 'Output files: complete and consistent with the final state',
     'Every finished run leaves the documented files in its folder, and they describe that run: the argument file its '
     'parameters, the initial description its seed and initial distribution, the pools file all active pools with '
     'their terms, the stakeholders file every stakeholder with its role, pools and controlled stake, and the final '
     'description and the experiment tracker the final counts and whether an equilibrium was reached.',
     ['configurations', 'histories'], 'every configuration and final state',
     'No stable test looks at an output file of a run.', [SIM, HLP],
     [('export', SIM + ' wrap_up_execution, export_*'), ('writers', HLP + ' export_csv_file, export_json_file')],
     (), ['output folder'])

prop('C21', 'Saved simulation object: loading it restores the finished simulation',
     'The simulation object that a finished run saves can always be loaded again, in any process, and is equal to the '
     'simulation that was saved: same parameters, stakeholders, strategies, pools, rankings, recorded metrics and '
     'equilibrium. All metrics can be computed from it with equal results, and its parts refer to each other as in the '
     'original (e.g. an operator\'s pool is the active pool).',
     ['configurations', 'histories'], 'every configuration and final state',
     'No test loads a saved simulation.', [SIM, STK, POOL, 'logic/strategy.py'],
     [('serialization', SIM + ' save_model_state_pkl')], (), ['simulation-object.pkl'])

prop('C22', 'Batch runs: every combination once, each identical to a run of its own',
     'A batch run executes every combination of the given parameter values exactly once per iteration, with the seed '
     'of the batch plus the number of the iteration, each in a folder of its own inside the folder of the batch. Each '
     'instance ends with the same results as the same simulation run on its own. The returned results and the '
     'aggregate file contain one row per instance with its varying parameters and the metrics recorded for its last '
     'round, '
     'independently of the number of processes.',
     ['configurations', 'schedules'], 'every grid of parameters, number of iterations, of processes and seed',
     'No test executes a batch run.', ['custom_batchrunner.py', 'batch-run.py', SIM],
     [('grid and seeds', 'custom_batchrunner.py custom_batch_run'),
      ('one instance', 'custom_batchrunner.py _model_run_func')],
     (), ['returned results', 'output folder', 'aggregate csv'])

prop('C23', 'Command line: documented values are accepted, used as given; others rejected',
     'For every option the command line accepts exactly the values in its documented domain (natural, '
     'non-negative or positive numbers, fractions, listed choices, as many values as allowed) and rejects any other '
     'with a usage error before anything is simulated. The accepted values, and the documented defaults for '
     'the options that are left out, are the parameters of the simulation that is run and recorded.',
     ['inputs'], 'every option and every string given as its value, and combinations of options',
     'No test parses a command line.', [HLP, 'main.py', 'batch-run.py'],
     [('argument types', HLP + ' positive_int, ... , fraction'), ('parser', HLP + ' add_script_arguments'),
      ('hand-over', 'main.py main')], (), ['parser', 'args.json of runs started by the scripts'])

prop('C24', 'Robustness: every admissible configuration runs to completion',
     'A simulation with any combination of admissible parameters (any number of agents from 1, any k, reward scheme, '
     'a0, stake source, cost interval including zero cost, profiles including nobody participating, thresholds, '
     'activation order, phases, metrics and graphs) runs to its end without an error. Each decision takes a number of '
     'steps that is bounded by the size of the system. All values it records are finite numbers.',
     ['configurations', 'inputs'], 'every admissible configuration', 'No stable test runs a simulation at all.',
     [SIM, STK, PRO, RS, HLP, REP, ACT],
     [('decision procedures', STK), ('export and graphs', SIM + ' wrap_up_execution')], (), ['whole runs'])

prop('C25', 'Ranks and elementary calculations obey their definitions',
     'Ranking values assigns the ranks 1 to N without gaps, higher values before lower ones, ties decided by the given '
     'tie-breakers in their order and then by the lower id, independently of the order of insertion. The '
     'average cost per pool, pledge per pool, margin needed for a target desirability and desirability left after a '
     'margin obey their defining equations for all inputs; in particular margin and desirability are inverse to each '
     'other, and operating more pools never makes the pools more expensive on average when additional pools are cheaper.',
     ['inputs'], 'all dictionaries of values and tie-breakers; all costs, stakes, factors and numbers of pools',
     'The tests compare a few points.', [HLP],
     [('ranks', HLP + ' calculate_ranks'), ('terms', HLP + ' calculate_cost_per_pool, calculate_pledge_per_pool, '
       'calculate_suitable_margin, calculate_pool_desirability')], (), ['functions'])

prop('C26', 'Unit invariance: only relative stakes matter',
     'Expressing all stakes of a stake file in another unit (multiplying them by a common power of two) leads to '
     'exactly the same simulation, round by round. Likewise, adding idle observers to a run, stepping it manually instead '
     'of running it, or choosing another output name has no influence on its course.',
     ['inputs', 'histories'], 'every stake file, unit and configuration', 'Tests never relate two simulations.',
     [SIM, STK, HLP], [('normalization', SIM + ' normalize_agent_stake')], (), ['every round'])

prop('C27', 'Interactive charts show the latest collected values',
     'Each chart of the interactive visualisation renders exactly the latest collected values of its series: line '
     'charts the value, bubble charts position, size, pool and owner of every pool, the stacked chart the stake '
     'controlled by each stakeholder. Before anything is collected, or for a series that is not collected, they render '
     'nothing for it instead of failing. The page draws exactly these values round by round, names charts and axes as the '
     'series say, tells the value (with its unit) in the tooltips, gives each stakeholder an area of its own colour, and is '
     'empty again after a reset.',
     ['histories', 'inputs'], 'every simulation state and selection of series', 'No test touches the visualisation.',
     ['interactiveViz/myChartModule.py', 'interactiveViz/bubbleChartModule.py', 'interactiveViz/stackedChartModule.py',
      REP], [('rendering', 'interactiveViz/*Module.py render'), ('drawing', 'interactiveViz/*Module.js render, reset')], (),
     ['render()', 'what the page gives to the chart library'])

prop('C28', 'Output folders: every execution gets a new one, nothing is overwritten',
     'Every execution, single or batch, gets the next serial number and a new folder named after the serial number and '
     'its identifier (the given one, or one made of its parameters). No execution changes the files that earlier '
     'executions left, and the experiment tracker keeps exactly one row per finished simulation, in the order in which '
     'they finished.',
     ['histories', 'inputs'], 'every sequence of single runs, batch runs and aborted runs in one directory, and every '
     'identifier',
     'The tests write and read back one serial number.', [SIM, HLP, 'custom_batchrunner.py'],
     [('serial numbers', HLP + ' read_seq_id, write_seq_id'), ('naming', HLP + ' generate_execution_id'),
      ('tracker', SIM + ' append_to_experiment_tracker')], (), ['output folder'])

prop('C29', 'Argument files: a recorded argument file replays its simulation',
     'Reading the parameters from an argument file that an earlier single run recorded (with its seed) leads to a simulation '
     'with exactly the same parameters and the same course and results as that run. The values in the file take '
     'precedence over all other arguments, and a missing or malformed file is reported as an error before anything is '
     'simulated.',
     ['configurations', 'inputs'], 'every configuration, every overriding argument, and every malformed file',
     'No test reads an argument file.', [SIM, HLP],
     [('reading', HLP + ' read_args_from_file'), ('recording', SIM + ' export_args_file')], (),
     ['args.json', 'course of the replayed simulation'])

prop('C30', 'Figures show exactly what was recorded',
     'With graphs enabled, a run saves one figure per recorded scalar metric, whose curve is the recorded series round by '
     'round, with a mark at every equilibrium that was reached and at every change of parameters; the figure of the stake '
     'per agent stacks exactly the recorded stakes. The figures of a batch run show, for every varying parameter and '
     'metric, exactly the (non-negative) results of the instances, and with two varying parameters a heat map with '
     'every result in the cell of its two values. Drawing figures changes no results and leaves no figure open.',
     ['histories', 'configurations', 'inputs'], 'every recorded series, history of equilibria and phases, and table of '
     'batch results', 'No test looks at a figure.', [HLP, SIM, 'batch-run.py'],
     [('graphs of a run', SIM + ' export_graphs; ' + HLP + ' plot_line, plot_stack_area_chart'),
      ('figures of a batch run', HLP + ' plot_aggregate_data, plot_aggregate_data_heatmap; batch-run.py')], (),
     ['figures folder'])

prop('C31', 'Sessions of the interactive visualisation show the simulation asked for',
     'Throughout a session, whatever the order of starting, stopping, stepping, resetting, changing the speed and changing '
     'parameters: the simulation of the server is the one that the current parameters describe, each step asked for '
     'advances it by exactly one round and shows the values collected for it, a reset or a changed parameter starts it '
     'afresh, parameters that are not settable cannot be changed, and a finished simulation only reports its end. The page '
     'asks for steps only after a click or while it is running (one at a time, at the chosen speed), and its button and '
     'step counter tell the state that it is in.',
     ['histories', 'schedules', 'configurations'], 'every history of messages, clicks and passing time, and every set of '
     'settable parameters',
     'No test starts the server or runs the script of the page.',
     ['interactiveViz/myModularVisualization.py', 'interactiveViz/templates/js/myruncontrol.js', SIM],
     [('server and messages', 'interactiveViz/myModularVisualization.py MyModularServer, MySocketHandler'),
      ('controls of the page', 'interactiveViz/templates/js/myruncontrol.js ModelController')], (),
     ['answers over the web socket', 'messages and calls of the page'])

prop('C32', 'Building blocks for variants of the simulation do what they say',
     'What the library offers beyond the standard run keeps its word for every input: the alternative cost distributions give '
     'one value per agent within the bounds asked for (in at most the given number of bands; the given number of high costs '
     'and otherwise low ones; distributed as the truncated normal distribution of the given mean and deviation) and reject '
     'reversed bounds; a truncated stake distribution has no value above its share of the sum; revising the beliefs sets the '
     'perceived active stake to the total stake of the pools and the expected number of pools to what it takes to hold that '
     'stake, and leaves saturation points and rewards as they are; a draft strategy without given margins gives its pools '
     'the margins that match the pool at place k of the ranking, and discarding it leaves the state and the next pool '
     'identifier as before; the target pool is the last one needed to cover a stake with saturated pools; '
     'semi-simultaneous activation with groups of any size lets all or one of them act per round; scientific notation denotes '
     'the number it is given, up to the digits asked for.',
     ['inputs', 'histories'], 'every choice of arguments, and every state that strategies lead to',
     'The tests cover one example of margins; the test of the beliefs is a stub.', [HLP, SIM, STK],
     [('cost and stake distributions', HLP + ' generate_cost_distr_*, truncate_pareto'),
      ('beliefs', SIM + ' revise_beliefs'), ('drafts', STK + ' calculate_margin, discard_draft_pools'),
      ('target pool, notation', HLP + ' find_target_pool, sci_notation'),
      ('groups', 'logic/activations.py SemiSimultaneousActivation')], (),
     ['return values', 'state of the simulation'])

prop('C33', 'Interrupted executions harm no others, and can be repeated',
     'If an execution (single or batch) is interrupted at any point, because its process is killed, by an exception such as '
     'Ctrl-C, or because a file cannot be created or renamed, then the files of earlier executions and their rows in the '
     'experiment tracker stay as they are, the tracker remains readable with at most one row for each simulation of the '
     'interrupted execution, and all later executions (in the same process, if it survives, or in others) run as if nothing '
     'had happened: with a new and higher serial number, a folder of their own, complete files and the same results as '
     'without the interruption. An execution that could not write one of its files does not end as if it had.',
     ['crash_points', 'fault_sequences', 'histories'], 'every execution, and every point of it at which it is interrupted',
     'No test interrupts an execution.', [SIM, HLP, 'custom_batchrunner.py'],
     [('serial numbers', HLP + ' read_seq_id, write_seq_id'), ('experiment tracker', HLP + ' write_to_csv'),
      ('output of a run', SIM + ' __init__, wrap_up_execution')], (),
     ['files', 'experiment tracker', 'exit of the process'])

prop('C34', 'Added reward schemes are used everywhere, like the existing ones',
     'A reward scheme that is added by extending the base class (with rewards and saturation points of its own) is the one '
     'that counts: potential profits, desirabilities, rankings, private pools, room for delegations, margins, choices of '
     'strategies, metrics and output files are all derived from the rewards and saturation points that it defines, for the '
     'pledge of each pool, also after a change of parameters. All other guarantees hold as with the existing schemes.',
     ['inputs', 'configurations', 'histories'], 'every scheme whose rewards do not fall with the stake up to the saturation '
     'point, every configuration and every reachable state',
     'The tests only use existing schemes, nearly all the one of Cardano.', [RS, SIM, STK, PRO, HLP, POOL],
     [('base class, registry', RS + ' RSS, RSS_MAPPING'), ('valuations', POOL + ' set_profit; ' + HLP + ' calculate_*'),
      ('decisions', STK + ', ' + PRO)], (),
     ['state of the simulation', 'plans of the stakeholders', 'metrics', 'files'])

prop('C35', 'Added stakeholder profiles are used everywhere, like the existing ones',
     'A stakeholder profile that is added to the mapping by extending the base class or an existing profile (with costs and '
     'pledges of pools, an order of pools, utilities or margins of its own) decides for its stakeholders and for no others: '
     'their pools have the costs, pledges and margins that it defines, their delegations follow its order of pools, and they '
     'move exactly when its utilities say so. All other guarantees hold for them as for stakeholders of existing profiles.',
     ['inputs', 'configurations', 'histories'], 'every profile with non-negative costs and pledges that its stakeholders can '
     'afford, every mix with existing profiles, every configuration and every reachable state',
     'The tests only use existing profiles.', [STK, PRO, SIM, HLP],
     [('methods that profiles override', STK + ' calculate_cost_per_pool, determine_pledge_per_pool, calculate_*'),
      ('registry', PRO + ' PROFILE_MAPPING'), ('assignment of profiles', SIM + ' initialize_agents')], (),
     ['state of the simulation', 'plans of the stakeholders', 'metrics', 'files'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
