#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run from anywhere; rewrites both files."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pymgrid/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[S + f for f in files], mechanism=mechanism, technique=technique, note=note,
                  observe=list(observe)))


prop('C01', 'Every step balances energy, and the balance log reports exactly that balance',
     'In a microgrid with a balancing module, every step returns with the energy provided by all modules equal to the '
     'energy absorbed by all modules, whatever modules, state and control are used. Without one, a step either balances '
     'the same way or raises RuntimeError. The balance log has one row per step whose fixed, controllable and overall '
     'provided/absorbed totals are the sums of the energies the respective modules report in that step.',
     ['inputs', 'histories', 'configurations'],
     'all compositions of modules (any number and names, weak grids, forecasts), all states reachable by step '
     'histories, all controls inside or outside limits, normalized or not',
     'The tests run a handful of fixed compositions for a few steps with in-range controls; imbalance arises from '
     'combinations of clipped requests, several modules per kind and outages.',
     ['microgrid/microgrid.py', 'microgrid/utils/step.py', 'modules/base/base_module.py'],
     [('run: fixed, then controllable, then flexible dispatch', 'microgrid/microgrid.py run'),
      ('step accounting and balance', 'microgrid/utils/step.py MicrogridStep')],
     'property-based testing: random episodes against an energy-balance invariant',
     'Random exploration of episodes, invariant recomputed from the info of every step; no exhaustiveness.',
     ['Microgrid.run', 'Microgrid.get_log'])

prop('C02', 'Loads take their exact demand and flexible modules close the balance in order',
     'In every step each load absorbs exactly its series value for the current step and controllable modules act only '
     'as requested. A remaining shortfall is met from renewables in their order in the microgrid, each up to its '
     'current series value with the rest of that value reported as curtailed, and only then as loss load; a remaining '
     'excess leaves renewables unused and is reported as overgeneration. Loss load and overgeneration are never both '
     'non-zero.',
     ['inputs', 'histories', 'configurations'],
     'all compositions with several loads/renewables under arbitrary names, all steps of the series, all controls',
     'Tests use at most one or two renewables with convenient numbers.',
     ['microgrid/microgrid.py', 'modules/load_module.py', 'modules/renewable_module.py',
      'modules/unbalanced_energy_module.py'],
     [('flexible dispatch loops', 'microgrid/microgrid.py run'),
      ('curtailment', 'modules/renewable_module.py update'),
      ('loss load / overgeneration', 'modules/unbalanced_energy_module.py')],
     'property-based testing: random episodes against a reference dispatch',
     'Random exploration; reference dispatch recomputed from the series and the controllable energies.',
     ['Microgrid.run info', 'module logs'])

prop('C03', 'Requests within limits are honoured exactly; others are clipped or refused',
     'A battery, genset or grid asked for energy within its current limits moves exactly that amount. Asked for more '
     'than its maximum (or, for a running genset, less than its minimum) it moves exactly the nearest limit when '
     'raise_errors is off, and raises ValueError without moving, logging or advancing when raise_errors is on. The '
     'advertised max_production, min_production and max_consumption are those limits, given by the module\'s parameters '
     'and current state.',
     ['inputs', 'histories', 'configurations'],
     'all parameters, states reached by histories, and requests at, inside and outside the limits',
     'Tests sample single requests from default states.',
     ['modules/base/base_module.py', 'modules/battery_module.py', 'modules/genset_module.py',
      'modules/grid_module.py'],
     [('clipping and raising', 'modules/base/base_module.py as_source / as_sink'),
      ('limits', 'max_production / max_consumption of each module')],
     'property-based testing: stateful request histories against limits recomputed from parameters and state',
     'Random exploration; a refused genset request may still have changed the genset status.',
     ['module.step', 'Microgrid.run'])

prop('C04', 'Batteries account for every unit of energy and stay within capacity',
     'Over any history, a battery\'s charge changes by exactly efficiency times the energy absorbed minus the energy '
     'provided divided by efficiency, and always stays between min_capacity and max_capacity; soc is charge divided by '
     'max_capacity. No step stores or releases more than max_charge or max_discharge, and its reward is minus the '
     'cycle cost times the internal energy change. A user-supplied transition model replaces the efficiency relation '
     'in exactly the same way.',
     ['inputs', 'histories', 'configurations'],
     'all battery parameters (initial charge or soc, custom transition models) and all request histories',
     'Tests check single charge/discharge steps; drift and rounding at the limits need long random histories.',
     ['modules/battery_module.py'],
     [('transition model and state update', 'modules/battery_module.py update / model_transition / _update_state'),
      ('limits', 'modules/battery_module.py max_production / max_consumption')],
     'property-based testing: stateful request histories against an energy-accounting model',
     'Random exploration of histories, alone, in microgrids and in benchmark scenarios.',
     ['BatteryModule.step', 'state_dict'])

prop('C05', 'Gensets follow the start-up/wind-down protocol and production range',
     'A genset\'s status changes only after the requested goal has been pursued for its full start-up or wind-down '
     'time (at once if zero); reversing the goal aborts a change in progress only if abortion is allowed or the reverse '
     'change takes no time. While running it produces the request clipped to its running range, while off nothing, at '
     'its fuel cost plus emission cost, and the predicted next status and production limits always match what the next '
     'request brings about. Reset returns it to its initial status.',
     ['inputs', 'histories', 'configurations'],
     'all start-up/wind-down times, abortion settings and sequences of goal statuses and requests',
     'Tests exercise a few fixed goal sequences with small times; the protocol is a state machine over histories.',
     ['modules/genset_module.py'],
     [('status machine', 'modules/genset_module.py update_status / next_status'),
      ('costs', 'modules/genset_module.py get_cost / get_co2')],
     'model-based testing: goal/request histories against a reference state machine',
     'Random exploration of histories; fractional goals of exactly 0.5 excluded.',
     ['GensetModule.step', 'state_dict'])

prop('C06', 'Grid exchange respects limits and outages at the current step\'s prices',
     'In every step a grid imports at most max_import and exports at most max_export, and exchanges exactly nothing '
     'during an outage (status 0). Its reward is export revenue minus import cost minus the carbon cost of the '
     'emissions of the imported energy, at the prices and emission rate of the current step\'s series entry, and '
     'reported emissions are rate times import. A 3-column series means the grid is always available.',
     ['inputs', 'histories', 'configurations'],
     'all series, outage patterns, limits, initial steps and request histories',
     'Tests use constant or random series for single steps.',
     ['modules/grid_module.py'],
     [('limits with grid status', 'modules/grid_module.py max_production / max_consumption'),
      ('cost', 'modules/grid_module.py get_cost / get_co2_production')],
     'property-based testing: request histories against prices, limits and outages read from the series',
     'Random exploration.', ['GridModule.step', 'Microgrid.run'])

prop('C07', 'The step reward is the sum of all module costs, shaped at most once',
     'Without a shaping function, the reward of a step is the sum of the contributions of all modules (each as '
     'documented from its parameters and energies), equal to the logged reward and to the sum of the logged module '
     'rewards. With one, it is called exactly once per step with the complete step information and the pre-step '
     'marginal cost information; its value is what run returns and logs as shaped_reward, while the logged reward '
     'stays unshaped.',
     ['inputs', 'histories', 'configurations'],
     'all compositions, controls, histories and shaping functions',
     'Tests check reward signs and single-module costs, not the total over compositions and histories.',
     ['microgrid/utils/step.py', 'microgrid/microgrid.py', 'microgrid/reward_shaping'],
     [('reward accumulation and shaping', 'microgrid/utils/step.py MicrogridStep'),
      ('cost information', 'microgrid/microgrid.py get_cost_info')],
     'property-based testing: rewards recomputed from parameters, series and energies',
     'Random exploration; recording shaping functions observe the calls.', ['Microgrid.run', 'balance log'])

prop('C08', 'One clock: modules step together, end on time and reset completely',
     'All modules of a microgrid always share one current step, which starts at the initial step and advances by one '
     'per run; done is reported exactly when the step just run was the last one before the final step. Reset returns '
     'to the initial step, empties every log and restores observations, so that a replay of the same controls after '
     'reset (with batteries set to the same charge) gives the same observations, rewards and infos. Changing the '
     'initial or final step takes effect for all modules from the next reset. A control that lacks a controllable '
     'module is refused before any module has moved.',
     ['inputs', 'histories', 'configurations'],
     'all compositions, initial/final steps, histories of runs, resets and step changes',
     'Tests reset once after a few steps; completeness of reset depends on all hidden state a history can build up.',
     ['microgrid/microgrid.py', 'modules/base/base_module.py', 'modules/base/timeseries/base_timeseries_module.py',
      'modules/genset_module.py'],
     [('step counter', 'modules/base/base_module.py _update_step'),
      ('termination', 'modules/base/timeseries/base_timeseries_module.py _done'),
      ('reset', 'microgrid/microgrid.py reset')],
     'stateful property-based testing: run/reset/step-change histories against a clock model and replay comparison',
     'Random exploration; noisy forecasters excluded from replay comparison; battery charge is documented not to be '
     'reset and is set by the check.', ['Microgrid.run', 'Microgrid.reset', 'current_step'])

prop('C09', 'The log records every step of the current trajectory, faithfully',
     'The log has exactly one row per step run since the last reset, indexed by the step numbers of the current '
     'trajectory, with columns (module name, module number, field) for every module and the balance. Each row holds '
     'the rewards and energies that run returned for that step and the state each module had when the step was run; '
     'later steps never change earlier rows, and the last entry of a module log is that of the last step.',
     ['histories', 'configurations'],
     'all compositions and names, forecasts, trajectories and histories of runs and resets',
     'Tests look at log lengths and a few columns.',
     ['microgrid/microgrid.py', 'utils/logger.py', 'modules/base/base_module.py'],
     [('loggers', 'utils/logger.py ModularLogger'), ('assembly', 'microgrid/microgrid.py get_log')],
     'property-based testing: log compared with everything recorded at run time',
     'Random exploration; genset status columns are the status in force during the step.',
     ['Microgrid.get_log', 'Microgrid.log', 'module.log'])

prop('C10', 'Normalization is the affine map of each module\'s bounds; samples are valid',
     'Each module\'s normalized actions and observations are the affine images of its bounds onto [0, 1], '
     'normalizing and un-normalizing are inverse, and running a normalized control equals running its un-normalized '
     'value. The un-normalized action range of a module contains every request it can honour and every observation '
     'lies within the observation bounds. Sampled actions belong to the action space, and samples with strict bounds '
     'are honoured without clipping or error. Seeding a space determines its samples.',
     ['inputs', 'histories', 'configurations'],
     'all module parameters, states and values',
     'Tests sample one action per module at the initial state.',
     ['utils/space.py', 'modules/base/base_module.py', 'modules/battery_module.py', 'modules/genset_module.py',
      'modules/grid_module.py', 'microgrid/microgrid.py'],
     [('spaces', 'utils/space.py ModuleSpace / MicrogridSpace'),
      ('sampling', 'modules/base/base_module.py sample_action; modules/genset_module.py sample_action')],
     'property-based testing: round trips and differential runs of normalized vs un-normalized controls',
     'Random exploration; bounds recomputed from parameters.', ['to_normalized', 'from_normalized', 'sample_action'])

prop('C11', 'Forecasts describe the future they claim and never alter the series',
     'An oracle forecast equals the series\' future values; a noisy or user-defined forecast keeps the sign and bounds '
     'of the series, a user-defined one being the function applied to the current value and the future value (and, for '
     'scalar functions, the number of steps ahead). Entries beyond the end of the series are the middle of the observation range, and the '
     'state always has exactly horizon entries per component. Setting a forecaster, by value or by module name, a '
     'horizon or a new time series takes effect at once, and forecasting never changes the series.',
     ['inputs', 'histories', 'configurations'],
     'all series, horizons, steps (including past the end), forecaster kinds and settings',
     'Tests check a few horizons in the middle of a series.',
     ['forecast/forecaster.py', 'modules/base/timeseries/base_timeseries_module.py', 'microgrid/microgrid.py'],
     [('forecasters', 'forecast/forecaster.py'),
      ('module forecast', 'modules/base/timeseries/base_timeseries_module.py forecast / set_forecaster')],
     'property-based testing: forecasts at every step compared with the series',
     'Random exploration; noisy forecasters only checked for shape, sign, bounds and zero-noise limits.',
     ['state_dict', 'set_forecaster', 'forecast'])

prop('C12', 'Serialization round-trips microgrids and environments at any point',
     'Dumping a microgrid, module or environment at any point of an episode (inline or to a file) and loading it gives '
     'an equal object with the same settings, series, state, step, logs, trajectory and reward shaping, in the same '
     'module order. Continuing with the same controls gives identical observations, rewards, infos and logs. Dumping '
     'changes nothing in the dumped object, nor in what other documents of the same directory load as. Documents may '
     'leave out parameters that have a default, which then applies; those lacking a required one are refused; those '
     'naming a benchmark scenario load it.',
     ['histories', 'configurations'],
     'all compositions, forecasters, histories before the dump and continuations after it',
     'Tests round-trip fresh or barely stepped microgrids and compare with __eq__, which ignores parts of the state.',
     ['utils/serialize.py', 'microgrid/microgrid.py', 'modules/base/base_module.py', 'utils/logger.py',
      'envs/base/base.py'],
     [('dump/load', 'microgrid/microgrid.py dump / from_yaml'),
      ('module state', 'modules/base/base_module.py serialize / deserialize')],
     'property-based testing: round trip plus differential continuation of the episode',
     'Random exploration; noisy forecasters compared up to the current forecast being redrawn.',
     ['dump', 'load', 'run'])

prop('C13', 'Priority lists deploy modules greedily, in order, to meet the net load',
     'A priority list covers each controllable module at most once per choice and is executed greedily: in list order '
     'each module is asked for exactly what remains of the net load (load minus renewable), limited to what it can '
     'provide or absorb at that moment, and gensets are switched as the list says. The discrete environment\'s actions '
     'are exactly the possible lists, and every action executes its own list. Rule-based control repeats its list '
     'every step, by default one ordered by the marginal cost at the start.',
     ['inputs', 'histories', 'configurations'],
     'all compositions, all lists and histories',
     'Tests run a few steps of a few fixed compositions.',
     ['algos/priority_list', 'envs/discrete/discrete.py', 'algos/rbc/rbc.py'],
     [('deployment', 'algos/priority_list/priority_list.py _populate_action'),
      ('enumeration', 'algos/priority_list/priority_list.py get_priority_lists')],
     'property-based testing: differential against a reference greedy dispatch',
     'Random exploration; the resulting energies are compared, not the internal control dictionary.',
     ['DiscreteMicrogridEnv.step', 'RuleBasedControl.run'])

prop('C14', 'Environments expose the microgrid through valid gym observations',
     'Every observation an environment returns (reset and step, flat or nested) belongs to its observation space and '
     'holds the normalized state of the wrapped microgrid, restricted to and ordered by observation_keys when given. '
     'Every action of the action space is accepted and has the effect of the microgrid control it stands for, with the '
     'same reward and termination as running that control. Creating an environment from a microgrid leaves that '
     'microgrid unchanged.',
     ['inputs', 'histories', 'configurations'],
     'all compositions, observation keys, flat/nested settings, actions and histories',
     'Tests check space membership for one or two compositions.',
     ['envs/base/base.py', 'envs/discrete/discrete.py', 'envs/continuous/continuous.py', 'utils/space.py'],
     [('observation assembly', 'envs/base/base.py _get_obs'), ('actions', 'envs/*/ step / run / convert_action')],
     'property-based testing: differential between environment and microgrid',
     'Random exploration.', ['env.step', 'env.reset', 'spaces'])

prop('C15', 'Model predictive control applies an optimal, feasible first action',
     'At every step model predictive control applies a control that the microgrid can execute without loss from '
     'clipping, and that is the first action of a minimum-cost plan over the forecast horizon for the documented cost '
     'model (fuel, import, export revenue, emissions, battery cycles, loss load), respecting battery, genset and grid '
     'limits including outages. This holds for modular and converted non-modular microgrids, at every step of the run.',
     ['inputs', 'configurations'],
     'all single-battery/genset/grid microgrids in scope, series, states and horizons',
     'Tests only run a few steps for crashes; optimality is a claim over all feasible plans.',
     ['algos/mpc/mpc.py'],
     [('problem and parameters', 'algos/mpc/mpc.py ModelPredictiveControl')],
     'differential testing against an independently written LP/MILP (scipy HiGHS)',
     'Random exploration of small horizons; optimal value compared, not the plan; needs no MOSEK licence.',
     ['ModelPredictiveControl.run'])

prop('C16', 'Trajectories bound each episode as the trajectory function says',
     'At every reset the trajectory function is called once with the microgrid\'s full initial and final step, and the '
     'episode then runs exactly the steps from the returned initial to the returned final step. The built-in '
     'functions return non-empty windows within the range: the deterministic one its bounds, the stochastic one any '
     'window, the fixed-length one windows of exactly its length at every possible place. Functions that return '
     'anything else are refused when the microgrid is constructed. An environment made from a microgrid, inside an '
     'episode or not, keeps its full range.',
     ['inputs', 'histories', 'configurations'],
     'all ranges, functions and numbers of episodes', 'Tests sample a few windows.',
     ['microgrid/trajectory', 'microgrid/microgrid.py'],
     [('functions', 'microgrid/trajectory/*.py'), ('application', 'microgrid/microgrid.py _set_trajectory')],
     'property-based testing: episodes against the recorded trajectory, plus coverage of small ranges',
     'Random exploration; coverage of all windows checked statistically on small ranges with a fixed seed.',
     ['Microgrid.reset', 'Microgrid.run'])

prop('C17', 'Conversion between modular and non-modular microgrids preserves the system',
     'Converting a non-modular microgrid to a modular one (or back) keeps the load, renewable and grid series, the '
     'battery, genset and grid parameters, initial state of charge, costs and forecast horizon. Running the same '
     'feasible control on both gives the same energies, battery state and costs (battery wear is counted inside the '
     'battery by one and at its terminals by the other). Systems the non-modular form cannot hold are refused. '
     'Conversion changes neither the source nor the global random state.',
     ['inputs', 'configurations'],
     'all generated and benchmark microgrids, controls and steps',
     'Tests convert a few generated microgrids and compare a few attributes.',
     ['convert/convert.py', 'convert/get_module.py', 'convert/to_nonmodular_ops.py'],
     [('to modular', 'convert/get_module.py'), ('to non-modular', 'convert/to_nonmodular_ops.py')],
     'property-based testing: round trip and differential execution',
     'Random exploration; dynamic equivalence only where both models define the same physics (unit efficiency).',
     ['to_modular', 'to_nonmodular'])

prop('C18', 'The microgrid generator is reproducible and generates consistent microgrids',
     'Generating with the same seed and size gives the same microgrids, in whatever order the data files are listed, and any generated microgrid has one load and '
     'renewable series of a year, a battery within its state-of-charge bounds, and at least a grid or a genset, with a '
     'genset wherever the grid is weak; a grid that is not weak is always available. Sizes follow the documented rules: '
     'renewable peak 30 to 150 % of the peak load, a battery of 3 to 5 hours of mean load, a genset and a grid that '
     'cover the peak load, documented tariffs. The modular and non-modular form of a seed describe the same system. '
     'Every generated microgrid can be run from start to end.',
     ['inputs', 'configurations'], 'all seeds and numbers of microgrids',
     'Tests generate with one or two seeds.',
     ['MicrogridGenerator.py'],
     [('generation', 'MicrogridGenerator.py _create_microgrid and helpers')],
     'property-based testing over seeds: reproducibility and validity invariants',
     'Random exploration of seeds.',
     ['MicrogridGenerator.generate_microgrid'])

prop('C19', 'The benchmark scenarios are complete, valid and reproducible',
     'Each of the 25 benchmark scenarios loads with the same modules, parameters and series every time and runs any '
     'control from any step of the year with finite, balanced results. Numbers outside 0 to 24 are refused. Loading '
     'one never affects another.',
     ['inputs', 'configurations'], 'all 25 scenarios, all steps, all controls',
     'Tests load scenarios but run only a few steps of a few.',
     ['microgrid/microgrid.py', 'utils/serialize.py'],
     [('loading', 'microgrid/microgrid.py from_scenario; utils/serialize.py')],
     'property-based testing: scenario windows with reference digests of parameters and series',
     'Series and parameters compared with the data files read independently; random windows.',
     ['Microgrid.from_scenario'])

prop('C20', 'Microgrids and modules are isolated from their inputs and from each other',
     'Constructing, running, copying, converting or wrapping a microgrid never changes the modules, arrays, controls or '
     'microgrids passed in, and later changes to those do not reach it. Any number of microgrids, also built from the '
     'same modules or copies of each other, evolve independently, whatever the interleaving of their steps.',
     ['histories', 'schedules', 'configurations'],
     'all compositions and all interleavings of operations on several microgrids',
     'Tests use one microgrid at a time.',
     ['microgrid/microgrid.py', 'modules/module_container.py', 'modules/base/base_module.py', 'envs/base/base.py'],
     [('copying', 'microgrid/microgrid.py _get_module_container')],
     'stateful property-based testing: interleaved histories against solo runs',
     'Random exploration of interleavings.', ['Microgrid', 'deepcopy'])

prop('C21', 'Modules are reachable under their names and grouped by role, without loss',
     'Every module passed is found exactly once under its name, in order, by container, attribute, iteration and list '
     'access, and in exactly the groups (fixed, flexible, controllable; source, sink, both) that its class documents. '
     'Names shared by modules of different roles are refused. Attribute and state queries over modules report the '
     'values of the right module.',
     ['inputs', 'configurations'], 'all lists of modules and names',
     'Tests use a few fixed lists.',
     ['modules/module_container.py', 'microgrid/microgrid.py'],
     [('container', 'modules/module_container.py')],
     'property-based testing: container against a reference grouping', 'Random exploration.',
     ['Microgrid.modules', 'state_dict', 'get_attrs'])

prop('C22', 'Built-in reward shapers score exactly what they document',
     'The PV curtailment shaper returns minus the total curtailment of all renewables in the step. The battery '
     'discharge shaper returns the share of the load met by battery discharge beyond loss load, always within '
     '[-1, 1] and 0 without load. Both work under default and documented names with any number of modules.',
     ['inputs', 'histories', 'configurations'], 'all compositions and steps',
     'Tests use single modules and fixed numbers.',
     ['microgrid/reward_shaping'],
     [('shapers', 'microgrid/reward_shaping/*.py')],
     'property-based testing: shaped rewards recomputed from step energies', 'Random exploration.',
     ['Microgrid.run with reward_shaping_func'])

prop('C23', 'Noisy data generation follows its source statistics and leaves its source alone',
     'Noisy load, renewable and grid-status series generated from whole days of data have the length of the data and no '
     'negative or undefined values, and are reproducible from the random state, whatever was sampled before. Renewable '
     'samples are daily parabolas between dawn and dusk with their peak within the learned bounds, plus the requested '
     'relative noise, and pushing them fully reproduces the data; load samples are drawn around the mean of their weekday '
     'and hour with its deviation, scaled; grid samples only take states and transitions seen in the data. Source data '
     'and microgrids are never altered by generation.',
     ['inputs', 'configurations'], 'all source series, noise types, levels and random states', 'Few direct tests.',
     ['utils/DataGenerator.py'], [('generators', 'utils/DataGenerator.py')],
     'property-based testing of samples against independently computed statistics and envelopes', 'Random exploration.',
     ['SampleGenerator', 'NoisyPVData.sample', 'NoisyLoadData.sample', 'NoisyGridData.sample'])

prop('C24', 'Legacy non-modular microgrids keep physics and cost accounting consistent',
     'Every run of a non-modular microgrid clips the control to the battery, grid and genset limits, balances the '
     'remaining energy as loss load, curtailment or overgeneration, and keeps the state of charge within bounds. The '
     'recorded costs are the recorded productions times their prices, and the total is their sum. Controls not given '
     'are recorded as 0, and the penalty is its coefficient times the sum of the differences between recorded controls '
     'and productions. Reset returns to the first step and empties all records. The control passed in is left as it '
     'was.',
     ['inputs', 'histories', 'configurations'], 'all architectures, controls and histories',
     'Tests run a few fixed controls.',
     ['_deprecated/non_modular_microgrid.py'],
     [('production check, status and cost', '_deprecated/non_modular_microgrid.py')],
     'stateful property-based testing against a reference simulation', 'Random exploration.',
     ['NonModularMicrogrid.run'])

prop('C25', 'Legacy control algorithms follow their rule and record what it leads to',
     'Rule-based control of a non-modular microgrid serves the load from renewables first, then from the battery and an '
     'available grid (battery first if the import price exceeds the export price over squared efficiency), then from '
     'the genset, which runs at least at its minimum when renewables and battery cannot cover the load and the grid is '
     'out; surplus renewables are stored or exported in the same order. Sample-average control applies at each step '
     'the first action of an optimal plan for one of the samples, the one at the requested cost percentile. The actions, '
     'productions, costs, emissions and states that rule-based, sample-average and model predictive control record are '
     'those the microgrid gives for the applied actions, without changing the microgrid, and benchmark reports are the '
     'sums of these costs.',
     ['inputs', 'configurations', 'histories'], 'all architectures with a battery, series, prices, outages and samples',
     'Tests run one microgrid with one algorithm and check little of the output.',
     ['algos/rbc/_nonmodular_rbc.py', 'algos/saa/saa.py', 'algos/Control.py', 'algos/mpc/mpc.py',
      '_deprecated/non_modular_microgrid.py'],
     [('priority rule', 'algos/rbc/_nonmodular_rbc.py'), ('percentile choice', 'algos/saa/saa.py'),
      ('recording and reports', 'algos/Control.py')],
     'property-based testing against a reference rule, an independent MILP and a reference simulation',
     'Random exploration; short horizons.', ['NonModularRuleBasedControl.run_rule_based',
                                             'SampleAverageApproximation.run', 'Benchmarks.run_benchmarks'])

# ------------------------------------------------------------------------------------------------------------------

NOT_APPLICABLE = []


prop('C26', 'User-defined modules take part in a microgrid exactly as built-in ones do',
     'A module that a user derives from the base class, of any role (fixed, flexible, controllable) and direction '
     '(source, sink, both), is grouped by its role, stepped once per run, asked for its own amount (fixed), for the '
     'request clipped to the limits it advertises at that moment, or refused with raise_errors (controllable), or for '
     'what remains of the shortfall or excess up to those limits, in the order of the flexible modules, before the '
     'balancing module (flexible). Its energies, rewards, states and observations enter the balance, the reward, the log '
     'and the normalized observations like those of a built-in module, and it can be dumped and loaded at any point.',
     ['inputs', 'configurations', 'histories'], 'all roles, directions, limits, numbers and orders of user-defined modules '
     'next to built-in ones, and all requests',
     'Tests define one or two toy modules; roles such as limited flexible sinks or fixed sources are never run.',
     ['modules/base/base_module.py', 'microgrid/microgrid.py', 'modules/module_container.py'],
     [('step and clipping', 'modules/base/base_module.py'), ('deployment of flexible modules', 'microgrid/microgrid.py'),
      ('grouping', 'modules/module_container.py')],
     'property-based testing with generated module classes and systems against a reference dispatch and ledger',
     'Random exploration; 1-5 user-defined modules, up to 10 steps.', ['Microgrid.run', 'Microgrid.log'])

prop('C27', 'Specifications that make no sense are refused where they are made',
     'A time series of mixed sign, a grid with negative limits, prices or a non-binary status or with other than three or '
     'four columns, a genset whose minimum exceeds its maximum, a battery without an initial charge or with an efficiency '
     'outside (0, 1], a final step that is fractional or not after the initial step, a forecaster that is unknown, fails, or '
     'returns the wrong sign, shape or type, modules that do not share their initial and final step, unknown names, keys or '
     'attributes, values of the wrong length and actions outside the action space are refused with an exception when given, '
     'also when assigned later, and what existed before is left as it was. Edge cases that make sense are accepted: zero '
     'limits, equal minimum and maximum, one-step episodes, lists as series, negative load values; controls for modules that '
     'take none are ignored with a warning.',
     ['inputs', 'configurations'], 'all valid modules, microgrids, environments and controls with one defect or edge case',
     'Tests try one example of some of the defects.',
     ['modules/grid_module.py', 'modules/genset_module.py', 'modules/battery_module.py',
      'modules/base/timeseries/base_timeseries_module.py', 'forecast/forecaster.py', 'microgrid/microgrid.py',
      'modules/module_container.py', 'utils/space.py', 'envs/base/base.py', 'envs/discrete/discrete.py'],
     [('series checks', 'modules/base/timeseries/base_timeseries_module.py'), ('grid checks', 'modules/grid_module.py'),
      ('forecaster validation', 'forecast/forecaster.py'), ('control and trajectory checks', 'microgrid/microgrid.py')],
     'property-based testing: generated valid specifications with one injected defect or edge case',
     'Random exploration; one defect at a time.', ['constructors', 'setters', 'Microgrid.run', 'env.step'])

prop('C28', 'Looking changes nothing, and what was handed out belongs to the caller',
     'Reading anything from a microgrid, module or environment, modular or legacy (state, observations, logs, cost '
     'information, limits, forecasts, properties, samples, spaces, representations, comparisons, copies, dumps, conversions, '
     'environments or controllers made from it), in any order, any number of times and between any two steps, changes '
     'nothing that later steps do, return or log. Overwriting what a step, reset or query returned changes nothing in '
     'the microgrid either.',
     ['inputs', 'histories', 'programs'],
     'all microgrids, histories and sequences of reads between their steps',
     'Tests compare single values; none runs a history with and without reads.',
     ['microgrid/microgrid.py', 'modules/base/base_module.py', 'modules/base/timeseries/base_timeseries_module.py',
      'modules/module_container.py', 'utils/logger.py', 'envs/base/base.py', '_deprecated/non_modular_microgrid.py'],
     [('queries', 'microgrid/microgrid.py state_dict, get_log, sample_action, ...'),
      ('module state and limits', 'modules/base/base_module.py'), ('forecasts', 'modules/base/timeseries/base_timeseries_module.py')],
     'property-based testing: metamorphic relation between a history run with and without interleaved reads',
     'Random exploration of reads and histories.', ['Microgrid.run', 'Microgrid.get_log', 'env.step'])

prop('C29', 'Equality tells same from different and never fails',
     'Comparing two microgrids, environments or modules never raises and is symmetric. Two built from the same parameters '
     'with the same history are equal, as are an object and its copy at any point; two that differ in class, modules, names, '
     'parameters, series, forecaster, horizon, window, state, step, log or trajectory are not.',
     ['inputs', 'histories', 'configurations'], 'all pairs of modules, microgrids and environments with any history',
     'Tests compare a few equal pairs of equal length.',
     ['modules/base/base_module.py', 'microgrid/microgrid.py', 'forecast/forecaster.py', 'modules/module_container.py',
      'utils/space.py', 'microgrid/trajectory/base.py'],
     [('module equality', 'modules/base/base_module.py __eq__'), ('microgrid equality', 'microgrid/microgrid.py __eq__'),
      ('forecaster equality', 'forecast/forecaster.py __eq__')],
     'property-based testing: pairs built alike and pairs with one generated difference',
     'Random exploration; one difference at a time.', ['Microgrid.__eq__', 'BaseMicrogridModule.__eq__'])


def main():
    have = {p['id'] for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] not in have:
                continue
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': S + w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    man = {'version': 1, 'setup_cmd': './tools/setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': f"./run.py {p['id']}",
                       'thorough_cmd': f"./run.py {p['id']} --tier thorough",
                       'evidence_file': f"evidence/{p['id']}.json",
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']}
                      for p in P if p['id'] in have],
           'not_applicable': NOT_APPLICABLE,
           'notes': 'No hooks in /repo; every check imports /repo/src directly and runs 8 seeded shards.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(sorted(have))


if __name__ == '__main__':
    main()
