#!/usr/bin/env python3
"""Writes known_findings.json. Each fixed entry names the /repo commit; it suppresses nothing."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
FIXED = [l.split(None, 2) for l in """
C04 035bd22 a battery charged to capacity could exceed max_capacity by rounding and then report a negative limit
C12 a81c8e0 logs of a loaded module or microgrid could not be appended to, so a loaded microgrid could not be run
C12 c2e0c84 two modules of one class dumped to a file overwrote each other's series
C11 439f0e3 set_forecaster with a dict of forecasters had no effect
C11 5973d57 a newly set forecaster took effect one step late and was lost when serializing
C10 37d38db genset sample_action(strict_bound=True) ignored or broke on the current production bounds
C10 e62330e battery action bounds were derived the wrong way round, excluding feasible discharges
C09 d756ff2 log rows were indexed from the full range instead of the current trajectory
C14 4d133b5 an environment created from a microgrid kept the module logs but not the balance log
C16 df708f1 stochastic trajectories could be empty and never reached parts of the range
C08 55ff244 gensets kept their status and pending changes across reset
C08 681d714 the default balancing module started at step 0 whatever the initial step of the other modules
C12 b0739c3 the reward shaping function was lost when serializing
C12 2ede5b2 an environment's action log was lost when serializing
C12 1f70398 loading an environment dropped its logs and steps
C14 f2e8032 ContinuousMicrogridEnv acted on modules that are not controllable
C10 d20ef79 normalized state_dict failed for modules with a single state component
C14 798625a nested observations did not belong to the observation space
C22 99ccedf reward shapers only counted the first module and could leave their range
C07 d676f27 the shaping function was called several times per step with incomplete step information
C22 9061eea reward shapers did not recognize the default module names
C17 831d183 gensets with equal minimum and maximum production could not be converted to non-modular and back
C17 9a245d8 conversion to a non-modular microgrid made demand negative
C05 635ef9d gensets that do not allow abortion could never change status
C11 f078421 scalar user-defined forecasters failed near the end of the series
C11 3571606 setting a time series kept forecasting from the old bounds and wrote to the new array
C15 e674f31 model predictive control counted grid exports as a cost
C15 495fb2c model predictive control planned imports during outages
C15 d6600b1 model predictive control priced grid emissions with the wrong carbon cost
C24 17fe8b4 off-grid non-modular microgrids updated the battery with the requested, not the actual, production
C21 7883a60 modules of different types under one name were merged silently
C20 dc68d92 converting a microgrid with a genset reseeded the global random state
C09 d2a5933 get_log(drop_singleton_key=True) did not drop the module number
C09 fdd20e2 log columns became ragged when a step did not report all fields, e.g. after changing the forecast horizon
C11 1e66cf0 user-defined forecasters were refused for series with several components (grids)
C11 0d4f4b6 user-defined forecasters returning lists failed
C12 17fcdd8 environments lost flat_spaces, observation_keys and remove_redundant_gensets when serialized; continuous ones could not be
C12 74d1b4a loading a module restored the forecasts of the initial, not the current, step
C12 627ffa4 trajectories and reward shapers without attributes could not be serialized
C12 68169f9 stochastic trajectories could not be compared or printed
C12 a3f280c array files were not read back exactly
C13 12e7619 rule-based control refused priority lists given as lists, such as its own default
C15 41ed94a model predictive control planned with battery power limits the battery does not have (efficiency ignored)
C24 99b4e7c non-modular microgrids crashed when exactly no renewable energy was required
C24 52135e1 after the first step of a non-modular microgrid the recorded grid status, prices and emissions were still those of the first step
C24 ecb9200 the recorded hour of a non-modular microgrid lagged its load by one step
C24 5ea6800 non-modular microgrids crashed at the last step of a training or testing split when the horizon was 1 or longer than the split
C23 fef01b3 pv curves with three or more features could not be interpolated, all features sharing the last frequency
C23 aff714c triangular pv samples failed when the interpolated bounds crossed
C23 5f82671 noisy load data could not be read from a file
C23 59f56dc triangular pv samples failed when the bounds of the daily peak coincided
C14 d2c9b40 the discrete environment logged actions that it refused
C25 cd0db7c comparing two control outputs raised TypeError (or compared dictionaries) instead of comparing total costs
C25 83173dc the rule-based and sample-average benchmarks raised AttributeError/ImportError
C25 b0a651d rule-based control ran one step less than model predictive control, so benchmarks of both could not be described
C25 2348e69 the hour recorded by control algorithms stayed 1 after the first step
C25 52fd945 sample-average control recorded the previous step's load, renewable and grid status as the new state
C25 5820028 sample-average control failed for percentile 1
C25 fe6e9db deterministic control on a forecast returned an empty output unless verbose, and then after one step
C09 24f98f0 logger_last raised ValueError instead of returning the last log entry
C12 48df028 two documents dumped into one directory overwrote each other's data files
C24 182e478 running a non-modular microgrid added load and pv to the control passed in
C16 4ea4222 an environment made from a microgrid inside a trajectory took its window as the full range
C08 6aa87ad a missing or too short control was refused (or accepted) after some modules had stepped, so clocks diverged
C11 cde4e8f setting forecast_horizon kept the forecast (and noise levels) of the old horizon until the next step
C18 a87874c the files the generator chose for a seed depended on the order in which the directory was listed
C27 ccee6f2 grids refused series given as lists and accepted incomplete series set later, then failing at the next step
C27 8d178e1 an invalid final step was applied although setting it was refused
C21 6b4c1a9 as_flex changed every later grid, the converted grid was not restored by loading, and as_fixed gave a grid that could not run
C27 356c639 un-normalizing values given as lists raised TypeError
C10 8e6fc4c single-point spaces un-normalized 1 to one above their point
C25 3fab916 rule-based control ran the genset at twice its minimum for loads below it, and not at all when the battery covered the load above it
C10 fb3901f seeding a module or microgrid space did not determine its samples
C23 1464c83 fully pushing pv samples to source data gave undefined values for data whose column is not named GH illum (W/m^2)
C24 bda6083 controls not given were not recorded, so records had unequal lengths, and the penalty could not be computed
C29 7483414 comparing modules with series or forecasts of different lengths raised ValueError or TypeError
C29 e925e34 comparing modules with forecasters of growing uncertainty (also with their own copies) raised ValueError
""".strip().splitlines()]
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'known': KNOWN, 'fixed': [f'fixed: property={p} {c} {w}' for p, c, w in FIXED]}, f, indent=1)
    f.write('\n')
