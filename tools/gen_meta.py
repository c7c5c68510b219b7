"""Writes properties.jsonl and MANIFEST.json (run from /verif after a property is added)."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                                hook_needed=None)), level_note))


SIM = 'simulate_network.py'
IDN = 'identify_network.py'
PLT = 'plot_results.py'
R1, R3 = 'src/simulation/run.py', 'src/simulation/run3ph.py'
I1, I3 = 'src/identification/run.py', 'src/identification/run3ph.py'
OUT = 'data/simulations_output/<network>.npz and its prefixed companions'

prop('C01', 'Results depend only on data, configuration and options',
     'Running the same commands with the same network, load profiles, configuration and options always gives the same '
     'stored results. They do not depend on the clock, on the state of any random generator, on what ran before in the '
     'same interpreter, on verbosity, on directory order, or on files that completed, failed or interrupted earlier runs '
     'left behind for stages that are redone.',
     ['histories', 'schedules', 'configurations', 'fault_sequences'],
     'Every chain of commands, every entropy, clock, listing order, and every earlier history of commands of the folder '
     'and of the interpreter.',
     'The unit tests start each function once in a fresh interpreter; the generators reseed themselves from conf only in '
     'some paths and module state, stale output folders and mutable configuration lists appear only in histories.',
     [SIM, IDN, R1, R3, I1, 'src/simulation/load_profile.py', 'src/simulation/noise.py', 'src/simulation/simulation.py'],
     [('reseeding before loads and noise', R1 + ' generate_loads, add_noise_and_filter'),
      ('copy of the configured hidden nodes', SIM)], [OUT],
     'Differential runs: clean world against perturbed world, bitwise comparison of all results; sampled.')

prop('C02', 'Networks that share a data folder do not influence each other',
     'Commands for different networks may run at the same time in the same data folder: every command gives the results '
     'it gives when it runs alone. This also holds when one of the commands fails or is killed at any point, and a '
     'command never changes the stored results of another network.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'Every interleaving of the file operations of two or three concurrent commands, every crash or error point of one.',
     'No test runs two commands, let alone interleaves them; the time series writer of the power flow used one shared '
     'output folder.',
     [SIM, R1, R3, 'src/simulation/simulation.py', 'src/simulation/simulation_3ph.py'],
     [('output folder per run', 'src/simulation/simulation.py run'), ('file names carry the network name', R1 + ', ' + I1)],
     [OUT], 'Interleaving at file operations and library calls chosen by the seed; differential against runs alone.')

prop('C03', 'Partial re-simulation uses exactly the latest results of the other stages',
     'A simulation that redoes only loads, only the power flow or only the noise (or any combination) produces what a '
     'complete simulation would produce from the stored results of the stages that are not redone and the current '
     'configuration for those that are. Stages that are not redone are left untouched, whatever happened in earlier '
     'failed or killed commands.',
     ['histories', 'configurations', 'crash_points'],
     'Every history of complete and partial simulations with changing configurations and options, with failing commands.',
     'Tests never chain partial runs; the result of a stage depends on files of earlier runs.',
     [SIM, R1, R3], [('save and load of each stage', R1 + ' generate_loads, simulate_net, add_noise_and_filter')],
     [OUT], 'Reference: a complete simulation in a fresh world with the configuration each stage was made with.')

prop('C04', 'Partial re-identification uses and preserves the stored other part',
     'Redoing only the standard methods or only the Bayesian one gives the same as a complete identification of the same '
     'data with the same configuration, using the stored results of the other part. The part that is not redone is not '
     'changed, whatever the history of complete, partial, failed and killed identifications and new simulations.',
     ['histories', 'configurations', 'crash_points'],
     'Every history of complete and partial identifications with changing options, configurations and data.',
     'Tests call the estimators directly on one data set and never the stored-result paths.',
     [IDN, I1, I3], [('load or recompute of each part', I1 + ' standard_methods, bayesian_eiv')], [OUT],
     'Reference: a complete identification in a fresh world from the inputs the part was made with.')

prop('C05', 'After a crash or power loss results are old, new or unreadable; reruns recover',
     'When a command is killed at any point, possibly losing unsynced data, each stored result is afterwards the old one, '
     'the new one, or cannot be read at all. Later commands either fail or produce the right results for the inputs they '
     'read, and a complete repetition always gives the undisturbed results.',
     ['crash_points', 'histories'],
     'Every operation of simulate and identify as the crash point, torn writes, loss and tearing of unsynced files, over '
     'old results or none.',
     'No test crashes a command; a torn archive or a half-written profile would have to be met by the next one.',
     [SIM, IDN, R1, R3, I1, I3], [('one archive per result with checksums (npz)', R1 + ', ' + I1)], [OUT],
     'Sampled crash points; differential against undisturbed runs.')

prop('C06', 'A command that reports success has written the right results',
     'When input/output errors, full disks, missing permissions, exhausted memory or interrupts hit a command, it either '
     'ends with a failure or its results are those of an undisturbed run. Slow and short transfers alone never make it '
     'fail, and after a failure each result is the old one, the new one or unreadable.',
     ['fault_sequences', 'inputs'],
     'Every sequence of errors on every file operation and solver call of a chain of commands.',
     'Tests run on a healthy file system only.',
     [SIM, IDN, R1, R3, I1, I3, 'src/simulation/load_profile.py'],
     [('exceptions are not swallowed; non-zero exit without loads', SIM)], [OUT],
     'Sampled fault sequences; differential against the fault-free run.')

prop('C07', 'Simulated data obey the power flow of the network and of its reduction',
     'At every time step the exact voltages and currents satisfy Kirchhoff\'s and Ohm\'s laws for the simulated lines and '
     'the loads of that step at every node, in one and three phases. The reference admittance matrix handed to the '
     'identification is the Kron reduction of the network onto the measured nodes, and relates the exact currents to the '
     'exact voltages.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'Every topology, line data, slack position, passive and hidden nodes, phases, load source and partial redo, with '
     'benign faults and earlier interrupted commands.',
     'Tests compare a few fixed networks; the slack is always the last bus there and most data stages are not run.',
     [SIM, R1, R3, 'src/simulation/simulation.py', 'src/simulation/simulation_3ph.py', 'src/simulation/kron_reduction.py',
      'src/simulation/lines.py'],
     [('Kron reduction', 'src/simulation/kron_reduction.py'), ('time series power flow', 'src/simulation/simulation.py')],
     [OUT], 'Oracle: independent dense model of lines, power flow and reduction; sampled networks.')

prop('C08', 'Measurement noise follows the configured law and the meter ratings',
     'The measurements are the exact data with independent zero-mean magnitude and phase errors whose spread is the '
     'configured one, reduced by the averaging filter, and relative to the rating of the meter of that node for the '
     'current magnitude. No node, phase or instant is privileged and the stored filter length is the one that was used.',
     ['inputs', 'configurations', 'histories'],
     'Every noise level, sampling rate, filter mode, seed, network and history of partial redos.',
     'Tests check shapes on one draw; the law is a statement about all series of all runs.',
     [SIM, R1, R3, 'src/simulation/noise.py', 'src/models/noise_transformation.py'],
     [('noise and filter', 'src/simulation/noise.py'), ('ratings', 'src/simulation/simulation.py')], [OUT],
     'Statistical oracle with wide thresholds over generated networks; exact oracle for ratings and filter length.')

prop('C09', 'Exact and noise-free data are the block means of the interpolated simulation',
     'The exact data are the simulated time series interpolated to the measurement rate and averaged over consecutive '
     'blocks of the stored filter length, one block per time step. Without noise the measurements equal the exact data.',
     ['inputs', 'configurations', 'histories'],
     'Every duration, sampling rate, number of time steps, filter mode, number of phases.',
     'Tests resample one fixed series.',
     [SIM, R1, R3, 'src/simulation/noise.py'], [('filter and resample', 'src/simulation/noise.py')], [OUT],
     'Oracle: independent interpolation and block mean.')

prop('C10', 'Exact data give back the reference network',
     'With exact measurements and no regularisation every identification method returns the reference admittance matrix '
     'up to the numerical conditioning of the data. This holds for one phase, for one sequence and for all of them '
     'together, with and without the Laplacian assumption.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'Every network, load history and option, after interrupted attempts and next to other commands.',
     'Tests use random linear data with one seed, not the chain from the simulation to the estimate.',
     [SIM, IDN, I1, I3, 'src/models/regression.py', 'src/models/error_in_variable.py'],
     [('estimators', 'src/models/'), ('normalisation of the data', I1)], [OUT],
     'Accuracy bound scaled with the conditioning measured on each data set.')

prop('C11', 'Every estimate is the solution its method is defined by, at every iteration',
     'Ordinary, total and lasso estimates solve the problems they are documented to solve, and every stored Bayesian '
     'iterate exactly minimises the documented surrogate (data fit plus prior) at the iterate before it. Iterations are '
     'numbered, stop at the tolerance or the limit, and the stored estimate is the last of them.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'Every data set, weighting, prior, tolerance, iteration limit and option, with benign faults and earlier attempts.',
     'Tests compare a final error against a loose number for one data set and seed.',
     [IDN, I1, I3, 'src/models/error_in_variable.py', 'src/models/regression.py', 'src/models/smooth_prior.py',
      'src/models/noise_transformation.py'],
     [('iterated surrogate minimisation', 'src/models/error_in_variable.py fit'), ('priors', 'src/models/smooth_prior.py')],
     [OUT], 'Oracle: dense reimplementation of each step, tolerance from its conditioning; one known finding (lasso).')

prop('C12', 'Estimators and priors can be reused and shared between threads',
     'A fit gives the same estimate whether the estimator and its prior are new, were used before, are used by other '
     'threads at the same time, or had an earlier fit interrupted or failing. An interrupted fit leaves the earlier '
     'estimate, and fits never change the data or histories of others.',
     ['schedules', 'histories', 'fault_sequences'],
     'Every interleaving of up to three threads at source lines, every sequence of fits, every interruption point.',
     'Tests construct every estimator once and never reuse or share one.',
     ['src/models/error_in_variable.py', 'src/models/regression.py', 'src/models/smooth_prior.py',
      'src/models/bayesian_prior.py', 'src/models/abstract_models.py'],
     [('state reset at the start of a fit', 'src/models/error_in_variable.py fit'),
      ('copies of data in estimators and priors', 'src/models/smooth_prior.py')], ['fitted_admittance_matrix, iterations'],
     'Baton-passing deterministic threads, differential against a fresh process.')

prop('C13', 'Continuing an identification extends the stored history from the stored estimate',
     'A continued identification keeps all earlier iterations unchanged, appends its own, makes its first step from the '
     'stored estimate and stores its last iterate as the result. Without a readable stored result it fails.',
     ['histories', 'crash_points', 'fault_sequences', 'configurations'],
     'Every history of identifications and continuations with failures, kills, lost and torn results.',
     'Continuation is not tested at all.',
     [IDN, I1, I3], [('loading and appending of the history', IDN)], [OUT],
     'Oracle: prefix comparison and the surrogate step oracle of C11 at every join.')

prop('C15', 'Reports show the true errors of the stored results and change none of them',
     'Every successful report shows, on the console, in the text files, in the data files and in the figures, the errors '
     'of the stored estimates with respect to the stored reference for the chosen representation. Reporting never changes '
     'a result, whatever fails or runs next to it.',
     ['histories', 'schedules', 'fault_sequences', 'configurations'],
     'Every set of stored results (one phase, one sequence, all sequences; partial, continued), report option, concurrent '
     'command and fault.',
     'The tool has no tests.',
     [PLT, 'src/identification/utils.py', 'src/models/error_metrics.py'],
     [('metrics', 'src/models/error_metrics.py'), ('selection of the phase, change of representation', PLT)],
     ['console, data/*.txt, data/*.png, data/*.pdf, data/simulations_output/plot_data/*.npz'],
     'Oracle: independent metrics from the stored results; figure rendering is a stub that keeps the data drawn.')

prop('C14', 'Identifying all sequences is identifying each of them',
     'Identifying a three-phase network in all sequences at once gives, for every method, exactly the estimates of the '
     'sequences identified one at a time, and no coupling between sequences. The stored history holds their common '
     'iterations and summed targets, whatever the options, the order, the earlier results and interrupted attempts.',
     ['histories', 'configurations', 'inputs', 'crash_points'],
     'Every three-phase network, every chain of complete, partial and continued identifications, every order of sequences.',
     'The sequence loop is not tested; its loading path and its handling of unequal numbers of iterations depend on the '
     'results stored before.', [IDN, I3, I1],
     [('loop over the sequences, assembly of blocks and histories', I3)],
     ['data/simulations_output/standard_results_*.npz, bayesian_results_*.npz'],
     'Differential: complete identification against three single ones of the same data; sampled.')

prop('C16', 'Loads are households or Gaussian draws around the nominal powers',
     'The stored loads of every node and phase are a sum of whole households of the selected weeks, as many as its '
     'nominal power asks for, drawn independently and without preference, or independent Gaussian draws around the '
     'nominal power with the requested relative spread. Hidden nodes are blended with their nominal power exactly as '
     'configured. Redoing the loads after any history follows the current configuration only.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'Every network, pair of profile files, choice and order of weeks, duration, seed, distribution, set of hidden nodes, and '
     'history of redone and interrupted load computations.',
     'Tests compare two columns of one Gaussian draw with the same call; the profiles, weeks and hidden nodes are not tested.',
     [SIM, 'src/simulation/load_profile.py', R1, R3],
     [('selection of weeks, number of households', 'src/simulation/load_profile.py'), ('blending of constant loads', R1 + ', ' + R3)],
     ['data/simulations_output/sim_loads_*.npz'],
     'Oracle: exact integer decomposition into households, statistics with wide thresholds; sampled.')

prop('C17', 'Uncertainty reports are the information bounds of the stored data and estimate',
     'The reported covariances are the inverses of the Fisher information of the exact data with the reference matrix '
     'and of the stored measurements with the stored estimate, built with the noise of every sample. They are symmetric '
     'and positive, the stored information belongs to them, and a report changes no other result.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'Every data set, noise level, option, continued or partial identification, and history of interrupted attempts.',
     'Tests run the bound once for its shape; sample weights, filter length and stored data enter only in the whole chain.',
     [IDN, I1, 'src/models/error_in_variable.py', 'src/models/noise_transformation.py'],
     [('information of the errors-in-variables model', I1 + ' eiv_fim')],
     ['data/simulations_output/uncertainty_results_*.npz, fim_results_*.npz'],
     'Oracle: independent dense information matrix in the approximation the tool documents; sampled.')

prop('C18', 'Matrix algebra and representation helpers are exact identities',
     'Vectorisation, duplication, elimination and real/complex transformations invert each other on every matrix of the '
     'stated structure and size; the transformations between phases and sequences are mutually inverse. Error metrics are '
     'the stated norms.', ['inputs'], 'Every matrix of every size and structure.',
     'Tests use one or two sizes per helper.',
     ['src/models/matrix_operations.py', 'src/simulation/lines.py', 'src/models/error_metrics.py'], [], ['return values'],
     '')
prop('C19', 'GPU and CPU computations give the same estimates',
     'With a GPU the estimators return the same estimates, histories and covariances as without one.',
     ['inputs', 'configurations'], 'Every data set and option.', 'No test machine has a GPU; the tests run the CPU path.',
     ['conf/conf.py', 'src/models/error_in_variable.py', 'src/models/noise_transformation.py'],
     [('GPU_AVAILABLE', 'conf/conf.py')], ['return values'], '')

try:
    from gen_meta_more import more
    more(prop)
except ImportError:
    pass

P.sort(key=lambda p: p[0]['id'])
with open(here + '/properties.jsonl', 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p) + '\n')
checks = [{'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
           'technique': 'deterministic simulation with fault injection (seeded schedules and faults)',
           'level': 'exploration', 'level_note': n} for p, n in P
          if os.path.exists('%s/dsim/checks/%s.py' % (here, p['id'].lower()))]
NA = [{'property': 'C18', 'reason': 'Pure functions of their input: no schedule, clock, fault, I/O or history for a simulator '
       'to control. Their effect inside the system is covered by C07, C10, C11 and C15.'},
      {'property': 'C19', 'reason': 'The GPU path needs cupy and a device, neither is installed, and it is a pure function of its '
       'input; a stand-in for cupy would test the stand-in.'}]
with open(here + '/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NA}, f, indent=1)
    f.write('\n')
print(len(P), len(checks))
