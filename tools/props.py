NOTE = ('Every obligation is generated from the current source of the functions under contract. Trusted: the verification condition generator in /verif/pyvc, z3, '
        'the models of numpy/tensorflow/scipy/pandas operations (cross-checked by evaluating every contract on the real libraries); floats are reals.')
E = 'egenerator/'
PROPS = []


def P(id, title, statement, over, forall, why, where, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over if isinstance(over, list) else [over], forall=forall, why=why,
                      where=[(n, E + w) for n, w in where], **k))


P('P01', 'Data tensor lists describe every tensor consistently',
  'A collection of data tensors keeps its names, indices and attributes in step: looking a tensor up by name or by index gives the same tensor, '
  'attribute listings are in index order, names are unique and two collections are equal exactly if all their tensors agree. '
  'Tensor definitions whose settings contradict each other are rejected, and saving and restoring a collection yields an equal one.',
  ['inputs', 'configurations'], 'all lists of tensor definitions and all settings of each tensor',
  'The tests build a handful of lists; lookup tables must agree for every list, and every pair of definitions must compare correctly.',
  [('tensor definition', 'data/tensor.py:DataTensor'), ('tensor collection', 'data/tensor.py:DataTensorList'), ('extension by module tensors', 'data/handler/modular.py')])
P('P02', 'Merging configuration files loses and overrides nothing silently',
  'Reading several configuration files yields every option of every file with its value, plus the defaults for options that no file sets; an option given in more than one file is rejected, '
  'whatever its values. Placeholders in strings at any depth stand for the named top level options, everything else is left as written. The derived settings '
  '(joined configuration name, precision types, version information) describe the files that were read, and changing a returned configuration affects no other copy.',
  ['inputs', 'configurations'], 'all sequences of configuration files and all option values',
  'Tests use one fixed file; the guarantee is over every overlap of option names.',
  [('merge', 'settings/setup_manager.py:SetupManager._setup_config'), ('placeholders', 'settings/setup_manager.py:SetupManager.expand_strings'), ('config', 'settings/setup_manager.py')])
P('P03', 'Components are only reused with compatible configurations',
  'Two component configurations are compatible exactly if class, settings and check values are equal, they have sub components of the same names, and each of these is compatible recursively, '
  'except for sub components the first configuration declares mutable; mutable settings and version information never matter. Fixed and mutable settings of one configuration must not clash, and only mutable settings can be updated. '
  'A sub component replaced at load time has to be configured and compatible with the saved one unless it was declared mutable; all configurations above it then name the replacement, and the description of the replacements can be used for further components.',
  ['inputs', 'configurations'], 'all pairs of component configurations, nested to any depth',
  'Tests compare a few hand written configurations; a missed difference would silently load wrong components.',
  [('comparison', 'manager/component.py:Configuration.is_compatible'), ('settings', 'manager/component.py:Configuration'), ('replacement', 'manager/component.py:BaseComponent.load')])
P('P04', 'A saved component is restored exactly, and only once configured',
  'A component can be configured or loaded only once and cannot be saved before; its data and sub components are those its configuration step returned, every argument is recorded with its value in its configuration, and '
  'unconfigured sub components or untracked attributes are rejected. Saving and loading again gives a component with the same configuration, data and sub components at every level; existing files are never replaced unless '
  'overwriting was requested; a different class is rejected and a different version reported and kept.',
  ['histories', 'configurations'], 'all sequences of configure, save and load and all component trees',
  'Tests take single round trips of small components; state must be consistent after any order of operations.',
  [('component life cycle', 'manager/component.py:BaseComponent'), ('storage', 'manager/component.py:BaseComponent.save')])
P('P05', 'Data transformation is normalising and exactly invertible',
  'The transformation of a data tensor subtracts the mean and divides by the standard deviation computed over all batches of the training data (after the optional logarithm), '
  'with deviations of exactly constant entries replaced by one. The inverse transformation restores the values for all tensors, dimensions and back ends, '
  'and the transformation of an uncertainty scales without shifting.',
  ['inputs', 'configurations'], 'all batches, all numbers of elements, every choice of logarithmic components',
  'Tests check one data set; the statistics are accumulated incrementally over batches of varying size.',
  [('statistics', 'data/trafo.py:DataTransformer._create_trafo_model'), ('forward and inverse', 'data/trafo.py:DataTransformer.transform')])
P('P06', 'Probability basis functions are consistent densities',
  'The basis densities integrate to the stated cumulative distributions, their logarithms and both numerical back ends agree, and quantile and '
  'sampling functions invert the cumulative distribution. Discrete distributions are non negative, and their moments match.',
  'inputs', 'all real arguments and all valid parameters, arrays of any length',
  'There is no test of these functions; identities between density, logarithm, cumulative and quantile must hold everywhere, including the branch points.',
  [('basis functions', 'utils/basis_functions.py')])
P('P07', 'Direction and angle computations obey spherical geometry',
  'Converting between angles and direction vectors uses one convention throughout and is invertible; computed opening angles lie between zero and pi and match the scalar product; '
  'directions constructed at a given opening angle have exactly that opening angle.',
  'inputs', 'all directions, all vectors, arrays of any length',
  'No test covers them; poles and branch cuts need all inputs.',
  [('angle utilities', 'utils/angles.py')])
P('P08', 'The likelihood is the sum over unmasked pulses and detector modules',
  'The scalar loss of a batch equals the sum of the loss terms that are reported per event and per module; each likelihood equals its '
  'mathematical definition in terms of the predicted charge and pulse densities, and excluded modules and pulses contribute nothing. A combined loss is the sum of its parts.',
  ['inputs', 'configurations'], 'all batches, all numbers of pulses and events, every masking option and loss function',
  'No test evaluates the likelihoods; equality of sorted and unsorted loss must hold for every batch.',
  [('likelihoods', 'loss/default.py:DefaultLossModule'), ('combination', 'loss/multi_loss.py:MultiLossModule'), ('nuisance prior', 'loss/snowstorm.py')])
P('P09', 'Batching preserves every event exactly once and intact',
  'Splitting data into batches and reading batches from files hands out each event that passes the filter exactly once per epoch, '
  'in complete batches of the requested size (except an allowed last one), with all tensors of an event kept together. Pulse indices inside a batch refer to the event of that batch.',
  ['inputs', 'histories'], 'all event and pulse counts, all file and batch sizes, all filter masks',
  'Tests use one file of fixed size; off by one errors depend on the relation of file size, batch size and filter.',
  [('batching', 'data/handler/base.py:BaseDataHandler'), ('event view', 'data/handler/modular.py'), ('filters', 'data/handler/modular.py:ModuleDataHandler')])
P('P10', 'Pulse data keeps every pulse with its event and module',
  'Reading pulse series gives every kept pulse exactly once with its own charge, time, event and module, in event order, with row ranges that delimit the pulses of each event. '
  'Total charge, charge quantiles, time windows and exclusions are consistent with those pulses.',
  ['inputs', 'configurations'], 'all events, all pulse series and all options',
  'Tests read one data file with fixed settings.',
  [('pulse reader', 'data/modules/data/pulse_data.py:PulseDataModule')])
P('P11', 'Event filters keep exactly the events meeting all constraints',
  'An event passes the filter exactly if it satisfies every configured constraint; constraints with any of the supported comparison operators mean what they say, '
  'an empty constraint list keeps all events, and filtering from files and from frames agree.',
  ['inputs', 'configurations'], 'all constraint lists and all events',
  'No test covers the general filter.',
  [('general filter', 'data/modules/filters/general_filter.py')])
P('P12', 'Labels and seeds are read in the declared order and form',
  'The label tensor has exactly one column per declared parameter, in the declared order, with the declared logarithm applied, '
  'and each seed tensor has the same layout as the labels it seeds. Derived quantities (energies, positions moved along the track, direction vectors) follow their physical definition.',
  ['inputs', 'configurations'], 'all events and all parameter configurations',
  'Tests compare one file; column order errors show only for distinct values.',
  [('cascade labels', 'data/modules/labels/cascades.py'), ('track labels', 'data/modules/labels/snowstorm_tracks.py'), ('muon labels', 'data/modules/labels/muons.py'), ('seeds', 'data/modules/misc/seed_loader.py')])
P('P13', 'Source models predict valid charges and normalised pulse densities',
  'Every source model (cascades with and without shared systematics, charge quantiles, track segments, noise) predicts positive charges with the declared scaling and a variance matching the declared charge distribution, and pulse densities that are normalised mixtures (weights positive and adding up to one, positive widths) per microsecond; the excluded probability lies between zero and one and is the cumulative probability inside the exclusion windows of that event and module, and rescales charge and density. The networks see the geometry between vertex and module and the transformed parameters. Every pulse is evaluated with the prediction of its own event and module.',
  ['inputs', 'configurations'], 'all parameters, network outputs, pulse sets and batch sizes',
  'Tests only build trivial stand-in models.',
  [('cascade model', 'model/source/cascade/default.py'), ('noise model', 'model/source/noise/default.py'), ('source base', 'model/source/base.py')])
P('P14', 'Several sources superpose as a charge weighted sum',
  'The expected charge of a multi source is the sum over its sources, its pulse density is the charge weighted average of the source densities, and its variance '
  'combines those of the sources. Every source sees exactly the parameters the decomposition assigns to it.',
  ['inputs', 'configurations'], 'all source counts, charges, pulses and parameters',
  'Tests use fixed stand-in sources; order and weights matter for every combination.',
  [('superposition', 'model/multi_source/base.py:MultiSource.get_tensors'), ('decomposition', 'model/multi_source/independent.py')])
P('P15', 'Checkpoint bookkeeping never loses track of the weights',
  'After any sequence of saves, the checkpoint meta data list exactly the checkpoints on disk under increasing numbers, every listed checkpoint loads back the weights and step saved under its number, only the oldest '
  'unprotected checkpoints beyond max_keep are removed and protected ones never, and training histories are kept in order. An interruption at any file operation leaves readable meta data that list only checkpoints '
  'that can be loaded. Saves of a model with additional variables, over an existing model, or under a number in use are refused without touching the directory.',
  ['histories', 'crash_points'], 'all sequences of saves and loads, all protection settings',
  'Tests perform two or three saves.',
  [('weights', 'model/base.py:Model.save_weights'), ('training history', 'model/base.py')])
P('P16', 'Reconstruction minimises the stated loss over the fitted parameters',
  'The objective and gradient given to an optimiser are those of the loss at the full parameter vector, with the parameters excluded from the fit held at their seed values and transformations applied consistently; every optimiser starts from the seed of the fitted parameters (from valid directions around it where '
  'several points are needed) and no setting of one fit is carried over to another. '
  'Random seeds vary exactly the stated parameters of the seed, and later fits start from them. The reported result, its loss and the seed loss all belong to the same parameters, and the best of several results is the one with the smallest loss. '
  'A likelihood scan of an event shows, for every parameter, the loss at the best fit (and at the truth) with only that parameter changed, over its physical values, whichever parameters were fitted in whichever space.',
  ['inputs', 'configurations'], 'all seeds, all optimiser results, every choice of fitted parameters and every back end',
  'No test runs a reconstruction.',
  [('objective', 'manager/source.py:SourceManager'), ('reassembly', 'manager/reconstruction/modules/utils/trafo.py'), ('modules', 'manager/reconstruction/modules/reconstruction.py'), ('scans', 'manager/reconstruction/modules/visualization.py')])
P('P17', 'Reconstruction steps run in order and cached functions are reused',
  'Steps of a reconstruction run in the order they were added, under unique names (without a name: that of their position), each seeing the results of all previous steps and nothing else; each result is stored under its name together with its runtime. '
  'A cached function is only reused for identical name and settings, never for another loss, space, seed or selection of parameters.',
  ['histories', 'configurations'], 'all sequences of added steps and cache requests',
  'No test covers the tray.',
  [('tray', 'manager/reconstruction/tray.py')])
P('P18', 'Piecewise learning rates follow their schedule at every step',
  'At every training step the learning rate equals that of the phase the step falls in, with the phase schedule counting from the phase start; invalid phase definitions are rejected.',
  ['inputs', 'configurations'], 'all steps and all phase definitions',
  'No test evaluates the scheduler; phase boundaries need every step.',
  [('scheduler', 'utils/learning_rate.py')])
P('P19', 'The spherical minimiser returns the best point it evaluated',
  'The spherical minimiser reports the parameters with the smallest loss among all those it evaluated, with that loss and the number of evaluations; every direction it evaluates is a valid one, directions are '
  'completed, reflected, averaged and compared as unit vectors on the sphere, the worst points are replaced by as many better ones as possible, and convergence is reported only if the losses agree to the given '
  'threshold or the coordinates and directions agree, each to its own threshold.',
  ['inputs', 'histories'], 'all loss functions, valid initial points, random draws and numbers of iterations',
  'No test covers the minimiser; the state update has to keep the best point for every history of evaluations.',
  [('minimiser', 'utils/spherical_opt.py')])
P('P20', 'Track geometry decomposes a track into its segments consistently',
  'A track is decomposed into cascades and segments placed on the track at the declared distances, reached at the speed of light, with the declared energies; a segment model of finite length computes the '
  'closest point, the point where the Cherenkov light reaching a module was emitted and the energy deposited before and after those points from track geometry, distances being moved onto the segment without '
  'changing their order and a part of the segment depositing its share of the energy.',
  ['inputs', 'configurations'], 'all track parameters and all numbers of cascades',
  'No test covers the decomposition.',
  [('track source', 'model/multi_source/track/stochastic_track.py'), ('muon source', 'model/multi_source/muon/default.py'), ('segments', 'model/source/track/stochastic_segment.py')])
P('P21', 'Fit quality p-values rank the observed loss among simulations',
  'The one-sided p-value is the fraction of simulated events whose loss is at least that of the data and the two-sided one twice the smaller of both fractions, per event and per module; every simulated event is drawn '
  'from the model prediction for its hypothesis (charges, mixture component and time of each pulse), is refitted starting from that hypothesis, and is scored on its own charges and pulses, while the data are scored at the reported parameters.',
  ['inputs', 'schedules'], 'all predictions, losses and random draws',
  'No test covers fit quality.',
  [('fit quality', 'manager/reconstruction/modules/fit_quality.py')])
P('P22', 'Covariance estimates transform with the parameters',
  'The covariance is the inverse of the Hessian of the loss, the sandwich estimate combines it with the per event gradients, both restricted to the fitted parameters where stated, and covariances in normalised parameters are '
  'rescaled consistently to physical parameters.',
  ['inputs', 'configurations'], 'all Hessians, gradients and transformations, every choice of fitted parameters',
  'No test computes covariances.',
  [('covariance module', 'manager/reconstruction/modules/covariance.py'), ('Hessian and outer products', 'manager/source.py')])
P('P23', 'Training minimises the summed ensemble loss plus regularisation',
  'The training loss is the sum of the losses of all models of the ensemble plus the configured regularisation, each model evaluated with its own summary only, and a training step applies the '
  'gradient of exactly that loss to each trainable variable once. Models of an ensemble must be compatible.',
  ['inputs', 'configurations', 'histories'], 'all ensembles, batches and regularisation strengths',
  'No test performs a training step.',
  [('model manager', 'manager/base.py:BaseModelManager')])
P('P24', 'Simulated pulses follow the model prediction',
  'Of the event tree exactly the cascades that are energetic and near enough are simulated, each as one hypothesis with its own position, direction, energy and time and the declared defaults (values, or those of the frame) '
  'for the other parameters; the model is evaluated for those hypotheses without excluded modules; the number of photo-electrons of a module is drawn for each cascade from the predicted mean and variance, each becomes '
  'a pulse drawn from the predicted mixture of that cascade (component by weight, time by its quantile function plus the time of the cascade), charges add up to the number, and the series are written in time order under '
  'the right module. Particles that can not be simulated are refused.',
  ['inputs', 'configurations'], 'all event trees, predictions and random draws',
  'No test covers the simulation.',
  [('simulation', 'ic3/simulation.py'), ('prediction function', 'manager/source.py:SourceManager.get_model_tensors_function')])
P('P25', 'Posterior samples and angular uncertainties are taken around the best fit',
  'Every Markov chain starts at the best fit in the space it is run in and targets minus the loss of its own parameters; the samples reported are the accepted states as physical parameters, each with its log '
  'probability. The angular uncertainty fits the loss with the direction fixed at opening angles that cover the range from the best fit (all other parameters starting there) and is the width of the Rayleigh distribution closest '
  'to the coverage of twice the loss differences. Results of the fit are not changed.',
  ['inputs', 'configurations'], 'all best fits, losses, random draws and covariances',
  'No test runs the modules.',
  [('samples', 'manager/reconstruction/modules/mcmc.py'), ('chain', 'manager/source.py:SourceManager.run_mcmc_on_events'), ('angular uncertainty', 'manager/reconstruction/modules/opening_angle.py')])
P('P26', 'Reconstruction of a frame stores every result under its name',
  'The reconstruction module loads the stated models with the stated keys, fits exactly the stated parameters from each seed, selects the best fit and runs exactly the requested modules on it in the same parameter space. '
  'The frame then holds every parameter of the best fit under its name, the particle with the mapped parameters, each covariance under the names of both parameters (named as logarithms exactly where it is the covariance of logarithms), the goodness of fit per event and '
  'module, the angular uncertainty, losses, success and run times; nothing is written for more than one event at a time.',
  ['inputs', 'configurations'], 'all results and module configurations',
  'No test covers the module.',
  [('frame reconstruction', 'ic3/reconstruction.py')])
P('P27', 'Models and managers are assembled as configured, from compatible parts',
  'A source exposes exactly the parameters of its architecture, names and indices being inverse and selecting the columns of the hypothesis; models, base sources, loss modules, data handlers and managers are built, loaded or '
  'restored exactly as their settings state, each with its own settings and transformer and nothing rebuilt where that is not allowed; an ensemble holds the models of every stated directory in order with the stated '
  'seed, label and data modules; a manager is only configured, loaded or updated if every model was made for its data handler and all models share parameters and transformation.',
  ['inputs', 'configurations'], 'all settings and compatible or incompatible parts',
  'Tests build a few parts with one configuration; compatibility has to be checked for every combination.',
  [('building', 'utils/build_components.py'), ('configurator', 'utils/configurator.py'), ('manager', 'manager/base.py:BaseModelManager'), ('source', 'model/source/base.py:Source')])
P('P28', 'Training takes exactly the configured optimisation, validation and save steps',
  'Training takes the configured number of optimisation steps, each on one new batch of training data and none on validation data; losses are evaluated, reported and saved at the configured intervals for training data and for validation data, '
  'with the stated loss and settings, on each kind of data separately, and the evaluation module sees validation data; the step counter of every model counts every step, an invalid loss stops the training, and the weights are saved at the stated intervals and at the end.',
  ['inputs', 'configurations', 'histories'], 'all numbers of iterations, intervals and numbers of models',
  'Tests run no training; what happens at an iteration depends on its number and on the intervals.',
  [('loop', 'manager/base.py:BaseModelManager'), ('source training', 'manager/source.py:SourceManager')])
P('P29', 'The command line tools build what is configured and ask before they destroy',
  'The scripts build model, transformer and ensemble from the stated configuration files, in order, restore an existing model exactly if asked to, never delete or overwrite an existing model, transformer or export without consent, and pass '
  'the parts they built on to training, export or reconstruction unchanged.',
  ['inputs', 'configurations', 'histories'], 'all configurations, answers and states of the disk',
  'No test runs a script; the loss of data needs one particular state of the disk.',
  [('training', 'train_model.py'), ('transformer', 'create_trafo_model.py'), ('export', 'export_manager.py'), ('reconstruction', 'reconstruct_test_data.py')])
P('P30', 'Every test event appears once in the reconstruction output, with its own results',
  'The reconstruction of the test data writes one row per event, in order, holding the true, reconstructed and seed values of every parameter, the loss at each of these points, and the uncertainties and test values calculated for that event; '
  'the fit starts once from every stated seed (after the best of the stated number of random seeds, if requested), the best of all fits is reported, exactly the requested further steps use it, and posterior samples go to one file per event, ordered by probability.',
  ['inputs', 'configurations'], 'all events, seeds, requested steps and results',
  'No test runs a reconstruction; mixing up columns, seeds or events shows only in values.',
  [('output', 'manager/source.py:SourceManager'), ('steps', 'manager/reconstruction/tray.py')])
