#!/usr/bin/python3
"""Writes /verif/properties.jsonl (the list of properties is kept here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=m, where=', '.join(files)) for m in mech],
            state=[dict(name=m, meaning=m, where=files[0]) for m in state],
            observe_at=list(observe), hook_needed=None)))

SC, IO, TR = 'flowtracks/scene.py', 'flowtracks/io.py', 'flowtracks/trajectory.py'
p('C01', 'Saving trajectories as a particle table and reading them back loses nothing',
  'Trajectories saved as a particle table and read back - as a list of trajectories, through a scene, or as collected columns - are the same trajectories: same IDs, points in time order, every property of every point exactly equal, with its number of components and numeric type. Trimming removes exactly the requested number of points from each end of each trajectory and drops those left with none. The first and last frame recorded for each trajectory are those of its saved points.',
  ['inputs'], 'any set of trajectories with unique IDs, of any lengths, property sets, types and values (incl. extreme and non-finite), any trim, onto a fresh or existing file',
  'The tests save one set of three trajectories of 4 points with standard properties, compare to 6 decimals, and never read through a scene.',
  [IO, SC, TR], ['save_particles_table', 'trajectories_table', 'Scene.iter_trajectories', 'record_dtype'],
  ['/particles and /bounds tables of the HDF5 file'], ['trajectories_table()', 'Scene.trajectory_tags()', 'Scene.collect()'])
p('C02', 'Saving a scene frame by frame loses nothing and tags it right',
  'A sequence of frames saved to a table and read back gives the same particles in the same frames with exactly equal properties, also when some frames are empty or trajectories have holes. Each trajectory is tagged with its first and last frame of appearance, and the recorded bounding box is the componentwise minimum and maximum of all saved positions.',
  ['inputs'], 'any sequence of snapshots in increasing frame order, with any particles per frame incl. none, in any row order',
  'No test saves frames.',
  [IO, SC], ['save_frames_hdf', 'Scene.bounding_box', 'Scene.trajectory_tags'],
  ['/particles, /bounds, min_pos and max_pos attributes'], ['Scene'])
p('C03', 'Frame view and trajectory view of a scene are the same data under any range',
  'Iterating a scene by frames gives every frame number of its range once, in order, with exactly the particles present in it; iterating by trajectories gives every trajectory once with exactly its points that lie in the range, in time order. Both show the same rows, whatever ranges (including one-sided, empty and out-of-data ones) were set before, and whatever other iterations or queries of the scene are interleaved.',
  ['inputs', 'histories', 'schedules'], 'any table (with or without tags and indexes, any row order), any sequence of range changes, any interleaving of iterations and single-item queries',
  'Tests iterate one small file once, without range.',
  [SC], ['Scene.set_frame_range', 'Scene.iter_frames', 'Scene.iter_trajectories', 'Scene.trajectory_by_id', 'Scene.frame_by_time'],
  ['frame limits of the scene', 'open generators'], ['Scene'])
p('C04', 'Segments hold exactly the particles that continue to the next frame, aligned',
  'Segment iteration gives, for every two successive frame numbers of the range in order, exactly the particles that appear in both, each with its own data in each of the two frames. A particle is in the same row of both. This holds whatever the order of rows in the file, and also for frames with no particles or no continuing ones.',
  ['inputs'], 'any table, any row order within frames, any range',
  'The test has the same three particles in the same order in every frame.',
  [SC], ['Scene.iter_segments', 'pairwise'], ['frame limits of the scene'], ['Scene.iter_segments()'])
p('C05', 'Selecting rows returns exactly the rows that satisfy the conditions, aligned',
  'Collecting properties returns, for exactly those rows in the frame range that satisfy all given conditions, the requested columns in the requested order, each row in the same position of every column. A normal condition includes its minimum and excludes its maximum; an inverted one is its exact complement. Bounds are compared at full numeric precision, integers as integers.',
  ['inputs', 'configurations'], 'any table, any set of conditions (bounds equal or very near to data values, reversed bounds), any keys, with and without a frame range',
  'Tests use round bounds far from the data values, on one key.',
  [SC], ['gen_query_string', 'Scene.collect'], ['frame limits of the scene'], ['Scene.collect()'])
p('C06', 'A dual scene advances both streams together and gives its range back',
  'Each item of a dual-scene iteration - frames or segments - holds the tracers and the particles of the very same frame (and, for segments, its successor). A range given for one iteration affects that iteration only: after it ends or is abandoned at any point, both streams have the range that the scene was created with, and a later iteration without a range covers it again.',
  ['histories', 'inputs'], 'any two tables, any creation range, any sequence of iterations of either kind, completed or abandoned after any number of items, with or without a temporary range',
  'Tests complete each iteration, over the same range.',
  [SC], ['DualScene.iter_frames', 'DualScene.iter_segments'], ['ranges of the two inner scenes'], ['DualScene', 'Scene.frame_range()'])
p('C07', 'An analysis has one row per particle per segment, with its own results',
  'The table written by an analysis has exactly one row for each particle of each segment in the analysed range, carrying the ID and frame of the particle and, in every column of every analyser, the value that analyser returned for this particle at this frame. Each analyser is given every segment of the range once, in order. The table records which configuration and particle file it was made from.',
  ['inputs', 'configurations'], 'any dual scene, any list of analysers with any number, type and width of columns, any range',
  'Tests analyse one fluid-velocity case and compare final sums.',
  ['flowtracks/analysis.py', SC, 'scripts/analyse_fhdf.py'], ['analysis', 'GeneralAnalyser'], ['/analysis table'], ['analysis()', 'AnalysedScene'])
p('C08', 'An analysed scene joins particles with their own analysis results',
  'Columns collected from an analysed scene pair each particle property with the analysis result of the same particle at the same frame, for exactly the particle-frames that are in both and satisfy all the conditions, whether on particle properties, on results, or both. A trajectory fetched from it has those points of the particle trajectory that were analysed (without gaps and in an analysis of the whole range, all but the last), with the results of each point attached to that point.',
  ['inputs'], 'any scene of particle trajectories, with gaps or without, any analysis, of all of the range or of a part, any keys and conditions over both kinds of column',
  'One test, with a single condition kind.',
  ['flowtracks/an_scene.py', 'flowtracks/analysis.py', SC], ['AnalysedScene.collect', 'AnalysedScene.trajectory_by_id', 'AnalysedScene.iter_trajectories'], ['particles and analysis tables'], ['AnalysedScene'])
p('C09', 'Linked frame files become trajectories: each chain once, whole and in order',
  'From frame files whose particles are linked to their predecessor and successor, reading yields exactly one trajectory for each chain of links that ends in the frames read, holding exactly the chain\'s positions and frame numbers in order, with an ID that no other has; chains shorter than the minimal length are left out. This is so for per-frame files, per-frame files with velocities, and a single file of all frames, also with empty, one-particle or missing frames.',
  ['inputs', 'configurations'], 'any consistent linking structure of any number of frames and particles, row orders, births, deaths, min. length, frame range',
  'Tests read 3 parallel trajectories in 4 frames, all born and ending together, and count one data set.',
  [IO], ['iter_trajectories_ptvis', 'FramesIterator', 'SingleFileIterator'], ['frame buffer', 'trajectory starts'], ['trajectories_ptvis()', 'iter_trajectories_ptvis()'])
p('C10', 'Velocities and accelerations of linked trajectories are their differences',
  'In trajectories linked from frame files, positions are converted from millimetres to metres (files that include velocities are already in metres, and keep their velocities). Otherwise the velocity of each point but the last is the difference of the next and this position times the frame rate; the acceleration of each point but the last two is the same difference of velocities; the remaining ones are zero.',
  ['inputs'], 'any consistent linking structure, any positions, any frame rate',
  'Tests compare one trajectory shape at frame rate 1.',
  [IO], ['iter_trajectories_ptvis'], ['frame buffer'], ['trajectories_ptvis()'])
p('C11', 'The generic reader treats range, minimal length and format alike for all formats',
  'The generic trajectory reader infers the format from the name by fixed precedence, and for formats that store whole trajectories by point (particle table, directory of NPZ files) returns exactly the trajectories that have at least the minimal number of points (two, if not given) in the inclusive frame range, cut to it. Asking for an iterator gives the same trajectories as asking for a list.',
  ['inputs', 'configurations'], 'any set of trajectories, any (also one-sided) range, any minimal length, each format',
  'Tests read through format-specific readers only, without range.',
  [IO], ['trajectories', 'infer_format', 'load_trajectories', 'trajectories_table'], [], ['trajectories()'])
p('C12', 'Saving a directory of NPZ trajectories and reading it back loses nothing',
  'Trajectories saved to a directory of NPZ files together with arrays attached to each of them are read back with the same IDs, every property exactly equal, and every attached array under its name and trajectory. Reading with an inclusive frame range cuts each trajectory to it and leaves out those with no point in it. Free arrays saved along are stored unchanged.',
  ['inputs'], 'any trajectories, properties, attached and free arrays, any range',
  'No test of this format.',
  [IO], ['save_trajectories', 'load_trajectories'], ['traj_*.npz files'], ['load_trajectories()'])
p('C13', 'A sequence gives each frame of its range once, with the continuing particles',
  'Iterating a sequence gives, for each frame number from the first up to but excluding the end of the range, in order, the tracers and particles that exist in both this and the next frame, out of those passed by the selectors set at the time, each in the same row of both. A sub-range affects only its own iteration, complete or abandoned, and an iteration that has come to its end stays there. The reported covered range is that of the selected particle trajectories, bounded by the sequence range.',
  ['histories', 'inputs'], 'any two data sets without holes or coincident particles in any of the supported formats, any selectors, any sequence of iterations, sub-ranges and selector changes',
  'No test iterates a sequence.',
  ['flowtracks/sequence.py', TR, IO], ['Sequence.__iter__', 'Sequence.__next__', 'Sequence.iter_subrange', 'Sequence.subrange'], ['trajectory caches', 'acting range'], ['Sequence'])
p('C14', 'Mapping over a sequence gives each trajectory its own results in frame order',
  'Mapping a function over a sequence calls it once for each frame of the (sub-)range, in order, with the data of that frame and the next and the extra arguments, and returns for each particle trajectory the series of the values that the function returned for it, in frame order, one for each of its frames in range that continues to a next one. With history, the function also sees the results of all earlier frames. Trajectories with no such frame are left out.',
  ['inputs', 'histories'], 'any particle and tracer trajectories without holes, any sub-range, any function',
  'No test maps trajectories.',
  ['flowtracks/sequence.py'], ['Sequence.map_trajectories'], ['result buffers', 'frame counters'], ['Sequence.map_trajectories()'])
p('C15', 'An interpolation depends only on the current scene, not on how it was reached',
  'Whatever sequence of scene, position, point and data changes, point removals, subset interpolations and queries preceded it, what an interpolant answers - interpolated values, neighbours, distances, relative positions, field positions, data, derivatives - is what a fresh interpolant answers on the present scene. A one-off interpolation does not change the recorded scene.',
  ['histories'], 'any order of the scene-changing and querying operations, for each interpolation method',
  'Tests set one scene and interpolate once, or trim once.',
  ['flowtracks/interpolation.py'], ['GeneralInterpolant', 'InverseDistanceWeighter'], ['neighbours, weights and matched data caches'], ['interpolate()', 'current_*()', 'eulerian_jacobian()'])
p('C16', 'Interpolation uses exactly the right neighbours with the right weights',
  'The neighbours of a point are the requested number of tracers closest to it (all, when there are fewer), or, with a radius, only those closer than the radius; a tracer at the very position of the point is not one. Inverse-distance interpolation gives the mean of the neighbours\' data weighted by the inverse of the distance to the given power; interpolation by correlation function, the mean weighted by the function\'s bin for each distance.',
  ['inputs', 'configurations'], 'any tracer and point positions, data of any dimension, number of neighbours, radius, power',
  'Tests use one symmetric set of tracers.',
  ['flowtracks/interpolation.py'], ['select_neighbs', 'GeneralInterpolant.interpolate', 'InverseDistanceWeighter', 'corrfun_interp'], [], ['interpolate()', 'select_neighbs()', 'neighb_dists()'])
p('C17', 'A companion tracer never takes part in the interpolation at its point',
  'When an interpolation point is paired with a companion tracer, the result does not depend on that tracer, which is replaced by the next closest one; other points are unaffected. In fluid-velocity analysis the companion of a particle is found by trajectory ID among the tracers of the same frame (none if it is not there), the fluid velocity is the interpolation of tracer velocities at the particle, and the relative velocity is the particle\'s velocity minus it.',
  ['inputs'], 'any tracers, points, companion assignment (absent, shared, coincident), any tracer and particle frames',
  'One test, one point with its companion nearest.',
  ['flowtracks/interpolation.py', 'flowtracks/analysis.py'], ['select_neighbs', 'companion_indices', 'FluidVelocitiesAnalyser'], [], ['interpolate()', 'FluidVelocitiesAnalyser.analyse()'])
p('C18', 'Each particle is paired to the closest particle of the other set in its frame',
  'For each requested point of the primary trajectories, pairing returns the ID and time index of a secondary trajectory point in the same frame that is the closest to it among the secondary trajectories that go on to the next frame, or -1 when there is none. The answers are in the order of the requests, whatever order the requests and the trajectory lists are in.',
  ['inputs'], 'any primary and secondary trajectories without holes, any list of requests incl. repeated ones',
  'One test, in list order.',
  ['flowtracks/pairs.py', TR], ['particle_pairs'], [], ['particle_pairs()'])
p('C19', 'Saved configurations recreate the same object',
  'A sequence or an interpolant written to a configuration file and read back has the same parameters: particle properties (a ball of the given diameter and density, with its volume and mass), frame rate, frame range, file names including frame number templates, smoothing and minimal length; method, number of neighbours, radius and method parameter, so that it gives the same interpolation. A dual scene is read with the configured properties and range, last frame included. Explicit arguments of the reader override the file.',
  ['configurations'], 'any parameter values, each method, present and absent optional values',
  'Tests write one sequence and read one file.',
  ['flowtracks/sequence.py', 'flowtracks/interpolation.py', SC], ['Sequence.save_config', 'read_sequence', 'save_config', 'read_interpolant', 'read_dual_scene'], ['INI file'], ['read_sequence()', 'read_interpolant()', 'read_dual_scene()'])
p('C20', 'Polynomial smoothing is the local least-squares fit and keeps the rest intact',
  'Polynomial smoothing gives at every point the value and derivatives (in units of the frame rate) of the least-squares polynomial over the window around it (beyond the ends each component goes on from its own values: below the first one, above the last one, by as much as the mirrored point differs from it); away from the ends it reproduces polynomials up to its order, and the velocity and acceleration it predicts for the next point are those of this polynomial. Each trajectory at least as long as the window gives one smoothed trajectory, in order, with the same ID, times, and all other properties; shorter ones are left out.',
  ['inputs', 'configurations'], 'any trajectories, odd windows, orders, frame rates',
  'No test of smoothing.',
  ['flowtracks/smoothing.py'], ['savitzky_golay'], [], ['savitzky_golay()'])
p('C21', 'Particle sets hold, select, replace and describe their properties consistently',
  'Every property given to a particle set, trajectory or snapshot, at creation or later, can be read whole or by any selector, and replaced whole or by selector, without any change to other properties or other sets; the list of properties, their shapes and types always describe exactly the present data. The table form of a trajectory has the positions, velocities, times and ID of the selected points.',
  ['histories', 'inputs'], 'any sequence of property creations, reads and replacements with any selectors on several sets',
  'Used everywhere, tested nowhere directly.',
  [TR], ['ParticleSet.create_property', 'ParticleSet.schema', 'Trajectory.__getitem__'], ['properties of the set'], ['ParticleSet', 'Trajectory', 'ParticleSnapshot'])
p('C22', 'Frames taken from trajectories hold exactly the particles active in them',
  'The trajectories active in a frame are those whose time span contains it (and also the next frame, when segments are asked for), except that of several at the very same position only one is kept. The snapshot of such trajectories has, for each in order, its ID and the values of all its properties at that frame; a collected table has their positions, velocities, frame and ID, for that frame and, if asked, the next.',
  ['inputs'], 'any trajectories (for snapshots, without holes; in collected tables, those that have a point at the frame), any frame in or out of data, any property set (same names, shapes and types in all), coincident particles',
  'Not tested directly.',
  [TR, IO], ['trajectories_in_frame', 'take_snapshot', 'mark_unique_rows', 'collect_particles_generic', 'read_frame_data'], [], ['trajectories_in_frame()', 'take_snapshot()', 'collect_particles_generic()', 'read_frame_data()'])
p('C23', 'Trajectory-accumulation and Matlab files are read whole and in the right units',
  'Reading a directory of trajectory-accumulation files gives one trajectory for each path recorded in the files of the inclusive range, with its positions, velocities, accelerations, and frame numbers counted from the frame of its file. Collecting the particles of a frame from such files finds each path, of any earlier starting file, that reaches that frame. Matlab trajectory files are read with lengths converted from millimetres to metres, times and IDs kept.',
  ['inputs'], 'any set of paths over any files, any range and frame',
  'No test of these formats.',
  [IO], ['trajectories_acc', 'collect_particles', 'trajectories_mat'], [], ['trajectories_acc()', 'collect_particles()', 'trajectories_mat()'])
p('C24', 'Velocity derivatives are the derivatives of the inverse-distance interpolation',
  'The velocity gradient given at each point of the current scene by inverse-distance interpolation is the exact derivative of the interpolation there, for each component of the data and each direction, with the neighbours held.',
  ['inputs'], 'any tracers, points, data dimension, number of neighbours, power, companions',
  'The test checks one symmetric case.',
  ['flowtracks/interpolation.py'], ['InverseDistanceWeighter.eulerian_jacobian'], ['current scene'], ['eulerian_jacobian()'])
p('C25', 'A density histogram counts every sample once and integrates to one',
  'The density histogram of a data set has the requested number of bins between the least and greatest sample (in log scale, of the positive ones), spaced equally in the chosen scale; the density of each bin is the share of samples in it divided by its width, so that it integrates to one.',
  ['inputs'], 'any data, any number of bins, linear or logarithmic',
  'No test of graphics.',
  ['flowtracks/graphics.py'], ['pdf_bins', 'pdf_graph'], [], ['pdf_bins()'])
p('C26', 'Docstring conversion for the manual keeps every word in place',
  'Converting a docstring for the manual changes the given lines in place, keeps all the words of every line in their order, turns the first line of a section that starts with a title into an emphasised title, turns each definition line into a list item in a code-font name and its text, and indents the lines that continue a definition, up to the end of its section.',
  ['inputs'], 'any sequence of lines: titles, definitions, continuation, blank, plain',
  'No test.',
  ['flowtracks/format_docstrings.py'], ['parse_docstring'], [], ['parse_docstring()'])
p('C27', 'Radial-basis interpolation solves for weights that reproduce its neighbours',
  'Radial-basis interpolation at a point is the combination of Gaussian kernels of its neighbours whose coefficients reproduce the data at these neighbours.',
  ['inputs'], 'any well-conditioned set of tracers, points, data, kernel width',
  'The test checks one constant case.',
  ['flowtracks/interpolation.py'], ['rbf_interp'], [], ['interpolate()'])
p('C28', 'Spline smoothing stays within its error bound and differentiates itself',
  'A spline-smoothed trajectory keeps its ID and times; the squared deviations of its positions from the observed ones sum up to no more than the square of (points times error bound), and to just that unless no smoother path deviates so much (where the spline solver does not warn that it gives up). Its velocity and acceleration are the first and second derivatives of one smooth path of the given order (1, 3 or 5) through its positions, along the normalised length of the observed path. A trajectory with no more points than the order is returned as it is, and the smoothed trajectory itself never changes.',
  ['inputs'], 'any trajectory without two equal positions in a row, any bound, orders 1, 3, 5',
  'No test.',
  [TR], ['Trajectory.smoothed'], [], ['Trajectory.smoothed()'])
p('C29', 'Plots show exactly the data they are given, on the axes asked for',
  'A histogram plot shows the density of each bin at the start of the bin, on a logarithmic axis exactly where asked. A vector plot has three panels with one component each against the independent variable, in a new figure or added to the given one, and returns that figure. Nothing drawn earlier, there or in other figures, changes.',
  ['histories', 'inputs'], 'any sequence of plots, data, scales, figures, ticks and arrows',
  'No test of graphics.',
  ['flowtracks/graphics.py'], ['pdf_graph', 'generalized_histogram_disp', 'plot_vectors'], ['current figures'], ['pdf_graph()', 'generalized_histogram_disp()', 'plot_vectors()'])
p('C30', 'Saving or analysing that fails half-way can simply be done again',
  'When a table is saved or an analysis is run, and the source of the data or an analyser fails half-way, or something can not be saved, the error reaches the caller. Whatever failed, was read or given up before, the same file can then be written again in the same process, and has exactly what was written last. The scene that was being analysed is as it was before.',
  ['fault_sequences', 'histories'], 'any point at which the source of trajectories or frames, or an analyser, fails; any sequence of savings, analyses, complete and abandoned readings of the same files',
  'No test has a failing source or analyser, or writes a file twice.',
  [IO, 'flowtracks/analysis.py', SC], ['save_particles_table', 'save_frames_hdf', 'trajectories_table', 'analysis'], ['open files'], ['save_particles_table()', 'save_frames_hdf()', 'analysis()', 'Scene', 'AnalysedScene'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
    n = x['statement'].count('. ') + 1
    assert n <= 3, (x['id'], n)
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
