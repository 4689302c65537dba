#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the catalogue below."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier={'over': over, 'text': ' '.join(text.split())},
                  why_tests_cant=' '.join(why.split()),
                  anchors={'files': ['hapuamod/' + f if '/' not in f else f for f in files],
                           'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'observe_at': observe, 'hook_needed': None},
                  technique=technique, note=' '.join(note.split())))


NOTEST = 'The existing suite only runs a handful of fixed hydraulic channels; nothing in it exercises this.'

# ------------------------------------------------------------------ geometry
prop('G01', 'Model and real-world coordinates convert both ways without distortion',
     '''For any origin and shore-normal bearing, converting points from model to real-world coordinates and back (or the
     reverse) returns the same points, with missing values staying missing.  The model Y axis points along the bearing
     (clockwise from north), the X axis points to its right, and distances are preserved.''',
     ['inputs'], 'All origins (including national-grid sized), bearings over the full circle, scalars and arrays of points.',
     NOTEST, ['geom.py'], [('mod2real', 'geom.mod2real'), ('real2mod', 'geom.real2mod')], ['returned coordinates'],
     'property-based testing: inverse round trip + independent rotation formula',
     'Generated origins, bearings and point sets against an independent rotation formula, round trips both ways, pointwise and input-preservation checks; tolerance scales with coordinate size.')
prop('G02', 'Lines are intersected and trimmed at exactly the right points',
     '''Intersecting a polyline with a cross-shore line returns the position of every crossing, in order along the polyline,
     each lying on the segment that crosses, and none where it does not cross.  Trimming a line to two trim lines moves
     only its two end points, onto the intersection of its (extended) end segments with the trim lines.''',
     ['inputs'], 'Polylines of any length incl. back-and-forth, vertices exactly on the cross-shore line, vertical segments; monotone trim lines with trimming or extending over several trim segments.',
     NOTEST, ['geom.py'], [('intersectPolyline', 'geom.intersectPolyline'), ('trimLine', 'geom.trimLine')], ['returned crossings', 'line coordinates'],
     'property-based testing: independent crossing/intersection oracle',
     'Exact crossing count by parity/sign oracle and exact intersections by rational-style solution; degenerate (parallel) trim segments are outside the domain.')

# ------------------------------------------------------------------ coast
prop('C01', 'Longshore transport follows the CERC formula with refraction to breaking',
     '''On every shoreline segment longshore transport equals the CERC energy-flux formula evaluated with the wave direction
     relative to that segment and the wave angle refracted from the data depth to the breaking depth, is directed away from
     the side the waves arrive from, and is zero where the waves are directed offshore of the segment.  It is always finite,
     and mirroring coast and waves mirrors the transport.''',
     ['inputs'], 'Any shoreline shape, wave power, period, wavelength, direction over the full circle, and sediment/water/breaking parameters.',
     NOTEST, ['coast.py'], [('longShoreTransport', 'coast.longShoreTransport')], ['transport per segment'],
     'property-based testing: scalar reference model + mirror metamorphic relation',
     'Agreement with an independent scalar formula to 1e-8 relative on generated coasts, plus mirror relation and input preservation.')
prop('C02', 'Runup, overtopping and its crest/backshore split follow the documented rules',
     '''Runup equals the gravel-beach formula of Poate et al.; the cross-shore flux at a transect is the overtopping law applied
     to runup plus sea level above the barrier crest, and zero below it.  All of the flux goes to the barrier crest unless the
     crest is higher than the target for its width (then all of it overwashes), with no overwash where there is neither lagoon
     nor channel and only overwash where a channel of zero width remains.''',
     ['inputs'], 'Transects with every combination of lagoon, channel, closed channel and barrier width/height; any waves, sea level and coefficients.',
     NOTEST, ['coast.py'], [('runup', 'coast.runup'), ('overtopping', 'coast.overtopping')], ['flux and overwash share per transect'],
     'property-based testing: scalar reference model',
     'Exact agreement with a transect-by-transect reference; cases within rounding of the height threshold are excluded and counted.')

# ------------------------------------------------------------------ river hydraulics
prop('R01', 'Steady backwater profile satisfies the energy equation or is critical',
     '''The steady solution has the downstream water level given (or critical depth there if deeper), carries the given flow at
     every cross-section, and is never shallower than critical depth.  Between each pair of cross-sections it satisfies the
     energy balance with mean Manning friction within the specified tolerance, being critical only where no subcritical
     solution exists, and it always finishes with finite values.''',
     ['inputs'], 'Channels with arbitrary beds (steep, adverse, steps), widths, spacings, roughness, flows and downstream levels.',
     'Existing tests run a few gentle channels; the branch choice and convergence depend on every combination of bed step, width jump, flow and level.',
     ['riv.py'], [('solveSteady', 'riv.solveSteady')], ['depth and velocity per cross-section'],
     'property-based testing: independent root bracketing oracle of the backwater equation',
     'Each section is compared with the root found by an independent scan+bisection of the same one-step equation; ambiguous near-tangent roots are excluded and counted.')
prop('R02', 'Unsteady hydraulics conserve water volume and honour the boundaries',
     '''Over any sequence of timesteps the change in stored water (channel plus connected offline lagoon area) equals inflow minus
     outflow minus barrier seepage, reach by reach, weighted in time as configured.  The upstream discharge equals the given
     inflow, and downstream the water level equals the given sea level, or the flow is zero if the outlet is closed.''',
     ['inputs', 'histories'], 'Channels of any geometry with offline storage and seepage, open or closed, sequences of changing inflow and sea level.',
     'Existing tests check a few steady or slowly varying cases by end values only; conservation must hold at every node and step.',
     ['riv.py'], [('solveFullPreissmann', 'riv.solveFullPreissmann')], ['depth and velocity after each step'],
     'property-based testing: conservation invariant over generated histories',
     'Volume balance recomputed reach by reach from inputs and outputs of each step with a tight solver tolerance; steps where the solver reports non-convergence are outside the domain and counted.')
prop('R03', 'Unsteady hydraulics satisfy the momentum equation in every reach',
     '''After every timestep the flow in each reach satisfies the time-weighted momentum balance of the Saint-Venant equations
     (local and convective acceleration, water surface slope, Manning friction opposing the flow), to within the solver
     tolerance.''',
     ['inputs', 'histories'], 'Channels of any geometry, flow in both directions, any momentum coefficient and time weighting, sequences of boundary values.',
     'Existing tests compare a few profiles visually/with loose thresholds; sign and weighting errors only show for reversing or rapidly varying flow.',
     ['riv.py'], [('solveFullPreissmann', 'riv.solveFullPreissmann')], ['depth and velocity after each step'],
     'property-based testing: residual oracle of the discretised equations',
     'The residual is recomputed independently for each reach and step; steps where the solver did not converge are counted as out of domain.')
prop('R04', 'Hydraulic solver always hands back a usable solution',
     '''Whatever the flows and levels, the unsteady calculation updates the caller's depths and velocities in place to positive
     finite depths and finite velocities, without changing its other inputs.  If it does not converge within the iteration limit
     it returns exactly the steady solution for that step's boundary values and carries on with the remaining steps, and a
     singular system is recovered from.''',
     ['inputs', 'fault_sequences'], 'Hostile initial conditions (zero depth, zero velocity), abrupt boundary changes, tiny iteration limits, injected singular-matrix faults at any iteration.',
     'Fallback paths need non-convergence or a singular matrix at a particular step, which the fixed tests never produce.',
     ['riv.py'], [('iteration limit fallback', 'riv.solveFullPreissmann'), ('singular matrix recovery', 'riv.solveFullPreissmann')], ['depth and velocity arrays of the caller'],
     'property-based testing with fault injection (iteration limits, singular solves)',
     'Generated fault points; the result is compared with the steady solver (itself checked by R01) and with an uninterrupted run started from the same state.')
prop('R05', 'River, lagoon and outlet merge into one channel without losing area',
     '''The combined channel runs river, then lagoon transects from the river to the outlet, then outlet channel transects, outlet
     end and sea; every bed level, width, spacing and flag matches the transect it came from, and the last spacing reaches the
     outlet end.  All lagoon area and barrier length not on the flow path is attached exactly once, to the first or last lagoon
     cross-section on its side (the lagoon of a transect at which an offset outlet starts counts as outlet), and mirroring the coast left-to-right gives the same channel.''',
     ['inputs'], 'Outlets left, right or in line with the river, angled either way, ending on or between transects, open or closed lagoons with gaps.',
     NOTEST, ['riv.py'], [('assembleChannel', 'riv.assembleChannel')], ['assembled channel arrays'],
     'property-based testing: scalar reference assembly + mirror metamorphic relation',
     'Exact comparison with an independent assembly and an area/length balance; outlet ends within 1e-7 of a transect are excluded unless exactly on it.')
prop('R06', 'Outlet closure is detected exactly when the flow path is too narrow',
     '''An open outlet becomes closed when, and only when, any outlet channel transect or the outlet end is no wider than the closure
     width, or the lagoon on the flow path is narrower than it.  A closed lagoon stays closed, no outlet channel remains in the
     flow path, and the lagoon keeps the transects connected to the river with the rest of its area attached to the last one.''',
     ['inputs'], 'Widths anywhere around the closure width in any subset of transects, open or already closed.',
     NOTEST, ['riv.py'], [('closure checks', 'riv.assembleChannel')], ['closed flag and flow path'],
     'property-based testing: scalar reference model with threshold-biased generation',
     'Widths are generated on, just below and just above the threshold; exact comparison with the reference assembly.')
prop('R07', 'Hydraulics survive storing on transects and re-assembling the channel',
     '''Storing the hydraulics of the combined channel on the transects and assembling the channel again returns the same depths and
     velocities, and where the channel has gained cross-sections their depth and flow are interpolated between their neighbours.
     Water levels of disconnected lagoon equal the nearest connected level, and bedload stored on transects is the value of the
     reach that starts at that transect.''',
     ['inputs', 'histories'], 'All channel layouts, before and after the outlet extends, shortens, closes or moves.',
     NOTEST, ['riv.py'], [('storeHydraulics', 'riv.storeHydraulics'), ('storeBedload', 'riv.storeBedload'), ('interpolation of missing hydraulics', 'riv.assembleChannel')], ['stored and re-assembled depth, velocity, bedload'],
     'property-based testing: store/assemble round trip',
     'Round trip on generated layouts, with generated changes of the outlet between storing and assembling.')
prop('R08', 'Bedload follows Meyer-Peter and Muller with upwinding',
     '''Bedload in each reach is the weighted mean of the transport capacity at its two cross-sections, each equal to the
     Meyer-Peter and Muller law for the grain shear stress there in bulk volume (including voids).  Transport is zero below the
     critical stress and has the direction of the flow.''',
     ['inputs'], 'Channels of any size, flow in either direction, all sediment parameters and weightings.',
     'The single existing bedload test does not pass on this tree and checks one channel.', ['riv.py'], [('calcBedload', 'riv.calcBedload')], ['bedload per reach'],
     'property-based testing: scalar reference model + reversal relation',
     'Agreement with an independent scalar formula on generated channels.')

# ------------------------------------------------------------------ morphology
MR = 'An independent transect-by-transect reference of one morphological step is compared exactly (1e-9) with the real step; cases within 1e-7 of a branch threshold or outside the valid geometry are excluded and counted.'
prop('M01', 'Gradual morphology change balances sediment supplied and removed',
     '''While nothing is rearranged, each part of the river, lagoon, outlet, barrier and shoreline moves at the rate given by the
     sediment it gains or loses: bed by deposition or erosion over its area, banks where a channel too narrow for its depth erodes,
     shoreline by longshore gradients, outlet sediment and cross-shore losses over the shoreface height, crest and back barrier by
     overtopping.  Longshore drift across an open mouth narrows and shifts the outlet end instead of feeding the far bank, and the
     ends of the shoreline retreat at the given rate.''',
     ['inputs'], 'All geometries, transport directions, open and closed, left and right outlets, wide and narrow channels.',
     NOTEST, ['mor.py'], [('change rates', 'mor.updateMorphology')], ['geometry after one step'],
     'property-based testing: reference model + sediment budget invariant', MR)
prop('M02', 'Morphological timestep adapts within its limits and limits change',
     '''The timestep is halved while the largest change would exceed the limit and doubled while it would be under half of it, never
     dropping below the minimum or rising above the maximum.  If the change still exceeds the limit at the minimum timestep every
     change is limited to it keeping its sign, and the timestep returned is the one applied.''',
     ['inputs', 'histories'], 'Any forcing magnitude from none to extreme, starting timesteps, limits and maxima that are not powers of two apart.',
     NOTEST, ['mor.py'], [('adaptive timestep', 'mor.updateMorphology')], ['returned timestep', 'change of geometry'],
     'property-based testing: reference model + bound invariants', MR)
prop('M03', 'Geometry stays valid through any history of morphological change',
     '''Starting from a valid state and repeating hydraulics-to-morphology steps under any forcing, the model never fails or produces
     missing values in shoreline, lagoon edge or cliff, and the order shoreline, outlet channel, lagoon edge, cliff is kept at every
     transect (no negative widths, except a channel just squeezed against the cliff, which closes in the next step).  Channel banks, bed and inner crest are present together or absent together, the lagoon at the
     river always stays wide enough for flow, and the outlet end stays inside the domain.''',
     ['histories'], 'Sequences of steps with arbitrary transport, overtopping, water levels and starting geometries.',
     'Corruption shows only after particular multi-step histories; the suite runs no morphology.',
     ['mor.py', 'riv.py'], [('collision handling', 'mor.updateMorphology'), ('assembly', 'riv.assembleChannel')], ['geometry after every step'],
     'stateful property-based testing: invariants over generated histories',
     'Histories of generated forcing; a history ends (counted) when it reaches a documented known finding or design limitation.')
prop('M04', 'Left and right are treated alike',
     '''Mirroring the coast, outlet and forcing left to right and running a step (assembly, transport and morphology) gives exactly the
     mirrored result.''',
     ['inputs'], 'All geometries and forcing without exact ties (e.g. outlet end exactly on a transect or equally good breach sites).',
     'Left-right slips show only for leftward outlets, which no test uses.', ['mor.py', 'riv.py', 'coast.py'],
     [('direction dependent branches', 'mor.updateMorphology'), ('direction dependent branches', 'riv.assembleChannel')], ['geometry, channel and transport of the mirrored model'],
     'metamorphic property-based testing (mirror relation)',
     'The code is compared with itself on mirrored input; ties that have no mirrored equivalent are excluded and counted.')
prop('M05', 'Breaches happen exactly where and when the barrier fails',
     '''A breach occurs only where the barrier is completely eroded or is lower than the water behind it at a place connected to the
     river by open lagoon or channel; with an open outlet only closer to the river than the outlet, otherwise the barrier is restored.
     Erosion picks the failure nearest the river and spilling the deepest, and the new outlet lies straight through that transect
     (re-using a connected channel already there), at least twice the closure width wide, fitting between shoreline and cliff, and
     re-opens the lagoon.''',
     ['inputs'], 'Open and closed lagoons, with relic channels, gaps in the lagoon, several simultaneous failures.',
     NOTEST, ['mor.py'], [('erosion breach', 'mor.updateMorphology'), ('spill breach', 'mor.updateMorphology'), ('breach creation', 'mor.updateMorphology')], ['breach flag and outlet geometry after the step'],
     'property-based testing: reference model with breach-biased generation', MR + '')
prop('M06', 'Outlet channel lengthens, shortens and stops at the domain edge correctly',
     '''When the outlet end passes one or more transects they become channel of the end width and bed behind a new spit; where the lagoon
     or the sea reaches the channel its upstream or downstream end moves past the collision (past all of them, where several transects are
     reached at once), keeping at least one channel transect; only where the sea also reaches a channel which the lagoon has just cut
     short may the outlet be lost, and so close.  The outlet end never leaves the domain, in either direction.''',
     ['inputs', 'histories'], 'Outlets of any length, angled either way, ends moving by zero to several transects per step, collisions at any transect.',
     NOTEST, ['mor.py'], [('extension', 'mor.updateMorphology'), ('truncation', 'mor.updateMorphology'), ('domain edge', 'mor.updateMorphology')], ['outlet end positions and channel transects after the step'],
     'property-based testing: reference model with migration-biased generation', MR)
prop('M07', 'Rearranging the barrier conserves sediment',
     '''When a relic channel dissolves into the lagoon or the sea, overwash fills a channel or the rest of a lagoon, the shoreline
     meets the cliff, or the outlet is shifted back from the sea, sediment removed at that transect equals sediment placed there.
     The rearrangement affects no other transect.''',
     ['inputs'], 'All rearrangements, singly and together, any elevations and widths.',
     NOTEST, ['mor.py'], [('collision handling', 'mor.updateMorphology')], ['cross-section volume before and after'],
     'property-based testing: volume invariant + reference model',
     MR + ' The volume balance is an additional oracle, computed from a cross-section area functional, on transects where the documented rule conserves mass.')
prop('M08', 'A morphological step is deterministic and changes only the morphology',
     '''Repeating a step from the same state gives bit-identical results, whatever was run before it in the same process.  Transport
     rates, water levels, channel description and parameters passed in are left unchanged.''',
     ['inputs', 'histories'], 'All states; repeated with other steps in between and with inputs held in differently laid out arrays.',
     'Hidden state or uninitialised memory shows only for particular histories.', ['mor.py', 'coast.py', 'riv.py'],
     [('in-place updates', 'mor.updateMorphology')], ['results of repeated calls', 'inputs after the call'],
     'property-based testing: repeatability under polluted memory and call history', 'Bitwise comparison between repeated calls with interleaved other work.')

# ------------------------------------------------------------------ loading
prop('L01', 'Configuration files are validated and defaults applied',
     '''A configuration with a missing section or mandatory key, or a value of the wrong type or outside its documented range, is rejected
     with an error naming the key and section and nothing is written.  Any valid configuration loads with every given value used as
     given and every omitted optional value at its documented default, and a missing file is reported as such.''',
     ['configurations'], 'Every key: absent, wrong type, below/above its range, at its bounds; any valid combination.',
     NOTEST, ['loadmod.py', 'configspec.cnf'], [('validation', 'loadmod.loadModel'), ('specification', 'hapuamod/configspec.cnf')], ['exception or loaded parameters'],
     'property-based testing: configuration mutation against an independent table of keys', 'Keys, ranges and defaults are tabulated independently of the specification file.')
prop('L02', 'Synthetic initial geometry matches the configuration',
     '''Without spatial inputs the model starts with a straight shoreline through the origin covering the requested length either side
     with transects at multiples of the spacing including exactly zero, and a straight outlet through a barrier in line with the river
     leading to a lagoon as wide as the river.  Barrier, lagoon, outlet and river bed have the configured levels and widths, the
     river rising upstream at its slope over its length.''',
     ['configurations'], 'All valid spacings (including fractional), lengths, levels and widths.',
     NOTEST, ['loadmod.py'], [('default initialisation', 'loadmod.loadModel')], ['loaded geometry'],
     'property-based testing: reference model over generated configurations', 'Exact comparison with an independent construction.')
prop('L03', 'Real-world spatial inputs become a consistent model geometry',
     '''From shapefiles of shoreline, river, lagoon, cliff and outlet the model origin is the point of the fitted baseline closest to the
     river, the shore normal points offshore (away from the river), and each transect takes shoreline, lagoon edge, cliff and outlet
     position where it crosses those lines.  Shifting all inputs, turning them half way round, or reversing the order in which lines
     were drawn changes only origin and orientation.''',
     ['inputs'], 'Coasts facing any direction (except where the line fit is ill-conditioned), drawn in either order, outlets angled either way or straight.',
     NOTEST, ['loadmod.py', 'geom.py'], [('spatial initialisation', 'loadmod.loadModel')], ['loaded geometry, origin and orientation'],
     'property-based testing: generated shapefiles + rotation/reversal metamorphic relations', 'Shapefiles are written per case from a model-space layout placed in the world, so the expected geometry is known.')
prop('L04', 'Boundary time series cover the run and keep their values',
     '''Flow, wave and sea level series are read with their values and times unchanged, except wave directions which become radians relative
     to the shore normal in the range of plus or minus half a turn, and are only shortened where they extend beyond the simulation.  A series
     that does not cover the whole simulation is rejected.''',
     ['inputs', 'configurations'], 'Series of any interval and extent relative to the simulation, directions over the full circle, any shore orientation.',
     NOTEST, ['loadmod.py'], [('boundary conditions', 'loadmod.loadModel')], ['loaded series or rejection'],
     'property-based testing: reference model over generated series', 'Values at every model time within the run are compared with the generated series.')
prop('L05', 'Derived parameters and boundary interpolation are exact',
     '''The longshore, breaking and barrier-height coefficients derived while loading equal their documented formulae for any parameters.
     Boundary values between data points are linear in time, equal the data at data points, do not depend on other requested times, and
     never need data beyond the interval containing the requested times.''',
     ['inputs', 'configurations'], 'Any parameter values; any irregular series and request times at, between and around data points.',
     NOTEST, ['loadmod.py', 'core.py'], [('derived parameters', 'loadmod.loadModel'), ('interpolate_at', 'core.interpolate_at')], ['derived parameters', 'interpolated values'],
     'property-based testing: reference formulae + linear interpolation oracle', 'Exact formulae; interpolation compared with an independent linear interpolation.')

# ------------------------------------------------------------------ synthetic series
prop('S01', 'Synthetic river flow is a reproducible shot-noise series without gaps',
     '''The synthetic hydrograph starts at the mean flow, rises linearly by each random event and recedes exponentially at one or two rates,
     with regular output times covering the period and no missing or negative values.  The same seed always gives the same series, scaling
     the event size scales the flows, shifting by whole days shifts the series, and a longer period only extends it.''',
     ['inputs'], 'All event rates (including events closer than the rising limb), decay rates, proportions, intervals, durations and seeds.',
     NOTEST, ['synth.py'], [('shotNoise', 'synth.shotNoise')], ['generated series'],
     'property-based testing: continuous-process reference bounds + metamorphic relations', 'Each output is bounded by the extremes of an independently simulated process within its interval; relations are exact to rounding.')
prop('S02', 'Synthetic tide is a harmonic of the given range and mean',
     '''The synthetic sea level at each regular output time is a sine of the semi-diurnal period with the given mean and range, starting
     from mean level at the start and covering the whole period.''',
     ['inputs'], 'Any start, duration, interval, mean and range.', NOTEST, ['synth.py'], [('harmonicTide', 'synth.harmonicTide')], ['generated series'],
     'property-based testing: closed-form oracle', 'Closed form compared at every output time.')

# ------------------------------------------------------------------ output files
prop('O01', 'Saved results read back as written, in the labelled units',
     '''Every quantity written to the results and time-series files at each output time is stored in the units the file declares and reading
     it back gives the values written, to single precision, for every time written, with missing values kept missing and the open/closed
     state and outlet channel consistent.  Writing a later time never changes earlier ones.''',
     ['inputs', 'histories'], 'Any model states and sequence of output times.', NOTEST, ['out.py'],
     [('writeCurrent', 'out.writeCurrent'), ('readTimestep', 'out.readTimestep'), ('writeTsOut', 'out.writeTsOut')], ['netCDF variables', 'values read back'],
     'property-based testing: write/read round trip over generated histories', 'Both raw file variables and the reader are compared with the written state.')
prop('O02', 'Existing results are never overwritten without consent',
     '''If an output file already exists and overwriting was not requested, it is replaced only after an affirmative answer; otherwise the run
     stops with an error and the file is untouched.  A new file starts empty with the model description and physical parameters recorded.''',
     ['inputs', 'configurations'], 'Any existing file content, any answer typed, either output file.', NOTEST, ['out.py'],
     [('newOutFile', 'out.newOutFile'), ('newTsOutFile', 'out.newTsOutFile')], ['file content before and after', 'exception'],
     'property-based testing over generated answers and files', 'File bytes compared; answers generated from affirmative, negative and arbitrary text.')
prop('O03', 'The stored time closest to a requested time is found',
     '''Looking up a date in a results file returns the stored time closest to it (the earliest if two are equally close) and its position,
     whatever the order of magnitude of times or their spacing.''',
     ['inputs'], 'Any increasing output times and any requested date before, between or after them.', NOTEST, ['out.py'],
     [('closestTimeIx', 'out.closestTimeIx')], ['returned position and time'], 'property-based testing: linear search oracle', 'Exact comparison with a linear search.')
prop('O04', 'A hot start resumes from the saved state',
     '''Starting from a results file gives the geometry, bed levels, hydraulics, closure state, origin and orientation stored at the closest
     saved time, in full working precision arrays, and optionally continues from that time.  A results file with a different transect
     spacing is rejected.''',
     ['inputs', 'configurations'], 'Any saved state (open or closed, relic channels) and requested time.', NOTEST, ['loadmod.py', 'out.py'],
     [('hot start', 'loadmod.loadModel')], ['loaded state'], 'property-based testing: write/hot-start round trip', 'States are written with the real writer and loaded back through a real configuration.')

# ------------------------------------------------------------------ whole model
prop('E01', 'A simulation runs to its end time with results at the requested intervals',
     '''A simulation of any valid configuration finishes at exactly its end time.  Output times start at the start time, strictly increase, and
     each requested output interval is answered by the first morphological step reaching it.  Progress is reported to the user on the same rule
     at the logging interval.''',
     ['configurations', 'histories'], 'Durations, timesteps and output intervals in any ratio, calm or stormy boundary conditions, synthetic or file boundary series.',
     NOTEST, ['core.py'], [('main loop', 'core.main')], ['times in output files', 'completion'],
     'property-based testing: end-to-end runs with schedule invariants', 'Short generated simulations; output times checked against the reported timesteps.')
prop('E02', 'Saved results are those of the coupled hydraulic and morphological steps',
     '''The results of a simulation equal those obtained by repeatedly assembling the channel, solving hydraulics, computing transport and
     updating morphology with boundary values interpolated at the model times.  If the unsteady calculation fails the steady solution is used
     for that step and the simulation continues, and repeating a simulation gives identical results.''',
     ['configurations', 'histories', 'fault_sequences'], 'Generated short simulations, including closure and breach, with failures injected into the hydraulics at generated steps.',
     NOTEST, ['core.py'], [('main loop', 'core.main')], ['contents of output files'],
     'property-based testing: differential against an independent driver loop', 'The independent loop calls the same component functions, so component defects are covered by the other properties.')
prop('E03', 'The command line runs the given model with the requested options',
     '''Running the program on a configuration file produces the output files and a log named after it, overwrites existing results only when
     the overwrite option is given, and logs warnings only with the quiet option and debugging detail only with the verbose option.
     A missing or invalid configuration ends with a failure status.''',
     ['configurations'], 'All combinations of options, existing outputs and valid/invalid files.', NOTEST, ['__main__.py', 'core.py'],
     [('argument handling', 'hapuamod/__main__.py')], ['exit status, files and log content'],
     'property-based testing over generated command lines', 'Real subprocess runs in scratch folders; few cases because each costs a process start.')

prop('E04', 'Results do not depend on datum, clock, placement or left and right',
     '''Raising every level given to a simulation (beds, crests, sea levels, level limits; the depth of closure counts from the same datum)
     raises every resulting level by as much and changes nothing else.  Shifting the period and all series in time only shifts the output
     times, and moving or turning a straight real-world coast with its wave directions changes nothing in model coordinates.  Mirroring
     coast, outlet and waves mirrors the results, and measuring cross-shore distances from another line shifts only those distances.''',
     ['configurations', 'histories'], 'Short simulations from any kind of initial geometry with any such change of reference.', NOTEST,
     ['core.py', 'mor.py', 'riv.py', 'coast.py', 'loadmod.py'],
     [('updateMorphology', 'mor.updateMorphology'), ('assembleChannel', 'riv.assembleChannel'), ('overtopping', 'coast.overtopping'),
      ('longShoreTransport', 'coast.longShoreTransport'), ('loadModel', 'loadmod.loadModel')],
     ['output files of the two simulations'], 'property-based testing: metamorphic pairs of simulations',
     'Thresholds within rounding error (the results change when inputs are disturbed in the ninth digit) are excluded, as is a closed outlet in line with the river for mirroring.')
prop('E05', 'A simulation continued from saved results goes on as if uninterrupted',
     '''A simulation with a fixed timestep, continued by a hot start from any of its saved output times with the same inputs, ends at the
     same time and gives the same later results and time series as the uninterrupted simulation, up to the precision of the results file.''',
     ['configurations', 'histories', 'crash_points'], 'Short simulations, open, closing, closed or breaching, interrupted at any saved step.', NOTEST,
     ['core.py', 'loadmod.py', 'out.py'], [('hot start', 'loadmod.loadModel'), ('readTimestep', 'out.readTimestep'), ('writeCurrent', 'out.writeCurrent'), ('main loop', 'core.main')],
     ['output files of both simulations'], 'property-based testing: differential between interrupted and uninterrupted runs',
     'Differences that also arise from changing the last stored digits of the saved state are excluded; the adaptive timestep is not part of the saved state.')

# ------------------------------------------------------------------ plots
prop('V01', 'Plots show the model state',
     '''Plan view, cross-section, long-section and boundary plots draw shoreline, banks, lagoon, cliff, bed, water level, velocity and transport
     at exactly the positions of the model state they are given, both when created and after being updated with another state, for open and
     closed outlets angled either way.  Plotting never changes the model state.''',
     ['inputs', 'histories'], 'Any states and sequences of updates.', NOTEST, ['visualise.py'],
     [('modelView/updateModelView', 'visualise.modelView'), ('longSection', 'visualise.longSection'), ('mapView', 'visualise.mapView'), ('newTransectFig', 'visualise.newTransectFig')], ['line data of the figures'],
     'property-based testing: drawn line data against model state', 'Data are read back from the figures; styling is not checked.')
prop('V02', 'Animations show the requested results in order',
     '''An animation of a results file contains one frame per output time from the requested start up to but not including the requested end (all that follow
     when none is given or it lies beyond the last), in order and at the requested step, each showing the results stored at its time.''',
     ['inputs'], 'Any results file, start, end and step.', NOTEST, ['animate.py'], [('main', 'animate.main')], ['frames rendered'],
     'property-based testing: recorded frames against file content', 'The movie writer is replaced by a recorder; codec output is not checked.')
prop('V03', 'Live plots follow the run',
     '''When a plotting interval is given, the long section, plan view and boundary figures are updated at the first morphological step reaching each
     interval, and show the flows, levels, bed, coast and transport of that step. Plotting leaves the results as they would be without it,
     and without a plotting interval no figures are made.''',
     ['histories', 'inputs'], 'Any valid configuration and plotting interval.', NOTEST, ['core.py', 'visualise.py'],
     [('main', 'core.main'), ('updateLongSection', 'visualise.updateLongSection'), ('updateBdyCndFig', 'visualise.updateBdyCndFig'), ('updateModelView', 'visualise.updateModelView')],
     ['line data of the figures after the run', 'results files'],
     'property-based testing: figures of a generated run against its saved steps; differential against the run without plots', 'Figures are read after the run, so the last update (and, for the boundary figure, all of them) is judged.')
prop('P01', 'Wave preprocessing derives power, direction and offshore height correctly',
     '''The wave input written from wave-model output has the mean power and arrival direction of the energy flux vector (0 to 360 degrees),
     period and wavelength unchanged, and an offshore wave height obtained by reversing shoaling and refraction, zero for offshore directed
     waves. Times keep their minutes.''',
     ['inputs'], 'Any wave-model record whose direction can come from deep water.', NOTEST, ['preprocessing/WaveDataFromSwanOutput.py'], [('script', 'preprocessing/WaveDataFromSwanOutput.py')], ['written table'],
     'property-based testing: scalar reference of linear wave theory', 'The script is run with its input and output redirected to memory.')

NOT_APPLICABLE = {}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HOME, 'harness', 'props')) if f.endswith('.py')}
    with open(os.path.join(HOME, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ('technique', 'note')}
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in have and p['id'] not in NOT_APPLICABLE:
            checks.append({'property': p['id'], 'quick_cmd': './check.sh %s --tier quick' % p['id'],
                           'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import /repo as it is', 'source_commits': []},
         'notes': 'Checks import hapuamod from /repo (VERIF_REPO overrides) in a scratch folder; generated by tools/catalog.py.'}
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
    print(len(P), 'properties,', len(checks), 'checks')


main()
