"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': state, 'meaning': state, 'where': files[0]}]
    if observe: a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
R, M, C, O, L, K, G, S, V = ['hapuamod/%s.py' % n for n in ('riv','mor','coast','out','loadmod','core','geom','synth','visualise')]

prop('C01', 'Unsteady river hydraulics conserve water volume',
 'Over every hydraulic timestep that converges, the change in stored water (river, lagoon and outlet channel plus offline lagoon storage attached to a section) equals the time-weighted inflow at the upstream end minus the time-weighted outflow at the downstream end minus barrier seepage, where every metre of lagoon seeps exactly once in proportion to its water level above the sea. Nothing leaves a closed lagoon except by seepage.',
 ['inputs','histories'], 'every channel shape, storage and seepage layout, open or closed outlet, time weighting, and every sequence of inflows and sea levels',
 'the tests print a mass balance error for a handful of channels and assert nothing; errors at end sections, for storage or seepage, or late in a multi-step series only show for other layouts',
 [R], [('implicit continuity equation', 'riv.solveFullPreissmann')], 'channel depths and velocities', 'depth and velocity arrays updated in place')
prop('C02', 'Unsteady solution meets its boundary conditions and momentum balance',
 'After every converged hydraulic timestep the upstream discharge equals the prescribed inflow, the downstream water level equals the prescribed sea level (or the downstream velocity is zero when closed), all depths are positive, and for seaward flow every reach satisfies the implicit momentum balance between pressure, bed slope, friction, convective acceleration and inertia, within the tolerance the solver is given. Still water under a level sea and steady flow under steady forcing are left unchanged.',
 ['inputs','histories'], 'every channel shape, initial state, open or closed outlet and every sequence of inflows and sea levels for which the solver converges',
 'tests compare a final profile with a steady solution by eye for one channel each; a wrong term is invisible where its gradient vanishes',
 [R], [('implicit momentum equation and boundary rows', 'riv.solveFullPreissmann')], 'channel depths and velocities', 'depth and velocity arrays updated in place')
prop('C03', 'Hydraulic results do not depend on how the series is cut into calls',
 'Solving a sequence of hydraulic timesteps in one call gives the same depths and velocities as solving the same sequence split into several consecutive calls at any points. This holds with the outlet open for any sea level sequence, and with the outlet closed while the sea level stays constant.',
 ['histories'], 'every way to split a bounded series of timesteps into consecutive calls',
 'no test splits a series; state carried between inner timesteps is only compared when the same history is cut differently',
 [R], [('time loop state carry-over', 'riv.solveFullPreissmann')], 'previous-step variables')
prop('C04', 'Steady backwater profile satisfies energy balance and critical depth',
 'The steady profile carries the given discharge through every section, never falls below critical depth, and starts from the sea level or from critical depth at the downstream end, whichever is deeper. Wherever the profile is above critical depth the energy drop between neighbouring sections equals the mean friction slope times the distance between them, and a section is put at critical depth only where no deeper flow satisfies that balance.',
 ['inputs'], 'every bounded combination of bed profile, width profile, section spacing, discharge, sea level, roughness and momentum coefficient',
 'tests only look at gentle regular channels; transitions, irregular spacing and critical sections need enumeration',
 [R], [('standard step backwater', 'riv.solveSteady')])
prop('C05', 'The hydraulic channel is assembled completely, in order, once',
 'The combined channel runs from the river through the lagoon transects from the river mouth towards the outlet, then the outlet transects to the outlet end and the sea section, with bed levels and widths taken from those transects. Neighbouring sections are one grid interval apart except that the outlet end includes the distance to its actual position. All lagoon area and length not on this path is attached, exactly once, as storage at the first or last lagoon section on the side where it lies.',
 ['configurations'], 'every bounded combination of outlet position and direction, lagoon extent and gaps, open or closed state',
 'no test calls the assembly; left/right and inline layouts are separate code paths',
 [R], [('channel assembly', 'riv.assembleChannel')], 'lagoon/outlet transect arrays')
prop('C06', 'Hydraulic state survives storing and re-assembling the channel',
 'Storing channel depths and velocities into the transect model and assembling the channel again with unchanged geometry gives back the same depths and velocities (a closed channel having zero velocity at its end). Sections newly joining the channel get values interpolated between neighbours: depth directly and velocity from discharge per unit width. Offline lagoon transects take the water level of the nearest online end of the lagoon.',
 ['configurations','histories'], 'every bounded layout and every change of outlet end between store and re-assembly',
 'no test stores or re-assembles; an index or order slip only shows for particular outlet directions',
 [R], [('store/assemble pair', 'riv.storeHydraulics, riv.assembleChannel, riv.storeBedload')], 'LagoonWL, OutletDep and related arrays')
prop('C07', 'The outlet closes exactly when a section falls below the minimum width',
 'At channel assembly an open outlet becomes closed if and only if an online outlet transect or the outlet end is no wider than the minimum outlet width, or an online lagoon transect is narrower than it. After closure the channel ends in the last lagoon transect before the first too-narrow one, with the cut-off lagoon kept as storage.',
 ['configurations'], 'every position and kind of narrow section in every bounded layout, open or already closed',
 'closure of a particular section needs that section to be the narrow one; no test exercises closure decisions',
 [R], [('closure test', 'riv.assembleChannel')])
prop('C08', 'River bedload follows the threshold law, flow direction and upwinding',
 'Bedload in a reach is the stated weighting of the transport at its two ends, each end carrying the excess-shear (Meyer-Peter Muller) bulk rate for its own depth, velocity and width. It is zero at or below the critical shear, directed with the flow, and stored to the lagoon, outlet and outlet end positions of the transect model in channel order.',
 ['inputs'], 'every bounded combination of depth, velocity (both signs and zero), width, weighting and sediment parameters',
 'the bedload test cannot even run; threshold edges and reversed flow need enumeration',
 [R], [('bedload', 'riv.calcBedload, riv.storeBedload')])
prop('C09', 'Longshore transport follows the CERC law for every wave and shore angle',
 'On each shoreline segment transport is the CERC rate for the wave angle relative to that segment, with refraction to the breaking depth, positive to the right for waves arriving from the left, and zero for waves that head offshore relative to the segment or have no power. Each segment depends only on its own orientation.',
 ['inputs'], 'every bounded combination of wave direction around the circle, power, period, wavelength and segment orientation, with breaking inside the wave data depth',
 'no test calls it; sign, cut-off angles and segment locality need all directions and orientations',
 [C], [('CERC formula', 'coast.longShoreTransport')])
prop('C10', 'Runup, overtopping rate and its crest/backshore split follow the stated laws',
 'Runup is proportional to wave period, wave height and root beach slope, and the overtopping rate at each transect is the coefficient times the power of runup height above the crest, zero when below it. The sediment goes over the barrier into the lagoon or channel behind it exactly when the crest is above the target height for its width; with nothing behind the barrier it stays on the crest, and over a zero-width channel it always goes over.',
 ['inputs'], 'every bounded combination of runup, sea level, crest height, barrier width and back-barrier layout',
 'no test calls these functions; the split has several layout cases with edges',
 [C], [('runup and overtopping', 'coast.runup, coast.overtopping')])
prop('C11', 'Morphological updates conserve sediment',
 'Within the timestep limits, a morphological update changes the sediment volume of river, lagoon, outlet channel, barrier, cliff and shoreface only by what crosses the model boundaries: bedload in and out, and the prescribed movement of the two end transects. Filling or relocating channels that meet the sea or the lagoon, cliff retreat, restoring an eroded barrier that does not breach, and overwash into closed channels move sediment without creating or losing it wherever the schematisation can represent the result.',
 ['inputs','configurations','histories'], 'every bounded state (layout, overlap and crest arrangement) under every single forcing and small combinations of them',
 'no test calls the morphology; each structural branch needs its own state and a volume balance across it',
 [M], [('volume to elevation/position conversion and structural adjustments', 'mor.updateMorphology')], 'ShoreY, ShoreZ, RiverElev, outlet end')
prop('C12', 'Without forcing the landscape does not move',
 'With no bedload, longshore or overtopping transport and no end erosion, an update of a consistent state changes no coordinate or elevation, causes no breach, and raises the timestep to its maximum. A uniform bedload through the river, lagoon and outlet changes no bed or bank, and uniform longshore transport changes no shoreline except at the outlet.',
 ['configurations'], 'every bounded consistent state, open or closed, left or right, with or without relic channels',
 'stationarity has to hold for every layout, tests sample none',
 [M], [('morphological rates', 'mor.updateMorphology')])
prop('C13', 'Left and right are interchangeable',
 'Mirroring a model state and its forcing about the river line and advancing it gives the mirror image of advancing the original: hydraulics, bedload, longshore transport, overtopping, morphology, breaching and closure. The initial grid, the channel assembly and the outlet migration obey the same rule, apart from ties (an outlet end exactly on a transect).',
 ['configurations','histories'], 'every bounded state with an outlet off the river line, every forcing in the alphabet, every history up to the stated depth',
 'left and right handed layouts are separate code paths and no test compares them',
 [M, R, C], [('left/right branches', 'mor.updateMorphology, riv.assembleChannel, coast.longShoreTransport')])
prop('C14', 'Every reachable state is geometrically consistent',
 'In every reachable state shoreline, outlet banks, lagoon edge and cliff keep their seaward-to-landward order, a channel has both banks, a bed and an inner crest or none of them, no required value is missing, online outlet transects form one unbroken run between the outlet ends inside the domain, and the lagoon at the river stays open. Advancing any reachable state never fails.',
 ['histories'], 'every sequence of forcings from the alphabet up to the stated depth from every bounded initial layout',
 'needs exhaustive exploration of sequences; tests never advance the morphology',
 [M, R, K], [('structural adjustments', 'mor.updateMorphology')], 'full model state')
prop('C15', 'The adaptive timestep respects its bounds and the change limit',
 'The morphological timestep returned by an update always lies between the configured minimum and maximum, is halved only while the largest predicted change exceeds the limit and doubled only while it is below half of it. No bed level, bank, shoreline or outlet end changes by more than the limit in one update before structural adjustments, and when the minimum timestep is not enough the changes are capped with their signs kept.',
 ['inputs','histories'], 'every magnitude of forcing over the full range at every starting timestep and bound setting',
 'no test covers the timestep control; bounds that are not powers of two apart are the edge',
 [M], [('adaptive timestep', 'mor.updateMorphology')])
prop('C16', 'A breach opens exactly when and where the water or the sea breaks through',
 'A breach happens if and only if, at a place with water connection to the river, the barrier is completely eroded, the sea reaches a connected relic channel, or the water behind the barrier is above its crest; with an outlet already open only a place nearer to the river along the water path counts. It opens at the eroded place nearest the river (or upstream along the relic channel) or where the spill is deepest, with an outlet no narrower than twice the minimum width that the next assembly accepts as open.',
 ['configurations'], 'every bounded placement of eroded, low or disconnected transects and water levels, open or closed, with or without relic channel',
 'breach decisions combine connectivity, state and distance; no test reaches one',
 [M, R, K], [('breach detection and creation', 'mor.updateMorphology')])
prop('C17', 'The outlet end migrates with longshore drift and stays in the domain',
 'Longshore drift reaching the open outlet narrows its end by the delivered volume and moves it downdrift by half the narrowing, adding nothing to the far shore; bank erosion at the end widens it and shifts it away from the lagoon side by the configured share. When the end passes a transect that transect gains a channel a spit width behind the shore, as wide and as deep as the outlet end, and the end never leaves the domain.',
 ['inputs','configurations'], 'every outlet direction and end position, drift direction and magnitude, including several transects in one step and the domain edges',
 'needs specific positions relative to transects and domain edges',
 [M], [('outlet end dynamics', 'mor.updateMorphology')])
prop('C18', 'Results files hold exactly what the model computed',
 'Reading any recorded time back from a results file gives the values that were written, to single precision and in the stated units, for every variable, in the record at that time, with missing channel values missing. Finding the record nearest a requested time gives the nearest one.',
 ['inputs','histories'], 'every variable, open or closed state, and every sequence of writes up to the stated length',
 'no test writes or reads a results file',
 [O], [('netCDF output', 'out.newOutFile, out.writeCurrent, out.readTimestep, out.closestTimeIx, out.newTsOutFile, out.writeTsOut')])
prop('C19', 'Existing results are never overwritten without consent',
 'An existing results or timeseries file is replaced only when overwriting was requested or the prompt was answered yes; otherwise the run stops with an error and the file is byte for byte unchanged. When replaced, nothing of the old content remains.',
 ['configurations','histories'], 'every combination of existing files, overwrite option and prompt answers, for both files and for a whole run',
 'no test touches existing files',
 [O, K], [('overwrite protection', 'out.newOutFile, out.newTsOutFile')])
prop('C20', 'A run continued from its results file starts from the recorded state',
 'Restarting from any recorded time reproduces the recorded landscape, water levels and velocities, outlet state and coordinate system as the first record of the new run, and generated forcing stays aligned with the original time axis. Open and closed records are both accepted, and a restarted run follows the uninterrupted one to within storage precision.',
 ['histories','configurations'], 'every recorded time of bounded runs with open, closed and migrating outlets, with and without continuation',
 'no test restarts a run',
 [L, O, K], [('hotstart', 'loadmod.loadModel, core.main')])
prop('C21', 'A run covers the whole period and records on schedule',
 'A run ends exactly at the configured end time whatever the timesteps, and records at the start and then at the first computed time reaching each multiple of the output interval, with strictly increasing times. Recorded flow and sea level are the forcing at the end of the hydraulic period of the step, recorded waves the forcing at its start, and no computed time is skipped or repeated.',
 ['configurations'], 'every bounded combination of duration, hydraulic and morphological timesteps and output intervals, including ones that do not divide each other',
 'no test runs the model driver',
 [K], [('time loop', 'core.main')])
prop('C22', 'Forcing is interpolated linearly in time, directions along the shorter arc',
 'Boundary conditions between data points are linear in time for any requested times within the data and exact at data points, and wave directions are interpolated along the shorter arc and stay within half a turn of shore normal. Extra data outside the requested span changes nothing. A supplied series that covers the run period reaches the run as its file says, wherever its records lie, and one that does not cover it is refused.',
 ['inputs'], 'every bounded series spacing, value pattern including direction wrap-around, and set of requested times',
 'no test interpolates; wrap-around and irregular spacing need enumeration',
 [K, L], [('interpolation', 'core.interpolate_at'), ('reading the series', 'loadmod.loadModel')])
prop('C23', 'Initial grids represent the supplied geometry in any orientation',
 'The transect grid has a transect exactly on the river line, spans the requested or supplied shoreline at the requested spacing, and every transect takes the shoreline, barrier backshore, cliff and outlet positions of the supplied lines. Shore normal points to sea, wave directions are measured from it, and the model is the same, up to rounding, however the supplied lines are rotated, shifted or digitised in reverse. Where a cliff or backshore line meets a transect more than once the seaward crossing counts, and a shoreline that doubles back is refused whichever way it was digitised.',
 ['inputs','configurations'], 'every rotation on a full-circle grid, translation, digitising direction, outlet direction and grid spacing in the bounded set',
 'the only example is one site with one orientation',
 [L, G], [('model initialisation', 'loadmod.loadModel')])
prop('C24', 'Map and model coordinates convert to and fro without distortion',
 'Converting model coordinates to map coordinates and back returns the same point, distances are preserved, the origin maps to the origin, and positive cross-shore distance lies in the shore normal direction with positive alongshore distance to the right of it. Line intersection and trimming return points on both lines.',
 ['inputs'], 'every bounded orientation, origin and point, and every bounded polyline and cut position',
 'needs all quadrants; no test calls it',
 [G], [('coordinate transforms and line geometry', 'geom.mod2real, geom.real2mod, geom.intersectPolyline, geom.trimLine')])
prop('C25', 'Configuration values reach the model unchanged or are rejected',
 'Every configured physical, numerical, time and output value appears in the loaded model with its configured value and unit conversion, documented defaults fill in omitted optional values, and derived coefficients follow their formulas. A missing mandatory key, a wrong type or forcing that does not cover the run is rejected with an error.',
 ['configurations'], 'every configuration key omitted, ill typed or varied one at a time, and every forcing span around the run period',
 'no test loads a configuration',
 [L], [('configuration loading', 'loadmod.loadModel, configspec.cnf')])
prop('C26', 'Synthetic forcing has the stated timing, decay and mean',
 'Synthetic tides are the stated sinusoid, and synthetic hydrographs are repeatable for a seed, regularly spaced over the requested period, positive, free of gaps, start at the theoretical mean (unless an event is already rising) and between events decay as the stated sum of exponentials. Each event rises by its drawn size at its drawn time. Asking for synthetic forcing in the configuration gives the run exactly those series over its period.',
 ['inputs'], 'every bounded parameter set and every bounded sequence of random draws',
 'no test generates a series; rare short gaps between events need controlled draws',
 [S], [('shot noise and tide', 'synth.shotNoise, synth.harmonicTide')])
prop('C27', 'A run is a function of its configuration alone',
 'Running the same configuration twice, in one process or separate ones, after other runs, or from another working directory gives identical results. Components leave every input they are not documented to modify unchanged.',
 ['histories','configurations'], 'every order of two runs from the bounded set of configurations, and every component call in the bounded state set',
 'tests never repeat a run; leaked state or aliasing needs call sequences',
 [K, M, R, L, C], [('module purity', 'core.main and component functions')])
prop('C28', 'Solver failures fall back to the quasi-steady solution and the run goes on',
 'If the unsteady solution does not converge or fails numerically at any timestep the model uses the steady profile for the final inflow and sea level of that period, warns, and continues to the end time. A later timestep is not affected by the failed one other than through that profile.',
 ['fault_sequences'], 'every placement of up to two injected solver failures of each kind in bounded runs',
 'failures cannot be provoked at chosen steps by example inputs',
 [K, R], [('fallbacks', 'core.main, riv.solveFullPreissmann')])
prop('C29', 'Plots show the current state independent of what was shown before',
 'Updating a model view, transect, long section or boundary plot to a state shows the same lines and polygons as drawing that state afresh. The drawn shoreline, banks, lagoon edge, cliff, transect profiles and channel profiles pass through the coordinates, elevations and water levels of that state, on the map in real coordinates. With live plots a run updates them at the first computed time reaching each multiple of the plot interval, and the boundary plot holds the flow, outflow and sea level of all those times.',
 ['histories'], 'every sequence of states up to the stated length from the bounded set of open, closed, left and right layouts',
 'plots are never compared in tests; stale artists show only after certain sequences',
 [V], [('figure updates', 'visualise.updateModelView, visualise.updateLongSection, visualise.updateBdyCndFig')])
prop('C30', 'Each step of a run applies the documented processes in order',
 'Every recorded state of a run is the one obtained by repeatedly assembling the channel, solving the hydraulics with the forcing over the timestep, computing bedload, longshore transport and overtopping from the forcing and geometry of that timestep, and updating morphology with them. Recorded fluxes, levels and boundary values are those of that same timestep.',
 ['histories','configurations'], 'every record of every run in the bounded set of configurations',
 'no test runs the driver; a stale or swapped argument leaves plausible output',
 [K], [('time loop', 'core.main')])
prop('C31', 'Banks, beds and shoreline respond to transport by the stated rules',
 'Within an update and before structural adjustments, net bedload deposition raises the bed of a section; net erosion lowers the bed of river sections and of sections wider than the limiting width to depth ratio, and otherwise widens the section equally on both banks in inverse proportion to their heights. Bedload leaving the outlet is spread over the shoreline around it, longshore gradients and overtopping losses move the shoreline over its full height, overtopping raises the crest or builds out the back of the barrier, and the two end transects move only at the configured erosion rate.',
 ['inputs','configurations'], 'every bounded state and every bounded combination of bedload, longshore and overtopping transport',
 'the only morphology test fails on this tree; each transect type and transport is a separate term',
 [M], [('rates of change', 'mor.updateMorphology')], 'transect coordinates and elevations', 'coordinate and elevation arrays updated in place')
prop('C32', 'Channels meeting sea, lagoon or cliff are cut, merged or moved at the right place',
 'After an update an online outlet that the lagoon has reached starts at the first transect beyond the last contact, and one that the sea has reached ends just before the first contact; contacts that would leave no outlet transect move the banks instead. A disconnected channel reaching the lagoon becomes lagoon, one reaching the sea is filled from the shoreface, overwash beyond a channel\'s width goes onto the lower crest or removes the channel, shoreline at the cliff makes it retreat, and an eroded barrier that may not breach is restored. Transects without contact are not altered.',
 ['inputs','configurations'], 'every bounded assignment of regular and critical transect types, outlet positions and directions, and forcings',
 'these branches only run in rare geometry, mirrored left and right, and several may act on one transect in order',
 [M], [('structural adjustments after each update', 'mor.updateMorphology')], 'transect coordinates, outlet ends', 'coordinate arrays updated in place')
A = 'hapuamod/animate.py'
prop('C33', 'Every frame of an animation shows the record it stands for',
 'An animation of a results file has one frame for each requested output timestep, in order, at the requested frame rate and area: by default every record from the first to the last, otherwise from the start timestep in steps of the resampling interval to the end timestep or the end of the file. Each frame shows the outlet, transect or long section of its own record with the time of that record, the same as drawing that record directly. The results file is not changed.',
 ['inputs','histories'], 'every bounded file of open, closed, left and right records, every kind of view and every combination of start, end and resampling, from the function and the command line',
 'animations are not tested; stale or shifted frames look plausible',
 [A, V, O], [('animation frames', 'animate.main, out.readTimestep')])
prop('C34', 'The command line runs the model it is given, logs at the chosen level and asks before overwriting',
 'Running the package on a configuration file gives the results of calling the model directly, wherever that file is, asks before replacing earlier results unless told to overwrite, and reads the same answers. Messages of the chosen level and above, and no others, go to the console and to a log file in the working directory named after the configuration. Wrong arguments or a missing file stop it without touching anything. The supplied run script runs the configuration it names in the same way, replacing earlier results unasked, with information on the console and debugging in the log.',
 ['configurations','inputs'], 'every combination of options in every spelling and order, existing outputs, answers and place of the configuration',
 'no test runs the command',
 ['hapuamod/__main__.py', 'RunHapuaMod.py', K], [('command line', 'hapuamod.__main__')])
prop('C35', 'Wave model output is prepared without loss and obeys linear wave theory',
 'Preparing wave forcing from wave model output keeps the time, period and wave length of every record, gives the magnitude of the energy transport as wave power and the direction it comes from, and an offshore wave height whose energy flux along the shore normal equals that of the record after linear shoaling and refraction; waves directed offshore have no height.',
 ['inputs'], 'every bounded combination of depth, wave length, angle, height, transport direction, shore orientation and output interval',
 'the script has no tests; its errors grow with relative depth and angle and stay plausible',
 ['preprocessing/WaveDataFromSwanOutput.py'], [('wave preparation', 'preprocessing/WaveDataFromSwanOutput.py')])
prop('C36', 'Results do not depend on the height datum, the cross-shore origin or the calendar',
 'Moving the height datum (every elevation, water level, sea level and elevation parameter by the same amount, and the closure depth below it), the cross-shore origin of the coordinates, or the dates of the run and its forcing moves the results by the same amount and changes nothing else: channel assembly, hydraulics, transport, overtopping, morphology, breaching, closure, timesteps and records.',
 ['configurations','histories'], 'every bounded transect row, outlet and transport, every bounded history of forcings and every run of the bounded set, each in several datums and at several dates',
 'a term measured from zero instead of from a bed, a crest or the sea is invisible at the one datum a test uses',
 [K, M, R, C, L], [('whole model', 'core.main and the component functions')])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(p)+'\n' for p in P))
