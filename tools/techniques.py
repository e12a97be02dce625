REASONS = {}
X = 'model checking (stateless, on the real code): '
TECH.update({
 'C01': X + 'all bounded channels x all bounded forcing sequences, volume ledger after every step',
 'C02': X + 'all bounded channels x forcing sequences, boundary and momentum residual after every step',
 'C03': X + 'all ways to cut every bounded forcing sequence into calls, final states compared',
 'C04': X + 'exhaustive enumeration of bounded channel profiles against the energy balance',
 'C05': X + 'exhaustive enumeration of bounded lagoon/outlet layouts against a reference assembly',
 'C06': X + 'exhaustive store/assemble histories over bounded layouts',
 'C07': X + 'exhaustive enumeration of width patterns over bounded layouts against a reference closure rule',
 'C08': X + 'exhaustive enumeration of bounded hydraulic states against a reference bedload law',
 'C09': X + 'exhaustive enumeration of bounded shorelines and waves against a reference transport law',
 'C10': X + 'exhaustive enumeration of bounded barrier states against reference overtopping rules',
 'C11': X + 'exhaustive enumeration of bounded states and single updates, sediment ledger on each transition',
 'C12': X + 'exhaustive enumeration of bounded states, fixed points of the transition function',
 'C13': X + 'exhaustive bounded histories explored in lockstep with their mirror image',
 'C14': X + 'explicit breadth-first exploration of the reachable state graph, invariants on every state',
 'C15': X + 'exhaustive enumeration of bounded states, change rates and timesteps',
 'C16': X + 'exhaustive enumeration of bounded states against a reference breach decision',
 'C17': X + 'exhaustive enumeration of bounded outlet positions and drift histories',
 'C18': X + 'all bounded write histories of results files, read back',
 'C19': X + 'all combinations of existing files, flags and prompt answers',
 'C20': X + 'restart from every recorded time of every bounded run',
 'C21': X + 'all bounded time settings, complete runs of the real driver',
 'C22': X + 'exhaustive enumeration of bounded series and requested times against a reference interpolation',
 'C23': X + 'exhaustive enumeration of bounded geometries and orientations',
 'C24': X + 'exhaustive enumeration of bounded coordinates and lines',
 'C25': X + 'every key of the configuration perturbed, removed and mistyped in turn',
 'C26': X + 'all bounded sequences of controlled random draws',
 'C27': X + 'all bounded orders of runs and component calls, results compared bit for bit',
 'C28': X + 'failure injected at every hydraulic solve of bounded runs (all single faults and pairs)',
 'C29': X + 'all bounded histories of displayed states, final drawing compared with a fresh one',
 'C31': X + 'exhaustive enumeration of bounded states and transports, every transition replayed on a reference model',
 'C32': X + 'exhaustive enumeration of bounded transect rows, every transition replayed on a reference model',
 'C30': X + 'every step of bounded runs of the real driver compared with a reference composition',
 'C33': X + 'every frame of every bounded animation compared with a drawing of its record',
 'C34': X + 'every combination of options, files and answers compared with the model called directly',
 'C36': X + 'exhaustive enumeration of bounded states, histories and runs, each in lockstep with its image in another datum or calendar',
 'C35': X + 'exhaustive enumeration of bounded wave records against linear wave theory',
})
