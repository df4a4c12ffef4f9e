from machine import history

ID = 'C27'
RULE = ('Each case draws a random history of an atom in which every few steps something impossible is asked for: a quantity '
        'of the wrong dimension or none at all for an energy, frequency, A coefficient, constant or field, a level, '
        'transition or sublevel that does not exist, an object of the wrong kind, a file that cannot be written. Each '
        'must be refused, after which every monitor of the reference model (structure, energies, lookups, aliases, '
        'strengths, rates) must find the atom as it was.')
ASSUMPTIONS = ['What a refused call reports is only checked to be an error of the expected kind, not its wording.',
               'Arguments without any units at all (numbers, strings) count as quantities of the wrong dimension.']

ALL = ['coherent', 'directory', 'pairs', 'subpairs', 'hf', 'zeeman', 'strength', 'difference', 'rates', 'struct']

SCENARIOS = {'history': (480, 6000, history(ALL, ('refuse',), steps=(20, 40), extra=('refuse',) * 24, when=['refuse'])),
             # the same, when nothing was looked at before
             'brief': (320, 4000, history(ALL, ('refuse',), steps=(2, 8), extra=('refuse',) * 16, when=['refuse']))}
REQUIRED = {'op-refuse': 4000, 'check:energy': 8000, 'check:talias': 300, 'check:pair': 3000}
REQUIRED.update({'refused-' + k: 40 for k in ('level', 'hf', 'B', 'freq', 'sub-freq', 'A', 'new-freq', 'new-A', 'names-quantity',
                                              'names', 'del-level', 'del-transition', 'look', 'rates', 'garbage',
                                              'garbage-t', 'save', 'enforced')})
