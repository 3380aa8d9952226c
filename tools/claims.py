CLAIMS = {
 'C01': (VG, 'other', NOTE),
 'C02': (VG, 'other', NOTE),
 'C03': ('interprocedural flow of values by origin (clock, environment, entropy, thread, address, hash order, globals) over data and control dependences of the compiled crate; classification of parallel operations with value graphs of what their closures write', 'other', 'Flow and context insensitive, so an origin that never reaches a result is shown not to; a reported flow names its path. Calls that leave the crate pass every argument on to the result and to what mutable arguments point at. Undecided parallel operations are reported undetermined, not as violations.'),
 'C04': (VG, 'other', NOTE),
 'C05': (VG, 'other', NOTE),
 'C06': (VG, 'other', NOTE),
 'C07': (VG, 'other', NOTE),
 'C08': (VG, 'other', NOTE),
 'C09': (VG, 'other', NOTE),
 'C10': (VG, 'other', NOTE),
 'C12': (VG, 'other', NOTE),
 'C13': (VG, 'other', NOTE),
 'C14': (VG, 'other', NOTE),
 'C15': (VG, 'other', NOTE),
 'C16': (VG, 'other', NOTE),
 'C17': (VG, 'other', NOTE),
 'C18': (VG, 'other', NOTE),
 'C19': ('static decision-table extraction over the lower-cased name', 'other', NOTE),
 'C23': (VG, 'other', NOTE),
 'C24': (VG, 'other', NOTE),
 'C25': (VG, 'other', NOTE),
 'C20': (VG, 'other', NOTE),
 'C21': ('path enumeration of the Python binding from its syntax tree, joined with the exported signatures and value graphs of the compiled crate', 'other', 'Every path of every method is followed with symbolic arguments and both outcomes of every library call; constructs outside the interpreted subset end as undetermined.'),
 'C22': (VG, 'other', NOTE),
}
NA = {
 'C11': 'needs ranges of indexes through division and remainder against lengths of other arguments and against the contents of index lists, which no analysis here bounds soundly; refusal conditions and shift amounts are decided as part of C10 and C12',
 'C26': 'quantifies over measured training loss and accuracy on data sets; no structural necessary condition beyond C04-C08, C17 and C22, which are claimed separately',
 'C27': 'distributional property of a pseudo-random generator; not decidable from the shape of the code (that the draws are without replacement is C16)',
}
