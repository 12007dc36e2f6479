RULE = 'small-scope exhaustive arrays plus seeded structured arrays of each type family, built in every applicable encoding (and sliced, chunked, wrapped); a case is non-trivial when it has at least one element'
TRUSTED = []
ASSUMPTIONS = []
PROPS = {p: {'level': 'exploration'} for p in 'P01 P02 P03 P04 P05 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P06 P19 P20 P21 P22 P23 P24'.split()}
PROPS['P01'].update(level='proof', verus=['for', 'bitpack', 'bitpack2', 'delta'])
PROPS['P02'].update(level='proof', verus=['alp'])
PROPS['P05'].update(level='proof', verus=['datetime', 'arrow:arrow_metadata'])
PROPS['P17'].update(level='proof', verus=['layout', 'validity:null_as_false'])
PROPS['P13'].update(level='proof', verus=['validity'])
PROPS['P14'].update(level='proof', verus=['stats'])
PROPS['P06'].update(level='proof', verus=['sampling','compressor','compressors','rechunk'])
PROPS['P19'].update(level='proof', verus=['pruning', 'expr:operators'])
PROPS['P18'].update(level='proof', verus=['take_rows', 'search'])
PROPS['P22'].update(level='proof', verus=['expr'])
PROPS['P07'].update(level='proof', verus=['chunked', 'strings:strings_make', 'views'])
PROPS['P08'].update(level='proof', verus=['chunked_take','chunked_take2', 'strings:strings_take', 'views', 'views_take'])
PROPS['P09'].update(level='proof', verus=['chunked_filter', 'strings:strings_filter', 'views'])
PROPS['P16'].update(level='proof', verus=['messages'])
PROPS['P23'].update(level='proof', verus=['layout'])
PROPS['P11'].update(level='proof', verus=['search'])
PROPS['P03'].update(level='proof', verus=['runend', 'dict:dict_values'])
PROPS['P15'].update(level='proof', verus=['chunked', 'chunked_take', 'chunked_take2', 'chunked_filter', 'rechunk'])
PROPS['P04'].update(level='proof', verus=['strings', 'dict'])
PROPS['P12'].update(level='proof', verus=['expr:operators', 'compare'])
PROPS['P21'].update(level='proof', verus=['dtype'])
PROPS['P10'].update(level='proof', verus=['reads', 'datetime'])
PROPS['P20'].update(level='proof', verus=['scalar'])
PROPS['P24'].update(level='proof', verus=['arrow'])
NOTE = 'Bounded where not stated otherwise; see DESIGN.md.'
NOT_APPLICABLE = {
 'P25': 'the property quantifies over query plans executed by DataFusion, an external engine whose planner and executor no contract within reach covers; the row-level guarantees underneath are P17, P19 and P22',
 'P26': 'shared state is an RwLock inside an Arc and immutable reference-counted buffers: data-race freedom is what the Rust type system already establishes for the safe code, and neither Verus nor Kani can reason about std::sync::RwLock under real schedules here',
 'P27': 'the guarantee would have to be discharged inside flatbuffers verification and flexbuffers reading, which are external code with no contracts and are unsafe by design of unchecked accessors; no contract in this repository states what a well-formed buffer is',
}
