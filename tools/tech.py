TECH = {
 'C01': ('runtime monitoring: round-trip and reference-decoder monitor over generated values and whole files',
         'Held on the executions explored; integer/Decimal arithmetic is the oracle. Trusts Decimal and float().'),
 'C02': ('runtime monitoring: trace monitor comparing every image object with an independent interpreter of the command stream',
         'Held on the executions explored.'),
 'C03': ('runtime monitoring: aperture-table monitor over interleaved definitions, selections, flashes and mutations',
         'Held on the executions explored.'),
 'C04': ('runtime monitoring: direct evaluation of generated expression trees as oracle for macro modifiers',
         'Held on the executions explored.'),
 'C05': ('runtime monitoring: point-membership oracle for the area of flashed macros',
         'Held on the executions explored; points closer than the margin to an edge are not judged.'),
 'C06': ('runtime monitoring: analytic arc oracle (centre, sweep, box) over parsed and constructed arcs',
         'Held on the executions explored.'),
 'C07': ('runtime monitoring: write/read round-trip monitor comparing image objects before and after',
         'Held on the executions explored.'),
 'C08': ('runtime monitoring: scaling monitor over random conversion, query and write histories',
         'Held on the executions explored.'),
 'C09': ('runtime monitoring: shift monitor over random offset, conversion, query and write histories',
         'Held on the executions explored.'),
 'C10': ('runtime monitoring: point-membership and fresh-object oracle for bounding boxes over histories of changes',
         'Held on the executions explored; tightness is judged for shapes without rotation.'),
 'C11': ('runtime monitoring: trace monitor comparing hits, slots and tools with an independent interpreter of the drill program',
         'Held on the executions explored.'),
 'C12': ('runtime monitoring: write/read round-trip monitor comparing tools, hits and slots before and after',
         'Held on the executions explored.'),
 'C13': ('runtime monitoring: accounting monitor recomputing counts, path lengths and report rows from the hits',
         'Held on the executions explored.'),
 'C14': ('runtime monitoring: scaling monitor over random conversion, query and write histories of drill files',
         'Held on the executions explored.'),
 'C15': ('runtime monitoring: record-level oracle: generated netlist records compared with every field decoded',
         'Held on the executions explored.'),
 'C16': ('runtime monitoring: naming-table and permutation oracle over generated names, layer sets and directories',
         'Held on the executions explored.'),
 'C17': ('runtime monitoring: snapshot monitor of source and copy around copying and in-place operations',
         'Held on the executions explored.'),
 'C18': ('runtime monitoring: dispatch, include and termination monitor over valid, renamed, truncated, corrupted and cyclic inputs',
         'Held on the executions explored.'),
 'C19': ('runtime monitoring: area and paint-order oracle comparing re-emitted designs with their source',
         'Held on the executions explored.'),
 'C20': ('runtime monitoring: pixel oracle comparing rendered images with an independent area model',
         'Held on the executions explored; pixels closer than the margin to an edge are not judged.'),
 'C21': ('runtime monitoring: differential monitor over layout variants and read histories',
         'Held on the executions explored.'),
 'C22': ('runtime monitoring: exact rational hull and corner oracle over point sets, strokes and shapes',
         'Held on the executions explored.'),
 'C23': ('runtime monitoring: statement round-trip monitor comparing all fields before and after',
         'Held on the executions explored.'),
 'C24': ('runtime monitoring: detection monitor: oracle of declared settings, determinism and re-reading with explicit settings',
         'Held on the executions explored.'),
 'C26': ('runtime monitoring: end-to-end round trip of drill programs through the Excellon output context, compared hole by hole',
         'Held on the executions explored.'),
 'C25': ('runtime monitoring: snapshot monitor around random sequences of read-only queries',
         'Held on the executions explored.'),
 'C27': ('runtime monitoring: oracle of listed values over generated tables and reports, and sharing monitor over programs read with one table',
         'Held on the executions explored.'),
 'C28': ('runtime monitoring: pixel and file-set oracle over runs of the command line on generated boards',
         'Held on the executions explored; pixels closer than the margin to an edge are not judged.'),
 'C29': ('runtime monitoring: scaling and fresh-layer monitor over random histories of changes, queries and pictures',
         'Held on the executions explored.'),
 'C30': ('runtime monitoring: model-based monitor over random constructions and assignment histories of settings',
         'Held on the executions explored.'),
 'C31': ('runtime monitoring: model-based scaling and moving monitor over histories of single objects, statements, tools and hits',
         'Held on the executions explored.'),
 'C32': ('runtime monitoring: twin-object monitor of derived values, equality and equivalence over random histories of changes and queries',
         'Held on the executions explored; drill statements carry an identity of their own and are not compared.'),
 'C33': ('runtime monitoring: call-trace monitor with a recording and failing context, and model-based monitors of looks and themes',
         'Held on the executions explored.'),
 'C34': ('runtime monitoring: refusal monitor over arguments spoiled one at a time, keeping monitor over possible ones',
         'Held on the executions explored.'),
}
NA = {}
