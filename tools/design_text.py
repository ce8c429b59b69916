INTRO = '''# Deciding pcb-tools' properties by runtime monitoring

## What applies and what does not

pcb-tools is a single-threaded pure-Python library (readers, writers and renderers for
Gerber, Excellon and IPC-D-356 data). Of the family studied here

- compiler sanitizers, race detectors and undefined-behaviour interpreters have nothing to
  watch: there is no native code of its own, no shared memory, no thread and no lock;
- crash points and schedules do not exist: the library keeps no state on disk. What it does
  keep is state *between calls* (memoised boxes, lazily converted hits, shared apertures and
  tools, class-level defaults, parser state), so **histories** are the dimension to explore
  beside inputs and configurations;
- monitors that judge executions do apply, to every property. All of the 31 properties are
  therefore decided by runtime monitoring and none is listed as not applicable.

Every check has the shape

    seeded generator -> abstract program (JSON) -> concrete file text
    real code (reader, operation, writer, renderer) -> events: objects, boxes, hits,
                                           records, statements, pixels, files, answers
    independent reference model of the abstract program -> expected events
    monitor: compares both; a difference, an exception or a missed deadline is a violation

The oracle is never the code under test. It is an interpreter of the abstract program
(`mon/gbr.py`, `mon/exc.py`), exact point membership (`mon/area.py`), exact trigonometry or
rational arithmetic, a model updated alongside the object (`mon/prims.py`), a freshly built
or freshly read twin (for "never stale" and "does not change"), or the generator's own
record of what it wrote. Where the code under test is compared with itself (twins, round
trips, layout variants), another check ties the same observations to an independent oracle.

No hooks are needed in /repo: everything observed is public API (objects, attributes, written
files, pixels), which keeps the checks quiet under refactoring. MANIFEST.json lists no hooks.

### The engine (`mon/core.py`)

- `./check.sh Cnn [--quick|--thorough|--replay FILE]`; six worker processes, cases drawn from
  `random.Random("seed|property|index")`, so that a case does not depend on the number of
  workers. Nothing is compiled: the checks import `/repo/gerber` as it is.
- Each case runs under a 20 s alarm; a hang is a violation (`no-termination`), so is any
  exception that the oracle does not expect.
- Violations are written to `replays/Cnn/` with the case, and replayed by `--replay`.
- Monitors count what they saw. `REQUIRED` in each check is the least number of events of
  every kind (objects of each type, conversions, histories, declared forms, ...) below which
  the run is *inconclusive* (exit 3) instead of held; the counts go to `evidence/Cnn.json`.
- `VERIF_SEED` changes the whole workload; `VERIF_TIER` or the option choose its size.
- Work happens in scratch directories that are removed afterwards. Nothing in /repo is
  written.

## The properties
'''

TEXT = {
 'C01': dict(spec='Values are scaled integers, so that "representable" is exact.',
   oracle='the digit string itself is decoded with integers and `Decimal`; written strings are also checked for obeying the suppression mode, and whole Gerber and drill files for the positions they give.',
   bounds='1-6 integer and 0-7 decimal digits, both signs, explicit points and plus signs, off-grid floats; no values beyond the format.', cost='5 s',
   reach='Each case covers a format and some forty values.'),
 'C02': dict(spec='Objects are normalised to tuples (kind, polarity, points, centre, direction, aperture).',
   oracle='`gbr.Ref`, an interpreter of about 100 lines with integer coordinates, predicts the list of objects; comparison is in order, to 1e-8.',
   bounds='absolute notation; no step-and-repeat, no image transformations (IP, SF, OF, MI, AS, IR are read but not applied by the library).', cost='8 s'),
 'C03': dict(spec='The aperture in force is that of the last definition before the last selection.',
   oracle='a table of definitions replayed beside the file; untouched objects are compared with a snapshot after others were moved, resized and converted.',
   bounds='circle, rectangle, obround, polygon and macro apertures, all modifier counts.', cost='9 s'),
 'C04': dict(spec='Modifier values are those of the expression tree the text was printed from.',
   oracle='direct evaluation of the tree (floats, the same order of operations); observed through the shapes of flashes and through `read_macro`/`eval_macro`.',
   bounds='no division by zero.', cost='8 s'),
 'C05': dict(spec='Area means: is a point dark after painting all elements in order.',
   oracle='exact point membership (`area.py`) of points on both sides of every edge, near corners and centres, computed from the macro text; outline segments must join.',
   bounds='see the assumptions in the evidence file; elements with unknown codes are generated and draw nothing.', cost='10 s'),
 'C06': dict(spec='Centre, radius, angles, sweep and box of parsed and constructed arcs.',
   oracle='exact trigonometry of the commanded arc; boxes are compared with extrema at the axes the sweep passes.',
   bounds='round apertures; ambiguous single-quadrant centres are not generated.', cost='6 s'),
 'C07': dict(spec='Objects before writing and after reading back, in any sufficient format, and a second write.',
   oracle='the object list itself (tied to an independent interpreter by C02), and textual equality of first and second output.',
   bounds='tolerance 2e-9: coordinates must survive exactly.', cost='11 s'),
 'C08': dict(spec='After every step of a history objects, boxes, statements and the file written are those of the original scaled by the current factor.',
   oracle='scaling of the first observation (factor 25.4 or 1/25.4), relative tolerance.',
   bounds='1-6 steps; the written format must hold the converted coordinates.', cost='13 s'),
 'C09': dict(spec='Every point of every object, hit and written file moves by the sum of the offsets.',
   oracle='translation of the first observation; for single objects of 18 kinds a model.',
   bounds='1-5 offsets mixed with conversions, queries and writes.', cost='14 s'),
 'C10': dict(spec='Boxes enclose the model, are tight where unrotated, and equal those of a newly built object.',
   oracle='`prims.extents` from the model and a fresh object with the same parameters, after every change.',
   bounds='sizes are not negative; corners are cut by no more than the sides allow.', cost='9 s'),
 'C11': dict(spec='Hits and slots in program order with position, tool number and diameter, plus objects and tools.',
   oracle='`exc.Ref`, an interpreter of the abstract drill program.',
   bounds='header declarations in all forms (INCH/METRIC, FMAT, FILE_FORMAT, M71/M72 with settings, Holesize comments, external tools), opened by `%`, `M48` or `;HEADER:`; X before Y.', cost='13 s'),
 'C12': dict(spec='Tools, hits per tool, units and data of tools before and after, and a stable second output.',
   oracle='the observation before writing (tied to an interpreter by C11).',
   bounds='coordinates fit the format; tolerance half a unit of the last digit.', cost='13 s'),
 'C13': dict(spec='Counts, path lengths, report and tool table as recomputed from the hits.',
   oracle='the abstract program replayed beside every update, move and conversion; reports are parsed.',
   bounds='the path starts at the origin; reports need a diameter for every tool (report() raises without, as a format error).', cost='15 s'),
 'C14': dict(spec='As C08 for drill files: hits, tools (also unused ones and ones declared in comments), objects, boxes, path lengths, written file.',
   oracle='scaling of the reference hits.', bounds='1-6 steps.', cost='15 s'),
 'C15': dict(spec='Every field of every record, and the groupings.',
   oracle='the generator\'s list of records.', bounds='see the assumptions in the evidence file.', cost='8 s'),
 'C16': dict(spec='Classes of file names, stacking order, layers and views of boards.',
   oracle='a table of naming conventions written down separately, a stacking order, and the known contents of generated directories.',
   bounds='conventions of gerber/layers.py at the pinned commit.', cost='20 s'),
 'C17': dict(spec='Deep snapshots of source and copies around every step.',
   oracle='snapshot equality; the copy must equal a fresh design changed in place.', bounds='up to some eight steps.', cost='45 s'),
 'C18': dict(spec='Kind, design, error class and termination for valid, misnamed, damaged and including files.',
   oracle='the design of the undisturbed text, the documented exception class, expansion of the include tree, a time limit.',
   bounds='20 s per file.', cost='17 s'),
 'C19': dict(spec='Dark and clear area of the design and of the Gerber re-emitted.',
   oracle='point membership of both images at points pushed towards every outline by bisection.',
   bounds='points within the output resolution are left undecided.', cost='20 s'),
 'C20': dict(spec='Pixels of files, single layers and sets of layers.',
   oracle='point membership for 300 pixels, half of them aimed at objects and their holes, and the colour that themes, opacity, inversion and order imply; SVG output is composed by a small interpreter of its layers and masks and compared with the raster.',
   bounds='1.6 pixels around outlines are not judged; objects about as large as a pixel are judged by the sum of the paint around them.', cost='32 s'),
 'C21': dict(spec='Layout variants, repeated reads, histories and pristine processes.',
   oracle='equality of meaning (objects, statements, tools, hits) with the first reading, and with that of a process forked before anything was read.',
   bounds='layout variations that the formats allow.', cost='100 s'),
 'C22': dict(spec='Hulls of point sets; vertices of strokes and shapes.',
   oracle='exact hull in rational arithmetic; corners computed from the model.', bounds='apertures of strokes unrotated except polygons.', cost='7 s'),
 'C23': dict(spec='Fields read = fields the text was made from = fields after writing and reading.',
   oracle='the generator\'s fields.', bounds='image offsets and factors with up to five decimals.', cost='8 s'),
 'C24': dict(spec='Settings declared anywhere in the file win; guesses are deterministic and consistent with the design read.',
   oracle='the declarations, a twin with decimal points, and boards that are plausible under one reading only.',
   bounds='INCH without LZ/TZ has no defined meaning and is not generated.', cost='30 s'),
 'C25': dict(spec='Answers of read-only queries and the design before and after.',
   oracle='a twin asked for the first time, and snapshots.', bounds='about two dozen kinds of queries, also pictures and Gerber/drill output.', cost='30 s'),
 'C26': dict(spec='Holes and slots with their tools through the Excellon output context.',
   oracle='the hits of the source (tied to an interpreter by C11).', bounds='tools without holes are not written.', cost='20 s'),
 'C27': dict(spec='Tables, reports, parameter files, and sharing of tables between programs.',
   oracle='the generator\'s rows.', bounds='one row per tool.', cost='5 s'),
 'C28': dict(spec='Which pictures the command line makes, of what size, and their pixels.',
   oracle='point membership per view, file lists of the directory before and after.', bounds='layers without any object make no view.', cost='20 s'),
 'C29': dict(spec='Objects, bounds and pictures of a layer after changes of its design.',
   oracle='first state scaled and moved; a fresh layer.', bounds='objects of a layer are not replaced by hand.', cost='12 s'),
 'C32': dict(spec='Derived values after every change; ==, != and equivalent on pairs made alike or with one difference, one of them asked for its values first; tools; layer order.',
   oracle='the parameters beside the object, a newly built twin, and the one difference put in.', bounds='drill statements (random identity), hits and slots (identity equality) and the equivalence of lines (it ignores the aperture) are left out.', cost='15 s'),
 'C31': dict(spec='Every length, number, point and unit of one object, statement, tool, hit or macro element after each step, and what it writes at the end.',
   oracle='the fields the text or object was made from, scaled and moved beside it; an object newly built from them.', bounds='SF statements and moves of arc offsets and distances are left out (the tests fix their behaviour).', cost='7 s'),
 'C33': dict(spec='The whole sequence of calls a context receives, also when one of them fails; every look after every assignment; every look of a theme.',
   oracle='the objects of the design in file order; dictionaries beside context and theme.', bounds='objects no context can draw are announced only.', cost='30 s'),
 'C30': dict(spec='Construction, assignment, comparison and settings of files.',
   oracle='a model dictionary and the declarations of the file.', bounds='zero suppression none counts as leading.', cost='12 s'),
 'C34': dict(spec='Refusal of arguments with exactly one impossible value; keeping and writing of possible ones.',
   oracle='the arguments given.', bounds='only the limits the documentation states.', cost='10 s'),
}

AFTER = '''## Why this reaches further than the tests

The 330 tests look at literals: a value, a statement, one sample file. The checks look at
products: object kind x polarity x aperture x history x format x unit, some 160,000 cases in
a quick run of all checks and millions in a thorough one, each decided by an oracle that
needs no expected value written down. The 100 or so defects found and repaired (last section)
were all present in code that passed the tests.

## False alarms met and corrected

- C05: thermals are approximated by ten-segment arcs; the oracle now allows 0.6% of the radius.
- C06: single-quadrant centres that are ambiguous at the coordinate resolution are no longer generated.
- C10: the box of a regular polygon may be that of its circumscribed circle (documented
  behaviour); rotated rounded shapes may report the box of the rotated rectangle. Rounded
  corners beyond half the side made the *oracle* wrong and are not generated.
- C12/C14: a `TYPE=` comment next to `Holesize` comments with another plating contradicts
  itself and is not generated.
- C16: names that follow two conventions at once have no defined class and are not generated.
- C17: a REQUIRED count was higher than some seeds reach (inconclusive); lowered.
- C18: junk beginning `% FS` is legitimately taken for Gerber and left the junk list.
- C20/C28: pixels near outlines, and near the edge and label of net dots, are not judged; the
  margins were widened after single pixels of mixed colour had been judged.
- C24: readings of files that declare nothing are only judged where exactly one is plausible.
- C28: in file mode the background of the picture is the default theme's; either is accepted.

## Known findings

None is open: every defect found was small and safe enough to repair (`known_findings.json`
lists the repairs; `known` is empty).

## What is left out

- Incremental Gerber notation (FS..I, G91), step-and-repeat (SR), and image-level commands
  (IP, SF, OF, MI, AS, IR): read and written (C23) but not applied to objects by the library.
- What macro elements with unknown codes should look like: they are kept when written (C07, C23) and draw nothing.
- `dump_str` of a cairo context after an SVG dump raises (the surface is finished).
- `SUPPRESS-LEAD-ZEROES` and similar keys of parameter files are ignored by the library.
- Netlists have no unit conversion or offset (the methods do nothing).
- `GerberFile.bounds` without any coordinate on an axis, and views without extent.
- Drill reports of tools without a diameter; two drill files with colliding tool numbers in
  one ExcellonContext; a second M48 header that redefines tools.
- Time and memory: only termination within 20 s per case is judged.
- The environment: PyPy 3.9 with cairo, as the repository's tests use.
'''

SEEDED = '''Each was confirmed to apply, build and pass the 330 tests, with a demonstration that fails
only with the patch. "caught by" is the quick check that reports it (seed 1). Bugs d05, d07,
d14, d19, d20, d21 and d22 were first missed and led to: outlines that touch themselves (C05),
target formats with fewer integer digits (C07), tools declared in comments in all drill
workloads (C14), long macros that differ late (C19), large holes and aimed pixels (C20),
twin files of equal length and a pristine process per file (C21), and chamfers larger than
half a side (C22). Later e08 and e30_eq were missed (square holes now also in C08, settings that differ in
one field in C30), as were c17_shallow and d26 (C17, C26 strengthened).
'''
FIXES = 'One commit each, recorded in `known_findings.json`; the checks report them again if they return.\n'
CAUGHT = {}
