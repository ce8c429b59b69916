"""Writes properties.jsonl (the single place the property texts live)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
                          'observe_at': observe, 'hook_needed': hook}})


prop('C01', 'Coordinate numbers survive encoding and decoding exactly',
     'Every number that a coordinate format (up to six integer and seven decimal digits) can represent, positive or negative, '
     'is written as a digit string that obeys the zero-suppression mode and reads back as exactly the same number, in leading, trailing and no suppression. '
     'Reading a digit string, directly or inside a Gerber or Excellon file, gives the decimal value the format assigns to it, an explicit decimal point or plus sign notwithstanding, '
     'and writing a number between two representable ones is off by at most half a unit of the last digit.',
     ['inputs', 'configurations'], 'All digit counts 1-6:0-7, all suppression modes, all signed representable values, off-grid floats, and coordinate data inside whole files.',
     'The tests compare a few dozen literal values in three or four formats; the guarantee is over every value in every format and mode.',
     ['gerber/utils.py', 'gerber/gerber_statements.py', 'gerber/excellon_statements.py'],
     [('value codec', 'parse_gerber_value / write_gerber_value')],
     ['gerber.utils.parse_gerber_value', 'gerber.utils.write_gerber_value', 'positions of parsed flashes and hits'])

prop('C02', 'Gerber drawing commands produce exactly the image objects they describe',
     'Reading an RS-274X file yields, in file order, one object per draw, arc, flash and closed region contour, with the position, end points, centre, direction, '
     'aperture, units and dark or clear polarity that the format assigns to that command, and no others. Modal state (current point, operation code, interpolation mode, '
     'quadrant mode, polarity, selected aperture, region mode) carries over between commands exactly as the format says, omitted coordinates keep their last value, and '
     'an operation attached to one command never changes an earlier object.',
     ['inputs', 'histories'], 'Every sequence of well-formed absolute-notation drawing commands, mode changes, aperture selections and regions, in every coordinate format and unit.',
     'The tests load a handful of sample files and count statements or spot-check a value; state carried across arbitrary command sequences is never compared with an independent interpreter.',
     ['gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/primitives.py'],
     [('state machine', 'GerberParser.evaluate'), ('statement recognition', 'GerberParser._parse')],
     ['gerber.loads(...).primitives'],
     [('current point / modal operation', 'graphics state between commands', 'GerberParser'), ('region contour under construction', 'segments since the last contour start', 'GerberParser.current_region')])

prop('C03', 'Flashes reproduce exactly the aperture that was selected when they were made',
     'A flash has the shape, outer dimensions, rotation, vertex count and round or rectangular hole of the standard aperture (circle, rectangle, obround, polygon) most recently defined for the selected code, '
     'centred on the flash point, and a draw or arc carries that aperture. Redefining or re-selecting a code later, or moving, resizing or converting one flash, leaves all other objects unchanged.',
     ['inputs', 'histories'], 'All standard aperture definitions with every optional modifier count, any D-code, any order of definitions, redefinitions, selections and flashes.',
     'Existing tests check a few aperture definitions singly; they never interleave redefinition, reselection and mutation of earlier flashes.',
     ['gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/primitives.py'],
     [('aperture table', 'GerberParser._define_aperture'), ('flash copies', 'GerberParser._evaluate_coord')], ['gerber.loads(...).primitives'])

prop('C04', 'Aperture macro arithmetic evaluates by the format rules',
     'The modifiers of every primitive in an aperture macro equal the value of their expression: addition, subtraction, x or X multiplication and division with the usual precedence and left association, '
     'parentheses, unary signs, decimal constants, parameters numbered from one, undefined variables equal to zero and variables assigned by earlier equations of the same macro. '
     'Comments have no effect, and instances of one macro with different parameters do not influence each other.',
     ['inputs', 'programs'], 'Every macro body built from nested expressions, variable assignments and comments, with every parameter list.',
     'The tests check compiled instruction lists for a few fixed macros; the arithmetic result of arbitrary expressions is not compared with anything.',
     ['gerber/am_read.py', 'gerber/am_eval.py', 'gerber/gerber_statements.py'],
     [('expression compiler', 'read_macro'), ('stack machine', 'eval_macro')], ['gerber.loads(...).primitives for macro flashes', 'gerber.am_read.read_macro + gerber.am_eval.eval_macro'])

prop('C05', 'Aperture macro shapes cover exactly the area the macro describes',
     'A flash of an aperture macro covers, in macro order, the area of its circle, vector line, centre line, outline, polygon, moire, thermal and lower left line elements, each rotated as specified about the macro origin, '
     'with exposure-off elements marked as erasing, and translated to the flash point. The same holds at every flash of the aperture and in both units, and macro elements made from graphic objects cover the area of those objects.',
     ['inputs'], 'All macros over circle, vector line, centre line, outline, polygon, moire, thermal and lower left line elements, all rotations, exposures, positions and flash points.',
     'The tests check constructors and unit conversion of single macro elements and never the area a flashed macro covers.',
     ['gerber/am_statements.py', 'gerber/primitives.py', 'gerber/rs274x.py'],
     [('macro element geometry', 'AM*Primitive.to_primitive'), ('group placement', 'AMGroup.position')], ['gerber.loads(...).primitives for macro flashes'])

prop('C06', 'Arcs have the centre, sweep and extent their command describes',
     'For every arc command in multi-quadrant mode the centre is the start point plus the offsets; in single-quadrant mode it is the one candidate centre equidistant from both ends whose arc in the commanded direction spans at most ninety degrees. '
     'The reported radius, start and end angles and sweep angle (a full turn when both ends coincide in multi-quadrant mode) agree with that arc, and its bounding box is the tight box of the swept centre line widened by the round aperture.',
     ['inputs'], 'All start and end angles in all four quadrants and across the axes, both directions, both quadrant modes, all radii and round apertures, including full circles.',
     'The tests use about a dozen fixed arcs, none sweeping counterclockwise through the zero angle outside one box test.',
     ['gerber/rs274x.py', 'gerber/primitives.py'],
     [('centre search', 'GerberParser._find_center'), ('sweep and box', 'Arc.sweep_angle / Arc.bounding_box')], ['Arc primitives from gerber.loads', 'gerber.primitives.Arc'])

prop('C07', 'Writing a Gerber file and reading it back preserves the image',
     'For every parsed Gerber file, the file written from it reads back to the same sequence of image objects with the same geometry, apertures, polarity and units, to within the coordinate resolution of the format written. '
     'This holds also when a different but sufficient coordinate format or zero-suppression mode is requested for writing, and writing again what was read back produces an identical file.',
     ['inputs', 'configurations'], 'All files of supported commands, all target formats and suppression modes able to hold the coordinates.',
     'No existing test writes a Gerber file and compares the image it denotes; statement dump tests cover single literals.',
     ['gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/am_statements.py', 'gerber/cam.py'],
     [('statement serialisation', '*.to_gerber'), ('file writer', 'GerberFile.write')], ['GerberFile.write output', 'gerber.read of it'])

prop('C08', 'Unit conversion of a Gerber layer rescales everything once and only once',
     'Converting a Gerber layer between inches and millimetres multiplies every length in its image objects, apertures, bounds and coordinates by exactly the conversion factor and leaves angles, counts, polarity and ordering alone; '
     'converting to the units already in use changes nothing and converting there and back restores the original to rounding. '
     'The file written after a conversion declares the new units and describes the same physical image.',
     ['inputs', 'histories'], 'All files of supported commands, all sequences of conversions interleaved with bounding-box queries and writes.',
     'The tests convert individual objects once; shared apertures, nested groups, regions, cached boxes and written output after conversion are not covered.',
     ['gerber/rs274x.py', 'gerber/primitives.py', 'gerber/gerber_statements.py', 'gerber/am_statements.py'],
     [('primitive conversion', 'Primitive.to_inch / to_metric'), ('statement conversion', '*.to_inch / to_metric')], ['GerberFile.to_inch / to_metric', 'primitives', 'bounds', 'written file'])

prop('C09', 'Offsetting a design translates it rigidly',
     'Offsetting a Gerber, Excellon design or any single graphic object by a vector moves every point of it by exactly that vector: shapes, sizes, arc radii and centres relative to their ends, apertures, polarity and hit order are unchanged, bounding boxes move along, '
     'and successive offsets add up. The file written afterwards describes the translated design.',
     ['inputs', 'histories'], 'All objects and files of supported commands, all sequences of offsets interleaved with queries.',
     'The tests offset single primitives at fixed values; whole files, arcs, macros, regions, slots and written output after an offset are not covered.',
     ['gerber/rs274x.py', 'gerber/excellon.py', 'gerber/primitives.py', 'gerber/gerber_statements.py', 'gerber/excellon_statements.py'],
     [('object offset', 'Primitive.offset and overrides'), ('file offset', 'GerberFile.offset / ExcellonFile.offset')], ['primitives, bounding boxes and written files before and after offset'])

prop('C10', 'Bounding boxes enclose the drawn area tightly and are never stale',
     'The bounding box of every graphic object, group, region, Gerber layer and drill file encloses every point the object covers and, for shapes without rotation, touches it on all four sides (a regular polygon may report the box of the circle around it); the bounds and size of a Gerber layer are those of the positions its commands name. '
     'It is always the box of the current geometry: after any sequence of moves, unit conversions and changes of size, position or rotation the value reported equals that of a freshly built object.',
     ['inputs', 'histories'], 'All object kinds and dimensions, all histories of attribute changes interleaved with box queries.',
     'The tests check one or two literal boxes per object kind and never re-query after arbitrary changes.',
     ['gerber/primitives.py', 'gerber/rs274x.py', 'gerber/excellon.py'],
     [('cached boxes', 'Primitive.bounding_box'), ('invalidation', 'Primitive._changed')], ['bounding_box of objects and files'],
     [('memoised box', 'box cached on first query', 'Primitive._bounding_box')])

prop('C11', 'Drill and rout programs produce exactly the hits and slots they describe',
     'Reading an Excellon file yields one hit per drilled position and one slot per slot or routed segment, in program order, at the position and with the tool diameter the program specifies: '
     'absolute and incremental coordinates, modal axes, repeat commands, slot commands, plunge and retract in rout mode, tool selection, leading or trailing zeros, decimal coordinates and inch or metric units are all honoured.',
     ['inputs', 'histories'], 'All sequences of header settings, tool definitions and selections, drill, repeat, slot and rout commands.',
     'The tests load three sample files and count hits; no test interprets command sequences independently.',
     ['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/excellon_tool.py'],
     [('parser state machine', 'ExcellonParser._parse_line'), ('hit recording', 'DrillHit / DrillSlot')], ['gerber.loads(...).hits and .primitives', 'tools'],
     [('machine state', 'position, modes, active tool, rout state', 'ExcellonParser')])

prop('C12', 'Writing a drill file and reading it back preserves every hit',
     'For every parsed Excellon file the file written from it reads back to the same tools and, per tool, the same hits and slots at the same positions in the same order, in the same units, to within the resolution of its coordinate format. '
     'Tool diameters, feed and speed data survive. The same holds for the design as changed by moves, unit conversions and tool changes before writing.',
     ['inputs', 'configurations'], 'All programs of drill hits, repeats and slots over any number of tools, units and zero-suppression modes.',
     'One test compares the output for a single sample file of plain hits verbatim.',
     ['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/cam.py'],
     [('file writer', 'ExcellonFile.write'), ('statement serialisation', '*.to_excellon')], ['ExcellonFile.write output', 'gerber.read of it'])

prop('C13', 'Drill accounting agrees with the hits in the file',
     'The hit counts and path lengths reported per tool and in total, and the printed report, agree with the hits and slots the file contains: counts sum to the number of hits, each path length is the distance travelled from the origin through the positions of that tool in order (to the start of a slot and along it), '
     'every tool is listed once and a tool that is not in the file has neither hits nor path. Changing the data of one tool affects exactly the hits and output of that tool. The hole count, hole sizes, coordinates and bounds of a parser are those of the program it read.',
     ['inputs', 'histories'], 'All drill files, including tools without hits, repeated selections of a tool and slots.',
     'The tests check the totals of one sample file and that the report is a string.',
     ['gerber/excellon.py'], [('accounting', 'ExcellonFile.hit_count / path_length / report / update_tool')], ['ExcellonFile.hit_count, path_length, report, update_tool'])

prop('C14', 'Unit conversion of a drill file rescales hits and tools once and only once',
     'Converting a drill file between inches and millimetres multiplies every hit and slot position, tool diameter, path length and bound by exactly the conversion factor, is idempotent, and converting there and back restores the original to rounding. '
     'The file written after a conversion declares the new units and describes the same physical holes.',
     ['inputs', 'histories'], 'All drill files and all sequences of conversions interleaved with queries and writes.',
     'The tests convert one sample file in each direction and compare hits that are not themselves converted.',
     ['gerber/excellon.py', 'gerber/excellon_statements.py'],
     [('conversion', 'ExcellonFile.to_inch / to_metric'), ('hit conversion', 'DrillHit / DrillSlot')], ['ExcellonFile hits, tools, primitives, bounding_box, written file'])

prop('C15', 'A netlist file yields exactly the records written in it',
     'Reading an IPC-D-356 netlist yields every parameter, comment, test record, conductor, board outline and adjacency record it contains in order, with each field taken from its columns: net name (aliases resolved to the full name), reference designator and pin, feature type, hole diameter and plating, access side, '
     'position, size and rotation, scaled by the units declared before it. Grouping by net, component and via partitions the records accordingly.',
     ['inputs'], 'All well-formed files over the supported record types, unit codes, optional fields and continuation lines.',
     'The tests check one sample file and a few literal lines.',
     ['gerber/ipc356.py'], [('record decoder', 'IPCNetlist / IPC356_*')], ['gerber.loads(...) of a netlist: statements, nets, components, vias, outlines'])

prop('C16', 'Layer classification and board assembly do not depend on file order or location',
     'A file name that follows a known CAD naming convention is assigned its layer class, in any letter case and in any directory, and unknown names are reported as such. '
     'Sorting layers always gives the physical stacking order for any input order without losing or inventing a layer, and a board assembled from a directory contains one layer per readable file, with top, bottom, copper, drill and outline views that select exactly the matching layers (a side holds the drills that go through it). A board is named as asked, else by the name its files share, else by its directory. A single layer loaded from a file or from its text is the layer the board has of it.',
     ['inputs', 'configurations'], 'All names over the known extensions, all permutations and subsets of layers, all directory contents.',
     'The tests classify a fixed list of names and sort one list.',
     ['gerber/layers.py', 'gerber/pcb.py', 'gerber/utils.py'],
     [('name hints', 'guess_layer_class'), ('ordering', 'sort_layers'), ('assembly', 'PCB.from_directory')], ['gerber.layers.guess_layer_class, sort_layers, PCB.from_directory and its views'])

prop('C17', 'Copying operations never touch their source',
     'The module-level conversion and offset operations return a new design equal to what the in-place operation would have produced, and the source design, including its image objects, statements, tools, hits and written form, is unchanged. '
     'Later changes to the copy never show in the source, nor changes to the source in the copy.',
     ['inputs', 'histories'], 'All Gerber and drill files and all sequences of copying and in-place operations.',
     'No existing test observes the source after a copying operation.',
     ['gerber/operations.py', 'gerber/rs274x.py', 'gerber/excellon.py'], [('deep copies', 'gerber.operations')], ['source and result designs around gerber.operations calls'])

prop('C18', 'Files are dispatched by content and bad input fails cleanly',
     'Reading from disk or from a string recognises Gerber, Excellon and netlist data by content, whatever the file name, gives the same design either way, and rejects anything else with the documented parse error. '
     'Include commands splice the named file in place, relative to the including file, and include cycles end in an error instead of endless recursion; reading always terminates with a result or an exception.',
     ['inputs'], 'All file contents: valid files of each type under any name, unrecognisable data, truncated or corrupted files, nested and cyclic includes.',
     'The tests read one sample of each type and one unrecognised file.',
     ['gerber/common.py', 'gerber/utils.py', 'gerber/rs274x.py', 'gerber/exceptions.py'],
     [('format detection', 'detect_file_format'), ('include limit', 'GerberParser._parse')], ['gerber.read, gerber.loads'])

prop('C19', 'Re-emitting a design as Gerber preserves its image',
     'Rendering Gerber layers through the Gerber output context and reading the result back gives the same image: the same area is dark and clear at every point, in the same paint order, in the same units, to within the output coordinate resolution. '
     'This holds for lines, arcs, regions, flashes of standard apertures and macros (also macro flashes that no longer carry their macro definition), and for several objects sharing or differing in apertures.',
     ['inputs'], 'All layers over supported objects, in any order and polarity.',
     'One test re-emits a two-rectangle file.',
     ['gerber/render/rs274x_backend.py', 'gerber/render/render.py', 'gerber/gerber_statements.py'],
     [('re-emission', 'Rs274xContext')], ['Rs274xContext.dump output read back'],
     [('aperture dictionaries', 'which apertures were already emitted', 'Rs274xContext')])

prop('C20', 'Raster rendering paints exactly the objects of the design',
     'In a raster image of Gerber and drill layers every pixel well inside the dark area of a layer is painted, every pixel well outside it is not, clear objects erase what was painted before them in the same layer, holes of apertures leave it as it was, '
     'and the image covers the bounds of the rendered layers. The vector picture (SVG) of a rendering, as text or as a file, shows what the raster picture shows. Rendering does not change the design, and rendering the same design again gives the same pixels.',
     ['inputs', 'histories'], 'All layers over supported objects, polarities, scales and sequences of renders; layers rendered together use the same units.',
     'The image comparison tests for most object kinds are disabled and the enabled ones use a few fixed images.',
     ['gerber/render/cairo_backend.py', 'gerber/render/render.py', 'gerber/cam.py'],
     [('rasteriser', 'GerberCairoContext')], ['pixels of GerberCairoContext.dump_str', 'GerberCairoContext.dump_svg_str, dump'])

prop('C21', 'The meaning of a file does not depend on its layout or on what was read before',
     'Reading the same data gives the same design every time, in any order with other files, at the same time as other threads read theirs and in any process history. '
     'Line endings, blank lines, surrounding white space, comments, several commands on one line, one extended command spread over several lines and leading zeros in Gerber command codes and drill tool numbers do not change the design.',
     ['inputs', 'histories'], 'All layout variants of all well-formed files, all interleavings of reads of several files.',
     'The tests read each sample once in its one layout.',
     ['gerber/rs274x.py', 'gerber/excellon.py', 'gerber/cam.py', 'gerber/common.py'],
     [('tokeniser', 'GerberParser._split_commands / _parse'), ('line reader', 'ExcellonParser.parse_raw')], ['designs read from layout variants'])

prop('C22', 'Stroke outlines and convex hulls are exact',
     'The outline vertices reported for a line drawn with a rectangular aperture are the corners of the area swept by that rectangle from start to end, for every direction and length, and the convex hull of a point set consists of points of the set, is convex and encloses all of them. '
     'Vertices of rectangles, diamonds, chamfered rectangles and polygons lie where the position, size, corner and rotation of the shape put them.',
     ['inputs'], 'All point sets, line directions and lengths (including degenerate ones), all shape parameters.',
     'The tests compare a few literal vertex lists.',
     ['gerber/utils.py', 'gerber/primitives.py'], [('hull', 'convex_hull'), ('vertices', 'Line.vertices and shape vertices')], ['gerber.utils.convex_hull', 'primitive.vertices'])

prop('C23', 'Statements survive being written and read back one by one',
     'Every Gerber and Excellon statement that can be read keeps its kind and all of its fields when it is written out and read again, under every coordinate format and zero-suppression setting able to hold its numbers. '
     'Statements the reader does not know are kept verbatim.',
     ['inputs', 'configurations'], 'All statement kinds with all combinations of optional fields and values, all format settings.',
     'The tests dump one or two literals per statement kind.',
     ['gerber/gerber_statements.py', 'gerber/excellon_statements.py', 'gerber/rs274x.py', 'gerber/excellon.py'],
     [('statement codecs', 'from_dict / from_excellon / to_gerber / to_excellon')], ['statements of parsed files before and after a text round trip'])

prop('C24', 'Undeclared drill formats are detected so that the drawing keeps its scale',
     'For a drill file that does not declare its digit counts or zero handling, the settings detected are ones under which the whole file reads without error, explicit declarations of units, digits and zero handling in the file always win over guesses, '
     'and detection never changes units, tools or the number of hits. Detection is deterministic and reading with the detected settings given explicitly produces the same design.',
     ['inputs'], 'All drill programs with any subset of format declarations.',
     'The tests detect the format of one sample file.',
     ['gerber/excellon.py', 'gerber/excellon_settings.py', 'gerber/excellon_tool.py'],
     [('format search', 'detect_excellon_format')], ['detect_excellon_format, ExcellonParser, gerber.loads'])

prop('C25', 'Rendering and reporting commands leave the design usable and unchanged',
     'Any sequence of read-only use of a design (asking for bounds, boxes, sizes, primitives, counts, reports, statement text; writing; rendering to Gerber, raster or drill output) leaves its objects, statements, units and written form unchanged, and repeating a query gives the same answer. The text and JSON dumps of a parser list every statement once, in order, with its values.',
     ['histories'], 'All sequences of read-only queries on all kinds of designs.',
     'Each test performs one query on a fresh design.',
     ['gerber/cam.py', 'gerber/rs274x.py', 'gerber/excellon.py', 'gerber/primitives.py', 'gerber/render/'],
     [('lazy properties and caches', 'properties of files and primitives')], ['design snapshots around queries'])

prop('C26', 'Re-emitting a drill design as Excellon preserves every hole, slot and tool',
     'Rendering a drill file through the Excellon output context gives a program that reads back to the same holes, drilled slots and routed slots in the same order, made with the same tools (number, diameter, feeds and speeds), '
     'in the units, digits and zero handling of the given settings and to within half their resolution, however often a position repeats and however drilling and routing alternate. The design is left unchanged.',
     ['inputs', 'histories'], 'All drill designs, converted and moved or not, and all output settings able to hold their coordinates.',
     'No test renders a drill file through this context.',
     ['gerber/render/excellon_backend.py', 'gerber/excellon.py', 'gerber/excellon_statements.py'],
     [('Excellon output', 'ExcellonContext')], ['programs written by ExcellonContext, read back with gerber.loads'])

prop('C27', 'Tool tables, drill reports and parameter files are read as listed, and fill in exactly what a drill program leaves open',
     'Reading an Allegro tool table (columns or Holesize comments, mils or mm), a PADS drill report or an Excellon parameter file gives exactly what it lists: every tool with its number, its diameter in the units asked for (inches by default, '
     'the unit of the file for reports), its plating and, for reports, feed and speed; notation, units and digits of parameter files, with defaults for what is left out; other lines are ignored. '
     'A drill program read together with a tool table uses its own definitions where it has them and those of the table otherwise, takes the plating it does not know from the table, and neither it nor its later conversion, '
     'move or tool change alters the table or another program read with it.',
     ['inputs', 'histories'], 'All tables, reports and parameter files in the supported layouts, and all drill programs with any split of tools between program, table and neither.',
     'The tests read a table or two and check single values; mixed ownership of tools and the sharing of a table by several programs are not tested.',
     ['gerber/excellon_tool.py', 'gerber/excellon_settings.py', 'gerber/excellon.py'],
     [('tool tables', 'ExcellonToolDefinitionParser, ExcellonReportParser'), ('parameter files', 'ExcellonSettingsParser'), ('lookup and merging', 'ExcellonParser._get_tool, _merge_properties')],
     ['gerber.excellon_tool.loads / loads_rep', 'gerber.excellon_settings.loads', 'gerber.excellon.loads(data, settings, tools=...)'],
     [('shared tools', 'objects of the table used by several programs', 'ExcellonParser.ext_tools')])

prop('C28', 'The command line makes the pictures of a board that its files describe',
     'Run on a directory, the command line writes one picture for the top, the bottom and the copper of the board, as far as it has layers for that view, and leaves out or skips files that are no layers; run on files it writes one picture of them in the given order. '
     'Each picture fits the requested size, covers the layers of its view and shows each of them at its true place, in the colour, opacity and order of the theme, holes on their pads: the bottom is seen from below as a whole, and inch and metric layers fit together. '
     'Netlist points are marked where they are. The input files are left as they were, and the same call gives the same pictures.',
     ['inputs', 'configurations'], 'All sets of layer files and netlists, in either unit or mixed, all themes, sizes and output names.',
     'The command line has no test, and the rendering tests compare a few fixed pictures.',
     ['gerber/__main__.py', 'gerber/pcb.py', 'gerber/layers.py', 'gerber/render/cairo_backend.py', 'gerber/render/theme.py'],
     [('command line', 'main'), ('views', 'PCB.top_layers, bottom_layers, copper_layers'), ('pictures', 'GerberCairoContext.render_layers, render_layer')],
     ['the files written by gerber.__main__.main'])

prop('C29', 'A layer always shows its design as it is now',
     'The objects, bounds and picture of a layer, alone or in a board, are those of its design in its present state: after any sequence of unit conversions, moves and tool changes of the design, queries and pictures, '
     'the layer has the same objects at the scaled and moved places, its bounds are those of the design, a new layer made from the design is equal and gives the same picture, and other layers of the board are not affected.',
     ['histories'], 'All Gerber and drill designs and all histories of changes, queries and pictures.',
     'The tests only make layers of unchanged files.',
     ['gerber/layers.py', 'gerber/pcb.py', 'gerber/excellon.py', 'gerber/rs274x.py'],
     [('layers', 'PCBLayer, DrillLayer'), ('boards', 'PCB')], ['layer.primitives', 'layer.bounds', 'GerberCairoContext.render_layer'],
     [('design of a layer', 'the file a layer shows', 'PCBLayer.cam_source')])

prop('C30', 'File settings are consistent in every access and take no impossible values',
     'A settings object holds what it was given, as attribute and as item, its zeros and its zero suppression are opposite after any sequence of assignments to either, values, keys and formats that do not exist are refused with ValueError or KeyError and change nothing, '
     'and two settings are equal exactly when all their values are. The settings of a file that was read are those it declares, follow its conversions, and changing the settings object of a file does not change the file.',
     ['inputs', 'histories'], 'All combinations of constructor arguments and all sequences of assignments; all Gerber and drill files with declared settings.',
     'The tests try single assignments on fresh objects.',
     ['gerber/cam.py', 'gerber/rs274x.py', 'gerber/excellon.py'],
     [('settings', 'FileSettings'), ('settings of files', 'CamFile.settings')], ['FileSettings', 'gerber.loads(...).settings'])

prop('C31', 'Single objects, statements, tools and hits rescale once and move as a whole',
     'Converting any single graphic object, coordinate, aperture, offset, repeat, slot or end statement, drill tool, hit or slot to inches or millimetres multiplies each of its lengths (holes and the aperture of strokes included) by exactly the factor when the unit changes and '
     'leaves it alone otherwise; numbers that are no lengths keep their value, the unit it reports is the one asked for, and what it writes reads back as the converted values. Converting a tool converts every hit and slot made with it, converting a hit converts its tool. '
     'Moving an object, hit, slot or coordinate statement moves all of its points by the vector and nothing else. The elements of an aperture macro scale all of their lengths and nothing else.',
     ['inputs', 'histories'], 'All object and statement kinds, all values, and all histories of conversions, moves and queries.',
     'The tests convert one literal of most kinds in one direction; they do not look at histories, holes, shared tools or what is written afterwards.',
     ['gerber/primitives.py', 'gerber/gerber_statements.py', 'gerber/excellon_statements.py', 'gerber/am_statements.py', 'gerber/excellon.py'],
     [('conversion and moves', 'to_inch, to_metric, offset of every class')], ['fields of the objects and statements after each step', 'to_gerber / to_excellon'],
     [('units', 'the unit an object is in', 'units, settings.units')])

prop('C32', 'Objects answer for what they are now and compare by value',
     'Every derived value of a graphic object (vertices, segments, radii, angles, corners, parts, box) is that of its present parameters, equal to what a newly built object reports, whatever was asked or changed before. '
     'Two graphic objects, Gerber statements or macro elements are equal exactly when their kind and all of their values agree, no matter what either was asked for before; comparing one with anything else is False and not an error. '
     'Equivalence of shapes and macros for an offset, and of drill tools, holds exactly when they coincide, in both directions; layers compare and sort by their numbers.',
     ['inputs', 'histories'], 'All pairs of objects, statements, elements and tools; all histories of changes and queries.',
     'The tests compare a few pairs of fresh objects and never ask one for anything in between.',
     ['gerber/primitives.py', 'gerber/gerber_statements.py', 'gerber/am_statements.py', 'gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/layers.py'],
     [('derived values', 'vertices, segments, bounding_box'), ('comparison', '__eq__, equivalent, PCBLayer.__lt__')], ['obj.<derived>', 'a == b', 'a.equivalent(b, offset)', 'tool == tool'],
     [('derived value', 'a value computed from the parameters', 'memoized properties')])

prop('C33', 'A rendering context is led through every object of a design once and in order, and takes only possible looks',
     'Rendering a design on any rendering context tells it the bounding box of the design, paints the background and begins one layer (already knowing whether it is inverted), then announces, draws and closes every object exactly once, in file order, with the drawing call of its kind and the colour of the context, then ends the layer and saves the picture if a name is given; of a netlist exactly the records of the wanted side are drawn. A failing context is not hidden and leaves the design as it was. '
     'Colours, opacities and units of a context are what they were last set to; an impossible one is refused (TypeError for a wrong number of channels, ValueError otherwise) and changes nothing. '
     'A theme gives each kind of layer the look it was made with, or else the default one, inner layers their looks in turn, beginning anew after a restart, and unknown kinds the fallback asked for; themes do not influence each other.',
     ['inputs', 'histories', 'fault points'], 'All designs, contexts and points of failure; all histories of settings and queries.',
     'The tests render a few files with the real renderers and compare pictures; no context ever records what it is told or fails.',
     ['gerber/cam.py', 'gerber/render/render.py', 'gerber/render/theme.py', 'gerber/render/cairo_backend.py', 'gerber/ipc356.py'],
     [('driving a context', 'CamFile.render, IPCNetlist.render, GerberContext.render'), ('looks', 'GerberContext.color, Theme.get')], ['file.render(ctx)', 'ctx.color = c', 'theme[key], theme.get(key), theme.internal'],
     [('context', 'receives the objects of a design to draw them', 'GerberContext'), ('look', 'colour, opacity, inversion and mirroring of a layer', 'RenderSettings')])

prop('C34', 'Objects and statements keep possible values and refuse impossible ones',
     'A graphic object, macro element or mode statement made from possible values keeps all of them as given and is written as given, whatever the letter case of a mode or exposure. One with an impossible value is never made, but refused with TypeError or ValueError: '
     'a position that is no pair of numbers, a code of another element, an exposure or mode that is neither of its words, a version or format other than 1 or 2, an open outline, a macro polygon of fewer than 3 or more than 12 corners, an unknown donut shape or a donut whose hole is as large as itself, '
     'and the same from the text of an element or statement, where a line of another kind is refused as well.',
     ['inputs'], 'All classes with documented limits, all arguments, values on and next to the limits.',
     'The tests try one impossible value for some of the arguments and never check that the values on the limit are taken.',
     ['gerber/primitives.py', 'gerber/am_statements.py', 'gerber/excellon_statements.py', 'gerber/gerber_statements.py', 'gerber/ipc356.py', 'gerber/utils.py'],
     [('limits', 'validate_coordinates, AMPrimitive.__init__ and constructors'), ('lines', 'from_line, from_gerber, from_excellon')], ['constructors', 'from_gerber, from_excellon, from_line'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
