"""The properties, in the order of properties.jsonl."""
PR = 'gerber/primitives.py'
RS = 'gerber/rs274x.py'
GS = 'gerber/gerber_statements.py'
EX = 'gerber/excellon.py'
XS = 'gerber/excellon_statements.py'
UT = 'gerber/utils.py'

PROPS = [
 dict(id='C01', design='Both functions are executed symbolically on strings of symbolic digits / arbitrary reals, one instance per (integer, decimal, suppression, length) combination; postconditions: value denoted by the digits, round trip, width, sign. Complete over all formats 0..6 x 0..7; floats as reals, float formatting modelled exactly as decimal rounding. Minutes of solver time; tests cannot enumerate values x formats.',
      title='Coordinate text codec is exact and reversible for every format',
      statement='For every supported coordinate format (digits before/after the point, leading or trailing zero suppression) decoding a coordinate '
                'string yields exactly the value its digits denote, and encoding a value then decoding it yields the value rounded to the format\'s resolution. '
                'The encoded text never has more digits than the format allows, omits only the zeros the suppression mode allows, and keeps the sign.',
      over=['inputs', 'configurations'], quant='every digit string of every length up to the format width, every real value in range, all (integer, decimal) formats and both suppression modes',
      why='Unit tests sample a few dozen (format, value) pairs; the guarantee is over all formats times all digit strings and values, with carries and all-zero tails.',
      mechanism=[('decoder', UT + ':parse_gerber_value'), ('encoder', UT + ':write_gerber_value')],
      observe=['return values of the two functions']),
 dict(id='C02', design="One contract per class: arbitrary object -> to_metric / to_inch -> every attribute in the table of lengths is scaled, every other attribute identical; idempotence and inverse; files and collections via unbounded lists with a witness. Attribute tables are in specs/shapes.py and are checked against the objects' own attributes.",
      title='Unit conversion scales every length once, nothing else, and inverts',
      statement='Converting any shape, statement, tool, layer or file between inch and millimetre multiplies every length in it by exactly 25.4 (or divides by it), once, and changes no angle, count, name, polarity or flag. '
                'Converting to the unit an object already has changes nothing, and converting there and back restores every value.',
      over=['inputs', 'histories'], quant='every kind of object with arbitrary coordinates and sizes, files with any number of objects, all sequences of the two conversions up to inversion',
      why='Tests convert one or two hand-made instances per class; shared objects, absent coordinates, one-element collections and nested groups are not sampled.',
      mechanism=[('shapes', PR + ':Primitive.to_metric'), ('macro groups', PR + ':AMGroup.to_metric'), ('gerber statements', GS + ':CoordStmt.to_metric'),
                 ('macro primitives', 'gerber/am_statements.py:AMOutlinePrimitive.to_metric'), ('drill tools', XS + ':ExcellonTool.to_metric'),
                 ('files', RS + ':GerberFile.to_metric'), ('drill files', EX + ':ExcellonFile.to_metric')],
      observe=['public attributes of the objects', 'units attribute']),
 dict(id='C03', design='As C02 with offset: every point shifted, everything else identical, box shifted. GerberFile/ExcellonFile.offset over unbounded lists; ExcellonFile.offset uses the contract of its primitives property.',
      title='Moving an object shifts every absolute coordinate once and keeps its shape',
      statement='Offsetting any shape, statement, drill hit, slot or file by (dx, dy) adds exactly (dx, dy) to every absolute coordinate in it, once, and leaves sizes, angles, apertures, tools and absent coordinates unchanged. '
                'The bounding box moves by the same amount.',
      over=['inputs'], quant='every kind of object with arbitrary geometry, any displacement, files with any number of objects',
      why='Tests move single sample objects; composites with many parts, shared parts and absent coordinates are unbounded families.',
      mechanism=[('shapes', PR + ':Primitive.offset'), ('macro groups', PR + ':AMGroup.position'), ('gerber statements', GS + ':CoordStmt.offset'),
                 ('drill statements', XS + ':CoordinateStmt.offset'), ('files', RS + ':GerberFile.offset'), ('drill files', EX + ':ExcellonFile.offset')],
      observe=['public attributes', 'bounding_box']),
 dict(id='C04', design='Exact support functions are stated as postconditions of bounding_box/vertices for a symbolic rotation (cos, sin constrained by the unit circle); arcs by symbolic start/end angles and a symbolic angle within the sweep, with instances of the monotonicity of cos and sin as lemmas (assumed mathematics, stated in symapi.lemma_trig_order). History: query, change, query again equals change, query, per class and attribute. convex_hull is bounded (run-time evaluation, 6000 cases per run).',
      title='Bounding boxes and vertices of every shape are right, whatever its history',
      statement='The bounding box of a shape at any rotation contains every point of the shape, and is exact for circles, ellipses, rectangles, lines, arcs, slots, drills and unrotated shapes; vertices are the shape\'s true corners. '
                'After any change of an attribute, move or unit conversion, boxes and vertices are those of a fresh shape with the new attributes.',
      over=['inputs', 'histories'], quant='all positions, sizes, rotation angles, arc sweeps and directions; all attribute updates, moves and conversions after earlier queries',
      why='Tests check a handful of rotations and compass-point arcs and one update per class; correctness is over a continuum of angles and over query/update histories.',
      mechanism=[('boxes', PR + ':Arc.bounding_box'), ('rotated boxes', PR + ':Rectangle.axis_aligned_width'), ('vertices', PR + ':ChamferRectangle.vertices'),
                 ('cache invalidation', PR + ':Primitive._changed'), ('rotation', UT + ':rotate_point')],
      state=[('_bounding_box', 'memoized box, None when stale', PR + ':Primitive')],
      observe=['bounding_box', 'bounding_box_no_aperture', 'vertices', 'segments'],
      note='The hull of lines drawn with polygonal or rectangular apertures is a bounded run-time check, not proved.'),
 dict(id='C05', design='bounding_box/bounds folds are proved over unbounded lists by the induction rule (contains the witness) and for 1..3 parts exactly (each side attained).',
      title='Extents of files and composite objects are the union of their parts',
      statement='The bounding box of a region, outline, macro group, Gerber file, drill file or netlist contains the box of every part drawn in it and each of its sides is the side of some part. '
                'This holds for any number of parts and after moves and conversions.',
      over=['inputs', 'histories'], quant='any number of parts of any kind at any coordinates, including all-negative and all-positive ones',
      why='Tests check the extents of a few sample files; initial values, clear objects and sign-dependent folds fail only for particular coordinates.',
      mechanism=[('composites', PR + ':Region.bounding_box'), ('gerber files', RS + ':GerberFile.bounding_box'), ('gerber coordinates', RS + ':GerberFile.bounds'),
                 ('drill files', EX + ':ExcellonFile.bounding_box'), ('netlists', 'gerber/ipc356.py:IPCNetlist')],
      observe=['bounding_box', 'bounds', 'size']),
 dict(id='C06', design='GerberParser.evaluate and its helpers are executed from an arbitrary drawing state (symbolic position, every modal value) on every kind of statement with arbitrary coordinates; postcondition: exactly the objects drawn, every state variable kept or changed as the statement says. One step from an arbitrary state is the induction step over the whole file.',
      title='Drawing state machine: each statement draws exactly what Gerber says',
      statement='From any drawing state, a draw, move, flash, mode, polarity, unit or aperture statement adds exactly the object it describes (right shape, place, aperture, polarity, units) or none, and changes exactly the modal values it names. '
                'Omitted coordinates, operations and modes keep their last value, and defined apertures are never altered by being flashed or drawn with.',
      over=['inputs', 'histories'], quant='every state of the interpreter (position, mode, direction, polarity, aperture, units, region) and every statement with arbitrary coordinates',
      why='Tests run a few sample files; modal combinations (arc mode then flash, clear polarity then aperture change, omitted axes) form a state space no sample covers.',
      mechanism=[('dispatch', RS + ':GerberParser.evaluate'), ('coordinates', RS + ':GerberParser._evaluate_coord'), ('parameters', RS + ':GerberParser._evaluate_param'),
                 ('apertures', RS + ':GerberParser._define_aperture')],
      state=[('x, y, op, interpolation, direction, level_polarity, aperture', 'modal drawing state', RS + ':GerberParser')],
      observe=['GerberParser.primitives', 'modal attributes']),
 dict(id='C07', design='As C06 with region mode on and an arbitrary open contour of 0..4 segments (the code only appends to it, one step is proved for each length).',
      title='Regions: every contour becomes one region object, nothing leaks',
      statement='Between G36 and G37 draws only extend the open contour; every non-empty contour, closed by a move or G37, becomes exactly one region object with all its segments in order, in the current polarity and units. '
                'Empty contours draw nothing and drawing afterwards starts afresh.',
      over=['inputs', 'histories'], quant='all contours of line and arc segments with arbitrary coordinates, any number of contours, any modal state before',
      why='Tests draw two or three fixed regions; single-arc contours, empty contours, back-to-back regions and mode carry-over are combinations.',
      mechanism=[('mode', RS + ':GerberParser._evaluate_mode'), ('segments', RS + ':GerberParser._evaluate_coord'), ('object', PR + ':Region')],
      state=[('current_region', 'open contour, None outside', RS + ':GerberParser')],
      observe=['GerberParser.primitives', 'GerberParser.current_region']),
 dict(id='C08', design='Angles and radii are symbolic; atan2 is related to cos/sin through the polar identity instance lemma_polar (assumed mathematics). The existence and consistency of the single-quadrant center is proved; that it is the very center the arc was made from is bounded (run-time evaluation), except for the quarter turns.',
      title='Arc geometry: centers, radii and sweeps are those of the arc drawn',
      statement='The center of an arc is the start plus the signed offsets in multi-quadrant mode and, in single-quadrant mode, the one point at the unsigned offsets that makes the sweep at most 90 degrees in the drawn direction. '
                'Radius and sweep angle are those of the arc from start to end in that direction, with the sweep at least zero and less than a full turn.',
      over=['inputs'], quant='all centers, radii, start and end angles, directions and quadrant modes',
      why='Tests use compass-point arcs; wrap-around through zero degrees, both directions and offsets of either sign are a continuum.',
      mechanism=[('center', RS + ':GerberParser._find_center'), ('sweep', PR + ':Arc.sweep_angle'), ('line angle', PR + ':Line.angle')],
      observe=['Arc.sweep_angle', 'Arc.radius', 'Arc.center', 'Line.angle'],
      note='That the single-quadrant center is the exact original center is a bounded run-time check for general angles.'),
 dict(id='C09', design='Each statement class: arbitrary field values -> to_gerber -> the real GerberParser._split_commands/_parse with their regular expressions (modelled symbolically) -> fields equal, within the precision the writer keeps. GerberFile.write over an unbounded statement list with a logged file.',
      title='Gerber statements survive being written and read back',
      statement='Writing any Gerber statement and reading the text with the parser gives one statement of the same kind with the same fields: coordinates to the file\'s resolution, aperture dimensions, names, modes, flags and comments. '
                'A file is written as the text of its statements in order, under its own settings unless others are given.',
      over=['inputs', 'configurations'], quant='every statement kind with arbitrary field values and texts, all formats and zero suppressions, files of any number of statements',
      why='Tests compare a few literal strings in each direction; the two directions are never composed over arbitrary values, formats and names.',
      mechanism=[('writers', GS + ':CoordStmt.to_gerber'), ('apertures', GS + ':ADParamStmt.to_gerber'), ('reader', RS + ':GerberParser._parse'), ('file', RS + ':GerberFile.write')],
      observe=['to_gerber text', 'statements read back']),
 dict(id='C10', design='GerberParser._split_commands and _parse are executed on texts assembled from two arbitrary commands (20 kinds, symbolic digits and characters) with every separator and line break position; postcondition: the statements are those of the commands read alone. Conservation of characters for arbitrary texts over the structural alphabet up to 5 characters. The regular expressions are matched by a symbolic matcher, not replaced.',
      title='Reading a Gerber file loses, merges or invents no command, whatever its layout',
      statement='A sequence of commands is read as the same statements however it is laid out: with or without line breaks between commands, line breaks inside a command, any line ending, several parameters inside one pair of percent signs, a missing final line break. '
                'An unknown or deprecated command never swallows its neighbours. Each statement is evaluated once, in order.',
      over=['inputs'], quant='every ordered pair of 20 command kinds with arbitrary digits and text, every separator, every position of a line break',
      why='The example files are all laid out one command per line; the pairs of kinds times layouts that break a splitter are not in them.',
      mechanism=[('splitter', RS + ':GerberParser._split_commands'), ('statement matching', RS + ':GerberParser._parse'), ('file', RS + ':GerberParser.parse_raw')],
      observe=['statements of the parsed file']),
 dict(id='C11', design='Each render step of Rs274xContext from an arbitrary state of the file (position, modes, polarity, selected aperture, apertures defined so far): the statements it appends are fed to the real interpreter, which must yield exactly the object rendered and stay in the state the context assumes (an inductive invariant over any sequence of objects). Macros: arbitrary pairs of groups with colliding hashes, statement level (the text is C09, C12, C13); two functions that cut text out of arbitrary floats are bounded.',
      title='Exported objects are read back as the same objects',
      statement='Rendering any sequence of lines, arcs, flashes of standard apertures, regions and macro groups to RS-274X yields statements that the interpreter turns into the same objects: same kinds, points, sizes, holes, rotation, exposure and polarity, in order. '
                'Apertures and macros that differ get different codes and names; a line of no length is only left out where it adds nothing.',
      over=['inputs', 'histories'], quant='every object with arbitrary dimensions, from every state of the file written so far; contours of 1 to 3 segments (each further segment by its own step contract)',
      why='Tests export one file with two boxes; state left by earlier objects and reuse of similar apertures are where an exporter goes wrong.',
      mechanism=[('context', 'gerber/render/rs274x_backend.py:Rs274xContext'), ('macros', 'gerber/render/rs274x_backend.py:AMGroupContext.render'), ('comparison of macros', PR + ':AMGroup.equivalent')],
      observe=['statements appended', 'objects read back', 'text of the file']),
 dict(id='C12', design='Macro text is generated from every expression tree of up to 3 operators (4 in thorough) with every combination of operators, negations and parentheses, with symbolic digits and variables; the real tokenizer and stack evaluator run on it and the values printed for each primitive are compared with the arithmetic of the tree. Assignment, defaulting and isolation of evaluations are separate contracts.',
      title='Aperture macros evaluate to the arithmetic their text denotes',
      statement='Evaluating an aperture macro with given parameters yields, for each primitive, the values of its expressions under the usual precedence, association, parentheses and signs, with variables holding the last value assigned before use, parameters by position, and zero when unset. '
                'Comments have no effect. Evaluating changes neither the macro nor the parameters, and evaluations do not influence each other.',
      over=['inputs', 'histories'], quant='every expression tree up to 3 (thorough: 4) operators over + - x X / and unary minus with arbitrary numbers and variables, any parameters, repeated evaluation',
      why='Tests evaluate half a dozen literal macros; precedence, negation and variable scoping bugs appear only in particular operator combinations or on a second evaluation.',
      mechanism=[('tokenizer and compiler', 'gerber/am_read.py:read_macro'), ('evaluator', 'gerber/am_eval.py:eval_macro'), ('builder', GS + ':AMParamStmt.build')],
      observe=['text of the evaluated primitives', 'objects built']),
 dict(id='C13', design='Each primitive class with arbitrary fields: to_gerber then from_gerber is the identity and has no exponents (formatted floats kept whole, with the rounding of %g and %f stated); to_primitive against the definition of the shape with a symbolic rotation (cos, sin on the unit circle, addition formulas as stated lemma instances); thermals as four quarter-turned sections whose corners lie on the two circles at the gaps. The composition of writer and tokenizer on arbitrary floats is bounded (run-time evaluation).',
      title='Macro primitives have the geometry they define and survive being written',
      statement='Every macro primitive drawn (circle, vector line, center line, outline, polygon, thermal) yields the shape its parameters define, turned by its rotation, dark or clear by its exposure, in the units of the file; a macro aperture consists of these in order and moves with its position. '
                'Writing a primitive and reading it back, or converting a shape to a primitive and back, keeps every value.',
      over=['inputs'], quant='every primitive with arbitrary dimensions, positions and rotation, 3 to 12 vertices, both exposures and units',
      why='Tests check field assignment and a few literal texts, and never the geometry of the shapes drawn.',
      mechanism=[('vector line', 'gerber/am_statements.py:AMVectorLinePrimitive.to_primitive'), ('thermal', 'gerber/am_statements.py:AMThermalPrimitive.to_primitive'),
                 ('center line', 'gerber/am_statements.py:AMCenterLinePrimitive.to_primitive'), ('macro aperture', PR + ':AMGroup.__init__')],
      observe=['shapes drawn', 'text written']),
 dict(id='C14', design='Induction over the lines of a program: from an arbitrary state of the interpreter (mode, tool, tool position, units, notation, zero suppression, tool down or up, hits and statements so far) each line kind with arbitrary digits is fed to the real parser; the resulting state, hit, slot, counts and statement must be what the command means, and every other part of the state unchanged.',
      title='An Excellon program drills and routes what its commands mean, in order',
      statement='Whatever commands came before, each line of an Excellon program changes only the part of the state it controls and makes exactly the holes and slots it denotes: position (absolute or incremental, missing coordinates kept), tool (selected, defaulted, defined in header, comments or by the caller), repeats, G85 and routed slots. '
                'Every hit is counted once for its tool. Unknown lines and comments change nothing.',
      over=['inputs', 'histories'], quant='every line kind with arbitrary digits from every state of the interpreter; programs of any length by induction',
      why='The example programs are absolute drill files; incremental notation, routing after a retract, partial slot coordinates and tool changes mid-program occur in none.',
      mechanism=[('line interpreter', 'gerber/excellon.py:ExcellonParser._parse_line'), ('tools', 'gerber/excellon.py:ExcellonParser._get_tool'), ('slots', 'gerber/excellon_statements.py:SlotStmt.from_excellon'),
                 ('tool tables in comments', 'gerber/excellon_tool.py:ExcellonToolDefinitionParser')],
      observe=['hits of the parsed file', 'tools and their hit counts', 'statements']),
 dict(id='C15', design='Two levels: each statement class with arbitrary numbers (one symbolic at a time, in six formats) through to_excellon and from_excellon; and each line kind with arbitrary digits read by the real interpreter from an arbitrary state, the statements it recorded written by the real writer and read by a second interpreter in the same state, whose final state, hits and statements must be the same.',
      title='Excellon statements survive being written and read back',
      statement='Writing the statements read from an Excellon file and reading them again gives the same statements, holes, slots, tools, position, modes, units and format; every number comes back to within half the resolution of the format, and missing coordinates and parameters stay missing.',
      over=['inputs', 'histories'], quant='every statement kind with arbitrary numbers, signs, formats and zero suppression, from every state of the interpreter',
      why='Tests write back a few literal lines with one format and sign, and never read the routing, end-of-program or unit text they write.',
      mechanism=[('coordinates', 'gerber/excellon_statements.py:CoordinateStmt.to_excellon'), ('tools', 'gerber/excellon_statements.py:ExcellonTool.to_excellon'), ('slots', 'gerber/excellon_statements.py:SlotStmt'),
                 ('units', 'gerber/excellon_statements.py:UnitStmt.to_excellon')],
      observe=['text written', 'statements read back']),
 dict(id='C16', design='ExcellonFile.write on files parsed from thirteen header layouts times four bodies with arbitrary digits: what it writes, read by the real interpreter with the settings of the file, has the same hits tool by tool; that each hit is written once is proved for hit lists of any length (loop invariant over an unbounded list). Report, path lengths and update_tool with arbitrary tools and hits.',
      title='A drill file written, reported on or edited keeps every hole',
      statement='The file written reads back with the same tools and, tool by tool, the same holes and slots in order, whatever the header looks like, also when tools were defined by comments, by the caller or not at all or coordinates were incremental. '
                'The report states notation, units and for each tool the size, hits and path length; path lengths are those of the holes and slots in order; changing a tool changes that parameter for all its hits and nothing else.',
      over=['inputs', 'histories'], quant='every header layout and kind of hit with arbitrary digits; hit lists of any length for the writer; arbitrary tools and positions',
      why='Tests write and report one file without slots, undefined tools or incremental notation.',
      mechanism=[('writer', 'gerber/excellon.py:ExcellonFile.write'), ('report', 'gerber/excellon.py:ExcellonFile.report'), ('path length', 'gerber/excellon.py:ExcellonFile.path_length'), ('editing', 'gerber/excellon.py:ExcellonFile.update_tool')],
      observe=['file written', 'text of the report', 'tools and hits']),
 dict(id='C17', design='Induction over rendered objects: from an arbitrary state of ExcellonContext and an interpreter in the state the context assumes, rendering one hole or slot appends statements that make the interpreter produce exactly that hit and leave it in the assumed state again (the invariant); base case and header by reading whole rendered files with an interpreter that starts from other settings.',
      title='Drill files rendered to Excellon read back as the same holes',
      statement='Rendering any sequence of holes, G85 slots and routed slots with ExcellonContext gives statements that an interpreter with any initial settings turns into the same units, format, tools, holes and slots in the same order, including repeated positions, slots that continue each other and changes between drilling and routing.',
      over=['inputs', 'histories'], quant='every hit with arbitrary positions from every state of the context; sequences of any length by induction',
      why='No test renders to Excellon at all.',
      mechanism=[('holes', 'gerber/render/excellon_backend.py:ExcellonContext._render_drill'), ('slots', 'gerber/render/excellon_backend.py:ExcellonContext._render_slot'), ('header', 'gerber/render/excellon_backend.py:ExcellonContext._start_header')],
      observe=['statements of the context', 'hits read back']),
 dict(id='C18', design='Contracts on from_line of test records, outlines and conductors: a record is put together from fields in their columns, with one field at a time holding arbitrary digits or characters, for every field a line can end with, and every field of the result must be what its columns say.',
      title='Records of IPC-D-356 netlists decode to what their columns say',
      statement='Decoding a test record gives the net, component, pin, feature type, hole size, plating, access side, signed coordinates, feature size, rotation, solder mask and optional information that stand in its columns, in the units and angle units of the file, whichever field the line ends with and however long the component name is; outlines and conductors give all their points with signs, and a coordinate that is left out is that of the point before.',
      over=['inputs'], quant='every value of every field, one or two fields at a time, with every place where the line may end',
      why='Tests decode a handful of fixed lines that all end with the same columns.',
      mechanism=[('test records', 'gerber/ipc356.py:IPC356_TestRecord.from_line'), ('outlines', 'gerber/ipc356.py:IPC356_Outline.from_line'), ('conductors', 'gerber/ipc356.py:IPC356_Conductor.from_line')],
      observe=['fields of the records']),
 dict(id='C19', design='Contracts on the netlist parser and IPCNetlist: whole texts with symbolic names and positions are parsed by the real parser, and the nets, aliases, units, continued records and the primitives rendered per layer are compared with what the text denotes.',
      title='Netlists keep nets, aliases, units and layers over the whole file',
      statement='In a netlist, UNITS parameters hold from their line on for every record and are the units of the netlist; net name variables stand for their long names in test, conductor and adjacency records; records continued over several lines read as one; the nets of a netlist are those of its test records, each once, with every net that adjacency records put next to it from either side; components and vias are those of the records; and rendering draws each test point at its position on exactly the layers from which it can be reached.',
      over=['inputs', 'histories'], quant='arbitrary names, numbers and positions in files of a few records of every kind',
      why='The tests load one file and count its nets and components.',
      mechanism=[('parser', 'gerber/ipc356.py:IPCNetlistParser._parse_line'), ('lines', 'gerber/ipc356.py:IPCNetlistParser.parse_raw'), ('nets', 'gerber/ipc356.py:IPCNetlist.nets'), ('rendering', 'gerber/ipc356.py:IPCNetlist.render')],
      observe=['records', 'nets', 'components', 'rendered primitives']),
 dict(id='C20', design='Contracts on the guessing of layer kinds from names (arbitrary board names around every known extension and name), on the order of a stack and the views of a board, on layers made of files and on boards made of directories. The names are decided for all characters; boards and directories are explored completely up to three layers (stated scope: sorting lists of unbounded length by a key with ties is not within reach of the loop contracts).',
      title='A directory of files becomes a board with its layers in their places',
      statement='The kind of a layer follows from the extension or the name of its file in any case, whatever the rest of the name, its directory or board name says; internal layers are numbered by the file name and compare by number; layers are drawn in the order of the board from either side, each once, and the views of a board by side and kind are its own layers of these kinds in that order. '
                'Reading a directory takes every layer file in it, and no hidden, system or unknown file.',
      over=['inputs', 'histories'], quant='arbitrary board names with every extension and layer name; boards and directories of up to three layers in any order (internal layers: four)',
      why='Tests name a few literal files and sort one fixed list.',
      mechanism=[('guessing', 'gerber/layers.py:guess_layer_class'), ('order', 'gerber/layers.py:sort_layers'), ('layers of files', 'gerber/layers.py:PCBLayer.from_cam'), ('boards', 'gerber/pcb.py:PCB.from_directory'), ('views', 'gerber/pcb.py:PCB')],
      observe=['layer class', 'order of layers', 'layers of the board']),
 dict(id='C21', design='Contracts on detect_file_format, loads and read with arbitrary characters around the marker lines: the first line that only one format can have decides, and the dispatcher gives exactly what the reader of that format gives.',
      title='Files are recognised by their content and go to the reader of their format',
      statement='The first line that only one format can have decides the format of a file, whatever stands before or after it and whichever line ends it uses; text without such a line is refused, and reading a file or its text with the general functions gives exactly what the reader of its format gives.',
      over=['inputs'], quant='arbitrary characters in the lines before the marker, every kind of marker and both line ends',
      why='Tests detect three files that begin with their markers.',
      mechanism=[('detection', 'gerber/utils.py:detect_file_format'), ('dispatch', 'gerber/common.py:loads'), ('files', 'gerber/common.py:read')],
      observe=['format', 'class and content of the file read']),
 dict(id='C22', design='Contracts on detect_excellon_format and excellon.loads: drill files with declared or missing units, zeros and format and arbitrary digits; a declaration always wins over the heuristic, whose outcome is otherwise only required to be one of the usual choices.',
      title='What a drill file declares about its numbers holds over any guess',
      statement='Units, format and zero suppression that a drill file declares, or that the caller gives, are those its numbers are read with, whatever its holes look like; only what is not declared is guessed, as one of the usual formats, and a file that declares nothing, has no holes or no tool sizes still reads.',
      over=['inputs'], quant='arbitrary digits with every unit, format and way of declaring them',
      why='The example files all declare what the heuristic would guess anyway.',
      mechanism=[('detection', 'gerber/excellon.py:detect_excellon_format'), ('reading', 'gerber/excellon.py:loads'), ('settings in comments', 'gerber/excellon.py:ExcellonParser._parse_line')],
      observe=['settings of the file', 'positions of the holes']),
 dict(id='C23', design='Each render function of GerberCairoContext draws on a recording stand-in for the cairo library (trusted: cairo fills and strokes the paths it is given); the marks recorded must be the shape of the primitive in pixels of the image for any area, scale, position and size, through the transformations, masks and clip boxes the code sets up. Bounding boxes and outlines of callees are replaced by arbitrary ones (their contracts are C04). Layers, boards and regions are explored completely up to two shapes, three layers and three edges (stated scope).',
      title='Images show every shape at its place, whole and with its polarity',
      statement='Drawing a file, a layer or a board gives an image of its area in the given scale (or the largest that fits), on the background, in which every line, arc, region, flash, hole, slot and test point is drawn at its place in its shape, not cut off, full circles included; clear shapes and inverted or mirrored layers come out as such; layers are drawn in order in the color and opacity of their settings. '
                'Settings of contexts and themes take exactly the values that make sense.',
      over=['inputs', 'histories'], quant='every primitive with arbitrary position and size in an image of arbitrary area, plain, inverted and mirrored; layers of two shapes, boards of three layers, regions of three edges',
      why='Tests compare four images with stored ones, byte by byte; none is inverted, mirrored, clear or has slots, polygons or holes.',
      mechanism=[('shapes', 'gerber/render/cairo_backend.py:GerberCairoContext._render_line'), ('clipping', 'gerber/render/cairo_backend.py:GerberCairoContext._clip_primitive'), ('layers', 'gerber/render/cairo_backend.py:GerberCairoContext.render_layer'),
                 ('boards', 'gerber/render/cairo_backend.py:GerberCairoContext.render_layers'), ('context', 'gerber/render/render.py:GerberContext.render'), ('themes', 'gerber/render/theme.py:Theme')],
      observe=['drawing operations on the cairo surface']),

 dict(id='C24', design='Settings objects are executed with every setting and, for their zeros, every sequence of two changes; companion files with symbolic numbers in every order of lines, with other lines between; then whole programs are read with the settings and tools of such files, twice with the same table, and the holes compared with the text of the table.',
      title='Settings and tool tables of companion files are what drilling uses',
      statement='A settings object says what it was given, keeps the zeros kept and the zeros suppressed opposite, and refuses what means nothing. A parameter file gives the format, notation and units it states; each row of a tool table or drill report is the tool of its number, with its size in the units asked for and its plating, feed and speed. '
                'Holes drilled with tools of such a table have its sizes, in the units of the program, and the table stays as it was for the next file.',
      over=['inputs', 'histories'], quant='every number in the files, every setting, sequences of two changes or two files',
      why='No test reads a parameter file, a tool table or a drill report, and none reads a program with tools of a table.',
      mechanism=[('settings', 'gerber/cam.py:FileSettings'), ('parameter files', 'gerber/excellon_settings.py:ExcellonSettingsParser'), ('tool tables', 'gerber/excellon_tool.py:ExcellonToolDefinitionParser'),
                 ('reports', 'gerber/excellon_tool.py:ExcellonReportParser'), ('use', 'gerber/excellon.py:ExcellonParser._get_tool')],
      observe=['FileSettings', 'tools', 'hits']),
 dict(id='C25', design='Files with symbolic coordinates in each unit, of every kind of statement and object, are copied by the real operations; everything the copy shows must be what the method of that name makes of the file, nothing that the file shows may differ, and no mutable object may belong to both.',
      title='Operations give changed copies of files and leave the files alone',
      statement='Converting or moving a file through gerber.operations gives a copy in which everything is as if the file itself had been converted or moved; the file keeps all of its statements, objects, apertures, tools and settings, and a later change of either does not show in the other.',
      over=['inputs', 'histories'], quant='arbitrary coordinates and displacements; both kinds of files, both units, each operation, followed by a change of the source',
      why='No test uses gerber.operations at all.',
      mechanism=[('operations', 'gerber/operations.py:to_inch'), ('moving', 'gerber/operations.py:offset'), ('Gerber', 'gerber/rs274x.py:GerberFile.to_metric'), ('Excellon', 'gerber/excellon.py:ExcellonFile.offset')],
      observe=['statements, objects, apertures and tools of file and copy']),
]

NOT_APPLICABLE = [
]
