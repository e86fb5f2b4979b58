"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "state": [{"name": "abstract state", "meaning": state, "where": files[0]}],
                  "observe_at": [observe], "hook_needed": None}})

p("C01", "Grids that share data stay coherent through every history",
  """Through any sequence of creating, copying, assigning, resizing, writing, filling and destroying grids, grids
  that share data by copy or assignment always report the same bounds, extents and cell values, and a resize or
  write through one of them is seen through all of them. Grids that do not share data never influence each other,
  a grid that is assigned from another leaves the ones it used to share with untouched, and destroying any of
  them neither invalidates the others nor touches released memory. This holds for the C-ordered, Fortran-ordered,
  lazily allocated and Kokkos storages alike.""",
  ["histories", "configurations"], "all sequences of handle operations on up to four grids, ranks 1-3, all storage policies",
  "The tests use one grid at a time; the sharing bookkeeping only shows in particular orders of copy, assign, resize and destroy.",
  ["src/grid/grid.hpp", "src/grid/grid.t", "src/grid/gridstorage.hpp", "src/grid/gridstorage/single-array-allocation.hpp",
   "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/kokkos-storage.hpp"],
  [("shared buffer and update propagation", "src/grid/gridstorage/single-array-allocation.hpp"),
   ("assignment and copy construction", "src/grid/grid.t")],
  "which grids share which buffer, its bounds and cells", "public accessors after every operation")

p("C02", "Every index addresses its own cell, in the documented memory order",
  """For every index box (negative lower bounds included) and every rank from 1 to 10, distinct index points
  address distinct cells, and every way of reaching a cell - call operator, index array, index expression, plain
  get, read-only access - reaches the same one. The memory order is the documented one (last index fastest for the
  C-ordered storages, first index fastest for the Fortran-ordered ones), and reported bounds, extents, size and
  strides agree with it. Filling a grid sets every cell, and adding or subtracting another grid over the same box acts index by index,
  whatever the two memory orders.""",
  ["inputs", "configurations"], "all boxes, ranks 1-10, storage policies, accessors",
  "Tests sample a few boxes per rank and one accessor; index arithmetic errors show only for particular bounds, ranks or accessors.",
  ["src/grid/grid.hpp", "src/grid/grid.t", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/kokkos-storage.hpp"],
  [("offset computation", "src/grid/gridstorage/single-array-storage-base.hpp"), ("accessors", "src/grid/grid.hpp")],
  "box, layout and cells of two grids", "addresses and values of all cells")

p("C03", "Iterating over a range visits each index exactly once, in order",
  """For every range (negative bounds and single-cell extents included), the range iterator and the C-order loop
  visit exactly the index points of the range, each once, with the last index running fastest; the
  Fortran-order loop does the same with the first index running fastest, and the parallel loop visits the same
  points, each once, in some order; a range that is empty in some dimension visits nothing. Two iterators over the range are equal
  exactly when they stand at the same place. Membership tests, growing a range, and projecting out a dimension agree with
  the set of points of the range, also for boxes of physical space with real limits.""",
  ["inputs", "configurations"], "all ranges of ranks 1-6 and more, all iteration policies",
  "Tests check a few fixed shapes; missed or repeated points appear only for particular bounds and ranks.",
  ["src/grid/range.hpp", "src/grid/domain.hpp", "src/grid/iteration/range-iteration.hpp", "src/grid/iteration/kokkos-iteration.hpp"],
  [("range iterator", "src/grid/range.hpp"), ("loop policies", "src/grid/iteration/range-iteration.hpp")],
  "range bounds and the sequence of visited points", "visited points")

p("C04", "Argument checking accepts exactly the valid indices and reports the others",
  """With the assertion policy, accessing a grid or a fixed-size array succeeds for every index inside the bounds and aborts for
  every index outside them. With the debug policy an access inside the bounds is unchanged and leaves the error record alone, whereas an
  access outside is redirected to a valid cell while the error flag is set for good, and an offending dimension
  and the offending index are recorded. The bounds that count are those after the latest resize.""",
  ["inputs", "histories"], "all index points around the bounds, after any sequence of resizes",
  "Tests never access out of bounds; a wrong comparison only shows at the exact edge of a dimension.",
  ["src/grid/gridcheck.hpp", "src/grid/arraycheck.hpp", "src/grid/grid.t"],
  [("index checks", "src/grid/gridcheck.hpp"), ("array index checks", "src/grid/arraycheck.hpp")],
  "bounds and error record", "abort or returned cell, error record")

p("C05", "Field positions and indices correspond",
  """A field reports as inner bounds the index range it was given, and its full range extends it by exactly the number of ghost
  cells on every side, after construction in any form as well as after any resize. The index of the lower inner
  bound maps to the lower physical limit, positions grow by the cell width per index and by half a cell in the
  staggered dimensions. Mapping a position to an index gives the cell whose position is the nearest at or below it
  together with the remaining fraction in [0,1), and mapping that pair back gives the position.""",
  ["inputs", "configurations", "histories"], "all inner boxes, physical domains, stagger patterns, ghost widths, positions, resizes",
  "No field geometry test exists; off-by-one and stagger errors show only for particular bounds and positions.",
  ["src/grid/field.hpp", "src/grid/field.t", "src/grid/domain.hpp"],
  [("index/position mapping", "src/grid/field.t")],
  "inner box, domain, stagger, ghost width", "reported bounds, positions, indices")

p("C06", "Ghost, source and inner regions of a boundary partition the grid",
  """For every grid and every boundary width up to half its extent, the ghost region on a side is the outermost slab of that width in its
  dimension and the source region is the adjacent slab of the same width just inside it, both spanning the full extent in the other dimensions;
  the inner region is the grid without its ghost slabs. Hence ghost regions of opposite sides do not overlap, the inner region and the
  ghost regions together cover the whole grid exactly, and the view onto a side's ghost cells shows exactly
  those cells of a grid (of a field staggered in that dimension, one layer less on the lower side).""",
  ["inputs", "configurations"], "all boxes, widths, dimensions, sides and stagger patterns",
  "The documented example is one box; wrong limits in one dimension or side only show for other shapes.",
  ["src/grid/boundary.hpp", "src/grid/boundary.t"],
  [("region computation", "src/grid/boundary.t")],
  "grid box, width, stagger", "reported regions")

p("C07", "The domain decomposition tiles the global domain",
  """For every global grid (any lower bound; large enough to give every process a part), ghost width and number of processes, the inner regions
  of the local domains are non-empty, pairwise disjoint and together cover the global domain, their extents along a dimension differ by at most
  two cells, and every local domain is its inner region plus the ghost cells on every side. The
  low/high boundary flags are set exactly on the processes at the ends of the domain, process identifiers are unique and stable, process
  counts are consistent, and the local share of the physical extent is proportional to the local inner region.""",
  ["inputs", "configurations"], "global boxes, ghost widths, ranks, numbers of processes 1-8",
  "No test runs the decomposition; gaps and overlaps appear only for sizes that do not divide evenly over the processes.",
  ["src/grid/domainsubdivision.hpp", "src/grid/domainsubdivision.t", "src/grid/mpisubdivision.hpp", "src/grid/mpisubdivision.t", "src/util/factor.cpp", "src/util/factor.hpp"],
  [("domain split", "src/grid/mpisubdivision.t"), ("process grid factors", "src/util/factor.cpp")],
  "global box, process grid, local boxes", "reported local domains and flags of every process")

p("C08", "Ghost exchange makes ghost cells the periodic image of the global field",
  """After exchanging all dimensions, every ghost cell of every process - edges and corners included - holds the
  value of the inner cell it represents in the periodic continuation of the global field, and no inner cell has
  changed. Exchanging a single dimension does this for that dimension's ghost slabs only. This holds for every
  global size, ghost width, number of processes, element type and memory order, for grids and fields, serial and parallel alike.""",
  ["inputs", "configurations", "histories"], "global boxes, ghost widths, process counts 1-8, field contents, sequences of exchanges",
  "No test exercises the exchange; wrong neighbours, sides or buffer orders need several processes and particular shapes.",
  ["src/grid/domainsubdivision.hpp", "src/grid/domainsubdivision.t", "src/grid/mpisubdivision.t", "src/grid/boundary.t"],
  [("exchange", "src/grid/mpisubdivision.t"), ("serial exchange", "src/grid/domainsubdivision.t")],
  "the global field as seen by every process", "all cells of all processes before and after")

p("C09", "Accumulation folds ghost contributions into the cells they represent",
  """After accumulating along a dimension, every cell represented more than once along that dimension (as an inner cell
  of one process and as a ghost cell of others, or of the same process through the periodic continuation)
  holds on every process the sum of all its contributions, and all other cells are unchanged. Accumulating over all dimensions
  therefore conserves the total. This holds for every global size, ghost width (up to half the width of the local inner regions) and number of processes, serial and parallel.""",
  ["inputs", "configurations"], "global boxes, ghost widths, process counts 1-8, field contents",
  "No test exercises accumulation; double counting and lost contributions need particular process layouts.",
  ["src/grid/domainsubdivision.t", "src/grid/mpisubdivision.t"],
  [("accumulate", "src/grid/mpisubdivision.t"), ("serial accumulate", "src/grid/domainsubdivision.t")],
  "the fields of every process", "all cells of all processes before and after")

p("C10", "Buffer exchange and reductions deliver exact data to every process",
  """Exchanging data buffers along a dimension delivers to every process exactly the bytes its neighbour sent, of
  whatever (also unequal or zero) length, in the stated direction, around the periodic boundary. Sum, maximum, minimum and average reductions return the
  same correct value on every process. Objects packed into a typed buffer are read back unchanged and in the same order, and received data do not change when the send buffer is used again.""",
  ["inputs", "configurations", "histories"], "buffer lengths, contents, directions, process counts 1-8, write/read sequences",
  "No test runs more than one process; unequal lengths and wrap-around need several.",
  ["src/grid/mpisubdivision.t", "src/grid/domainsubdivision.hpp", "src/util/databuffer.hpp", "src/util/databuffer.t"],
  [("exchangeData", "src/grid/mpisubdivision.t"), ("typed buffer", "src/util/databuffer.t")],
  "buffers of every process", "received buffers and reduced values")

p("C11", "Expressions in the setup file evaluate to their mathematical value",
  """Every well-formed arithmetic expression in a setup file - any nesting of parentheses, leading signs, the four
  operations, powers, function calls, and variables of integer, floating point and text type -
  evaluates to the value given by the usual precedence and left associativity, with integer operands combined as integers and
  mixed operands as floating point. The result does not depend on whether sub-expressions are literals or
  variables, nor on whether they are evaluated while reading or later. Malformed expressions, unknown functions, a wrong number of arguments and division by an
  integer zero are reported as errors rather than crashing.""",
  ["programs", "inputs"], "all expression trees over the grammar",
  "Tests parse a handful of expressions; precedence and typing errors appear for particular operator combinations.",
  ["parser/deckgrammar.y", "src/parser/parsertoken.cpp", "src/parser/parsertoken.t", "src/variables/operators.hpp", "src/variables/expression.hpp", "src/variables/function_expression.hpp", "src/functions.cpp"],
  [("grammar", "parser/deckgrammar.y"), ("operator evaluation", "src/variables/operators.hpp")],
  "an expression tree and variable values", "the value a parameter receives")

p("C12", "Setup declarations follow scope, type, default and read-only rules",
  """A name used in a setup file refers to the innermost enclosing block's declaration made before its use, a path such as block:name to the
  named block's variable, and a value given to a
  parameter becomes that block's parameter, converted to the declared type. Parameters not given take their
  defaults. A mandatory parameter left unset, a second declaration of a name in the same block, an unknown name, an
  assignment to a constant or read-only variable and a declaration whose type differs from its value's are each reported as an error, those found while reading with the
  file and line of the offending statement.""",
  ["programs"], "all sequences of declarations and assignments in nested blocks",
  "Tests use one block and few declarations; scoping and error rules concern combinations of blocks and orders.",
  ["src/parser/parsertoken.cpp", "src/parser/parsertoken.t", "src/variables/variables.cpp", "src/variables/blockparameters.cpp", "src/variables/blockparameters.hpp", "src/parser/parser.cpp"],
  [("declarations", "src/parser/parsertoken.cpp"), ("parameters", "src/variables/blockparameters.hpp")],
  "block scopes with their variables", "parameter values or error")

p("C13", "The block tree mirrors the setup file and respects class restrictions",
  """Parsing a setup file creates exactly one block object per block in the file whose class has an implementation, with its class, its name, its
  parent (the nearest enclosing block object) and its children in order of appearance, and iterating over the children of a type yields exactly those children, in order.
  With restrictions switched on, a block whose class is not allowed
  as a child of the enclosing block's class is reported as an error. Two blocks of the same name in one block and an unmatched closing brace are always errors.""",
  ["programs"], "all nestings of blocks and all class registrations",
  "Tests create no nested blocks; restrictions concern combinations of classes.",
  ["src/variables/block.cpp", "src/variables/block.hpp", "src/variables/blockclasses.cpp", "src/variables/blockclasses.hpp", "src/variables/blockcontainer.hpp", "src/parser/parsertoken.cpp"],
  [("block creation", "src/parser/parsertoken.cpp"), ("class restrictions", "src/variables/blockclasses.cpp")],
  "the block tree", "created blocks")

p("C14", "Every block runs its lifecycle phases once, phase by phase, in file order",
  """For every block tree, of whatever depth and shape, read from a file or put together by a program, initialisation runs each phase - evaluating parameters, registering data,
  pre-initialisation, initialisation, post-initialisation - exactly once on every block, completes a phase on all blocks before
  the next begins, and visits the blocks within a phase in order of appearance, parents before their children. Parameters are
  declared when the block is read, in that same order.""",
  ["programs", "histories"], "all block trees",
  "Tests have no block hierarchy; traversal errors need particular depths and shapes.",
  ["src/variables/block.cpp", "src/variables/block.hpp"],
  [("traversal", "src/variables/block.cpp")],
  "the block tree and the phase reached by every block", "order of lifecycle calls")

p("C15", "Shared data are found by name exactly where they were registered",
  """Data registered under a name by a block can be retrieved by any block of the tree, and retrieval yields the very data
  registered: a plain name is looked up in the block itself and then outwards through the enclosing blocks, and failing that in the whole tree; a dotted name selects the block by its
  name. A name that is not registered, has another type, or is ambiguous is reported as an error and never yields other data.""",
  ["histories", "programs"], "all block trees, registrations and lookups",
  "Tests register no shared data; ambiguity and nesting rules concern combinations.",
  ["src/variables/blockdata.hpp", "src/variables/block.cpp", "src/variables/block.hpp"],
  [("registry", "src/variables/blockdata.hpp")],
  "registered data per block", "retrieved data or error")

p("C16", "Dependent variables are recomputed exactly when their inputs change",
  """An update recomputes exactly the formulas that the requested dependent parameters need and that depend, directly or through other variables, on the
  given independent ones (or contain a function declared to change by itself), so that afterwards the dependents equal their formulas at the current values.
  All other variables keep their values, whatever the order and number of changes and updates. Variables that depend on each other are reported as an error. When the file has been read, every formula has its value, even where another one cannot be evaluated.""",
  ["programs", "histories"], "all dependency graphs, subsets of independent and dependent variables, update sequences",
  "Tests evaluate one expression; ordering errors appear for particular graphs and request orders.",
  ["src/variables/dependencies.cpp", "src/variables/dependencies.hpp", "src/variables/blockparameters.cpp", "src/tools/fieldtools.hpp", "src/tools/fieldtools.t"],
  [("update ordering", "src/variables/dependencies.cpp")],
  "formulas and current values", "parameter values after an update")

p("C17", "Diagnostics are written at exactly the prescribed steps and times",
  """A step diagnostic writes at every step that is a multiple of its interval (and at a final, negative step) and at no other; a time diagnostic
  writes, at most once per execution, as soon as the physical time has reached its next output time, which then moves on by its period. File names carry the step number
  ("final" for the final one) or, for time diagnostics, the count of outputs; appending diagnostics collect all outputs in one file, which holds them
  after each execution. The suggested time step never passes over an output time and is never larger than the one asked for. Every process keeps the same schedule, a needed
  clock that is missing is an error, and destroyed diagnostics write nothing. This holds for any set of diagnostics and any sequence of steps and times.""",
  ["histories", "configurations"], "all sets of diagnostics, step and time sequences",
  "No test runs diagnostics; missed or repeated outputs depend on the history of time steps.",
  ["src/diagnostic/diagnostic.cpp", "src/diagnostic/diagnostic.hpp", "src/diagnostic/diagnostic.t"],
  [("schedule", "src/diagnostic/diagnostic.cpp")],
  "clock, next output times, counters", "files written, in order")

p("C18", "Grids written to HDF5 files are complete and read back identically",
  """For every grid (any rank, bounds, element type and memory order) and every way of distributing it over processes, with or
  without ghost cells, writeGrid stores one dataset with the global extents, in row-major index order, in which every cell holds
  the value of the process responsible for it (ghost cells never reach the file) and the stream's attributes at that time; reading it, with the same or another
  distribution and type, gives every process the values of its part and leaves its other cells alone. Datasets are named block0, block1 ... after
  opening and name, name1, name2 ... after naming the block; successive writes, files, copies of streams and changes of the active
  processes do not disturb one another. A grid diagnostic, appending or with a file per output, writes all its outputs, and a grid reader reads them.""",
  ["inputs", "configurations", "histories"], "boxes, ranks, types, storage orders, process counts 1-8, sequences of writes and reads",
  "No test writes a file; offsets and orders concern particular shapes and process layouts.",
  ["src/diagnostic/hdfdiagnostic.cpp", "src/diagnostic/hdfdiagnostic.hpp", "src/diagnostic/hdfdiagnostic.t"],
  [("hyperslab write/read", "src/diagnostic/hdfdiagnostic.t")],
  "file contents", "cells read back")

p("C19", "Setup text is tokenised faithfully whatever the layout",
  """The meaning of a setup file does not depend on its spacing, line breaks or comments: numbers, names and operators are
  recognised in full with their exact values, and a quoted text consists of exactly the characters between its quotes, whatever their length and wherever they
  stand in the input. Characters that are not part of the language, an unterminated text or an unterminated comment are reported as an error. Errors give the line on which the offending
  token stands, line breaks in texts and comments included.""",
  ["programs", "inputs"], "all token sequences and all layouts between them",
  "Tests use short well-formatted files; buffer boundaries and line counting depend on length and position.",
  ["parser/deckscanner.rl", "src/parser/deckscanner.cpp", "src/parser/deckscanner.hpp", "src/parser/internal/deckscanner.cpp", "src/parser/tokenlist.hpp", "src/parser/parser.cpp"],
  [("scanner", "src/parser/internal/deckscanner.cpp")],
  "characters consumed, tokens produced, current line", "values received, error lines")

p("C20", "Array arithmetic is element by element and free of aliasing effects",
  """Any expression built from fixed-size arrays by addition, subtraction, multiplication, division and negation, with arrays or scalars, evaluates element by
  element to the value of the same expression on the elements (operands of mixed types in their common type), also when the assigned array occurs on the right-hand side. Comparisons, products, sums, norms,
  projections and fills agree with the elements, and an assignment changes no other array.""",
  ["inputs", "programs"], "all expression trees over arrays, lengths 1-10",
  "Tests check single operators on one sample each; errors in a rarely combined operator or element stay hidden.",
  ["src/grid/array.hpp", "src/grid/array.t", "src/grid/arrayexpression.hpp"],
  [("array expressions", "src/grid/arrayexpression.hpp")],
  "array contents", "array contents after each operation")

p("C21", "Filling a field evaluates the formula at every cell's own position",
  """Filling a field from a setup formula sets every cell, ghost cells included, to the formula's value at that
  cell's position, stagger considered, and changes no other field. Filling from one named parameter leaves the other parameters as they are. This holds for every field geometry and however many fields are filled, in whatever
  order and with whatever formulas.""",
  ["programs", "inputs", "histories"], "fields, formulas of the coordinates, sequences of fills",
  "No test fills a field; mixing up coordinates or stale values shows only with several fields or non-symmetric formulas.",
  ["src/tools/fieldtools.hpp", "src/tools/fieldtools.t", "src/variables/dependencies.hpp"],
  [("fill", "src/tools/fieldtools.t")],
  "fields, coordinates, formulas", "all cells after a fill")

p("C22", "Literature references are each recorded once and written completely",
  """Every reference registered during a run appears exactly once in the bibliography, with the text and key it was registered with,
  and every citation in the report refers to an entry of it; registering the same reference repeatedly, from any
  number of places, adds no duplicate, and nothing unregistered is written.""",
  ["histories"], "all sequences of registrations",
  "No test covers the literature manager.",
  ["src/tools/literature.cpp", "src/tools/literature.hpp"],
  [("manager", "src/tools/literature.cpp")],
  "registered references", "written files")

p("C23", "Grid views read and write the right cells of the underlying grid",
  """A sub-grid view shows at every index of its range exactly the underlying grid's cell at that index, and a transformed view shows at
  every index the transformed value of the cell at that index; writes through a sub-grid change that cell and no other. The view's bounds and
  extents are those it was given, also after a resize, and a view keeps following the underlying data when those change.""",
  ["inputs", "histories"], "grids, view ranges, transformations, sequences of accesses",
  "Views could not even be compiled in several uses; the tests do not use them.",
  ["src/grid/subgrid.hpp", "src/grid/subgrid.t", "src/grid/gridtransform.hpp", "src/grid/gridtransform.t"],
  [("sub-grid", "src/grid/subgrid.hpp"), ("transform", "src/grid/gridtransform.hpp")],
  "underlying cells and view ranges", "cells through the views and through the grid")

p("C24", "Text output lists every element once, in the documented layout",
  """Writing an array to a text stream writes its elements in order, separated by single spaces. Writing a grid of rank 1 to 5 writes every cell exactly once, the first
  index running along the rows and the last index slowest, whatever the bounds and the memory order of the grid: cells of a row are separated by single spaces, every row (of grids of
  two or more dimensions) ends with a newline and every two-dimensional slice (of three or more) with an additional one. Nothing else is written, and the grid is not changed.""",
  ["inputs"], "arrays and grids of all shapes, bounds, storages and contents",
  "No test writes a grid to a stream.",
  ["src/datastream.hpp", "src/datastream.t"],
  [("stream operators", "src/datastream.t")],
  "the text of the streams", "the text of the streams after each output")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
