"""Writes /verif/properties.jsonl.  Run by hand when the list changes."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


IO = "src/wulfric/io/_vasp.py"
PE = "src/wulfric/_plotly_engine.py"
SG = "src/wulfric/_spglib_interface.py"
KP = "src/wulfric/_kpoints_class.py"
CV = "src/wulfric/crystal/_conventional.py"
PR = "src/wulfric/crystal/_primitive.py"
PP = "src/wulfric/kpoints/_path_and_points.py"
BM = "src/wulfric/crystal/_basic_manipulation.py"
ALL = "src/wulfric"

# ------------------------------------------------------------------ files and disks
prop("C01", "A write that returned is complete; a write that failed says so",
     """When dump_poscar(path) or PlotlyEngine.save() returns normally, the named file holds the complete
     output, even if the process is killed at the very next instant. Every open, write or close error met
     on the way (disk full, I/O error, quota, no permission) reaches the caller as an exception.""",
     ["crash_points", "fault_sequences", "inputs"],
     "every structure and figure; every crash point and disk error at every system call of the write, under every buffer size and short-write pattern",
     "No test writes a file at all, and a healthy disk plus a clean interpreter exit hides a buffer that is only flushed by the destructor.",
     [IO, PE], [("explicit write and close of the opened file", "io/_vasp.py:dump_poscar"),
                ("plotly write_html", "_plotly_engine.py:PlotlyEngine.save")],
     ["bytes of the destination after the call", "exception of the call"])
prop("C02", "A dump that is refused leaves the destination exactly as it was",
     """If dump_poscar(path) raises because of what it was asked to write (unknown mode, undeducible species,
     malformed or failing coordinates, bad decimals, a comment that cannot be encoded, an interrupt while the
     data is being prepared), a file already at the destination keeps its previous bytes and no new file appears.
     A caller-supplied stream receives nothing either.""",
     ["inputs", "fault_sequences", "crash_points"],
     "every invalid or failing argument, at every atom index and every access of the caller's data, against every prior state of the destination",
     "No test calls dump_poscar with bad data over an existing file; the failing element can be anywhere in the structure and the failure can come from the caller's own data at any access.",
     [IO], [("everything is validated and rendered before the destination is opened", "io/_vasp.py:dump_poscar")],
     ["destination bytes before and after", "directory listing"])
prop("C03", "What was dumped is what is loaded, under any benign I/O disturbance",
     """Loading what dump_poscar wrote gives back the same cell, the same atoms (species with coordinates, to the
     requested number of decimals, grouped by species, order kept within a species) and the comment, in both modes and through
     paths or streams. This holds however the system splits or interrupts the transfer (short reads and
     writes, EINTR, tiny buffers) and whatever the file held before.""",
     ["fault_sequences", "histories", "inputs"],
     "every structure, mode, precision and comment; every split and interruption of the transfer; every sequence of earlier dumps to the same path or stream",
     "There is no round-trip test; tests read a handful of packaged files on a healthy disk in one gulp.",
     [IO], [("fixed-format writer", "io/_vasp.py:dump_poscar"), ("line parser", "io/_vasp.py:load_poscar")],
     ["load_poscar result"])
prop("C04", "A torn, damaged or failing POSCAR never turns into an invented structure",
     """load_poscar either raises, or returns exactly the cell, atoms, counts, order and comment that the text it
     was given states in the POSCAR format; it never drops, invents, reorders or re-labels atoms or vectors when
     lines are cut short, lost, duplicated or altered. A read error in the middle of the file is raised, not
     treated as the end of the file.""",
     ["fault_sequences", "crash_points", "inputs"],
     "every truncation point, lost or duplicated block, altered byte and read error in every POSCAR text (both modes, with and without species names, selective dynamics, all scale-factor forms, trailing velocities)",
     "Tests only load complete packaged files; a half-written file is reachable only by a crash or a full disk.",
     [IO], [("row-by-row parser with fixed counts", "io/_vasp.py:load_poscar")],
     ["load_poscar result or exception"])
prop("C05", "Files opened by the library are closed when the call ends, however it ends",
     """Every file or descriptor that an I/O call (load_poscar, dump_poscar, hpkot_get_example, PlotlyEngine.save) opened is closed
     by the time the call returns or raises, even while the exception is still held, so that any number
     of calls works under a fixed descriptor limit. A stream handed in by the caller is left open and usable.""",
     ["fault_sequences", "histories"],
     "every call outcome (success, parse error, I/O error, interrupt) and every number of calls under any descriptor limit",
     "Reference counting closes leaked files in the tests' happy path; the leak shows only with a live traceback, another interpreter or a low descriptor limit.",
     [IO, PE, "src/wulfric/crystal/_hpkot_examples/__init__.py"],
     [("file handling of the I/O functions", "io/_vasp.py")], ["open descriptors", "ResourceWarning", "stream.closed"])
prop("C06", "POSCAR lookup follows the documented order, whatever is on disk",
     """load_poscar() reads the file POSCAR of the current directory, load_poscar(name) the file called name, and, when
     name is a directory or there is no such file, the POSCAR inside it; when nothing is found it raises FileNotFoundError naming the
     place it looked. The file that is read is decoded as UTF-8 in every locale, and other
     errors (no permission, I/O error) are raised as they are, never masked by reading another file.""",
     ["configurations", "fault_sequences", "schedules"],
     "every state of the directory tree, working directory and locale, every open error, and every replacement of the file between the look-up steps",
     "No test covers the look-up; the fallback depends on errno values, working directory and locale of the machine.",
     [IO], [("open with fallback", "io/_vasp.py:load_poscar")], ["structure loaded", "exception type and message", "open calls"])
prop("C07", "Timestamps name one real instant inside the call; nothing else reads the clock",
     """The date and time written into a default POSCAR comment and into logo(date_time=True) is one single instant
     between the start and the end of the call, however the clock ticks or jumps around midnight, month and year
     ends. No other output or result of the library depends on the time.""",
     ["schedules", "configurations"],
     "every clock value, rate and jump, placed between any two clock reads",
     "Tests run at one real time; a torn timestamp needs a tick between two clock reads.",
     [IO, "src/wulfric/_package_info.py"],
     [("one datetime.now() per stamp", "io/_vasp.py:dump_poscar, _package_info.py:logo")],
     ["first line of the file", "logo text"])

# ------------------------------------------------------------------ isolation
prop("C08", "Concurrent callers get what they would get alone",
     """When several threads use the library at the same time, sharing cells, atoms and spglib data they do not modify, every call
     returns (or raises) what the same call gives when it runs alone, and the shared inputs stay
     unchanged.""",
     ["schedules", "inputs"],
     "every interleaving of the library's steps across threads, for every mix of public calls and shared inputs",
     "All tests are single-threaded; a shared scratch object or a check-then-act on module state fails only in particular interleavings.",
     [ALL], [("no shared mutable module state; work on local copies", "all modules; constants in src/wulfric/constants")],
     ["result of every call", "inputs after the run"])
prop("C09", "A result never depends on what was called or edited before",
     """The result of a call is a function of the values passed in that call alone: the same call gives the same result first in a
     fresh process and after any history of other calls, of edits to earlier results, and of in-place edits to the caller's own inputs.
     Apart from the documented in-place functions (shift_atoms, cure_negative, ensure_000, get_unique_names), no call changes its arguments,
     and editing a returned object changes no other object, no stored spglib data and no constant.""",
     ["histories", "inputs"],
     "every sequence of calls, re-used arguments and edits of earlier arguments and results",
     "Each test makes one or two calls in a fixed order and never edits a result; caches, aliasing and mutated constants need a specific earlier call or edit.",
     [ALL, SG, CV, PR],
     [("results are fresh objects, spglib data holds private copies", "_spglib_interface.py:SpglibData; crystal/_conventional.py; crystal/_primitive.py"),
      ("constants are read only by convention", "src/wulfric/constants")],
     ["results", "arguments and earlier results after each call", "constants"])
prop("C10", "An interrupted or failing call leaves no trace and works when repeated",
     """If a call is interrupted (KeyboardInterrupt, MemoryError) at any point, the exception reaches the caller,
     arguments of the non-in-place functions and the package's constants are
     unchanged, and the same call repeated without the fault returns the result it gives in a fresh
     process. This also holds for any other call made after the interruption.""",
     ["crash_points", "fault_sequences", "histories"],
     "every line of library code as the point of interruption, for every public call, followed by any further calls",
     "No test interrupts a call; the state left behind depends on the exact statement that was executing.",
     [ALL], [("local working copies; no partially updated module state", "all modules")],
     ["exception seen by the caller", "arguments, constants", "result of the repeated call"])
prop("C11", "Process-wide settings are left as they were found",
     """No call of the library, whether it returns, raises or is interrupted, changes process-wide state that belongs to the host program:
     warning filters, numpy error handling and print options, working directory,
     environment, locale, signal handlers, recursion limit, decimal context, standard streams and (outside PlotlyEngine) the random generators.""",
     ["histories", "crash_points", "inputs"],
     "every public call, every outcome and every interruption point, from every initial setting",
     "Tests never look at these settings and an exception between set and restore is needed for the usual bug.",
     [ALL], [("library code does not set them; get_atom_species only emits warnings", "all modules")],
     ["snapshot of the settings before and after"])
prop("C12", "The same call gives the same result in every process and environment",
     """For the same argument values the results of the library are the same (dictionary and list order
     included) in every process, whatever the hash seed, locale, time zone, clock, entropy source, working directory, address-space
     layout or order of imports and calls. Only the random legend-group identifiers of figures may differ.""",
     ["configurations", "schedules"],
     "every hash seed, locale, time zone, clock, entropy stream, working directory, import order",
     "The test command pins the hash seed and runs in one environment; iteration order of sets of strings only shows across hash seeds.",
     [ALL, SG, PR], [("sorted identifiers before numbering", "_spglib_interface.py:get_spglib_types")],
     ["digest of results across simulated environments"])

# ------------------------------------------------------------------ symmetry backend and optional dependencies
prop("C13", "Stored spglib data is never applied to a different structure",
     """Passing spglib_data made for one structure together with another (different cell, positions, number of atoms or types, even after
     in-place edits of the original objects) raises an error and never returns a result that mixes the two.
     With matching data every function gives the result it gives with freshly computed data of the same tolerances, without another symmetry search,
     and however long the data was kept.""",
     ["histories", "inputs"],
     "every history of structures, edits and stored data, for every function that accepts spglib_data and every convention",
     "Tests pass spglib_data right after computing it; a stale or aliased copy needs an edit between the two.",
     [SG, CV, PR, PP, "src/wulfric/crystal/_sc_variation.py", "src/wulfric/crystal/_hpkot_extended_bl_symbol.py"],
     [("validate_spglib_data in every consumer", "_spglib_interface.py:validate_spglib_data"),
      ("private deep copies of the original structure", "_spglib_interface.py:SpglibData")],
     ["result or exception", "calls made to the backend"])
prop("C14", "A symmetry-backend failure is reported, never turned into a result",
     """If spglib fails (returns nothing or raises) in any of the calls made on behalf of a
     library function, that function raises a documented error (RuntimeError, ValueError, TypeError, NiggliReductionFailed, or the backend's own error) and returns no partial or invented result.
     Once the backend works again the same call gives the normal result.""",
     ["fault_sequences", "histories"],
     "every backend call of every library function as the failing one, every failure kind, every burst of failures followed by recovery",
     "spglib never fails in the tests.",
     [SG, "src/wulfric/cell/_niggli.py"],
     [("dataset None check and re-raise with note", "_spglib_interface.py:SpglibData"), ("spglib variant of the Niggli reduction", "cell/_niggli.py:get_niggli")],
     ["result or exception", "calls made to the backend"])
prop("C15", "A missing optional package disables only the features that need it",
     """wulfric imports, and everything that does not need the package works unchanged, when plotly, spglib, scipy or
     the test packages are absent or fail with an ImportError at import. A feature that does need the missing package raises ImportError (never a
     wrong result), both on first and on repeated use; wulfric.test() without its test packages says which one is missing.""",
     ["configurations", "fault_sequences"],
     "every subset of optional packages missing or failing to import, at import time or at first use, and every public call",
     "The test environment has every package installed.",
     ["src/wulfric/__init__.py", SG, PE, "src/wulfric/cell/_voronoi.py", "src/wulfric/_tests/__init__.py", "src/wulfric/cell/_niggli.py"],
     [("guarded imports", "_spglib_interface.py, _plotly_engine.py, cell/_niggli.py, _tests/__init__.py")],
     ["import outcome", "result or exception of every call"])

# ------------------------------------------------------------------ stateful objects
prop("C16", "A Kpoints object stays consistent under any sequence of edits",
     """After any sequence of adding and removing points and setting path, n and rcell, names, coordinates and labels of a Kpoints object name the same points,
     path and path_string agree, labels and ticks have equal length, and points() and flat_points() are those
     of the current path, coordinates and n. An edit that is refused changes nothing; an interrupted one leaves path, n and every
     other point as they were.""",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of edits and reads, with invalid edits and interruptions anywhere in it",
     "Tests make one edit per object and never look at the object after an exception; removing points is not tested.",
     [KP], [("add_hs_point, remove_hs_point, path and n setters", "_kpoints_class.py")],
     ["attributes and derived arrays after every step"],
     [("hs_names, hs_coordinates, hs_labels, path, n", "edited state", "_kpoints_class.py")])
prop("C17", "Kpoints objects and their copies share nothing",
     """Editing one Kpoints object, its copy(), the lists and arrays it was built from, or anything read from it with points(), ticks(), labels or flat_points(), changes no
     other Kpoints object, none of the caller's constructor arguments, no earlier reading and nothing that from_crystal returns later; editing a reading does not change
     the object it was read from.""",
     ["histories"],
     "every interleaving of edits over several objects built from shared arguments, copies and from_crystal results",
     "Tests hold one object at a time.",
     [KP], [("deepcopy in copy(); arrays copied in the constructor", "_kpoints_class.py")],
     ["all other objects and arguments after every edit"])
prop("C18", "In-place atom edits keep the crystal, even when interrupted and repeated",
     """shift_atoms, cure_negative and ensure_000 move atoms only by one common translation (the first two) or by whole lattice vectors (the
     last), reach the position they document, and touch nothing but the positions, in any order and number of repetitions. If one is interrupted
     at any point, repeating it ends in the state an uninterrupted call gives (up to whole lattice vectors).""",
     ["histories", "crash_points", "inputs"],
     "every sequence of in-place edits on every atoms dictionary, with interruptions at every line and retries",
     "Tests apply each function once to well-formed input without interruption.",
     [BM], [("shift_atoms, cure_negative build a new list and assign once; ensure_000 updates component by component", "crystal/_basic_manipulation.py")],
     ["atoms after every step"])
prop("C19", "Figure axes always contain everything that was plotted",
     """After any sequence of plot calls with finite coordinates on any subplots, including refused ones, show() and save() succeed and give every
     subplot axis limits that are finite, increasing and contain every point, line, vector, cell, k-path and atom drawn there. All traces of one plot call share
     one legend group, separate calls without an explicit group do not share theirs, and a call with a legend label shows exactly one legend entry.""",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of plot calls, shifts, scales and subplots, with refused calls and output failures in between",
     "No test touches the plotting engine.",
     [PE], [("_update_range and _update_fig_aspect_range", "_plotly_engine.py")],
     ["figure layout and traces"],
     [("x_range, y_range, z_range", "limits per subplot", "_plotly_engine.py")])
prop("C20", "Any chain of conversions and checkpoints describes the same crystal",
     """Whatever sequence of get_primitive, get_conventional (any convention), in-place atom edits and POSCAR
     dump/load steps a structure goes through, with failed, interrupted and repeated steps or a crash and restart
     from the last dumped file in between, the result describes the same crystal in the same orientation (up to a translation and
     within tolerance): same lattice of equivalent sites, same atoms per volume, same species on the same sites. No step on an intact crystal is refused: get_primitive and get_conventional
     accept every well-formed crystal in every convention (except where rounding to few decimals left it at the tolerance of the symmetry search).""",
     ["histories", "fault_sequences", "crash_points"],
     "every chain of conversions over every structure, with faults and restarts between and inside steps",
     "Tests check single conversions on ideal cells against tabulated numbers; atoms are hardly checked and no conversion output is fed into another.",
     [CV, PR, BM, IO, SG], [("conversion of positions through Cartesian coordinates", "crystal/_conventional.py, crystal/_primitive.py"),
                        ("POSCAR checkpoint", "io/_vasp.py")],
     ["cell and atoms after every step"])

prop("C34", "What is derived from a crystal does not depend on how its description came about",
     """Whatever chain of conversions, changes of basis, orientation or order of atoms, supercells, Niggli reductions, cell parameters round trips, in-place edits
     and checkpoints with restarts a structure went through, with failed and interrupted calls in between, what is derived from it is
     the same: space group, lattice type and variation, extended Bravais symbol, conventional and primitive cell parameters, k-path, names,
     lengths, mutual distances and places (up to symmetry) of the high-symmetry points, ticks and path points of Kpoints, Niggli-reduced parameters, lepage type,
     and the Wigner-Seitz cell and Brillouin zone. Relative and absolute k-points name the same points. (Structures exactly at the boundary
     between two variations, where the conventions leave the choice open, are excepted.)""",
     ["histories", "fault_sequences", "inputs"],
     "every description of every crystal that a history of conversions, changes of basis, edits, faults and restarts arrives at",
     "Tests evaluate each derived quantity for one tabulated description of an ideal lattice; none compares two descriptions of one crystal, and none feeds the output of one call into another.",
     [CV, PR, BM, IO, SG, PP, "src/wulfric/_kpoints_class.py", "src/wulfric/_lepage.py", "src/wulfric/cell/_niggli.py", "src/wulfric/cell/_voronoi.py", "src/wulfric/cell/_basic_manipulation.py"],
     [("absolute coordinates through the primitive reciprocal cell, then relative to the reciprocal cell of the given one", "kpoints/_path_and_points.py"),
      ("choice of the conventional cell", "crystal/_conventional.py"), ("reduction before the search of axes", "_lepage.py"), ("range of lattice points", "cell/_voronoi.py")],
     ["answers along the history"])

prop("C35", "Crystals, results, objects and errors survive the way to another process",
     """Work handed to other processes gives what it gives at home. Whatever pool of workers executes the calls, whichever pickle protocol packs them, and
     whatever happens on the way (replies late, out of order, lost and requested again, delivered twice; workers killed or interrupted in
     the middle and replaced), cells, atoms, symmetry data, Kpoints and figures arrive as they were sent and go on working there and back home, every result equals that of
     the same call in one process, and every error arrives as the same error with its message, arguments and notes. The same holds for copies made with the copy module.""",
     ["histories", "fault_sequences", "inputs", "schedules"],
     "every call and edit, every message between processes and every fault of a worker or of the transport",
     "Tests run everything in one process; no test packs an object, a result or an error of the library.",
     ["src/wulfric/_exceptions.py", SG, "src/wulfric/_kpoints_class.py", "src/wulfric/_plotly_engine.py", "src/wulfric/_syntactic_sugar.py", CV, PR, PP],
     [("constructors of the errors", "_exceptions.py"), ("notes on errors", "_exceptions.py"), ("validation of stored symmetry data", "_spglib_interface.py"),
      ("axis limits and legend groups of a figure", "_plotly_engine.py"), ("attribute access of dictionaries", "_syntactic_sugar.py")],
     ["results and errors at home", "objects after every journey"])

prop("C36", "Every call ends after a bounded number of steps and nothing piles up behind it",
     """Every call of the library ends with a value or an error after a number of steps bounded by the size of its input, whatever it is given (extreme, degenerate,
     not finite or repeated numbers, sheared or flat cells, strange names, tolerances of any sign, damaged or failing files and streams) and whatever fails
     meanwhile (the symmetry backend fails once, several times or for ever; the call before was interrupted). max_iterations and the validity of
     atoms are respected on the way. Repeating calls, refused and failing ones included, on structures that are always new leaves no growing amount of memory, no open file and no thread behind.""",
     ["histories", "fault_sequences", "inputs"],
     "every input and every sequence of backend and stream failures and interrupts; any number of repetitions",
     "Tests call each function on a few healthy inputs and once; none counts steps, repeats a call hundreds of times, or lets the backend fail for ever.",
     ["src/wulfric/cell/_niggli.py", "src/wulfric/_lepage.py", PR, SG, IO, "src/wulfric/_exceptions.py", "src/wulfric/_kpoints_class.py"],
     [("loop of the reduction with max_iterations", "cell/_niggli.py"), ("loop over tolerances", "_lepage.py"), ("loop over equivalent atoms", "crystal/_primitive.py"),
      ("reading of lines", "io/_vasp.py")],
     ["the end of every call", "memory blocks, open files and threads after a third, two thirds and all of the repetitions"])

# ------------------------------------------------------------------ pure functions: not applicable
NA = []


def na(id, title, statement, files, where, reason):
    prop(id, title, statement, ["inputs"], "every valid input of the function",
         "Tests sample a few inputs of a function whose domain is continuous.", files, [(where, files[0])])
    NA.append({"property": id, "reason": reason})


PURE = ("Pure function of its arguments: no schedule, clock, I/O, fault or interleaving takes part in {}, so deterministic "
        "simulation would only be input generation in other words. {}")
na("C21", "Niggli reduction returns the reduced cell of the same lattice",
   "get_niggli returns a cell that spans the same lattice, fulfils the Niggli conditions within tolerance and does not depend on the choice of the input basis.",
   ["src/wulfric/cell/_niggli.py"], "Grosse-Kunstleve algorithm",
   PURE.format("the reduction", "Its independence from history, threads, interruption, backend failure and the choice of basis is decided under C08-C10, C14 and C34."))
na("C22", "Conventional and primitive cells obey the chosen convention",
   "get_conventional and get_primitive return cells that fulfil the defining inequalities, angles and axis order of the HPKOT, SC or spglib convention for the Bravais lattice.",
   [CV, PR], "convention-specific rules",
   PURE.format("the choice of the cell", "That every conversion describes the same crystal along a history of steps and faults is decided under C20."))
na("C23", "Reciprocal cell is dual to the cell and reciprocation is an involution",
   "get_reciprocal(cell) satisfies cell @ rcell.T = 2 pi identity, and applying it twice gives the cell back.",
   ["src/wulfric/cell/_basic_manipulation.py"], "get_reciprocal", PURE.format("the formula", "That reciprocation along a history keeps the crystal is decided under C34."))
na("C24", "Cell parameters and cell matrix convert into each other",
   "get_params(from_params(a,b,c,alpha,beta,gamma)) returns the six parameters for every constructible parallelepiped and impossible angles are refused.",
   ["src/wulfric/cell/_basic_manipulation.py", "src/wulfric/geometry/_geometry.py"], "from_params, get_params", PURE.format("the conversion", "That a round trip along a history keeps the crystal is decided under C34."))
na("C25", "Wigner-Seitz cell has the volume and symmetry of the lattice",
   "The polyhedron returned by get_wigner_seitz_cell is the Voronoi cell of the lattice: right volume, inversion symmetric, bounded by bisectors, for every basis of the lattice.",
   ["src/wulfric/cell/_voronoi.py"], "get_wigner_seitz_cell", PURE.format("the construction", "Behaviour without scipy is decided under C15, independence of the basis under C34."))
na("C26", "High-symmetry points and paths match the published tables",
   "get_path_and_points returns the points and path that HPKOT or SC tabulate for the lattice variation, expressed in the reciprocal basis of the given cell.",
   [PP, "src/wulfric/kpoints/_hpkot_points.py", "src/wulfric/kpoints/_sc_points.py"], "point formulas and default paths", PURE.format("the table look-up", "Stability under reuse, history, threads and change of description is decided under C08, C09, C13 and C34."))
na("C27", "lepage finds the highest-symmetry lattice within the tolerance",
   "lepage returns the Bravais lattice type of highest symmetry compatible with the cell within delta_max and is invariant under change of basis.",
   ["src/wulfric/_lepage.py"], "Le Page algorithm", PURE.format("the algorithm", "That it does not depend on the basis a history arrived at is decided under C34."))
na("C28", "compare_with_tolerance is a consistent ordering",
   "For every pair of numbers exactly one of <, ==, > holds and <=, >=, != are their complements at the same tolerance.",
   ["src/wulfric/_numerical.py"], "compare_with_tolerance", PURE.format("the comparison", ""))
na("C29", "Species deduction and unique names are right for every name",
   "get_atom_species finds the species in every decorated name and get_unique_names returns distinct names in the original order.",
   ["src/wulfric/crystal/_atoms.py"], "string search; index suffixes", PURE.format("the string handling", "Known weak spots (names that collide after suffixing) are recorded in DESIGN.md."))
na("C30", "Validation accepts every valid atoms dictionary and refuses every other",
   "validate_atoms accepts exactly the dictionaries that the documentation calls valid.",
   ["src/wulfric/crystal/_crystal_validation.py"], "validate_atoms", PURE.format("the validation", ""))
na("C31", "Lattice variation and extended Bravais symbol follow the published tables",
   "sc_get_variation and hpkot_get_extended_bl_symbol return the variation whose defining inequalities the conventional cell fulfils.",
   ["src/wulfric/crystal/_sc_variation.py", "src/wulfric/crystal/_hpkot_extended_bl_symbol.py"], "tabulated inequalities", PURE.format("the classification", "That it is the same for every description of a crystal is decided under C34."))
na("C32", "Constant tables are complete and correct",
   "The tables of space groups, Bravais lattices, atomic species, colours, k-paths and transformation matrices cover every case and agree with their published sources.",
   ["src/wulfric/constants"], "literal tables", "Static data: there is nothing to schedule or to fail. That no history of calls modifies the tables is decided under C09 and C10.")
na("C33", "Vector geometry helpers are exact within rounding",
   "get_volume, get_angle, parallelepiped_check and absolute_to_relative agree with their mathematical definitions for every non-degenerate input.",
   ["src/wulfric/geometry/_geometry.py"], "get_volume, get_angle", PURE.format("the formulas", ""))

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
