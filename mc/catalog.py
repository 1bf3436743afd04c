"""
Property catalogue: the single source for properties.jsonl and MANIFEST.json
(``bin/gen`` writes both).
"""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                  text=" ".join(text.split()), why=" ".join(why.split()), files=["modulegraph2/" + f for f in files],
                  mechanism=mechanism, observe=observe, technique=technique, note=" ".join(note.split()), state=state))


ENUM = "explicit-state bounded model checking of the real code: exhaustive enumeration of "

prop(
    "C01", "Import statements are recorded with their exact context",
    """Every import statement in a source module or script, however deeply nested in other statements and in
    whatever form (import, import as, from-import of modules, submodules and attributes, star import), results in an edge from the
    importing node to every imported module, with exactly the right attributes: is_optional iff
    it is inside a function, an if statement (any branch) or a try statement (any block but finally), is_global iff it is not inside a function, in_fromlist iff the
    module was named in a from-list, imported_as the 'as' name. Repeated imports in different contexts each contribute their own
    attributes, and no other edges appear.""",
    ["programs"], """all nestings of Python 3.12 compound statements around an import statement of every form, and pairs of
    such statements in one module""",
    """The tests contain a few dozen hand written nestings; the contexts compose arbitrarily, and attribute state leaks from one
    block to its siblings only in particular combinations.""",
    ["_ast_tools.py", "_importinfo.py", "_depinfo.py", "_modulegraph.py"],
    [{"name": "AST walk with context stack", "where": "modulegraph2/_ast_tools.py: extract_ast_info"},
     {"name": "edge attributes", "where": "modulegraph2/_depinfo.py: from_importinfo"}],
    ["ModuleGraph.edge_data", "ModuleGraph.outgoing"],
    ENUM + "statement nestings against an independently computed context",
    """All nestings up to the depth bound in the evidence file over every compound statement of Python 3.12 are run through
    add_module/add_script; trusts the reference flags (a 60 line table) and CPython's parser.""",
)
prop(
    "C02", "Byte code only modules give the imports their source would give",
    """For a module of which only the compiled byte code is available the graph contains an edge for every import statement
    that is in the compiled code, to the same modules, with the same from-list and inside-a-function information as
    for the source; code that the compiler dropped may be missing, and the 'as' names and the optional flag are not set. Code size and the
    instruction encoding that the compiler chooses for it (including argument prefixes) have no influence.""",
    ["programs"], "all nestings of compound statements around an import of every form, and module sizes up to and beyond encoding limits",
    """Tests compile a few small modules; the byte code scanner depends on instruction sequences whose shape changes with
    the surrounding code and the number of constants and names.""",
    ["_bytecode_tools.py", "_modulegraph.py", "_graphbuilder.py"],
    [{"name": "instruction scanner", "where": "modulegraph2/_bytecode_tools.py: extract_bytecode_info"}],
    ["ModuleGraph.edge_data"],
    ENUM + "statement nestings and code sizes, compiled with CPython's own compiler, against the source-level reference",
    "Bounds in the evidence file; trusts CPython's compiler to produce the byte code of the running version only.",
)
prop(
    "C03", "The global names a module reads and writes are reported correctly",
    """The globals_written of a module, package or script contain every name that executing its byte code can bind at
    module level (assignments, definitions, imports, global declarations in functions, names bound by star imports and
    from-imports), and globals_read every global name that it looks up outside of class bodies. Names that are only local to functions,
    classes or comprehensions are in neither. This holds for source modules, byte code modules, package __init__ modules and scripts alike.""",
    ["programs"], "all small combinations of binding and reading forms in all scopes, against CPython's symbol tables and execution",
    "Tests check a handful of fixed snippets; the scoping rules interact (global in nested functions, class bodies, comprehensions, del).",
    ["_bytecode_tools.py", "_graphbuilder.py", "_modulegraph.py", "_nodes.py"],
    [{"name": "STORE/LOAD name scan", "where": "modulegraph2/_bytecode_tools.py"},
     {"name": "star import and from import update", "where": "modulegraph2/_modulegraph.py: _process_namelist"}],
    ["Module.globals_written", "Module.globals_read", "Script.globals_written"],
    ENUM + "binding/reading forms in nested scopes against CPython's symtable and the executed module",
    "Bounds in the evidence file; pre-rename names of 'from x import n as m' are tolerated as over-approximation.",
)
prop(
    "C04", "Everything a program imports at run time is reachable in the graph",
    """When a program that only uses import statements is run, every module that gets imported is reachable from the root that
    was added to the graph, as a node that is not missing, excluded or invalid, and a module that cannot be found at run time
    is a MissingModule. All names in statements after a failing import are included as well, also in the presence of import
    cycles, relative imports, re-exports, renames and names that are both attribute and submodule.""",
    ["programs", "inputs"], "all small multi-module projects built from a universe of absolute and relative import statements",
    """Tests run a fixed set of sample packages; what is found depends on how import statements in different modules interact
    (order, cycles, re-exported names), which needs all combinations.""",
    ["_modulegraph.py", "_graphbuilder.py", "_ast_tools.py"],
    [{"name": "work stack and name list processing", "where": "modulegraph2/_modulegraph.py: _process_import, _process_namelist"},
     {"name": "module lookup", "where": "modulegraph2/_modulegraph.py: _find_or_load_module, _load_module"}],
    ["ModuleGraph.iter_graph", "ModuleGraph.find_node"],
    ENUM + "multi-module projects, each one also executed by CPython (run-time oracle for completeness)",
    "All projects in the bound are both run and scanned; trusts CPython's import system as oracle.",
)
prop(
    "C05", "The graph contains no invented modules, edges or missing modules",
    """Every reachable node is named by an import statement of a reachable module (or is a parent package of such a name), has
    the class that belongs to the file that defines it and the filename of that file; MissingModule nodes exist exactly for the names that
    cannot be resolved and are not attributes of the module they are imported from, InvalidRelativeImport nodes exactly for relative imports beyond
    the top-level package. Every edge between reachable nodes corresponds to an import statement or to containment in a package.""",
    ["programs", "inputs"], "all small multi-module projects built from a universe of absolute and relative import statements",
    "Tests compare a few sample graphs; false missing modules and stray edges appear only for particular combinations.",
    ["_modulegraph.py", "_graphbuilder.py"],
    [{"name": "name list processing", "where": "modulegraph2/_modulegraph.py: _process_namelist"},
     {"name": "missing modules", "where": "modulegraph2/_modulegraph.py: _create_missing_module"}],
    ["ModuleGraph.nodes", "ModuleGraph.edges", "ModuleGraph.roots"],
    ENUM + "multi-module projects against an independent static reference (upper bounds on nodes and edges)",
    "All projects in the bound are scanned; trusts the 150 line reference resolver, itself cross-checked with CPython in C04.",
)
prop(
    "C06", "Relative imports resolve as PEP 328 specifies, or are invalid",
    """A relative import in a module, package __init__, or submodule of regular and namespace packages, at any nesting depth and any number of
    dots, leads to the same module that the interpreter would import. When it leads to or beyond the parent of the toplevel package, or is used in a toplevel
    module or in a script (whatever the path of the script looks like), there is exactly one edge, to an InvalidRelativeImport node named by the dots and
    module as written, and no other node. This is the same for source and byte code.""",
    ["programs"], "every importer position in package trees, every level, module part and name list, for source and byte code",
    "Tests use a few sample packages; the level arithmetic differs for packages, namespace packages, modules and scripts.",
    ["_graphbuilder.py", "_modulegraph.py", "_bytecode_tools.py", "_ast_tools.py"],
    [{"name": "relative name resolution", "where": "modulegraph2/_graphbuilder.py: relative_package"},
     {"name": "invalid imports", "where": "modulegraph2/_modulegraph.py: _process_import"}],
    ["ModuleGraph.outgoing", "ModuleGraph.find_node"],
    ENUM + "importer position x level x target, against PEP 328 arithmetic cross-checked with importlib.util.resolve_name",
    "All positions and levels up to the depth in the evidence file.",
)
prop(
    "C07", "A module name resolves to the file the interpreter would use",
    """For every layout of the search path (directories, relative entries, zip files; packages, modules, namespace packages, extension modules, byte code
    and shadowed names) add_module(name) gives a node of the class that matches the kind of file that the interpreter's own import system selects, with that
    filename, name, loader and search path, and MissingModule when it finds none. Built-in, frozen and stdlib modules get
    the matching node class. Modules with invalid syntax are InvalidModule nodes, and packages that raise while importing still resolve, as do their submodules.""",
    ["inputs"], "all combinations of competing files for one name in two search path entries, and all stdlib modules",
    "Tests have one or two examples per file kind; precedence between kinds and entries, and the workarounds for packages that cannot be imported, compose.",
    ["_graphbuilder.py", "_modulegraph.py", "_utilities.py"],
    [{"name": "node construction", "where": "modulegraph2/_graphbuilder.py: node_for_spec"},
     {"name": "module lookup and fake packages", "where": "modulegraph2/_modulegraph.py: _load_module"}],
    ["ModuleGraph.add_module", "BaseNode.filename", "Package.search_path", "BaseNode.loader"],
    ENUM + "search path layouts against importlib's PathFinder",
    "All layouts in the bound; trusts importlib.machinery.PathFinder and the stdlib lists in sys.",
)
prop(
    "C11", "Excludes cut exactly the excluded modules out of the graph",
    """A module named in add_excludes (any iterable of names, before the module is first used) is at most an ExcludedModule node without outgoing edges to its
    dependencies, under every name the module has, and its submodules are not loaded either. Excludes have precedence over implied actions, whatever the order
    they are added in, and everything that can be reached without using the excluded modules is in the graph exactly as
    without the exclude. Excludes of names that are already in the graph change nothing.""",
    ["programs", "configurations"], "all small projects with all exclude sets of one or two modules, and all orders of add_excludes, add_implies, add_module",
    "Tests exclude one or two modules from fixed graphs; interaction with aliases, from-imports, parents and implies is combinatorial.",
    ["_modulegraph.py"],
    [{"name": "lazy nodes", "where": "modulegraph2/_modulegraph.py: add_excludes, _implied_references, _find_or_load_module"}],
    ["ModuleGraph.add_excludes", "ModuleGraph.iter_graph"],
    ENUM + "projects x exclude sets, compared with the reference graph of the same project with those modules cut",
    "All projects and exclude sets in the bound; trusts the reference resolver validated by C04/C05.",
)
prop(
    "C12", "Implied actions have exactly their documented effect",
    """An implied sequence adds edges (and nodes) for the named modules to the node of the key, an Alias or Virtual makes the key an
    AliasNode or VirtualNode with an edge to the other module, and None excludes the key. This holds for every way in which the key enters the graph
    (root, import, from-import, submodule, implied by another key, including cycles), and from-imports of names through (chains of) aliases give the module that the name
    refers to in the actual module. Keys that are not imported have no effect on the graph.""",
    ["programs", "configurations"], "all pairs of implied actions with all targets and import statements",
    "Tests cover one example per kind; chains, cycles and interaction with packages and missing modules are not sampled.",
    ["_modulegraph.py", "_implies.py"],
    [{"name": "implied references", "where": "modulegraph2/_modulegraph.py: _implied_references, _process_namelist"}],
    ["ModuleGraph.add_implies", "ModuleGraph.outgoing"],
    ENUM + "sets of implied actions x import statements against a reference model of the documented effect",
    "All pairs of actions in the bound; triples in the thorough tier.",
)
prop(
    "C13", "Post-processing hooks run once per node, when it is complete",
    """Every node that enters the graph by way of add_script, add_module, code fragments, imports, excludes, implies or hook APIs is passed exactly once to every post processing hook that is registered before, newest hook first,
    after the import statements of the node itself have been processed; the node is then a member of the graph. Dependencies that hooks add with import_module, import_package or add_module are
    completely processed before the outermost add call returns, and they do not disturb anything else that is in the graph.""",
    ["programs", "histories"], "all small projects x every node x every hook action",
    "Tests register one hook on one graph; re-entrancy on the work stack depends on what is pending when the hook runs.",
    ["_modulegraph.py", "_callback_list.py"],
    [{"name": "work stack and seen set", "where": "modulegraph2/_modulegraph.py: _process_import_list, _run_stack, _saved_stack"}],
    ["ModuleGraph.add_post_processing_hook", "call log of the hooks"],
    ENUM + "projects x (node, hook action) with a monitor on the sequence of hook calls",
    "All projects in the bound, with one acting hook; the universes of C06, C11, C15 and C16 with a recording hook.", state=["_work_stack", "_post_processing_seen"],
)
prop(
    "C14", "Missing-module hooks resolve exactly the unresolved names",
    """Missing hooks are called, newest first and until one returns a node, for every name that cannot be found and for no name that
    can be found, with the node that triggered the import (None for roots); at most once per name that a hook resolved. The node that a hook returns takes the place of the missing module
    in the graph with all edges it would have, a MissingModule is created iff all hooks return None, and everything else in the graph is unaffected.""",
    ["programs", "histories"], "all small projects with unresolvable names x all pairs of hook behaviours",
    "Tests use one hook on one missing name; hooks compose with parents, from-lists, and names that are resolved for a package but not its submodules.",
    ["_modulegraph.py", "_callback_list.py"],
    [{"name": "missing modules", "where": "modulegraph2/_modulegraph.py: _create_missing_module, _find_or_load_module"}],
    ["ModuleGraph.add_missing_hook", "call log of the hooks"],
    ENUM + "projects x hook behaviours, with a monitor on hook calls and the reference resolver as oracle",
    "All projects in the bound x all pairs of hook behaviours.",
)
prop(
    "C15", "import_module and import_package add complete dependencies",
    """import_module adds an edge from the given node to the node for the module (loading it as an import statement would), and import_package adds in addition every importable
    module in that package, recursively, whatever kind of file it is (source, byte code, extension), with edges from the packages that contain them and nothing for files that are not importable; for
    names that are missing, are no package or are not in the filesystem it behaves as import_module. When the hook_context that they are used in ends, also by an exception, all modules are completely processed.""",
    ["inputs", "histories"], "all small package contents, and all orders of hook API calls",
    "Tests import one sample package; contents, nesting, state of the package (already in the graph, excluded, broken, aliased) compose.",
    ["_modulegraph.py"],
    [{"name": "package walk", "where": "modulegraph2/_modulegraph.py: import_package, hook_context"}],
    ["ModuleGraph.import_package", "ModuleGraph.hook_context"],
    ENUM + "package contents x graph states, against pkgutil.iter_modules and add_module of every module",
    "All pairs of content kinds in the bound.",
)
prop(
    "C08", "Every sequence of API operations leaves a well formed, complete graph",
    """After every operation of every sequence of add_module, add_script, add_distribution, add_dependencies_for_source, import_module, import_package, add_excludes, add_implies and hook
    registrations the graph is exactly what the operations so far call for: identifiers are unique, nodes and edges are never removed or replaced, the roots are the nodes that were added, every
    submodule has its package with an edge to it, and all imports of all modules have been processed. iter_graph gives exactly the nodes
    that can be reached from the roots, and repeating an add operation changes nothing (a script that is already in the graph gives ValueError).""",
    ["histories"], "all sequences of API operations up to a depth on one program with cycles, packages, missing modules, aliases and distributions",
    "Tests call one or two operations on a new graph; state that earlier operations leave behind (lazy nodes, work stack, seen sets, sys.modules) matters in histories only.",
    ["_modulegraph.py"],
    [{"name": "public operations", "where": "modulegraph2/_modulegraph.py: add_*, import_*"},
     {"name": "work stack", "where": "modulegraph2/_modulegraph.py: _run_stack, _saved_stack"}],
    ["ModuleGraph.nodes", "ModuleGraph.edges", "ModuleGraph.roots", "ModuleGraph.iter_graph"],
    "explicit-state model (set-based transition system) explored over all operation sequences; every transition is replayed on the implementation and the graphs are compared",
    "Every transition of every sequence within the depth is conformance checked.", state=["_work_stack", "_global_lazy_nodes", "_post_processing_seen"],
)
prop(
    "C09", "The graph does not depend on the order of roots, hashing or listings",
    """The nodes, edges, edge attributes, global names and distributions in the graph are the same whatever the order in which roots are added, the hash seed of the process (the iteration order
    of sets of names) and the order of directory listings. The one exception is the set of additional edges to modules that are re-exported by a module that takes part in an import cycle.""",
    ["schedules", "inputs"], "all permutations of roots x all orders of names in from-lists x directory orders, for all small projects and API histories",
    "A test run has one hash seed and one order; results that depend on it pass or fail by accident.",
    ["_modulegraph.py", "_importinfo.py", "_distributions.py"],
    [{"name": "order in which work is processed", "where": "modulegraph2/_modulegraph.py: _process_import, _process_namelist, _find_or_load_module"}],
    ["ModuleGraph.edge_data", "ModuleGraph.nodes"],
    ENUM + "processing orders: root permutations x hash seeds (that realise every order of each name set) x listing orders, in helper processes",
    "All permutations of up to three roots; the hash seeds cover all orders of pairs (triples in the thorough tier) of the names used.",
)
prop(
    "C10", "Operations that fail leave the graph as it was and usable",
    """An operation that fails for a documented reason (script that cannot be opened or is invalid, or is already in the graph, unknown distribution, string as exclude list, invalid source code,
    invalid module name) raises the documented exception and changes nothing in the graph, at any point in any history of operations; an exception
    in the body of a hook_context is propagated after completing the imports that were requested before it. All further operations work as if the failing operation had not been tried.""",
    ["histories", "fault_sequences"], "every failing operation at every position in all sequences of API operations up to a depth",
    "Tests check that an exception is raised on a new graph, not what is left behind.",
    ["_modulegraph.py", "_distributions.py"],
    [{"name": "public operations", "where": "modulegraph2/_modulegraph.py: add_script, add_distribution, add_excludes, hook_context"}],
    ["exceptions of the operations", "ModuleGraph.nodes", "ModuleGraph.edges"],
    ENUM + "fault positions in operation histories, with the transition system of C08 as oracle",
    "All failing operations at all positions within the depth.",
)
prop(
    "C16", "Building the graph completes whatever the modules contain",
    """No file content stops the graph from being built: modules with syntax, encoding or compile errors, source that is too complex, byte code that is corrupt or for another version are
    InvalidModule nodes (for a package: its init_module), modules that the interpreter accepts are not, and everything else that is imported is in the graph.
    The same holds for packages whose code raises an exception or exits when it is run to find a submodule, in directories and zip files alike, and building terminates for every import graph.""",
    ["inputs", "fault_sequences"], "all pairs of (package, submodule) file contents, all things package code may do to the import system, all digraphs of imports up to a size",
    "Tests have a single file with a syntax error; failures at each place where a file is read or imported need each kind of content in each position.",
    ["_graphbuilder.py", "_modulegraph.py", "_utilities.py"],
    [{"name": "loading of modules", "where": "modulegraph2/_graphbuilder.py: node_for_spec"},
     {"name": "fake packages, zip fallback", "where": "modulegraph2/_modulegraph.py: _load_module, modulegraph2/_utilities.py: find_spec"}],
    ["class of the nodes", "ModuleGraph.iter_graph", "exceptions of add_module"],
    ENUM + "file contents x positions x containers x import forms and of all import digraphs, with CPython's compiler as oracle",
    "All combinations within the bound; code of packages that does not terminate or kills the process is out of scope.",
)
prop(
    "C21", "Module graphs in one process do not influence each other",
    """The result of any sequence of operations on a graph is the same whether or not other graphs were created, configured (excludes, implies, hooks, constructor options) or built before, in between
    or afterwards in the same process, and graphs do not share nodes or other mutable data, except for distribution objects.""",
    ["histories"], "all interleavings of two operation histories on two graphs, followed by a third graph",
    "Every test uses a single graph; global state (caches, sys.modules, class attributes) leaks between graphs only in combinations.",
    ["_modulegraph.py", "_distributions.py", "_implies.py", "_utilities.py"],
    [{"name": "module level state", "where": "modulegraph2/_distributions.py: _cached_distributions, sys.modules in modulegraph2/_modulegraph.py: _load_module"}],
    ["ModuleGraph.nodes", "ModuleGraph.edges"],
    ENUM + "interleavings of operation histories on two graphs, each compared with the transition system of C08",
    "All interleavings within the bound, single threaded.",
)
prop(
    "C17", "Distributions own exactly the files and modules in their RECORD",
    """A distribution has exactly the files that its RECORD lists and exactly the import names that the import system can give to those files. Every usable dist-info directory on the search path is found, whatever unusable
    ones are next to it, the first one on the path being used for a name. A node (or a package and its __init__) has the distribution that lists its file, for all kinds of modules and
    forms of path entries, add_distribution adds a root with one edge to each import name, and ModuleGraph.distributions gives the distributions of the nodes in the graph, each one once.""",
    ["inputs", "configurations"], "all short sequences of RECORD line kinds, all kinds of unusable dist-info directories x listing orders, module kinds x path entry forms",
    "Tests look at the one distribution (wheel) that happens to be installed and two that are built on the fly; what pip, uv and friends leave on disk varies much more.",
    ["_distributions.py", "_graphbuilder.py", "_modulegraph.py"],
    [{"name": "reading dist-info", "where": "modulegraph2/_distributions.py: create_distribution, all_distributions"},
     {"name": "owner of a node", "where": "modulegraph2/_graphbuilder.py: node_for_spec"}],
    ["PyPIDistribution", "node.distribution", "ModuleGraph.distributions", "edges of add_distribution"],
    ENUM + "RECORD files, dist-info states, listing orders and path entries, with csv and importlib's suffix rules as oracle",
    "All combinations within the bound.",
)
prop(
    "C18", "has_data_files tells exactly whether a package contains data files",
    """has_data_files of a package is true iff there is a file in the directory of the package or any of its subdirectories that is not a Python module (file name with a suffix of a source, byte code or extension module) and
    not in a __pycache__ or version control directory, whatever else is in the directory, the order in which directories are listed and
    for packages in a directory and in a zip file alike. Directories that cannot be read and (cycles of) symbolic links do not stop the graph from being built.""",
    ["inputs", "configurations"], "all small sets of files and directories in and next to a package x containers x listing orders",
    "Tests have four packages with at most one subdirectory; whether data is seen depends on the other entries and the order of the listing.",
    ["_graphbuilder.py"],
    [{"name": "data file scan", "where": "modulegraph2/_graphbuilder.py: _contains_datafiles"}],
    ["Package.has_data_files"],
    ENUM + "directory trees x containers x listing orders against a set-based definition",
    "All sets of up to three entries (four in the thorough tier) of 37 kinds.",
)
prop(
    "C19", "Reports and exports show exactly the reachable graph",
    """The HTML report, the Graphviz file and ModuleGraph.report contain exactly the nodes that can be reached from the roots (HTML and the report: without distributions) with their class, name and file,
    and exactly the edges between them. They are well formed whatever characters are in the names of files: links lead to the section of the node, names are quoted or escaped. In Graphviz files
    exactly the roots are marked, edges are dashed iff all imports are optional and the nodes are grouped by distribution.""",
    ["histories", "inputs"], "graphs for all short operation histories and for all pairs of odd script names",
    "Tests check the first lines of the output for one small graph.",
    ["_htmlbuilder.py", "_dotbuilder.py", "_modulegraph.py", "__main__.py"],
    [{"name": "exporters", "where": "modulegraph2/_htmlbuilder.py: export_to_html, modulegraph2/_dotbuilder.py: export_to_dot"},
     {"name": "attributes and groups", "where": "modulegraph2/__main__.py: format_node, format_edge, group_nodes"}],
    ["output of print_graph", "output of ModuleGraph.report"],
    ENUM + "graphs (operation histories, odd names); the outputs are parsed by independent HTML and DOT parsers",
    "All histories within the bound; trusts html.parser and a 100 line DOT parser.",
)
prop(
    "C20", "The command line builds and writes the graph that the API gives",
    """For every combination of options the command line writes the output for the graph that the API gives for the same roots, excludes and search path (in the given order, before sys.path), to the file
    that is named or else to standard output. Later options override earlier ones, -x, -p and --exclude-stdlib accumulate. It leaves sys.path and the working directory as they were, also on errors, on which it writes no output and
    has a non-zero exit status, and command lines that are run one after the other do not influence each other.""",
    ["configurations", "histories"], "all option sequences up to a length x names x positions, pairs of command lines, failing command lines",
    "Tests check the parsed arguments of a few command lines, and a run with mocked parts.",
    ["__main__.py", "_utilities.py"],
    [{"name": "command line", "where": "modulegraph2/__main__.py: parse_arguments, make_graph, format_graph"},
     {"name": "search path", "where": "modulegraph2/_utilities.py: saved_sys_path"}],
    ["output", "exit status", "sys.path"],
    ENUM + "command lines, each compared with the API",
    "All sequences of options within the bound.",
)
prop(
    "C22", "Graphs of every shape and chains of any length are handled",
    """ModuleGraph.iter_graph yields exactly the nodes that can be reached from the roots, or from the node it is called for, each one once and after a node that leads to it, for graphs of any shape. Chains of
    imports of any kind (modules, packages, re-exports, star imports, post processing hooks, packages that cannot be imported) are processed, traversed and
    exported whatever their length: the recursion limit of Python is no limit for the graph.""",
    ["inputs", "programs"], "all digraphs up to a size x root sets; all periodic sequences of link kinds in chains much longer than the available stack",
    "The tests' graphs have a depth of at most ten; a recursive step in any of the link kinds or traversals goes unnoticed.",
    ["_modulegraph.py"],
    [{"name": "traversal", "where": "modulegraph2/_modulegraph.py: iter_graph"}, {"name": "work stack", "where": "modulegraph2/_modulegraph.py: _run_stack"}],
    ["ModuleGraph.iter_graph", "ModuleGraph.report", "ModuleGraph.add_module"],
    ENUM + "digraphs and chain patterns, with a fixed point computation as oracle and a bounded stack",
    "All digraphs and patterns within the bound; chains of implied actions are out of scope.",
)
prop(
    "C24", "Code fragments add exactly what a script with that source imports",
    """add_dependencies_for_source adds to the graph exactly what a script with that source would have it contain, without a node for the fragment: whatever the imports (absolute, relative, star imports, names of
    attributes and of submodules, aliases, excluded and missing names) and the blocks they are in. All modules that the fragment imports become roots and nothing else does, and post processing hooks get every new node. Doing it again changes nothing, and invalid source raises an error
    and leaves the graph as it was.""",
    ["programs", "inputs"], "all fragments of one or two import statements x modules with up to two statements x blocks and layouts x configurations",
    "Tests add three fragments without relative imports, aliases, attributes or nested statements.",
    ["_modulegraph.py", "_ast_tools.py"],
    [{"name": "fragments", "where": "modulegraph2/_modulegraph.py: add_dependencies_for_source"}, {"name": "AST scanner", "where": "modulegraph2/_ast_tools.py: extract_ast_info"}],
    ["ModuleGraph.add_dependencies_for_source", "ModuleGraph.roots"],
    ENUM + "fragments and projects, differential against scripts and the static reference of C04/C05",
    "All fragments within the bound.",
)
prop(
    "C25", "Modules that are compiled by mypyc or use SWIG have all their dependencies",
    """Replacing any of the modules of a project by extension modules that mypyc made of them does not change which modules are in the graph and how they depend on each other, apart from the helper modules of the
    distribution, which every compiled module depends on. The extension in the same package that a SWIG wrapper uses by its toplevel name is found, and nothing else changes in the graph. Neither depends on packages that fail
    when they are really imported, invalid sources and the number of modules.""",
    ["programs", "configurations"], "all projects within the bound x selections of compiled modules; places of wrappers x helper functions x contents of packages x import forms",
    "Tests have one compiled and one wrapped module without packages, imports of siblings or invalid sources.",
    ["_mypyc_support.py", "_swig_support.py", "_modulegraph.py"],
    [{"name": "mypyc", "where": "modulegraph2/_mypyc_support.py: mypyc_post_processing_hook"}, {"name": "SWIG", "where": "modulegraph2/_swig_support.py: swig_missing_hook"}],
    ["ModuleGraph.nodes", "ModuleGraph.edges"],
    ENUM + "projects and selections of compiled modules, differential against the graph of the sources",
    "All projects within the bound; extension modules are never loaded.",
)
prop(
    "C26", "Names that importers of six and setuptools provide lead to the real modules",
    """Modules that are imported using the names of six.moves (wherever six is vendored), setuptools.extern, pkg_resources.extern, distutils as replaced by setuptools, and names that packages add to sys.modules are alias
    nodes for the modules that Python really imports for them, with the same dependencies as when these are imported by their own names and subject to the same excludes, implied actions and hooks; attributes in six.moves lead to the modules
    that define them. Explicit namespace packages (pkgutil, pkg_resources) have the search path they have at run time. Names that are not available are missing modules and never abort building the graph.""",
    ["inputs", "configurations"], "all names in six.moves x import forms x places x configurations; contents of vendored libraries x uses; forms of namespace packages; sys.modules aliases",
    "Tests use five names of six.moves with one configuration, and need the network for most of it.",
    ["_graphbuilder.py", "_modulegraph.py"],
    [{"name": "importers", "where": "modulegraph2/_graphbuilder.py: node_for_spec"}, {"name": "aliases", "where": "modulegraph2/_modulegraph.py: _load_module, _process_namelist"}],
    ["ModuleGraph.find_node", "ModuleGraph.edges"],
    ENUM + "names, import forms and configurations, each compared with what Python really imports",
    "All combinations within the bound for six 1.16 and reduced copies of the importers of setuptools.",
)
prop(
    "C27", "Everything that the standard library imports at run time is in the graph",
    """For every module of the standard library the graph of that module contains all modules that Python really loads when it is imported, and when functions of C extensions (and Python modules that use __import__) are called
    that import further modules. This holds whatever other modules of the standard library are in the graph, and in whatever order they were added.""",
    ["programs", "histories"], "all modules of the standard library, and programs that make them import further modules; all pairs and orders of a selection",
    "Tests check for a handful of entries of the table that they have the right type; nothing compares it with what the interpreter does.",
    ["_implies.py", "_modulegraph.py"],
    [{"name": "standard library table", "where": "modulegraph2/_implies.py: STDLIB_IMPLIES"}, {"name": "implied actions", "where": "modulegraph2/_modulegraph.py: _implied_references"}],
    ["ModuleGraph.find_node", "ModuleGraph.nodes"],
    ENUM + "modules and programs, each compared with sys.modules of a real process",
    "All importable modules of the standard library; names computed from data (codecs, dbm back ends by file contents) only in the programs of the check.",
)
prop(
    "C23", "The graph does not depend on how the files of the program are stored",
    """A program gives the same nodes, classes, edges, file names relative to its search path entry, global names, data file flags and (outside zip files) distributions whether its modules are in a
    directory, in (a directory in) a zip file, divided over several search path entries, compiled to byte code next to or instead of the source, or
    reached through symbolic links, relative path entries or unnormalised paths. The encoding, byte order mark, line ends and
    layout of the source files have no influence either; for byte code only the 'as' names are lost.""",
    ["programs", "inputs"], "small multi-module projects, each stored in all of about 45 ways, compared with the graph for a plain directory",
    "Tests look at one or two zip and byte code files; every way to store a file takes other code paths in loaders, which matter for each kind of module and import.",
    ["_graphbuilder.py", "_utilities.py", "_modulegraph.py", "_bytecode_tools.py", "_nodes.py"],
    [{"name": "reading modules through loaders", "where": "modulegraph2/_graphbuilder.py: node_for_spec"},
     {"name": "zip files", "where": "modulegraph2/_utilities.py: find_spec, get_source"}],
    ["ModuleGraph.nodes", "ModuleGraph.edges", "Module.filename", "Package.search_path"],
    ENUM + "projects and ways to store them, all compared with the graph of the plain directory",
    "Bounds in the evidence file; module level statements only (nested ones are in C02), the directory is the reference.",
)
prop(
    "C28", "The graph does not depend on the state of the process that builds it",
    """The graph of a program is the same whether or not the process has imported modules of the program or of the standard
    library before (from the same search path, also when some of them were removed from sys.modules again) or between operations on the graph, and whatever the
    current directory, the warning filters and the byte code caches are. Warnings for the source or code of a module, even if Python was
    told to raise them as errors, change nothing in the graph, and building a graph does not change the warning filters.""",
    ["histories", "programs"], "small projects, odd modules, six.moves and the standard library x all sets of modules imported before from a small family x process states",
    "Tests build graphs in one fixed state of the process; the code reads sys.modules, and which module was really imported before is up to the tool that uses the library.",
    ["_modulegraph.py", "_graphbuilder.py", "_utilities.py", "_mypyc_support.py"],
    [{"name": "module lookup in sys.modules", "where": "modulegraph2/_modulegraph.py: _load_module"},
     {"name": "compiling source", "where": "modulegraph2/_graphbuilder.py: node_for_spec"}],
    ["ModuleGraph.nodes", "ModuleGraph.edges", "warnings.filters"],
    ENUM + "process states (imported modules, warning filters, directories) and programs, compared with a fresh process state",
    "Bounds in the evidence file; modules that replace other modules in sys.modules, or importers, when they are imported are excluded.",
)
P.sort(key=lambda p: p["id"])
