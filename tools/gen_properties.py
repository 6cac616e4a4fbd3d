#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe or [], hook_needed=None)))


prop("R01", "Ranges behave as convex sets of points",
     """For every ordered endpoint type and all nine open/closed/unbounded forms, membership, emptiness,
     bounds, enclosure, connectedness, intersection, span and spanning-of-many agree with the convex sets
     and boundary positions the ranges denote. Intersection succeeds exactly for connected ranges
     (ValueError otherwise) and yields the greatest commonly enclosed range; span yields the least
     enclosing range. Ranges whose bounds are inverted, or open at both ends of a single point, cannot be
     constructed.""",
     ["inputs"], "all pairs and collections of ranges over any total order of endpoints",
     "The tests sample a few integer ranges; the algebra has 9x9 form combinations times all endpoint orders and types.",
     ["vistautils/range.py"],
     [("cut comparison", "_Cut.compare_to and subclasses"), ("interval algebra", "Range.encloses/is_connected/span/intersection/intersects"),
      ("construction checks", "Range.__attrs_post_init__")],
     ["return values and exceptions of the public range operations"])

prop("R02", "Range sets stay coalesced and independent of insertion history",
     """After any sequence of additions (one at a time, in bulk, from another range set) and clears, a range set consists of exactly
     the maximal, non-empty, pairwise disconnected ranges whose union is the union of everything added since the
     last clear, in ascending order. The result depends only on what was added, never on order, grouping
     or repetition, and empty ranges have no effect. An immutable set built or copied along the way never
     changes when its builder or source is modified later.""",
     ["histories"], "all histories of add, add_all, clear, build/copy over all ranges",
     "Tests add a few hand-picked ranges in one order; coalescing depends on every arrangement of the existing ranges relative to the added one.",
     ["vistautils/range.py"],
     [("coalescing insertion", "_MutableSortedDictRangeSet.add/add_all/clear"), ("snapshotting", "_SortedDictRangeSet.immutable_copy, ImmutableRangeSet.Builder")],
     ["as_ranges(), len(), is_empty(), span after every operation"],
     [dict(name="_ranges_by_lower_bound", meaning="coalesced ranges keyed by lower cut", where="_SortedDictRangeSet")])

prop("R03", "Range-set queries agree with a scan over the member ranges",
     """On any range set, membership, range_containing, range_enclosing_range, encloses, encloses_all, intersects,
     ranges_overlapping, ranges_enclosed_by, nearest range at-or-below / at-or-above a value, and span return exactly what
     a linear scan over the member ranges returns under the documented definition. This holds for query
     values and ranges anywhere relative to the members, including at, just beside and beyond their endpoints, for empty
     and unbounded query ranges, and for empty sets.""",
     ["inputs", "histories"], "all range sets, query values and query ranges",
     "Binary-search boundary cases depend on the relative position of query and members; the tests probe a handful.",
     ["vistautils/range.py"],
     [("binary search helpers", "_value_below/_value_at_or_below/_value_at_or_above"), ("queries", "_SortedDictRangeSet")],
     ["return values of RangeSet queries"])

prop("R04", "Range maps are faithful partial functions from ranges to values",
     """A range map can be built exactly when its distinct key ranges are non-empty and pairwise disconnected; otherwise
     construction fails with ValueError. On a built map, looking up a value, testing membership, the nearest-at-or-below /
     at-or-above lookups and the values of enclosed ranges return the value associated with the key range that the corresponding
     range-set query selects, and nothing when there is none. A builder can be asked for a map at any time and as often as wanted:
     each map has what had been put until then, and keeps it.""",
     ["inputs"], "all finite collections of (range, value) pairs and all query points/ranges",
     "Acceptance depends on every pairwise arrangement of keys; tests cover a few maps.",
     ["vistautils/range.py"],
     [("connectedness rejection", "ImmutableRangeMap.__attrs_post_init__"), ("lookups", "ImmutableRangeMap.__getitem__ etc.")],
     ["construction outcome, lookups, as_dict()"])

prop("R05", "Range objects survive copying and obey the equality/hash contract",
     """Ranges, range sets and range maps that are pickled (under every protocol), copied or deep-copied come back equal to the original, with the same hash, and
     answer every query identically, including unbounded ranges. Two of them are equal exactly when they
     denote the same range, the same set of ranges or the same association, independent of construction
     order, and equal objects have equal hashes.""",
     ["inputs", "histories"], "all ranges, range sets and range maps; all pickle protocols",
     "Tests pickle two bounded samples; equality and hash must agree for every pair of construction histories.",
     ["vistautils/range.py"],
     [("serialisation", "RangeSet.__getstate__/__setstate__, ImmutableRangeMap.__reduce__"), ("equality", "__eq__/__hash__ of Range, RangeSet, RangeMap and cuts")],
     ["results of pickle.loads(pickle.dumps(x)), copy, deepcopy, ==, hash"])

prop("S01", "Span operations agree with the sets of offsets they cover",
     """A span exists only for integer start strictly less than end and covers the offsets from start
     inclusive to end exclusive; containment, precedes/follows, overlap, intersection, clipping, shifting, length, conversion to a
     range and minimal enclosing span agree with those offset sets. Precedes, follows and overlaps are mutually exclusive and
     exhaustive; intersection and clipping give nothing exactly when the spans do not overlap. Sorting by the
     earliest-then-longest key puts earlier starts first and, among equal starts, longer spans first.""",
     ["inputs"], "all pairs and collections of spans over any offsets, including negative ones",
     "Tests sample a few spans; the off-by-one boundaries need every relative placement.",
     ["vistautils/span.py"], [("span algebra", "Span"), ("validation", "Span._validate_start")],
     ["return values of Span methods"])

prop("S02", "Span indexes return exactly the matching items",
     """For every collection of items with spans and every query span, an index returns exactly the items whose span equals,
     overlaps, is contained in, or contains the query span, as a filter over all items would. The disjoint index gives the same answers for
     disjoint items and refuses overlapping ones at construction.""",
     ["inputs"], "all finite item collections and query spans; both index kinds",
     "Answer correctness depends on the placement of the query relative to all items; tests use one small layout.",
     ["vistautils/span.py", "vistautils/range.py"],
     [("overlapping index", "_OverLappingHasSpanIndex"), ("disjoint index", "_DisjointHasSpanIndex over ImmutableRangeMap")],
     ["get_exactly_matching/get_overlapping/get_contained/get_containing"])

prop("A01", "Annotated rendering preserves text and nests tags properly",
     """Rendering text with span annotations inserts, for every annotation (clipped to the rendered window when a window
     is given), exactly one start tag (with its attributes) before its first covered character and one end tag after its last, nothing else, and
     removing the inserted tags gives back exactly the text. Annotations that do not cross are rendered as properly nested tags, also when they begin or end together or cover the same span.
     Annotations wholly outside the window leave no trace, and a window of another length than the text is refused.""",
     ["inputs"], "all texts, annotation collections and windows",
     "Tie-breaking among coincident starts/ends and window clipping has combinatorially many cases; tests render a few.",
     ["vistautils/annotated_text_utils.py", "vistautils/span.py"],
     [("tag ordering", "HTMLStyleAnnotationFormatter._tag_sequence"), ("clipping", "HTMLStyleAnnotationFormatter._clip_to_offsets_and_shift"), ("tags", "to_start_tag/to_end_tag")],
     ["the rendered string"])

prop("P01", "Typed parameter access honours presence, type and default",
     """For each typed accessor, a parameter that is present is returned, unchanged, only if it has the
     accessor's type and satisfies its constraints (choices, range, positivity, enumeration members, nesting), and is rejected with a ParameterError otherwise; an absent parameter makes
     a required access without default fail with a ParameterError, and makes an access with a default return that default (which, given to a required accessor,
     has to satisfy the same demands), and an optional access without default return nothing. Presence tests, dotted paths, sub-namespaces and namespace access agree with the nested structure for every accessor;
     a parameter whose value is null counts as absent for presence tests and optional accesses; and no access changes the parameters.""",
     ["inputs", "configurations"], "all parameter trees, dotted names, accessors and defaults",
     "Tests check some accessors with one or two values each; the accessor x value-type x presence x default product is large.",
     ["vistautils/parameters.py"], [("accessors", "Parameters.string/integer/.../optional_*"), ("path walk", "Parameters.get/__contains__/_private_get")],
     ["return values and exceptions of accessors"])

prop("P02", "Unifying parameters is a right-biased deep merge",
     """Unifying two parameter sets (given as parameters or mappings) yields every entry of both, recursing into
     namespaces present in both, with the new set winning on plain values; it fails exactly when one side has a namespace
     where the other has a plain value. Neither input changes, and unification with an empty set is the identity; unification
     is associative whenever it succeeds; the namespaces of the result, merged or not, still know their full names.
     (Where a null meets another value, nothing is promised.)""",
     ["inputs"], "all pairs and triples of parameter trees",
     "Tests merge a few fixed trees; merge correctness is recursive over arbitrary nestings.",
     ["vistautils/parameters.py"], [("merge", "Parameters.unify")], ["as_nested_dicts() of the result and inputs"])

prop("P03", "Parameters convert losslessly between their representations",
     """Converting nested mappings to parameters and back returns the same nested structure and values; writing parameters as YAML and loading that file
     returns equal parameters, whatever their strings, numbers, booleans, nulls, dates and lists are. The flattened view lists each leaf exactly once under its dotted path (namespaces without leaves drop out), and
     building parameters from those dotted key-value pairs restores the same tree regardless of pair order, also with another separator; for one path, the later pair counts; key sets that use one path both as a leaf and as a namespace
     and empty names are rejected, as are names containing a dot, in nested mappings and (with another separator) in key-value pairs.""",
     ["inputs"], "all parameter trees with scalar and list leaves; all orders of key-value pairs",
     "Tests convert one or two small trees.",
     ["vistautils/parameters.py"],
     [("construction", "Parameters.from_mapping, from_key_value_pairs, load_from_string"), ("flattening", "Parameters.as_nested_dicts, namespaced_items"),
      ("writing", "YAMLParametersWriter")],
     ["round-trip results"])

prop("P04", "Interpolation substitutes every reference or fails",
     """When loading parameters, every well-formed %reference% in a string value is replaced by the value of the named parameter, fully
     resolved through chains of references regardless of definition order; a reference that is the whole string keeps the referenced value's type, an embedded one
     needs a string value and is substituted as text. References resolve to the file's own parameters first, then the supplied
     context, then (when enabled) environment variables; the result is the file's parameters over the context's, and environment variables never appear in it. An
     undefined reference or a reference cycle makes loading fail rather than leave a placeholder or hang. Everything else in a string, and strings within lists, stay
     as they are. (Nothing is promised of references to nulls, or to something within a parameter that is itself a reference.)""",
     ["inputs", "configurations"], "all parameter files with references, contexts and environments",
     "Resolution depends on the shape of the whole reference graph and which source defines each name; tests cover short chains.",
     ["vistautils/parameters.py"],
     [("interpolation", "YAMLParametersLoader._interpolate"), ("reference ordering", "vistautils/_graph.py topological_sort"), ("context merging", "YAMLParametersLoader.load/_validate")],
     ["the loaded tree or the load failure"])

prop("P05", "Included parameter files are merged with the includer winning",
     """Loading a file that includes others gives the deep merge of the included files in listed order overridden by the
     including file's own entries (of which there may be none), over the supplied context, recursively through nested inclusion, with include paths resolved relative to the including
     file's directory (parameters loaded from a string take absolute ones only); the include directive itself never appears in the result. References in a file may use values from
     the files it includes, and from those included before it, which come before environment variables of the same name. A missing or malformed include, an include directive that is not a list (even a single path), files that include each other in a circle, or
     included files that disagree on what is a namespace make loading fail.""",
     ["configurations"], "all include graphs (acyclic), directory layouts and overlapping contents",
     "Tests have one include chain; precedence and relative resolution depend on the whole include graph.",
     ["vistautils/parameters.py"], [("includes", "YAMLParametersLoader.load (_includes handling)"), ("merge", "Parameters.unify")],
     ["the loaded tree or the load failure"])

prop("P06", "File and directory parameters tell the truth about the filesystem",
     """Accessors for existing files or directories return the parameter's path, made absolute and free of links and '..', exactly when it names an existing entry of that kind and
     fail with a ParameterError otherwise; accessors for creatable files ensure the parent directory exists without touching the file itself; accessors for
     creatable or empty directories ensure the directory exists and, for the empty kind, refuse a non-empty one with a ParameterError unless deletion is
     requested, in which case exactly that directory's former contents are removed (links in it are removed, not followed). Nothing outside the named
     path (and its missing parents) is created, changed or deleted; a refused request changes nothing at all; a parameter that is absent or no string is a ParameterError, and optional forms give None and touch nothing when the
     parameter is absent.""",
     ["inputs", "histories", "configurations"], "all filesystem states, path values and accessors",
     "Outcome depends on the combination of accessor, what exists at the path and at its ancestors; tests cover a few combinations.",
     ["vistautils/parameters.py"], [("filesystem accessors", "Parameters.existing_file/creatable_file/creatable_directory/creatable_empty_directory/...")],
     ["returned path, error, and the resulting directory tree"])

prop("P07", "Configured objects are built by the configured factory or default",
     """Building an object from parameters returns a registered special value, or what evaluating the named expression gives, or what exactly one call of exactly one factory makes: a registered special factory,
     otherwise the one named by the namespace, otherwise (only when neither value nor factory is named) the default value or else the default factory; a class is used through its from_parameters, or constructed without arguments if it has none. The factory gets exactly the parameters of the
     namespace (with the namespace's full name as its prefix; an empty one if there is no namespace). Naming both a value and a factory, naming neither without a default, an expression that cannot be evaluated, or a result not of the expected type fails, and no other factory is called. Expressions are evaluated with the given context, the modules
     the namespace imports, and (standing alone as a dotted name) their own modules visible; the context and the parameters stay as they were. Evaluating a parameter follows the same rules for expressions, special values and defaults.""",
     ["inputs", "configurations"], "all combinations of parameter form, special values, defaults and expected types",
     "The decision table has many combinations; tests cover a few.",
     ["vistautils/parameters.py"], [("object construction", "Parameters.object_from_parameters, evaluate")],
     ["which factory was called with which parameters, and the outcome"])

prop("P08", "Command-line parameter overrides win over the parameter file",
     """Running a program through the parameters entry point calls it exactly once, with the parameters of the file named on the command line as they load, or with those the program brings itself (then no file is taken),
     and the command line's -p overrides unified on top: each is a string exactly as given, later ones replace earlier ones, and everything not overridden stays as it was. When the program is called the root logger has the level
     the parameters ask for (INFO by default), and its own failures reach the caller. A malformed command line, an unreadable file, overrides at odds with the file's or each other's namespaces, or an unknown logging level never call the program, and end in an error.""",
     ["configurations"], "all parameter files, override lists and program defaults",
     "Tests run one or two command lines.",
     ["vistautils/parameters_only_entrypoint.py", "vistautils/parameters.py"],
     [("entry point", "parameters_only_entry_point")], ["arguments received by the program, the logging level then, and how the run ended"])

prop("K01", "A zip key-value store returns exactly what was put",
     """After any sequence of write sessions (fresh, appending, with or without overwriting) in any mix of
     successful, rejected and failing puts, and sessions abandoned by an exception, a reader of the archive sees exactly the keys successfully put
     since the file was last truncated, each with the value of its most recent put, character for
     character or byte for byte. Without overwriting, putting an existing key fails and changes nothing; a failed put of any kind leaves the store as
     if it had not been attempted. Lookup of an absent key gives the caller's default or KeyError, and key listing is consistent
     with lookup. A session that has ended and a reader that has been left hold the archive no longer, and an error
     raised by the user's code inside either comes out of it.""",
     ["histories", "inputs"], "all session/put histories, keys and values; string and bytes stores; custom filename functions",
     "Tests write two keys in one or two sessions; duplicates, appends, overwrites and failures interact across sessions.",
     ["vistautils/key_value.py"],
     [("writer", "_ZipKeyValueSink"), ("reader", "_ZipFileKeyValueSource"), ("key listing", "__keys entry")],
     ["keys(), get(), [] of a fresh source after each session"],
     [dict(name="_keys", meaning="keys known to the open writer", where="_ZipKeyValueSink")])

prop("K02", "Directory and doc-map key-value stores return exactly what was put",
     """Everything written through a directory-backed sink is returned, key for key and value for value, by a source
     opened on the directory afterwards or on its document map; putting a key again replaces its value, a failed put leaves every other key as it was, and a
     write session on a non-empty directory is refused. Document-map, parameter-described and in-memory map sources and sinks give the
     same keys and contents as the underlying mapping and the files as they are now; an absent key gives the caller's default or KeyError, and
     errors raised by the user's code inside a session come out of it.""",
     ["histories", "inputs"], "all put histories, keys and contents",
     "Tests write two documents; correctness is over all histories and key spellings.",
     ["vistautils/key_value.py"],
     [("directory sink", "_DirectoryCharKeyValueSink/_DirectoryBytesKeyValueSink"), ("sources", "_PathMappingCharKeyValueSource / doc_id_source_from_params")],
     ["keys(), get(), [] after each session"])

prop("K03", "Linear and interpreted key-value sources preserve items, order and filters",
     """Iterating a tar-backed linear source yields exactly the archive's regular-file members accepted by
     the name filter, in archive order, under the keys the key function gives, with their exact bytes, each time it is
     iterated. An interpreted view applies its function once per requested item, presents the same keys (those the underlying source has when they are asked for), and leaves the underlying source unaffected. A source that has been left
     holds the archive no longer, and errors of the user's own code inside come out.""",
     ["inputs", "histories"], "all archives, filters, key functions and access patterns",
     "Tests iterate one archive once.",
     ["vistautils/key_value.py"],
     [("tar source", "_TarGZipBytesLinearKeyValueSource"), ("interpretation", "KeyValueSource.interpret_values / _InterpretedLinearKeyValueSource")],
     ["items() sequences, get()"])

prop("K04", "Store-to-store scripts move every item exactly once",
     """Splitting a store distributes every item to exactly one output with value unchanged and sizes as
     requested; joining stores yields the union of the inputs' items and refuses conflicting keys; downsampling
     yields the requested number of distinct input items unchanged (all when fewer exist); splitting and downsampling choose the same items when run again
     with the same seed, in any process, while over many seeds every item is chosen by some; directory and archive conversion keep every file's content under
     its key (an archive conversion may be told to leave out files larger than a cutoff, and then leaves out exactly those).
     Requests for no way or two ways to split, for sizes that are no positive integers, for unknown key functions or absent inputs fail, and no script changes its inputs.""",
     ["configurations", "inputs"], "all store contents, split counts/sizes, key lists and seeds",
     "Tests run each script on one tiny store.",
     ["vistautils/scripts/split_key_value_store.py", "vistautils/scripts/join_key_value_stores.py",
      "vistautils/scripts/downsample_key_value_store.py", "vistautils/scripts/directory_to_key_value_store.py",
      "vistautils/scripts/tar_gz_to_zip.py"],
     [("scripts", "main/entry functions of vistautils/scripts")], ["contents of the output stores"])

prop("K05", "Stores described by parameters are the stores described",
     """Of a namespace that describes a key-value source, linear source or sink, of text or bytes: no type means a document map (sources) or directory (sinks), "zip" an archive, "file-map" a document map (for sinks,
     like "directory", a directory), each at the namespace's path; any other type is the name of a class or function, found in the context given and in the modules the namespace imports,
     which is given exactly that namespace (a class without from_parameters nothing) once, and whose result is returned if it can be used as asked. The functions which make stores from parameters can be used as types
     themselves. Whatever cannot be resolved, made or used as asked fails with an error and changes nothing. What a described sink has written is, in any later request, read completely and
     unchanged by sources described alike, as bytes or text. Neither the parameters nor the context are changed, and no request has any effect on what names mean in later ones.""",
     ["inputs", "histories", "configurations"], "all descriptions, contexts and sequences of requests in a process",
     "Tests describe a handful of stores, each in a single request.",
     ["vistautils/key_value.py", "vistautils/parameters.py"],
     [("sources", "char/byte_key_value_(linear_)source_from_params"), ("sinks", "char/byte_key_value_sink_from_params"), ("shortcuts", "from_parameters of the built-in stores")],
     ["stores returned, what they read and write, failures", "calls of factories and what they are given", "parameters, contexts and files afterwards"])

prop("I01", "Text and byte sources and sinks round-trip through every medium",
     """Whatever is written through a character or byte sink to a plain file, string, buffer or zip entry, in one write or several, is read back
     unchanged through the matching source, as is the text of gzip files and tar members, whether read whole, as lines or as a stream, and as often as it
     is read. A later write replaces the content, and neither disturbs other files or entries; a null sink discards everything and an empty source is
     empty; wrapping a byte source through an encoding gives the text which was encoded. Bytes which are no text in the encoding
     are refused when read as text, and text the encoding cannot express is refused when written, never altered or dropped in silence. A file opened for reading or writing is finished with, and everything behind it released, when it is closed, by leaving
     a with block or otherwise. Text media which translate line ends are promised only text without carriage
     returns.""",
     ["inputs", "histories"], "all texts/byte strings, encodings and media",
     "Tests write a line or two per medium.",
     ["vistautils/io_utils.py"], [("sources and sinks", "CharSource/CharSink/ByteSource/ByteSink and implementations")],
     ["read(), readlines(), open() results"])

prop("I02", "Document-map, line-set and helper file formats read back what was written",
     """A doc-id-to-path map written to a sink parses back to the same map, a relative path
     standing for the file it names where the map was written; lines which do not have exactly
     two tab-separated fields make reading fail, fields are stripped of surrounding white space, and the last line for an id wins. Line-set readers give exactly the distinct
     non-empty lines of the file; path-list readers the stripped lines in order except blank ones and # comments; path-map readers the map with
     relative paths resolved as asked, and both log how many entries they loaded under the name they are given, if any. Pickled objects are read back
     as they were pickled. A directory is called empty exactly when it exists, is a directory and has no entries.""",
     ["inputs"], "all id/path maps and line files",
     "Tests read one small file.",
     ["vistautils/io_utils.py"], [("doc id maps", "read_doc_id_to_file_map/write_doc_id_to_file_map"), ("line readers", "file_lines_to_set")],
     ["parsed maps/sets and failures"])

prop("C01", "Checkpoints persist exactly the saved names",
     """For every history of saving, querying and resetting through any number of checkpoint handles on the
     same directory, in any number of processes, a checkpoint is reported present exactly when it was saved after the last reset, by whichever handle;
     asking changes nothing, making another handle changes nothing, and names which are not strings are refused without effect. Checkpoints in other directories are not
     affected, and after a reset the directory is there and can be used again.""",
     ["histories"], "all interleavings of operations over several handles and names",
     "Tests use one handle and two names.",
     ["vistautils/checkpoints.py"], [("checkpoints", "Checkpoints")], ["contains() results and directory contents"])

prop("U01", "Iterator utilities produce the documented sequences lazily",
     """For every finite or unbounded input, windowing yields exactly the consecutive windows (with the trailing partial ones
     only when asked), dropping skips exactly the first n items, filtering drops exactly the None elements, flattening concatenates, and only/get_only return the unique element
     or raise ValueError exactly when there is not exactly one. Window sizes below one and negative counts are refused. Results are the same for lists, one-shot iterators and generators
     and whatever the elements are (falsy, equal to everything, not comparable); results made from a re-iterable can be iterated again; and no more of the
     input is consumed than the requested output needs.""",
     ["inputs"], "all input sequences and sizes; iterables versus iterators",
     "Tests use a few small lists.",
     ["vistautils/iter_utils.py", "vistautils/iterutils.py", "vistautils/collection_utils.py", "vistautils/misc_utils.py"],
     [("windowing", "windowed, tile_with_pairs"), ("dropping", "drop, non_none"), ("uniqueness", "only, collection_utils.get_only"), ("flattening", "misc_utils.flatten_once_to_list")], ["yielded sequences, exceptions"])

prop("G01", "Topological sorting is a valid ordering or reports a cycle",
     """For every finite directed graph, the topological order contains every node exactly once with every
     edge respected when the graph is acyclic, and sorting fails with the documented error exactly when the graph has a cycle (including self-loops), having given only nodes in a valid order before.
     The graph is unchanged by it, its in-degrees and predecessors are those of its edges, and edges between nodes that were not given are refused.""",
     ["inputs"], "all finite directed graphs",
     "Tests sort one small graph.",
     ["vistautils/_graph.py"], [("Kahn/DFS sort", "Digraph.topological_sort, InDegreeView, validate_edges")], ["the produced order or failure"])

prop("V01", "Argument checks let through exactly what they should and refuse the rest",
     """For every argument, the precondition checks pass exactly when their condition holds and fail with the documented kind of error otherwise: ValueError for
     arguments that are null, not null, false or not among the legal values, AssertionError for states, TypeError for what is not an instance or subclass of the given
     class or of any in the given (possibly nested) tuple of classes. Optional checks additionally accept null and nothing else: a falsy value of
     another type is refused. Checks of several arguments hold for all of them. Checks that return their argument return that very object, and the message given,
     with its arguments filled in, is that of the error.""",
     ["inputs"], "all values, class hierarchies (with virtual subclasses), class tuples, collections of legal values and messages",
     "Tests check three calls.",
     ["vistautils/preconditions.py"],
     [("value checks", "check_not_none, check_arg, check_state, check_args_are_none, check_args_not_none"),
      ("type checks", "check_isinstance, check_opt_isinstance, check_all_isinstance, check_issubclass"), ("membership", "check_in")],
     ["returned values, kinds of exceptions and their messages"])

prop("V02", "Attribute declarations validate, convert and never share state",
     """Objects whose attributes are declared with the attribute helpers can be made exactly when the arguments are of the declared types: the optional form also
     takes null and is null by default, a declared default is used when nothing is given, factories and private builders make something new for every object, and
     collection attributes hold an immutable collection with exactly the elements given, an empty one for null or nothing in the optional form. Whatever happens later to an
     argument or to what another object holds, an object does not change; private builders are no constructor arguments. Attributes validated as non-empty refuse empty values.""",
     ["inputs", "histories"], "all sequences of constructions, and of changes to their arguments and to what the objects hold",
     "The helpers have no tests.",
     ["vistautils/attrutils.py"],
     [("type validation", "attrib_instance_of, attrib_opt_instance_of, opt_instance_of"), ("factories", "attrib_factory, attrib_private_immutable_builder"),
      ("conversion", "attrib_immutable, attrib_opt_immutable")],
     ["attribute values of the objects made, and failures to make them"])

prop("M01", "Memory amounts parse to exactly the amount and unit written",
     """A text made of a decimal number of at least one (leading zeros allowed), at most one space, a letter K, M, G or T in either case, and possibly a B in either case is parsed as exactly that
     amount, of whatever size, in kilo-, mega-, giga- or terabytes. Texts that do not begin like that are refused with an error, as are amounts below one, and amounts
     that are not integers. A unit alone is read from exactly the four letters in either case and refused with RuntimeError otherwise. Amounts are equal, with equal hashes, exactly
     when number and unit are, and cannot be changed.""",
     ["inputs"], "all texts and amounts",
     "Tests parse two numbers.",
     ["vistautils/memory_amount.py"], [("parsing", "MemoryAmount.parse, MemoryUnit.parse"), ("validation", "MemoryAmount")],
     ["parsed amounts and units, and failures"])

prop("M02", "Small helpers: shortened lists, names, evaluation with modules, tagged items",
     """A list is written in full when it has no more items than the limit, and otherwise as its first items up to the limit followed by the number of those left out; any
     iterable will do, and negative limits are refused with ValueError. Stripping an extension takes off exactly the last one. Full names of classes (nested ones included), of types of objects
     and of modules are module and qualified name joined by a dot, without the module for built-in types. Evaluating an expression gives its value with
     the names of the context, and the requested modules with their parents, at hand; it fails with an error when a name is not known, a module does not exist or the
     result is not of the expected type, and never changes the context; modules requested for one evaluation are not at hand in others. Items with ids need a non-empty string and an item that is not null, scored items a float and an item
     that is not null; falsy items are items. Paths are given back as they are and strings become paths.""",
     ["inputs"], "all lists and limits, file names, classes, contexts, module lists and expressions",
     "Tests shorten three lists and name four classes.",
     ["vistautils/misc_utils.py", "vistautils/class_utils.py"],
     [("texts", "str_list_limited, strip_extension, pathify"), ("names", "fully_qualified_name, fully_qualified_name_of_type"),
      ("evaluation", "eval_in_context_of_modules"), ("pairs", "WithId, Scored")],
     ["return values and failures"])

prop("L01", "Logging follows the parameters that configured it last",
     """After configuring logging from parameters, the root logger has the level they name (CRITICAL, FATAL, ERROR, WARNING, WARN, INFO or DEBUG; INFO when they name none), or, when they name a
     configuration file, is as that file says, whatever level they name besides. Messages to any logger are then printed on standard output, with their level, their logger's name and their text, exactly when
     they are at that level or above, in every sequence of configurations. An unknown level and a configuration file that does not exist are errors which leave the level, and what is printed, as they were. The parameters themselves are
     logged, at level INFO, exactly when asked for.""",
     ["histories", "configurations"], "all sequences of configurations and messages",
     "Tests configure logging only in passing.",
     ["vistautils/logging_utils.py"], [("configuration", "configure_logging_from, _config_logging_from_params")],
     ["root logger's level and what is printed on standard output"])

prop("T01", "Text printed for offsets is exactly that of the file",
     """For a UTF-8 file and offsets within it (0 <= start < end <= length, counted in characters), the text_at_offsets script prints exactly the characters from start up to but not including end, followed
     by one line end, whatever the characters and line ends of the file are. For other offsets it complains. Files which
     are not UTF-8 are refused, and nothing is printed of them.""",
     ["inputs"], "all files and pairs of offsets",
     "The script has no tests.",
     ["vistautils/scripts/text_at_offsets.py"], [("script", "main")], ["standard output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
