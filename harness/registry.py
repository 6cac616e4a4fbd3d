REGISTRY = {
    "R01": ("checks_ranges", "r01"),
    "R02": ("checks_ranges", "r02"),
    "R03": ("checks_ranges", "r03"),
    "R04": ("checks_ranges", "r04"),
    "R05": ("checks_ranges", "r05"),
    "K01": ("checks_stores", "k01"),
    "K02": ("checks_stores", "k02"),
    "K03": ("checks_stores", "k03"),
    "K04": ("checks_stores", "k04"),
    "K05": ("checks_stores", "k05"),
    "I01": ("checks_io", "i01"),
    "I02": ("checks_io", "i02"),
    "S01": ("checks_spans", "s01"),
    "S02": ("checks_spans", "s02"),
    "A01": ("checks_spans", "a01"),
    "P01": ("checks_params", "p01"),
    "P02": ("checks_params", "p02"),
    "P03": ("checks_params", "p03"),
    "P04": ("checks_params", "p04"),
    "P05": ("checks_params", "p05"),
    "P06": ("checks_params", "p06"),
    "P07": ("checks_params", "p07"),
    "P08": ("checks_params", "p08"),
    "C01": ("checks_small", "c01"),
    "U01": ("checks_small", "u01"),
    "G01": ("checks_small", "g01"),
    "V01": ("checks_misc", "v01"),
    "V02": ("checks_misc", "v02"),
    "M01": ("checks_misc", "m01"),
    "M02": ("checks_misc", "m02"),
    "L01": ("checks_misc", "l01"),
    "T01": ("checks_misc", "t01"),
}

# level notes for MANIFEST.json
NOTES = {
    "R01": "Laws of the cut algebra against point sets checked on every pair and triple of ranges over 3 (thorough 4) "
           "endpoints; every exported call replayed on the code over many endpoint types; random calls over 30 endpoints "
           "judged by TLC. Assumes endpoint orders are total and consistent with equality.",
    "R02": "All point sets over 3 (4) endpoints and every addition to each, plus the code's insertion algorithm as a "
           "refinement; every transition replayed along varied insertion orders; random histories with builders and "
           "snapshots validated step by step by TLC.",
    "R03": "Every query on every range set over 3 (4) endpoints replayed over many endpoint types; random queries on sets of "
           "up to about a dozen members judged by TLC.",
    "R04": "Construction verdict and every lookup for all pair lists up to length 2 and all full arrangements over 3 "
           "endpoints replayed; random maps judged by TLC.",
    "R05": "Random objects copied by copy, deepcopy and every pickle protocol, compared with the original and with other "
           "constructions; equality, hash and query answers judged by TLC. Assumes endpoints and values are hashable and picklable.",
    "K01": "State machine of archive and write session; every history of 6 (7) operations over two keys replayed on real "
           "archives, random histories over many keys, values, filename and key functions validated step by step by TLC.",
    "K02": "State machine of directory, document map and write session; every history of 6 (7) operations over two keys "
           "replayed on real directories and maps of every source and sink type; random histories with external edits "
           "validated step by step by TLC. Keys are plain relative names; values have no carriage return.",
    "K03": "Archive contents, filters and key functions enumerated over small alphabets; random archives, re-iteration and "
           "interpreted views judged by TLC, including how often the interpretation was called.",
    "K04": "Declarative relation between input and output stores model checked for the splitting and joining rules; the real "
           "scripts run on random stores, counts, lists and seeds and every run judged by TLC.",
    "K05": "All histories of two requests (model: three) over two places and the types that are always there, random histories over many types, contexts, imports and "
           "nested descriptions replayed in one process and judged by TLC, each with what the described store then reads or writes.",
    "I01": "All texts up to 4 (5) letters over four letter classes replayed through every medium and way of reading; random "
           "histories of writes and reads over several media validated step by step by TLC.",
    "I02": "File formats as functions on lines, enumerated over small line alphabets; random files and maps parsed by the "
           "code and judged by TLC.",
    "C01": "State machine of checkpoint directories; every history of 5 (6) steps replayed, with every question asked after every "
           "step; random histories over three directories, many handles and other processes validated by TLC.",
    "U01": "A queue machine refines the definitions (with how much input it has taken) for all inputs up to length 4 (6); all cases replayed on "
           "every kind of source; random uses with unending, failing and counted inputs judged by TLC.",
    "G01": "Kahn's algorithm with every choice on every graph of 3 nodes and 4 nodes (without self-loops in quick); every graph of 3 "
           "(4) nodes and random ones of up to 14 sorted by the code and judged by TLC.",
    "P01": "The whole table of values, accessors, constraints and defaults over a small set of values checked for consistency and replayed; random trees "
           "and requests judged by TLC.",
    "P02": "Laws of the merge for all pairs and triples of trees over two names; all of these and random trees of depth 4 unified by the code and judged by TLC.",
    "P03": "Building trees from every list of pairs over small names; random trees with difficult names and values converted there and back and judged by TLC.",
    "P04": "A step-by-step resolver refines the definition for all small files, contexts and environments; all strings of up to 6 (8) characters over %, letters, "
           "dot and space; cases replayed, random files with chains and cycles judged by TLC.",
    "P05": "A step-by-step loader refines the definition for all inclusions among three files; cases replayed, random layouts of directories judged by TLC.",
    "P06": "Laws for every request on every tree of two levels with links, and histories with changes by others; every request replayed on real trees, random "
           "histories with relative paths, links, pipes and deep trees judged by TLC. Runs as an unprivileged user in a scratch directory.",
    "P07": "The whole decision table over a small world of expressions and factories; cases replayed with many kinds of callables, random and nested ones judged by TLC.",
    "P08": "A token-by-token reader of every command line of up to 6 (8) tokens; cases replayed, random files, overrides and logging levels judged by TLC.",
    "S01": "Arithmetic of spans against the sets of offsets for all pairs over 6 (8) offsets and small collections; every result replayed, moved by "
           "offsets up to 10^30; random calls judged by TLC.",
    "S02": "Laws of the answers for all collections of up to 3 items over 4 (5) offsets; every collection and query asked of both index kinds, and random "
           "larger ones, judged by TLC, with equal items among them.",
    "A01": "A tag-by-tag formatter meets the properties for all collections of up to 3 annotations over small texts and windows; all of these and random "
           "larger ones formatted by the code, parsed back into tokens and judged by TLC.",
    "V01": "Every hierarchy of 3 classes, class tuple and value replayed on real hierarchies (with virtual subclasses); random checks over made and built-in "
           "classes, collections and messages judged by TLC.",
    "V02": "Histories of three steps over all kinds of attributes and arguments replayed (a sample of 8000 in quick); random longer ones validated step by step by TLC.",
    "M01": "A reader of one character at a time meets the definition for all texts of up to 4 (6) characters; all replayed, random amounts of up to 30 digits, "
           "constructions and comparisons judged by TLC. Nothing is promised about texts with something behind an amount.",
    "M02": "Lists, names and evaluations over small alphabets, names and packages enumerated and replayed (real packages on disk); random ones judged by TLC.",
    "L01": "Every history of 2 (3) configurations replayed with the messages printed at every level after each; random histories validated step by step by TLC.",
    "T01": "All texts of up to 4 characters and offsets replayed with difficult characters; random texts of up to 5000 characters, in this process and others, judged by TLC.",
}
NOT_APPLICABLE = {}
