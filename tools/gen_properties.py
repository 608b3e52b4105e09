"""Writes /verif/properties.jsonl (the hand-written property list, one JSON object per line)."""
import json, os

P = []
PKG = "graphtransliterator/"


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [PKG + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": PKG + w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Single match returns the most specific applicable rule",
     "At every position of every list of tokens, the single-match query returns a rule whose tokens occur there and whose preceding and following tokens and classes all fit, and no applicable rule there requires more tokens. It returns nothing exactly when no rule applies. Tokens outside the list never count as present.",
     ["configurations", "inputs"],
     "for all rule sets, all token lists bounded by whitespace, all positions between the bounding whitespace tokens",
     "Tests try about a dozen strings on one 13-rule transliterator; the defect needs particular combinations of overlapping rules (a long rule that fails next to a medium one in another branch), which only enumeration of rule sets reaches.",
     ["core.py", "initialize.py"],
     [("match_at, _match_constraints, _match_tokens", "core.py"), ("_graph_from, _cost_of", "initialize.py")],
     ["GraphTransliterator.match_at(i, tokens)", "GraphTransliterator.rules"],
     [("graph", "search tree of rules", "core.py")])

prop("C02", "Match-all returns exactly the applicable rules",
     "Asked for all matches at a position, the transliterator returns the index of every rule whose tokens and context conditions hold there, each exactly once, and no other. The rule that single match returns is always one of them.",
     ["configurations", "inputs"],
     "for all rule sets, all token lists bounded by whitespace, all positions",
     "One test with two rules and one string; duplicates or omissions depend on which rules share prefixes and which contexts fail.",
     ["core.py", "initialize.py"],
     [("match_at(match_all=True)", "core.py"), ("_graph_from ordered_children", "initialize.py")],
     ["GraphTransliterator.match_at(i, tokens, match_all=True)"])

prop("C03", "Transliteration concatenates best matches from left to right",
     "Transliterating a string yields, for the tokens between the bounding whitespace, the productions of the best-matching rule at each successive position, each preceded by its on-match insertion if it has one, and nothing else. After a match the position moves past exactly the tokens the rule consumes, while context tokens are left to be matched again. It always terminates.",
     ["configurations", "inputs"],
     "for all rule sets, on-match rules and input strings",
     "Tests fix a few input/output pairs; cursor and context errors need particular neighbouring rules and positions.",
     ["core.py", "initialize.py"],
     [("transliterate", "core.py"), ("match_at", "core.py")],
     ["GraphTransliterator.transliterate"])

prop("C04", "On-match insertion uses the first fitting on-match rule only",
     "When a rule matches, the output first receives the production of the first on-match rule, in the order given, whose previous classes all fit the tokens immediately before the match and whose next classes all fit the tokens from the match onwards. If none fits, nothing is inserted, and never more than one is inserted per match.",
     ["configurations", "inputs"],
     "for all token class assignments, ordered lists of on-match rules and input strings",
     "Tests use two on-match rules and three strings; order, multi-class contexts, and positions near either end are not varied.",
     ["core.py", "initialize.py"],
     [("on-match block of transliterate", "core.py"), ("_onmatch_rules_lookup", "initialize.py")],
     ["GraphTransliterator.transliterate", "GraphTransliterator.onmatch_rules"],
     [("onmatch_rules_lookup", "current token -> previous token -> candidate on-match rules", "core.py")])

prop("C05", "Tokenization is greedy, longest-first and faithful to the input",
     "Tokenizing an input without consolidation yields the default whitespace token, then at each successive character position the longest defined token that starts there, then the default whitespace token, whatever characters the tokens contain. Joining the inner tokens gives back the input exactly. Input is accepted exactly when every such step finds a token.",
     ["configurations", "inputs"],
     "for all token sets (including prefix-overlapping, multi-character, regex-special and non-BMP tokens) and all input strings",
     "Tests tokenize a handful of ASCII strings; escaping, ordering and position errors depend on which tokens coexist.",
     ["core.py", "initialize.py"],
     [("tokenize", "core.py"), ("_tokenizer_pattern_from", "initialize.py")],
     ["GraphTransliterator.tokenize", "GraphTransliterator.last_input_tokens"])

prop("C06", "Whitespace consolidation normalises whitespace and nothing else",
     "With consolidation on, whitespace tokens at the start and end of the input disappear, every run of two or more whitespace tokens inside becomes one default whitespace token, and all other tokens keep their order. With it off, every whitespace token is kept. Either way the token list starts and ends with the default whitespace token.",
     ["configurations", "inputs"],
     "for all sets of whitespace tokens (one or several, with other classes too) and all input strings",
     "Tests check only a leading and a trailing space with a single whitespace token.",
     ["core.py", "rules.py"],
     [("tokenize", "core.py"), ("WhitespaceRules", "rules.py")],
     ["GraphTransliterator.tokenize", "GraphTransliterator.transliterate"])

prop("C07", "Errors are raised or skipped exactly as configured",
     "Without ignore_errors, transliterating raises UnrecognizableInputTokenException exactly when some character starts no token, else NoMatchingTransliterationRuleException exactly when some reached position has no applicable rule, and otherwise returns. With ignore_errors it never raises and gives the result of dropping just those characters and then skipping just those tokens. Each such problem is logged as a warning, and inputs without problems give the same result under both settings, also when the setting is changed between calls.",
     ["inputs", "configurations", "histories"],
     "for all configurations, input strings and sequences of setting changes",
     "Tests use one bad character and one unmatched token; combinations, positions and switching of the flag are not explored.",
     ["core.py", "exceptions.py"],
     [("tokenize and transliterate error branches", "core.py")],
     ["GraphTransliterator.transliterate", "GraphTransliterator.tokenize", "GraphTransliterator.ignore_errors", "logging"])

prop("C08", "Match details describe exactly the last transliteration",
     "After each transliteration whose input can be tokenized, the reported input tokens, matched rules and matched rule tokens are those of that call alone, in order, and stay so until the next one, whatever else is called or set. When no token was skipped, the matched rule tokens joined together are the input tokens without the initial whitespace, ending at the final whitespace, and the productions appear in that order in the output.",
     ["inputs", "histories"],
     "for all sequences of transliterations, including failing ones, on one transliterator",
     "One test looks at the details after one successful call.",
     ["core.py"],
     [("last_input_tokens, last_matched_rules, last_matched_rule_tokens", "core.py")],
     ["GraphTransliterator.last_input_tokens", "GraphTransliterator.last_matched_rules", "GraphTransliterator.last_matched_rule_tokens"],
     [("_rule_keys/_input_tokens", "details of the last call", "core.py")])

prop("C09", "Results do not depend on earlier calls",
     "Whatever public operations were called before, on it or on other transliterators derived from it or from the same settings, and whether they succeeded or raised, a transliterator answers each transliterate, tokenize, match, dump and prune call just as a freshly built one with the same settings. Only the ignore_errors setter changes later results.",
     ["histories"],
     "for all sequences of public operations up to a bounded length, over a transliterator, its pruned and reloaded copies and its visit-logging variant",
     "Each test uses a fresh object for a short straight-line scenario; interference needs particular sequences.",
     ["core.py", "graphs.py", "schemas.py"],
     [("all public methods of GraphTransliterator and CoverageTransliterator", "core.py")],
     ["return values of the public methods"])

prop("C10", "Concurrent transliterations do not interfere",
     "When several threads transliterate, tokenize or match at the same time using the same transliterator, each call returns the same result, or raises the same exception, as when it runs alone. This holds for every interleaving of the threads.",
     ["schedules"],
     "for all interleavings, at source-line granularity and up to a bounded number of preemptions, of two or three threads on a shared transliterator",
     "No test uses threads; a scratch value kept on the object instead of in a local passes every sequential test.",
     ["core.py"],
     [("transliterate/tokenize/match_at keep working state in locals", "core.py")],
     ["GraphTransliterator.transliterate", "GraphTransliterator.tokenize", "GraphTransliterator.match_at"])

prop("C11", "Dumping and loading loses nothing at any compression level",
     "A transliterator dumped at any compression level, as Python data or as JSON text, and loaded again has the same tokens, classes, rules and rule order, whitespace settings, on-match rules, metadata and ignore_errors setting, and behaves identically on every input. Dumping the loaded copy gives the same dump. Leaving out any of the entries documented as generated on demand changes nothing.",
     ["configurations", "inputs", "histories"],
     "for all configurations, compression levels 0-2, dump/load and dumps/loads, chains of several dump-load steps, subsets of optional entries",
     "Tests compare one configuration's dumps and transliterate the string 'a' after reloading.",
     ["core.py", "compression.py", "schemas.py"],
     [("compress_config, decompress_config", "compression.py"), ("GraphTransliteratorSchema, dump, dumps, load, loads", "core.py"), ("DirectedGraphSchema and friends", "schemas.py")],
     ["GraphTransliterator.dump/dumps/load/loads", "GraphTransliterator.transliterate"])

prop("C12", "Options given when constructing or loading take effect",
     "ignore_errors and check_ambiguity given as keywords to any constructor or loader, including bundled transliterators and their YAML and JSON variants, take effect whatever the serialized form or compression level, and override a dumped ignore_errors value. Without keywords, building from settings checks ambiguity, loading from a dump does not, and errors are not ignored unless the dump says so. A tokenizer pattern, on-match lookup, graph or tokens-by-class mapping given to a constructor, or contained in a dump, is the one used; otherwise it is generated.",
     ["configurations"],
     "for all construction and loading routes, compression levels and combinations of keyword options",
     "Tests pass ignore_errors only to from_yaml and never pass options to load, loads or a bundled JSON transliterator.",
     ["core.py", "compression.py", "transliterators/bundled.py"],
     [("from_dict, from_yaml, load, loads keyword handling", "core.py"), ("GraphTransliteratorSchema pre_load/post_load", "core.py"), ("Bundled._init_from", "transliterators/bundled.py")],
     ["GraphTransliterator.ignore_errors", "AmbiguousTransliterationRulesException at construction"])

prop("C13", "Dumps from later versions are refused, all others accepted",
     "Loading a dump labelled with a version later than the running library raises IncorrectVersionException. Any dump labelled with the same or an earlier version, or with none, loads. Versions are ordered numerically part by part.",
     ["inputs"],
     "for all MAJOR.MINOR.PATCH version labels in a grid around the current version, at every compression level",
     "One test appends a digit to the current version.",
     ["core.py", "exceptions.py"],
     [("GraphTransliteratorSchema.check_version_and_compression", "core.py")],
     ["GraphTransliterator.load/loads"])

prop("C14", "Ambiguity check accepts exactly unambiguous rule sets",
     "With ambiguity checking on, construction raises AmbiguousTransliterationRulesException whenever some token context is matched by two rules of equal cost and by no less costly rule. It succeeds whenever every token context that two rules of equal cost both match is, as a set, wholly matched by one less costly rule, or no such pair exists. Contexts are token sequences wide enough for all the rules compared.",
     ["configurations"],
     "for all rule sets up to a bounded number of rules, tokens, classes and pattern width, against every token window",
     "Tests have two ambiguous rule sets; missed pairs depend on the order and number of equal-cost rules.",
     ["ambiguity.py", "core.py"],
     [("check_for_ambiguity", "ambiguity.py")],
     ["construction with check_ambiguity=True"])

prop("C15", "Easy-reading rules mean what the documentation says",
     "A rule or on-match rule written in the documented easy-reading notation yields the rule with exactly the previous classes, previous tokens, tokens, next tokens, next classes and production written, in that order. Building from YAML text, a YAML file, the loaded dictionary or the equivalent direct settings gives identical transliterators.",
     ["inputs", "configurations"],
     "for all combinations of the five rule parts up to bounded lengths over ordinary and punctuation tokens; all construction routes",
     "Tests include about 20 rule strings and mostly check that they load.",
     ["process.py", "core.py", "schemas.py"],
     [("RULE_RE, ONMATCH_RE and their use", "process.py"), ("from_yaml, from_yaml_file, from_easyreading_dict, from_dict", "core.py")],
     ["GraphTransliterator.rules", "GraphTransliterator.onmatch_rules", "GraphTransliterator.transliterate"])

prop("C16", "Unicode character names in YAML stand for their characters",
     "Every \\N{NAME} in YAML settings, for every official Unicode character name, means the named character, wherever it occurs in tokens, rules and productions. With charname unescaping turned off, the text is left alone.",
     ["inputs"],
     "for all named Unicode characters known to the interpreter",
     "Tests use three names.",
     ["initialize.py", "core.py"],
     [("_unescape_charnames", "initialize.py")],
     ["GraphTransliterator.from_yaml"])

prop("C17", "Malformed settings are rejected, well-formed ones accepted",
     "Settings that lack a required section, have wrongly typed values, mention an undefined token or class in a rule, an on-match rule or the whitespace settings, contain an empty token, a rule with no tokens, an on-match rule with an empty side, or an on-match item that holds not exactly one rule are rejected with a ValidationError before any transliterator exists. Settings without such faults are accepted, with optional sections present or absent.",
     ["configurations"],
     "for all single and double faults applied to every location of valid direct and easy-reading settings",
     "Tests apply about nine faults to one tiny configuration.",
     ["schemas.py", "core.py"],
     [("SettingsSchema, EasyReadingSettingsSchema and nested schemas", "schemas.py")],
     ["GraphTransliterator.from_dict/from_easyreading_dict/from_yaml"])

prop("C18", "Rules are ordered by specificity, whatever the declaration order",
     "Rules of a constructed transliterator are sorted by cost, a cost depends only on the number of tokens the rule requires in all its parts and strictly falls as that number grows, and equal-cost rules keep their declared order. For unambiguous settings, the order in which tokens, classes and rules are declared never affects any transliteration.",
     ["configurations", "inputs"],
     "for all rule shapes up to a bounded size and all permutations of declarations",
     "One test compares the costs of two rules.",
     ["initialize.py", "schemas.py"],
     [("_cost_of, _num_tokens_of", "initialize.py"), ("SettingsSchema.sort_rules_by_cost", "schemas.py")],
     ["GraphTransliterator.rules", "GraphTransliterator.transliterate"])

prop("C19", "Pruning removes exactly the rules with the given productions",
     "Pruning by one production or a list of productions gives a transliterator whose rules are those whose production is not exactly one of the given ones, in the same order, with the same tokens, whitespace, on-match rules, metadata and options, behaving like one built from the remaining rules. The original is unchanged.",
     ["configurations", "inputs", "histories"],
     "for all rule sets over productions that are equal to, prefixes of, or substrings of one another or empty, all prune arguments and chains of prunings",
     "One test prunes single-letter productions.",
     ["core.py"],
     [("pruned_of", "core.py")],
     ["GraphTransliterator.pruned_of"])

prop("C20", "The internal graph is a tree that mirrors the rules",
     "The graph of a transliterator is a tree with one start node, in which each rule is exactly one accepting leaf whose path spells the rule's tokens and whose incoming edge carries exactly the rule's context conditions. Each edge's cost is the lowest rule cost below it, children lists are complete and sorted by cost, and the edge list names each edge once. This also holds for a graph loaded from a dump.",
     ["configurations"],
     "for all rule sets up to a bounded size, freshly built and reloaded at each compression level",
     "Tests check only that node 0 is the start node.",
     ["initialize.py", "graphs.py", "compression.py", "schemas.py"],
     [("_graph_from", "initialize.py"), ("compress_node, decompress_node, edge data", "compression.py"), ("DirectedGraphSchema", "schemas.py")],
     ["GraphTransliterator.graph"])

prop("C21", "A directed graph stays consistent under any edits",
     "After any sequence of adding nodes and edges, valid or not, node indexes are consecutive, the edge mapping holds exactly the accepted edges with their latest data, and the edge list names each of them exactly once. Every invalid edit raises ValueError and changes nothing. Rebuilding a graph from its nodes and edges gives the same edge list.",
     ["histories"],
     "for all sequences of add_node and add_edge calls up to a bounded length, with valid and invalid arguments",
     "One test performs two additions and five invalid calls.",
     ["graphs.py"],
     [("DirectedGraph.add_node, add_edge, __init__", "graphs.py")],
     ["DirectedGraph.node/edge/edge_list"])

prop("C22", "Coverage reports reflect what transliterations actually visited",
     "A coverage check succeeds once every rule has been matched and every on-match rule inserted since creation or the last clear, and fails while some rule or on-match rule has had no input on which it could even be tried. Only transliterating and matching count as visits: dumping, pruning, tokenizing and checking do not, and neither does the use of another transliterator. The non-raising form returns the same verdict, and the error of the raising form names what was missed: the nodes of rules never matched (or the numbers of on-match rules never inserted), and none that were.",
     ["histories", "configurations"],
     "for all sequences of transliterations, clears, checks and other operations up to a bounded length on visit-logging transliterators",
     "One test walks one fixed sequence on the Example transliterator.",
     ["core.py", "graphs.py"],
     [("CoverageTransliterator", "core.py"), ("VisitLoggingList/Dict/DirectedGraph", "graphs.py")],
     ["CoverageTransliterator.check_coverage/check_onmatchrules_coverage/clear_visited"],
     [("visited", "set of visited keys per logging container", "graphs.py")])

prop("C23", "Bundled transliterators agree between YAML and JSON and pass their tests",
     "Every bundled transliterator behaves the same whether built from its YAML source or its JSON dump, with or without coverage logging, and passes its own test file. Running tests succeeds exactly when every listed input transliterates to its listed output.",
     ["inputs", "configurations"],
     "for all bundled transliterators and all token sequences up to a bounded length, and all variations of test tables",
     "Tests run the listed examples on each form separately; they never compare the two forms on other input, and never run a failing table.",
     ["transliterators/bundled.py", "core.py", "compression.py"],
     [("Bundled.from_YAML, from_JSON, new, run_tests, load_yaml_tests", "transliterators/bundled.py")],
     ["Bundled.transliterate", "Bundled.run_tests/run_yaml_tests"])

prop("C24", "The command line gives the library's results",
     "For every transliterator source, the transliterate command prints what the library returns for each input, as a single value for one input and a list otherwise, in the requested format and honouring its options, and fails when the library raises. The dump command prints the library's dump at the requested level. Dump-tests, generate-tests, test and list-bundled likewise print the library's data, and --version the package's version.",
     ["configurations", "inputs"],
     "for all combinations of source format, output format, options, compression level and argument counts over small configurations",
     "Tests run each command once or twice with default options.",
     ["cli.py"],
     [("click commands and load_transliterator", "cli.py")],
     ["stdout and exit status of graphtransliterator.cli.main"])

prop("C25", "Generated tests exercise every rule and record correct output",
     "The generated test table of a transliterator contains, for each rule, an input spelling an instance of its previous classes, previous tokens, tokens, next tokens and next classes in order, and for each on-match rule an input spelling an instance of its previous then next classes. Each recorded output is the transliteration of its input.",
     ["configurations"],
     "for all configurations up to a bounded size with rules and on-match rules of every shape",
     "One test counts the generated entries for the Example transliterator.",
     ["transliterators/bundled.py", "cli.py"],
     [("Bundled.generate_yaml_tests", "transliterators/bundled.py")],
     ["Bundled.generate_yaml_tests", "graphtransliterator generate-tests"])

prop("C26", "Compressed dumps are canonical",
     "Compressed dumps of equal settings are identical text: repeating a dump, reloading and dumping again, and listing the tokens, or the classes of a token, in a different order makes no difference.",
     ["configurations", "histories"],
     "for all permutations of token declarations and of each token's class list over small configurations, at levels 1 and 2",
     "One test repeats the dump of one transliterator, whose tokens have one class each, in one process.",
     ["compression.py", "core.py"],
     [("compress_config ordering of tokens and classes", "compression.py")],
     ["GraphTransliterator.dumps"])

prop("C27", "Transliterators own their settings",
     "Constructing from settings (a dictionary, YAML or a dump) never modifies the settings passed in, and later changes to those settings, or to any dump taken, never alter an existing transliterator's tokens, rules, graph or results.",
     ["histories", "configurations"],
     "for all construction and loading routes and all single in-place modifications of any container in the settings or dump",
     "One test compares a settings object with itself.",
     ["core.py", "schemas.py", "compression.py"],
     [("DirectedGraphSchema.make_graph deep copy", "schemas.py"), ("dump, load", "core.py")],
     ["GraphTransliterator.from_dict/load/dump"])

prop("C28", "Transliterator discovery registers each name once",
     "Loading a folder of bundled transliterators makes each transliterator class it defines available by name and lists it exactly once; private classes and the base class are not listed. A name that is already registered raises ValueError and leaves the existing transliterator in place.",
     ["configurations", "histories"],
     "for all small folder layouts and sequences of loads",
     "One test reloads the bundled folder and expects ValueError.",
     ["transliterators/__init__.py"],
     [("add_transliterators, iter_names, iter_transliterators", "transliterators/__init__.py")],
     ["graphtransliterator.transliterators.iter_names/iter_transliterators/add_transliterators"],
     [("_transliterators, __all__", "registry of names", "transliterators/__init__.py")])

prop("C29", "Regenerating bundled JSON preserves the transliterator",
     "The make-json command rewrites the JSON of exactly the bundled transliterators whose names match, so that the JSON loads to a transliterator identical to the YAML one; a name that matches nothing changes no file. Running it again changes nothing.",
     ["configurations", "histories"],
     "for all name arguments, with and without regex matching, over small sets of bundled transliterators in scratch copies, and repeated runs",
     "One test runs it on Example and only looks at the exit status.",
     ["cli.py", "transliterators/bundled.py"],
     [("make_json", "cli.py")],
     ["files written by graphtransliterator make-json"])

prop("C30", "Ambiguity warnings name exactly the ambiguous pairs",
     "While ambiguity is checked, one warning is logged for every two rules of equal cost that both match some token context matched by no less costly rule, naming both in easy-reading notation and showing the contexts they share. Pairs of different cost, pairs that share no context, and pairs whose shared contexts are wholly matched by one less costly rule are never named. Nothing about ambiguity is logged when checking is off.",
     ["configurations"],
     "for all rule sets of up to four rules over small pools, all shapes of rules, and several ambiguous groups at once",
     "Tests only expect the exception; that the first of several pairs hides the others, or that a pair is described wrongly, shows in no test.",
     ["ambiguity.py"],
     [("check_for_ambiguity", "ambiguity.py"), ("_easyreading_rule", "ambiguity.py")],
     ["warnings logged by GraphTransliterator(...)"])

prop("C31", "Transliterators report the settings they were built from",
     "Whichever constructor or loader made it, a transliterator reports exactly the settings it was given: tokens with their classes, the tokens of each class, rules in order of cost with the documented cost for the number of tokens they require, productions in that order, on-match rules in the order given, whitespace settings, metadata, ignore_errors and the library's version. Its on-match lookup lists, for each token and each token before it, exactly the on-match rules whose first next class and last previous class fit them, in order.",
     ["configurations"],
     "for all small settings (classes of tokens, rules, on-match rules, whitespace, metadata) and all construction, loading and pruning routes",
     "Tests compare a few attributes of one or two transliterators.",
     ["core.py", "initialize.py", "schemas.py"],
     [("properties of GraphTransliterator", "core.py"), ("_tokens_by_class_of, _onmatch_rules_lookup, _cost_of", "initialize.py")],
     ["tokens, tokens_by_class, rules, productions, onmatch_rules, onmatch_rules_lookup, whitespace, metadata, ignore_errors, graphtransliterator_version"])

prop("C32", "Malformed dumps are refused",
     "An uncompressed dump that lacks its tokens, rules or whitespace, has an entry its format does not know, a value of another type, a rule without tokens, an on-match rule with an empty side, or a lookup of on-match rules without any, is refused with a ValidationError. Damaged compressed dumps, and text that is not the JSON of a dump, raise an exception. Well-formed dumps, with or without their optional entries, load.",
     ["configurations"],
     "for every single fault in every part of several dumps, pairs of faults and harmless edits, and JSON text cut short at every character",
     "Tests load a handful of malformed dumps.",
     ["core.py", "schemas.py", "compression.py"],
     [("GraphTransliteratorSchema, load, loads", "core.py"), ("schemas of the parts", "schemas.py"), ("decompress_config", "compression.py")],
     ["GraphTransliterator.load/loads: loaded or exception"])

prop("C33", "Files mean the same in every locale",
     "YAML and JSON files are read and written as UTF-8 whatever the locale, UTF-8 mode or preferred encoding of the process: settings files, bundled transliterators and their tests, and the files that the commands read or make give the same results everywhere.",
     ["configurations"],
     "for every preferred encoding listed, all combinations of locale, UTF-8 mode and locale coercion of new processes, and characters of all scripts in every part of the files",
     "Tests run in one environment, whose preferred encoding is UTF-8.",
     ["core.py", "cli.py", "transliterators/bundled.py"],
     [("from_yaml_file", "core.py"), ("load_transliterator, dump_tests, make_json", "cli.py"), ("_init_from, load_yaml_tests", "transliterators/bundled.py")],
     ["results of all routes that read files; files written by make-json"])

prop("C34", "Every problem is logged once and nothing else is",
     "Transliterating logs one warning for each character that starts no token, naming it and its position, then one for each token position without an applicable rule that it reaches, naming the token's position and the tokens; when errors are not ignored, only the one that raises. A coverage check logs one warning for each unvisited node, edge or on-match rule it finds. Everything else, on settings that are valid and unambiguous, logs no warning.",
     ["configurations", "histories"],
     "for all inputs over small alphabets and incomplete rule sets, under both error settings, and all short sequences of inputs before coverage checks",
     "No test looks at what is logged.",
     ["core.py", "graphs.py"],
     [("tokenize, transliterate", "core.py"), ("check_onmatchrules_coverage", "core.py"), ("check_coverage", "graphs.py")],
     ["warnings logged by transliterate, tokenize, check_coverage and others"])

prop("C35", "Dumping, pruning, loading and building are safe while others run",
     "When several threads dump, prune, load, build, check coverage of, generate tests from, inspect or use transliterators at the same time, whether they share transliterators, settings and dumps or not, each call gives what it gives when it runs alone, and the shared objects are unchanged afterwards. This holds for every interleaving of the threads.",
     ["schedules"],
     "for all interleavings of two threads with one preemption at a source line of the package, over pairs of operations on shared objects",
     "No test starts a thread.",
     ["core.py", "schemas.py", "compression.py", "initialize.py", "ambiguity.py", "graphs.py"],
     [("dump, load, pruned_of, from_dict", "core.py"), ("schemas", "schemas.py"), ("compress_config, decompress_config", "compression.py"), ("check_for_ambiguity", "ambiguity.py")],
     ["results of dump/dumps/load/loads/pruned_of/from_dict/from_easyreading_dict/check_coverage under concurrency"])

prop("C36", "Serializing parts with the public schemas loses nothing",
     "Loading what TransliterationRuleSchema, OnMatchRuleSchema, WhitespaceSettingsSchema or DirectedGraphSchema dumps, as data or as JSON text, singly or in lists, gives an equal rule, on-match rule, whitespace setting or graph, apart from empty node attributes and the order of a graph's edge list; the edge list is sorted when a graph is dumped, so that graphs with the same nodes and edges dump alike in whatever order the edges were added. Dumping and loading never change what is dumped or loaded, and a loaded graph shares nothing with the dumped one. The schemas of settings and transliterators give what the constructors and dump give.",
     ["configurations", "histories"],
     "for all combinations of a rule's parts, all small on-match rules and whitespace settings, all graphs made by short sequences of edits, and small settings",
     "Tests dump the parts of one or two transliterators.",
     ["schemas.py", "core.py", "graphs.py", "rules.py"],
     [("schemas", "schemas.py"), ("GraphTransliteratorSchema", "core.py")],
     ["load/loads/dump/dumps of the public schemas"])

prop("C37", "Metadata of bundled transliterators is validated",
     "transliterators.MetadataSchema loads exactly the metadata it documents: with name, description and version given as text, any set of the optional fields (url, author, author_email, maintainer, maintainer_email, license, keywords, project_urls) with valid values loads and dumps unchanged, and without changing what is given; metadata with a missing name, an unknown field, or a value of the wrong kind (text, web address, e-mail address, list of texts, texts to web addresses) in any field is refused with an error that names exactly the fields at fault. The metadata of every registered bundled transliterator is valid.",
     ["configurations", "inputs"],
     "for all sets of optional fields, all valid values and faults listed, alone and in pairs",
     "Tests load the valid metadata of the bundled transliterators only; no invalid metadata is tried.",
     ["transliterators/schemas.py", "transliterators/__init__.py"],
     [("MetadataSchema", "transliterators/schemas.py")],
     ["MetadataSchema().load/loads/dump", "ValidationError.messages"])
prop("C38", "Copies of transliterators",
     "Copying a transliterator at any point of its use (copy.copy, copy.deepcopy, pickle with protocol 2 or higher, and these repeated) gives a transliterator of the same class that answers every call as the original would at that point, last matched rules, settings and coverage of visited nodes included. After a deep copy or pickle neither side is affected by anything done to the other, parts obtained from its properties included. Rules, on-match rules, whitespace settings and graphs copy and pickle to equal values.",
     ["configurations", "histories"],
     "for all short sequences of public operations before the copy and on either side afterwards, for plain, coverage-checking, loaded and bundled transliterators",
     "Tests never copy or pickle a transliterator.",
     ["core.py", "graphs.py", "rules.py", "transliterators/bundled.py"],
     [("GraphTransliterator", "core.py"), ("CoverageTransliterator", "core.py"), ("VisitLoggingDirectedGraph", "graphs.py"), ("Bundled", "transliterators/bundled.py")],
     ["transliterate, tokenize, match_at, dump, last_*, check_coverage of original and copy"])

prop("C39", "Interrupted calls leave nothing behind",
     "When a call on a transliterator, or one that makes a transliterator, is cut short at any point by an exception such as KeyboardInterrupt or MemoryError, everything it worked on stays as it was: the transliterator and others made from the same parts answer every later call, the interrupted one included, as if it had never been made; settings and dumps passed in are unchanged; transliterators made afterwards are unaffected; and the visits logged by a coverage transliterator are those it had, apart from those an interrupted transliteration made or an interrupted clearing removed. Only what describes the last transliteration is free after an interrupted one.",
     ["crash_points", "configurations"],
     "for every source line of the package and every function return reached by each call listed",
     "Tests never interrupt a call.",
     ["core.py", "graphs.py", "compression.py", "initialize.py", "process.py", "schemas.py", "ambiguity.py", "transliterators/bundled.py"],
     [("GraphTransliterator", "core.py"), ("CoverageTransliterator", "core.py"), ("compress_config", "compression.py"), ("Bundled", "transliterators/bundled.py")],
     ["every public call after one that was interrupted"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
