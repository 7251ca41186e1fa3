#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/mkprops.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], state=state or []))


LIT = ('configurations nested to depth 5 built from None, booleans, integers, floats (inf and nan included), '
       'strings over a hostile alphabet (quotes, backslashes, brackets, commas, blanks, newlines, '
       'unicode), lists, tuples, dicts, sets, frozensets, importable non-numeric classes and nested whats with or without '
       'output names; parameter and what names are ASCII identifiers')

prop('C01', 'Id strings parse back to the configuration that produced them',
     "For every configuration made of literals, collections, importable classes and nested configurations, parsing "
     "its id string gives an equal configuration: same name, same output name, same parameters, each value equal and "
     "of the same type. Regenerating the id from the parsed configuration gives the same string again. For string "
     "values ending in a backslash or containing a backslash right before a quote only the second half is promised.",
     ['inputs'], LIT,
     'test_roundtrips.py and test_parsers.py cover about 25 hand-picked strings; the grammar is recursive and the '
     'escaping, keyword-prefix, blank and empty-value cases only appear in combinations.',
     ['whatami/what.py', 'whatami/parsers.py', 'whatami/plugins.py'],
     [('id generation', 'What.id and the plugins chain'), ('grammar and tree visitor', 'parsers.py build_whatami_parser / WhatamiTreeVisitor')],
     'property-based testing: structured generator + round-trip oracle with shrinking',
     'Random search over generated configurations against a type-exact comparison; no proof of absence.',
     ['What.id()', 'parse_whatid()', 'id2what()'])

prop('C02', 'Id strings have the documented canonical python-like form',
     "The id of a configuration is [out_name=]name(k1=v1,k2=v2,...) with keys in ascending order and no blanks "
     "added, where every value is rendered python-like: literals as in python, strings single-quoted with unescaped "
     "single quotes escaped by one backslash, lists, tuples, dicts, sets and frozensets with python brackets and dict entries and set elements "
     "sorted by their rendered form, nested configurations by their own id. Functions and partials render as name(known parameters), "
     "numeric types as int(), other classes as <class 'fqn'>, and objects whose only representation holds a "
     "memory address as ClassName(). Builtins and properties have no id: asking for it raises.",
     ['inputs'], LIT + '; plus functions, lambdas, partials, whatable objects, objects without representation, '
     'numpy scalars',
     'Ids are promised stable between minor versions (README, Versioning), but tests pin only a few literal strings.',
     ['whatami/what.py', 'whatami/plugins.py'],
     [('rendering', 'What.id, *_plugin functions')],
     'property-based testing: differential against an independent reference renderer',
     'Differential testing against a renderer written from the docs, tests and README; random search.',
     ['What.id()', 'what2id()'])

prop('C03', 'Ids do not depend on build order, object identity or process',
     "Two configurations with the same content have the same id, whatever the order in which parameters, dict "
     "entries or set elements were inserted, whether values are shared or separate objects, and however often the id "
     "is asked for. Another interpreter process with another hash seed computes the same id. Computing an id changes "
     "neither the configuration nor the objects in it.",
     ['inputs', 'configurations', 'histories'], LIT + '; plus objects, functions, partials, numpy arrays, data frames; random '
     'permutations of every insertion order; several PYTHONHASHSEED values and processes',
     'Tests run in one process, with PYTHONHASHSEED=0 here, on collections of at most four elements.',
     ['whatami/what.py', 'whatami/plugins.py', 'whatami/minijoblib/hashing.py'],
     [('sorting of parameters, dict entries and set elements', 'What.id, dict_plugin, set_plugin'),
      ('address free representations', 'anyobject0x_plugin'), ('sorted pickling', 'Hasher._batch_setitems, save_set')],
     'metamorphic property-based testing (permuted rebuilds, multi-process differential)',
     'Random search; processes differ in PYTHONHASHSEED and in build order. PyPy dicts are ordered, so order effects '
     'are provoked by permuted insertion.', ['What.id()'])

prop('C04', 'Different configurations get different ids',
     "Changing exactly one thing in a configuration, at any depth (its name or output name, a parameter name, the "
     "value or type of a parameter, adding, removing or reordering list or tuple elements, adding or removing dict "
     "entries or set elements, nesting), changes its id. Only strings that are the same once backslash-escaped quotes "
     "are unescaped and a dangling final backslash is completed are identified.",
     ['inputs'], LIT + '; every single-edit neighbour drawn at random, and pairs of independent configurations',
     'Tests never compare ids of different configurations systematically; collisions need quoting and nesting '
     'combinations nobody writes by hand.',
     ['whatami/what.py', 'whatami/plugins.py'],
     [('unambiguous rendering and escaping', 'string_plugin, collection plugins, What.id')],
     'metamorphic property-based testing: single-edit mutation must change the id',
     'Random search over configuration and mutation pairs.', ['What.id()'])

prop('C05', 'Non-id keys never influence ids, all other keys do',
     "The default id leaves out exactly the keys declared non-id, whatever their values, at every nesting level "
     "according to each configuration's own declaration. Asking for non-ids too, or str(), adds back exactly the "
     "non-id keys of the top level. This holds for configurations built directly and for whatable classes, "
     "objects and functions declared with non_id_keys.",
     ['inputs', 'configurations'], 'random configurations, random subsets of keys declared non-id at each level '
     '(absent keys too), random replacement values, non-id declarations given as lists, tuples, sets and iterators',
     'Tests cover three fixed configurations with one level of non-id keys.',
     ['whatami/what.py', 'whatami/whatutils.py'],
     [('filtering', 'What.id'), ('declaration', 'whatable, whatareyou, obj2what non_id_keys')],
     'property-based testing: reference renderer plus metamorphic value replacement',
     'Random search.', ['What.id()', 'str(What)', 'whatable()', 'What.keys()'])

prop('C06', 'Length-bounded and positional ids are faithful to the full id',
     "An id asked with maxlength is the full id when this is not longer than maxlength or maxlength is not positive, "
     "and otherwise the hexadecimal sha1 of the utf-8 full id. The positional id holds, in key order, each top-level "
     "id value rendered exactly as in the id and nothing else, under the same name, output name and maxlength rules.",
     ['inputs'], 'random configurations including non-ascii strings; maxlength at every boundary of the id length, 0, '
     'negative and large; non-ids in and out',
     'Tests use maxlength=1 once, and positional ids only of a flat configuration.',
     ['whatami/what.py'], [('trimming', 'What._trim_too_long'), ('positional id', 'What.positional_id')],
     'property-based testing against a direct oracle (hashlib, reference renderer)',
     'Random search, boundary lengths forced.', ['What.id(maxlength)', 'What.positional_id()'])

prop('C07', 'The parser accepts the id language and cleanly rejects everything else',
     "Every string of the id language parses to the configuration it denotes, and blanks around tokens outside "
     "strings do not matter. Any other text is rejected with arpeggio.NoMatch and never silently parsed as something "
     "else: no parameter is dropped, merged or invented. Whatever parses has an id that parses back to an equal configuration. "
     "A class that cannot be found stands as a dictionary with its name.",
     ['inputs'], 'strings generated from the id grammar with random blanks, single and multiple random edits of valid ids '
     '(insert, delete, swap, duplicate, truncate), and random token soup; without repeated parameters or members, unhashable '
     'members or unimportable classes',
     'test_parse_id_wrong tries seven malformed strings and test_parse_id_spaces one spacing.',
     ['whatami/parsers.py'], [('grammar', 'build_whatami_parser'), ('visitor', 'WhatamiTreeVisitor')],
     'grammar-based fuzzing against an independent reference recogniser and parser',
     'Differential with a hand-written recursive-descent parser of the same language; random search. Texts whose '
     'collections would hold unhashable members, repeat a parameter, or name unimportable classes are outside the domain.',
     ['parse_whatid()', 'id2what()'])

prop('C08', 'Parsing keeps no memory of previous parses',
     "The result of parsing a string depends only on that string and on the classes that can be found at the time: any history of earlier successful parses, "
     "rejected strings, wrongly typed inputs, changes to previously returned configurations and custom parsers or visitors leaves later results "
     "unchanged. Each parse returns a fresh configuration sharing no mutable state with earlier results.",
     ['histories'], 'random sequences of good, malformed and wrongly typed inputs, with mutation of the results and custom '
     'parsers in between',
     'test_arpeggio_resilience tries one failing input followed by one good input.',
     ['whatami/parsers.py'], [('parser renewal after TypeError', 'parse_whatid')],
     'stateful property-based testing: histories vs fresh reference parse',
     'Random histories.', ['parse_whatid()'],
     [('default parser and visitor', 'module-level singletons shared by all parses', 'parsers.py')])

prop('C09', 'Flattened keys address exactly the values they come with',
     "flatten() enumerates every id parameter once (non-id keys and collection members included when asked, "
     "nested levels only when recursive), in key order within each configuration and an order that does not depend on how dictionaries were filled, and keys() and values() are its two halves. "
     "Each key it gives retrieves the very value it came with, both with [] and get(). Paths go on through anything with a configuration. Keys that address nothing, whatever is in their way, make [] raise "
     "KeyError and get() return the default.",
     ['inputs', 'configurations'], 'random nested configurations with lists, tuples, dicts (mixed key types), whatables and '
     'nested whats; every combination of the three flags; random missing paths',
     'Tests use a flat three-key configuration and one doctest.',
     ['whatami/what.py'], [('flatten', 'What.flatten'), ('addressing', 'What.__getitem__, What.get')],
     'property-based testing: independent traversal model and addressing round-trip',
     'Random search. Integer indexing into string values is outside the domain.', ['What.flatten()', 'What.keys()', 'What.values()', 'What[...]', 'What.get()'])

prop('C10', 'Equality and copies of configurations are sound, updates do not leak',
     "Configurations are equal exactly when name, output name and parameters are equal, whatever their non-id keys. A copy "
     "is equal with the same id, and setting keys on either one never changes the other; after a deep copy not even "
     "changing nested values does. set() changes only the given key, of the object itself or, with copy=True, only of the "
     "returned copy, and whatadd() returns the ids of the variants without changing its argument.",
     ['inputs', 'histories'], 'random configurations and random sequences of copy, deep copy, set and in-place changes to nested values',
     'test_what_copy only compares three fixed configurations with their copies.',
     ['whatami/what.py', 'whatami/whatutils.py'], [('copy and fluency', 'What.copy, What.set, What.__eq__'), ('variants', 'whatadd')],
     'stateful property-based testing against a plain-dict model',
     'Random histories.', ['What.copy()', 'What.set()', 'What ==', 'whatadd()'])

prop('C11', 'Whatable objects identify by exactly their public state',
     "For a whatable object the configuration holds exactly the instance attributes, set slots and properties "
     "(class members when asked) selected by its flags, inherited ones included, less those starting "
     "with the exclusion prefix, ending with the postfix or explicitly excluded, with their current values under the class name. Empty or None prefixes and postfixes "
     "exclude nothing. State changes show in the next what(), and private state never does.",
     ['inputs', 'programs', 'histories'], 'randomly generated class hierarchies (dict, slots, properties, class members, name collisions), '
     'instances with random state, every flag combination, random state changes between calls',
     'Tests cover one torture hierarchy with fixed names and a handful of classes.',
     ['whatami/what.py', 'whatami/misc.py'], [('introspection', 'config_dict_for_object, _dict, _slotsdict, _propsdict, _classdict'), ('trimming', 'trim_dict'),
                                              ('decorator', 'whatable, whatareyou')],
     'property-based testing over generated classes vs a declarative model',
     'Random programs.', ['whatable()', 'whatareyou()', 'config_dict_for_object()', 'trim_dict()'])

prop('C12', 'The configuration of a callable is what the call would really use',
     "For a function, partial, nested partial or curried function, each parameter in its configuration has the value that calling "
     "it without further binding that parameter would use, and every parameter with a default or bound by name or position "
     "is there (except those whatareyou is told to exclude, by default the private ones). Bindings that could never be called (unknown names, repeated binding, too many positionals), "
     "positional arguments of builtins, classes and methods (whose parameters are not known), and what is not callable are rejected by callable2call with ValueError.",
     ['inputs', 'programs'], 'random signatures of positional-or-keyword parameters with random defaults, random stacks of partial and toolz.curry applications by '
     'position and by name, lambdas, closures, keyword-only parameters; builtins, classes and methods; things that cannot be called',
     'Tests check six fixed partials.',
     ['whatami/misc.py', 'whatami/plugins.py'], [('argument extraction', 'callable2call, curry2partial')],
     'property-based testing over generated functions: differential against really calling them',
     'Random search; values bound to *args and **kwargs are a documented limitation outside the domain.',
     ['callable2call()', 'whatareyou()', 'whatable()', 'what2id()'])

prop('C13', 'whatable decorates functions transparently',
     "Decorating a function or partial gives a callable with the same results, exceptions, name, doc and module as the original, with a "
     "what() describing it, and leaves the original without one; with modify_func_inplace the very same function is returned. "
     "Each what() call gives a fresh configuration reflecting the values at decoration time. A custom whatfunc fully determines what(). "
     "What cannot hold a what() (builtins, values of builtin types, objects refusing attributes) is refused with an exception.",
     ['inputs', 'programs', 'histories'], 'random functions and partials, call arguments and histories of calls, what() requests and changes to their results',
     'Tests decorate a few functions and call them once.',
     ['whatami/what.py'], [('wrapping', 'whatable')],
     'property-based testing: differential between decorated and original over random calls',
     'Random search.', ['whatable()'])

prop('C14', 'All ways of asking for the id of something agree',
     "what2id gives None for None, a string unchanged, and otherwise the id of the object's own what() if it has one, of its id() "
     "method next, and of its inspected configuration last; obj2what, is_whatable, mlexp_info_helper and the id of a nested value are consistent with this, "
     "for instances as for classes. An object already owning a foreign what is never taken for whatable nor "
     "decorated over, unless flagged to be.",
     ['inputs', 'programs'], 'random objects of every kind: whatables, ducks, fakers, objects with id(), functions, classes, whats, literals, function-likes',
     'Tests check one object of each kind at most and not their agreement.',
     ['whatami/whatutils.py', 'whatami/what.py', 'whatami/misc.py'], [('dispatch', 'what2id, obj2what, is_whatable, whatamize_object'), ('experiment info', 'mlexp_info_helper')],
     'property-based testing: dispatch model',
     'Random search.', ['what2id()', 'obj2what()', 'is_whatable()', 'mlexp_info_helper()', 'FunctionLike', 'whatamize_object()'])

prop('C15', 'Plugins form an ordered chain where the first taker decides',
     "The plugin chain behaves like an ordered list without duplicates: insert puts a plugin right before the given one (or last), "
     "drop removes exactly one, reset restores the default chain, any callable can be a plugin, and operations that cannot be done raise ValueError and change nothing. The string of a value is that of the "
     "first plugin in the current chain not returning None, at every nesting level, with no memory of "
     "previous chains.",
     ['histories'], 'random sequences of insert, drop, reset and rendering with random plugins over random values',
     'One doctest exercises a fixed sequence.',
     ['whatami/plugins.py'], [('chain management', 'WhatamiPluginManager')],
     'stateful (model-based) property-based testing against a list model',
     'Random histories.', ['WhatamiPluginManager'], [('current chain', 'class attribute shared by the whole process', 'plugins.py')])

prop('C16', 'Collections of any class keep all their content in their id',
     "The id of a list, tuple, dict, set or frozenset, of instances of their subclasses, and of OrderedDict, defaultdict, Counter and named "
     "tuples determines all their elements: with the order for sequences and OrderedDict, without it for the others. "
     "This holds when the collection is a parameter and when it is asked about directly, and subclasses carry their class name.",
     ['inputs'], 'random collections of each class with random nested elements, single-element edits and permutations',
     'Tests render one example of each class.',
     ['whatami/plugins.py', 'whatami/what.py'], [('collection plugins', 'dict_plugin, set_plugin, list_plugin, tuple_plugin'), ('direct inspection', 'whatareyou')],
     'property-based testing: reference renderer plus edit and permutation relations',
     'Random search.', ['What.id()', 'what2id()', 'whatareyou()'])

prop('C17', 'The nickname registry is always a one-to-one mapping',
     "After any sequence of register, remove and reset, the registry is a one-to-one mapping between ids and nicknames: both lookups are inverse of each other and list() gives all the "
     "pairs sorted. Registering a pair that would break this, removing unknown or mismatched entries, or passing None where a value is needed fails "
     "and changes nothing; registering an existing pair again is harmless. nick_or_id gives the nickname or else the id.",
     ['histories'], 'random operation sequences over a small pool of nicknames and ids, given as strings, whats or whatables',
     'Tests exercise one pair.',
     ['whatami/registry.py'], [('bijection checks', 'WhatamiRegistry.register, remove')],
     'stateful (model-based) property-based testing against two dicts',
     'Random histories.', ['WhatamiRegistry'], [('two dictionaries kept in step', 'id to nick and nick to id', 'registry.py')])

prop('C18', 'Recorder.add is all-or-nothing and never duplicates or changes records',
     "Each record id is unique in a recorder: an add naming an id already present, repeated within the call, with a column clashing with the id column, or "
     "whose postprocessing fails raises and adds no record at all. A successful add appends exactly the returned records in order, "
     "and earlier records keep their content; get, [], len, unique and to_df always agree with the records added so far, in insertion order.",
     ['histories', 'fault_sequences'], 'random sequences of single and batch adds with duplicate ids, clashing columns and postprocessors failing at a random record, '
     'with string and non-string ids, and queries in between',
     'Doctests follow one scripted history.',
     ['whatami/registry.py'], [('deferred commit', 'Recorder.add'), ('queries', 'Recorder.get, unique, to_df')],
     'stateful (model-based) property-based testing with injected postprocessor faults',
     'Random histories against an ordered-dict model.', ['Recorder'], [('records by id', 'insertion ordered mapping', 'registry.py')])

prop('C19', 'Recorded columns resolve by the documented rules for any input',
     "In each record a column takes the value given to add: a non-iterable or a string goes to all records, an iterable is dealt out to ids in "
     "order (None when exhausted) or copied verbatim when unboxing is off, a dict assigns by id and skips absent ids; columns not so "
     "assigned take the recorder's current default, and the id column holds the extracted id. Postprocessors then run in order, recorder ones first "
     "unless overridden. Freezing columns beforehand, by calling add without ids or with padd, gives the same records as passing everything at once.",
     ['inputs', 'configurations'], 'random ids (any string, numbers), columns, values, defaults, default changes, postprocessors and ways of splitting arguments over curried and partial calls',
     'Doctests follow one scripted history with two ids per call.',
     ['whatami/registry.py', 'whatami/misc.py'], [('expansion', 'Recorder._params2dict, _DefaultDict'), ('curried add', 'decorate_some, toolz.curry, padd')],
     'property-based testing: reference model of add, metamorphic splitting of calls',
     'Random search.', ['Recorder.add()', 'Recorder.padd()', 'Recorder subclasses'])

prop('C20', 'match_whatids selects exactly the ids equal up to the ignored keys',
     "An id is selected exactly when it has the template's name and the same set of keys, and the value under every key not ignored (directly or through "
     "a parent key) equals the template's, nested configurations being compared by name, output name and their own keys. "
     "The selection keeps input order and multiplicity, always includes ids equal to the template, and grows monotonically with the ignored keys.",
     ['inputs', 'configurations'], 'random templates and families of near variants; random ignored keys at any depth; collections and recursion flags',
     'One doctest with six ids.',
     ['whatami/whatutils.py'], [('matching', 'match_whatids over What.flatten')],
     'property-based testing: independent structural matcher plus metamorphic laws',
     'Random search.', ['match_whatids()'])

prop('C21', 'Sorting by parameters is an ordered, stable permutation',
     "sort_whats and sort_whatids return the given items reordered so that the tuples of their values for the requested keys never decrease, "
     "ties keeping input order, together with those value tuples aligned item by item. Nothing is lost, duplicated or changed, and the input is left as it was. A key that a configuration lacks is a KeyError.",
     ['inputs'], 'random non-empty lists of whats and ids with many ties, one to three keys, nested keys',
     'Two doctests with five ids without ties.',
     ['whatami/whatutils.py'], [('sorting', 'sort_whats, sort_whatids, whatvalues')],
     'property-based testing: permutation, order and stability predicates',
     'Random search.', ['sort_whats()', 'sort_whatids()', 'whatvalues()'])

prop('C22', 'Columns extracted from ids hold each id\'s own values',
     "whatid2columns adds, for each requested key (by default, every key of any id in the column), one column named after the key with the prefix and postfix whose rows hold the "
     "value of that key in that row's id, or a null when that id lacks it. Columns asked for explicitly come in the order asked for. The rows, index and other columns stay as they were; "
     "with inplace=False the given frame is untouched and otherwise it is the one returned.",
     ['inputs', 'configurations'], 'random data frames (repeated ids, odd indices, extra columns) over heterogeneous ids, random keys including nested and absent ones, random affixes',
     'The only test is skipped with the installed pandas.',
     ['whatami/whatutils.py'], [('extraction', 'whatid2columns')],
     'property-based testing: independent per-row extraction model',
     'Random search.', ['whatid2columns()'])

prop('C23', 'Dictionaries made from configurations mirror them completely',
     "to_dict and id2dict give plain dictionaries with the name, output name and parameters of the configuration, nested configurations in parameters and in "
     "lists, tuples and dict values turned into dictionaries of the same shape. Nothing is lost: the configuration can be rebuilt from them. When all other values are JSON types, "
     "the result survives a JSON round trip; non-id keys appear only when asked for.",
     ['inputs'], LIT, 'test_to_dict uses three fixed fixtures with nested whats only directly as parameters.',
     ['whatami/what.py', 'whatami/whatutils.py'], [('conversion', 'id2dict, What.to_dict')],
     'property-based testing: reference conversion and rebuild round-trip',
     'Random search.', ['What.to_dict()', 'id2dict()'])

prop('C24', 'Old-style ids migrate to the equivalent current id',
     "For every configuration, its old-style id string (Name#k1=v1#k2=v2, nested ones double-quoted, output name as a leading out=) parses with oldid2what to that configuration, "
     "the output name as parameter out, and id2whatami4 gives its current id. Ambiguous output names raise ValueError, and text that is no old-style id "
     "is returned unchanged by id2whatami4.",
     ['inputs'], 'old-style strings generated from random configurations, with random output names and blanks; random non-ids',
     'Doctests cover five strings.',
     ['whatami/whatutils.py', 'whatami/parsers.py'], [('old grammar', 'build_oldwhatami_parser'), ('migration', 'oldid2what, id2whatami4')],
     'property-based testing: differential between old-style rendering and current id',
     'Random search.', ['oldid2what()', 'id2whatami4()'])

prop('C25', 'Array and data frame ids identify content',
     "The id of a numpy array, data frame or series is the same for copies with the same class, dtype, shape, memory layout and values, also in another process, and differs "
     "when any element, the dtype, the shape, the memory order, an index or column label, or the class changes (for masked arrays, also the mask or the fill value). Values used only for the rest of the "
     "configuration, and where the array data lives (owned, view, memory-mapped file read as plain array), play no role.",
     ['inputs', 'configurations'], 'random arrays (0 to 4 dimensions, many dtypes, empty, C, Fortran and strided layouts, object arrays), data frames and series; single-element edits',
     'Hash tests fail or are skipped in this environment, so nothing is tested.',
     ['whatami/minijoblib/hashing.py', 'whatami/plugins.py'], [('hashing', 'hasher, NumpyHasher'), ('plugins', 'numpy_plugin, pandas_plugin')],
     'metamorphic property-based testing: copies keep the id, single edits change it',
     'Random search; masked arrays of objects are outside the domain.', ['What.id()'])

prop('C26', 'Generic content hashes depend on values, not on order or identity',
     "Hashing any mix of literals, strings, bytes, lists, tuples, dicts, sets, classes, functions and arrays gives the same digest for equal values whatever the insertion order of dicts and sets and "
     "whether equal strings are shared, in any process. Changing one value, type or position changes the digest, and md5 and sha1 are honoured. "
     "With coerce_mmap a memory-mapped array hashes like the same array in memory; without it, differently.",
     ['inputs', 'configurations'], 'random nested python values with permuted rebuilds and single edits, including dicts and sets with keys that cannot be compared',
     'Only array hashes are pinned in tests, and they fail here.',
     ['whatami/minijoblib/hashing.py'], [('order independent pickling', 'Hasher._batch_setitems, _ConsistentSet'), ('memo', 'Hasher.memoize')],
     'metamorphic property-based testing: permuted rebuilds and single edits',
     'Random search; sets of sets are outside the domain.', ['whatami.plugins.hasher'])

prop('C27', 'Random generator ids follow the generator state exactly',
     "Two numpy RandomState objects in the same state have the same id, however they got there, and generators in different states "
     "have different ids. Taking the id never advances or alters the generator.",
     ['inputs', 'histories'], 'random seeds and random histories of draws, state copies and pickles',
     'The only test fails in this environment.',
     ['whatami/plugins.py'], [('state rendering', 'rng_plugin')],
     'stateful property-based testing: twin generators',
     'Random histories.', ['What.id()'])

prop('C28', 'Estimator ids track exactly the result-relevant hyperparameters',
     "Once scikit-learn is whatamized every estimator, kernel and splitter, also user-defined subclasses and classes named as one of the library's, has a configuration with its own parameters whose id "
     "parses back, is unchanged by cloning and by any value of parameters declared irrelevant for results (n_jobs, verbose...), "
     "and changes with any other parameter, nested estimators included. Whatamizing again changes nothing. "
     "sklearn_parameters_report lists, sorted, only classes whose parameters are not declared, new subclasses among them.",
     ['inputs', 'configurations'], 'every concrete estimator class importable here, random parameter assignments, random pipelines and unions',
     'Tests check four estimators with fixed parameters.',
     ['whatami/wrappers/what_sklearn.py'], [('monkey patching', 'whatamize_sklearn, _what_for_sklearn'), ('declarations', '_declare_id_nonid_attributes')],
     'property-based testing over estimator classes and parameter assignments: metamorphic relations',
     'Random search; the table of irrelevant parameters is restated independently for common estimators.', ['estimator.what()'])

prop('C29', 'Caller inspection reports the call as it happened',
     "call_dict gives exactly the parameters of the calling function at the requested depth with their current values, keyword arguments flattened in, ignored names left "
     "out and overrides applied last, and refuses varargs unless told to ignore them. call2what gives the name and all the locals of the requested caller, frozen at the time of the call, under its non-id declaration.",
     ['inputs', 'programs'], 'random generated functions, calls, depths, ignores, overrides and local changes before and after the inspection',
     'Doctests cover three functions.',
     ['whatami/misc.py', 'whatami/whatutils.py'], [('frame inspection', 'call_dict, call2what')],
     'property-based testing over generated functions vs a direct model',
     'Random programs.', ['call_dict()', 'call2what()'])

prop('C30', 'Lazy and bulk imports resolve to exactly what is importable',
     "maybe_import gives the first importable variant, and otherwise an object that fails only when used, with an ImportError naming the library and every failed variant; maybe_import_member gives the "
     "member, or None or ImportError as asked. import_submodules gives exactly the importable modules below a package, all levels "
     "or only the first, ignoring or raising on broken ones at any level as asked.",
     ['inputs', 'fault_sequences'], 'random package trees on disk with broken modules at random places; random variant lists of present and absent modules',
     'Tests import one healthy package and a few made-up names.',
     ['whatami/misc.py'], [('import helpers', 'maybe_import, maybe_import_member, import_submodules, fqn')],
     'property-based testing over generated package trees with injected import faults',
     'Random search inside scratch directories.', ['maybe_import()', 'maybe_import_member()', 'import_submodules()', 'fqn()'])

prop('C31', 'Method decoration by metaclass reaches every override, and only them',
     "A class whose metaclass comes from decorate_some has each named method defined in it or in any subclass wrapped by the given decorators in order, once per definition, and no other member "
     "changed. Signature contracts (ensure_has_positional_args, required_args) accept exactly functions whose required positional parameters include the demanded ones, so that a Recorder subclass is accepted exactly when "
     "its add requires ids.",
     ['programs'], 'random class hierarchies with random overrides, random decorators and signatures',
     'Doctests use one base class and one override.',
     ['whatami/misc.py', 'whatami/registry.py'], [('metaclass', 'decorate_some'), ('contracts', 'ensure_has_positional_args, required_args')],
     'property-based testing over generated class hierarchies vs a call-trace model',
     'Random programs.', ['decorate_some()', 'ensure_has_positional_args()', 'Recorder subclasses'])

prop('C32', 'Introspection helpers describe classes, names and signatures as they are',
     "fqn gives the module and qualified name that lead back to a class, function or method (of its class when asked so). init_argspec gives the parameters, "
     "defaults and required parameters (self left out) of the python constructor an instance of the class would use, own or inherited (nothing at all when this cannot be inspected), and getargspec and required_args those of a function. "
     "all_subclasses gives every class below the one given, at any depth and through several bases, including those defined later, and no other. "
     "is_iterable says whether iter() would work, without consuming anything; a closure is unwrapped exactly while it encloses just one function and has a what.",
     ['inputs'], 'generated modules with random class hierarchies, nested classes and signatures; random chains of closures; a collection of odd iterables',
     'The only test of the constructor helper does not pass with this interpreter; the others ask about a couple of classes of the standard library.',
     ['whatami/misc.py'],
     [('names', 'fqn'), ('signatures', 'getargspec, init_argspec, required_args'), ('hierarchies', 'all_subclasses'), ('closures', 'is_closure, extract_decorated_function_from_closure, callable2call')],
     'property-based testing: generated modules compared with the model they were generated from',
     'Random search.', ['fqn()', 'init_argspec()', 'all_subclasses()', 'required_args()', 'callable2call()'])

prop('C33', 'Optional libraries stay optional',
     "numpy, pandas and scikit-learn are optional: where any of them, or all, cannot be imported, whatami is still importable, and everything that does not need an object of theirs works and "
     "gives the same as where they are installed: the ids of configurations, objects and callables, parsing, content hashes, nicknames, recorders, sorting and matching ids. has_numpy and has_pandas tell "
     "which ones are there, and what really needs a missing one (making a data frame out of a recorder) raises an ImportError that names it.",
     ['inputs', 'configurations'], 'every generated configuration, object, text, hashed value or history of a recorder, with every choice of missing libraries',
     'All the tests run where all the libraries are installed.',
     ['whatami/plugins.py', 'whatami/misc.py', 'whatami/minijoblib/hashing.py', 'whatami/registry.py'],
     [('availability', 'has_numpy, has_pandas'), ('plugins of the libraries', 'numpy_plugin, rng_plugin, pandas_plugin'), ('lazy failure', 'maybe_import'), ('choice of hasher', 'hasher')],
     'property-based differential testing: the same generated inputs in processes where imports are made to fail',
     'Random search; a missing library is simulated by an import hook.', ['id()', 'id2what()', 'hasher()', 'Recorder', 'has_numpy()', 'has_pandas()'])

prop('C34', 'Identification and parsing do not depend on what other threads do',
     "Parsing ids (current or old style), making ids of configurations, objects and callables (of the very same ones too), flattening, comparing, hashing, sorting and matching give in each thread what they "
     "give with no other thread at work, however the threads are interleaved, and leave nothing behind that changes later results.",
     ['schedules', 'inputs'], 'every generated set of jobs for two or three threads and every generated schedule of turns between them, line by line',
     'No test starts a thread.',
     ['whatami/parsers.py', 'whatami/whatutils.py', 'whatami/what.py', 'whatami/plugins.py', 'whatami/minijoblib/hashing.py'],
     [('parsers', 'parse_whatid, oldid2what'), ('visitor of the parse tree', 'WhatamiTreeVisitor'), ('ids', 'What.id, WhatamiPluginManager.build_string'), ('hasher', 'hasher')],
     'property-based testing with generated thread schedules under a controlled scheduler, against the sequential results',
     'Random search over schedules; threads are switched between lines of python code of whatami and of its parsing library.', ['id2what()', 'oldid2what()', 'id()', 'what2id()', 'hasher()'])

IMPLEMENTED = None  # None: all


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                       'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, 'props', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                           'thorough_cmd': './check %s --tier thorough' % p['id'],
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    man = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks run the code of /repo in place with /opt/venv (PyPy 3.9); see DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
