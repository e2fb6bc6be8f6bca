"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe),
            hook_needed=None,
        ),
    )  # fmt: skip


D, L, B, N, O, U, BA, IM = (
    "omegaconf/dictconfig.py",
    "omegaconf/listconfig.py",
    "omegaconf/basecontainer.py",
    "omegaconf/nodes.py",
    "omegaconf/omegaconf.py",
    "omegaconf/_utils.py",
    "omegaconf/base.py",
    "omegaconf/_impl.py",
)
GP, GV = "omegaconf/grammar_parser.py", "omegaconf/grammar_visitor.py"
GL = "omegaconf/grammar/OmegaConfGrammarLexer.g4"
GG = "omegaconf/grammar/OmegaConfGrammarParser.g4"
RS = "omegaconf/resolvers/oc/__init__.py"

PROPS = [
    P(
        "C01",
        "Untyped configs behave like the plain dict or list they were built from",
        "For every sequence of dict and list operations on a config without types or flags (get, set, attribute access,"
        " delete, pop, setdefault, update, clear, slicing, slice assignment, insert, append, extend, remove, index,"
        " count, sort, reverse, concatenation, iteration, membership, equality, copy), results, content, key order and"
        " the kind of error (KeyError, AttributeError, IndexError, ValueError) are those of a plain Python dict or list"
        " holding the same values. Values keep their exact Python types, keys of every supported type included.",
        ["histories", "inputs"],
        "every finite history of container operations, every nesting and every supported key and value",
        "The tests call each operation on one or two small literals; index and slice arithmetic, ordering and nested"
        " aliasing only go wrong in combinations of operations and argument values the tests never form.",
        [D, L, B],
        [("dict operations", D), ("list operations, slices, key renumbering", L), ("assignment", B + ":_set_item_impl")],
        [("content", "the child nodes of a container", D)],
        ["return values and exceptions of public container methods", "OmegaConf.to_container"],
    ),
    P(
        "C02",
        "A rejected single change leaves the whole config untouched",
        "Whenever one assignment, deletion, pop, append, insert, slice assignment, sort, clear, or update of an"
        " existing container's key raises an exception, for whatever reason (wrong type, read-only, struct, missing key,"
        " unsupported value, malformed interpolation), every value, key, type, optionality and flag of the whole config"
        " is the same as before the call.",
        ["inputs", "histories", "configurations"],
        "every config state, every single mutation and every invalid argument",
        "The tests check that an exception is raised; very few look at the state afterwards, and none does so over"
        " nested values, typed containers and flags in combination.",
        [D, L, B, N, BA],
        [("rollback of container values", D + ":_set_value"), ("place holder removal", L + ":append, insert"),
         ("validation before assignment", B + ":_set_item_impl")],
        observe=["structural snapshot before and after"],
    ),
    P(
        "C03",
        "Parents, keys and full keys always match where a node really is",
        "After any history of successful operations and of rejected single changes (creation, assignment, list editing,"
        " merging, updating, copying, pickling, resolving), every node of a config reports the container that really"
        " holds it as its parent and the key or index under which it is held as its key. No node is held in two places,"
        " and the full key that a node reports selects exactly that node from the root.",
        ["histories", "inputs"],
        "every history of public operations on every config",
        "The tests validate a few single operations; stale indices and parents come from sequences (insert, negative"
        " index, sort, slice assignment, merge) whose damage shows only in a later relative interpolation or message.",
        [L, D, B, BA],
        [("reparenting", BA + ":_re_parent"), ("renumbering", L + ":_update_keys"), ("full key", B + ":_get_full_key")],
        [("parent and key", "position of a node", BA)],
        ["tree walk", "OmegaConf.select"],
    ),
    P(
        "C04",
        "Configs never share mutable state with other configs or with inputs",
        "Creating a config from Python objects or from another config, assigning or inserting a config or container,"
        " copying, deep-copying, pickling and merging never leave two configs (or a config and a plain input) sharing"
        " state: a later change, flag change or resolver-cache entry on one side is never visible on the other. The"
        " inputs of these operations are left exactly as they were.",
        ["histories", "inputs"],
        "every config, every such operation and every later mutation on either side",
        "Tests compare values right after an operation; sharing is invisible until a later mutation of the right node.",
        [B, D, L, O, BA, N],
        [("deep copy on assignment", B + ":_set_item_impl"), ("deep copies", D + ", " + L + ":__deepcopy__"),
         ("merge works on a copy", O + ":merge")],
        observe=["identity of nodes", "snapshots of both sides around mutations of either"],
    ),
    P(
        "C05",
        "Merging equals the documented recursive merge, left to right",
        "Merging any sequence of untyped configs and plain containers (read from YAML text or built in Python) equals a left fold of the two-argument"
        " merge: dicts merge key by key keeping the existing order with new keys appended, other values are replaced by"
        " the right side, a missing right side keeps the left value, and lists are replaced, extended or extended with"
        " unseen items according to the mode. Merging in place, merging into a new config and the unsafe merge give the"
        " same result, and merging a config with itself changes nothing when lists are replaced.",
        ["inputs", "histories"],
        "every sequence of mergeable inputs and every list merge mode",
        "The tests hold a table of about a hundred two- and three-input merges; the interplay of missing values, None,"
        " interpolations, list modes and depth is sampled at a few points only.",
        [B, O],
        [("dict merge", B + ":_map_merge"), ("list merge", B + ":_list_merge"), ("entry points", O + ":merge")],
        observe=["content of the merge result, compared with a reference merge"],
    ),
    P(
        "C06",
        "Nothing that succeeds ever puts an ill-typed value into a typed config",
        "However a typed config (structured config, typed dict or typed list) is changed, by any assignment, list"
        " editing, merge, update, dot-list or resolve, every field, key and element that is neither missing nor an"
        " interpolation holds a value of its declared type, None occurs only in optional fields, the fields of a"
        " structured config stay present with the declared classes, and the declared types stay in force for later"
        " changes. A change that would break this raises an error instead.",
        ["histories", "inputs", "programs"],
        "every generated schema, every history of changes, every value",
        "The tests use some dozens of fixed dataclasses and one change each; schema erosion appears after merges or"
        " replacements of nested containers and only shows on the next write.",
        [B, D, L, N, O, BA],
        [("assignment validation", D + ", " + L + ":_validate_set"), ("node conversion", N),
         ("type hint propagation", B + ":_deep_update_type_hint")],
        observe=["live tree against the declared types"],
    ),
    P(
        "C07",
        "A typed slot converts or rejects a value the same way through every door",
        "For every declared primitive, enum, path, bytes, optional, dict or list type and every assigned value, whether"
        " the value is accepted, and what it is converted to, follows one table (documented conversions such as '10' to"
        " 10, 'on' to True, 'RED' to Color.RED; rejection of None when not optional), whichever way the value arrives:"
        " node construction, dataclass or attrs creation, item or attribute assignment, list append, insert or"
        " assignment, update, merge or the result of an interpolation.",
        ["inputs", "programs"],
        "every declared type, every value and every entry point",
        "The tests cover conversions on nodes directly with chosen values; agreement between entry points and with"
        " hostile strings is not checked.",
        [N, B, O, D, L],
        [("conversion", N + ":_validate_and_convert_impl"), ("wrapping", O + ":_node_wrap"),
         ("interpolation result conversion", BA)],
        observe=["value or exception of each entry point"],
    ),
    P(
        "C08",
        "Union fields take exactly their member types and never convert",
        "A field, dict element or list element declared as a union of primitive types accepts a value only when its"
        " exact type is one of the members (None only when optional), stores it unchanged with its type, and rejects"
        " everything else, containers included, leaving the old value. This holds through creation, assignment, list"
        " editing, update, merge, copying and pickling, and regardless of the order of the members.",
        ["inputs", "programs"],
        "every union of primitives, every value, every entry point",
        "The tests enumerate some unions with one value per type; order dependence and the pass-through wrapper in"
        " merges, copies and list operations are not.",
        [BA, N, O, B],
        [("union node", BA + ":UnionNode"), ("strict member check", N + ":_strict_validate_type")],
        observe=["stored value, its type, exceptions"],
    ),
    P(
        "C09",
        "Typed dict keys are validated and canonical on every path",
        "In a dict with a declared key type every key present has that type: enum keys given by name become the enum"
        " member, keys of another type are rejected with an error on assignment, creation, update and merge, reading"
        " with the enum name finds the same entry, and a lookup never invents or converts an entry of another key.",
        ["inputs", "histories"],
        "every key type, every key value, every way to read or write",
        "The tests try each key type with a few keys on get and set; merge, update, pop, membership and default reads"
        " with aliases of keys are sampled thinly.",
        [D, B, U],
        [("key validation", D + ":_validate_and_normalize_key")],
        observe=["keys and lookups against a model keyed by canonical keys"],
    ),
    P(
        "C10",
        "A read-only config cannot be changed through any public operation",
        "While a container is read-only (its own flag or inherited from an ancestor, not overridden by a nearer node),"
        " no public operation reachable from it (assignment, attribute, deletion, pop, list editing, update, merge,"
        " dot-list, resolve, clear) changes any value, key or type under it, whatever its result. Assignments,"
        " deletions and insertions raise the read-only error, reading works unchanged, and values inside a read-only"
        " config can still be copied out and the copy kept read-only.",
        ["histories", "configurations", "inputs"],
        "every placement of flags in a tree and every operation on it",
        "The tests try a list of operations with the flag on the root of a small config; inheritance, overriding in the"
        " middle of a tree, nested containers, None and missing containers and bulk operations multiply beyond that.",
        [D, L, B, BA, N, O],
        [("flag checks", D + ", " + L), ("value node check", N + ":_set_value"), ("flag lookup", BA + ":_get_flag")],
        [("readonly flag", "own or inherited", BA)],
        ["snapshot around each operation", "exception types"],
    ),
    P(
        "C11",
        "Flags are inherited from the nearest ancestor and restored by the contexts",
        "The effective value of a flag (read-only, struct) of any node is its own setting or else the setting of its"
        " nearest ancestor that has one, at every moment of any history of setting, clearing, moving, assigning and"
        " copying. The context managers for flags apply only inside the block and restore exactly the previous setting"
        " (including unset) however the block ends, nested or interleaved on different nodes.",
        ["histories", "configurations"],
        "every tree, every history of flag changes and structural changes, every nesting of contexts",
        "The effective flag is cached in the nodes; a stale cache needs a read, a change at an ancestor and another read,"
        " a sequence only a few tests contain.",
        [BA, O],
        [("flag cache", BA + ":_get_flag, _invalidate_flags_cache"), ("contexts", O + ":flag_override, read_write, open_dict")],
        [("flags cache", "cached effective flags", BA)],
        ["effective flags against a model"],
    ),
    P(
        "C12",
        "Struct mode and structured configs admit no undeclared keys",
        "In struct mode, inherited or own, and in structured configs, reading, assigning, updating or merging a key that"
        " does not exist raises an error and adds nothing, deletion and pop by key raise an error, and existing keys"
        " can be read and assigned as usual; lists can still grow. Within the block of the opening context, or with"
        " forced addition, new keys are accepted, and the protection is back afterwards.",
        ["histories", "configurations", "inputs"],
        "every tree, flag placement and operation",
        "The tests exercise one level and a few operations; merges and updates into nested nodes under inherited or"
        " overridden struct flags are combinations.",
        [D, B, O],
        [("access validation", D + ":_validate_get"), ("merge validation", B + ":_map_merge"), ("update", O + ":update")],
        observe=["key sets before and after, exception types"],
    ),
    P(
        "C13",
        "Missing values are never observable as values",
        "A value marked mandatory-missing, or a container that is missing, is never returned by item or attribute"
        " access, iteration, pop or an interpolation to it: reading it raises the missing-value error (or gives None when popped from a list, or the"
        " supplied default), it counts as not contained, it is reported by is_missing and by the list of missing keys,"
        " which names exactly the missing nodes, and conversion either reports it or keeps the literal mark. Assigning a"
        " value makes it present and a merge never overwrites a value with a missing one.",
        ["inputs", "histories"],
        "every placement of missing values and every reading operation",
        "The tests check single missing fields; missing containers, missing targets of interpolations and of nested"
        " interpolations, and exact reporting over whole trees are not.",
        [BA, B, D, L, O, U],
        [("read check", B + ":_resolve_with_default"), ("missing keys", O + ":missing_keys")],
        observe=["results and exceptions of reads against the known set of missing paths"],
    ),
    P(
        "C14",
        "An interpolation always reads the current value of what it points to",
        "Reading a field that holds an interpolation (absolute, relative, through lists, nested, inside a longer string,"
        " or to a whole container) gives what evaluating the reference against the present config gives: the target's"
        " value with its type for a pure reference (converted to the declared type where the field declares one, refused where"
        " it cannot be), its text inside a longer string, the target node itself for a"
        " container. After any later change to the config, directly or by merge, the next read reflects it, from every"
        " way of reading (attribute, item, get, iteration, select, conversion with resolution).",
        ["inputs", "histories"],
        "every config graph of references and every history of changes",
        "The tests check fixed references in fixed configs; relative references after moves and merges, chains through"
        " containers, and agreement between reading methods are combinations.",
        [BA, GV, GP, IM, B],
        [("resolution", BA + ":resolve_parse_tree"), ("node lookup", BA + ":_resolve_node_interpolation")],
        observe=["values read, compared with an independent evaluator"],
    ),
    P(
        "C15",
        "The interpolation grammar means what it says, always",
        "For every string, whether it is accepted as an interpolation is decided the same way when it is assigned, when"
        " it is parsed and when it is read, and an accepted expression evaluates to the value its structure denotes"
        " (quoting, escapes, numbers, booleans, null, nested lists and dicts, nested interpolations, white space)."
        " Parsing an expression does not depend on which expressions, valid or invalid, were parsed before, and a"
        " string without an interpolation is returned unchanged.",
        ["inputs", "histories"],
        "every generated expression and every string, in every order of parsing",
        "The tests hold a few hundred literal expressions; a lexer or visitor rule interacts with others, and the"
        " parser object is cached and reused between calls.",
        [GP, GV, GL, GG, U],
        [("cached parser", GP + ":parse"), ("evaluation", GV), ("fast path", GP + ":SIMPLE_INTERPOLATION_PATTERN")],
        [("parser cache", "per-thread parser reused across calls", GP)],
        ["values and errors of generated expressions with a known meaning"],
    ),
    P(
        "C16",
        "Unresolvable interpolations fail with the documented error, and always end",
        "Reading an interpolation to a key that does not exist, to a missing value, through a node that is not a"
        " container, with an unknown resolver, or with a resolver that raises always ends with the matching"
        " interpolation error; reference cycles of any length and shape raise an error instead of recursing without"
        " end. The failure changes nothing: other keys stay readable and the same field reads correctly once its"
        " target is repaired.",
        ["inputs", "histories"],
        "every reference graph, including cyclic and dangling ones",
        "The tests hold single dangling references and two short cycles; longer cycles through containers, lists and"
        " strings are not covered.",
        [BA, IM, GV],
        [("error mapping", BA + ":_maybe_resolve_interpolation"), ("lookup errors", BA + ":_resolve_node_interpolation")],
        observe=["exception types, state afterwards, bounded evaluation"],
    ),
    P(
        "C17",
        "Resolvers receive the evaluated arguments and are called the promised times",
        "A registered resolver is called with its arguments evaluated to their types in order, with the node, parent and"
        " root when it asks for them, and its result is the value of the field; without caching it is called on every"
        " read, with caching once per config and argument text until the cache is cleared, copied caches being"
        " independent. Registration refuses duplicates unless replacing, and clearing restores exactly the built-in"
        " resolvers.",
        ["histories", "inputs"],
        "every history of registration, reads, cache clearing and copying, every argument list",
        "The tests count calls in a few scenarios; cache keys, cache scope after merge and copy, and argument evaluation"
        " interact.",
        [O, BA, GV],
        [("registration", O + ":register_new_resolver"), ("caches", O + ":get_cache, set_cache, copy_cache")],
        [("resolver cache", "results kept per config", BA)],
        ["event log of resolver calls against an expected log"],
    ),
    P(
        "C18",
        "Resolving a config in place gives its resolved content",
        "After resolving a config or sub-config in place no interpolation remains in it and its content equals what"
        " conversion with resolution gave before, with declared types still respected; nothing else in the tree"
        " changes, missing values stay missing, and resolving again changes nothing.",
        ["inputs"],
        "every config with interpolations (typed or not) and every sub-config",
        "The tests resolve a table of small configs; chains, container targets, typed targets and sub-trees referring"
        " outside combine freely.",
        [IM, O],
        [("resolve", IM + ":_resolve")],
        observe=["content before and after"],
    ),
    P(
        "C19",
        "Saving to YAML and loading gives back the same content",
        "For every config whose content YAML can express, dumping to YAML and loading it again (text or file, with or"
        " without sorted keys) gives equal content with identical types, missing marks and interpolations kept as text,"
        " and enum values written by name. Resolved output equals the dump of the resolved content, loading rejects"
        " duplicate keys, and strings that look like other YAML types come back as strings.",
        ["inputs"],
        "every content, in particular every string",
        "The tests round-trip a few configs and some ambiguous strings; the ambiguity rules of YAML scalars are a large"
        " space.",
        [U, O],
        [("dumper", U + ":OmegaConfDumper"), ("loader", U + ":get_yaml_loader"), ("to_yaml/save/load", O)],
        observe=["content after the round trip"],
    ),
    P(
        "C20",
        "Pickling and copying preserve everything and stay independent",
        "Pickling and unpickling (every protocol), copy and deep copy of a config or sub-config preserve content, key"
        " order, declared types and optionality, structured classes, flags, missing marks and interpolations, so that"
        " the copy reads, accepts and rejects the same as the original. Interpolations of a copied config resolve inside"
        " the copy, and later changes on either side are not seen by the other.",
        ["inputs", "histories"],
        "every config, typed or not, every protocol, every later history",
        "The tests pickle a few configs and compare values; metadata that only acts on a later write is rarely compared.",
        [B, D, L, BA, N],
        [("pickle", B + ":__getstate__, __setstate__"), ("deep copy", D + ", " + L)],
        observe=["snapshots, and behaviour of both sides under the same operations"],
    ),
    P(
        "C21",
        "Conversion to plain containers and objects is faithful and detached",
        "Converting a config gives plain dicts, lists and values equal to its content in order and types, at any depth,"
        " with interpolations kept or resolved, missing values kept or reported, enums kept or named, and structured"
        " configs as dicts, configs or instances, as asked. The result shares nothing mutable with the config"
        " (opaque objects, objects made by resolvers and sub-configs kept as configs aside), the config is unchanged,"
        " and creating a config from the result gives an equal one.",
        ["inputs"],
        "every config and every combination of conversion options",
        "The tests check each option on small configs; the options interact with nesting, interpolations to containers"
        " and structured configs inside lists and dicts.",
        [B, O, D],
        [("conversion", B + ":_to_content"), ("instances", D + ":_to_object")],
        observe=["result against a reference conversion"],
    ),
    P(
        "C22",
        "Equality of configs is a value comparison",
        "Two configs, or a config and a plain container, are equal exactly when their contents are equal once"
        " resolvable interpolations are resolved (two interpolations of which one does not resolve are compared by"
        " their text), independent of key order, flags, declared types and origin; NaN aside, equality is reflexive,"
        " symmetric, the negation of inequality, and transitive where interpolations resolve, and comparing changes"
        " nothing.",
        ["inputs"],
        "every pair and triple of configs",
        "The tests compare listed pairs; asymmetries appear with interpolations, missing values, None containers and"
        " unions in nested positions.",
        [D, L, B, N, BA],
        [("comparison", D + ":_dict_conf_eq, " + L + ":_list_eq, " + B + ":_item_eq")],
        observe=["results of == and != against equality of contents"],
    ),
    P(
        "C23",
        "Selecting and updating by path agree with walking the config",
        "Selecting a path in any mix of dot and bracket notation gives exactly what successive item access gives, or the"
        " default (or None) when a step does not exist or the value is missing, and raises only as asked for missing"
        " values and failing interpolations, and for list positions that are no integers. Updating a path"
        " makes the next selection of it return the new value, merges or replaces containers as asked, creates missing"
        " parents, and changes nothing outside the path.",
        ["inputs", "histories"],
        "every config, every path and every value",
        "The tests hold a table of paths; mixed notations, lists inside dicts, interpolations on the way and unusual keys"
        " are sampled.",
        [O, IM, U, BA],
        [("path splitting", U + ":split_key"), ("select", IM + ":select_value"), ("update", O + ":update")],
        observe=["selected values against a walk of the plain content"],
    ),
    P(
        "C24",
        "Dot-lists and command lines mean the corresponding nested assignment",
        "For every list of key=value arguments, creating a config from a dot-list or from the command line, or merging"
        " it into a config, gives what assigning the YAML value of each argument at its path in order gives: the first"
        " '=' separates, no '=' means None, later arguments win, and quoting and types follow YAML. An argument"
        " that is no YAML or no valid assignment is an error, with the arguments before it applied.",
        ["inputs"],
        "every list of arguments",
        "The tests hold about twenty argument lists.",
        [B, O, U],
        [("dot-list", B + ":merge_with_dotlist"), ("entry points", O + ":from_dotlist, from_cli")],
        observe=["content against a reference interpretation"],
    ),
    P(
        "C25",
        "Concurrent use from several threads gives the sequential results",
        "Threads that concurrently parse, create, read and convert separate configs, or read one shared config that none"
        " of them changes, get exactly the results and errors they would get one after the other, from the first use in"
        " a process on, including after failed parses and inside resolvers that themselves resolve.",
        ["schedules", "inputs"],
        "every interleaving of independent users and of readers",
        "One test starts threads on one expression; a race needs particular interleavings of the shared parser and"
        " caches.",
        [GP, GV, BA, O],
        [("thread-local parser", GP + ":parse"), ("flag cache", BA), ("resolver cache", O)],
        [("parser cache", "thread-local", GP), ("flags cache", "per node", BA)],
        ["per-thread results against the sequential results, under a tiny switch interval and yields at every call"],
    ),
    P(
        "C26",
        "Dataclass and attrs schemas give the same config, faithful to the class",
        "Creating a config from a dataclass, the equivalent attrs class, or an instance of either gives the same fields in"
        " the same order with the declared types, defaults and optionality, later fields of subclasses included; fields"
        " marked as ignored are absent and a frozen class gives a read-only config. Every creation gets its own"
        " defaults, and invalid defaults are rejected at creation.",
        ["programs", "inputs"],
        "every generated schema and instance",
        "The tests use a fixed module of classes.",
        [U, O, D],
        [("field extraction", U + ":get_dataclass_data, get_attr_data"), ("creation", O + ":structured")],
        observe=["content and types of created configs against the class description"],
    ),
    P(
        "C27",
        "Errors name the right key and object",
        "An error raised by a failed read, assignment, deletion or conversion of a nested value carries, in its"
        " message and attributes, the full key of the value at fault, its parent node and the type of the containing"
        " object, at any depth and after any restructuring of the config, and can be caught as the corresponding"
        " built-in exception. Conversions of a whole config name an item whose own read fails the same way. (When the"
        " container of a typed field cannot be created from the assigned value, only its key is known.)",
        ["inputs", "histories"],
        "every position in every config and every kind of failure",
        "The tests check messages for a table of small configs; keys after list edits and merges and deep mixed paths"
        " are not.",
        [U, BA, B, "omegaconf/errors.py"],
        [("error formatting", U + ":format_and_raise"), ("full key", B + ":_get_full_key")],
        observe=["full_key, key, parent_node and message of the exception"],
    ),
    P(
        "C28",
        "Looking at a config never changes it",
        "Any sequence of reading operations (access, iteration, membership, length, comparison, printing, dumping,"
        " conversion, selection, type and flag queries, missing-key queries, masked copies, dir and debugger"
        " inspection), including ones that fail, leaves content, order, types, flags and the results of all other reads"
        " of the config and of its inputs unchanged.",
        ["histories", "inputs"],
        "every config and every sequence of reads",
        "The tests read once and compare the value; a read that adds a key, resolves in place or leaves a parent changed"
        " is seen only by a later read.",
        [D, L, B, BA, O, IM, "pydevd_plugins/extensions/pydevd_plugin_omegaconf.py"],
        [("reads", D + ", " + L), ("temporary parents and flags", BA)],
        observe=["snapshots with node identities around reads"],
    ),
    P(
        "C29",
        "The built-in resolvers return what their documentation says",
        "Wherever they are used and with absolute or relative keys: oc.env gives the variable's text, or its default as"
        " text (None as None), and fails naming the variable when there is neither; oc.decode evaluates a string as the"
        " grammar denotes it, gives None for None and refuses everything else; oc.select gives what is at the path, or"
        " the default (or None) when it does not exist or is missing; oc.dict.keys and oc.dict.values list the present"
        " keys and values of a dict in its order, the values following the dict (for keys an interpolation can name);"
        " oc.create gives a config of the content that belongs to the place it is read from; oc.deprecated gives the"
        " replacement and warns on every read with the old and the new key.",
        ["inputs", "histories"],
        "every config, key, default and place",
        "The tests use one fixed config per resolver; keys of other kinds, relative keys from deeper places, and content"
        " changing between reads are not in them.",
        [RS, "omegaconf/resolvers/oc/dict.py", IM, BA],
        [("built-in resolvers", RS), ("dict views", "omegaconf/resolvers/oc/dict.py:keys, values"), ("selection", IM + ":select_value")],
        observe=["values, containers and warnings of every read"],
    ),
    P(
        "C30",
        "Questions about a config are answered truthfully",
        "For every container and every key present: is_config, is_dict and is_list tell configs apart, is_missing is true"
        " exactly for missing items, is_interpolation exactly for items that hold an interpolation, get_type gives the"
        " class of a structured item, dict, list or the type of the value, printing shows the content like a plain"
        " container with interpolations as text, dir names the keys, a masked copy has exactly the chosen keys in the"
        " order of the config with their content and types, and the debugger view shows exactly the items. An absent"
        " key of a dict is neither missing nor, in an open dict, an interpolation.",
        ["inputs", "histories"],
        "every content, history and key",
        "The tests ask about a handful of nodes; answers depend on the kind of node, on how it came there and on what it"
        " replaced.",
        [O, D, L, BA, "pydevd_plugins/extensions/pydevd_plugin_omegaconf.py"],
        [("questions", O + ":is_missing, is_interpolation, get_type, masked_copy"), ("printing", BA + ":__repr__, __str__")],
        observe=["answers about every item after every change"],
    ),
]

TECH = "runtime monitoring: "
CHECKS = {
    "C01": ("lock-step comparison of random operation histories with a plain dict/list model",
            "no history explored deviates from the model; seeded random histories, not exhaustive"),
    "C02": ("structural snapshot monitor around every failing mutation in random histories",
            "every failing call observed left the snapshot unchanged; the snapshot covers values, keys, types, flags"),
    "C03": ("invariant monitor walking the live tree after every operation of random histories",
            "the invariant held at every quiescent point observed"),
    "C04": ("node identity and snapshot monitors on both sides of every copying operation, around random later changes",
            "no sharing and no leak in any execution observed; random configs and later changes, not exhaustive"),
    "C05": ("results of every merge entry point compared online with an executable reference merge",
            "no deviation from the reference in any merge executed; random inputs"),
    "C06": ("conformance monitor comparing the live tree with the declared types after every operation",
            "declared types held at every point observed; random schemas and histories"),
    "C07": ("differential monitor of all entry points against one executable conversion table",
            "all entry points agreed with the table on every type and value tried"),
    "C08": ("membership monitor on every entry point and history, against the exact-type rule",
            "no deviation from the rule on any union, value and history tried"),
    "C10": ("before/after monitor over the content of every effectively read-only container under random operations, plus expected-error monitor for direct mutations",
            "random histories; bounded sizes"),
    "C11": ("reference model of own flags (set by the monitor) and nearest-ancestor evaluation over the actual tree, compared with every node after random histories of settings, contexts, moves and copies",
            "random histories; bounded sizes"),
    "C12": ("expected-refusal monitor with before/after snapshots on new keys through every entry point, and key-set invariants of every closed container over random histories",
            "random histories; bounded sizes; attribute deletion (del cfg.x) is not covered"),
    "C13": ("every way of reading, querying, converting and merging missing nodes compared with the plain tree of the config",
            "random configs; bounded sizes"),
    "C09": ("online comparison with a model dict keyed by canonical keys, over every entry point",
            "Key conversion is a 20-line executable table; every read and write entry point is checked against it, including failed writes."),
    "C15": ("online comparison of evaluated expressions with the value of the tree they were rendered from, and with a fresh parser",
            "The generator renders trees whose value is computed by a small evaluator written from the grammar documentation; corrupted texts check acceptance at every entry point and independence of the cached parser."),
    "C14": ("online comparison of every read with an independent evaluator over the plain content",
            "The evaluator (100 lines) never calls the code under test: it walks the plain rendering of the present content; expressions are generated together with their structure."),
    "C16": ("online comparison of exception types and later reads with an independent evaluator, with a CPU-time bound on every case",
            "Every failing read is classified by the evaluator (key, missing, type, resolver, name, cycle, parent); node-identity snapshots show that failing reads change nothing."),
    "C17": ("runtime monitor: resolvers record every call (arguments, node, parent, root) and an offline checker compares the log with the calls an independent evaluator of the expressions, registry and cache predicts",
            "random expressions, registrations, cache operations and histories"),
    "C18": ("runtime monitor: content, declared types, identities and flags of the whole tree snapshotted around resolve and compared with an independent evaluation of every interpolation",
            "random configs and sub-configs"),
    "C19": ("runtime monitor: content read back from every dump is compared, types included, with the content the config held; hand-written documents against a table of YAML spellings",
            "random configs and documents"),
    "C20": ("runtime monitor: full-state snapshots and object identities of original and copy, then lock-step replay of the same random operations on both with outcome and state comparison",
            "random configs, histories and operations"),
    "C21": ("runtime monitor: every conversion compared with an item-by-item reading of the config, full-state snapshots and object identities around it, then deliberate mutation of the results",
            "random configs, histories and options; resolver-made objects are passed through and not claimed"),
    "C22": ("runtime monitor: every comparison checked against a value comparison of item-by-item readings, symmetry, negation, and full-state snapshots",
            "random related pairs; NaN is not claimed"),
    "C23": ("runtime monitor: every selection compared with successive item access, every update with a reference update of plain content and snapshots of everything off the path",
            "random configs, paths, options; list positions written as plain decimal numbers"),
    "C24": ("runtime monitor: the resulting content is compared with a reference assignment of table-given YAML values, or with a step-by-step assignment on a copy for typed configs",
            "random argument lists; YAML values from a table of spellings and generated flow collections"),
    "C28": ("Runtime monitor: identity-preserving snapshots of live configs around random sequences of ~70 reading operations, and replay of earlier reads",
            "Reads that fill the documented cache of a use_cache resolver are outside."),
    "C29": ("Runtime monitor: every value and warning a built-in resolver gives at a random place of a random config is compared with a walk of the plain content, the environment and an independent evaluator of expressions",
            "Keys that no interpolation can name (oc.dict.values), containers that hold the field itself, and the full key of created configs are outside."),
    "C30": ("Runtime monitor: configs are made from a specification that is changed in step with them; every answer about every item is compared with the specification",
            "get_type of missing items and interpolations, and questions about absent list positions are outside."),
    "C25": ("Runtime monitor: real threads under a seeded line-level scheduler, free threads with a tiny switch interval, and cold processes; per-thread results compared with the sequential ones",
            "Schedules are sampled (probabilistic and few-switch schedules at line and opcode granularity), under the GIL."),
    "C26": ("Runtime monitor: each generated schema is rendered as dataclass and attrs source; created configs are compared with the description, with the class library's field list, with each other and with later creations",
            "Factories that take self, InitVar fields and Dict subclasses are outside."),
    "C27": ("Runtime monitor: items, whole containers and paths of configs with a random history are read, stored, deleted and converted so that it fails; the exception's full_key, key, parent_node, object_type and message are compared with the item's position",
            "Errors of creating the container of a typed slot carry only its key (pinned by the existing tests); merges report nodes of their working copy."),
}  # fmt: skip
