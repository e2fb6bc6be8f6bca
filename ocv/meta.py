"""Sizes, coverage rules and observation minimums of every check (cases are per worker, 8 workers)."""

META = {
    "C01": dict(
        quick=1500,
        thorough=30000,
        rule="random dict/list operation histories on untyped configs and a plain dict/list model; a case is"
        " non-trivial when the oracle compared states; distinct by the recorded history",
        required={"states_compared": 10000, "results_agreed": 5000, "errors_agreed": 500},
    ),
    "C02": dict(
        quick=2400,
        thorough=40000,
        rule="random configs (untyped, structured, typed dicts and lists, with interpolations, missing values and flags)"
        " and single mutations with hostile arguments; non-trivial when at least one mutation failed and the snapshot"
        " before was compared with the snapshot after; distinct by history",
        required={"failed_ops_checked": 5000},
    ),
    "C03": dict(
        quick=4000,
        thorough=40000,
        rule="random configs and histories of single, bulk and copying operations; after each the whole tree is walked"
        " and parents, keys, sharing and full keys are compared with the actual structure; distinct by history",
        required={"nodes_checked": 50000, "full_keys_checked": 2000},
    ),
    "C04": dict(
        quick=1500,
        thorough=12000,
        rule="random configs and inputs; every derived config is compared with its source for shared nodes, then both sides are changed at random while the other side is snapshotted; distinct by history",
        required={'disjointness_checked': 1500, 'later_changes_checked': 10000, 'inputs_checked': 3000, 'cache_checked': 300, 'cached_results_changed': 100},
    ),
    "C05": dict(
        quick=1050,
        thorough=30000,
        rule="random sequences of 2 to 4 related trees with missing values, None, interpolations, special container nodes and every list mode, given as configs, plain containers or YAML text; each way to merge compared with a reference merge; distinct by inputs",
        required={'merges_compared': 15000, 'laws_checked': 3000, 'rejections_agreed': 200},
    ),
    "C06": dict(
        quick=1600,
        thorough=20000,
        rule="random typed configs (structured classes, subclasses, typed dicts and lists) and histories of single and bulk changes; after each the live tree is compared with the declared types; distinct by history",
        required={'states_conform': 30000, 'enforcement_probes': 3000},
    ),
    "C07": dict(
        quick=600,
        thorough=8000,
        rule="random declared types and hostile values, each given through every entry point and compared with one reference conversion table; distinct by type and value",
        required={'conversions_agreed': 20000, 'rejections_agreed': 20000},
    ),
    "C08": dict(
        quick=600,
        thorough=12000,
        rule="random unions of primitive types (all orders), values at and around the member types, every entry point, and histories of writes, merges and copies; distinct by history",
        required={'list_operations_agreed': 3000, 'acceptances_agreed': 10000, 'rejections_agreed': 10000, 'copies_agreed': 3000},
    ),
    "C10": dict(
        quick=1950,
        thorough=20000,
        rule="random configs of every kind, one or more containers made read-only (with nearer overrides), then random operations through every entry point anywhere in the tree; the content of every effectively read-only container is compared before and after each; distinct by history",
        required={'protected_unchanged': 20000, 'readonly_errors': 3000, 'copies_checked': 500, 'reads_unchanged': 5000},
    ),
    "C11": dict(
        quick=3000,
        thorough=25000,
        rule="random configs and histories of setting and clearing flags, entering and leaving flag contexts (nested, interleaved, left by an exception), moving, assigning, merging and copying; effective and own flags of every node compared with a model walking the actual tree; distinct by history",
        required={'effective_flags_compared': 200000, 'contexts_closed': 5000, 'behaviour_agreed': 1000, 'adopted': 500},
    ),
    "C12": dict(
        quick=2500,
        thorough=25000,
        rule="random untyped and structured configs with struct mode set, inherited and overridden at random; new keys through every entry point, deletions, opening blocks and forced additions, and random histories; key sets of every closed container compared; distinct by history",
        required={'refusals': 10000, 'openings': 2000, 'protection_back': 2000, 'existing_assigned': 1000, 'lists_grown': 200, 'key_sets_kept': 20000},
    ),
    "C13": dict(
        quick=3000,
        thorough=12000,
        rule="random configs of every kind full of missing values and missing containers, before and after random histories; every node is read in every way and the answers compared with the plain tree; distinct by history",
        required={'missing_nodes_checked': 10000, 'listings_agreed': 3000, 'conversions_agreed': 5000, 'interpolations_checked': 1000, 'assignments_checked': 1000, 'pops_checked': 500, 'missing_merges': 1000},
    ),
    "C09": dict(
        quick=3600,
        thorough=30000,
        rule="typed dicts of every key type created in every way and put through random histories of reads, writes and deletions with canonical keys, aliases and foreign keys; compared with a dict keyed by canonical keys; distinct by history",
        required={'states_compared': 10000, 'lookups_agreed': 5000, 'rejections_agreed': 1500},
    ),
    "C15": dict(
        quick=250,
        thorough=10000,
        rule="generated expressions (node and resolver interpolations, quoting, escapes, numbers, lists, dicts, nesting, white space) with a known value, interleaved with random corruptions of them; a case is a sequence over one cached parser; distinct by the texts and outcomes",
        required={'other_roles_agreed': 20, 'meanings_agreed': 5000, 'fresh_parser_agreed': 2000, 'acceptance_agreed': 2000, 'rejection_agreed': 1000},
    ),
    "C14": dict(
        quick=100,
        thorough=5000,
        rule="random configs whose leaves are references (absolute, relative, nested keys, inside strings, through containers) put through random histories of changes, merges and copies; after every change every interpolation is read in several ways and compared with an independent evaluation of the present content; distinct by history",
        required={'sorts_agreed': 50, 'reads_agreed': 10000, 'failures_agreed': 500, 'conversions_agreed': 1000, 'through_reads': 500, 'typed_reads': 1000, 'typed_rejections': 500},
    ),
    "C16": dict(
        quick=250,
        thorough=5000,
        rule="configs with dangling, missing, cyclic, ill-typed and failing references, read in every way, repaired and changed; the error kind is compared with an independent evaluation; distinct by history",
        required={'errors_agreed': 3000, 'cycles_detected': 1000, 'repairs_agreed': 500, 'validation_errors_agreed': 300, 'quiet_reads_agreed': 1000},
    ),
    "C17": dict(
        quick=600,
        thorough=3000,
        rule="random configs of resolver calls under random registrations, cache operations and edits; every read compares value, call log, arguments and special parameters with an independent evaluation; distinct by history",
        required={k: 5 for k in 'values_agreed calls_agreed arguments_agreed specials_agreed no_call_agreed caches_agreed registries_agreed refusals_agreed conversions_agreed close_arguments_told_apart'.split()},
    ),
    "C18": dict(
        quick=800,
        thorough=3000,
        rule="random configs of references (typed and untyped), resolved whole or in part; content, types, flags, untouched rest and idempotence compared with an independent evaluation and with conversion before; distinct by history",
        required={'resolved_agreed': 500, 'failures_agreed': 50, 'detached_agreed': 50, 'typed_agreed': 200},
    ),
    "C19": dict(
        quick=1200,
        thorough=4000,
        rule="random configs (typed, untyped, hostile strings, number-like strings, shared objects) dumped and loaded in every way; hand-written documents; duplicate keys; distinct by history",
        required={'round_trips_agreed': 1000, 'saves_agreed': 100, 'resolved_dumps_agreed': 300, 'documents_agreed': 200, 'duplicates_rejected': 100, 'structured_agreed': 50, 'resolve_failures_agreed': 20},
    ),
    "C20": dict(
        quick=300,
        thorough=4000,
        rule="random configs after random histories, whole or in part, copied and pickled in every way; snapshots of content, types, flags and reads compared, then the same random operations applied to both sides; distinct by history",
        required={'copies_agreed': 1000, 'followed_ops_agreed': 500, 'related_agreed': 50, 'leaf_ops_agreed': 300, 'objects_agreed': 20, 'parents_agreed': 20},
    ),
    "C21": dict(
        quick=800,
        thorough=4000,
        rule="random configs (histories, references, structured classes, flags), converted whole or in part with every combination of options; compared with reading item by item, then the result is changed; distinct by history",
        required={'conversions_agreed': 3000, 'errors_agreed': 500, 'containers_checked': 3000, 'round_trips': 1000, 'views_agreed': 1000, 'instances_checked': 200, 'instances_back': 100, 'objects_checked': 30, 'bad_inputs': 5, 'missing_fields': 50},
    ),
    "C22": dict(
        quick=200,
        thorough=4000,
        rule="pools of related configs and plain containers (reordered, retyped, by reference, copied, with one small change), every pair compared in both directions with an item-by-item reading; distinct by history",
        required={'equal_pairs': 5000, 'unequal_pairs': 4000, 'leaf_pairs': 150, 'special_pairs': 100, 'reflexive': 1500},
    ),
    "C23": dict(
        quick=3000,
        thorough=4000,
        rule="random configs and histories with unusual keys; paths of every notation, existing or not, selected and updated; distinct by history",
        required={'updates_in_struct': 100, 'selected': 4000, 'defaults': 3000, 'select_raises': 2000, 'updates_agreed': 5000, 'updates_refused': 2000, 'outside_agreed': 5000, 'typed_values': 500},
    ),
    "C24": dict(
        quick=6000,
        thorough=8000,
        rule="random argument lists (paths in every notation, YAML values from a table and generated flow documents, broken values), on new, plain and structured configs through every entry point; distinct by history",
        required={'lists_agreed': 7000, 'arguments_agreed': 14000, 'refused': 2500, 'typed_agreed': 2500, 'typed_refused': 2000, 'bad_lists': 50},
    ),
    "C28": dict(
        quick=600,
        thorough=6000,
        rule="a read changes content, identity of a part, flags, parent, or the result of another read",
        required={'reads_without_effect': 20000, 'failing_reads_without_effect': 3000, 'reads_repeated': 10000},
    ),
    "C29": dict(
        quick=500,
        thorough=20000,
        rule="random configs with calls of the built-in resolvers (environment, decoding, selection with defaults, keys and values, deprecation, creation) at random places with absolute and relative keys; results and warnings compared with a walk of the plain content and an independent evaluation of expressions; distinct by history",
        required={k: 100 for k in 'env_agreed decode_agreed select_agreed dicts_agreed deprecated_agreed create_agreed climbs_agreed select_any_agreed select_defaults values_any_agreed missing_values deprecated_any_agreed create_any_agreed'.split()},
    ),
    "C30": dict(
        quick=500,
        thorough=20000,
        rule="configs made from a specification of every item (value, None, missing, interpolation, container, class, object), changed at random; every question about every item compared with the specification, masked copies and the debugger view included; distinct by history",
        required={k: 300 for k in 'containers_asked items_asked items_val items_none items_missing items_inter items_cinter items_dict items_list items_sc items_obj absent_asked masked_agreed'.split()},
    ),
    "C25": dict(
        quick=40,
        thorough=600,
        rule="a thread's result or error differs from the sequential one, a shared config is changed, or threads hang",
        required={'concurrent_results_agreed': 500},
    ),
    "C26": dict(
        quick=600,
        thorough=5000,
        rule="a created config differs from its class's fields, order, types, defaults or frozenness, shares state, or differs between dataclass and attrs",
        required={'declarations_checked': 5000, 'ways_agreed': 1000, 'flavors_agreed': 400, 'invalid_defaults_rejected': 200, 'valid_defaults_accepted': 200, 'own_defaults': 1000, 'frozen_refused': 50, 'instances_back': 50},
    ),
    "C27": dict(
        quick=1800,
        thorough=8000,
        rule="an error names another item, parent or object type than the one at fault, shows no key, or is of the wrong builtin class",
        required={'below_values_named': 200, 'items_named': 5000, 'whole_named': 500, 'parents_agreed': 3000, 'paths_named': 200, 'builtin_classes': 1000},
    ),
}
