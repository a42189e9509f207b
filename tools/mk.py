#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both). A property is claimed if checks/<id>.py exists."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = "conda_recipe_manager/"
PROPS = []
NA = {}


def prop(id_, title, statement, over, text, why, files, mech, observe, technique, note):
    PROPS.append((
        {
            "id": id_, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {
                "files": [f if f.startswith("scripts/") else P + f for f in files],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe, "hook_needed": None,
            },
        },
        technique, note,
    ))


prop(
    "C01", "Reading a recipe reports what a YAML reader sees in it",
    "For every valid V0 or V1 recipe, the paths the parser lists, the value it returns at each path, containment and value-search "
    "answers and the whole-recipe object equal what a YAML reader sees in the same text, whatever valid indentation, comments, "
    "blank lines, quoting or block scalars are used. Reading does not change the recipe.",
    ["inputs"], "All recipes in the supported YAML/Jinja subset, and all ways of laying the same recipe out.",
    "The tests read about 60 fixed recipe files that all have the same canonical layout; layout and values vary freely in practice.",
    ["parser/recipe_reader.py", "parser/_traverse.py", "parser/_node.py", "parser/_utils.py"],
    [("line-based tree construction", P + "parser/recipe_reader.py: RecipeReader.__init__, _parse_line_node"),
     ("path traversal", P + "parser/_traverse.py: traverse")],
    ["RecipeReader.get_value, list_value_paths, contains_value, find_value, render_to_object"],
    "model-first recipe generation; differential monitor of every read against a YAML reader and the generating model",
    "Held on the recipes generated in this run and the repository's own recipe files; known findings are excluded from the generator.",
)
prop(
    "C02", "Rendering loses nothing and is a fixed point",
    "Rendering a parsed recipe gives a recipe with the same values, variables, selectors and comments, in the same order and attached "
    "to the same lines. Rendering the rendered recipe again gives the same text, byte for byte.",
    ["inputs"], "All recipes in the supported subset, parsed and rendered.",
    "The tests compare fixed files with themselves; they hold no comments or values other than the ones written there.",
    ["parser/recipe_reader.py", "parser/_utils.py", "parser/_node.py"],
    [("tree rendering", P + "parser/recipe_reader.py: RecipeReader.render, _render_tree"), ("value quoting", P + "parser/_utils.py: stringify_yaml")],
    ["RecipeReader.render"],
    "round-trip monitor: rendered text read by an independent YAML reader/composer and compared with the generating model",
    "Held on the recipes generated in this run; assumes PyYAML's reader as the meaning of the text.",
)
prop(
    "C03", "Patching a recipe follows RFC 6902 and touches nothing else",
    "Every sequence of JSON patch operations leaves the recipe with the content that RFC 6902 prescribes for the same operations on the "
    "plain object. An operation that RFC 6902 rejects reports failure and leaves the recipe exactly as it was; comments and selectors "
    "of lines that an operation does not target survive.",
    ["histories", "inputs"], "All sequences of add/remove/replace/move/copy/test operations, valid or not, on all supported recipes.",
    "The tests apply single hand-picked patches to a few files; interactions of operations and index arithmetic after several edits are not reached.",
    ["parser/recipe_parser.py", "parser/_traverse.py"],
    [("patch dispatch and per-operation edits", P + "parser/recipe_parser.py: patch, _patch_*")],
    ["RecipeParser.patch, search_and_patch_replace, render_to_object, is_modified, diff"],
    "lock-step reference model (RFC 6902 on the plain object) over random operation histories, checked after every operation",
    "Held on the operation histories of this run.",
)
prop(
    "C04", "Selector and comment edits change exactly the targeted line",
    "Adding, combining or removing selectors and adding comments, in any sequence, changes only the targeted line, and the selector there is "
    "the requested one (combined selectors mean the boolean and/or of both). Selector listings, selector paths and the comment table "
    "always report exactly the selectors and comments that the rendered recipe holds.",
    ["histories", "inputs"], "All sequences of selector/comment edits and queries on all supported recipes.",
    "The tests edit a handful of paths once; the query tables are only compared for a few unedited files.",
    ["parser/recipe_parser.py", "parser/recipe_reader.py", "parser/_selector_info.py"],
    [("selector table rebuilt after edits", P + "parser/recipe_reader.py: _rebuild_selectors"), ("selector edits", P + "parser/recipe_parser.py: add_selector, remove_selector, add_comment")],
    ["add_selector, remove_selector, add_comment, list_selectors, get_selector_paths, get_selector_at_path, get_comments_table, render"],
    "lock-step model of line comments over random edit histories; the rendered text is read independently after every edit",
    "Held on the edit histories of this run; whether a combined selector keeps a trailing remark is left open.",
)
prop(
    "C05", "Variables resolve to their values and edits to them are exact",
    "Reading a value with variable substitution gives what evaluating the recipe's variables gives, for every variable and every place it is "
    "used; nothing else in the value changes. Setting, adding or deleting a variable changes that variable only, and the listing, containment and "
    "reference queries agree with the rendered recipe after every edit.",
    ["inputs", "histories"], "All variable tables, references and edit sequences on V0 and V1 recipes.",
    "The tests query the variables of three recipes.",
    ["parser/recipe_reader.py", "parser/recipe_parser.py", "parser/_utils.py"],
    [("substitution", P + "parser/recipe_reader.py: _render_jinja_vars"), ("variable table", P + "parser/recipe_parser.py: set_variable, del_variable")],
    ["get_value(sub_vars=True), render_to_object(replace_variables=True), list_variables, get_variable, get_variable_references, set_variable, del_variable"],
    "lock-step model of the variable table; independent substitution evaluator as the oracle, on edit histories",
    "Held on the histories of this run; filters and functions that the code documents (lower, upper, replace, ...) are included, arbitrary Jinja is not.",
)
prop(
    "C06", "A selector selects exactly the platforms its expression says",
    "For every selector expression, the set of platforms reported and the answer for each single platform are those of evaluating the expression "
    "as a boolean formula with the usual precedence and parentheses. Rendering a selector keeps its meaning, and selectors that compare equal select the same platforms.",
    ["inputs"], "All selector expressions over all 14 platforms.",
    "The tests list a few dozen expressions; grouping, precedence and spacing combine without bound.",
    ["parser/selector_parser.py", "parser/platform_types.py"],
    [("infix to postfix tree", P + "parser/selector_parser.py: SelectorParser.__init__"), ("set evaluation", P + "parser/selector_parser.py: get_selected_platforms, does_selector_apply")],
    ["SelectorParser.get_selected_platforms, does_selector_apply, render, __eq__"],
    "bounded-exhaustive plus random expression trees; truth-table oracle per platform",
    "Complete for expressions of up to 3 operands over 5 names; beyond that held on the expressions generated.",
)
prop(
    "C07", "Build-configuration lookups pick the first applicable value",
    "For every build-configuration file, looking a variable up for a platform returns the first listed value whose selector applies to that platform, in the type YAML gives it. "
    "When none applies or the variable does not exist the default is returned if given and an error raised otherwise; the variable listing is exactly the file's.",
    ["inputs", "configurations"], "All build-configuration files and all platforms.",
    "The tests look up some variables of two files on one platform.",
    ["parser/cbc_parser.py", "parser/selector_parser.py"],
    [("value table", P + "parser/cbc_parser.py: CbcParser.__init__, get_cbc_variable_value")],
    ["CbcParser.list_cbc_variables, get_cbc_variable_value, contains"],
    "differential monitor against a reference lookup on generated configuration files, every variable on every platform",
    "Held on the files generated in this run.",
)
prop(
    "C08", "Every dependency of a recipe is reported once, where it is written",
    "For every single- or multi-output recipe, the dependency map holds exactly the packages, dependency entries, requirement kinds, selectors and paths written in it, "
    "with the top-level requirements included for every output. Dependencies that are not plain match specifications are still reported, with their text.",
    ["inputs"], "All recipes with requirement sections, V0 and V1, any number of outputs, selectors and Jinja expressions in dependencies.",
    "The tests cover three recipes.",
    ["parser/recipe_reader_deps.py", "parser/dependency.py"],
    [("dependency extraction", P + "parser/recipe_reader_deps.py: get_package_names_to_path, get_all_dependencies"), ("spec parsing", P + "parser/dependency.py: dependency_data_from_str")],
    ["RecipeReaderDeps.get_package_names_to_path, get_all_dependencies"],
    "differential monitor: the generating model knows every dependency and where it was written",
    "Held on the recipes generated in this run. conda itself is not installable offline, its MatchSpec is a stand-in.",
)
prop(
    "C09", "Adding and removing dependencies edits exactly that list entry",
    "Every sequence of dependency additions and removals leaves each requirement list with exactly the entries the chosen conflict mode prescribes, in the prescribed order, "
    "with selectors kept. A request that cannot be carried out reports failure and changes nothing, and everything outside of the target list is untouched.",
    ["histories", "inputs"], "All sequences of dependency additions/removals in all conflict modes, on all recipes with requirement sections.",
    "The tests make single edits to a few recipes.",
    ["parser/recipe_parser_deps.py", "parser/recipe_reader_deps.py"],
    [("dependency edits", P + "parser/recipe_parser_deps.py: add_dependency, remove_dependency")],
    ["RecipeParserDeps.add_dependency, remove_dependency, render"],
    "lock-step list model per requirement section over random edit histories",
    "Held on the edit histories of this run; conda's MatchSpec is a stand-in.",
)
prop(
    "C10", "Converting a recipe to V1 keeps what it says",
    "For every V0 recipe, the converted V1 recipe has the same package, sources, build settings, requirements, tests, metadata and variables, under their V1 names, "
    "with every selector turned into the equivalent condition on the same value. Nothing is dropped, duplicated or changed without a message that says so.",
    ["inputs"], "All V0 recipes made of fields with a documented V1 equivalent.",
    "The tests compare some 30 files with recorded outputs, which pins the output rather than its meaning.",
    ["parser/recipe_parser_convert.py"],
    [("upgrade steps", P + "parser/recipe_parser_convert.py: _upgrade_*, _correct_*, render_to_v1_recipe_format")],
    ["RecipeParserConvert.render_to_v1_recipe_format"],
    "translation monitor: V0 text evaluated per platform and the converted V1 text evaluated per platform by two small independent evaluators",
    "Held on the recipes generated; keys without a V1 equivalent are outside.",
)
prop(
    "C11", "Conversion is repeatable and does not touch its input",
    "Converting a recipe leaves the recipe object as it was, gives the same text and messages each time it is repeated, and reflects every edit made before it. "
    "The converted text is itself a valid V1 recipe which the parser reads, renders to a fixed point and can edit.",
    ["histories", "inputs"], "All interleavings of edits, reads and conversions of a recipe object.",
    "Each test converts a fresh object exactly once.",
    ["parser/recipe_parser_convert.py", "parser/recipe_reader.py"],
    [("work on a copy", P + "parser/recipe_parser_convert.py: render_to_v1_recipe_format")],
    ["RecipeParserConvert.render_to_v1_recipe_format, render, is_modified, diff"],
    "metamorphic monitor over histories of edits and conversions (fresh-object conversion as the oracle)",
    "Held on the histories of this run.",
)
prop(
    "C12", "Pre-processing rewrites only what it documents",
    "Pre-processing a V0 recipe for conversion changes only the constructs it documents (dotted dependency functions, environment look-ups, hash-type variables, legacy statements) "
    "to their documented replacement, and leaves every other line byte-identical. Pre-processing twice changes nothing more.",
    ["inputs"], "All V0 recipe texts.",
    "The tests compare a few recipes with recorded outputs.",
    ["parser/recipe_parser_convert.py"],
    [("text replacement", P + "parser/recipe_parser_convert.py: pre_process_recipe_text")],
    ["RecipeParserConvert.pre_process_recipe_text"],
    "line-level monitor: each generated line's expected replacement is known to the generator",
    "Held on the texts generated in this run.",
)
prop(
    "C13", "Bulk conversion accounts for every recipe and writes only outputs",
    "The convert command converts each recipe given or found, writes each result to exactly the requested place and never changes its inputs. Its exit status and its statistics account for "
    "every recipe exactly once, as success, warning or error, whatever mix of valid and broken recipes is given.",
    ["inputs", "configurations", "fault_sequences"], "All directory trees of valid, dubious, broken and unreadable recipes, and all option combinations.",
    "The tests convert single files and one fixed directory.",
    ["commands/convert.py", "commands/utils/types.py"],
    [("per-file conversion", P + "commands/convert.py: convert_file, process_recipe"), ("statistics", P + "commands/convert.py: collect_stats, convert")],
    ["convert command: exit code, stdout JSON, files written"],
    "end-to-end command runs on generated trees; conservation monitor over the statistics, file-tree diff and per-file conversion oracle",
    "Held on the trees generated in this run.",
)
prop(
    "C14", "The patch command applies its patch file completely and reports it",
    "The patch command applies the operations of the given JSON file in order to the given recipe, as RFC 6902 prescribes, and its exit status is zero only if all of them were applied. "
    "Errors in the recipe, the patch file or the operations have their documented status, and no error leaves a half-written recipe.",
    ["inputs", "fault_sequences"], "All recipe and patch files, valid and broken.",
    "The tests run one valid patch and a few broken files.",
    ["commands/patch.py"],
    [("command", P + "commands/patch.py: patch")],
    ["patch command: exit code, recipe file on disk"],
    "end-to-end command runs against the RFC 6902 reference model, with injected file faults",
    "Held on the runs made.",
)
prop(
    "C15", "A bumped recipe has the new version, build number and hashes only",
    "After a successful bump, the recipe's version is the requested one, its build number is the documented one and every source hash is that of the archive its URL points to after the bump. "
    "All other values, comments and lines are those of the old recipe.",
    ["inputs", "configurations"], "All recipes (V0, V1, one or several sources, hashes in fields or variables) and all option combinations.",
    "The tests bump some 15 recorded recipes with mocked downloads.",
    ["commands/bump_recipe.py"],
    [("edits", P + "commands/bump_recipe.py: _update_build_num, _update_version, _update_sha256")],
    ["bump-recipe command: file written, exit code"],
    "end-to-end command runs against a loopback HTTP server; independent evaluator of the old and new recipe as the oracle",
    "Held on the runs made; sources with mirror lists are outside.",
)
prop(
    "C16", "A bump happens completely or leaves the recipe untouched",
    "Whatever the network does and in whatever order downloads finish, a bump either writes the completely updated recipe or exits with an error and leaves the recipe file as it was. "
    "Each source is tried at most the documented number of times, is not tried again once it answered, and gets the hash of its own archive.",
    ["fault_sequences", "schedules", "configurations"], "All sequences of per-source download failures, delays and completion orders, and faults of the recipe file.",
    "The tests mock downloads that all succeed or all fail, sequentially.",
    ["commands/bump_recipe.py", "fetcher/http_artifact_fetcher.py"],
    [("concurrent downloads with retries", P + "commands/bump_recipe.py: _get_sha256, _update_sha256"), ("single write at the end", P + "commands/bump_recipe.py: bump_recipe")],
    ["server log (attempts, order, times), recipe file, exit code"],
    "fault injection over scripted per-source failures and delays; server-side trace checker and all-or-nothing file monitor",
    "Held on the fault sequences and completion orders observed (counted in the evidence).",
)
prop(
    "C17", "Fetching an archive yields the bytes served and the files packed",
    "After a successful fetch the archive's hash is that of the bytes the server sent, and the extracted tree equals the packed one (names, contents, links). Fetchers do not "
    "interfere with each other, need no fetch before reporting an error on use, and remove their temporary files when they go away.",
    ["inputs", "configurations"], "All archive contents, formats and HTTP transfer modes, and several concurrent fetchers.",
    "The tests mock HTTP with three small files.",
    ["fetcher/http_artifact_fetcher.py", "fetcher/base_artifact_fetcher.py", "utils/cryptography/hashing.py"],
    [("download and extract", P + "fetcher/http_artifact_fetcher.py: fetch"), ("hash", P + "utils/cryptography/hashing.py")],
    ["HttpArtifactFetcher.fetch, get_archive_sha256, get_path_to_source_code; temporary directory"],
    "loopback HTTP server plus archive generator; file-tree and hash oracle, temporary-directory life-time monitor",
    "Held on the archives generated.",
)
prop(
    "C18", "Every fetch failure is reported as a fetch error",
    "Whatever goes wrong while fetching an archive (the network, HTTP status, the archive's bytes, the disk) is reported as a fetch error and as nothing else. After a failed fetch the fetcher reports that nothing was "
    "fetched, and a later fetch that succeeds gives the right files.",
    ["fault_sequences", "crash_points"], "All network, archive and disk faults at any point of a fetch.",
    "The tests inject two mocked exceptions.",
    ["fetcher/http_artifact_fetcher.py", "fetcher/base_artifact_fetcher.py", "fetcher/exceptions.py"],
    [("error translation", P + "fetcher/http_artifact_fetcher.py: fetch")],
    ["exceptions of fetch and of the accessors"],
    "fault injection (scripted server, archive corruption at random offsets, RLIMIT_FSIZE, directory faults) with an exception-contract monitor",
    "Held on the faults injected (counted by kind in the evidence).",
)
prop(
    "C19", "Extracting a hostile archive stays inside its directory",
    "No archive, however hostile, makes a fetch create, change or delete anything outside of the fetcher's own directory, or leaves links to the outside, device files or privileged modes inside of it. ",
    ["inputs"], "All archives, including ones made to escape.",
    "The tests hold no hostile archive.",
    ["fetcher/http_artifact_fetcher.py"],
    [("safe extraction", P + "fetcher/http_artifact_fetcher.py: fetch (tarfile filter, zipfile)")],
    ["file system around the extraction directory, audit events"],
    "hostile-archive generation under an audit-hook write monitor and canary trees",
    "Held on the archives generated; the audit hook stops any escape before it takes effect.",
)
prop(
    "C20", "Git sources are fetched at exactly the requested commit",
    "Fetching a git source gives the files of exactly the requested branch, tag or revision, and an error for a target that does not exist. Each source of a recipe becomes the fetcher it declares (URL, path, "
    "branch, tag or revision) with variables resolved; local paths are left untouched.",
    ["inputs", "histories"], "All repositories and targets; all recipe source sections.",
    "Only construction is tested; no repository is fetched.",
    ["fetcher/git_artifact_fetcher.py", "fetcher/artifact_fetcher.py", "utils/typing.py"],
    [("checkout", P + "fetcher/git_artifact_fetcher.py: fetch"), ("source section to fetchers", P + "fetcher/artifact_fetcher.py: from_recipe")],
    ["GitArtifactFetcher.fetch, get_path_to_source_code, from_recipe"],
    "random repositories built with git; object-database oracle on the fetched tree",
    "Held on the repositories generated.",
)
prop(
    "C21", "The dependency graph holds exactly the recipes' dependencies",
    "For every set of recipes, the build and test graphs have a node for every package and exactly the edges the recipes' requirement sections say, whatever the number of workers and the order of completion. "
    "Broken recipes are counted as failed, duplicates and missing packages are reported, and neither affects the rest of the graph.",
    ["inputs", "schedules"], "All directories of recipes, including broken and duplicate ones, and all worker counts and completion orders.",
    "The tests build one graph from a fixed directory.",
    ["grapher/recipe_graph.py", "grapher/recipe_graph_from_disk.py", "grapher/types.py"],
    [("parallel parse", P + "grapher/recipe_graph_from_disk.py"), ("graph construction", P + "grapher/recipe_graph.py: RecipeGraph.__init__")],
    ["RecipeGraph.contains_package_name, get_package_stats/get_stats, graphs' nodes and edges"],
    "differential monitor: set-theoretic graph derived from the generated recipes, run with different worker counts and delays",
    "Held on the recipe sets generated; plotting is outside.",
)
prop(
    "C22", "The Python scanner finds exactly the imported packages",
    "For every Python project, the scanner reports every third-party package that the project's files import, in whatever syntactic form, nesting and encoding, exactly once and under its package name: "
    "as a test dependency if only test files (test_*.py, *_test.py) import it, as a run dependency otherwise, plus Python itself. It never reports the standard library, relative imports or the modules at the top of the scanned directory; "
    "each file that can't be read gives one message. Scanning runs and changes nothing.",
    ["inputs", "programs"], "All Python source trees.",
    "The tests scan three small fixed projects.",
    ["scanner/dependency/py_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
    [("import collection", P + "scanner/dependency/py_dep_scanner.py: scan")],
    ["PyDepScanner.scan"],
    "generated projects with known imports; set-equality oracle, plus a no-execution monitor",
    "Held on the projects generated.",
)
prop(
    "C23", "The pyproject scanner reports exactly the declared dependencies",
    "For every pyproject file, the scanner reports each of the project's dependencies as a run dependency and each optional dependency of any group as a run constraint, once, with its specification unchanged, and nothing else. "
    "Missing tables and missing, unreadable, damaged or mistyped files yield messages, not failures.",
    ["inputs"], "All pyproject.toml files.",
    "The tests scan three fixed files.",
    ["scanner/dependency/pyproject_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
    [("table mapping", P + "scanner/dependency/pyproject_dep_scanner.py: scan")],
    ["PyProjectDepScanner.scan, messages"],
    "generated pyproject files with known dependencies; set-equality oracle",
    "Held on the files generated.",
)
prop(
    "C24", "Untrusted recipes cannot run code or make tools hang",
    "Parsing, querying, rendering, editing or converting any text, however malformed or hostile, runs no code from it, starts no process, opens no network connection and no file of its choice, "
    "and no environment variable or other file shows up in a result. Sources of a recipe that look like commands are not run when they are fetched. Every such call ends with a result or an exception, "
    "in time and memory that grow moderately (no worse than about the square) with the input.",
    ["inputs"], "All texts given as recipes.",
    "The tests hold no hostile input.",
    ["parser/recipe_reader.py", "parser/_utils.py", "parser/recipe_parser_convert.py", "parser/dependency.py"],
    [("safe YAML loading and AST-free variable evaluation", P + "parser/recipe_reader.py: _parse_yaml, _init_vars_tbl"), ("regular expressions", P + "parser/_types.py: Regex")],
    ["audit events (exec, import, subprocess, socket, open), elapsed work, exception types"],
    "audit-event monitor over hostile and mutated inputs; executed-line budget per input byte",
    "Held on the inputs generated.",
)
prop(
    "C25", "Recipe objects are independent of each other",
    "Operations on one recipe object never affect another one, including copies made by conversion, objects returned by queries, and objects sent to other processes. The same operations on separate objects "
    "in different threads or processes give the same results as one after the other.",
    ["schedules", "histories"], "All interleavings of operations on different objects, in one or more threads and processes.",
    "The tests use one object at a time.",
    ["parser/recipe_reader.py", "parser/recipe_parser.py", "parser/_node.py", "parser/selector_parser.py"],
    [("no module-level mutable state", P + "parser/"), ("values copied out", P + "parser/recipe_reader.py: get_value")],
    ["render() of every live object after every operation"],
    "interleaved histories on several objects with forced thread switches; serial run as the oracle",
    "Held on the interleavings observed (counted in the evidence).",
)
prop(
    "C26", "License names are corrected only to valid SPDX identifiers",
    "For every license text, the answer is a valid SPDX identifier, NOASSERTION, or none. Identifiers and official names are answered with their own identifier whatever else they resemble, "
    "compound expressions are never reduced to one license, and any other answer is that of the closest known spelling.",
    ["inputs"], "All license texts.",
    "The tests try a dozen names.",
    ["licenses/spdx_utils.py"],
    [("table matching", P + "licenses/spdx_utils.py: find_closest_license_match")],
    ["SpdxUtils.find_closest_license_match"],
    "exhaustive over the license table plus random mutations; membership and metamorphic oracle",
    "Exhaustive for exact identifiers and names; held on the mutations generated.",
)
prop(
    "C27", "Bulk builds build every recipe exactly once with the given arguments",
    "The bulk build command runs the build tool exactly once for every recipe found, with the recipe's path and the given extra arguments intact, whatever characters they hold. Its statistics and error counts account for every recipe exactly once, "
    "including the ones that fail or time out.",
    ["inputs", "schedules", "fault_sequences"], "All directories, arguments, outcomes and completion orders of builds.",
    "One test mocks a single build.",
    ["commands/rattler_bulk_build.py"],
    [("command construction", P + "commands/rattler_bulk_build.py: build_recipe"), ("result aggregation", P + "commands/rattler_bulk_build.py: rattler_bulk_build, create_debug_file")],
    ["argv seen by a stand-in build tool, stdout JSON, exit code"],
    "end-to-end runs with a recording stand-in build tool; exactly-once and conservation monitor over its log",
    "Held on the runs made; rattler-build itself is a stand-in.",
)
prop(
    "C28", "The CI scripts report exactly what the logs and folders hold",
    "For any set of CI logs, the summary counts every result object in them exactly once: numbers are summed, percentages averaged, tests counted per directory, and every object that can't be used is reported with its place. "
    "The random selection fetches the requested number of distinct, listed, not excluded recipes (or all there are), saves each one that a branch serves unchanged under its name, reports the numbers and touches nothing else.",
    ["inputs"], "All logs and recipe folders.",
    "There is no test for the scripts.",
    ["scripts/parse_ci_output.py", "scripts/randomly_select_recipes.py"],
    [("log parsing", "scripts/parse_ci_output.py"), ("selection", "scripts/randomly_select_recipes.py")],
    ["stdout JSON, files"],
    "end-to-end runs on generated logs and folders; conservation oracle",
    "Held on the logs and folders generated.",
)
prop(
    "C29", "The message table keeps every message, in order, in its category",
    "Every message recorded is returned, exactly once, in its category and in order, and counts and totals always agree with what was recorded.",
    ["histories"], "All sequences of recording, querying and clearing messages.",
    "The tests record three messages.",
    ["types.py"],
    [("message table", P + "types.py: MessageTable")],
    ["MessageTable.get_messages, get_message_count, get_totals_message, clear_messages"],
    "lock-step list model over random histories",
    "Held on the histories of this run.",
)
prop(
    "C30", "Search-and-patch changes every value that matches, and nothing else",
    "A search-and-patch request applies the given patch to every value the expression matched when the request was made, wherever additions and removals move the values to (several members of one list included), leaves every other value and its line alone, "
    "returns whether all of the patches succeeded, and does not change the caller's patch.",
    ["inputs", "histories"], "All recipes, expressions and patches.",
    "There is one test, with one replacement; removals from a list, where paths shift, are not tested.",
    ["parser/recipe_parser.py", "parser/recipe_reader.py"],
    [("search and patch", P + "parser/recipe_parser.py: search_and_patch"), ("search", P + "parser/recipe_reader.py: search")],
    ["search_and_patch", "search", "render", "render_to_object"],
    "matches and result computed from the generating model; rendered text read by an independent YAML loader",
    "Held on the requests generated; the text of one-line collections and of keys without a value is not searched.",
)
prop(
    "C31", "The diff of a recipe leads from the text it was read from to the recipe",
    "After any history of edits, applying the diff of a recipe to the original text gives the rendered recipe line for line; a recipe that was not modified has no diff and renders as when it was read; "
    "two recipes of one schema are equal exactly if they render alike, and have the hash of what they render.",
    ["inputs", "histories"], "All recipes and edit histories.",
    "The test compares one diff with a constant.",
    ["parser/recipe_parser.py", "parser/recipe_reader.py"],
    [("diff", P + "parser/recipe_parser.py: diff"), ("equality and hash", P + "parser/recipe_reader.py: __eq__, calc_sha256")],
    ["diff", "is_modified", "==", "calc_sha256", "render"],
    "strict patch applier on every diff over random edit histories; equality and hash compared with the rendered text",
    "Held on the histories generated.",
)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            p["statement"] = p["statement"].strip()
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, technique, note in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            mod = importlib.import_module("checks." + i.lower())
            checks.append({
                "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + technique, "level": mod.LEVEL, "level_note": note,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "No check yet: runtime monitoring applies, the check is still to be built.")})
    m = {
        "version": 1, "setup_cmd": "python3 check.py --help > /dev/null",
        "hooks": {"guard": "none", "enable": "No hooks: the monitors attach from outside (audit hooks, sys.monitoring, loopback servers).", "source_commits": []},
        "checks": checks, "not_applicable": na,
        "notes": "Every check imports the code from /repo's working tree; nothing is compiled. See DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
