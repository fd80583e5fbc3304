#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when properties change)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, level=level, state=state))


prop("C01", "A tested mutation is exactly the reported edit of the original file",
     "For every mutant, the file that cargo is run against is the original text (line endings read as LF) with exactly the characters of the reported span replaced by the reported replacement and the change marker, and nothing else altered. The reported diff, both in listings and in the output directory, is a valid unified diff that turns the original into exactly that text. Lines and columns are counted in characters from 1, whatever the layout, line endings, byte order mark or non-ASCII content of the file.",
     ["inputs", "programs"], "all Rust source files, layouts, encodings of line ends, and all mutants found in them",
     "Tests check a few files from testdata by snapshot; spans in multi-line, multi-byte, CRLF or oddly laid out text are sampled once or twice.",
     ["src/span.rs", "src/mutant.rs", "src/source.rs", "src/visit.rs"],
     [("span replacement", "src/span.rs Span::replace"), ("mutated code and diff", "src/mutant.rs mutated_code/diff"), ("line end normalisation", "src/source.rs")],
     ["--list --json --diff", "files seen by the cargo child process", "mutants.out/diff"],
     "generated Rust files with spans known by construction, and real-world files under layout-changing metamorphic transformations; oracle is textual replacement and a strict unified-diff application, compared with the bytes seen by a stub cargo",
     "Random search, not exhaustive; grammar-generated sources up to about 150 nodes plus registry/std files.")

prop("C02", "Operator, unary, match-arm and guard mutants are exactly the documented ones",
     "In every mutable function body, each binary operator, compound assignment, unary ! and -, match arm with a wildcard to fall back on, and match guard yields exactly the documented replacements, each once, in source order, and labelled with the innermost enclosing function. Nothing else in the text yields such mutants, including macro bodies, types, patterns, attributes, comments and literals. This holds however deeply the constructs are nested.",
     ["inputs", "programs"], "all Rust source files made of arbitrarily nested items, statements and expressions",
     "The tests snapshot a handful of expressions; combinations and nestings of constructs are not covered.",
     ["src/visit.rs", "src/mutant.rs"],
     [("AST visitor", "src/visit.rs DiscoveryVisitor"), ("operator tables", "src/visit.rs visit_expr_binary/unary/match")],
     ["--list --json"],
     "grammar-based program generation where the expected mutant list is produced alongside the text; exact list comparison",
     "Random search over a generator that covers most expression/statement/item syntax.")

prop("C03", "Function bodies are replaced by the documented values for their return type",
     "For every function with a return type, the generated replacement bodies are exactly the documented set for that type, built recursively through references, Result, Option, collections, smart pointers, tuples, arrays, slices and iterators, plus one Err value per configured error expression for Result types. Functions without a return type are replaced by the unit value, and functions returning ! or with no documented value other than the default get exactly that. Names and reported return types identify the function and its enclosing modules, impls and traits.",
     ["inputs", "configurations"], "all return types expressible as Rust syntax, all function contexts, all lists of error expressions",
     "Unit tests list a few dozen types; recursion through nested generic types, lifetimes, paths and configured errors is sampled.",
     ["src/fnvalue.rs", "src/visit.rs", "src/pretty.rs"],
     [("replacement values", "src/fnvalue.rs return_type_replacements"), ("function discovery", "src/visit.rs collect_fn_mutants")],
     ["--list --json"],
     "recursive type grammar with an independent reference model of the replacement values; exact ordered comparison",
     "Random search; type nesting to depth 3.")

prop("C04", "Skipped code yields no mutants and skipping never removes anything else",
     "Code under a skip attribute (on a function, impl, trait, module or whole file), test code, unsafe functions, Default implementations, empty bodies, and arguments of calls to skipped functions yields no mutants as documented. All other code yields the same mutants as if the skipped code were not there, including siblings and nested items next to skipped ones. Look-alike attributes and names do not cause skipping.",
     ["inputs", "configurations"], "all placements of skip attributes and special constructs in arbitrary nestings, all skip-call name lists",
     "Tests have one example per attribute; scope of the skip (what is and is not lost) is not explored.",
     ["src/visit.rs", "src/options.rs"],
     [("attribute tests", "src/visit.rs attrs_excluded / fn_sig_excluded"), ("skip calls", "src/visit.rs visit_expr_call")],
     ["--list --json"],
     "grammar-based generation dense in skip constructs with the expected complete list produced by construction; exact comparison",
     "Random search.")

prop("C05", "The files mutated are exactly the modules the compiler would load",
     "Starting from each library, binary or procedural-macro target, the source files examined are exactly the files the compiler would read through mod declarations, including nested inline modules, mod.rs style, path attributes and raw identifiers, each examined once however many declarations reach it. Test, bench, example and build-script targets are never examined. A missing module file is reported and does not stop the others from being examined.",
     ["inputs", "programs"], "all module trees, file layouts and target sets",
     "Tests cover a few fixed trees; the combinations of path attributes, inline modules and mod.rs files are not explored.",
     ["src/visit.rs", "src/workspace.rs", "src/source.rs", "src/package.rs"],
     [("module walk", "src/visit.rs walk_file_tree/find_mod_source"), ("target selection", "src/package.rs / src/cargo.rs")],
     ["--list-files", "--list --json"],
     "generated module trees compared differentially with rustc's own dep-info output, and with a model for missing files and target kinds",
     "Random search; trees up to depth 4.")

prop("C06", "File globs and name regexes select exactly the matching mutants",
     "With any combination of include/exclude globs and include/exclude regexes, the mutants kept are exactly those of the unfiltered list whose file matches some include glob (if any are given) and no exclude glob, and whose full name matches some include regex (if any) and no exclude regex, in unchanged order. Excluding a file does not exclude the modules it declares. An invalid glob or regex is an error, never an empty filter.",
     ["inputs", "configurations"], "all source trees, glob lists and regex lists, from command line or configuration",
     "Tests use a few patterns on fixed trees.",
     ["src/options.rs", "src/glob.rs", "src/visit.rs"],
     [("file filter", "src/options.rs / src/visit.rs"), ("name filter", "src/options.rs allows_mutant"), ("glob compilation", "src/glob.rs")],
     ["--list", "--list-files"],
     "generated trees and pattern lists; reference glob matcher and Python regex as oracle, relative to the unfiltered list",
     "Random search over patterns in the documented syntax.")

prop("C07", "Shards partition the selected mutants",
     "For every n, the shards 0/n to n-1/n of the same tree and options together contain every selected mutant exactly once, differ in size by at most one, and each keeps source order. Each shard is a deterministic function of the filtered list only, independent of shuffling, listing or testing. Shards outside the range are rejected.",
     ["inputs", "configurations"], "all trees, filter options and shard counts, including more shards than mutants",
     "Tests check one tree with one shard count.",
     ["src/shard.rs", "src/main.rs", "src/lab.rs"],
     [("shard selection", "src/shard.rs Shard::select"), ("order of filters", "src/main.rs")],
     ["--list --shard", "mutants.out/mutants.json"],
     "generated trees and options, all k for generated n; invariant (partition) plus reference model (round robin), for listing and for test runs",
     "Random search.")

prop("C08", "A diff filter selects exactly the mutants touching changed lines",
     "For every old and new version of a source tree and any valid unified diff between them, the mutants selected are exactly those of the new tree whose span includes a line added or changed by the diff or a line next to a deletion, in unchanged order. File creation, deletion, renames and prefixes are handled, and non-Rust files in the diff have no effect. A diff that does not match the tree's current text is refused, and an empty or irrelevant one selects nothing with success.",
     ["inputs", "histories"], "all pairs of tree versions and diffs between them, with any amount of context",
     "Tests have about ten fixed diffs.",
     ["src/in_diff.rs"],
     [("diff filter", "src/in_diff.rs diff_filter / affected_lines"), ("tree check", "src/in_diff.rs check_diff_new_text_matches")],
     ["--list --in-diff"],
     "random edit scripts applied to generated trees, diffs produced by diff/git, oracle computed from the edit script; metamorphic over amount of context",
     "Random search.")

prop("C09", "Iterating tests exactly the mutants not yet caught, over any history",
     "With --iterate, a run tests exactly the selected mutants whose names were not recorded as caught or unviable by the previous run or remembered by it from earlier runs. Mutants recorded as missed or timed out, and new ones, are always tested again. The memory survives any sequence of runs with different filters, shards, edits, failures and interruptions while testing, and is dropped by a run without --iterate.",
     ["histories", "configurations"], "all sequences of runs with arbitrary outcomes, filters, edits and aborted runs",
     "One test performs a three-step history.",
     ["src/output.rs", "src/main.rs"],
     [("previously caught", "src/output.rs load_previously_caught / write_previously_caught"), ("filter", "src/main.rs")],
     ["mutants.out/mutants.json", "mutants.out/previously_caught.txt", "cargo child processes"],
     "model-based stateful testing: random histories of runs against a reference set model",
     "Random histories of up to about 6 runs.")

prop("C10", "Without in-place mode the source tree is never changed and copies are removed",
     "Unless --in-place is given, no file, mode, link or directory of the source tree is created, changed or removed except the output directory, whatever the options, outcomes, failures of child processes, errors or interruption by a signal. Temporary copies of the tree are removed by the end of the run unless leaking was asked for. This also holds when tests change or delete files of their copy, and when files in the tree are links or hard-linked.",
     ["inputs", "configurations", "fault_sequences", "crash_points"], "all trees, options, outcomes and interruption points",
     "Tests compare a couple of trees after successful runs.",
     ["src/build_dir.rs", "src/copy_tree.rs", "src/lab.rs", "src/mutant.rs"],
     [("tree copy", "src/copy_tree.rs"), ("temporary directory", "src/build_dir.rs"), ("file overwrite", "src/build_dir.rs overwrite_file")],
     ["file system snapshots of the source tree and temporary directory"],
     "generated trees, plans for child behaviour (including damage to the copy), injected signals at random points; invariant on complete file-system snapshots",
     "Random search; signals at random points of the run.", "fault_enumeration")

prop("C11", "In-place mode restores every source file after every mutant",
     "With --in-place, each mutation is applied to the tree itself, and by the end of the run - whatever the outcomes, timeouts, errors or interruption by a signal - every source file has its original bytes again (only a kill that cannot be handled, or a failure of the restoring write itself, may leave the one file being tested changed). Between mutants the tree is also fully restored, and nothing besides the file being mutated is ever changed. In-place cannot be combined with several jobs.",
     ["inputs", "configurations", "crash_points", "fault_sequences"], "all trees, outcomes and interruption points in in-place mode",
     "One test checks one tree after a completed run.",
     ["src/lab.rs", "src/mutant.rs", "src/build_dir.rs"],
     [("revert", "src/lab.rs / src/mutant.rs revert"), ("in place build dir", "src/build_dir.rs")],
     ["file system snapshots", "files seen by the cargo child process"],
     "generated trees and outcome plans with signals injected at random points; invariant on bytes of the tree at the end and at each child process",
     "Random search; signals at random points of the run.", "fault_enumeration")

prop("C12", "Each cargo run sees the pristine tree plus exactly one mutation, isolated",
     "Every baseline cargo process sees the unmutated tree, and every other one sees it with exactly one selected mutation applied; each selected mutant is tested exactly once. With any number of jobs, processes running at the same time are in different directories, at most that many run at once, and no run sees residue of another mutant. This holds for every interleaving of job completion.",
     ["schedules", "configurations", "inputs"], "all job counts, task durations and interleavings",
     "Tests run a small tree with 2 jobs and look at counts only.",
     ["src/lab.rs", "src/build_dir.rs", "src/mutant.rs"],
     [("work queue and threads", "src/lab.rs"), ("apply and revert", "src/mutant.rs")],
     ["trees seen by the cargo child processes", "start and end times of child processes"],
     "generated trees, job counts and child durations (random schedules, barriers); invariants over the recorded history of child processes",
     "Random schedules.")

prop("C13", "Reports of a run are complete and agree with each other and with what happened",
     "At the end of every run, each tested mutant appears exactly once in the outcomes, in exactly the one text list for its result (none for a check-only success), with a log file holding every command run for it and the output of each, and a diff; totals and counts agree everywhere. The recorded arguments, phases and statuses are those of the actual child processes. The plan file holds the selected mutants in the order tested.",
     ["inputs", "configurations", "schedules"], "all trees, job counts and outcome combinations",
     "Tests look at counts and selected fields for fixed trees.",
     ["src/output.rs", "src/outcome.rs", "src/lab.rs", "src/console.rs"],
     [("output directory", "src/output.rs"), ("outcome records", "src/outcome.rs")],
     ["mutants.out", "stdout"],
     "generated trees, outcome plans and job counts against a stub cargo; all reports cross-checked with the event record of the stub",
     "Random search.")

prop("C14", "Results are classified, and the exit code follows, as documented",
     "A mutant is unviable exactly when its build fails, caught exactly when it builds and its tests fail, missed exactly when both succeed, and timeout when a phase exceeds its limit. The exit status is 4 if the baseline fails, otherwise 3 if any mutant timed out, otherwise 2 if any was missed, otherwise 0, and 1 for usage errors. This holds for every combination and order of outcomes, for check-only runs, and for any number of jobs.",
     ["inputs", "configurations", "schedules"], "all assignments of phase results to mutants, orders and job counts",
     "Tests cover about one tree per exit code.",
     ["src/outcome.rs", "src/exit_code.rs", "src/lab.rs", "src/main.rs"],
     [("classification", "src/outcome.rs ScenarioOutcome"), ("exit code", "src/outcome.rs LabOutcome::exit_code")],
     ["exit status", "outcomes.json", "text lists"],
     "random assignment of phase results to mutants via a stub cargo; reference model of classification and exit code",
     "Random search.")

prop("C15", "No mutant is tested unless the unmutated tree builds and passes",
     "Unless the baseline is skipped, the first thing built and tested is the unmutated tree, with the packages whose tests will be run on mutants, and if its build or tests fail or time out no mutant is tested, the exit status is 4 and the failing output is shown. With the baseline skipped, no unmutated run happens. If there are no mutants to test, nothing is run at all.",
     ["configurations", "inputs"], "all option combinations, package sets and baseline results",
     "Tests cover a failing build and a failing test in a single-package tree.",
     ["src/lab.rs", "src/main.rs"],
     [("baseline", "src/lab.rs test_mutants")],
     ["cargo child processes", "exit status", "stdout"],
     "random baseline outcomes, options and package sets with a stub cargo; invariant over the recorded history",
     "Random search.")

prop("C16", "Time limits are set as documented and enforced on the whole process group",
     "The test limit is the explicit one if given, else the larger of the minimum (20 s unless configured) and the multiplier (5 unless configured) times the baseline test time rounded up, or 300 s without a baseline; build limits (of cargo check too, when only checking) are infinite unless set or a build multiplier is given. A child exceeding its limit is ended, with all descendants in its process group that do not ignore termination, and the mutant is recorded as a timeout; one finishing within it never is. The limits in force apply to each phase of every mutant, for any number of jobs.",
     ["configurations", "schedules", "inputs"], "all combinations of timeout options, baseline times and child durations",
     "Tests have one hanging tree and unit tests of a few combinations.",
     ["src/timeouts.rs", "src/process.rs", "src/lab.rs", "src/options.rs"],
     [("limits", "src/timeouts.rs"), ("kill on timeout", "src/process.rs")],
     ["recorded phase results and durations", "child process table"],
     "virtual clock (preloaded time shim) so that generated child durations straddle the limits; reference model of the limits",
     "Time scaled by a factor; durations near the limit within a safety margin are not generated.")

prop("C17", "Interruption stops promptly, leaves no child running and reports failure",
     "On an interrupt or termination signal at any point of a run, all running child processes and their descendants (that stay in the process group and do not ignore termination) are ended, no mutant is started afterwards beyond those just being started by a job, the exit status is not zero, and temporary copies are removed; a copy of the tree being made is given up. Results of mutants already finished remain in the reports. This holds for any number of jobs and in every phase.",
     ["crash_points", "schedules"], "all points at which a signal may arrive, phases and job counts",
     "One test interrupts one run at one point.",
     ["src/interrupt.rs", "src/process.rs", "src/process/unix.rs", "src/lab.rs"],
     [("interrupt flag", "src/interrupt.rs"), ("poll and terminate", "src/process.rs")],
     ["exit status", "process table", "mutants.out", "temporary directory"],
     "signals injected at generated points (phase, mutant index, delay) of generated runs; invariants over processes, files and reports",
     "Random injection points.", "fault_enumeration")

prop("C18", "The copied tree equals the source tree, except for documented exclusions",
     "Every build directory copy contains each file, directory and link of the source tree with the same bytes, file permissions and link targets, except version-control directories, mutants.out directories, and files ignored by git ignore files when that is enabled in a git tree. With the corresponding options, exactly those exclusions are lifted or applied. Copies for additional jobs are no different.",
     ["inputs", "configurations"], "all directory trees, ignore files and copy options",
     "Tests check a few files in one or two trees.",
     ["src/copy_tree.rs", "src/build_dir.rs"],
     [("tree walk", "src/copy_tree.rs copy_tree"), ("options", "src/options.rs gitignore/copy_target")],
     ["directory seen by the cargo child process"],
     "random directory trees with ignore files; differential oracle git check-ignore, and snapshot comparison",
     "Random search.")

prop("C19", "Relative paths in copied manifests and cargo config refer to the same places",
     "In a copied tree, every path dependency, replacement or patch in the top manifest that leaves the tree, and every path override in the cargo configuration, resolves to the same place as in the original. Paths that stay inside the tree keep pointing into the copy, and all other content of those files means the same as before.",
     ["inputs"], "all manifests and cargo configuration files with any path entries",
     "Tests fix up a couple of manifests.",
     ["src/manifest.rs", "src/build_dir.rs"],
     [("manifest rewriting", "src/manifest.rs fix_manifest_toml / fix_cargo_config")],
     ["Cargo.toml and .cargo/config.toml seen by the cargo child process"],
     "generated TOML documents parsed before and after; oracle resolves each path against original and copy",
     "Random search.")

prop("C20", "Child cargo commands carry exactly the configured arguments and environment",
     "Every child cargo command is composed as documented: the subcommand for the phase and test tool, package selection, profile, features, extra cargo arguments, and for test phases the extra test arguments, in a directory of the build tree. Snapshot tests in children are never allowed to rewrite files, the lint-cap setting only extends existing compiler flags, and apart from the job server variables nothing else of the environment is changed. The same options give the same command for the baseline and for each mutant apart from the package selection.",
     ["configurations", "inputs"], "all combinations of command-line and configuration options and inherited environment",
     "Unit tests have a handful of combinations.",
     ["src/cargo.rs", "src/options.rs"],
     [("argument list", "src/cargo.rs cargo_argv"), ("encoded flags", "src/cargo.rs encoded_rustflags")],
     ["argv and environment of the cargo child processes"],
     "random option/config/environment combinations; reference model of argv and environment compared with what the stub received",
     "Random search.")

prop("C21", "Command-line options and configuration file merge as documented",
     "For each setting that can come from both the command line and the configuration file, the effective value is as documented: the command line wins for single values and filters, and the lists that are documented as cumulative are combined. Unknown keys or wrongly typed values in the configuration are refused. With configuration disabled the file has no effect.",
     ["configurations"], "all combinations of command-line options and configuration contents",
     "Tests check several settings one at a time.",
     ["src/options.rs", "src/config.rs", "src/main.rs"],
     [("merge", "src/options.rs Options::new"), ("parsing", "src/config.rs")],
     ["--list", "cargo child processes"],
     "random pairs of command line and configuration; reference merge model, with effects observed in listings and child commands",
     "Random search.")

prop("C22", "The packages mutated and the packages tested are the ones selected",
     "The packages mutated are exactly those given by --package, --workspace or the directory the command is run in, as documented, each once; unknown packages are warned of and never widen the selection. Each mutant is built and tested with its own package, the whole workspace, or the named packages according to the test-package settings, and the baseline likewise, with all packages being mutated by default. Package and file names in reports match the package that contains the file.",
     ["configurations", "inputs"], "all workspaces, directories, package selections and test-package settings",
     "Tests use two fixed workspaces.",
     ["src/workspace.rs", "src/package.rs", "src/options.rs", "src/cargo.rs"],
     [("package filter", "src/workspace.rs PackageFilter"), ("test packages", "src/options.rs TestPackages")],
     ["--list --json", "argv of the cargo child processes"],
     "random workspaces and selections; reference model of package selection and of package arguments",
     "Random search.")

prop("C23", "Output directories are rotated, locked and readable at every moment",
     "Each run starts with a fresh output directory, the previous one being kept whole under the .old name and the one before that dropped; a run starting while another holds the directory waits for it, so that two never write there at the same time. When a run is killed at any instant, the reports on disk are well-formed and hold exactly the mutants finished by then, give or take the one in progress per job. Listing never touches an output directory.",
     ["histories", "crash_points", "schedules"], "all sequences and overlaps of runs and all kill points",
     "Tests check one rotation and one lock.",
     ["src/output.rs"],
     [("rotation and lock", "src/output.rs OutputDir::new / LockFile"), ("incremental writes", "src/output.rs add_scenario_outcome")],
     ["mutants.out and mutants.out.old"],
     "random histories of completed, killed and overlapping runs; reference model of rotation and of report contents from the child event record",
     "Kill points at file-system calls and by timing; not every instruction boundary.", "fault_enumeration")

prop("C24", "Results and listings are deterministic and agree in every form",
     "The same tree and options always give the same mutants in the same order, in plain, JSON, coloured and diff listings alike, whatever the location of the tree, the working directory, the file system order or the locale. A test run with the same options tests exactly the listed mutants, in that order when shuffling is off, and reports them under the same names. Listing needs no build and changes nothing. Listings and messages that do not go to a terminal are coloured exactly when colours are forced on: NO_COLOR and then CLICOLOR_FORCE, if set to other than 0, win over --colors, which wins over CARGO_TERM_COLOR; the JSON listing never is.",
     ["inputs", "configurations"], "all trees and options, repeated runs from different places",
     "Tests compare fixed snapshots from one place.",
     ["src/list.rs", "src/main.rs", "src/visit.rs", "src/lab.rs"],
     [("listing", "src/list.rs"), ("path display", "src/path.rs")],
     ["--list in its forms", "--list-files", "mutants.out"],
     "metamorphic: same generated tree listed in different forms, places and environments and then tested; equality of results",
     "Random search.")


prop("C25", "Odd input is refused with an error, never a crash, a hang or silence",
     "Whatever the text of the source files, of a diff given to --in-diff, of the configuration file, the numbers given as options, or the state in which an earlier output directory was left, the command ends by itself and either does what was asked or stops with an error message and exit status 1; it never panics. A file of the module tree that is not UTF-8 or does not parse as Rust is such an error, naming the file, even when filters exclude it: nothing is listed and cargo is not run. Negative or non-finite time limits and multipliers, and a configuration that is not valid TOML, are refused before anything is run.",
     ["inputs", "configurations"], "all texts of source files, diffs and configuration files, all option values, all leftovers of earlier runs",
     "Tests have a few malformed inputs; crashes and silent omissions hide in the combinations nobody wrote down.",
     ["src/visit.rs", "src/in_diff.rs", "src/options.rs", "src/config.rs", "src/output.rs", "src/source.rs", "src/fnvalue.rs", "src/timeouts.rs"],
     [("parsing of source files", "src/visit.rs walk_file / src/source.rs SourceFile::load"), ("diff parsing", "src/in_diff.rs diff_filter"), ("option values", "src/options.rs Options::new"), ("previous output", "src/output.rs")],
     ["exit status", "stderr", "stdout", "cargo child processes"],
     "fuzzing by edits of tokens, bytes and lines of real and generated files, diffs, configurations and output directories, with the oracle that the run ends with a documented status and no panic, and refuses what is wrong by construction",
     "Random search; two inputs that trip third-party code are listed as known findings.")


prop("C26", "Failing file operations and child starts are reported, never hidden",
     "If, at any point of a run, of a listing or of an iterated run, an operation of the program on its files (opening, reading, writing, locking, creating, renaming, listing) or the start of a child process fails, once or from then on as on a full disk, then the command still ends by itself, and either the failure made no difference, the exit status, results and reports being what they are without it, or it ends with an error message and a status no finished run has, and whatever its reports then say is true. A failure never turns into a mutant's result, a missing mutant, an incomplete report of a successful run, or endless waiting.",
     ["faults", "crash points"], "every operation of every run as the failing one, every error number, any number of jobs",
     "Tests run on healthy file systems; each of the hundreds of operations of a run can fail, and an ignored error shows only as a silently wrong or partial result.",
     ["src/output.rs", "src/copy_tree.rs", "src/build_dir.rs", "src/lab.rs", "src/process.rs", "src/source.rs", "src/visit.rs", "src/config.rs", "src/main.rs"],
     [("writing and locking the output directory", "src/output.rs"), ("copying and mutating the tree", "src/copy_tree.rs, src/build_dir.rs"), ("errors of workers", "src/lab.rs join_threads, run_one_scenario"), ("starting children", "src/process.rs Process::start"), ("reading sources, configuration and memory of earlier runs", "src/source.rs, src/config.rs, src/output.rs load_previously_caught")],
     ["exit status", "stderr", "outcomes.json, text lists", "listing output"],
     "fault injection at generated points into generated runs, compared with the same run without the fault (differential), and with the model of results",
     "Faults are injected into calls of the C library by a preloaded shim; failures to remove temporary files, of metadata queries, of standard output and of the debug log are not injected.")


def main():
    have = {"C" + f[1:3] for f in os.listdir(V + "/harness") if re.match(r"c\d\d_.*\.py$", f)}
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
             notes="All checks rebuild cargo-mutants from /repo's working tree; see DESIGN.md.")
    for p in P:
        if p["id"] in have:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                                    technique="property-based testing: " + p["technique"], level=p["level"], level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")


main()
