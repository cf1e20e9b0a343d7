#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = []
def check(pid, crate, technique, note, level="exploration"):
    cmd = f"./check.sh {crate} {pid}"
    C.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
              "evidence_file": f"evidence/{pid}.json", "technique": technique, "level": level, "level_note": note})
G = "seeded proptest generation with shrinking; holds on the cases explored, not beyond"
check("C01", "lsp", "stateful model-based PBT against a reference editor buffer", G + "; lone CR line ends are outside the domain")
check("C02", "lsp", "PBT: round trip and a reference position calculator written from the LSP specification", G + "; every boundary of each generated text, three encodings")
check("C03", "lsp", "stateful PBT with injected invalid changes: state equality and metamorphic removal of the refused ones", G)
check("C04", "lsp", "stateful PBT over client operations across clones and threads, against a model of the channel", G + "; thread schedules are sampled, not enumerated")
check("C05", "core", "grammar-based PBT against a structured DESCRIPTION, plus mutation fuzzing for crashes", G)
check("C06", "core", "grammar-based PBT and mutation against a reference classifier of directives", G)
check("C07", "core", "grammar-based PBT and mutation against a reference parser of chunk-suppression items", G)
check("C08", "core", "grammar-based PBT of documents against their generated structure, fence-sequence and raw-text fuzzing", G)
check("C09", "core", "PBT over paths against a reference classifier and a reference lexical path resolver", G)
check("C10", "core", "exhaustive check of the registry against the published list, PBT of selections and rule sets against sets", "the registry is enumerated completely; texts, selections and set operations are sampled")
check("C11", "cli", "PBT on subprocesses: exit codes, level names, event filtering against a reference filter", G + "; outcomes, levels and their order are enumerated")
check("C12", "core", "PBT: ordering, JSON round trip and rendering of locations", G)
check("C13", "zed", "stateful model-based PBT with injected network and disk faults, against a model of the choice of binary", G + "; the editor is a stand-in, the file system is real")
check("C14", "xtask", "stateful model-based PBT over nested scopes, commands and file operations, against a model of the process environment", G)
S = "; the parser and syntax-tree crates, which no network can bring here, are stand-ins that pass all of jarl's own tests"
check("C20", "full", "grammar-based PBT and token/character mutation fuzzing against the invariants of a diagnostic", G + S)
check("C21", "fix", "PBT of fix passes over arbitrary texts and ranges: independent splice, explanation of the result by a set of non-overlapping fixes", G)
check("C22", "full", "PBT of the fix loop: termination, validity, comments kept, idempotence, nothing fixable left", G + S)
check("C25", "full", "metamorphic PBT: the diagnostics of a set of rules are the union of those of each rule alone", G + S)
check("C26", "full", "metamorphic PBT: re-layout of generated programs at token level, concatenation of files", G + S)
check("C39", "full", "PBT: instances of every documented pattern at any place with any operands, syntax tree after the fix against that of the documented replacement", G + S)
check("C40", "full", "PBT: instances of every documented pattern at any place with any operands: reported there once; replacements and near misses: not reported", G + S)
check("C24", "full", "PBT: nested programs with suppression comments everywhere, against a model of the documented scopes", G + S)
check("C27", "full", "differential PBT: documents against their chunks linted as scripts, chunk suppressions against a model", G + S)
check("C36", "full", "model-based PBT: generated packages on disk, what is reported against a model of their definitions, uses and exports", G + S)
F = "; the whole program runs as a subprocess, as an unprivileged user in a scratch directory"
check("C28", "fcli", "metamorphic PBT: the same project run again, with the paths permuted, with other thread counts and file creation orders", G + S + F)
check("C29", "fcli", "differential PBT: every output format of the program over generated projects decoded and compared with one another and with the exit code", G + S + F)
check("C23", "fcli", "model-based PBT: projects with lists of rules in the configuration and on the command line, files after the run against the rules allowed, line by line and as a whole", G + S + F)
check("C30", "fcli", "model-based PBT: trees of configurations, valid or not, what is reported in each file against the settings of the nearest", G + S + F)
check("C31", "fcli", "model-based PBT: trees of files and pattern lists, the files reported on against a matcher of .gitignore patterns", G + S + F)
check("C32", "fcli", "model-based PBT with injected states of version control (nested and linked work trees, ignored, staged and untracked files): nothing changes, or everything that should", G + S + F)
check("C33", "fcli", "metamorphic PBT: generated projects with several placements on a line, run with --add-jarl-ignore: syntax tree, comments, report of a new run, and a second run", G + S + F)
check("C35", "fcli", "stateful PBT: generated sessions of messages (valid, malformed, out of order, pipelined) with the real server process over stdio, answers and final diagnostics against a protocol model", G + S + F)
check("C34", "fcli", "differential PBT: generated workspaces opened in the real server process, in every encoding, diagnostics and code actions against what the command line reports and does for the same files", G + S + F)
check("C37", "fcli", "model-based PBT: generated trees of DESCRIPTION files and version texts with code for every versioned rule, what is reported against a model of versions", G + S + F)
check("C38", "full", "model-based PBT: generated functions and files of branches, loops and jumps, statements reported against those an execution can get to", G + S)
check("C41", "full", "model-based PBT: generated option tables and code, diagnostics (place and message) and fixed files against a model of the rules", G + S)
check("C42", "full", "model-based PBT: generated formats, patterns, numbers and argument lists, diagnostics and fixes against models of the three languages and of argument matching", G + S)
check("C43", "vscode", "stateful model-based PBT with injected failures and delays of the server, over generated workspaces, settings and files, against a model of the extension", G + "; the editor, its language client and its promise queue are stand-ins, node and the file system are real")
check("C44", "full", "differential PBT: generated configurations, valid and with changed keys and types, judged by a JSON schema validator on the published schema and by jarl's own reader", G)
check("C45", "fcli", "model-based PBT: generated folders, configurations, options and environments, the sections of the output against a model and the rest against a plain run", G + S)
check("C46", "fcli", "model-based PBT: generated configurations and options with unknown names and values, exit code, output and files against a model", G + S)
check("C47", "full", "model-based PBT: generated instances of documented patterns, words of message and help against those of the pattern and its documented replacement", G)
#MORE
claimed = {c["property"] for c in C}
NA = {}
DEFAULT = "the code this property is about (linter, configuration, command line, server loop) cannot be compiled in this sandbox: its parser and syntax crates (air_r_parser, air_r_syntax, biome_*) are git dependencies that are not cached and there is no network, so no generated input can be run against it"
#NA
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": C,
     "not_applicable": [{"property": i, "reason": NA.get(i, DEFAULT)} for i in ids if i not in claimed]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
