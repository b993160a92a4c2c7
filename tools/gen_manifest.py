#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json; a check is listed when the harness registers it."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = {}
for f in glob.glob(os.path.join(V, "harness", "*.go")):
    for m in re.finditer(r'register\(&Prop\{ID: "(C\d\d)", Level: "(\w+)"', open(f).read()):
        have[m.group(1)] = m.group(2)
T = {
"C01": ("exhaustive enumeration of ledger grammars against a strict reference reader and book model", "Every file of the stated alphabets and lengths; nothing about longer files or other characters. Trusts the reference reader."),
"C02": ("exhaustive enumeration of short inputs and of every single fault in well-formed files", "Every byte string of the alphabets up to the bound, every truncation, deletion and substitution of the base files, and every failed include arrangement; the verdict is the strict reference reader's."),
"C03": ("explicit-state exploration of all operation sequences on the real book, double-entry invariants in every state", "All sequences of the 25 operations up to the depth from each of the starting books; other arguments and deeper sequences are not covered."),
"C04": ("explicit-state exploration of all operation sequences, real book in lockstep with a reference model", "As C03, compared after every operation with an independent model written in rationals."),
"C05": ("exhaustive enumeration of operation strings and macro tables against a reference interpreter", "Every string of the fragment alphabet up to the bound, every macro table up to the bound, through the API and the three commands."),
"C06": ("exhaustive enumeration of small books and report settings against a reference accumulation", "All books of the alphabets crossed with the settings; report text checked cell by cell."),
"C07": ("exhaustive enumeration of price tables, dates and lookup sequences against exact rational interpolation", "All tables up to the bound over the date and value grid, in every recording order."),
"C08": ("exhaustive enumeration of every date of years 1-9999 against an independent calendar", "Complete for the stated dates and offsets; no sampling."),
"C09": ("exhaustive enumeration of date strings and of every current day with an owned clock", "All strings over the alphabet up to the bound; the clock is set to every day of the stated years through a Go runtime overlay."),
"C10": ("exhaustive enumeration of small books and register options against a reference register", "All books of the alphabets crossed with the options, through the API and all three output types."),
"C11": ("exhaustive enumeration of record sets, import histories and script arguments against a reference import", "All record sets and histories up to the bound; each output is loaded again."),
"C12": ("exhaustive enumeration of book pairs and map iteration orders, real code against a reference chooser", "Every map iteration seed of the bounded set is explored through a Go runtime overlay."),
"C13": ("exhaustive enumeration of books reachable by loading and operations; export-load-export round trip", "All books of the alphabets, all languages, all operation sequences up to the depth; finite decimals only."),
"C14": ("exhaustive enumeration of small books and texts; every output format parsed back and compared with the model", "Formats are read back by independent readers (Go's CSV, JSON and HTML tokenizers and a Beancount reader of our own)."),
"C15": ("stateless exploration of map iteration orders of the real program; outputs compared byte for byte", "All orders of the bounded set of start positions; commands, ledgers and options of a stated list."),
"C16": ("crash-point, torn-write and fault enumeration over the intercepted file system calls of the real save", "All prefixes of the system call log, all block-loss patterns of unsynced writes, all single and double call failures, of all save histories up to the bound."),
"C17": ("exhaustive fault and history enumeration of the real clients against a scripted bank", "All single request faults, page boundaries and two-run histories for small accounts; the bank is our reading of the public APIs used by the clients."),
"C18": ("exhaustive enumeration of strings, widths and tables against a reference layout", "All strings over the alphabet up to the bound; terminals of every width up to the bound."),
"C19": ("exhaustive enumeration of configuration file subsets, contents, environments and flags against a reference search", "All subsets of the searched places, all keys and values of the alphabet, all file-versus-flag combinations."),
"C20": ("explicit-state exploration of all interleavings of queries and operations on a book and its duplicate", "All sequences up to the depth over 12 queries and 9 (12) operations on six starting books; what an operation does by itself is decided by C04."),
"C21": ("exhaustive enumeration of commands, option combinations, argument strings, configurations and small ledgers, and of the built program against the same commands in process", "A crash (also one turned into an error text), hang, memory exhaustion, wrong status or malformed JSON/CSV of any of the enumerated command lines is reported; other texts are not covered."),
"C22": ("exhaustive enumeration of books, expressions and amounts against a reference listing", "All books of the alphabets through the API and both commands."),
"C23": ("exhaustive enumeration of conventional cash flows; the computed rate checked as a root by interval evaluation", "All flows over the amount and date grid up to the stated length."),
"C24": ("exhaustive enumeration of script programs over the script API against the reference model", "All programs of the operation alphabet up to the bound on each of the books; error programs are run for every failing statement."),
"C25": ("stateless model checking of the real authorisation flow: every schedule of the statements of two callback handlers and the waiting program up to a preemption bound, and exhaustive enumeration of callback requests and failures", "The real loopback server of the program is called; the token endpoint is a scripted HTTP transport. Scheduling points before every statement of cmd/download (source overlay), so statements are atomic and the Go HTTP server itself is not scheduled. Quick: 2 preemptions, thorough: 3."),
}
T["C26"] = ("exhaustive enumeration of ledger sizes, terminal heights, commands and pager behaviours on a real pseudo-terminal, compared with the bytes of a file", "All heights and sizes up to the bound and fourteen behaviours of the pager; the stand-in pager runs as a real process whose scheduling is not controlled.")
T["C27"] = ("exhaustive enumeration of write failures: every write call and every byte offset of standard output of every printing command, through a hooked file system, and of the built program on full, closed and limited files", "All single failures (thorough: pairs) of every command in every format over ledgers of several sizes; progress and help texts and standard error are not covered.")
T["C28"] = ("exhaustive enumeration of operation sequences x periods x conversions on the real report command, read back from every format and compared with a reference model", "All sequences up to the depth (quick 1, thorough 2) of the operation alphabet on each of the books; splitting at today's date is not covered.")
names = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in names:
    if i in have:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} --tier quick", "thorough_cmd": f"python3 run.py check {i} --tier thorough",
                       "technique": t, "level": have[i], "level_note": n})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "python3 run.py build",
     "hooks": {"guard": "none in /repo; build tag verifmc compiles the harness package, build tag verifhooks the Go standard library overlay", "enable": "run.py builds with go build -overlay: the harness as an extra package of the module and, for the hooked checks, patched copies of four standard library files (map iteration, clock, file system calls)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One driver, run.py; the harness is harness/*.go. Levels: model_checking = explicit-state or lockstep exploration of operation histories, exploration = exhaustive enumeration of bounded inputs against a reference, fault_enumeration = enumeration of faults or crash points."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not claimed")
