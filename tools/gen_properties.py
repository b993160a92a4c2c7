#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one dict each)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Loading a ledger file reproduces exactly what the file says",
 "For every well-formed ledger file, the loaded book holds exactly the transactions, postings, prices and notes written in it: dates, payees, accounts, currencies and exact decimal amounts of any length, with postings of the same account and currency in one transaction added together. Account aliases apply from the line they are declared on to the end of that file and inside the files it includes (and nowhere else), included files are read relative to the including file at the point of inclusion, and repeated date/payee pairs stay separate transactions under a numbered payee. A posting without an amount receives, for each currency that does not balance yet, exactly the balancing amount.",
 ["inputs"], "all ledger files", "No test in the repository loads a ledger file at all; the grammar is open-ended (item order, spacing, quoting, aliases, includes, elision, number widths).",
 ["loader/lexer.go","loader/parser.go","book/builder.go","book/book_compact.go"],
 [("character-level recursive-descent reader","loader/parser.go ParseFile, parsePosting, parseTransaction, parsePrice"),("decimal scanner","loader/lexer.go parseAmt"),("transaction bookkeeping and elided amounts","book/builder.go")],
 ["book.Transactions()", "book.GetPriceList()"])

prop("C02", "A bad ledger file is reported as an error, never altered or crashed on",
 "A ledger file with a transaction that does not balance in some currency (the last one included), an amount without a currency, a posting outside any transaction, a price without unit or currency, a date that is not a calendar date, an unknown directive or left-over text on a line is refused with an error. No input, however malformed or truncated, crashes the program, hangs it, or is silently accepted with some of its text ignored.",
 ["inputs"], "all byte sequences as ledger file, and all single faults in well-formed files", "The tests load no file; the space of malformed inputs is unbounded and the failure is silence, which no sampled test looks for.",
 ["loader/lexer.go","loader/parser.go","book/builder.go","cmd/app/app.go"],
 [("parser panics turned into errors","loader/parser.go parseFileLocal recover"),("balance check per transaction","book/builder.go checkAndClearTransaction"),("loading entry point","cmd/app/app.go LoadBook")],
 ["exit status and error of every command", "loader.ParseFile error"])

prop("C03", "Double entry survives every sequence of operations on a book",
 "After loading a balanced ledger and applying any sequence of book operations (map, move, mapccy, since, asof, combine, depreciate, duplicate-removal, reclassification), every transaction of the book still sums to exactly zero in every currency. Transactions appear in date order then payee order, each date/payee pair once; inside one, every account/currency pair appears once, in order, with a non-zero amount; and the running balance of every posting equals the exact sum of all postings to that account and currency up to it.",
 ["histories","inputs"], "all operation histories over all balanced books", "The tests apply no operation and check no balance; the property is about arbitrary compositions of in-place mutations that share memory.",
 ["book/book.go","book/book_utils.go","book/book_compact.go","book/book_dedup.go","book/book_reclassify.go"],
 [("re-normalisation after each mutation","book/book_compact.go compact"),("paired postings","book/book.go AdjustPost, Depreciate")],
 ["book.Transactions()"],
 [{"name":"posting slice and transaction views","meaning":"current normalised contents of a book","where":"book/book.go Book"}])

prop("C04", "Each book operation does exactly what its documentation says",
 "map renames exactly the accounts that match (capture groups substituted, the alternate account for the rest when given); mapccy renames matching currencies in postings, prices and displayed precision; move and depreciate transfer exactly the stated share of every matching posting (depreciate: all of it at once, then equal parts on the posting date and the first day of each following month); since keeps dates from the given day on, asof keeps dates strictly before it; combine floors dates to the period start and merges what coincides. Amounts stay exact, nothing that does not match is touched, and after any sequence of operations the book equals that of an independent model applying the same sequence.",
 ["histories","inputs"], "all sequences of operations with all their arguments over all books", "No test covers any operation; interactions between operations (merging, aliasing of shared amounts, stale views after filters) only show after specific sequences.",
 ["book/book.go","book/book_utils.go","book/book_compact.go","cmd/app/book_op.go"],
 [("operation dispatch","cmd/app/book_op.go bookOp"),("mutators","book/book.go MapAccount, AdjustPost, Depreciate, SplitBy, FilterTransaction; book/book_utils.go RegexAccounts, RegexCCY")],
 ["book.Transactions()", "book.GetPriceList()", "goledger export"])

prop("C05", "Operation strings are applied or rejected; macros expand like inline text",
 "Every operation argument given to report, export or register is either carried out as documented or refused with an error naming it (or the macro the user wrote): unknown operations, wrong argument shapes, invalid regular expressions, numbers, dates or periods never crash and are never ignored. A macro, including macros inside macros, has exactly the effect of writing its operations in its place, and a macro that refers to itself is refused.",
 ["inputs","configurations"], "all operation strings and all macro tables", "No test parses an operation or expands a macro.",
 ["cmd/app/book_op.go","cmd/reports/report.go","cmd/export/export.go","cmd/register/register.go"],
 [("operation grammar and macro expansion","cmd/app/book_op.go BookOps, bookOp")],
 ["exit status and output of report/export/register"])

prop("C06", "Report totals equal the sum of what is beneath them",
 "In a summarised report, for every period and every account group shown, the group total equals the exact sum of the postings to that account and all accounts below it, each converted to the base currency at the price of that period's date; every account present in any period has a line in every period, zero when it has no postings, and the same lines appear in the same account structure in each. Accounts that share leading components are gathered under a group, each line is placed under its enclosing group, its indentation level and shortened name together give the full account name, siblings are ordered by descending total, accounts matching the credit expression have their sign flipped for display only, and the hidden account alone is left out. Producing a report does not change the book.",
 ["inputs","configurations"], "all books, account hierarchies, prices, base currencies, dividers, credit and hidden settings", "The accumulation tests check a few hand-written books with one to three currencies; depth, ties, magnitude, account-name ordering and multi-period interplay are unbounded.",
 ["book/book_accum.go","book/price.go","cmd/reports/report.go","cmd/reports/text.go"],
 [("accumulation","book/book_accum.go Accumulate"),("ordering key","book/book_accum.go getSortOrderString"),("tabular layout","cmd/reports/text.go ShowTransactions")],
 ["book.Accumulate result", "goledger report output"])

prop("C07", "Price lookup is exact, interpolated linearly, and inverted consistently",
 "For any set of recorded prices (at most one per pair and day) and any date, the price of a unit in a currency is the recorded one on a recorded date, the nearest recorded one outside the recorded range, and the exact linear interpolation by days between the two neighbouring records otherwise; a pair recorded only in the other direction gives the exact reciprocal, a currency in itself is 1, and an unknown pair is 1 and marked as such. The order in which prices were recorded does not matter, and looking prices up one date after another, in date order, gives the same answers as looking each up on its own.",
 ["inputs","histories"], "all price tables, all dates, all lookup sequences", "Two tests check ten lookups in two tables.",
 ["book/price.go"],
 [("binary search and interpolation","book/price.go PriceList.GetPrice"),("sequential lookup","book/price.go PriceIterator.GetPrice"),("direct and inverse pairs","book/price.go getPrice")],
 ["book.GetPrice", "PriceList.GetIterator"])

prop("C08", "Calendar arithmetic agrees with the Gregorian calendar",
 "For every calendar date, converting to a day number and back is the identity, consecutive dates have consecutive day numbers, differences and additions of days agree with the Gregorian calendar, and flooring to year, quarter or month (with any positive or negative offset) gives the first day of the right period. The fractional-year position of a date grows strictly with the date and is the number of whole years passed since the beginning of year 1 plus the elapsed share of the current year.",
 ["inputs"], "all dates of years 1 to 9999, all day and period offsets", "The tests check nine pairs of dates.",
 ["book/date.go"],
 [("day counting","book/date.go AsDays, GetDateFromDays"),("period flooring","book/date.go FloorYear, FloorQuarter, FloorMonth"),("year fraction","book/date.go AsYears")],
 ["book.Date methods"])

prop("C09", "Date text means the date it says, on every day it is evaluated",
 "Every accepted spelling of a date (YYYY, YYYY-MM, YYYY-MM-DD, YYYYMMDD, DD-MM-YYYY with the documented separators) denotes exactly that calendar day, missing parts being the first; this/last/next year, quarter and month denote the first day of that period relative to the current day, whatever day that is, and combining by today uses the current day. Anything that is not a calendar date is rejected where a date is required, never interpreted as some other day or silently dropped.",
 ["inputs","schedules"], "all strings, evaluated on every possible current day", "No test parses a date string of these kinds, and the current day cannot be varied by a test without owning the clock.",
 ["book/date.go","cmd/app/book_op.go","cmd/register/register.go","loader/lexer.go"],
 [("date text patterns","book/date.go DateFromString"),("current day","book/date.go GetToday")],
 ["book.DateFromString", "since=/asof= operations", "register --begin/--asof"],
 hook="the clock (time.Now), replaced by a build overlay of the Go runtime library; no change to the repository")

prop("C10", "The register shows every matching posting, with correct running balances",
 "A register over a set of accounts lists, in date order, every posting to them that has a counter-posting of opposite sign in the same currency and transaction, the amounts allocated to its counter-accounts adding up exactly to the posting; each balance is the exact running total of the listed amounts in that currency, and each base-currency amount is the amount converted at the rate traded in that transaction, else at the recorded price for that day. A date window, a count limit (positive keeps the first entries, negative the last) and descending order select or reverse entries without altering them, in text, CSV and JSON alike, and the per-account form shows exactly the matching accounts one by one.",
 ["inputs","configurations"], "all books, account expressions and option combinations", "No test runs the register.",
 ["book/registry.go","cmd/register/register.go","cmd/register/show_register.go","book/transaction.go"],
 [("allocation and balances","book/registry.go ExtractRegister"),("window","book/registry.go FilterByDate"),("count and order","cmd/register/show_register.go ShowReport"),("traded rate","book/transaction.go InferRate")],
 ["book.ExtractRegister", "goledger register"])

prop("C11", "Imports become balanced postings; importing twice adds nothing",
 "Every record added by an import or generate script becomes one balanced transaction with exactly the given date, payee, amount divided by its denominator, currency, accounts and notes (defaults filled in as configured, the optional second amount posted against the same counter-account), from CSV (with or without header, any delimiter) and JSON data; the printed result, read back as a ledger, contains exactly those transactions. With duplicate removal on, exactly the transactions whose date and payee already exist in the ledger are left out, so importing the same data again after appending the output adds nothing, and a transaction already printed for an earlier file of the same run is not printed again. A missing, non-numeric or infinite amount, a zero denominator or an invalid date is an error.",
 ["inputs","histories"], "all record sets, ledgers, file sequences and import histories", "No test runs an import.",
 ["cmd/importer/import_op.go","cmd/importer/import.go","cmd/importer/starlark.go","cmd/generate/generate.go","script/starlark.go","script/convert.go","book/book_dedup.go","cmd/reports/ledger.go"],
 [("posting constructor available to scripts","script/starlark.go GetBuilderFunction"),("amount conversion","script/convert.go GetBigRat"),("merge-style duplicate removal","book/book_dedup.go RemoveDuplicatesOf")],
 ["goledger import / generate output", "book.RemoveDuplicatesOf"])

prop("C12", "Reclassification picks the best-matching known payee and only renames accounts",
 "Reclassifying a book against a reference changes nothing except the counter-account of two-posting transactions that involve the reference account, whose new counter-account is the one most often used in the reference book's two-posting transactions by the payee that scores highest under the given similarity (no change when nothing scores above zero). Amounts, dates, payees, currencies and the number of transactions stay the same, and equal candidates are always resolved the same way.",
 ["inputs","schedules"], "all pairs of books, all similarity functions, all map iteration orders", "No test reclassifies anything, and ties depend on the runtime's random map order.",
 ["book/book_reclassify.go"],
 [("majority counter-account per payee, best payee per transaction","book/book_reclassify.go ReclassifyByAccount")],
 ["book.ReclassifyByAccount", "goledger import --reclassify"],
 hook="map iteration order, owned through a build overlay of the Go runtime; no change to the repository")

prop("C13", "Exporting to ledger format and loading it back is lossless",
 "For every book whose amounts are finite decimals and whose names can be written in the file format (accounts of letters, digits and & ' : _, non-empty currencies, no line breaks), the Ledger export, in every display language and after any operations, loads back into a book with the same transactions, payees, notes, postings, exact amounts and prices. Exporting that again gives the same text up to trailing zeroes, and from then on the identical text.",
 ["inputs","configurations","histories"], "all books reachable by loading and operations, all languages", "No test exports anything; loss depends on value precision, quoting needs and locale.",
 ["cmd/export/ledger.go","cmd/app/print.go","loader/parser.go","book/builder.go"],
 [("ledger writer","cmd/export/ledger.go ShowLedger"),("number formatting","cmd/app/print.go FormatNumber")],
 ["goledger export --type=Ledger", "loading the result"])

prop("C14", "CSV, JSON, HTML, Beancount and ledger outputs all state the book's contents",
 "The CSV and JSON exports, the Ledger and Json reports, the HTML report and the Beancount exports list every transaction and posting of the book (after operations) once, in order, with its date, payee, account, currency, amount and its own transaction and posting notes (the HTML report shows no notes and amounts as displayed; Beancount names are capitalised), and are well-formed documents whatever characters the ledger text contains. Amounts in CSV, Beancount and Ledger form are exact where they have a finite decimal form and else rounded, amounts in JSON are the nearest floating-point number (refused beyond its range), and a Beancount export opens every account no later than its first posting and closes it only, and after its last posting, if its balance is zero in every currency.",
 ["inputs","configurations"], "all books and output options", "No test produces any output format.",
 ["cmd/export/csv.go","cmd/export/beancount.go","cmd/export/export.go","cmd/reports/html.go","cmd/reports/beancount.go","cmd/reports/ledger.go","book/transaction.go","book/posting.go"],
 [("CSV writer","cmd/export/csv.go"),("JSON marshalling","book/transaction.go, book/posting.go MarshalJSON"),("Beancount writer","cmd/export/beancount.go, cmd/reports/beancount.go"),("HTML writer","cmd/reports/html.go")],
 ["goledger export / report output"])

prop("C15", "The same command on the same files always prints the same bytes",
 "Every command, run twice on the same ledger, configuration, day and arguments, produces byte-identical output and the same exit status, whatever order the runtime happens to iterate its hash maps in.",
 ["schedules","inputs","configurations"], "all map iteration orders, all ledgers and commands", "A test sees one random order per run and compares with nothing.",
 ["book/book.go","book/book_utils.go","book/book_accum.go","book/book_reclassify.go","cmd/currencies/currencies.go","cmd/export/beancount.go","cmd/export/ledger.go","cmd/reports/beancount.go"],
 [("sorting before output","book/book_compact.go compact, book/book.go Accounts, book/book_accum.go")],
 ["standard output of every command"],
 hook="map iteration order, owned through a build overlay of the Go runtime; no change to the repository")

prop("C16", "A saved state file is always the complete old or the complete new state",
 "Whatever the moment of a crash, the shortness or failure of a write, or the failure of any file operation while state is being saved, plain or gzip-compressed, loading the file afterwards yields exactly the previously saved state or exactly the new one, never a truncated or mixed one. A save that reports success has durably stored the new state, a failure to store it is reported, and what was saved is what is loaded.",
 ["crash_points","fault_sequences","histories"], "all crash points, torn writes and injected I/O errors of all save histories", "No test saves or loads state, and crashes and I/O errors cannot be produced by ordinary tests.",
 ["cmd/utils/json.go"],
 [("save and load","cmd/utils/json.go SaveToFile, LoadFromFile")],
 ["utils.SaveToFile", "utils.LoadFromFile"],
 hook="file system calls, intercepted by a build overlay of the Go syscall package; no change to the repository")

prop("C17", "A bank download keeps everything it had and gets everything there is",
 "After a successful synchronisation the state file contains every record stored before (updated to the newest version the bank returned) and every account, record and feed the bank holds in the requested window, across any number of pages, repeated runs and new or changed records in between. If any request fails, is refused, is malformed or is cut short, the command reports an error and the state file still holds everything it held before; expired credentials are renewed and saved, and missing authorisation never discards data.",
 ["fault_sequences","histories","inputs"], "all bank contents, page boundaries, request failures and run histories", "No test exercises a download; pagination and partial failure need a scripted bank and fault enumeration.",
 ["cmd/download/monzo.go","cmd/download/starling.go","cmd/download/nordigen.go","cmd/download/net.go","cmd/utils/json.go"],
 [("paging and merge by id","cmd/download/monzo.go GetAllTransactions"),("window since latest record","cmd/download/starling.go syncFeed"),("save only at the end","Sync of each client"),("status and decoding checks","cmd/download/net.go")],
 ["state file after each run", "exit status"],
 hook="clock and HTTP transport; the clock through the build overlay, HTTP through http.DefaultTransport")

prop("C18", "Tables line up: printed columns have the promised width",
 "For any text (colour codes, accents, wide digits, tabs and control characters included) the measured length is the number of visible characters, padding to a width yields exactly that many visible characters, truncated or filled on the requested side, with colour codes preserved; consequently in every table each column starts at the same visible position in every row and no cell content is lost. Numbers of any size are shown rounded exactly to the currency's decimals with the sign and grouping of the display language.",
 ["inputs","configurations"], "all strings, widths and tables", "One test pads one string to five widths.",
 ["cmd/app/print.go","cmd/reports/text.go","cmd/register/show_register.go","cmd/accounts/accounts.go"],
 [("visible length and padding","cmd/app/print.go Length, PadString"),("column layout","cmd/app/print.go PrintColumns"),("money cells","cmd/app/print.go ColumnMoney")],
 ["app.Length, app.PadString", "BookPrinter.PrintColumns output"])

prop("C19", "Configuration is found, created, validated and overridden predictably",
 "The first existing file in the documented search order (or only the one named by GOLEDGER_CONF) is the configuration in force; when there is none the starter file is written to the first place, and the next run accepts it and behaves the same. Unknown keys, unreadable or invalid files are refused with an error, and command-line flags override the file, which overrides the built-in defaults, for every option; where an option has a list of values, each is recognised in any mixture of capital and small letters, with the same effect, and nothing else is.",
 ["configurations","histories"], "all subsets of configuration files, contents, environment settings and flag combinations", "No test loads a configuration.",
 ["cmd/config.go","cmd/root.go","cmd/app/app.go","cmd/reports/report.go","cmd/register/register.go"],
 [("search, decode, default","cmd/config.go load"),("flags with configured defaults","cmd/app/app.go LoadCommand and each Add")],
 ["goledger under different HOME/XDG/GOLEDGER_CONF settings"])

prop("C20", "Looking at a book never changes it, and copies are independent",
 "Listing transactions, accounts, prices or currency decimals, extracting registers and producing summaries, in any order and number, leave the book's contents unchanged and give the same answers each time. A duplicate of a book is unaffected by any later operation on the original, and the other way round.",
 ["histories"], "all interleavings of queries and operations on a book and its duplicates", "The tests look at each book once; interference needs particular sequences over shared memory.",
 ["book/book.go","book/book_accum.go","book/registry.go","book/book_compact.go"],
 [("shared posting storage","book/book.go Book, Duplicate"),("accumulation working copy","book/book_accum.go Accumulate, addEmptyAccounts")],
 ["book.Transactions, Accumulate, ExtractRegister, Accounts, Duplicate"])

prop("C21", "No command crashes, whatever the ledger, options and arguments",
 "Every command line ends with a normal result or with an error message and non-zero status; none panics, loops forever or exhausts memory, for any ledger (empty, single-posting, multi-currency, missing prices, zero prices, huge amounts), any combination of options and any argument text.",
 ["inputs","configurations"], "all commands, option combinations, argument strings and small ledgers", "No test runs a command.",
 ["main.go","cmd/root.go","cmd/reports/report.go","cmd/reports/text.go","cmd/reports/html.go","cmd/register/register.go","cmd/export/export.go","cmd/accounts/accounts.go","cmd/currencies/currencies.go","cmd/app/print.go"],
 [("command wiring","cmd/root.go Execute")],
 ["process exit and output"])

prop("C22", "Account and currency listings are complete and precise",
 "The account listing shows, sorted and once each, exactly the accounts that match the expression and, unless all accounts are asked for, have a non-zero closing balance in at least one currency, identically as table and JSON. The currency listing shows every currency in use with the smallest number of decimals that displays all its loaded amounts exactly, and numbers are displayed with that many decimals.",
 ["inputs"], "all books, expressions and amounts", "No test lists accounts or currencies.",
 ["book/book.go","book/builder.go","cmd/accounts/accounts.go","cmd/currencies/currencies.go"],
 [("account selection","book/book.go Accounts"),("decimals from amounts","book/builder.go Build")],
 ["goledger accts", "goledger ccy", "book.Accounts", "book.GetCCYDecimals"])

prop("C23", "The internal rate of return is a root of the present-value equation",
 "For every dated cash flow with one change of sign (an investment followed by returns, or the reverse, at any dates in increasing order), the computed rate makes the present value of the flows (of at least one currency unit) zero to within the documented tolerance, with time measured in years of actual calendar days, and scaling or negating all flows does not change it.",
 ["inputs"], "all conventional cash flows over all dates", "One test checks seven cash flows.",
 ["book/irr.go","book/date.go"],
 [("Newton iteration","book/irr.go CalculateIRR"),("year fraction","book/date.go AsYears")],
 ["book.CalculateIRR"])

prop("C24", "Scripts see the book as it is and change it only through its operations",
 "A generate script sees every transaction and posting of the ledger with its exact date, payee, account, currency and notes, and amount and balance as the nearest floating-point numbers, in order; its since, asof and map methods have the same effect as the operations of that name, reject invalid arguments with an error, and never affect which generated transactions count as duplicates of the ledger. Script errors, including error() and run-time failures, abort the command with an error and no transactions printed.",
 ["inputs","histories","programs"], "all ledgers and sequences of script operations", "No test runs a script.",
 ["script/book.go","script/book_op.go","script/starlark.go","cmd/generate/generate.go","cmd/generate/starlark.go"],
 [("script view of the book","script/book.go, script/book_op.go"),("generation and duplicate removal","cmd/generate/generate.go")],
 ["goledger generate output"])

prop("C25", "A bank token is stored only for an authorisation that was really granted",
 "During interactive bank authorisation the program exchanges and stores a token only for a callback that carries exactly one code together with exactly the state value it issued; any other callback ends the attempt with an error, stores nothing and leaves existing data intact.",
 ["inputs","schedules"], "all callback requests and their order", "No test runs the authorisation flow.",
 ["cmd/download/monzo.go","cmd/download/net.go"],
 [("callback capture","cmd/download/net.go CaptureCode"),("state comparison","cmd/download/monzo.go NewMonzoClient")],
 ["state file, requests sent to the token endpoint"])

prop("C26", "A terminal shows what a file would get, through the pager when it is long",
 "For every command, ledger and terminal size, the terminal is shown exactly the bytes, in order, that the same command (on a terminal wide enough) writes to a file; a table with more rows than the terminal goes through the pager, output that fits does not, and output that is redirected never does. The command ends only after the pager has, and a pager that is missing, cannot be started, stops reading, lingers or fails neither loses what it did not take part in nor crashes or hangs the command.",
 ["inputs","configurations","fault_sequences"], "all ledgers, terminal sizes and behaviours of the pager", "No test runs on a terminal.",
 ["cmd/app/app.go","cmd/app/print.go","cmd/register/register.go","cmd/register/show_register.go","cmd/reports/text.go"],
 [("pager start and cleanup","cmd/app/app.go initialiseLess, PersistentPostRun"),("rows against the height","cmd/app/print.go PrintColumns")],
 ["bytes on the terminal, what the pager is given, order of exits"])

prop("C27", "Output that could not be written is never reported as success",
 "Every command that prints what a ledger, a file or a script contains (accounts, currencies, register, report, export, import, generate, shell), in every format, ends with an error and a non-zero status if any part of its output could not be written to standard output, at whatever byte and for whatever reason (full disk, I/O error, closed pipe). If writes are only short or interrupted it ends successfully with the complete output. It never crashes or hangs because of its output.",
 ["fault_sequences","inputs"], "all ledgers, commands and places and kinds of write failures", "No test makes a write fail.",
 ["cmd/app/app.go","cmd/app/print.go","cmd/currencies/currencies.go","cmd/utils/shell.go","cmd/export/export.go","cmd/reports/text.go","cmd/register/show_register.go","cmd/generate/generate.go","cmd/importer/import.go","script/starlark.go"],
 [("standard output of the program","cmd/app/app.go"),("exports written to standard output","cmd/export/export.go"),("what scripts print","script/starlark.go")],
 ["exit status, bytes on standard output, errors of write calls"])

prop("C28", "A report that is not summarised states the book, period by period",
 "Without summarising, a report in Text, Json, Ledger or HTML states exactly the postings of the book after its operations, each at the first day of its period (periods without a payee), converted at the price of that day where conversion is asked for, and added up per account and currency. The options for summaries (credit, hidden) have no effect on it, and conversion without a currency is an error. The text table has a line for each account and currency of its last transaction and refuses with an error, printing nothing, when an amount has no line.",
 ["inputs","histories","configurations"], "all ledgers, operations, periods and currencies", "One report is tested at most, and none that is not summarised.",
 ["cmd/reports/report.go","cmd/reports/text.go","cmd/reports/html.go","cmd/app/print.go","book/book_ops.go"],
 [("order of periods and conversion","cmd/reports/report.go run"),("lines of the table","cmd/reports/text.go ShowTransactions")],
 ["goledger report --sum=false output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for p in P: jsonschema.validate(p, sch); assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties")
