#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, kept here as readable source)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Only balanced transactions get into a book",
 "A ledger or import is accepted only if, in every transaction it declares, the posted amounts of each currency add up to exactly zero; anything else is rejected when the next transaction starts or when the book is completed. An accepted book holds exactly the postings that were declared (amounts with the same date, payee, account and currency added together, zero sums dropped), and two transactions declared with the same date and payee stay separate, the later one under a payee with a number suffix no other transaction of that date uses.",
 ["inputs","histories"],"every sequence of transactions, postings and prices handed to the book builder, with any dates, payees, accounts, currencies and rational amounts (each amount an object of its own)",
 "The tests build a handful of small balanced books; none feeds an unbalanced one or repeated payees, and the rule is about every sequence of calls.",
 ["book/builder.go","book/book_compact.go","cmd/app/app.go"],
 [("per-currency running sums checked at each transaction start and at completion","book/builder.go"),("payee numbering against all earlier date/payee keys","book/builder.go")],
 ["Builder.Build","Book.Transactions","App.LoadBook"])

p("C02","Every book operation keeps every transaction balanced",
 "Starting from a book in which every transaction sums to zero in each currency, any sequence of book operations - renaming accounts, moving a share of an account, depreciating, combining by period, renaming or converting currencies, scaling by a time factor, date and account filters, duplicate removal, counter-account reclassification - leaves a book in which every transaction sums to exactly zero in each currency.",
 ["inputs","histories"],"every balanced book with dates from year 3 on and every operation with any regular expression, replacement, factor, period, rate function and date (scaling by a time factor: books of more than one day)",
 "Tests apply a few operations to fixed books and look at report layout; balance is a statement about all books, patterns and factors.",
 ["book/book.go","book/book_utils.go","book/book_dedup.go","book/book_reclassify.go","book/book_compact.go"],
 [("paired postings with opposite factors","book/book.go AdjustPost, Depreciate"),("uniform date/payee/currency mapping","book/book.go MapTransaction, MapAmount"),("whole-transaction filtering","book/book.go FilterTransaction")],
 ["Book.Transactions"])

p("C03","Books are kept in normal form with correct running balances",
 "After every operation that rebuilds a book, and whenever its transactions are read, the postings are ordered by date, then payee, account and currency, no two agree in all four, and none has a zero amount; each posting carries the exact sum of the amounts that were given for its key. The transactions are exactly the maximal runs of postings with the same date and payee, in order, and each posting's balance is the exact total of its account and currency over all postings up to and including it.",
 ["inputs","histories"],"every list of postings, in any order, with any repetitions and cancellations",
 "Tests check printed forms of a few books; ordering, merging, zero removal and running balances must hold for every list of postings.",
 ["book/book_compact.go","book/posting.go"],
 [("sort by key, merge equal keys, drop zeros, re-index, accumulate balances","book/book_compact.go"),("posting order","book/posting.go isLess")],
 ["Book.Transactions","Posting.GetBalance"])

p("C04","Operations move exactly the amounts they describe",
 "Renaming accounts leaves, for every date, payee, currency and new account, the exact sum of the amounts of the accounts renamed to it. Moving by a factor takes exactly that fraction of every matching posting out of its account and puts it into the target account of the same transaction; depreciating over n periods moves the whole posting to the holding account and returns exactly 1/n of it at each of the n successive period starts. Combining by period and converting currency change only date and payee, respectively amount and currency, and no other posting or total changes.",
 ["inputs"],"every book, account pattern, replacement, factor, period length and count, rate function (scaling by a time factor: books of more than one day)",
 "No test exercises moves, depreciation or conversions; the amounts must be right for all books, factors and period counts.",
 ["book/book.go","book/book_utils.go","book/posting.go","book/date.go"],
 [("AdjustPost, Depreciate, MapAccount, MapTransaction, MapAmount","book/book.go")],
 ["Book.Transactions"])

p("C05","Date and account filters keep exactly the right transactions",
 "Filtering a book as of a date keeps exactly the transactions dated strictly before it, filtering since a date exactly those on or after it, and filtering by account exactly those with a posting to that account; kept transactions are complete, unchanged and in their original order. A zero date means no filter.",
 ["inputs"],"every book and every date or account",
 "No test filters a book; off-by-one window errors only show on boundary dates.",
 ["book/book.go","book/book_utils.go"],
 [("whole-transaction filter","book/book.go FilterTransaction"),("date predicates","book/book_utils.go")],
 ["Book.Transactions","App.BookOps (asof=, since=)"])

p("C06","Calendar arithmetic is exact",
 "For all valid calendar dates from year 1 on, converting to a day number and back gives the same date, consecutive calendar days have consecutive day numbers under the Gregorian leap-year rule, and adding the difference of two dates to one gives the other. Flooring to month, quarter or year with an offset yields the first day of the period that many periods away, and the fractional year of a date grows strictly with the date and is the number of completed years plus the elapsed fraction of the current one.",
 ["inputs"],"all valid dates, day numbers and period offsets",
 "Tests sample a few dates; leap-century and quarter/year wrap-around errors hide between samples.",
 ["book/date.go"],
 [("AsDays, GetDateFromDays, AddDays, DaysSince","book/date.go"),("FloorMonth, FloorQuarter, FloorYear, FloorDiff","book/date.go"),("AsYears","book/date.go")],
 ["Date methods"])

p("C07","Prices are exact, interpolated or flagged, never invented",
 "A price query returns the recorded price on a recorded date; strictly between two neighbouring recorded dates it returns the linear interpolation by days; outside the recorded range it returns the nearest end and says so. A pair recorded only the other way round gives the exact reciprocal, a currency against itself gives 1, an unknown pair gives 1 flagged as missing; stepping through ascending dates with an iterator gives the same answers as separate queries.",
 ["inputs","histories"],"every set of recorded positive prices (any order of entry), query date and currency pair",
 "Tests query one small price list; search boundaries and neighbours must be right for all lists and dates.",
 ["book/price.go"],
 [("binary search and interpolation","book/price.go GetPrice"),("iterator","book/price.go PriceIterator"),("inverse and default rates","book/price.go getPrice"),("sorting on build","book/price.go build")],
 ["Book.GetPrice","PriceList.GetPrice","PriceIterator.GetPrice"])

p("C08","Duplicate removal drops exactly the already-known transactions",
 "Removing duplicates of a reference book drops exactly those transactions whose date and payee both occur as a transaction in the reference book, and keeps all others complete, unchanged and in order. The reference book's contents do not change.",
 ["inputs"],"every pair of books",
 "No test covers deduplication; the merge-style scan must stay in step for every interleaving of the two transaction lists.",
 ["book/book_dedup.go","book/book.go"],
 [("two-pointer scan over sorted transactions","book/book_dedup.go")],
 ["Book.RemoveDuplicatesOf","import command output"])

p("C09","Summary reports add up and leave the book alone",
 "In an accumulated report, every date/payee group shows every account and currency that occurs anywhere in the book, and every subtotal shown for an account prefix equals the exact sum, converted to the report currency at that date's price, of the group's amounts in that account and all accounts below it (with the sign flipped for credit accounts, and the hidden account left out). Producing the report does not change the book: its transactions, amounts and balances read the same before and after.",
 ["inputs"],"every book, report currency, divider, credit pattern and hidden account",
 "Tests compare a few fixed report layouts in one or two currencies; prefix grouping and conversion sums must be right for all account trees.",
 ["book/book_accum.go"],
 [("empty-account filling","book/book_accum.go addEmptyAccounts"),("prefix accumulation","book/book_accum.go Accumulate"),("common prefix","book/book_accum.go findMaxCommonPrefix")],
 ["Book.Accumulate","report --sum"])

p("C10","Register entries reconcile with the postings they explain",
 "For every posting of a matching account the register lists entries against its counter accounts (same transaction and currency, opposite direction) whose amounts sum exactly to the posting, split in proportion to the counter postings or combined into one on request. Each entry's balance is the exact running sum per currency over the whole register, and its base-currency amount is its amount times the rate used - 1 for the base currency, the transaction's own implied rate (of the first account whose first two postings exchange the two currencies), otherwise the recorded price of that date - with the base balance the running sum of those.",
 ["inputs"],"every balanced book with positive prices, account pattern, base currency and split choice",
 "The register has no tests; proportional splits and conversions must reconcile for all transactions.",
 ["book/registry.go","book/transaction.go"],
 [("counter-account allocation","book/registry.go ExtractRegister"),("implied rate","book/transaction.go InferRate")],
 ["Book.ExtractRegister","register command"])

p("C11","Register windows, limits and ordering select exactly the right entries",
 "A register restricted to begin and end dates shows exactly the entries on or after the begin date and before the end date, in order and unchanged. A count of n shows the first n of them, -n the last n, 0 all; descending order shows exactly the same entries in reverse.",
 ["inputs","configurations"],"every register, date window, count and order",
 "No test runs the register; window boundaries and reversal matter for every length, odd and even, and every date position.",
 ["book/registry.go","cmd/register/show_register.go"],
 [("window scan","book/registry.go FilterByDate"),("count and reversal","cmd/register/show_register.go ShowReport")],
 ["register command output","RegistryReport.FilterByDate"])

p("C12","Ledger files load to exactly what they say",
 "Loading a well-formed ledger file yields exactly the transactions, postings, notes and prices written in it: dates, payees, accounts with aliases expanded, currencies before or after the amount, and decimal amounts of any length with sign and grouping commas taken exactly. A posting without amount receives exactly the negated open balance of its transaction, one posting per open currency. Text that is not well-formed, including an amount without currency, is reported as an error, never silently dropped or misread (lines starting with D or = are read over).",
 ["inputs"],"every ledger text in valid UTF-8",
 "There are no parser tests; grammar corner cases (long decimals, commas, quoted currencies, elided amounts) are unbounded.",
 ["loader/lexer.go","loader/parser.go","cmd/app/app.go"],
 [("number and date lexing","loader/lexer.go"),("posting, price, alias, include parsing","loader/parser.go")],
 ["loader.ParseFile","App.LoadBook"])

p("C13","Exporting to ledger format and loading again gives the same book",
 "The number of decimals kept for a currency is the least number that represents every amount of that currency given in the ledger exactly (when the amounts are decimal fractions). A book loaded from a ledger file, exported in ledger format and loaded again therefore has the same transactions with the same dates, payees, accounts, currencies and amounts, and the same prices when these need no more decimals than the amounts; currencies that could not be read back bare are quoted.",
 ["inputs"],"every ledger whose amounts fit a floating point number exactly at their decimals, any currency symbols",
 "No test exports anything; quoting and decimals must suit every currency name and amount.",
 ["book/builder.go","cmd/export/ledger.go","cmd/reports/ledger.go","cmd/app/print.go","loader/parser.go"],
 [("decimals per currency","book/builder.go Build"),("quoting","cmd/export/ledger.go"),("currency characters","loader/parser.go IsCCYRune")],
 ["export command","report --type Ledger","ccy command"])

p("C14","Text columns line up and never lose or alter characters",
 "The measured width of a cell is its number of printable characters (a tab, shown as a blank, counts as one; colour escapes and other control characters count as none), and padding a cell to a width yields exactly that width: content padded on the chosen side when shorter, cut to its first characters when longer, colour escapes kept in either case. Shrinking a table to the terminal never makes a non-shrinkable column narrower and brings the total to the terminal width whenever the shrinkable columns are wide enough.",
 ["inputs"],"every string (any Unicode, control characters, colour escapes), width and table",
 "One test prints a few fixed strings; the rule is over all strings and widths.",
 ["cmd/app/print.go"],
 [("Length, PadString","cmd/app/print.go"),("PrintColumns, Combine","cmd/app/print.go")],
 ["report, register and accts output"])

p("C15","Imported records become balanced transactions with exact amounts",
 "Each record an import script adds produces one transaction on the given date and payee that moves exactly the given amount (integer, decimal text or number, divided by the denominator) between the given or default account and the counter account, and, when a second amount is given, exactly that amount in the second currency between the second account and the counter account; every currency in it sums to zero. A missing or malformed date or amount, or a zero denominator, is reported as an error and adds nothing; JSON and CSV records reach the script with every field, in order: CSV cells as their text (without leading blanks), JSON values as themselves (numbers as floating point, null members left out).",
 ["inputs","programs"],"every record and argument combination a script can pass",
 "There are no import tests; amount forms, denominators and optional arguments combine without bound.",
 ["script/starlark.go","script/convert.go","cmd/importer/starlark.go"],
 [("add() builtin","script/starlark.go GetBuilderFunction"),("amount conversion","script/convert.go GetBigRat"),("record conversion","script/convert.go jsonToStarlark, GetReadCSV")],
 ["import command output"])

p("C16","Reclassification only redirects counter accounts, to known choices",
 "Reclassifying an import against a reference book changes nothing but the account of the counter posting in transactions of exactly two postings that involve the given account. The new account is one that the reference book uses most often as counter account, in two-posting transactions with that account, for a payee of the best positive similarity; without a positive similarity the posting keeps its account, and the reference book does not change.",
 ["inputs"],"every pair of books, account and similarity function",
 "No test covers reclassification; majority and best-match selection must hold for every payee history.",
 ["book/book_reclassify.go"],
 [("payee to counter-account counts, majority, best match","book/book_reclassify.go")],
 ["Book.ReclassifyByAccount","import command output"])

p("C17","JSON and CSV output carries every field of every record",
 "JSON and CSV output of transactions and registers contains one record per posting or entry, in order, whose date, payee, account, counter account, currency, notes, amounts and balances are those of that posting or entry (amounts as the nearest floating point number), with each note in its own field.",
 ["inputs"],"every book and register",
 "No test looks at JSON or CSV output; a swapped or stale field shows only for records where the fields differ.",
 ["book/posting.go","book/transaction.go","book/registry.go","cmd/export/csv.go","cmd/register/show_register.go"],
 [("MarshalJSON methods","book/posting.go, book/transaction.go, book/registry.go"),("CSV rows","cmd/export/csv.go, cmd/register/show_register.go")],
 ["export and register commands with --type JSON/CSV","report --type Json"])

p("C18","Account listings are complete, sorted and non-zero",
 "Listing accounts that match a pattern returns, in ascending order and without repetition, exactly the matching accounts that occur in the book, and, unless all are requested, only those that hold a non-zero balance in some currency at the end of the book.",
 ["inputs"],"every book and pattern",
 "No test lists accounts; multi-currency accounts whose last-touched currency nets to zero need specific histories.",
 ["book/book.go","cmd/accounts/accounts.go"],
 [("Accounts","book/book.go")],
 ["accts and register commands"])

p("C19","Import configurations and enumerated options parse faithfully",
 "A format option of the form type:key=value,... is read as exactly that type and those key/value pairs, with a bare key meaning true and a repeated key being an error; boolean and integer lookups return the stored value, the default when absent, and an error when malformed. An enumerated option accepts exactly its listed values regardless of letter case, stores the listed spelling, and an invalid value is an error that leaves the option unchanged.",
 ["inputs","configurations"],"every option string",
 "No test parses options; separators inside values and repeated bare keys are corner cases among unboundedly many strings.",
 ["cmd/utils/cli_config.go","cmd/utils/types.go"],
 [("CLIConfig.Set and getters","cmd/utils/cli_config.go"),("Enum.Set, EnumSlice.Set","cmd/utils/types.go")],
 ["--format and --type flags"])

p("C20","Operation strings do what they say or fail without effect",
 "Each operation string given on the command line performs exactly the named operation with the written arguments - map, move, depreciate, combine, asof, since, mapccy - and a macro performs its listed operations in order. A string with an unknown type, wrong shape, bad number, bad date or bad regular expression returns an error and leaves the book as it was before that operation, and later operations of the list are not applied.",
 ["inputs","programs"],"every list of operation strings (depreciation over at least one month; a factor is the floating point number nearest to its text) and every macro table",
 "No test applies operation strings; argument order, defaults and error paths must hold for every string.",
 ["cmd/app/book_op.go","book/book_utils.go","book/book.go"],
 [("dispatch and argument patterns","cmd/app/book_op.go")],
 ["App.BookOps","command line operations"])

p("C21","Output is the same on every run",
 "Running the same command on the same input produces the same output every time, in particular the order of price lines, account openings, currency lines and the choice among equally good reclassifications.",
 ["schedules","inputs"],"every run of every command (Go's randomised map iteration order)",
 "Tests run each case once with one map iteration order.",
 ["book/book.go","cmd/export/beancount.go","cmd/currencies/currencies.go","book/book_reclassify.go"],
 [("map iteration","book/book.go GetPricePairs")],
 ["export, ccy, import commands"])

p("C22","The internal rate of return zeroes the discounted cash flows",
 "For cash flows with a unique rate of return above -100%, the reported annual rate makes the sum of the discounted cash flows vanish up to the stated tolerance.",
 ["inputs"],"every dated cash-flow series with a unique root",
 "The test evaluates three series; convergence of the iteration is a statement about all of them.",
 ["book/irr.go"],
 [("Newton iteration","book/irr.go")],
 ["CalculateIRR"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
