NA={f'C{i:02}':'no contract proved yet' for i in range(1,23)}
NA['C09']='Accumulate, AccumHierarchy and the report printers: no contract proved; the harness harness/c09 searches them but a search alone does not decide the property by this method.'
NA['C14']='Column widths and colour escapes (cmd/app/print.go): no contract proved yet; harness/c14 searches it.'
NA['C21']='A property of pairs of runs (the same output whatever the order of map iteration); gv decides one run at a time, where map iteration is an unknown order. Functions whose contract fixes the result (Accounts, Build, GetPricePairs, compact, ReclassifyByAccount, FilterByDate) are thereby deterministic, but the printers that make the output as a whole are not under contract.'
NA['C22']='The Newton iteration of book/irr.go works in float64 and calls math.Pow; convergence is a statement of numerical analysis over floating point rounding that neither the SMT back ends nor real arithmetic contracts can express soundly.'
c('C06','All functions of book/date.go that the property names are under contract and every obligation is discharged for all valid dates (years 1 to 9999 and beyond; Go integers are treated as mathematical integers and float64 as real numbers); round trip, consecutive days, strict growth of the fractional year and the floor rules are postconditions or lemmas. A bounded search of the real code against an independent calendar runs alongside to turn a failed obligation into an input.')
c('C07','PriceList.GetPrice, PriceIterator.GetPrice, getPrice, getPrices, GetPriceList, newPriceBookBuilder, addPrice and build are under contract: the answer of a query (exact, interpolated, nearest end, reciprocal, 1, missing) is a postcondition for every sorted list of prices and every valid date, the iterator has the same postcondition as separate queries, frame obligations show that a query writes to no recorded price, and build returns the same prices sorted. Recorded prices are assumed non-zero. The bounded search runs the real code against an independent interpolation.')
c('C02','Every operation named is under contract with the postcondition that a balanced book stays balanced in every transaction and currency (a statement about sums over all postings, for books of any size): MapAccount, RegexAccounts, MapTransaction, SplitBy, MapAmount, RegexCCY, AdjustPost, Depreciate, AdjustBy, FilterTransaction and the three filters, RemoveDuplicatesOf, and compact. That ReclassifyByAccount keeps the amounts in place and changes accounts only is the contract of C16. AdjustBy is verified for books that cover more than one day.')
c('C03','compact and Transactions are under contract: the postings come out strictly ordered by date, payee, account and currency, none zero, every sum per key is the sum of the amounts before, the transactions are exactly the maximal runs of equal date and payee in order, and every balance is the sum over the account and currency up to and including the posting; every operation that rebuilds the book has these as postconditions.')
c('C04','RegexAccounts, MapAccount, AdjustPost, Depreciate, SplitBy, MapTransaction, MapAmount and AdjustBy are under contract: for every date, payee, account and currency the sum of the amounts after the operation is the stated function of the postings before it (exact rational sums over books of any size). Regular expressions are uninterpreted functions: what they match and substitute is taken from the regexp package.')
c('C05','FilterTransaction, FilterByDateSince, FilterByDateAsof and FilterByAccount are under contract: the number of transactions is the number of those selected, and the q-th selected transaction is found at its place, of the same length and with the same postings; a zero date changes nothing.')
c('C08','RemoveDuplicatesOf is under contract, with the loop of its closure: the transactions kept are exactly those whose date and payee are not those of a transaction of the reference book, complete and in order; the reference book keeps its transactions, sums and normal form. The two books must not share postings, as books from two builders do not.')
c('C01','NewBookBuilder, NewTransaction, AddPosting, AddPrice, checkAndClearTransaction, decimalPlaces and Build are under contract: the check panics exactly when some currency of the open transaction does not sum to zero, the payee given to a transaction is one that no transaction of that date has, and the book built is in normal form, balanced in every transaction and currency, and holds for every date, payee, account and currency exactly the sum of the declared postings. That a panic of the builder reaches the user as an error of the load is checked by the bounded search.')
c('C13','decimalPlaces (the least number of decimals that represents the amount, for every rational), checkAndClearTransaction and Build (the decimals kept per currency are the maximum over the postings) and GetPricePairs (all price pairs, ordered) are under contract. The export itself and reading it back are checked by the bounded search on generated books.')
c('C18','Book.Accounts is under contract: the accounts come out strictly ascending, and are exactly those that occur in the postings, match, and, unless all are asked for, have a non-zero balance in some currency at the end. Regular expression matching is an uninterpreted function. The command around it is checked by the bounded search.')
c('C11','RegistryReport.FilterByDate (the entries kept are exactly those in the window, for every date order register) and ShowReport (count and order: the k-th entry printed is the one stated, for every register and count) are under contract. JSON and CSV output are under contract with it (C17); the function that prints text has an assumed contract (output only), what it prints is checked by the bounded search.')
c('C12','The whole lexer and parser of ledger files (every function of loader/lexer.go and loader/parser.go) is under contract against a grammar over the text: what is read, where reading stops, which value is passed on and which text is an error, for texts of any length; each posting, price and transaction reaches the loader exactly as the grammar reads it, and a posting without amount settles every open balance. The loader enters by an interface contract (book.Builder is verified on its own); the history as a whole (which line follows which, aliases, includes) is checked by the bounded search. Reading a file is assumed not to fail midway.')
c('C15','GetBigRat, getAmount and the builder function that a script adds transactions with are under contract: every number a script gives becomes exactly the rational it stands for, a value that is no number is an error, and every posting of an accepted transaction reaches the builder with the account, currency, amount and notes given. The conversion of CSV and JSON files to script values is checked by the bounded search.')
c('C19','CLIConfig.Set, GetStringDefault, GetIntDefault, GetBoolDefault, Enum.Set and EnumSlice.Set are under contract: type, keys and values read, repeated keys, defaults, malformed values, the spelling stored, and that an invalid value leaves the option as it was. strings.Split, SplitN, EqualFold and strconv are uninterpreted functions; the splitting itself is checked by the bounded search.')
c('C20','bookOp and BookOps are under contract: which operation each string performs, with which arguments, that a string that fails to parse leaves the book as it was, and that the operations are performed in the order given with macros replaced. Valid dates of postings and a finite parsed factor are stated assumptions; regexp and strconv are uninterpreted functions.')
c('C16','Book.ReclassifyByAccount is under contract: for books of any size and every similarity function, exactly the counter posting of two-posting transactions that involve the account may change and only in its account; the new account is one used most often by a payee of the best positive similarity (or the old one if no payee has a positive similarity); the reference book stays in normal form with the same sums. The two books must not share postings, and the similarity function is assumed deterministic and without side effects. The similarity measure itself and the import command are checked by the bounded search.')
c('C17','The MarshalJSON methods of registry entries, postings, transactions and dates are under contract (each member of the JSON object, under the name of its tag, has the value of the entry: amounts are the decimal digits of the exact rational), as are ShowCSV of the register and of the export (the rows written, one per posting, cell by cell), PrintCSV and PrintJSON. encoding/json and encoding/csv are trusted to write what they are given; escaping and reading back are checked by the bounded search.')
c('C10','Book.ExtractRegister, Transaction.InferRate and the price queries they use are under contract, for balanced books of any size: the register has exactly the entries of the matching postings, in the order of the book in normal form; each entry carries the fields of its posting, its counter account, its share of the posting (or the whole in the combined form, whose counter accounts are joined), and the base amount at the rate of the transaction or of the recorded price; the entries of a posting add up exactly to it (lemma reconcile), and the balances are the running sums over all entries. Recorded prices are positive and their numbers are not those of postings. Regular expressions are uninterpreted functions.')
