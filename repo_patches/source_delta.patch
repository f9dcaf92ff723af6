From 93620b2584217002c7ffe0ad277a628989989393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 01/39] fix: keep the day of the month in Date.AsYears

---
 book/date.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..51c76e4 100644
--- a/book/date.go
+++ b/book/date.go
@@ -243,7 +243,6 @@ func (date Date) AsYears() float64 {
 	isLeapYear := YearIsLeapYear(year)
 
 	// Add in month-to-date (without leaps)
-	day = 0
 	for i := 0; i < month; i++ {
 		day += monthDays[i]
 
-- 
2.43.0


From e31de0a3a273a1fefc36a0ae4f1cda4b30fedd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 02/39] fix: keep enough decimals to represent every amount of
 a currency

---
 book/builder.go | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..f5a9c85 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -18,27 +18,13 @@ type Builder struct {
 func (b *Builder) Build() *Book {
 	b.checkAndClearTransaction()
 
-	// Get the largest denominators by currency
-	mmap := make(map[string]*big.Int)
-	for _, p := range b.post {
-		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
-		}
-	}
-
-	// Convert to number of decimals
+	// Get the largest number of decimals by currency
 	rmap := make(map[string]int)
-	ten := big.NewInt(10)
-	for k, v := range mmap {
-		p := big.NewInt(1)
-		c := 0
-		// for as long as Denom is bigger keep doing p = p * 10
-		for p.Cmp(v) < 0 {
-			p.Mul(p, ten)
-			c += 1
+	for _, p := range b.post {
+		c := decimalPlaces(p.GetAmount().Denom())
+		if eval, ok := rmap[p.GetCCY()]; !ok || eval < c {
+			rmap[p.GetCCY()] = c
 		}
-		rmap[k] = c
 	}
 
 	nbook := &Book{
@@ -54,6 +40,30 @@ func (b *Builder) Build() *Book {
 	return nbook
 }
 
+// Least number of decimals that represents a fraction with this denominator
+// exactly. If there is none (eg thirds), as many decimals as the denominator has.
+func decimalPlaces(denom *big.Int) int {
+	ten := big.NewInt(10)
+	rem := big.NewInt(0)
+
+	// 2^a * 5^b divides 10^max(a,b), and both are at most the bit length
+	p := big.NewInt(1)
+	for c := 0; c <= denom.BitLen(); c++ {
+		if rem.Rem(p, denom).Sign() == 0 {
+			return c
+		}
+		p.Mul(p, ten)
+	}
+
+	p.SetInt64(1)
+	c := 0
+	for p.Cmp(denom) < 0 {
+		p.Mul(p, ten)
+		c += 1
+	}
+	return c
+}
+
 func NewBookBuilder() *Builder {
 	return &Builder{
 		post:      make([]Posting, 0, 200),
-- 
2.43.0


From dcd4f8672fd2cd068d28b1657c5b6f6930c634f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 03/39] fix: show every entry of a register in descending order

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..87a1cbe 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := 0; i < len(report); i++ {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From 5524471eb18c8c34ca253743cc6f5f51f42948fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 04/39] fix: write the note of the posting in its JSON record

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From f77430e5f46f3f299949ea6a3e043cd722cfce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 05/39] fix: convert register entries into the base currency

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From 9d37900b7e8fdd8fcea0a7088f583f7a2ef46a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 06/39] fix: leave the postings of the book alone when
 accumulating

---
 book/book_accum.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..2499248 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -170,12 +170,14 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 	// Only need some of compact functionality
 	b.compact()
 
-	posts := b.post
-
-	if len(posts) == 0 {
+	if len(b.post) == 0 {
 		return b.Transactions()
 	}
 
+	// Work on a copy -- the book itself must not change
+	posts := make([]Posting, len(b.post))
+	copy(posts, b.post)
+
 	// Add empty accounts
 	posts = addEmptyAccounts(posts)
 
-- 
2.43.0


From 7051e21ad3503abab3cef279ae086143aecedc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 07/39] fix: choose the most common counter account when
 reclassifying

---
 book/book_reclassify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..c9a5c22 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -53,7 +53,7 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		macct := ""
 		for cacct, k := range caccts {
 			if k > max {
-				k = max
+				max = k
 				macct = cacct
 			}
 		}
-- 
2.43.0


From 5ac3e655d50264b350a56ec1829f6ba63183e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 08/39] fix: list accounts with a balance in any of their
 currencies

---
 book/book.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..124fa6e 100644
--- a/book/book.go
+++ b/book/book.go
@@ -195,20 +195,31 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
+// in at least one currency
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
+	b.compact()
+
+	// Last balance of each account and currency
+	lbal := make(map[[2]string]*big.Rat)
+	hasBal := make(map[string]bool)
 	accts := make([]string, 0, 10)
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+			lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
+			hasBal[p.GetAccount()] = false
+		}
+	}
+
+	// Accounts with a balance in any of their currencies
+	for key, bal := range lbal {
+		if bal.Sign() != 0 {
+			hasBal[key[0]] = true
 		}
 	}
 
-	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
+	for acct, nonZero := range hasBal {
+		if !onlyWithBalance || nonZero {
 			accts = append(accts, acct)
 		}
 	}
-- 
2.43.0


From f682c995851c64bcffe95e0c4e9fcfcd3ad02154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 09/39] fix: rename each currency pair of the prices once when
 mapping currencies

---
 book/book_utils.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..d8fb73a 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -3,6 +3,7 @@ package book
 import (
 	"math/big"
 	"regexp"
+	"sort"
 )
 
 // Rename accounts
@@ -39,7 +40,8 @@ func (b *Book) RegexCCY(search string, replace string) {
 		}
 	})
 
-	// Map the prices
+	// Map the prices (into a new map, a renamed pair may meet an existing one)
+	data := make(map[PricePair]PriceList)
 	for ccypair, pl := range b.prices.data {
 		newpair := ccypair
 		if re.MatchString(ccypair.Unit) {
@@ -48,12 +50,13 @@ func (b *Book) RegexCCY(search string, replace string) {
 		if re.MatchString(ccypair.CCY) {
 			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
 		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
-		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
+		npl := append(append(PriceList{}, data[newpair]...), pl...)
+		sort.SliceStable(npl, func(i, j int) bool {
+			return npl[i].date < npl[j].date
+		})
+		data[newpair] = npl
 	}
+	b.prices.data = data
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From 0fa540642c5808bd30227033fa029128b0a1e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 10/39] fix: reject dates that are not in the calendar

---
 book/date.go    | 24 +++++++++++++++++++++---
 loader/lexer.go |  3 +++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/book/date.go b/book/date.go
index 51c76e4..64d1c38 100644
--- a/book/date.go
+++ b/book/date.go
@@ -76,6 +76,20 @@ func (date Date) FloorQuarter(diff int) Date {
 	return Date((year * 10000) + ((month + 1) * 100) + 1)
 }
 
+// IsValid is true for dates that are in the calendar (year 1 and later)
+func (date Date) IsValid() bool {
+	year := int(date / 10000)
+	month := int(date/100) % 100
+	day := int(date % 100)
+	if year < 1 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+	if month == 2 && YearIsLeapYear(year-1) {
+		return day <= 29
+	}
+	return day <= monthDays[month-1]
+}
+
 var dateYYYYMMDD = regexp.MustCompile("^([0-9][0-9][0-9][0-9])[-/\\.]?([0-9]?[0-9])?[-/\\.]?([0-9]?[0-9])?$")
 var dateDDMMYYYY = regexp.MustCompile("^([0-9]?[0-9])[-/\\.]?([0-9]?[0-9])[-/\\.]?([0-9][0-9][0-9][0-9])$")
 var date_desc_re = regexp.MustCompile("^(this|last|next)[\\._ \t]+(month|year|quarter)$")
@@ -101,7 +115,9 @@ func DateFromString(date string) Date {
 		if day == 0 {
 			day = 1
 		}
-		return Date(year*10000 + month*100 + day)
+		if d := Date(year*10000 + month*100 + day); d.IsValid() {
+			return d
+		}
 	}
 
 	mat = dateDDMMYYYY.FindStringSubmatch(date)
@@ -109,7 +125,9 @@ func DateFromString(date string) Date {
 		day, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
 		year, _ := strconv.Atoi(mat[3])
-		return Date(year*10000 + month*100 + day)
+		if d := Date(year*10000 + month*100 + day); d.IsValid() {
+			return d
+		}
 	}
 
 	mat = date_desc_re.FindStringSubmatch(date)
@@ -134,7 +152,7 @@ func DateFromString(date string) Date {
 	}
 
 	i, err := strconv.Atoi(date)
-	if err == nil {
+	if err == nil && Date(i).IsValid() {
 		return Date(i)
 	}
 
diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..5f70243 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -75,6 +75,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("invalid date %d", date)
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From 3e153694775deb7236016c86373cf3b5183d0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 11/39] fix: read amounts of any length exactly

---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 5f70243..360f01f 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -149,14 +149,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	ten := big.NewInt(10)
+	num := big.NewInt(0)
+	mag := big.NewInt(1)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -175,8 +176,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return big.NewRat(0, 1).SetFrac(num, mag)
 }
-- 
2.43.0


From f12a001ec77c3a3777fe01914351f67a011a9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 12/39] fix: report amounts without digits or currency and
 postings without account

---
 loader/lexer.go  |  6 ++++++
 loader/parser.go | 52 ++++++++++++++++++++++++++++++++++--------------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 360f01f..b32cfe6 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -149,6 +149,7 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
+	digits := 0
 	ten := big.NewInt(10)
 	num := big.NewInt(0)
 	mag := big.NewInt(1)
@@ -159,6 +160,7 @@ func (rr *basicReader) parseAmt() *big.Rat {
 			if isDec {
 				mag.Mul(mag, ten)
 			}
+			digits++
 			rr.next()
 			continue
 		}
@@ -175,6 +177,10 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		break
 	}
 
+	if digits == 0 {
+		rr.stop("expected amount, got '%c'", rr.ch)
+	}
+
 	if isNeg {
 		num.Neg(num)
 	}
diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..4409e26 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -132,11 +132,17 @@ func IsCCYRune(c rune) bool {
 func (rr *basicReader) parseCCYAmt() (string, *big.Rat) {
 	if rr.ch == '"' || IsCCYRune(rr.ch) {
 		ccy := rr.parseCCY()
+		if ccy == "" {
+			rr.stop("expected currency, got '%c'", rr.ch)
+		}
 		amt := rr.parseAmt()
 		return ccy, amt
 	} else {
 		amt := rr.parseAmt()
 		ccy := rr.parseCCY()
+		if ccy == "" {
+			rr.stop("expected currency, got '%c'", rr.ch)
+		}
 		return ccy, amt
 	}
 }
@@ -179,6 +185,9 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	_ = rr.consumeWS()
 	_ = rr.parseTime()
 	unit := rr.parseCCY()
+	if unit == "" {
+		rr.stop("expected currency, got '%c'", rr.ch)
+	}
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
@@ -301,29 +310,42 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	if ok {
 		acct = nacct
 	}
-	_ = rr.consumeWS()
-	isNeg := false
-	if rr.ch == '-' {
-		rr.next()
-		isNeg = true
-	}
-	ccy, dec := rr.parseCCYAmt()
-	if isNeg {
-		dec.Neg(dec)
+	if acct == "" {
+		rr.stop("expected account, got '%c'", rr.ch)
 	}
-	_ = rr.consumeWS()
-	if rr.ch == '@' {
-		rr.next()
+	ws := rr.consumeWS()
+
+	// Without an amount the open balances are used
+	implicit := rr.ch == ';' || rr.ch == eol || rr.ch == eof
+
+	var ccy string
+	var dec *big.Rat
+	if !implicit {
+		if ws == 0 {
+			rr.stop("expected space after account '%s', got '%c'", acct, rr.ch)
+		}
+		isNeg := false
+		if rr.ch == '-' {
+			rr.next()
+			isNeg = true
+		}
+		ccy, dec = rr.parseCCYAmt()
+		if isNeg {
+			dec.Neg(dec)
+		}
 		_ = rr.consumeWS()
-		_, _ = rr.parseCCYAmt()
+		if rr.ch == '@' {
+			rr.next()
+			_ = rr.consumeWS()
+			_, _ = rr.parseCCYAmt()
+		}
 	}
 	note := rr.parseNote()
 	if rr.ch == eol {
 		rr.next()
 	}
 
-	if ccy == "" {
-		// ASSERT: dec should be 0
+	if implicit {
 		var ZERO big.Int
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
-- 
2.43.0


From bf9c11dabafeaed9460d85fb2416670498385b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 13/39] fix: report text left over at the end of a line

---
 loader/lexer.go  |  7 +++++++
 loader/parser.go | 18 +++++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index b32cfe6..baf643d 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -108,6 +108,13 @@ func (rr *basicReader) consume(e rune) {
 	rr.next()
 }
 
+// Consume the end of the line (or file), with nothing left before it
+func (rr *basicReader) consumeEOL() {
+	if rr.ch != eof {
+		rr.consume(eol)
+	}
+}
+
 func (rr *basicReader) next() rune {
 	r, _, err := rr.reader.ReadRune()
 	if err == io.EOF {
diff --git a/loader/parser.go b/loader/parser.go
index 4409e26..de952a6 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -71,9 +71,7 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.consumeEOL()
 	return date, payee, note
 }
 
@@ -191,9 +189,8 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
-	}
+	_ = rr.parseNote()
+	rr.consumeEOL()
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -285,10 +282,11 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				rr.consumeWS()
 				longAcct := rr.parseAccount()
 				rr.consumeWS()
-				if longAcct == "" {
+				if shortAcct == "" || longAcct == "" {
 					rr.stop("expected account for alias, got empty account")
 				}
-				rr.parseToEOL()
+				_ = rr.parseNote()
+				rr.consumeEOL()
 				nmap[shortAcct] = longAcct
 			} else {
 				rr.stop("expected include or alias")
@@ -341,9 +339,7 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		}
 	}
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.consumeEOL()
 
 	if implicit {
 		var ZERO big.Int
-- 
2.43.0


From 5254c17e3234fac9494f1e862e91b9b07f1ef00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 14/39] fix: do not take a NUL character for the end of the
 file

---
 loader/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index baf643d..5d88e2a 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -18,7 +18,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
-- 
2.43.0


From e7a128dbf91f86c884570723cca02db1b0162343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 15/39] fix: reject postings before the first transaction

---
 book/builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index f5a9c85..e40d325 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -115,6 +115,11 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 }
 
 func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
+
+	if b.currDate == Date(-1) {
+		panic(fmt.Sprintf("Posting of %s to %s without a transaction!", ccy, acct))
+	}
+
 	b.post = append(b.post, Posting{
 		date:  b.currDate,
 		payee: b.currPayee,
-- 
2.43.0


From e583eec1490cb78204ba130b2bfbce10e7f78130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 16/39] fix: report operations with an invalid regular
 expression as an error

---
 cmd/app/book_op.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..cad638d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -121,6 +121,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("mapccy operation '%s', invalid: %v", op_act, err)
+		}
 		b.RegexCCY(args[1], args[2])
 		return nil
 	case "map=":
@@ -128,6 +131,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("map operation '%s', invalid: %v", op_act, err)
+		}
 		b.RegexAccounts(args[1], args[2], args[4])
 		return nil
 	case "move=":
@@ -135,6 +141,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("move operation '%s', invalid: %v", op_act, err)
+		}
 		factor, err := strconv.ParseFloat(args[3], 64)
 		if err != nil {
 			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
@@ -169,6 +178,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("depreciate operation '%s', invalid: must be format '%s'", op_act, deprec_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("depreciate operation '%s', invalid: %v", op_act, err)
+		}
 		months, err := strconv.ParseInt(args[3], 10, 64)
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
-- 
2.43.0


From 06288f33f907a3c9f2c322c3718e35bacb8abb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 17/39] fix: report missing or invalid amounts and denominators
 of imported records

---
 script/convert.go  |  4 +++-
 script/starlark.go | 48 +++++++++++++++++++++++++++++-----------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index 39f569d..4629b64 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -128,7 +128,9 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		if amt.SetFloat64(float64(v)) == nil {
+			return nil, fmt.Errorf("invalid amount %v", v)
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..acc67a5 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -25,6 +25,21 @@ var Errorf = starlark.NewBuiltin("error",
 		return starlark.None, fmt.Errorf("%w: %s", userError, msg)
 	})
 
+// Amount divided by the denominator
+func getAmount(amount starlark.Value, denom int) (*big.Rat, error) {
+	if denom == 0 {
+		return nil, fmt.Errorf("invalid denominator 0")
+	}
+	amt, err := GetBigRat(amount)
+	if err != nil {
+		return nil, err
+	}
+	if amt == nil {
+		return nil, fmt.Errorf("missing amount")
+	}
+	return amt.Mul(amt, big.NewRat(1, int64(denom))), nil
+}
+
 func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, counterAccount string) starlark.Value {
 	buildf := func(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 
@@ -67,40 +82,37 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		}
 
 		// Convert the amount
-		amt, err := GetBigRat(amount)
+		amt, err := getAmount(amount, denom)
 		if err != nil {
 			return nil, err
 		}
 
-		// Divide by denominator if set
-		amt.Mul(amt, big.NewRat(1, int64(denom)))
-
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
+		// Convert the second amount (if there is one)
+		hasSecond := amount2 != starlark.None || account2 != ""
+		var amt2 *big.Rat
+		if hasSecond {
+			if account2 == "" {
+				return nil, fmt.Errorf("missing account2 for amt2 %s", amount2)
+			}
+			amt2, err = getAmount(amount2, denom2)
+			if err != nil {
+				return nil, err
+			}
+		}
+
 		// Make the transaction
 		bbuilder.NewTransaction(ndate, string(desc), note)
 		bbuilder.AddPosting(account, ccy, amt, lnote)
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
 		// Nothing else to do
-		if amount2 == starlark.None && account2 == "" {
+		if !hasSecond {
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
-		}
-
-		// Convert the amount2
-		amt2, err := GetBigRat(amount2)
-		if err != nil {
-			return nil, err
-		}
-
-		// Divide by denominator if set
-		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
-
 		// Set the negative of the amount
 		neg2 := (&big.Rat{}).Neg(amt2)
 
-- 
2.43.0


From 4f6e159fe4dbe04dfac6b3bd4d95e0d4cc468c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 18/39] fix: report a repeated bare key of an import format

---
 cmd/utils/cli_config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..3c9a6a7 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -61,16 +61,16 @@ func (cfg *CLIConfig) Set(config string) error {
 	for _, arg := range strings.Split(parts[1], ",") {
 
 		argpair := strings.SplitN(arg, "=", 2)
-		if len(argpair) != 2 {
-			cfg.Params[argpair[0]] = "true"
-			continue
-		}
-
 		_, ok := cfg.Params[argpair[0]]
 		if ok {
 			return fmt.Errorf("invalid config '%s': arg '%s' set more than once", config, argpair[0])
 		}
 
+		if len(argpair) != 2 {
+			cfg.Params[argpair[0]] = "true"
+			continue
+		}
+
 		cfg.Params[argpair[0]] = argpair[1]
 	}
 
-- 
2.43.0


From 7c48ca4baedf6c1f4b50804cfcd56c07581d38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 19/39] fix: write amounts in CSV without dropping decimals

---
 cmd/export/csv.go             | 4 ++--
 cmd/register/show_register.go | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..1c829c2 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
+	"strconv"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -32,7 +32,7 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				strconv.FormatFloat(f, 'f', -1, 64),
 				p.GetPostNote(),
 			})
 		}
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 87a1cbe..a687a10 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
+	"strconv"
 	"strings"
 )
 
@@ -130,8 +131,8 @@ func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 			p.Account,
 			p.CounterAccount,
 			p.CCY,
-			fmt.Sprintf("%f", amt),
-			fmt.Sprintf("%f", bal),
+			strconv.FormatFloat(amt, 'f', -1, 64),
+			strconv.FormatFloat(bal, 'f', -1, 64),
 		})
 	}
 
-- 
2.43.0


From cc403a84cf4a907b2a0ca7b40cee357c2f0f5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 20/39] fix: do not divide by zero when shrinking empty columns

---
 cmd/app/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..b90defe 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -220,7 +220,7 @@ func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
 
 		// Apply to the columns
 		for j := 0; j < len(colWidths); j++ {
-			if !shrinkToTerm[j] {
+			if !shrinkToTerm[j] || colWidths[j] == 0 {
 				continue
 			}
 
-- 
2.43.0


From cb382a5898b9f7ec942608d0d02f24026ffa1925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 21/39] fix: write exact amounts in ledger files whatever their
 size and the language

---
 cmd/app/print.go      | 9 +++++++++
 cmd/export/ledger.go  | 4 ++--
 cmd/reports/ledger.go | 2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index b90defe..74b1012 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -268,6 +268,15 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 }
 
 // Formal the symbol (CCY) for printing
+// Format a number for ledger files: exactly, and the same in all languages
+func (b *BookPrinter) FormatLedgerNumber(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	return amount.FloatString(dec)
+}
+
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
 		return symbol + " "
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..3a1c197 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -36,7 +36,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatLedgerNumber(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
@@ -45,7 +45,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatLedgerNumber(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..7edbe37 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -30,7 +30,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatLedgerNumber(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 89b37420add3bf4b55b537b616e4500209c317f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 22/39] fix: quote currencies in exported prices where needed

---
 cmd/export/ledger.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 3a1c197..637c701 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -44,8 +44,10 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	b.Printf("\n; Prices\n")
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
+		unit := LedgerFormatCurrency(pair.Unit)
+		ccy := LedgerFormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatLedgerNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), unit, b.FormatSymbol(ccy), b.FormatLedgerNumber(pair.CCY, p.GetPrice()))
 		}
 	}
 
-- 
2.43.0


From 3bdd041404bcc3f558121a6ab7e8e758bf327fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 23/39] fix: export payees so that they are read back the same

---
 cmd/export/ledger.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 637c701..8d30a20 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"strings"
 )
 
 func LedgerFormatCurrency(ccy string) string {
@@ -19,6 +20,16 @@ func LedgerFormatCurrency(ccy string) string {
 	return ccy
 }
 
+func LedgerFormatPayee(payee string) string {
+	if strings.Contains(payee, ";") {
+		return "\"" + payee + "\""
+	}
+	if strings.HasPrefix(payee, "*") {
+		return "* " + payee
+	}
+	return payee
+}
+
 func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	trans := bk.Transactions()
 
@@ -27,7 +38,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
-- 
2.43.0


From e18067d41aa044f0a4a94ac419cf82fce34870d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 24/39] fix: list price pairs in a fixed order

---
 book/book.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/book/book.go b/book/book.go
index 124fa6e..266a94c 100644
--- a/book/book.go
+++ b/book/book.go
@@ -36,6 +36,13 @@ func (b *Book) GetPricePairs() []PricePair {
 		pairs = append(pairs, pair)
 	}
 
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
+
 	return pairs
 }
 
-- 
2.43.0


From bfc99fc927a26c0629fb9780121e948848b2f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 25/39] fix: write beancount account openings in a fixed order

---
 cmd/export/beancount.go  | 9 ++++++++-
 cmd/reports/beancount.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..726724e 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -53,7 +54,13 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
 		if stats.isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..bddf102 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -45,7 +46,13 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
 		if stats.isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
-- 
2.43.0


From f92bee971ca4790947ed1ee42aac8a4c9bb5dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 26/39] fix: list currencies in a fixed order

---
 cmd/currencies/currencies.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..b31c690 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,14 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
-- 
2.43.0


From 4f95a52843aa4c021c67b11d3b457a6f609e5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 27/39] fix: choose the same account on every run when
 reclassifying

---
 book/book_reclassify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index c9a5c22..17183eb 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -52,7 +52,7 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
+			if k > max || (k == max && cacct < macct) {
 				max = k
 				macct = cacct
 			}
@@ -79,7 +79,7 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max_cacct := ""
 		for p, c := range payee_mapping {
 			d := dist(trans.GetPayee(), p)
-			if d > max_match {
+			if d > max_match || (d > 0.0 && d == max_match && c < max_cacct) {
 				max_match = d
 				max_cacct = c
 			}
-- 
2.43.0


From 42ae0a311c9c3c505dcbe357e90b595a2fefa47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 28/39] fix: print the parameters of an import format in a
 fixed order

---
 cmd/utils/cli_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index 3c9a6a7..152ba52 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -93,6 +94,8 @@ func (e *CLIConfig) String() string {
 		i++
 	}
 
+	sort.Strings(keyv)
+
 	return e.ConfigType + ":" + strings.Join(keyv, ",")
 }
 
-- 
2.43.0


From bb85d1181b269c278aab6668a618ffda510c56c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 29/39] fix: report the same currency of an unbalanced
 transaction on every run

---
 book/builder.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index e40d325..c1a5c4c 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -78,13 +78,15 @@ func NewBookBuilder() *Builder {
 
 func (b *Builder) checkAndClearTransaction() {
 	var Zero big.Int
+	badCCY, bad := "", false
 	for ccy, amt := range b.currAmts {
-		if amt.Num().Cmp(&Zero) != 0 {
-			panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt))
-		} else {
-			b.currAmts[ccy].SetInt64(0)
+		if amt.Num().Cmp(&Zero) != 0 && (!bad || ccy < badCCY) {
+			badCCY, bad = ccy, true
 		}
 	}
+	if bad {
+		panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, badCCY, b.currAmts[badCCY]))
+	}
 }
 
 func (b *Builder) NewTransaction(date Date, payee string, note string) {
-- 
2.43.0


From 3fa8f1d5742ca6d0555ccbed303309c1664f093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 30/39] fix: keep the same note on every run when postings are
 added together

---
 book/book_compact.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/book/book_compact.go b/book/book_compact.go
index fd00b62..1be8f69 100644
--- a/book/book_compact.go
+++ b/book/book_compact.go
@@ -12,8 +12,8 @@ func (b *Book) compact() {
 		return
 	}
 
-	// Sort
-	sort.Slice(b.post, func(i, j int) bool {
+	// Sort (in the order given where equal, so that the first note is kept)
+	sort.SliceStable(b.post, func(i, j int) bool {
 		return b.post[i].isLess(&b.post[j])
 	})
 
-- 
2.43.0


From f75d6f2560ee72a4911c27213cff47172f2c8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 31/39] fix: show the register of an account whose name has
 special characters

---
 cmd/register/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..37f13cd 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -106,7 +106,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
-- 
2.43.0


From 7e9f8907d32bdb7de30c78708704b364ca125951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 32/39] fix: report ledger files that cannot be read as an
 error

---
 loader/lexer.go  | 3 +--
 loader/parser.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 5d88e2a..8f1f26c 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -120,7 +119,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("reading failed: %v", err)
 	}
 	rr.ch = r
 	if rr.ch == eol {
diff --git a/loader/parser.go b/loader/parser.go
index de952a6..c44d2f2 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -209,7 +208,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 	defer file.Close()
 
-- 
2.43.0


From 09c85d09043459b26ebcec1bba3c55a7751fedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 33/39] fix: write payees in ledger reports so that they are
 read back the same

---
 cmd/reports/ledger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 7edbe37..56c4a98 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -3,6 +3,7 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
+	"github.com/mescanne/goledger/cmd/export"
 	"github.com/mescanne/goledger/loader"
 )
 
@@ -12,7 +13,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), export.LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
-- 
2.43.0


From e5922e4668f6418797c0c3fc75217009e50551d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 34/39] fix: export payees that start with a space so that they
 are read back the same

---
 cmd/export/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 8d30a20..e08e164 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -21,7 +21,7 @@ func LedgerFormatCurrency(ccy string) string {
 }
 
 func LedgerFormatPayee(payee string) string {
-	if strings.Contains(payee, ";") {
+	if strings.Contains(payee, ";") || payee != strings.TrimSpace(payee) {
 		return "\"" + payee + "\""
 	}
 	if strings.HasPrefix(payee, "*") {
-- 
2.43.0


From 49a49e687ee7f87db66404b97ae9645752fe1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 35/39] fix: read quoted payees exactly as they are written

---
 loader/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index c44d2f2..dcef45f 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -33,7 +33,7 @@ func (rr *basicReader) parsePayee() string {
 	_ = rr.consumeWS()
 
 	if rr.ch == '"' {
-		return strings.TrimSpace(rr.parseQuotedString())
+		return rr.parseQuotedString()
 	}
 
 	var buf bytes.Buffer
-- 
2.43.0


From 8eb440aa33af707ebde8e5b6da7b9c5a705fcd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 36/39] fix: reject dates with month or day zero

---
 book/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/book/date.go b/book/date.go
index 64d1c38..53241d0 100644
--- a/book/date.go
+++ b/book/date.go
@@ -108,11 +108,11 @@ func DateFromString(date string) Date {
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
-		if month == 0 {
+		if mat[2] == "" {
 			month = 1
 		}
 		day, _ := strconv.Atoi(mat[3])
-		if day == 0 {
+		if mat[3] == "" {
 			day = 1
 		}
 		if d := Date(year*10000 + month*100 + day); d.IsValid() {
-- 
2.43.0


From 173381d7c76ec12878a1e0ac417ab6160495aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 37/39] fix: keep empty fields of CSV files with a blank
 delimiter

---
 script/convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 4629b64..faf4cca 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"unicode"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -78,7 +79,7 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 		// CSV
 		csvr := csv.NewReader(r)
 		csvr.Comma = []rune(delim)[0]
-		csvr.TrimLeadingSpace = true
+		csvr.TrimLeadingSpace = !unicode.IsSpace(csvr.Comma)
 		csvr.ReuseRecord = true
 
 		var hdr []string = nil
-- 
2.43.0


From 715ac990732bf24c3940ca1f8ec340cd6b1e4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 38/39] fix: report depreciation over zero months as an error

depreciate=/x/y/0/ moved the matching postings to the asset account and
never returned any part of them.
---
 cmd/app/book_op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index cad638d..72c0f6b 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -185,6 +185,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
+		if months < 1 {
+			return fmt.Errorf("depreciate months '%s', invalid: must be at least 1", args[3])
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
-- 
2.43.0


From 8fe4a0640837f2e5bd4b50d36c8948d3bc31146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 39/39] fix: keep prices of the same date in a fixed order when
 mapping currencies

Two currency pairs renamed to one gave a price list whose order for equal
dates depended on the map iteration.
---
 book/book_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/book_utils.go b/book/book_utils.go
index d8fb73a..75b3aba 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -42,7 +42,8 @@ func (b *Book) RegexCCY(search string, replace string) {
 
 	// Map the prices (into a new map, a renamed pair may meet an existing one)
 	data := make(map[PricePair]PriceList)
-	for ccypair, pl := range b.prices.data {
+	for _, ccypair := range b.GetPricePairs() {
+		pl := b.prices.data[ccypair]
 		newpair := ccypair
 		if re.MatchString(ccypair.Unit) {
 			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
-- 
2.43.0

