From ccbf7bcc0e52ca836159d7a75eb360441c501249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 01/82] fix: an unbalanced last transaction is a load error,
 not a crash

---
 cmd/app/app.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..a5ff629 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -56,12 +56,19 @@ func init() {
 }
 
 // Load a book from the configured ledger file
-func (app *App) LoadBook() (*book.Book, error) {
+func (app *App) LoadBook() (b *book.Book, err error) {
+	// The last transaction is only checked when the book is built
+	defer func() {
+		if msg := recover(); msg != nil {
+			b, err = nil, fmt.Errorf("loading failure: %s: %v", app.Ledger, msg)
+		}
+	}()
+
 	bbuilder := book.NewBookBuilder()
 	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {
 		return nil, err
 	}
-	b := bbuilder.Build()
+	b = bbuilder.Build()
 	return b, nil
 }
 
-- 
2.43.0


From f20e4e4d5d1148a03f61b4228d6b5834660fb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 02/82] fix: amounts with more than 18 digits overflowed
 silently

---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..202ea22 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -146,14 +146,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	num := big.NewInt(0)
+	mag := big.NewInt(1)
+	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -172,8 +173,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return new(big.Rat).SetFrac(num, mag)
 }
-- 
2.43.0


From a882a4656d190a3bfdda0b6967ce54d6c33eab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 03/82] fix: a NUL character ended the ledger file silently

---
 loader/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 202ea22..eaafd9a 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -18,7 +18,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
-- 
2.43.0


From c9f5490eff7009dba84845cab407db095dd46b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 04/82] fix: dates that are not in the calendar are refused in
 ledger files

---
 book/date.go    | 13 +++++++++++++
 loader/lexer.go |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..45bdd3c 100644
--- a/book/date.go
+++ b/book/date.go
@@ -80,6 +80,19 @@ var dateYYYYMMDD = regexp.MustCompile("^([0-9][0-9][0-9][0-9])[-/\\.]?([0-9]?[0-
 var dateDDMMYYYY = regexp.MustCompile("^([0-9]?[0-9])[-/\\.]?([0-9]?[0-9])[-/\\.]?([0-9][0-9][0-9][0-9])$")
 var date_desc_re = regexp.MustCompile("^(this|last|next)[\\._ \t]+(month|year|quarter)$")
 
+// IsValid is true if it is a day of the calendar (from year 1 to 9999)
+func (date Date) IsValid() bool {
+	year, month, day := int(date)/10000, int(date)/100%100, int(date)%100
+	if year < 1 || year > 9999 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+	days := monthDays[month-1]
+	if month == 2 && YearIsLeapYear(year-1) {
+		days++
+	}
+	return day <= days
+}
+
 func (date *Date) Set(value string) error {
 	*date = DateFromString(value)
 	return nil
diff --git a/loader/lexer.go b/loader/lexer.go
index eaafd9a..6911d08 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -75,6 +75,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("invalid date %04d/%02d/%02d", date/10000, (date/100)%100, date%100)
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From bf0dac35cb89e766d43af979e7ed8afeda57170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 05/82] fix: an amount without currency or digits is an error,
 not an elided amount

---
 loader/lexer.go  |  6 ++++++
 loader/parser.go | 24 +++++++++++++++---------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 6911d08..41ffdd2 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -149,11 +149,13 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
+	digits := 0
 	num := big.NewInt(0)
 	mag := big.NewInt(1)
 	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
+			digits++
 			num.Mul(num, ten)
 			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
@@ -175,6 +177,10 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		break
 	}
 
+	if digits == 0 {
+		rr.stop("expected an amount, got '%c'", rr.ch)
+	}
+
 	if isNeg {
 		num.Neg(num)
 	}
diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..0a26e90 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -303,16 +303,23 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 	_ = rr.consumeWS()
 	isNeg := false
-	if rr.ch == '-' {
-		rr.next()
-		isNeg = true
-	}
-	ccy, dec := rr.parseCCYAmt()
-	if isNeg {
-		dec.Neg(dec)
+	ccy := ""
+	var dec *big.Rat
+	if rr.ch != ';' && rr.ch != eol && rr.ch != eof {
+		if rr.ch == '-' {
+			rr.next()
+			isNeg = true
+		}
+		ccy, dec = rr.parseCCYAmt()
+		if isNeg {
+			dec.Neg(dec)
+		}
+		if ccy == "" {
+			rr.stop("expected a currency for the amount")
+		}
 	}
 	_ = rr.consumeWS()
-	if rr.ch == '@' {
+	if dec != nil && rr.ch == '@' {
 		rr.next()
 		_ = rr.consumeWS()
 		_, _ = rr.parseCCYAmt()
@@ -323,7 +330,6 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 
 	if ccy == "" {
-		// ASSERT: dec should be 0
 		var ZERO big.Int
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
-- 
2.43.0


From 202299d2e10ca6c524ccdc32283c21adfe96fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 06/82] fix: a posting before the first transaction is refused

---
 book/builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..b11a927 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -77,6 +77,12 @@ func (b *Builder) checkAndClearTransaction() {
 	}
 }
 
+func (b *Builder) checkInTransaction() {
+	if b.currDate == Date(-1) {
+		panic("posting outside of any transaction")
+	}
+}
+
 func (b *Builder) NewTransaction(date Date, payee string, note string) {
 
 	// Check and clear current transaction
@@ -105,6 +111,7 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 }
 
 func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
+	b.checkInTransaction()
 	b.post = append(b.post, Posting{
 		date:  b.currDate,
 		payee: b.currPayee,
@@ -127,6 +134,7 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 }
 
 func (b *Builder) GetLastCCYBals() map[string]*big.Rat {
+	b.checkInTransaction()
 	return b.currAmts
 }
 
-- 
2.43.0


From 045f0c447dee6db5aa3931af076dfa59434e87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 07/82] fix: a price without unit or currency is refused

---
 loader/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader/parser.go b/loader/parser.go
index 0a26e90..7e68363 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -181,6 +181,9 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	unit := rr.parseCCY()
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
+	if unit == "" || ccy == "" {
+		rr.stop("expected a unit and a currency for the price")
+	}
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
 	if rr.ch == eol {
 		rr.next()
-- 
2.43.0


From 1830ffa8067c935997b4f92c28ac423f114bedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 08/82] fix: left-over text on a line is an error instead of
 being read as another directive

---
 loader/parser.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 7e68363..7f0c165 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -71,9 +71,7 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.endLine()
 	return date, payee, note
 }
 
@@ -168,6 +166,16 @@ func (rr *basicReader) skipLine() {
 	}
 }
 
+// End of a directive - nothing else may follow on the line
+func (rr *basicReader) endLine() {
+	if rr.ch != eol && rr.ch != eof {
+		rr.stop("unexpected '%c' at the end of the line", rr.ch)
+	}
+	if rr.ch == eol {
+		rr.next()
+	}
+}
+
 func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	if rr.ch != 'P' {
 		rr.stop("expected 'P', got '%c'", rr.ch)
@@ -185,9 +193,8 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 		rr.stop("expected a unit and a currency for the price")
 	}
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
-	}
+	_ = rr.parseNote()
+	rr.endLine()
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -282,7 +289,8 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if longAcct == "" {
 					rr.stop("expected account for alias, got empty account")
 				}
-				rr.parseToEOL()
+				_ = rr.parseNote()
+				rr.endLine()
 				nmap[shortAcct] = longAcct
 			} else {
 				rr.stop("expected include or alias")
@@ -328,8 +336,11 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		_, _ = rr.parseCCYAmt()
 	}
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
+	if rr.ch == '=' {
+		// Balance assertion - ignore this for now.
+		rr.skipLine()
+	} else {
+		rr.endLine()
 	}
 
 	if ccy == "" {
-- 
2.43.0


From 5009cc55745591780a8cf1fba52950fe1f83ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 09/82] fix: empty accounts and accounts with unsupported
 characters are refused

---
 loader/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index 7f0c165..5361bbb 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -286,7 +286,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				rr.consumeWS()
 				longAcct := rr.parseAccount()
 				rr.consumeWS()
-				if longAcct == "" {
+				if shortAcct == "" || longAcct == "" {
 					rr.stop("expected account for alias, got empty account")
 				}
 				_ = rr.parseNote()
@@ -308,6 +308,12 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]string) {
 	_ = rr.consumeWS()
 	acct := rr.parseAccount()
+	if acct == "" {
+		rr.stop("expected an account, got '%c'", rr.ch)
+	}
+	if !unicode.IsSpace(rr.ch) && rr.ch != ';' && rr.ch != eof {
+		rr.stop("unexpected '%c' in account", rr.ch)
+	}
 	nacct, ok := alias[acct]
 	if ok {
 		acct = nacct
-- 
2.43.0


From 599d27e961cbf52eee42ccc0ec1fc1b31019c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 10/82] fix: unreadable and cyclic includes are load errors,
 not a process exit or a stack overflow

---
 loader/lexer.go  |  3 +--
 loader/parser.go | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 41ffdd2..6acb5b4 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -113,7 +112,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("%v", err)
 	}
 	rr.ch = r
 	if rr.ch == eol {
diff --git a/loader/parser.go b/loader/parser.go
index 5361bbb..7ec0f21 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -205,18 +204,30 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil)
+	return parseFileLocal(loader, filename, nil, nil)
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []os.FileInfo) (reterr error) {
 	reterr = nil
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 	defer file.Close()
 
+	// A file cannot include itself, directly or through others
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	for _, p := range parents {
+		if os.SameFile(p, info) {
+			return fmt.Errorf("parsing failure: %s: file includes itself", filename)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], info)
+
 	defer func() {
 		if msg := recover(); msg != nil {
 			reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)
@@ -272,7 +283,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
+				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 7663376ee2d0caf547cf2b1411b1cc10b0a7e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 11/82] fix: carriage returns of line endings became part of
 notes and include names

---
 loader/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/loader/lexer.go b/loader/lexer.go
index 6acb5b4..492194f 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -115,6 +115,12 @@ func (rr *basicReader) next() rune {
 		rr.stop("%v", err)
 	}
 	rr.ch = r
+	if rr.ch == '\r' {
+		// Carriage return of a line ending
+		if next, err := rr.reader.Peek(1); err == io.EOF || (err == nil && next[0] == '\n') {
+			return rr.next()
+		}
+	}
 	if rr.ch == eol {
 		rr.row++
 		rr.col = 0
-- 
2.43.0


From 9b7326a78b9919d2656841416639bea4219be4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 12/82] fix: operations on a duplicate of a book changed the
 original

---
 book/book.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..19b298e 100644
--- a/book/book.go
+++ b/book/book.go
@@ -46,9 +46,23 @@ func (b *Book) GetPriceList(unit string, ccy string) PriceList {
 func (b *Book) Duplicate() *Book {
 	newp := make([]Posting, len(b.post), len(b.post))
 	copy(newp, b.post)
-	newt := make([]Transaction, len(b.trans), len(b.trans))
-	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	for i := range newp {
+		newp[i].val = big.NewRat(0, 1).Set(newp[i].val)
+		newp[i].bal = big.NewRat(0, 1).Set(newp[i].bal)
+	}
+	newt := make([]Transaction, 0, len(b.trans))
+	newprices := &priceBook{data: make(map[PricePair]PriceList)}
+	for pair, pl := range b.prices.data {
+		newprices.data[pair] = pl
+	}
+	newccy := make(map[string]int)
+	for ccy, decimals := range b.ccy {
+		newccy[ccy] = decimals
+	}
+
+	nb := &Book{newp, newt, newprices, newccy}
+	nb.compact()
+	return nb
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
-- 
2.43.0


From e735b52ca1c4ba63a3d2c45f8e93d7483e8abf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 13/82] fix: accumulating a filtered book reordered its
 postings

---
 book/book_accum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..26cd073 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -170,7 +170,7 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 	// Only need some of compact functionality
 	b.compact()
 
-	posts := b.post
+	posts := append(make([]Posting, 0, len(b.post)), b.post...)
 
 	if len(posts) == 0 {
 		return b.Transactions()
-- 
2.43.0


From 69da98a2057e3c24f6d9944eb5c984f97da27eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 14/82] fix: a decimal share such as 0.1 was moved as the
 nearest binary fraction

---
 book/book.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/book/book.go b/book/book.go
index 19b298e..435a552 100644
--- a/book/book.go
+++ b/book/book.go
@@ -5,6 +5,7 @@ import (
 	"math/big"
 	"regexp"
 	"sort"
+	"strconv"
 )
 
 /* Book of dated transactions (set of postings), currencies (units), and conversions
@@ -193,7 +194,9 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
 	re := regexp.MustCompile(search_acct)
 	var r, i big.Rat
-	r.SetFloat64(factor)
+	if _, ok := r.SetString(strconv.FormatFloat(factor, 'g', -1, 64)); !ok {
+		panic(fmt.Sprintf("Invalid factor %v", factor))
+	}
 	i.Neg(&r)
 	newposts := b.post
 	for _, p := range b.post {
-- 
2.43.0


From 19b32f25faed8bdad39bcac95c4b3db572b88d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 15/82] fix: mapccy lost prices depending on map order, and the
 displayed precision

---
 book/book.go       |  8 ++++++++
 book/book_utils.go | 22 +++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/book/book.go b/book/book.go
index 435a552..f73e6d5 100644
--- a/book/book.go
+++ b/book/book.go
@@ -37,6 +37,14 @@ func (b *Book) GetPricePairs() []PricePair {
 		pairs = append(pairs, pair)
 	}
 
+	// Always in the same order
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
+
 	return pairs
 }
 
diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..b99d04a 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -40,7 +40,8 @@ func (b *Book) RegexCCY(search string, replace string) {
 	})
 
 	// Map the prices
-	for ccypair, pl := range b.prices.data {
+	newprices := newPriceBookBuilder()
+	for _, ccypair := range b.GetPricePairs() {
 		newpair := ccypair
 		if re.MatchString(ccypair.Unit) {
 			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
@@ -48,12 +49,23 @@ func (b *Book) RegexCCY(search string, replace string) {
 		if re.MatchString(ccypair.CCY) {
 			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
 		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
+		for _, price := range b.prices.data[ccypair] {
+			newprices.addPrice(price.date, newpair.Unit, newpair.CCY, price.val)
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
 	}
+	b.prices = newprices.build()
+
+	// Map the displayed precision
+	newccy := make(map[string]int)
+	for ccy, decimals := range b.ccy {
+		if re.MatchString(ccy) {
+			ccy = re.ReplaceAllString(ccy, replace)
+		}
+		if prev, ok := newccy[ccy]; !ok || prev < decimals {
+			newccy[ccy] = decimals
+		}
+	}
+	b.ccy = newccy
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From 2739e694e661e02b4a806d6e436f769db76c86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 16/82] fix: decimals of a currency did not cover all of its
 amounts

---
 book/builder.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index b11a927..91a789f 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -22,8 +22,9 @@ func (b *Builder) Build() *Book {
 	mmap := make(map[string]*big.Int)
 	for _, p := range b.post {
 		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
+		denom := decimalDenom(p.GetAmount().Denom())
+		if !ok || eval.Cmp(denom) < 0 {
+			mmap[p.GetCCY()] = denom
 		}
 	}
 
@@ -54,6 +55,20 @@ func (b *Builder) Build() *Book {
 	return nbook
 }
 
+// decimalDenom is the smallest power of ten that is a multiple of the denominator,
+// or the denominator itself if there is none
+func decimalDenom(denom *big.Int) *big.Int {
+	p := big.NewInt(1)
+	ten := big.NewInt(10)
+	for i := 0; i < denom.BitLen(); i++ {
+		if new(big.Int).Rem(p, denom).Sign() == 0 {
+			return p
+		}
+		p.Mul(p, ten)
+	}
+	return denom
+}
+
 func NewBookBuilder() *Builder {
 	return &Builder{
 		post:      make([]Posting, 0, 200),
-- 
2.43.0


From bf65a9a41253eeba44992da7c9ca5a5c9f884690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 17/82] fix: the day of the month was left out of the year
 fraction

---
 book/date.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index 45bdd3c..bcb1a01 100644
--- a/book/date.go
+++ b/book/date.go
@@ -256,7 +256,6 @@ func (date Date) AsYears() float64 {
 	isLeapYear := YearIsLeapYear(year)
 
 	// Add in month-to-date (without leaps)
-	day = 0
 	for i := 0; i < month; i++ {
 		day += monthDays[i]
 
-- 
2.43.0


From 22830c0ce8d17d935387acbfb00d481936727326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 18/82] fix: a recorded price of zero crashed the inverse
 lookup

---
 book/price.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/book/price.go b/book/price.go
index f853d42..8582139 100644
--- a/book/price.go
+++ b/book/price.go
@@ -190,6 +190,10 @@ func (p *priceBook) getPrice(date Date, unit string, ccy string) (*big.Rat, Pric
 	v, ok = p.data[PricePair{ccy, unit}]
 	if ok {
 		r, pt := v.GetPrice(date)
+		if r.Sign() == 0 {
+			// A price of zero has no inverse
+			return big.NewRat(1, 1), PriceTypeNone
+		}
 		return big.NewRat(0, 1).Inv(r), pt
 	}
 	return big.NewRat(1, 1), PriceTypeNone
-- 
2.43.0


From 8b66f5a596a62b6cb4a7b68a9484ef5af458c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 19/82] fix: accounts with a balance in one of several
 currencies were not listed

---
 book/book.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/book/book.go b/book/book.go
index f73e6d5..a864203 100644
--- a/book/book.go
+++ b/book/book.go
@@ -220,20 +220,29 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
+	b.compact()
+	lbal := make(map[string]map[string]*big.Rat)
 	accts := make([]string, 0, 10)
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+			if lbal[p.GetAccount()] == nil {
+				lbal[p.GetAccount()] = make(map[string]*big.Rat)
+			}
+			lbal[p.GetAccount()][p.GetCCY()] = p.GetBalance()
 		}
 	}
 
 	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
+	for acct, bals := range lbal {
+		hasBalance := false
+		for _, bal := range bals {
+			if bal.Num().Cmp(&zero) != 0 {
+				hasBalance = true
+			}
+		}
+		if !onlyWithBalance || hasBalance {
 			accts = append(accts, acct)
 		}
 	}
-- 
2.43.0


From 53e8a38b98915205daacff299d6fbcaf89a0a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 20/82] fix: the register converted at the inverse price

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From ac69e6fdae49674c5f7fa57b41e36060fab5a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 21/82] fix: JSON postings carried the note of the transaction

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From d8c07f89697bcff992ee6da19af283f29c4b38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 22/82] fix: reclassify picked an arbitrary account instead of
 the most common

---
 book/book_reclassify.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..2741ef4 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -52,8 +52,8 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
-				k = max
+			if k > max || (k == max && cacct < macct) {
+				max = k
 				macct = cacct
 			}
 		}
@@ -77,10 +77,12 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 
 		max_match := 0.0
 		max_cacct := ""
+		max_payee := ""
 		for p, c := range payee_mapping {
 			d := dist(trans.GetPayee(), p)
-			if d > max_match {
+			if d > max_match || (d == max_match && d > 0.0 && p < max_payee) {
 				max_match = d
+				max_payee = p
 				max_cacct = c
 			}
 		}
-- 
2.43.0


From 7ec3f9bae3d6e94930400ed9c7853bd7b6848895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 23/82] fix: report order was wrong for totals beyond a billion
 and mixed up equal siblings

---
 book/book_accum.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 26cd073..ee1c481 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -30,21 +30,33 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 	return left[0:prefix]
 }
 
-func getSortOrder(a *big.Rat) string {
-	f, _ := a.Float64()
-	g := int64(f * 1000_000)
-	g = 1_000_000_000*1_000_000 - g
-	return fmt.Sprintf("%015x", g)
+// Sort order of each account: by descending value, then by account
+func getSortOrder(val map[string]*big.Rat) map[string]string {
+	accts := make([]string, 0, len(val))
+	for acct, _ := range val {
+		accts = append(accts, acct)
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		if c := val[accts[i]].Cmp(val[accts[j]]); c != 0 {
+			return c > 0
+		}
+		return accts[i] < accts[j]
+	})
+	order := make(map[string]string)
+	for i, acct := range accts {
+		order[acct] = fmt.Sprintf("%08x", i)
+	}
+	return order
 }
 
-func getSortOrderString(val map[string]*big.Rat, acct string, divider string) string {
+func getSortOrderString(order map[string]string, acct string, divider string) string {
 	o := make([]string, 0, 5)
 	for i := 1; i <= len(acct); i++ {
 		if i != len(acct) && !strings.HasPrefix(acct[i:], divider) {
 			continue
 		}
-		if v, ok := val[acct[:i]]; ok {
-			o = append(o, getSortOrder(v))
+		if v, ok := order[acct[:i]]; ok {
+			o = append(o, v)
 		}
 	}
 	return strings.Join(o, divider)
@@ -239,10 +251,12 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 				acctval[k] = v
 			}
 
+			order := getSortOrder(acctval)
+
 			// Assign level to normal postings
 			for j := transIdx; j < i; j++ {
 				eposts[j].acctlevel, eposts[j].acctterm = splitByStrings(accum, eposts[j].acct, true, divider)
-				eposts[j].acctsort = getSortOrderString(acctval, eposts[j].acct, divider)
+				eposts[j].acctsort = getSortOrderString(order, eposts[j].acct, divider)
 			}
 
 			// Create new postings
@@ -250,7 +264,7 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 
 				// Find the level
 				newlevels, newterm := splitByStrings(accum, k, false, divider)
-				newsort := getSortOrderString(acctval, k, divider)
+				newsort := getSortOrderString(order, k, divider)
 
 				// Add new posting
 				sposts = append(sposts, Posting{
-- 
2.43.0


From c3faa634f748a5acf1fc66bc908e15862bff6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 24/82] fix: dates that are not in the calendar were read as
 some other day

---
 book/date.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/book/date.go b/book/date.go
index bcb1a01..d860d3b 100644
--- a/book/date.go
+++ b/book/date.go
@@ -94,7 +94,11 @@ func (date Date) IsValid() bool {
 }
 
 func (date *Date) Set(value string) error {
-	*date = DateFromString(value)
+	d := DateFromString(value)
+	if d == 0 {
+		return fmt.Errorf("invalid date '%s'", value)
+	}
+	*date = d
 	return nil
 }
 
@@ -102,19 +106,19 @@ func (date *Date) Type() string {
 	return "date"
 }
 
+// DateFromString reads a date, or returns 0 if it isn't a day of the calendar
 func DateFromString(date string) Date {
 	mat := dateYYYYMMDD.FindStringSubmatch(date)
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
-		month, _ := strconv.Atoi(mat[2])
-		if month == 0 {
-			month = 1
+		month, day := 1, 1
+		if mat[2] != "" {
+			month, _ = strconv.Atoi(mat[2])
 		}
-		day, _ := strconv.Atoi(mat[3])
-		if day == 0 {
-			day = 1
+		if mat[3] != "" {
+			day, _ = strconv.Atoi(mat[3])
 		}
-		return Date(year*10000 + month*100 + day)
+		return validDate(year, month, day)
 	}
 
 	mat = dateDDMMYYYY.FindStringSubmatch(date)
@@ -122,7 +126,7 @@ func DateFromString(date string) Date {
 		day, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
 		year, _ := strconv.Atoi(mat[3])
-		return Date(year*10000 + month*100 + day)
+		return validDate(year, month, day)
 	}
 
 	mat = date_desc_re.FindStringSubmatch(date)
@@ -146,11 +150,13 @@ func DateFromString(date string) Date {
 		return d
 	}
 
-	i, err := strconv.Atoi(date)
-	if err == nil {
-		return Date(i)
-	}
+	return 0
+}
 
+func validDate(year int, month int, day int) Date {
+	if d := GetDate(year, month, day); d.IsValid() {
+		return d
+	}
 	return 0
 }
 
-- 
2.43.0


From 93646b5abb7d5397df4df826d57cd8d4ba44dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 25/82] fix: register dates that are not understood were
 ignored

---
 cmd/register/register.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..addedff 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -65,6 +65,13 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 
 func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string) error {
 
+	// Dates must be understood or they wouldn't restrict anything
+	for _, date := range []string{reg.BeginDate, reg.EndDate} {
+		if date != "" && book.DateFromString(date) == book.Date(0) {
+			return fmt.Errorf("date '%s', invalid", date)
+		}
+	}
+
 	// Load up saved flags
 	b, err := rapp.LoadBook()
 	if err != nil {
-- 
2.43.0


From 898958b168d2d294b9987f6f60494b1cc1bed01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 26/82] fix: invalid expressions and zero months in operations
 are errors, not crashes or silent losses

---
 cmd/app/book_op.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..4055d92 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -119,7 +119,10 @@ func (app *App) bookOp(b *book.Book, op string) error {
 	case "mapccy=":
 		args := mapccy_op.FindStringSubmatch(op_act)
 		if args == nil {
-			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
+			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, mapccy_op.String())
+		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("mapccy search '%s', invalid: %v", args[1], err)
 		}
 		b.RegexCCY(args[1], args[2])
 		return nil
@@ -128,6 +131,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("map search '%s', invalid: %v", args[1], err)
+		}
 		b.RegexAccounts(args[1], args[2], args[4])
 		return nil
 	case "move=":
@@ -135,6 +141,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("move search '%s', invalid: %v", args[1], err)
+		}
 		factor, err := strconv.ParseFloat(args[3], 64)
 		if err != nil {
 			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
@@ -169,10 +178,16 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("depreciate operation '%s', invalid: must be format '%s'", op_act, deprec_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("depreciate search '%s', invalid: %v", args[1], err)
+		}
 		months, err := strconv.ParseInt(args[3], 10, 64)
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
+		if months < 1 {
+			return fmt.Errorf("depreciate months '%s', invalid: must be at least one", args[3])
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
-- 
2.43.0


From 04961284aa316243b85fc9338e402b903089c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 27/82] fix: a macro that refers to itself is an error, not a
 stack overflow

---
 cmd/app/book_op.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 4055d92..0c156e9 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -86,7 +86,7 @@ var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 
 func (app *App) BookOps(b *book.Book, ops ...string) error {
 	for _, op := range ops {
-		if err := app.bookOp(b, op); err != nil {
+		if err := app.bookOp(b, op, nil); err != nil {
 			return fmt.Errorf("error applying operation '%s': %w", op, err)
 		}
 	}
@@ -94,13 +94,19 @@ func (app *App) BookOps(b *book.Book, ops ...string) error {
 	return nil
 }
 
-func (app *App) bookOp(b *book.Book, op string) error {
+// Apply op, where outer are the macros that it is being expanded from
+func (app *App) bookOp(b *book.Book, op string, outer []string) error {
 	var err error
 
 	m, ok := app.Macros[op]
 	if ok {
+		for _, o := range outer {
+			if o == op {
+				return fmt.Errorf("macro '%s' refers to itself", op)
+			}
+		}
 		for _, macro := range m {
-			err = app.bookOp(b, macro)
+			err = app.bookOp(b, macro, append(outer[:len(outer):len(outer)], op))
 			if err != nil {
 				return fmt.Errorf("macro expansion '%s': %v", op, err)
 			}
-- 
2.43.0


From 20695751b196db8cab7179161591f51aa0eb47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 28/82] fix: an invalid account expression is an error, not a
 crash

---
 cmd/accounts/accounts.go | 5 +++++
 cmd/register/register.go | 8 ++++----
 script/book_op.go        | 4 ++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..5c03d04 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -1,8 +1,10 @@
 package accounts
 
 import (
+	"fmt"
 	rapp "github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"regexp"
 )
 
 func Add(cmd *cobra.Command, app *rapp.App) {
@@ -28,6 +30,9 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 		if len(args) == 1 {
 			regex = args[0]
 		}
+		if _, err := regexp.Compile(regex); err != nil {
+			return fmt.Errorf("invalid regex: '%s': %w", regex, err)
+		}
 
 		// Create printer
 		bp := app.NewBookPrinter(b.GetCCYDecimals())
diff --git a/cmd/register/register.go b/cmd/register/register.go
index addedff..e397cd0 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -101,11 +101,11 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 	// Combined -- just dump out as is
 	var rep book.RegistryReport
 	arg := args[len(args)-1]
+	re, err := regexp.Compile(arg)
+	if err != nil {
+		return fmt.Errorf("invalid regex: '%s': %w", arg, err)
+	}
 	if reg.Combined {
-		re, err := regexp.Compile(arg)
-		if err != nil {
-			return fmt.Errorf("invalid regex: '%s': %w", arg, err)
-		}
 		rep = b.ExtractRegister(rapp.BaseCCY, re, reg.Split)
 		rep.FilterByDate(reg.BeginDate, reg.EndDate)
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
diff --git a/script/book_op.go b/script/book_op.go
index 0773809..248ad3e 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"go.starlark.net/starlark"
+	"regexp"
 )
 
 var mapf = starlark.NewBuiltin("map",
@@ -23,6 +24,9 @@ var mapf = starlark.NewBuiltin("map",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
+		if _, err := regexp.Compile(from); err != nil {
+			return starlark.None, fmt.Errorf("invalid from: '%s': %w", from, err)
+		}
 		bb.b.RegexAccounts(from, to, alt)
 		return val, nil
 	})
-- 
2.43.0


From f0e7ae128ee178f4129b21fbdccadb9071e5004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 29/82] fix: the text report of an empty book crashed

---
 cmd/reports/text.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..7394635 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -9,6 +9,11 @@ import (
 
 func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
+	// Nothing to show
+	if len(trans) == 0 {
+		return nil
+	}
+
 	// Main transaction (reference one)
 	postingTrans := trans[len(trans)-1]
 
-- 
2.43.0


From 0ddf238d6ba41bbfe0e72c5331d4d8f2e7121707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 30/82] fix: an amount without a currency symbol crashed the
 output

---
 cmd/app/print.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..0352063 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -269,7 +269,9 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
-	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
+	if sym := []rune(symbol); len(sym) == 0 {
+		return symbol
+	} else if unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
 		return symbol + " "
 	}
 	return symbol
-- 
2.43.0


From 80f1d1b0de08679bd42eeda454097db459154757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 31/82] fix: the register in descending order lost half of its
 entries

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..87a1cbe 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := 0; i < len(report); i++ {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From 394e36b813771d2f7b364437c384778db91317be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 32/82] fix: the register of an account showed others that
 match its name as an expression

---
 cmd/register/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index e397cd0..faa30b5 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -113,7 +113,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
-- 
2.43.0


From 5a33e0e16a6a24cce721a734c8e3dc712b8c8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 33/82] fix: the text report crashed if an account is not on
 all transactions

---
 cmd/reports/text.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index 7394635..8e5f1ee 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -57,6 +57,11 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		rows = append(rows, make([]app.ColumnValue, len(trans)+1))
 		rows[pidx][0] = app.ColumnString(t)
 
+		// Blank unless filled in below
+		for j := range trans {
+			rows[pidx][j+1] = app.ColumnString("")
+		}
+
 		// Record the index
 		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
 	}
-- 
2.43.0


From c275e4b3d0cdc238b93b706faf0facc0143d810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 34/82] fix: a repeated transaction without payee got one that
 cannot be written in a file

---
 book/builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/builder.go b/book/builder.go
index 91a789f..72ec25c 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -3,6 +3,7 @@ package book
 import (
 	"fmt"
 	"math/big"
+	"strings"
 )
 
 type Builder struct {
@@ -119,7 +120,7 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 		}
 
 		idx += 1
-		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
+		b.currPayee = strings.TrimSpace(fmt.Sprintf("%s (%d)", payee, idx))
 		key = fmt.Sprintf("%d %s", date, b.currPayee)
 	}
 
-- 
2.43.0


From f52b473a4d998fa1d90796714ca8112e73037966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 35/82] fix: the ledger format lost precision, depended on the
 language, and mixed up payees and units that need quotes

---
 book/builder.go       | 14 ++++++++++++++
 cmd/app/print.go      | 14 ++++++++++++++
 cmd/export/ledger.go  | 17 ++++++++++++++---
 cmd/reports/ledger.go |  5 +++--
 4 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 72ec25c..dd68f82 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -70,6 +70,20 @@ func decimalDenom(denom *big.Int) *big.Int {
 	return denom
 }
 
+// Decimals is the number of decimals needed to write the amount exactly (false if
+// no number of decimals is enough)
+func Decimals(amount *big.Rat) (int, bool) {
+	denom := decimalDenom(amount.Denom())
+	if new(big.Int).Rem(denom, amount.Denom()).Sign() != 0 || !isPowerOfTen(denom) {
+		return 0, false
+	}
+	return len(denom.String()) - 1, true
+}
+
+func isPowerOfTen(v *big.Int) bool {
+	return strings.TrimRight(v.String(), "0") == "1"
+}
+
 func NewBookBuilder() *Builder {
 	return &Builder{
 		post:      make([]Posting, 0, 200),
diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0352063..57d0df4 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -4,6 +4,7 @@ import (
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
+	"github.com/mescanne/goledger/book"
 	"golang.org/x/term"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
@@ -267,6 +268,19 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	return b.pr.Sprintf("%.*f", dec, f)
 }
 
+// Format the number exactly and in the same way for all languages, as needed for
+// files that are read again. Only a number without a decimal form is rounded.
+func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	if n, exact := book.Decimals(amount); exact && n > dec {
+		dec = n
+	}
+	return amount.FloatString(dec)
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if sym := []rune(symbol); len(sym) == 0 {
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..9a20af3 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"strings"
 )
 
 func LedgerFormatCurrency(ccy string) string {
@@ -19,6 +20,14 @@ func LedgerFormatCurrency(ccy string) string {
 	return ccy
 }
 
+// LedgerFormatPayee quotes the payee if it would be read differently
+func LedgerFormatPayee(payee string) string {
+	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") || strings.HasPrefix(payee, "*") {
+		payee = "\"" + strings.ReplaceAll(payee, "\"", "'") + "\""
+	}
+	return payee
+}
+
 func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	trans := bk.Transactions()
 
@@ -27,7 +36,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -36,7 +45,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
@@ -44,8 +53,10 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	b.Printf("\n; Prices\n")
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
+		unit := LedgerFormatCurrency(pair.Unit)
+		ccy := LedgerFormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), unit, b.FormatSymbol(ccy), b.FormatExact(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..7c8e9f0 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -3,6 +3,7 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
+	"github.com/mescanne/goledger/cmd/export"
 	"github.com/mescanne/goledger/loader"
 )
 
@@ -12,7 +13,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), export.LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -30,7 +31,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 36df95ee90888d49fde7f805c58f5c51828a91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 36/82] fix: the Beancount form closed accounts with a balance
 in another currency, in random order

---
 cmd/export/beancount.go  | 32 ++++++++++++++++++++++----------
 cmd/reports/beancount.go | 32 ++++++++++++++++++++++----------
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..b68c688 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -24,12 +25,12 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
+	accts := make([]string, 0, 100)
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -37,15 +38,19 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 			if !ok {
 				stats = &accountInfo{
 					first: p.GetDate(),
-					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
-			} else {
-				stats.last = p.GetDate()
+				accts = append(accts, acct)
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			stats.last = p.GetDate()
+			if stats.bals[p.GetCCY()] == nil {
+				stats.bals[p.GetCCY()] = new(big.Rat)
+			}
+			stats.bals[p.GetCCY()].Add(stats.bals[p.GetCCY()], p.GetAmount())
 		}
 	}
+	sort.Strings(accts)
 
 	// Operating currency
 	if baseCCY != "" {
@@ -53,9 +58,16 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.bals {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..b5ad7e5 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -22,12 +23,12 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
+	accts := make([]string, 0, 100)
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -35,19 +36,30 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 			if !ok {
 				stats = &accountInfo{
 					first: p.GetDate(),
-					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
-			} else {
-				stats.last = p.GetDate()
+				accts = append(accts, acct)
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			stats.last = p.GetDate()
+			if stats.bals[p.GetCCY()] == nil {
+				stats.bals[p.GetCCY()] = new(big.Rat)
+			}
+			stats.bals[p.GetCCY()].Add(stats.bals[p.GetCCY()], p.GetAmount())
 		}
 	}
+	sort.Strings(accts)
 
-	for acct, stats := range lstats {
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.bals {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
-- 
2.43.0


From bc233d16d53c695091374a9cbaffd1f460aeeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 37/82] fix: the Beancount form lost precision, depended on the
 language, and broke on quotes in payees

---
 cmd/export/beancount.go  | 11 ++++++++---
 cmd/reports/beancount.go |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b68c688..3cc01e7 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -19,6 +19,11 @@ func FormatAccount(acct string) string {
 	return acct
 }
 
+// Quoted string
+func FormatString(str string) string {
+	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(str) + "\""
+}
+
 func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	trans := bk.Transactions()
@@ -81,14 +86,14 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * %s%s\n", posts.GetDate(), FormatString(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
@@ -100,7 +105,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index b5ad7e5..8a5000e 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -3,6 +3,7 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
+	"github.com/mescanne/goledger/cmd/export"
 	"math/big"
 	"sort"
 	"strings"
@@ -80,14 +81,14 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * %s%s\n", posts.GetDate(), export.FormatString(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 1e6a662fba0d028e4ff9b14c19d3707f69036e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 38/82] fix: amounts in CSV output were rounded

---
 cmd/app/print.go              | 9 +++++++++
 cmd/export/csv.go             | 6 ++----
 cmd/register/show_register.go | 6 ++----
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 57d0df4..183f35a 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -281,6 +281,15 @@ func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
 	return amount.FloatString(dec)
 }
 
+// Format the number exactly (with at least six decimals) for data files
+func FormatData(amount *big.Rat) string {
+	dec := 6
+	if n, exact := book.Decimals(amount); exact && n > dec {
+		dec = n
+	}
+	return amount.FloatString(dec)
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if sym := []rune(symbol); len(sym) == 0 {
diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..226fc12 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,6 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -25,14 +24,13 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 	// Postings
 	for _, posts := range bk.Transactions() {
 		for _, p := range posts {
-        		f, _ := p.GetAmount().Float64()
 			csvwrite.Write([]string{
 				posts.GetDate().String(),
 				posts.GetPayee(),
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				app.FormatData(p.GetAmount()),
 				p.GetPostNote(),
 			})
 		}
@@ -40,5 +38,5 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 87a1cbe..fe9b6ba 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -122,16 +122,14 @@ func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 
 	// Print out content
 	for _, p := range report {
-		amt, _ := p.Amount.Float64()
-		bal, _ := p.Balance.Float64()
 		rows = append(rows, []string{
 			p.Date.String(),
 			p.Payee,
 			p.Account,
 			p.CounterAccount,
 			p.CCY,
-			fmt.Sprintf("%f", amt),
-			fmt.Sprintf("%f", bal),
+			app.FormatData(p.Amount),
+			app.FormatData(p.Balance),
 		})
 	}
 
-- 
2.43.0


From e922553b35b58ebc87e74b0a4e7c2e95c932eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 39/82] fix: the HTML report was not well-formed

---
 cmd/reports/html.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..b691002 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
+	"html"
 	"math/big"
 )
 
@@ -58,7 +59,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 		b.Printf("  <div class=\"date\">%s</div>\n", posts.GetDate())
 		payee := posts.GetPayee()
 		if payee != "" {
-			b.Printf("  <div class=\"payee\">%s</div>\n", payee)
+			b.Printf("  <div class=\"payee\">%s</div>\n", html.EscapeString(payee))
 		}
 		b.Printf("</div>\n")
 
@@ -92,12 +93,15 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			thisIndent := indentedString(thisLevel)
 			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
-			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, v.GetAccountTerm())
-			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, b.FormatSymbol(v.GetCCY()), b.FormatNumber(v.GetCCY(), amt))
+			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
+			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
 
 			lastLevel = thisLevel
 		}
+		for i := lastLevel - 1; i >= 0; i-- {
+			b.Printf("%s  </div>\n", indentedString(i))
+		}
 		b.Printf("</div>\n")
 
 		// End of report
-- 
2.43.0


From 838165aa099f9abc14b0a186e1f31b801315c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 40/82] fix: currencies were listed in random order

---
 cmd/currencies/currencies.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..b31c690 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,14 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
-- 
2.43.0


From 2fa5ea43fdfed0ecac26738e5b025c89f4873767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 41/82] fix: an interrupted or failed save destroyed the state
 file, and failures were not reported

---
 cmd/utils/json.go | 87 +++++++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 30 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..04c5d16 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -105,7 +105,11 @@ func LoadFromFile(file string, data interface{}) error {
 	return nil
 }
 
-func SaveToFile(file string, data interface{}) (oerr error) {
+// SaveToFile replaces the contents of the file by the data as JSON.
+//
+// The data is written to a temporary file next to it, which then takes its place. So
+// if anything fails the file still has the previous contents.
+func SaveToFile(file string, data interface{}) error {
 
 	// Ensure directory exists
 	err := os.MkdirAll(filepath.Dir(file), os.ModePerm)
@@ -113,46 +117,69 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
 
-	// Open the file
-	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
+	// Marshal the JSON bytes
+	b, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
-		return fmt.Errorf("failed opening %s: %v", file, err)
+		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+	}
+
+	// Replace the file itself if it is a symbolic link
+	target := file
+	if real, err := filepath.EvalSymlinks(file); err == nil {
+		target = real
 	}
 
-	// Defered closing
+	// Write and replace
+	tmp := target + ".tmp"
+	if err := writeFile(tmp, b, filepath.Ext(file) == ".gz"); err != nil {
+		os.Remove(tmp)
+		return fmt.Errorf("failed writing to %s: %v", file, err)
+	}
+	if err := os.Rename(tmp, target); err != nil {
+		os.Remove(tmp)
+		return fmt.Errorf("failed replacing %s: %v", file, err)
+	}
+
+	// The new name has to be stored as well
+	if err := syncDir(filepath.Dir(target)); err != nil {
+		return fmt.Errorf("failed storing %s: %v", file, err)
+	}
+
+	return nil
+}
+
+// Write the complete file and wait until it is stored
+func writeFile(file string, b []byte, compress bool) (oerr error) {
+	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
+	if err != nil {
+		return err
+	}
 	defer func() {
-		if err := fh.Close(); err != nil {
-			if oerr != nil {
-				oerr = fmt.Errorf("failed closing %s: %v", file, err)
-			}
+		if err := fh.Close(); err != nil && oerr == nil {
+			oerr = err
 		}
 	}()
 
-	// Check if it's gz
-	var w io.Writer = fh
-	if filepath.Ext(file) == ".gz" {
+	if compress {
 		gwriter := gzip.NewWriter(fh)
-		defer func() {
-			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
-					oerr = fmt.Errorf("failed closing %s: %v", file, err)
-				}
-			}
-		}()
-		w = gwriter
+		if _, err := gwriter.Write(b); err != nil {
+			return err
+		}
+		if err := gwriter.Close(); err != nil {
+			return err
+		}
+	} else if _, err := fh.Write(b); err != nil {
+		return err
 	}
 
-	// Marshal the JSON bytes
-	b, err := json.MarshalIndent(data, "", "  ")
-	if err != nil {
-		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
-	}
+	return fh.Sync()
+}
 
-	// Write the file
-	_, err = w.Write(b)
+func syncDir(dir string) error {
+	fh, err := os.Open(dir)
 	if err != nil {
-		return fmt.Errorf("failed writing to %s: %v", file, err)
+		return err
 	}
-
-	return nil
+	defer fh.Close()
+	return fh.Sync()
 }
-- 
2.43.0


From ad2871c5c97b6f410e34eb4c03bdc4ae74f1e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 42/82] fix: prices of the Beancount export were not Beancount

---
 cmd/export/beancount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 3cc01e7..c477870 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -105,7 +105,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("%s price %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
-- 
2.43.0


From 8d925bffafc3d2f01af91b3d065fb56574b5374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 43/82] fix: operations of a generate script changed what
 counts as a duplicate

---
 cmd/generate/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/generate/generate.go b/cmd/generate/generate.go
index 411ef74..6a6e55b 100644
--- a/cmd/generate/generate.go
+++ b/cmd/generate/generate.go
@@ -22,7 +22,8 @@ func (gen *Generate) run(app *app.App, rcmd *cobra.Command, args []string) error
 	}
 
 	// Generate the records from the main book
-	b, err := gen.generate(main, gen.Code)
+	// (it may change what it sees)
+	b, err := gen.generate(main.Duplicate(), gen.Code)
 	if err != nil {
 		return fmt.Errorf("error processing data: %w", err)
 	}
-- 
2.43.0


From 8b91e02c0a75badf492f0b41dcce08125ff24043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 44/82] fix: missing or infinite amounts and zero denominators
 of scripts are errors, not crashes

---
 script/convert.go  |  4 +++-
 script/starlark.go | 29 +++++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index 39f569d..4629b64 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -128,7 +128,9 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		if amt.SetFloat64(float64(v)) == nil {
+			return nil, fmt.Errorf("invalid amount %v", v)
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..9c506ec 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -25,6 +25,21 @@ var Errorf = starlark.NewBuiltin("error",
 		return starlark.None, fmt.Errorf("%w: %s", userError, msg)
 	})
 
+// Convert the amount and divide it by the denominator
+func getAmount(amount starlark.Value, denom int) (*big.Rat, error) {
+	amt, err := GetBigRat(amount)
+	if err != nil {
+		return nil, err
+	}
+	if amt == nil {
+		return nil, fmt.Errorf("missing amount")
+	}
+	if denom == 0 {
+		return nil, fmt.Errorf("invalid denominator 0")
+	}
+	return amt.Mul(amt, big.NewRat(1, int64(denom))), nil
+}
+
 func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, counterAccount string) starlark.Value {
 	buildf := func(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 
@@ -67,14 +82,11 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		}
 
 		// Convert the amount
-		amt, err := GetBigRat(amount)
+		amt, err := getAmount(amount, denom)
 		if err != nil {
 			return nil, err
 		}
 
-		// Divide by denominator if set
-		amt.Mul(amt, big.NewRat(1, int64(denom)))
-
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
@@ -88,19 +100,16 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
+		if account2 == "" {
+			return nil, fmt.Errorf("second amount without second account")
 		}
 
 		// Convert the amount2
-		amt2, err := GetBigRat(amount2)
+		amt2, err := getAmount(amount2, denom2)
 		if err != nil {
 			return nil, err
 		}
 
-		// Divide by denominator if set
-		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
-
 		// Set the negative of the amount
 		neg2 := (&big.Rat{}).Neg(amt2)
 
-- 
2.43.0


From 23cb889352912fb8fa7ead31a804f102b447358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 45/82] fix: numbers of scripts and JSON data became binary
 fractions instead of the decimal given

---
 script/convert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 4629b64..0a01b79 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"strconv"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -128,7 +129,8 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		if amt.SetFloat64(float64(v)) == nil {
+		// The decimal number it is written as, not the nearest binary fraction
+		if _, ok := amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 64)); !ok {
 			return nil, fmt.Errorf("invalid amount %v", v)
 		}
 	case starlark.Int:
-- 
2.43.0


From 5e52653b7c514b9a69252f7489c13052941e56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 46/82] fix: a script without any currency printed transactions
 that cannot be read

---
 script/starlark.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/script/starlark.go b/script/starlark.go
index 9c506ec..26d4a07 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -87,6 +87,10 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, err
 		}
 
+		if ccy == "" {
+			return nil, fmt.Errorf("missing currency")
+		}
+
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
@@ -110,6 +114,10 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, err
 		}
 
+		if ccy2 == "" {
+			return nil, fmt.Errorf("missing second currency")
+		}
+
 		// Set the negative of the amount
 		neg2 := (&big.Rat{}).Neg(amt2)
 
-- 
2.43.0


From 0b3d309e76aa1a9eceffd12bde2ba505c942cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 47/82] fix: the starter configuration was refused on the next
 run

---
 cmd/config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..3af7bdb 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,7 +86,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -115,19 +115,19 @@ const DEFAULT_CONFIG_FILE = `
 # Main defaults
 #
 #ledger =  "default_ledger_file"
-#baseccy = "ÃÂÃÂÃÂÃÂ£"
+#baseccy = "£"
 
 #
 # Defaults for the report command
 #
 [report]
 combineby = "today"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
@@ -154,7 +154,7 @@ dedup = true
 reclassify = true
 
 [importdefs.bankformat.params]
-ccy = "ÃÂÃÂÃÂÃÂ£"
+ccy = "£"
 date = "0"
 amount = "2"
 payee = "1"
-- 
2.43.0


From d4cc54d1617ef0e5514776031e8b1a9c2b77752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 48/82] fix: an invalid type in the configuration silently
 became another one

---
 cmd/export/export.go     | 3 +++
 cmd/register/register.go | 3 +++
 cmd/reports/report.go    | 6 ++++++
 cmd/utils/types.go       | 8 ++++++++
 4 files changed, 20 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index 350531c..edfae69 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -38,6 +38,9 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := exportType.Check(); err != nil {
+			return err
+		}
 		return export.run(app, cmd, args)
 	}
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index faa30b5..28eb594 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -57,6 +57,9 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	ncmd.Flags().BoolVar(&reg.Split, "split", reg.Split, "split multiple counteraccounts into separate postings")
 	ncmd.Flags().BoolVar(&reg.Convert, "convert", reg.Convert, "convert postings to base currency")
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := reportType.Check(); err != nil {
+			return err
+		}
 		return reg.run(app, cmd, args)
 	}
 
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..5cdc49a 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -88,6 +88,12 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := floorType.Check(); err != nil {
+			return err
+		}
+		if err := reportType.Check(); err != nil {
+			return err
+		}
 		return report.run(app, cmd, args)
 	}
 }
diff --git a/cmd/utils/types.go b/cmd/utils/types.go
index a5e1ee8..33331da 100644
--- a/cmd/utils/types.go
+++ b/cmd/utils/types.go
@@ -73,6 +73,14 @@ func (e *Enum) Set(value string) error {
 	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
 }
 
+// Check a value that was set otherwise (in the configuration). None at all is fine.
+func (e *Enum) Check() error {
+	if *e.Value == "" {
+		return nil
+	}
+	return e.Set(*e.Value)
+}
+
 func (e *Enum) String() string {
 	return *e.Value
 }
-- 
2.43.0


From 327c092286efd2019ff489696b0c14df39813dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 49/82] fix: depreciating over an absurd number of months used
 up all memory

---
 cmd/app/book_op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 0c156e9..df7037d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -194,6 +194,9 @@ func (app *App) bookOp(b *book.Book, op string, outer []string) error {
 		if months < 1 {
 			return fmt.Errorf("depreciate months '%s', invalid: must be at least one", args[3])
 		}
+		if months > 12*1000 {
+			return fmt.Errorf("depreciate months '%s', invalid: must be at most a thousand years", args[3])
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
-- 
2.43.0


From bcf146609e605bb7ebafa74bc184071dde64ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 50/82] fix: accounts whose components share leading letters
 were not grouped under their parent

---
 book/book_accum.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index ee1c481..4a72e85 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -16,14 +16,14 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 		if left[i] != right[i] {
 			break
 		}
-		if strings.HasPrefix(left[i:], divider) {
+		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
 			prefix = i
 		}
 	}
 
-	if (i < len(left) && strings.HasPrefix(left[i:], divider)) ||
-		(i < len(right) && strings.HasPrefix(right[i:], divider)) ||
-		(i == len(left) && i == len(right)) {
+	// Only a whole component of both is common
+	if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
+		(i == len(right) || strings.HasPrefix(right[i:], divider)) {
 		prefix = i
 	}
 
-- 
2.43.0


From a37121866408e499486f0fa5f0cfd059f6e36966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 51/82] fix: siblings with other accounts between them in the
 order were not grouped

---
 book/book_accum.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/book/book_accum.go b/book/book_accum.go
index 4a72e85..1b88820 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -223,6 +223,24 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 		}
 	}
 
+	// Siblings can be apart in the order of the postings as other characters sort
+	// before the divider
+	accts := make([]string, 0, len(posts))
+	for _, p := range posts {
+		accts = append(accts, p.GetAccount())
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		return strings.ReplaceAll(accts[i], divider, "\x00") < strings.ReplaceAll(accts[j], divider, "\x00")
+	})
+	for i := 1; i < len(accts); i++ {
+		if accts[i-1] == accts[i] {
+			continue
+		}
+		if key := findMaxCommonPrefix(accts[i-1], accts[i], divider); key != "" {
+			accum[key] = true
+		}
+	}
+
 	transIdx := 0
 	i := 0
 	for {
-- 
2.43.0


From 036c969437ba71650e59656fab61e7ef12be3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 52/82] fix: the rate of return of a larger loss was minus a
 hundred percent

---
 book/irr.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/book/irr.go b/book/irr.go
index c2559cd..32528e7 100644
--- a/book/irr.go
+++ b/book/irr.go
@@ -18,6 +18,16 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 	epsilon := 0.0001
 	limit := 10000
 
+	// The rate is between low and high -- below it the residual has the sign of
+	// the last payment
+	low, high := -1.0, math.Inf(1)
+	last := 0.0
+	for _, c := range cashflow {
+		if c != 0 {
+			last = c
+		}
+	}
+
 	for i := 0; i < limit; i++ {
 
 		// Calculate residual
@@ -37,13 +47,23 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 
 		newRate := guess - residual/residualAdjustment
 
-		if math.Abs(newRate-guess) < epsilon {
-			break
+		// Don't leave the range
+		if (residual > 0) == (last > 0) {
+			low = guess
+		} else {
+			high = guess
+		}
+		if !(newRate > low && newRate < high) {
+			newRate = (low + high) / 2
+			if math.IsInf(high, 1) {
+				newRate = 2*guess + 1
+			}
 		}
 
-		if newRate < -1 {
-			newRate = -0.999999999
+		if math.Abs(newRate-guess) < epsilon*math.Min(1, 1+guess) {
+			break
 		}
+
 		guess = newRate
 	}
 
-- 
2.43.0


From 1d6a1e5cab08d69ff0f1244b1984ccbb174a354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 53/82] fix: unsummarised reports showed no account names

---
 book/book_reclassify.go | 1 +
 book/builder.go         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 2741ef4..a21762a 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -89,6 +89,7 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 
 		if max_match > 0.0 {
 			trans[ctrans].acct = max_cacct
+			trans[ctrans].acctterm = max_cacct
 		}
 	}
 }
diff --git a/book/builder.go b/book/builder.go
index dd68f82..61a9226 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -151,6 +151,8 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 		val:   amt,
 		note:  note,
 		bal:   big.NewRat(0, 1),
+
+		acctterm: acct,
 	})
 
 	v, ok := b.currAmts[ccy]
-- 
2.43.0


From c639ff69dfd077cca58dae0cfc399213069de5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 54/82] fix: payee with a star and a quote was exported with an
 apostrophe

---
 cmd/export/ledger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 9a20af3..359c645 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -22,6 +22,10 @@ func LedgerFormatCurrency(ccy string) string {
 
 // LedgerFormatPayee quotes the payee if it would be read differently
 func LedgerFormatPayee(payee string) string {
+	if strings.HasPrefix(payee, "*") && strings.Contains(payee, "\"") && !strings.Contains(payee, ";") {
+		// It can't be quoted, but a second star belongs to the payee
+		return "* " + payee
+	}
 	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") || strings.HasPrefix(payee, "*") {
 		payee = "\"" + strings.ReplaceAll(payee, "\"", "'") + "\""
 	}
-- 
2.43.0


From 46b7dcef924891e688498a71d46eea0303b86375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 55/82] fix: combining by today around midnight could split
 transactions over two days

---
 book/book.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/book/book.go b/book/book.go
index a864203..e8375ec 100644
--- a/book/book.go
+++ b/book/book.go
@@ -79,7 +79,11 @@ func (b *Book) GetCCYDecimals() map[string]int {
 }
 
 func (b *Book) SplitBy(by string) {
+	today := GetToday() // one day for all, even around midnight
 	b.MapTransaction(func(date Date, payee string) (Date, string) {
+		if by == "today" {
+			return today, ""
+		}
 		return date.Floor(by), ""
 	})
 }
-- 
2.43.0


From f5bc2bee58db883ccab4b8a8e4a508755834018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 56/82] fix: a date without a month had its day read in January

---
 book/date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index d860d3b..b8bf885 100644
--- a/book/date.go
+++ b/book/date.go
@@ -76,7 +76,7 @@ func (date Date) FloorQuarter(diff int) Date {
 	return Date((year * 10000) + ((month + 1) * 100) + 1)
 }
 
-var dateYYYYMMDD = regexp.MustCompile("^([0-9][0-9][0-9][0-9])[-/\\.]?([0-9]?[0-9])?[-/\\.]?([0-9]?[0-9])?$")
+var dateYYYYMMDD = regexp.MustCompile("^([0-9][0-9][0-9][0-9])[-/\\.]?(?:([0-9]?[0-9])[-/\\.]?([0-9]?[0-9])?)?$")
 var dateDDMMYYYY = regexp.MustCompile("^([0-9]?[0-9])[-/\\.]?([0-9]?[0-9])[-/\\.]?([0-9][0-9][0-9][0-9])$")
 var date_desc_re = regexp.MustCompile("^(this|last|next)[\\._ \t]+(month|year|quarter)$")
 
-- 
2.43.0


From 97f5083e1a246092642b50dea8dcbb97ade37c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 57/82] fix: import scripts saw the keys of JSON objects in
 random order

---
 script/convert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 0a01b79..2eb1f46 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 )
 
@@ -36,7 +37,13 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 		return starlark.NewList(newarr), nil
 	case map[string]interface{}:
 		newdict := starlark.NewDict(len(v))
-		for k, nv := range v {
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys) // always the same order for the script
+		for _, k := range keys {
+			nv := v[k]
 			sv, err := jsonToStarlark(nv)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From c18cb77696c450405b0afabbe129bb551e0b1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 58/82] fix: parameters of an import format were shown in
 random order

---
 cmd/utils/cli_config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..d3c9237 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -92,6 +93,7 @@ func (e *CLIConfig) String() string {
 		keyv[i] = k + "=" + v
 		i++
 	}
+	sort.Strings(keyv)
 
 	return e.ConfigType + ":" + strings.Join(keyv, ",")
 }
-- 
2.43.0


From 83a370a4819d5583303660709c4915a2cecd1bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 59/82] fix: completion listed the macros in random order

---
 cmd/export/export.go  | 2 ++
 cmd/reports/report.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index edfae69..9e0baa7 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -5,6 +5,7 @@ import (
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 type ExportReport struct {
@@ -36,6 +37,7 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		if err := exportType.Check(); err != nil {
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index 5cdc49a..052b8eb 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -8,6 +8,7 @@ import (
 	"github.com/spf13/cobra"
 	"math/big"
 	"regexp"
+	"sort"
 )
 
 type TransactionReport struct {
@@ -86,6 +87,7 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		if err := floorType.Check(); err != nil {
-- 
2.43.0


From 4f69f74334f8613cb3c8044d0e5cacc2156a74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 60/82] fix: scripts printing several lines broke the ledger
 output

---
 script/starlark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/starlark.go b/script/starlark.go
index 26d4a07..0b05cc5 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -9,10 +9,11 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
 )
 
 func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+	fmt.Printf("; %s\n", strings.NewReplacer("\r", " ", "\n", "\n; ").Replace(msg))
 }
 
 var userError = errors.New("user code")
-- 
2.43.0


From f649094bb9e815eb2e5e76972da0533b75872956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 61/82] fix: transactions a script had listed changed with
 later operations

---
 script/book_op.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/book_op.go b/script/book_op.go
index 248ad3e..2e24ed3 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -85,7 +85,8 @@ func (s *starlarkBook) Attr(name string) (starlark.Value, error) {
 	// Read-only methods
 	switch name {
 	case "transactions":
-		return starlarkTransactions(s.b.Transactions()), nil
+		// A copy, as the book may change while the script has it
+		return starlarkTransactions(s.b.Duplicate().Transactions()), nil
 	}
 
 	if s.frozen {
-- 
2.43.0


From df35ee03a0b5557870e609688d0becb8a493c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 62/82] fix: a transaction unbalanced in several currencies was
 reported with a random one

---
 book/builder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/book/builder.go b/book/builder.go
index 61a9226..026ab7d 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -3,6 +3,7 @@ package book
 import (
 	"fmt"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -98,7 +99,13 @@ func NewBookBuilder() *Builder {
 
 func (b *Builder) checkAndClearTransaction() {
 	var Zero big.Int
-	for ccy, amt := range b.currAmts {
+	ccys := make([]string, 0, len(b.currAmts))
+	for ccy := range b.currAmts {
+		ccys = append(ccys, ccy)
+	}
+	sort.Strings(ccys) // report the same currency every time
+	for _, ccy := range ccys {
+		amt := b.currAmts[ccy]
 		if amt.Num().Cmp(&Zero) != 0 {
 			panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt))
 		} else {
-- 
2.43.0


From 9eb4b5e62f74264a90cd8739cb590767b47e0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 63/82] fix: downloading from Monzo never ended with a full
 page within one minute

---
 cmd/download/monzo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..05447e9 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -313,8 +313,11 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Use the the time of a minute before the most recent transaction --
 		// Bug in Monzo API, unfortunately.
-		since = created.Add(-1 * time.Second * 60).Format(time.RFC3339)
-
+		next := created.Add(-1 * time.Second * 60).Format(time.RFC3339)
+		if next == since {
+			return fmt.Errorf("more than %d transactions within a minute of %s", LIMIT, created.Format(time.RFC3339))
+		}
+		since = next
 	}
 
 	return nil
-- 
2.43.0


From 53a16f7ae7330f5e17c18b1e38e19374e9c56ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 64/82] fix: a Monzo token renewed during a download was not
 saved

---
 cmd/download/monzo.go | 59 ++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 05447e9..d34d015 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -161,36 +161,55 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 		return nil, fmt.Errorf("pending authorisation")
 	}
 
-	// Refresh token if needed
-	if config.Token.Expiry.Before(time.Now()) {
-		src := conf.TokenSource(ctx, config.Token)
-		newToken, err := src.Token() // Renew the token
-		if err != nil {
-			return nil, fmt.Errorf("failed renewing token: %w", err)
-		}
-
-		// Capture new token
-		if newToken.AccessToken != config.Token.AccessToken {
-			fmt.Printf("Refreshed access token.\n")
-
-			config.Token = newToken
-
-			// Save it.
-			if err := utils.SaveToFile(file, &config); err != nil {
-				return nil, fmt.Errorf("failed saving: %w", err)
-			}
-		}
+	// Refresh token if needed, now and whenever it expires
+	src := &savedTokenSource{
+		src:  conf.TokenSource(ctx, config.Token),
+		file: file,
+		data: &config,
+	}
+	if _, err := src.Token(); err != nil {
+		return nil, err
 	}
 
 	// New client
 	return &MonzoClient{
-		client: conf.Client(ctx, config.Token),
+		client: oauth2.NewClient(ctx, src),
 		file:   file,
 		data:   &config,
 		config: m,
 	}, nil
 }
 
+// savedTokenSource saves every renewed token, as the one before is no longer valid
+type savedTokenSource struct {
+	src  oauth2.TokenSource
+	file string
+	data *MonzoData
+}
+
+func (s *savedTokenSource) Token() (*oauth2.Token, error) {
+	token, err := s.src.Token()
+	if err != nil {
+		return nil, fmt.Errorf("failed renewing token: %w", err)
+	}
+	if token == s.data.Token {
+		return token, nil
+	}
+	fmt.Printf("Refreshed access token.\n")
+	s.data.Token = token
+
+	// Save it only, a download may be under way
+	var saved MonzoData
+	if err := utils.LoadFromFile(s.file, &saved); err != nil {
+		return nil, err
+	}
+	saved.Token = token
+	if err := utils.SaveToFile(s.file, &saved); err != nil {
+		return nil, fmt.Errorf("failed saving: %w", err)
+	}
+	return token, nil
+}
+
 //
 // STRUCTURES
 //
-- 
2.43.0


From bb0b92eddbb6ff72629d1000f5e72dce898c3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 65/82] fix: download accepted responses with no data or
 something behind the data

---
 cmd/download/net.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmd/download/net.go b/cmd/download/net.go
index b2149d0..282dd4e 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"net/url"
@@ -29,6 +30,22 @@ func getThrottler(min_delay time.Duration) func() {
 	}
 }
 
+// decodeJSON decodes a complete response of known fields
+func decodeJSON(body []byte, data interface{}) error {
+	if bytes.Equal(bytes.TrimSpace(body), []byte("null")) {
+		return errors.New("no data")
+	}
+	decoder := json.NewDecoder(bytes.NewReader(body))
+	decoder.DisallowUnknownFields()
+	if err := decoder.Decode(data); err != nil {
+		return err
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return errors.New("unexpected data at the end")
+	}
+	return nil
+}
+
 func postToURL(client *http.Client, url string, pdata url.Values, data interface{}) error {
 	throttler()
 
@@ -52,9 +69,7 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 		return fmt.Errorf("post url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))
 	}
 
-	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
-	decoder.DisallowUnknownFields()
-	if err = decoder.Decode(data); err != nil {
+	if err = decodeJSON(bodyBytes, data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
 
@@ -83,9 +98,7 @@ func fetchFromURL(client *http.Client, url string, data interface{}) error {
 		return fmt.Errorf("url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))
 	}
 
-	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
-	decoder.DisallowUnknownFields()
-	if err = decoder.Decode(data); err != nil {
+	if err = decodeJSON(bodyBytes, data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
 
-- 
2.43.0


From f1abcb278ae36737b49d8baf3e77775b37e5cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 66/82] fix: download crashed on an empty entry in a response

---
 cmd/download/monzo.go    | 6 ++++++
 cmd/download/starling.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index d34d015..3dfb5d3 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -86,6 +86,9 @@ func (m *MonzoClient) Sync() error {
 		m.data.Accounts = make(map[string]*MonzoAccount)
 	}
 	for _, v := range accts.Accounts {
+		if v == nil {
+			return errors.New("failed getting accounts: empty account")
+		}
 		m.data.Accounts[v.ID] = v
 	}
 
@@ -315,6 +318,9 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 		// Map new transactions in
 		var created time.Time
 		for _, t := range trans.Trans {
+			if t == nil {
+				return errors.New("empty transaction")
+			}
 			m.data.Transactions[t.ID] = t
 			thisTime, err := time.Parse(time.RFC3339, t.Created)
 			if err != nil {
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 6b3ee1c..7a4738e 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -2,6 +2,7 @@ package download
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/mescanne/goledger/cmd/utils"
 	"github.com/spf13/cobra"
@@ -139,6 +140,9 @@ func (m *StarlingClient) syncFeed(acct *StarlingAccountData, name string, catego
 	updatedItems := 0
 	newItems := 0
 	for _, item := range items.FeedItems {
+		if item == nil {
+			return errors.New("failed getting feeditems: empty item")
+		}
 		curr, ok := feed[item.FeedItemUid]
 		if !ok {
 			newItems++
@@ -170,6 +174,9 @@ func (m *StarlingClient) Sync() error {
 		m.data.Accounts = make(map[string]*StarlingAccountData)
 	}
 	for _, v := range accts.Accounts {
+		if v == nil {
+			return errors.New("failed getting accounts: empty account")
+		}
 		_, ok := m.data.Accounts[v.AccountUid]
 		if !ok {
 			m.data.Accounts[v.AccountUid] = &StarlingAccountData{}
-- 
2.43.0


From 1bb47dc88b7e6d7e935b8a58af5ed196ed08c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 67/82] fix: download took a response without the expected list
 for an empty list

---
 cmd/download/monzo.go    | 6 ++++++
 cmd/download/nordigen.go | 3 +++
 cmd/download/starling.go | 9 +++++++++
 3 files changed, 18 insertions(+)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 3dfb5d3..fb4bf33 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -81,6 +81,9 @@ func (m *MonzoClient) Sync() error {
 	if err := fetchFromURL(m.client, "https://api.monzo.com/accounts", accts); err != nil {
 		return fmt.Errorf("failed getting accounts: %s", err)
 	}
+	if accts.Accounts == nil {
+		return errors.New("failed getting accounts: no list of accounts")
+	}
 
 	if m.data.Accounts == nil {
 		m.data.Accounts = make(map[string]*MonzoAccount)
@@ -363,5 +366,8 @@ func (m *MonzoClient) getTransactions(accountID string, since string, limit uint
 	if err := fetchFromURL(m.client, url, resp); err != nil {
 		return nil, err
 	}
+	if resp.Trans == nil {
+		return nil, fmt.Errorf("url %v: no list of transactions", url)
+	}
 	return resp, nil
 }
diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index 3b07946..c3b2b10 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -392,6 +392,9 @@ func (c *NordigenClient) RefreshAccounts() error {
 		if err := fetchFromURL(c.client, fmt.Sprintf("%s/accounts/%s/transactions", NORDIGEN_ENDPOINT, accountId), &resp); err != nil {
 			return fmt.Errorf("failed getting transactions: %w", err)
 		}
+		if resp.Transactions.Booked == nil {
+			return fmt.Errorf("failed getting transactions: no list of booked transactions")
+		}
 
 		// Update all booked transactions
 		if acct.Transactions == nil {
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 7a4738e..eca0b03 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -135,6 +135,9 @@ func (m *StarlingClient) syncFeed(acct *StarlingAccountData, name string, catego
 	if err := fetchFromURL(m.client, reqUrl, &items); err != nil {
 		return fmt.Errorf("failed getting feeditems: %w", err)
 	}
+	if items.FeedItems == nil {
+		return errors.New("failed getting feeditems: no list of items")
+	}
 
 	// Update items
 	updatedItems := 0
@@ -168,6 +171,9 @@ func (m *StarlingClient) Sync() error {
 	if err := fetchFromURL(m.client, STARLING_ENDPOINT+"/api/v2/accounts", accts); err != nil {
 		return fmt.Errorf("failed getting accounts: %s", err)
 	}
+	if accts.Accounts == nil {
+		return errors.New("failed getting accounts: no list of accounts")
+	}
 
 	// Get Account Map
 	if m.data.Accounts == nil {
@@ -225,6 +231,9 @@ func (m *StarlingClient) Sync() error {
 	if err := fetchFromURL(m.client, STARLING_ENDPOINT+"/api/v2/payees", p); err != nil {
 		return fmt.Errorf("failed getting payees: %s", err)
 	}
+	if p.Payees == nil {
+		return errors.New("failed getting payees: no list of payees")
+	}
 	m.data.Payees = p.Payees
 
 
-- 
2.43.0


From 5fa92beac3e1df4321d02f56841e2ec985c49599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 68/82] fix: the code and the state of two callbacks that
 arrive together were mixed

Both handlers wrote the same variables without synchronisation, so the code of one
request could be exchanged on the strength of the other one's state.
---
 cmd/download/net.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/cmd/download/net.go b/cmd/download/net.go
index 282dd4e..ea20d52 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -106,9 +106,12 @@ func fetchFromURL(client *http.Client, url string, data interface{}) error {
 }
 
 func CaptureCode(port int) (string, string, error) {
-	code := ""
-	state := ""
-	var clientErr error = nil
+	// Only the first request counts
+	type result struct {
+		code, state string
+		err         error
+	}
+	results := make(chan result, 1)
 	server := &http.Server{
 		Addr: fmt.Sprintf(":%d", port),
 	}
@@ -116,11 +119,16 @@ func CaptureCode(port int) (string, string, error) {
 		vals := r.URL.Query()
 		codes, codeOk := vals["code"]
 		states, stateOk := vals["state"]
+		res := result{}
 		if !codeOk || len(codes) != 1 || !stateOk || len(states) != 1 {
-			clientErr = fmt.Errorf("Query must specify state and code")
+			res.err = fmt.Errorf("Query must specify state and code")
 		} else {
-			code = codes[0]
-			state = states[0]
+			res.code = codes[0]
+			res.state = states[0]
+		}
+		select {
+		case results <- res:
+		default:
 		}
 		server.Close()
 	})
@@ -130,10 +138,11 @@ func CaptureCode(port int) (string, string, error) {
 		fmt.Printf("Returning error %v\n", err)
 		return "", "", err
 	}
-	if clientErr != nil {
-		fmt.Printf("Returning client error %v\n", clientErr)
-		return "", "", clientErr
+	res := <-results
+	if res.err != nil {
+		fmt.Printf("Returning client error %v\n", res.err)
+		return "", "", res.err
 	}
-	fmt.Printf("Returning code %v, state %v, no error\n", code, state)
-	return code, state, nil
+	fmt.Printf("Returning code %v, state %v, no error\n", res.code, res.state)
+	return res.code, res.state, nil
 }
-- 
2.43.0


From 42a6d4367a23e020c5c57dfbea5c0b3356a0cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 69/82] fix: what a ledger file cannot hold was added by
 scripts

Payees with outer spaces, line breaks, quotes or bytes that are not UTF-8 were
read back differently, so importing the same data again added them again, and
invalid accounts or currencies gave a file that cannot be loaded.
---
 script/starlark.go | 48 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/script/starlark.go b/script/starlark.go
index 0b05cc5..935746f 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -9,6 +9,7 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"regexp"
 	"strings"
 )
 
@@ -26,6 +27,38 @@ var Errorf = starlark.NewBuiltin("error",
 		return starlark.None, fmt.Errorf("%w: %s", userError, msg)
 	})
 
+// The text as it is read back from a ledger file (otherwise duplicates are missed
+// when it is added again)
+func ledgerText(text string) string {
+	text = strings.NewReplacer("\r", " ", "\n", " ").Replace(string([]rune(text)))
+	return strings.TrimSpace(text)
+}
+
+// The payee as it is read back from a ledger file
+func ledgerPayee(payee string) string {
+	payee = ledgerText(payee)
+	if strings.HasPrefix(payee, "\"") || (strings.Contains(payee, "\"") && strings.Contains(payee, ";")) {
+		payee = strings.ReplaceAll(payee, "\"", "'")
+	}
+	return payee
+}
+
+var validAccount = regexp.MustCompile("^[a-zA-Z0-9&':_]+$")
+
+// Check that a ledger file can have such a posting
+func checkPosting(account string, ccy string) error {
+	if !validAccount.MatchString(account) {
+		return fmt.Errorf("invalid account '%s'", account)
+	}
+	if ccy == "" {
+		return fmt.Errorf("missing currency")
+	}
+	if strings.ContainsAny(ccy, "\"\r\n") {
+		return fmt.Errorf("invalid currency '%s'", ccy)
+	}
+	return nil
+}
+
 // Convert the amount and divide it by the denominator
 func getAmount(amount starlark.Value, denom int) (*big.Rat, error) {
 	amt, err := GetBigRat(amount)
@@ -88,16 +121,19 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, err
 		}
 
-		if ccy == "" {
-			return nil, fmt.Errorf("missing currency")
+		if err := checkPosting(account, ccy); err != nil {
+			return nil, err
+		}
+		if err := checkPosting(caccount, ccy); err != nil {
+			return nil, err
 		}
 
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
 		// Make the transaction
-		bbuilder.NewTransaction(ndate, string(desc), note)
-		bbuilder.AddPosting(account, ccy, amt, lnote)
+		bbuilder.NewTransaction(ndate, ledgerPayee(desc), ledgerText(note))
+		bbuilder.AddPosting(account, ccy, amt, ledgerText(lnote))
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
 		// Nothing else to do
@@ -115,8 +151,8 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, err
 		}
 
-		if ccy2 == "" {
-			return nil, fmt.Errorf("missing second currency")
+		if err := checkPosting(account2, ccy2); err != nil {
+			return nil, err
 		}
 
 		// Set the negative of the amount
-- 
2.43.0


From 9d5d5177ebb235e42cc075bfd11674092ae5ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 70/82] fix: empty fields of tab-delimited files were lost

---
 script/convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 2eb1f46..e2045e1 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -9,6 +9,7 @@ import (
 	"math/big"
 	"sort"
 	"strconv"
+	"unicode"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -86,7 +87,7 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 		// CSV
 		csvr := csv.NewReader(r)
 		csvr.Comma = []rune(delim)[0]
-		csvr.TrimLeadingSpace = true
+		csvr.TrimLeadingSpace = !unicode.IsSpace(csvr.Comma) // or empty fields would be lost
 		csvr.ReuseRecord = true
 
 		var hdr []string = nil
-- 
2.43.0


From a85beb18df3df342c2fa98af58fa80917c0540b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 71/82] fix: data behind the JSON value of an import was
 ignored

---
 script/convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index e2045e1..78bba6e 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -66,10 +66,14 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 // This is a Starlark Reader
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
-	err := json.NewDecoder(r).Decode(&p)
+	decoder := json.NewDecoder(r)
+	err := decoder.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("json parsing: unexpected data at the end")
+	}
 
 	s, err := jsonToStarlark(p)
 	if err != nil {
-- 
2.43.0


From 567dc453a58832fe1d758f2ebd365b1262617997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 72/82] fix: endless recursion in a script crashed the program

---
 script/starlark.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/script/starlark.go b/script/starlark.go
index 935746f..620c335 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -183,6 +183,16 @@ func RunStarlark(printf func(*starlark.Thread, string), globals map[string]starl
 		Print: printf,
 	}
 
+	// Stop endless recursion before it exhausts the memory
+	const checkSteps = 1000
+	thread.SetMaxExecutionSteps(checkSteps)
+	thread.OnMaxSteps = func(thread *starlark.Thread) {
+		if thread.CallStackDepth() > 10000 {
+			thread.Cancel("recursion too deep")
+		}
+		thread.SetMaxExecutionSteps(thread.ExecutionSteps() + checkSteps)
+	}
+
 	// This dictionary defines the pre-declared environment.
 	predeclared := starlark.StringDict(globals)
 
-- 
2.43.0


From 17f0e0634d0213d6673c69d0076022af61eb6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 73/82] fix: tables dropped the digit separators of French (and
 all wide spaces)

---
 cmd/app/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 183f35a..39c4de9 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -389,7 +389,7 @@ func Length(s string) int {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
@@ -429,7 +429,7 @@ func PadString(s string, max int, justify_left bool) string {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
-- 
2.43.0


From f811a31dfcb65d9cdfd01bc53de8f36511d680a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:41 +0000
Subject: [PATCH 74/82] fix: an escape character that isn't a colour code
 swallowed the text after it in tables

---
 cmd/app/print.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 39c4de9..ed1be65 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -379,12 +379,7 @@ func Length(s string) int {
 
 		// Skip forward if it's ansi
 		if r == ansiStart {
-			for idx < len(s) && r != ansiEnd {
-				r, width = utf8.DecodeRuneInString(s[idx:])
-				idx += width
-			}
-
-			// Now we have 'm' -- get to the next one
+			idx += ansiLength(s[idx:])
 			continue
 		}
 
@@ -403,6 +398,19 @@ func Length(s string) int {
 const ansiStart = '\033'
 const ansiEnd = 'm'
 
+// Length of the rest of a colour code, after its start. It is zero if this isn't a
+// (complete) colour code: the start is then just another control character.
+func ansiLength(s string) int {
+	if !strings.HasPrefix(s, "[") {
+		return 0
+	}
+	l := strings.IndexByte(s, ansiEnd)
+	if l < 0 || strings.Trim(s[1:l], "0123456789;:") != "" {
+		return 0
+	}
+	return l + 1
+}
+
 func PadString(s string, max int, justify_left bool) string {
 
 	var sb strings.Builder
@@ -416,15 +424,11 @@ func PadString(s string, max int, justify_left bool) string {
 
 		// Skip forward if it's ansi
 		if r == ansiStart {
-			sb.WriteRune(r)
-
-			for idx < len(s) && r != ansiEnd {
-				r, width = utf8.DecodeRuneInString(s[idx:])
-				idx += width
+			if l := ansiLength(s[idx:]); l > 0 {
 				sb.WriteRune(r)
+				sb.WriteString(s[idx : idx+l])
+				idx += l
 			}
-
-			// Now we have 'm' -- get to the next one
 			continue
 		}
 
-- 
2.43.0


From d24108d4058793b341afbcedcb86a583c3163265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 75/82] fix: amounts with many digits were displayed inexactly

---
 cmd/app/print.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index ed1be65..398b3a8 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"math/big"
 	"os"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -260,12 +261,36 @@ func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
 // Format the number correctly based on the symbol in a locale-specific
 // way
 func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
-	f, _ := amount.Float64()
 	dec, ok := b.decs[symbol]
 	if !ok {
 		dec = 2
 	}
-	return b.pr.Sprintf("%.*f", dec, f)
+
+	// Round exactly -- the language only has the separators
+	num := strings.SplitN(strings.TrimPrefix(amount.FloatString(dec), "-"), ".", 2)
+	str := b.formatWhole(num[0])
+	if len(num) > 1 {
+		str += strings.Trim(b.pr.Sprintf("%.1f", 0.0), "0") + num[1]
+	}
+	if amount.Sign() < 0 {
+		str = "-" + str
+	}
+	return str
+}
+
+// Format the digits of a whole number, whatever their number
+func (b *BookPrinter) formatWhole(digits string) string {
+	const most = 15 // a multiple of the digits per group
+	high, low := "", digits
+	if len(digits) > most {
+		high, low = b.formatWhole(digits[:len(digits)-most]), "1"+digits[len(digits)-most:]
+	}
+	n, _ := strconv.ParseInt(low, 10, 64)
+	str := b.pr.Sprintf("%d", n)
+	if high != "" {
+		str = high + strings.TrimPrefix(str, "1")
+	}
+	return str
 }
 
 // Format the number exactly and in the same way for all languages, as needed for
-- 
2.43.0


From 11214c10c32fb19edbc5fafbb70024e67e941ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 76/82] fix: register failed unless a report type was given or
 configured

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index fe9b6ba..8b00397 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -34,7 +34,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 		report = ndata
 	}
 
-	if format == "Text" {
+	if format == "Text" || format == "" {
 		return ShowText(b, report, withAcct, withBal)
 	} else if format == "JSON" {
 		return b.PrintJSON(report, true)
-- 
2.43.0


From d5721748d5c3e5a51b90a135bf1e8020d8714c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 77/82] fix: LANG with a codeset (de_DE.UTF-8) was shown as
 English

---
 cmd/app/app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index a5ff629..a3f472b 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -51,6 +51,10 @@ var DefaultApp App = App{
 func init() {
 	l, ok := os.LookupEnv("LANG")
 	if ok {
+		// Without the codeset and modifier (eg de_DE.UTF-8, nl_NL@euro)
+		if i := strings.IndexAny(l, ".@"); i >= 0 {
+			l = l[:i]
+		}
 		DefaultApp.Lang = l
 	}
 }
-- 
2.43.0


From b69aa990b37b68acf8d8fa0cbeccbe602a6f84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 78/82] fix: which note a combined posting keeps depended on
 unrelated postings and on whether the book had been looked at

---
 book/book_compact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_compact.go b/book/book_compact.go
index fd00b62..7d9e750 100644
--- a/book/book_compact.go
+++ b/book/book_compact.go
@@ -13,7 +13,7 @@ func (b *Book) compact() {
 	}
 
 	// Sort
-	sort.Slice(b.post, func(i, j int) bool {
+	sort.SliceStable(b.post, func(i, j int) bool {
 		return b.post[i].isLess(&b.post[j])
 	})
 
-- 
2.43.0


From 78f1a3678161a46228f8c4462e987b57eda33de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 79/82] fix: register with the smallest count crashed

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 8b00397..58ec7a1 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -21,7 +21,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	}
 
 	// Restrict count counting from end
-	if count < 0 && len(report) > (-1*count) {
+	if count < 0 && count > -len(report) {
 		report = (report)[len(report)+count : len(report)]
 	}
 
-- 
2.43.0


From caefdd3de432f5fc9564bc375114d3e97d3393da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:56 +0000
Subject: [PATCH 80/82] fix: the operations help named a combine type (all)
 that is refused, and not two that exist

---
 cmd/app/book_op.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index df7037d..c1a3485 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -64,7 +64,7 @@ Operations:
 
   combine=type
 
-    Type can be yearly, quarterly, monthly, or all. This will floor all
+    Type can be yearly, quarterly, monthly, today, or none. This will floor all
     transaction dates according to the rule.
 
   depreciate=/search-regex/asset-acccount/months/
-- 
2.43.0


From c7d1defa73d4f6a20fab36cbcecb4f747fa9095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:12 +0000
Subject: [PATCH 81/82] fix: output that could not be written (a full disk) was
 reported as success

---
 cmd/app/app.go               | 34 +++++++++++++++++++++++++++-------
 cmd/currencies/currencies.go |  4 +++-
 cmd/utils/shell.go           |  8 ++++++--
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index a3f472b..4cb4826 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -86,6 +86,21 @@ and ledger cli (https://www.ledger-cli.org/)
 
 var appCleanup func() error = nil
 
+// Standard output -- remembers if something could not be written
+type stdout struct {
+	io.Writer
+	err error
+}
+
+func (s *stdout) Write(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.Writer.Write(p)
+	s.err = err
+	return n, err
+}
+
 func initialiseLess(w io.Writer) io.Writer {
 
 	// Already initialised - skip
@@ -94,7 +109,7 @@ func initialiseLess(w io.Writer) io.Writer {
 	}
 
 	// If stdout is not a terminal, stop now
-	if w != os.Stdout || termWidth == -1 {
+	if out, ok := w.(*stdout); !ok || out.Writer != os.Stdout || termWidth == -1 {
 		return w
 	}
 
@@ -158,13 +173,18 @@ func (app *App) LoadCommand() *cobra.Command {
 		},
 
 		// Cleanup if needed
-		PersistentPostRun: func(cmd *cobra.Command, args []string) {
-			if appCleanup == nil {
-				return
+		PersistentPostRunE: func(cmd *cobra.Command, args []string) error {
+			if appCleanup != nil {
+				if err := appCleanup(); err != nil {
+					fmt.Printf("error: %v\n", err)
+				}
 			}
-			if err := appCleanup(); err != nil {
-				fmt.Printf("error: %v\n", err)
+
+			// The output is incomplete if it could not be written
+			if out, ok := app.Output.(*stdout); ok && out.err != nil {
+				return fmt.Errorf("failed writing output: %w", out.err)
 			}
+			return nil
 		},
 	}
 
@@ -205,7 +225,7 @@ func (app *App) LoadCommand() *cobra.Command {
 		appCmd.SetOut(app.Output)
 		appCmd.SetErr(app.Output)
 	} else {
-		app.Output = appCmd.OutOrStdout()
+		app.Output = &stdout{Writer: appCmd.OutOrStdout()}
 	}
 
 	return appCmd
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index b31c690..1e999cf 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -28,7 +28,9 @@ func Add(root *cobra.Command, app *app.App) {
 		}
 		sort.Strings(ccys)
 		for _, ccy := range ccys {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
+			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy]); err != nil {
+				return err
+			}
 		}
 
 		return nil
diff --git a/cmd/utils/shell.go b/cmd/utils/shell.go
index 8fafd2c..6167bb3 100644
--- a/cmd/utils/shell.go
+++ b/cmd/utils/shell.go
@@ -33,10 +33,14 @@ func AddShell(root *cobra.Command) {
 	ncmd.PreRunE = cobra.NoArgs
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
 		if shell == "bash" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenBashCompletion(rcmd.OutOrStdout())
 		} else if shell == "zsh" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenZshCompletion(rcmd.OutOrStdout())
 		} else if shell == "powershell" {
 			return root.GenPowerShellCompletion(rcmd.OutOrStdout())
-- 
2.43.0


From 35e3e9c4019a97f126ce45383eac528009fd2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:52 +0000
Subject: [PATCH 82/82] fix: what a script prints was lost silently when it
 could not be written

---
 script/starlark.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/script/starlark.go b/script/starlark.go
index 620c335..fc67972 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -13,8 +13,10 @@ import (
 	"strings"
 )
 
-func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", strings.NewReplacer("\r", " ", "\n", "\n; ").Replace(msg))
+func Print(thread *starlark.Thread, msg string) {
+	if _, err := fmt.Printf("; %s\n", strings.NewReplacer("\r", " ", "\n", "\n; ").Replace(msg)); err != nil {
+		thread.Cancel(err.Error())
+	}
 }
 
 var userError = errors.New("user code")
-- 
2.43.0

