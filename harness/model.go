//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
)

// ---- reference model of a book -----------------------------------------------------------------

// MPost is one posting of the model. Notes and TNotes are the notes it may carry: merging postings
// keeps one of the notes, and the properties do not say which.
type MPost struct {
	Date   int
	Payee  string
	TNotes []string
	Acct   string
	CCY    string
	Notes  []string
	Val    *big.Rat
}

type MPrice struct {
	Date int
	Val  *big.Rat
}

type MBook struct {
	Posts  []MPost
	Prices map[[2]string][]MPrice
	Order  [][2]string // pairs in the order first recorded
	Dec    map[string]int
}

func newMBook() *MBook { return &MBook{Prices: map[[2]string][]MPrice{}, Dec: map[string]int{}} }

func rat(n, d int64) *big.Rat { return big.NewRat(n, d) }

func ratS(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("harness: bad number " + s)
	}
	return r
}

func (m *MBook) addPrice(date int, unit, ccy string, v *big.Rat) {
	k := [2]string{unit, ccy}
	if _, ok := m.Prices[k]; !ok {
		m.Order = append(m.Order, k)
	}
	m.Prices[k] = append(m.Prices[k], MPrice{date, v})
}

func (m *MBook) clone() *MBook {
	n := newMBook()
	n.Posts = make([]MPost, len(m.Posts))
	for i, p := range m.Posts {
		q := p
		q.Val = new(big.Rat).Set(p.Val)
		q.Notes = append([]string(nil), p.Notes...)
		q.TNotes = append([]string(nil), p.TNotes...)
		n.Posts[i] = q
	}
	for k, v := range m.Prices {
		n.Prices[k] = append([]MPrice(nil), v...)
	}
	n.Order = append([][2]string(nil), m.Order...)
	for k, v := range m.Dec {
		n.Dec[k] = v
	}
	return n
}

func union(a, b []string) []string {
	for _, x := range b {
		found := false
		for _, y := range a {
			if x == y {
				found = true
			}
		}
		if !found {
			a = append(a[:len(a):len(a)], x)
		}
	}
	return a
}

// normalise merges postings of the same date, payee, account and currency, drops zeroes and sorts.
func (m *MBook) normalise() {
	type key struct {
		d       int
		p, a, c string
	}
	idx := map[key]int{}
	var out []MPost
	type tkey struct {
		d int
		p string
	}
	tn := map[tkey][]string{}
	for _, p := range m.Posts {
		tk := tkey{p.Date, p.Payee}
		tn[tk] = union(tn[tk], p.TNotes)
		k := key{p.Date, p.Payee, p.Acct, p.CCY}
		if i, ok := idx[k]; ok {
			out[i].Val = new(big.Rat).Add(out[i].Val, p.Val)
			out[i].Notes = union(out[i].Notes, p.Notes)
		} else {
			idx[k] = len(out)
			q := p
			q.Val = new(big.Rat).Set(p.Val)
			out = append(out, q)
		}
	}
	var nz []MPost
	for _, p := range out {
		p.TNotes = tn[tkey{p.Date, p.Payee}]
		if p.Val.Sign() != 0 {
			nz = append(nz, p)
		}
	}
	sort.SliceStable(nz, func(i, j int) bool {
		a, b := nz[i], nz[j]
		if a.Date != b.Date {
			return a.Date < b.Date
		}
		if a.Payee != b.Payee {
			return a.Payee < b.Payee
		}
		if a.Acct != b.Acct {
			return a.Acct < b.Acct
		}
		return a.CCY < b.CCY
	})
	m.Posts = nz
}

// trans returns the postings grouped by (date, payee); m must be normalised.
func (m *MBook) trans() [][]MPost {
	var out [][]MPost
	for i, p := range m.Posts {
		if i == 0 || m.Posts[i-1].Date != p.Date || m.Posts[i-1].Payee != p.Payee {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], p)
	}
	return out
}

// canon is the canonical text of the amounts, prices and structure of the model.
func (m *MBook) canon() string {
	var sb strings.Builder
	for _, p := range m.Posts {
		fmt.Fprintf(&sb, "%08d|%q|%s|%s|%s\n", p.Date, p.Payee, p.Acct, p.CCY, p.Val.RatString())
	}
	sb.WriteString(m.canonPrices())
	return sb.String()
}

func (m *MBook) canonPrices() string {
	var ks [][2]string
	for k := range m.Prices {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i][0] != ks[j][0] {
			return ks[i][0] < ks[j][0]
		}
		return ks[i][1] < ks[j][1]
	})
	var sb strings.Builder
	for _, k := range ks {
		var l []string
		for _, p := range m.Prices[k] {
			l = append(l, fmt.Sprintf("P %08d %q %q %s", p.Date, k[0], k[1], p.Val.RatString()))
		}
		sort.Strings(l)
		sb.WriteString(strings.Join(l, "\n"))
		sb.WriteString("\n")
	}
	return sb.String()
}

// ---- observation of a real book ----------------------------------------------------------------

func modelOf(b *book.Book) *MBook {
	m := newMBook()
	for _, t := range b.Transactions() {
		for _, p := range t {
			m.Posts = append(m.Posts, MPost{Date: int(p.GetDate()), Payee: p.GetPayee(), TNotes: []string{p.GetTransactionNote()},
				Acct: p.GetAccount(), CCY: p.GetCCY(), Notes: []string{p.GetPostNote()}, Val: new(big.Rat).Set(p.GetAmount())})
		}
	}
	for _, pp := range b.GetPricePairs() {
		for _, p := range b.GetPriceList(pp.Unit, pp.CCY) {
			m.addPrice(int(p.GetDate()), pp.Unit, pp.CCY, p.GetPrice())
		}
	}
	for k, v := range b.GetCCYDecimals() {
		m.Dec[k] = v
	}
	return m
}

// diffBook compares a real book with the (normalised) model: transactions in order, postings in
// order, exact amounts, running balances, notes, prices.
func diffBook(b *book.Book, m *MBook) string {
	if d := diffTrans(b, m); d != "" {
		return d
	}
	return diffPrices(b, m)
}

func diffPrices(b *book.Book, m *MBook) string {
	got := newMBook()
	for _, pp := range b.GetPricePairs() {
		prev := -1
		for _, p := range b.GetPriceList(pp.Unit, pp.CCY) {
			if int(p.GetDate()) < prev {
				return fmt.Sprintf("prices of %v are not in date order", pp)
			}
			prev = int(p.GetDate())
			got.addPrice(int(p.GetDate()), pp.Unit, pp.CCY, p.GetPrice())
		}
	}
	if g, w := got.canonPrices(), m.canonPrices(); g != w {
		return fmt.Sprintf("prices differ:\n got:\n%s want:\n%s", g, w)
	}
	return ""
}

func diffTrans(b *book.Book, m *MBook) string {
	mt := m.trans()
	bt := b.Transactions()
	bal := map[[2]string]*big.Rat{}
	for i := 0; i < len(mt) || i < len(bt); i++ {
		if i >= len(bt) {
			return fmt.Sprintf("transaction %d %q is missing (%d of %d)", mt[i][0].Date, mt[i][0].Payee, len(bt), len(mt))
		}
		if len(bt[i]) == 0 {
			return fmt.Sprintf("transaction %d has no postings", i)
		}
		if i >= len(mt) {
			return fmt.Sprintf("extra transaction %d %q", bt[i].GetDate(), bt[i].GetPayee())
		}
		if int(bt[i].GetDate()) != mt[i][0].Date || bt[i].GetPayee() != mt[i][0].Payee {
			return fmt.Sprintf("transaction %d is %d %q, should be %d %q", i, bt[i].GetDate(), bt[i].GetPayee(), mt[i][0].Date, mt[i][0].Payee)
		}
		if !member(bt[i].GetTransactionNote(), mt[i][0].TNotes) {
			return fmt.Sprintf("transaction %d %q has note %q, should be one of %q", bt[i].GetDate(), bt[i].GetPayee(), bt[i].GetTransactionNote(), mt[i][0].TNotes)
		}
		for j := 0; j < len(mt[i]) || j < len(bt[i]); j++ {
			if j >= len(bt[i]) {
				return fmt.Sprintf("posting %s is missing", mpost(mt[i][j]))
			}
			p := bt[i][j]
			if j >= len(mt[i]) {
				return fmt.Sprintf("extra posting %d %q %s %s %s", p.GetDate(), p.GetPayee(), p.GetAccount(), p.GetAmount().RatString(), p.GetCCY())
			}
			q := mt[i][j]
			if int(p.GetDate()) != q.Date || p.GetPayee() != q.Payee || p.GetAccount() != q.Acct || p.GetCCY() != q.CCY || p.GetAmount().Cmp(q.Val) != 0 {
				return fmt.Sprintf("posting is %d %q %s %s %s, should be %s", p.GetDate(), p.GetPayee(), p.GetAccount(), p.GetAmount().RatString(), p.GetCCY(), mpost(q))
			}
			if !member(p.GetPostNote(), q.Notes) {
				return fmt.Sprintf("posting %s has note %q, should be one of %q", mpost(q), p.GetPostNote(), q.Notes)
			}
			if !member(p.GetTransactionNote(), q.TNotes) {
				return fmt.Sprintf("posting %s has transaction note %q, should be one of %q", mpost(q), p.GetTransactionNote(), q.TNotes)
			}
			k := [2]string{q.Acct, q.CCY}
			if bal[k] == nil {
				bal[k] = new(big.Rat)
			}
			bal[k].Add(bal[k], q.Val)
			if p.GetBalance().Cmp(bal[k]) != 0 {
				return fmt.Sprintf("posting %s has balance %s, should be %s", mpost(q), p.GetBalance().RatString(), bal[k].RatString())
			}
		}
	}
	return ""
}

func mpost(p MPost) string {
	return fmt.Sprintf("%d %q %s %s %s", p.Date, p.Payee, p.Acct, p.Val.RatString(), p.CCY)
}

func member(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// checkInvariants checks double entry and the normal form of a real book.
func checkInvariants(b *book.Book, balanced bool) string {
	bal := map[[2]string]*big.Rat{}
	var pd int
	var pp string
	for i, t := range b.Transactions() {
		if len(t) == 0 {
			return fmt.Sprintf("transaction %d is empty", i)
		}
		d, p := int(t.GetDate()), t.GetPayee()
		if i > 0 && (d < pd || d == pd && p <= pp) {
			return fmt.Sprintf("transaction %d %q follows %d %q", d, p, pd, pp)
		}
		pd, pp = d, p
		sums := map[string]*big.Rat{}
		var pa, pc string
		for j, q := range t {
			if int(q.GetDate()) != d || q.GetPayee() != p {
				return fmt.Sprintf("transaction %d %q contains a posting of %d %q", d, p, q.GetDate(), q.GetPayee())
			}
			if j > 0 && (q.GetAccount() < pa || q.GetAccount() == pa && q.GetCCY() <= pc) {
				return fmt.Sprintf("transaction %d %q: posting %s %s follows %s %s", d, p, q.GetAccount(), q.GetCCY(), pa, pc)
			}
			pa, pc = q.GetAccount(), q.GetCCY()
			if q.GetAmount().Sign() == 0 {
				return fmt.Sprintf("transaction %d %q: zero posting %s %s", d, p, pa, pc)
			}
			if sums[pc] == nil {
				sums[pc] = new(big.Rat)
			}
			sums[pc].Add(sums[pc], q.GetAmount())
			k := [2]string{pa, pc}
			if bal[k] == nil {
				bal[k] = new(big.Rat)
			}
			bal[k].Add(bal[k], q.GetAmount())
			if bal[k].Cmp(q.GetBalance()) != 0 {
				return fmt.Sprintf("transaction %d %q: %s %s has running balance %s, the sum is %s", d, p, pa, pc, q.GetBalance().RatString(), bal[k].RatString())
			}
		}
		if balanced {
			for c, s := range sums {
				if s.Sign() != 0 {
					return fmt.Sprintf("transaction %d %q does not balance: %s %s", d, p, s.RatString(), c)
				}
			}
		}
	}
	return ""
}

// ---- building real books from models ------------------------------------------------------------

// MTxn is a transaction as written in a ledger.
type MTxn struct {
	Date  int
	Payee string
	Note  string
	Posts []MLine
}
type MLine struct {
	Acct, CCY, Note string
	Amt             *big.Rat // nil: elided
}

func ln(acct, amt, ccy string) MLine {
	if amt == "" {
		return MLine{Acct: acct}
	}
	return MLine{Acct: acct, CCY: ccy, Amt: ratS(amt)}
}

// build makes the normalised model of a sequence of written transactions.
func (m *MBook) addTxns(ts []MTxn) {
	seen := map[string]bool{}
	for _, t := range ts {
		payee := t.Payee
		for n := 2; seen[fmt.Sprintf("%d %s", t.Date, payee)]; n++ {
			payee = strings.TrimSpace(fmt.Sprintf("%s (%d)", t.Payee, n))
		}
		seen[fmt.Sprintf("%d %s", t.Date, payee)] = true
		open := map[string]*big.Rat{}
		add := func(acct, ccy, note string, v *big.Rat) {
			m.Posts = append(m.Posts, MPost{t.Date, payee, []string{t.Note}, acct, ccy, []string{note}, new(big.Rat).Set(v)})
			if open[ccy] == nil {
				open[ccy] = new(big.Rat)
			}
			open[ccy].Add(open[ccy], v)
			updDec(m.Dec, ccy, v)
		}
		for _, l := range t.Posts {
			if l.Amt != nil {
				add(l.Acct, l.CCY, l.Note, l.Amt)
				continue
			}
			for _, c := range sortedRat(open) {
				if open[c].Sign() != 0 {
					add(l.Acct, c, l.Note, new(big.Rat).Neg(open[c]))
				}
			}
		}
	}
	m.normalise()
}

func sortedRat(m map[string]*big.Rat) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// decimalsOf is the number of decimals needed to write v exactly (for denominators of 2 and 5 only).
func decimalsOf(v *big.Rat) int {
	d := new(big.Int).Set(v.Denom())
	n := 0
	for _, f := range []int64{2, 5} {
		c := 0
		for {
			q, r := new(big.Int).QuoRem(d, big.NewInt(f), new(big.Int))
			if r.Sign() != 0 {
				break
			}
			d = q
			c++
		}
		if c > n {
			n = c
		}
	}
	if d.Cmp(big.NewInt(1)) != 0 {
		return -1
	}
	return n
}

func updDec(m map[string]int, ccy string, v *big.Rat) {
	n := decimalsOf(v)
	if o, ok := m[ccy]; !ok || n > o {
		m[ccy] = n
	}
}

// exactDec writes v exactly as a decimal number.
func exactDec(v *big.Rat) string {
	n := decimalsOf(v)
	if n < 0 {
		panic("harness: not a decimal: " + v.RatString())
	}
	return v.FloatString(n)
}

// ledgerText writes transactions and prices as a ledger file.
func ledgerText(ts []MTxn, prices []string) string {
	var sb strings.Builder
	for _, p := range prices {
		sb.WriteString(p + "\n")
	}
	for _, t := range ts {
		fmt.Fprintf(&sb, "%04d/%02d/%02d %s", t.Date/10000, t.Date/100%100, t.Date%100, t.Payee)
		if t.Note != "" {
			sb.WriteString(" ; " + t.Note)
		}
		sb.WriteString("\n")
		for _, l := range t.Posts {
			sb.WriteString("  " + l.Acct)
			if l.Amt != nil {
				sb.WriteString("  " + exactDec(l.Amt) + " " + l.CCY)
			}
			if l.Note != "" {
				sb.WriteString(" ; " + l.Note)
			}
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// buildBook makes a real book through the builder.
func buildBook(ts []MTxn, prices []mprice) *book.Book {
	b := book.NewBookBuilder()
	for _, p := range prices {
		b.AddPrice(book.Date(p.date), p.unit, p.ccy, new(big.Rat).Set(p.val))
	}
	for _, t := range ts {
		b.NewTransaction(book.Date(t.Date), t.Payee, t.Note)
		for _, l := range t.Posts {
			b.AddPosting(l.Acct, l.CCY, new(big.Rat).Set(l.Amt), l.Note)
		}
	}
	return b.Build()
}

type mprice struct {
	date      int
	unit, ccy string
	val       *big.Rat
}

func pr(date int, unit, ccy, val string) mprice { return mprice{date, unit, ccy, ratS(val)} }

func (p mprice) String() string {
	return fmt.Sprintf("P %04d/%02d/%02d 00:00:00 %s %s %s", p.date/10000, p.date/100%100, p.date%100, p.unit, exactDec(p.val), p.ccy)
}

func mbookOf(ts []MTxn, prices []mprice) *MBook {
	m := newMBook()
	for _, p := range prices {
		m.addPrice(p.date, p.unit, p.ccy, p.val)
	}
	m.addTxns(ts)
	return m
}

// loadText writes the files and loads the first through the application's entry point.
func (w *W) loadFiles(files map[string]string, main string) (*book.Book, error) {
	for n, c := range files {
		fn := filepath.Join(w.Scratch, n)
		if strings.Contains(n, "/") {
			os.MkdirAll(filepath.Dir(fn), 0755)
		}
		if err := os.WriteFile(fn, []byte(c), 0644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	a := app.DefaultApp
	a.Ledger = filepath.Join(w.Scratch, main)
	return a.LoadBook()
}

func (w *W) loadText(s string) (*book.Book, error) {
	return w.loadFiles(map[string]string{"m.ledger": s}, "m.ledger")
}
