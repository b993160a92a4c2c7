//go:build verifmc && verifhooks

package main

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// ---- Starling

type sitem struct {
	id      string
	updated time.Time
	version int
}

type sspace struct {
	uid      string
	spending bool
	version  int
}

type sacct struct {
	id, cat string
	created time.Time
	version int
	spaces  []sspace
	feeds   map[string][]sitem
}

type starling struct {
	accts  []*sacct
	payees []interface{}
	now    func() time.Time
}

func (i sitem) obj(cat string) obj {
	at := "2000-01-01T00:00:00.000Z" // or later than the update
	if i.id[len(i.id)-1]%2 == 0 {
		at = i.updated.UTC().AddDate(0, 1, 0).Format(stamp)
	}
	return obj{"feedItemUid": i.id, "categoryUid": cat, "transactionTime": at, "updatedAt": i.updated.UTC().Format(stamp), "amount": map[string]interface{}{"currency": "GBP", "minorUnits": float64(i.version)}, "reference": bankText}
}

func (a *sacct) obj() obj {
	return obj{"accountUid": a.id, "defaultCategory": a.cat, "createdAt": a.created.UTC().Format(stamp), "name": fmt.Sprint("v", a.version)}
}

func (a *sacct) spacesObj() obj {
	sav, spe := []interface{}{}, []interface{}{}
	for _, s := range a.spaces {
		if s.spending {
			spe = append(spe, map[string]interface{}{"spaceUid": s.uid, "name": fmt.Sprint("n", s.version)})
		} else {
			sav = append(sav, map[string]interface{}{"savingsGoalUid": s.uid, "name": fmt.Sprint("n", s.version)})
		}
	}
	return obj{"savingsGoals": sav, "spendingSpaces": spe}
}

func (a *sacct) identifiers() obj {
	return obj{"accountIdentifier": fmt.Sprint("id", a.version), "bankIdentifier": "1"}
}

func (a *sacct) cats() []string {
	out := []string{a.cat}
	for _, s := range a.spaces {
		out = append(out, s.uid)
	}
	return out
}

func (b *starling) serve(r *http.Request, form url.Values) reply {
	deny := func(status int) reply { return reply{status: status, body: `{"error":"x"}`} }
	if r.Host != "api.starlingbank.com" {
		return deny(404)
	}
	if r.Method != "GET" || r.Header.Get("Authorization") != "Bearer pat" {
		return deny(401)
	}
	p := strings.Split(strings.TrimPrefix(r.URL.Path, "/api/v2/"), "/")
	find := func(id string) *sacct {
		for _, a := range b.accts {
			if a.id == id {
				return a
			}
		}
		return nil
	}
	switch {
	case len(p) == 1 && p[0] == "accounts":
		list := []interface{}{}
		for _, a := range b.accts {
			list = append(list, map[string]interface{}(a.obj()))
		}
		return reply{status: 200, body: canon(map[string]interface{}{"accounts": list})}
	case len(p) == 1 && p[0] == "payees":
		return reply{status: 200, body: canon(map[string]interface{}{"payees": b.payees}), free: true}
	case len(p) == 3 && p[0] == "accounts" && p[2] == "identifiers" && find(p[1]) != nil:
		return reply{status: 200, body: find(p[1]).identifiers().json(), opaque: true}
	case len(p) == 3 && p[0] == "account" && p[2] == "spaces" && find(p[1]) != nil:
		return reply{status: 200, body: find(p[1]).spacesObj().json(), opaque: true}
	case len(p) == 5 && p[0] == "feed" && p[1] == "account" && p[3] == "category" && find(p[2]) != nil:
		since, err := time.Parse(time.RFC3339, r.URL.Query().Get("changesSince"))
		if err != nil {
			return deny(400)
		}
		a := find(p[2])
		known := false
		for _, c := range a.cats() {
			known = known || c == p[4]
		}
		if !known {
			return deny(404)
		}
		list := []interface{}{}
		for _, i := range a.feeds[p[4]] {
			if !i.updated.Before(since) {
				list = append(list, map[string]interface{}(i.obj(p[4])))
			}
		}
		return reply{status: 200, body: canon(map[string]interface{}{"feedItems": list})}
	}
	return deny(404)
}

// data gives what the bank has, and what a run on the given state must have.
func (b *starling) data(v map[string]interface{}, all bool) bankData {
	kinds := []string{"accounts", "identifiers", "spaces", "items", "payees"}
	d := bankData{held{}, held{}}
	for _, k := range kinds {
		d.all[k], d.want[k] = map[string]string{}, map[string]string{}
	}
	put := func(kind, id, x string) { d.all[kind][id], d.want[kind][id] = x, x }
	for _, a := range b.accts {
		put("accounts", a.id, a.obj().json())
		put("identifiers", a.id, a.identifiers().json())
		put("spaces", a.id, a.spacesObj().json())
		for _, cat := range append(a.cats(), "gone") {
			var from time.Time
			if !all {
				for _, x := range getmap(v, "accounts", a.id, "feeditems", cat) {
					u, err := time.Parse(time.RFC3339, fmt.Sprint(getmap(x)["updatedAt"]))
					if err != nil {
						panic("harness: " + err.Error())
					}
					if u = u.AddDate(0, 0, -20); u.After(from) {
						from = u
					}
				}
			}
			for _, i := range a.feeds[cat] {
				x := i.obj(cat).json()
				d.all["items"][a.id+"/"+cat+"/"+i.id] = x
				if cat != "gone" && !i.updated.Before(from) {
					d.want["items"][a.id+"/"+cat+"/"+i.id] = x
				}
			}
		}
	}
	put("payees", "", canon(b.payees))
	return d
}

func getmap(v interface{}, path ...string) map[string]interface{} {
	for _, p := range path {
		m, _ := v.(map[string]interface{})
		v = m[p]
	}
	m, _ := v.(map[string]interface{})
	return m
}

func starlingHeld(v map[string]interface{}) held {
	h := held{"accounts": {}, "identifiers": {}, "spaces": {}, "items": {}, "payees": {}}
	for id := range getmap(v, "accounts") {
		a := getmap(v, "accounts", id)
		for kind, name := range map[string]string{"accounts": "account", "identifiers": "identifiers", "spaces": "spaces"} {
			if a[name] != nil {
				h[kind][id] = canon(a[name])
			}
		}
		for cat := range getmap(a, "feeditems") {
			for item, x := range strs(a, "feeditems", cat) {
				h["items"][id+"/"+cat+"/"+item] = x
			}
		}
	}
	for k, x := range v {
		if strings.EqualFold(k, "payees") && x != nil {
			h["payees"][""] = canon(x)
		}
	}
	return h
}

func (c *c17) starlingRun(b *starling, all bool, faults map[int]string, what string) (bool, *netRun) {
	nr := &netRun{right: b.serve, faults: faults}
	before, _ := readJSON(c.file)
	d := b.data(before, all)
	args := []string{"starling"}
	if all {
		args = append(args, "--alldata")
	}
	out := c.run(nr, args...)
	ok := out.err == nil
	describe := func() string { return fmt.Sprintf("%s; error %v; requests %v", what, out.err, nr.log) }
	if nr.over {
		c.t.Failf("the run does not end: %s", describe())
	}
	if ok && nr.mustFail() {
		c.t.Failf("success is reported: %s", describe())
	}
	if !ok && len(nr.hit) == 0 && !c.storeFailed {
		c.t.Failf("failure is reported: %s", describe())
	}
	v, _ := readJSON(c.file)
	after := starlingHeld(v)
	judgeRun(c.t, starlingHeld(before), after, d, ok, describe)
	c.t.State(after.key())
	if ok {
		c.t.Outcome("complete")
	} else {
		c.t.Outcome("error reported")
	}
	return ok, nr
}

func (b *starling) changes(serial *int) []bankOp {
	next := func() int { *serial++; return *serial }
	addTo := func(a *sacct, cat string, back time.Duration) {
		a.feeds[cat] = append(a.feeds[cat], sitem{fmt.Sprintf("f%d", next()), bankNow().Add(-back), 0})
	}
	each := func(f func(a *sacct, cat string)) {
		for _, a := range b.accts {
			for _, c := range a.cats() {
				f(a, c)
			}
		}
	}
	const day = 24 * time.Hour
	return []bankOp{
		{"nothing", func() {}},
		{"new item", func() { each(func(a *sacct, c string) { addTo(a, c, time.Minute) }) }},
		{"oldest changes", func() {
			each(func(a *sacct, c string) {
				if f := a.feeds[c]; len(f) > 0 {
					f[0].version++
					f[0].updated = bankNow()
				}
			})
		}},
		{"item from 19 days ago", func() { each(func(a *sacct, c string) { addTo(a, c, 19*day) }) }},
		{"item from 30 days ago", func() { each(func(a *sacct, c string) { addTo(a, c, 30*day) }) }},
		{"items around the limit", func() {
			each(func(a *sacct, c string) {
				var newest time.Time
				for _, i := range a.feeds[c] {
					if i.updated.After(newest) {
						newest = i.updated
					}
				}
				if !newest.IsZero() {
					for _, dt := range []time.Duration{-time.Second, -time.Millisecond, 0, time.Millisecond, time.Second} {
						if at := newest.AddDate(0, 0, -20).Add(dt); at.After(a.created) {
							a.feeds[c] = append(a.feeds[c], sitem{fmt.Sprintf("f%d", next()), at, 0})
						}
					}
				}
			})
		}},
		{"new account", func() {
			n := next()
			a := &sacct{id: fmt.Sprintf("a%d", n), cat: fmt.Sprintf("c%d", n), created: bankNow().Add(-300 * day), feeds: map[string][]sitem{}}
			addTo(a, a.cat, 299*day)
			addTo(a, a.cat, time.Hour)
			b.accts = append([]*sacct{a}, b.accts...)
		}},
		{"new savings space", func() {
			for _, a := range b.accts {
				s := sspace{fmt.Sprintf("s%d", next()), false, 0}
				a.spaces = append(a.spaces, s)
				addTo(a, s.uid, 40*day)
				addTo(a, s.uid, day)
			}
		}},
		{"new spending space", func() {
			for _, a := range b.accts {
				s := sspace{fmt.Sprintf("s%d", next()), true, 0}
				a.spaces = append([]sspace{s}, a.spaces...)
				addTo(a, s.uid, 40*day)
			}
		}},
		{"space closed", func() {
			for _, a := range b.accts {
				if len(a.spaces) > 0 {
					a.spaces = a.spaces[1:]
				}
			}
		}},
		{"names change", func() {
			for _, a := range b.accts {
				a.version++
				for i := range a.spaces {
					a.spaces[i].version++
				}
			}
		}},
		{"item removed", func() {
			each(func(a *sacct, c string) {
				if f := a.feeds[c]; len(f) > 1 {
					a.feeds[c] = f[:len(f)-1]
				}
			})
		}},
		{"payee", func() { b.payees = append(b.payees, map[string]interface{}{"payeeUid": fmt.Sprint(next())}) }},
		{"40 days later", func() { tick(40 * day) }},
		{"newest change within the moment", func() {
			each(func(a *sacct, c string) {
				for i := range a.feeds[c] {
					if n := len(a.feeds[c]) - 1; a.feeds[c][i].updated.Equal(a.feeds[c][n].updated) {
						a.feeds[c][i].version++
					}
				}
			})
		}},
	}
}

func newStarling() *starling { return &starling{payees: []interface{}{}} }

func (w *W) starling() {
	w.Section("Starling: histories")
	depth := 2
	if w.Thorough {
		depth = 3
	}
	nops := len(newStarling().changes(new(int)))
	for start := 0; start < 2; start++ {
		for _, all := range []bool{false, true} {
			seqs(nops, depth, func(ixs []int) {
				if w.Done() {
					return
				}
				ix := append([]int(nil), ixs...)
				start, all := start, all
				w.Case(func() string {
					var names []string
					for _, i := range ix {
						names = append(names, newStarling().changes(new(int))[i].name)
					}
					return fmt.Sprintf("start %d, alldata %v, run, then each of %s followed by a run", start, all, strings.Join(names, ", "))
				}, func(t *T) {
					c := w.c17begin(t, []string{"s.json", "s.json.gz"}[start])
					b := newStarling()
					serial := 0
					ops := b.changes(&serial)
					if start == 1 {
						ops[6].do()
						ops[7].do()
						ops[8].do()
						ops[12].do()
					}
					c.starlingRun(b, all, nil, "first run")
					for _, i := range ix {
						tick(time.Hour)
						ops[i].do()
						tick(time.Hour)
						c.starlingRun(b, all, nil, "run behind "+ops[i].name)
					}
					c.starlingRun(b, true, nil, "last run, for all data")
					t.Nontrivial(fmt.Sprint(start, all, ix))
					t.Trace()
				})
			})
		}
	}
	w.failures("Starling", 2, netFaults, func(t *T, i int) (func(map[int]string, string) (bool, *netRun), func()) {
		c := w.c17begin(t, []string{"s.json", "s.json.gz"}[i])
		b := newStarling()
		serial := 0
		ops := b.changes(&serial)
		ops[6].do()
		ops[7].do()
		ops[8].do()
		ops[12].do()
		if i == 1 {
			ops[6].do()
		}
		// an earlier state of the same accounts
		state := map[string]interface{}{"accounts": map[string]interface{}{"a1": map[string]interface{}{
			"account":     b.accts[len(b.accts)-1].obj(),
			"identifiers": map[string]interface{}{"old": 1.0},
			"spaces":      map[string]interface{}{"savingsGoals": []interface{}{}, "spendingSpaces": []interface{}{}},
			"feeditems":   map[string]interface{}{"c1": map[string]interface{}{"old": sitem{"old", c.base.AddDate(0, 0, -35), 3}.obj("c1")}, "gone": map[string]interface{}{"older": sitem{"older", c.base.AddDate(0, 0, -135), 3}.obj("gone")}},
		}}, "Payees": []interface{}{map[string]interface{}{"payeeUid": "oldpayee"}}}
		c.put(state)
		return func(f map[int]string, what string) (bool, *netRun) { return c.starlingRun(b, i == 1, f, what) }, func() { c.put(state) }
	})
}

// ---- Nordigen

type nacct struct {
	id      string
	version int
	booked  []string // id:version
	pending []string
}

type nordigen struct {
	accts   []*nacct
	linked  []string
	token   int
	life    int
	insts   []interface{}
	created string
}

func ntrans(s string) map[string]interface{} {
	p := strings.Split(s, ":")
	return map[string]interface{}{"transactionId": p[0], "bookingDate": "2020-01-01", "remittanceInformationUnstructured": p[1], "additional": bankText}
}

func (b *nordigen) requisition() obj {
	list := []interface{}{}
	for _, l := range b.linked {
		list = append(list, l)
	}
	return obj{"id": "req1", "link": "https://ob.nordigen.com/link", "accounts": list, "status": fmt.Sprint("LN", len(list))}
}

func (b *nordigen) serve(r *http.Request, form url.Values) reply {
	deny := func(status int) reply { return reply{status: status, body: `{"detail":"x"}`} }
	if r.Host != "ob.nordigen.com" {
		return deny(404)
	}
	p := strings.Split(strings.Trim(strings.TrimPrefix(r.URL.Path, "/api/v2/"), "/"), "/")
	if r.Method == "POST" && len(p) == 2 && p[0] == "token" && p[1] == "new" {
		if form.Get("secret_id") != "nid" || form.Get("secret_key") != "nsec" {
			return deny(401)
		}
		b.token++
		return reply{status: 200, body: obj{"access": fmt.Sprint("acc", b.token), "access_expires": 86400, "refresh": "ref", "refresh_expires": 30 * 86400}.json()}
	}
	if r.Header.Get("Authorization") != fmt.Sprint("Bearer acc", b.token) {
		return deny(401)
	}
	if r.Method == "POST" && len(p) == 1 && p[0] == "requisitions" {
		b.created = form.Get("institution_id")
		return reply{status: 201, body: b.requisition().json()}
	}
	if r.Method != "GET" {
		return deny(405)
	}
	if len(p) == 1 && p[0] == "institutions" {
		if r.URL.Query().Get("country") != "gb" {
			return deny(400)
		}
		return reply{status: 200, body: canon(b.insts)}
	}
	if len(p) == 2 && p[0] == "requisitions" && p[1] == "req1" {
		return reply{status: 200, body: b.requisition().json()}
	}
	if p[0] != "accounts" || len(p) < 2 {
		return deny(404)
	}
	for _, a := range b.accts {
		if a.id != p[1] {
			continue
		}
		switch {
		case len(p) == 2:
			return reply{status: 200, body: obj{"id": a.id, "iban": fmt.Sprint("GB", a.version)}.json(), opaque: true}
		case p[2] == "details":
			return reply{status: 200, body: obj{"account": map[string]interface{}{"currency": "GBP", "v": float64(a.version)}}.json(), opaque: true}
		case p[2] == "transactions":
			bk, pe := []interface{}{}, []interface{}{}
			for _, s := range a.booked {
				bk = append(bk, ntrans(s))
			}
			for _, s := range a.pending {
				pe = append(pe, ntrans(s))
			}
			return reply{status: 200, body: canon(map[string]interface{}{"transactions": map[string]interface{}{"booked": bk, "pending": pe}})}
		}
	}
	return deny(404)
}

func (b *nordigen) data() bankData {
	d := bankData{held{}, held{}}
	for _, k := range []string{"basic", "details", "transactions", "requisition"} {
		d.all[k], d.want[k] = map[string]string{}, map[string]string{}
	}
	d.all["requisition"][""] = b.requisition().json()
	d.want["requisition"][""] = b.requisition().json()
	for _, a := range b.accts {
		linked := false
		for _, l := range b.linked {
			linked = linked || l == a.id
		}
		put := func(kind, id, x string) {
			d.all[kind][id] = x
			if linked {
				d.want[kind][id] = x
			}
		}
		put("basic", a.id, obj{"id": a.id, "iban": fmt.Sprint("GB", a.version)}.json())
		put("details", a.id, obj{"account": map[string]interface{}{"currency": "GBP", "v": float64(a.version)}}.json())
		for _, s := range a.booked {
			put("transactions", a.id+"/"+strings.Split(s, ":")[0], obj(ntrans(s)).json())
		}
	}
	return d
}

func nordigenHeld(v map[string]interface{}) held {
	h := held{"basic": {}, "details": {}, "transactions": {}, "requisition": {}}
	for id := range getmap(v, "Accounts") {
		a := getmap(v, "Accounts", id)
		if a["Basic"] != nil {
			h["basic"][id] = canon(a["Basic"])
		}
		if a["Details"] != nil {
			h["details"][id] = canon(a["Details"])
		}
		for k, x := range strs(a, "Transactions") {
			h["transactions"][id+"/"+k] = x
		}
	}
	if v["Requisition"] != nil {
		h["requisition"][""] = canon(v["Requisition"])
	}
	return h
}

func (c *c17) nordigenRun(b *nordigen, faults map[int]string, what string) (bool, *netRun) {
	nr := &netRun{right: b.serve, faults: faults}
	before, _ := readJSON(c.file)
	d := b.data()
	bankStep = int64(150 * time.Millisecond) // the token is requested inside another request
	out := c.run(nr, "nordigen")
	ok := out.err == nil
	describe := func() string { return fmt.Sprintf("%s; error %v; requests %v", what, out.err, nr.log) }
	if nr.over {
		c.t.Failf("the run does not end: %s", describe())
	}
	if ok && nr.mustFail() {
		c.t.Failf("success is reported: %s", describe())
	}
	if !ok && len(nr.hit) == 0 && !c.storeFailed {
		c.t.Failf("failure is reported: %s", describe())
	}
	v, _ := readJSON(c.file)
	after := nordigenHeld(v)
	judgeRun(c.t, nordigenHeld(before), after, d, ok, describe)
	if canon(v["Institution"]) != canon(before["Institution"]) {
		c.t.Failf("the institution was %s, is %s: %s", canon(before["Institution"]), canon(v["Institution"]), describe())
	}
	c.t.State(after.key())
	if ok {
		c.t.Outcome("complete")
	} else {
		c.t.Outcome("error reported")
	}
	return ok, nr
}

func (b *nordigen) changes(serial *int) []bankOp {
	next := func() int { *serial++; return *serial }
	return []bankOp{
		{"nothing", func() {}},
		{"pending", func() {
			for _, a := range b.accts {
				a.pending = append(a.pending, fmt.Sprintf("t%d:0", next()))
			}
		}},
		{"booked", func() {
			for _, a := range b.accts {
				a.booked = append(append([]string{fmt.Sprintf("t%d:0", next())}, a.pending...), a.booked...)
				a.pending = nil
			}
		}},
		{"all change", func() {
			for _, a := range b.accts {
				a.version++
				for i := range a.booked {
					a.booked[i] += "x"
				}
			}
		}},
		{"bank forgets", func() {
			for _, a := range b.accts {
				if len(a.booked) > 1 {
					a.booked = a.booked[:1]
				}
			}
		}},
		{"new account", func() {
			a := &nacct{id: fmt.Sprintf("n%d", next()), booked: []string{fmt.Sprintf("t%d:0", next()), fmt.Sprintf("t%d:0", next())}}
			b.accts = append(b.accts, a)
			b.linked = append(b.linked, a.id)
		}},
		{"account no longer linked", func() {
			if len(b.linked) > 0 {
				b.linked = b.linked[1:]
			}
		}},
		{"token expires", func() { tick(2 * 24 * time.Hour) }},
	}
}

func nordigenState(b *nordigen) map[string]interface{} {
	return map[string]interface{}{
		"Institution": map[string]interface{}{"id": "BANK", "name": "The Bank"},
		"Requisition": map[string]interface{}{"id": "req1", "link": "l", "accounts": []interface{}{}},
		"Accounts":    map[string]interface{}{"old": map[string]interface{}{"Basic": 1.0, "Details": 2.0, "Transactions": map[string]interface{}{"to": ntrans("to:5")}}},
	}
}

func (w *W) nordigen() {
	w.Section("Nordigen: histories")
	depth := 3
	if w.Thorough {
		depth = 4
	}
	nops := len((&nordigen{}).changes(new(int)))
	for start := 0; start < 2; start++ {
		seqs(nops, depth, func(ixs []int) {
			if w.Done() {
				return
			}
			ix := append([]int(nil), ixs...)
			start := start
			w.Case(func() string {
				var names []string
				for _, i := range ix {
					names = append(names, (&nordigen{}).changes(new(int))[i].name)
				}
				return fmt.Sprintf("start %d, run, then each of %s followed by a run", start, strings.Join(names, ", "))
			}, func(t *T) {
				c := w.c17begin(t, "s.json")
				b := &nordigen{}
				serial := 0
				ops := b.changes(&serial)
				if start == 1 {
					ops[5].do()
					ops[5].do()
					ops[1].do()
				}
				c.put(nordigenState(b))
				c.nordigenRun(b, nil, "first run")
				for _, i := range ix {
					ops[i].do()
					c.nordigenRun(b, nil, "run behind "+ops[i].name)
				}
				t.Nontrivial(fmt.Sprint(start, ix))
				t.Trace()
			})
		})
	}
	w.failures("Nordigen", 2, netFaults, func(t *T, i int) (func(map[int]string, string) (bool, *netRun), func()) {
		c := w.c17begin(t, []string{"s.json", "s.json.gz"}[i])
		b := &nordigen{}
		serial := 0
		ops := b.changes(&serial)
		ops[5].do()
		ops[1].do()
		ops[2].do()
		ops[1].do()
		if i == 1 {
			ops[5].do()
		}
		state := nordigenState(b)
		state["Accounts"].(map[string]interface{})[b.accts[0].id] = map[string]interface{}{"Basic": 1.0, "Details": 2.0, "Transactions": map[string]interface{}{"tx": ntrans("tx:5"), "t2": ntrans("t2:old")}}
		c.put(state)
		return func(f map[int]string, what string) (bool, *netRun) { return c.nordigenRun(b, f, what) }, func() { c.put(state) }
	})

	w.Section("Nordigen: linking a bank")
	inputs := []struct {
		in string
		ok bool
	}{{"gb\n0\n", true}, {"gb\n1\n", true}, {"gb\n2\n", false}, {"gb\n-1\n", false}, {"gb\nx\n", false}, {"gb\n", false}, {"", false}, {"xx\n0\n", false}, {"gb\n99999999999999999999\n", false}}
	for _, in := range inputs {
		for at := -1; at < 5; at++ {
			for ki, f := range netFaults {
				if at < 0 && ki > 0 {
					continue
				}
				in, at, f := in, at, f
				w.Case(func() string { return fmt.Sprintf("input %q, request %d: %s", in.in, at, f.kind) }, func(t *T) {
					c := w.c17begin(t, "s.json")
					b := &nordigen{insts: []interface{}{map[string]interface{}{"id": "B0", "name": "Bank 0"}, map[string]interface{}{"id": "B1", "name": "Bank 1"}}}
					nr := &netRun{right: b.serve}
					if at >= 0 {
						nr.faults = map[int]string{at: f.kind}
					}
					state := nordigenState(b)
					delete(state, "Institution")
					delete(state, "Requisition")
					c.put(state)
					before, _ := readJSON(c.file)
					c.stdin = in.in
					bankStep = int64(150 * time.Millisecond)
					out := c.run(nr, "nordigen")
					after, _ := readJSON(c.file)
					describe := fmt.Sprintf("error %v; requests %v; file %s", out.err, nr.log, clip(canon(after), 500))
					if at >= 0 && len(nr.hit) == 0 {
						return
					}
					t.Nontrivial(fmt.Sprint(in, at, f))
					t.State(canon(after))
					if canon(after["Accounts"]) != canon(before["Accounts"]) {
						t.Failf("the stored accounts change: %s", describe)
					}
					good := in.ok && !nr.mustFail()
					if !good && (out.err == nil || after["Institution"] != nil || after["Requisition"] != nil) {
						t.Failf("should be an error: %s", describe)
					}
					if in.ok && len(nr.hit) == 0 {
						want := map[string]string{"gb\n0\n": "B0", "gb\n1\n": "B1"}[in.in]
						if out.err != nil || getmap(after, "Institution")["id"] != want || b.created != want || canon(after["Requisition"]) != b.requisition().json() {
							t.Failf("should be stored: %s", describe)
						}
						// and the next run fetches
						a := &nacct{id: "n1", booked: []string{"t1:0"}}
						b.accts, b.linked = []*nacct{a}, []string{"n1"}
						c.stdin = ""
						if ok, nr := c.nordigenRun(b, nil, "run behind the link"); !ok {
							t.Failf("the run behind it fails: %v", nr.log)
						}
					}
				})
			}
		}
	}
	os.RemoveAll(filepath.Join(w.Scratch, "c17"))
}
