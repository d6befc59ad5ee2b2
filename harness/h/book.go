package h

import (
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// rank is the position of row i when rows are sorted stably.
func rank(rows []market.OrderBookRow, i int, ascending bool) int {
	r := 0
	for j := range rows {
		before := rows[j].Price > rows[i].Price
		if ascending {
			before = rows[j].Price < rows[i].Price
		}
		if j < i {
			before = sym.Or(before, rows[j].Price == rows[i].Price)
		}
		r += sym.IteI(before, 1, 0)
	}
	return r
}

// bestOf reports whether side holds the depth best rows of given in order.
func bestOf(side, given []market.OrderBookRow, depth int, ascending bool) bool {
	ok := true
	for i := range given {
		r := rank(given, i, ascending)
		for k := range side {
			ok = sym.And(ok, sym.Imp(r == k, sym.And(side[k].Price == given[i].Price, side[k].Volume == given[i].Volume)))
		}
	}
	return ok
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// C01New: every list of asks and bids, every depth.
//
//verify C01 asks=4 bids=4
//verify C01 asks=5 bids=2
//verify C01 asks=2 bids=5
//verify C01 asks=6 bids=6 thorough
func C01New() {
	na, nb := sym.Param("asks", 4), sym.Param("bids", 4)
	asks := anyRows("ask", sym.Choose("asks", na+1), 0)
	bids := anyRows("bid", sym.Choose("bids", nb+1), 0)
	depth := sym.Choose("depth", minInt(maxInt(na, nb)+2, 9))
	a, b := copyRows(asks), copyRows(bids)
	before := time.Now().Unix()
	ob := market.NewOrderBook(asks, bids, depth)
	after := time.Now().Unix()
	sym.Assert(len(ob.Asks) == minInt(len(a), depth), "asks-limited")
	sym.Assert(len(ob.Bids) == minInt(len(b), depth), "bids-limited")
	sym.Assert(bestOf(ob.Asks, a, depth, true), "lowest-asks-ascending")
	sym.Assert(bestOf(ob.Bids, b, depth, false), "highest-bids-descending")
	sym.Assert(accumulated(ob.Asks), "asks-accumulated")
	sym.Assert(accumulated(ob.Bids), "bids-accumulated")
	sym.Assert(ob.MaxDepth == depth, "depth-kept")
	sym.Assert(sym.And(before <= ob.Time, ob.Time <= after), "current-time")
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// anyBook is a book with sorted, uncrossed sides.
func anyBook(na, nb, maxDepth int) market.OrderBook {
	asks := askRows("ask", na)
	bids := bidRows("bid", nb)
	uncrossed(asks, bids)
	return market.NewOrderBook(asks, bids, maxDepth)
}

// expectSide is the side after the update of one level.
func expectSide(rows []market.OrderBookRow, price, volume float64, ascending bool, depth int) []market.OrderBookRow {
	var out []market.OrderBookRow
	placed := false
	for _, r := range rows {
		worse := r.Price < price
		if ascending {
			worse = r.Price > price
		}
		if r.Price == price {
			placed = true
			if volume != 0 {
				out = append(out, market.OrderBookRow{Price: price, Volume: volume})
			}
			continue
		}
		if worse && !placed {
			placed = true
			if volume != 0 {
				out = append(out, market.OrderBookRow{Price: price, Volume: volume})
			}
		}
		out = append(out, r)
	}
	if !placed && volume != 0 {
		out = append(out, market.OrderBookRow{Price: price, Volume: volume})
	}
	if len(out) > depth {
		out = out[:depth]
	}
	return out
}

// sizes chooses the lengths of both sides and the depth of the book.
func sizes(n int) (na, nb, depth int) {
	if e := sym.Param("exact", 0); e > 0 {
		return e, e, e + sym.Choose("room", 2)
	}
	na = sym.Choose("asks", n+1)
	nb = sym.Choose("bids", n+1)
	depth = maxInt(na, nb) + sym.Choose("room", 2)
	return
}

// C02Update: every update of a valid book, own side.
//
//verify C02 n=5
//verify C02 exact=10
//verify C02 n=7 thorough
//verify C02 exact=24 thorough
func C02Update() {
	na, nb, depth := sizes(sym.Param("n", 3))
	ob := anyBook(na, nb, depth)
	asks, bids := copyRows(ob.Asks), copyRows(ob.Bids)
	price := sym.F64("price", -1e6, 1e9)
	volume := 0.0
	if sym.Choose("remove", 2) == 0 {
		volume = sym.F64("volume", 1e-9, 1e9)
	}
	ascending := sym.Choose("side", 2) == 0
	if ascending {
		err := ob.ApplyUpdate(market.OrderBookUpdate{Side: "ask", Price: price, Volume: volume})
		sym.Assert(err == nil, "ask-update-accepted")
		sym.Assert(sameLevels(ob.Asks, expectSide(asks, price, volume, true, depth)), "ask-levels")
		if volume == 0 {
			sym.Assert(sameRows(ob.Bids, bids), "ask-removal-keeps-bids")
		}
	} else {
		err := ob.ApplyUpdate(market.OrderBookUpdate{Side: "bid", Price: price, Volume: volume})
		sym.Assert(err == nil, "bid-update-accepted")
		sym.Assert(sameLevels(ob.Bids, expectSide(bids, price, volume, false, depth)), "bid-levels")
		if volume == 0 {
			sym.Assert(sameRows(ob.Asks, asks), "bid-removal-keeps-asks")
		}
	}
	sym.Assert(sym.And(ob.MaxDepth == depth), "depth-kept")
}

// C02History: every sequence of updates, level by level.
//
//verify C02 n=0 k=4 real
//verify C02 n=1 k=3 real
//verify C02 exact=3 k=2 real
//verify C02 n=0 k=5 real thorough
func C02History() {
	na, nb, depth := sizes(sym.Param("n", 0))
	if na == 0 && nb == 0 {
		depth = 1 + sym.Choose("depth", 3)
	}
	ob := anyBook(na, nb, depth)
	asks, bids := copyRows(ob.Asks), copyRows(ob.Bids)
	for i := 0; i < sym.Param("k", 2); i++ {
		u := market.OrderBookUpdate{Price: sym.F64(sym.N("price", i), -1e6, 1e9), Side: "ask"}
		if sym.Choose(sym.N("side", i), 2) == 1 {
			u.Side = "bid"
		}
		if sym.Choose(sym.N("remove", i), 2) == 0 {
			u.Volume = sym.F64(sym.N("volume", i), 1e-9, 1e9)
		}
		if u.Side == "ask" {
			asks = expectSide(asks, u.Price, u.Volume, true, depth)
			if u.Volume != 0 {
				bids = beyond(bids, u.Price, false)
			}
		} else {
			bids = expectSide(bids, u.Price, u.Volume, false, depth)
			if u.Volume != 0 {
				asks = beyond(asks, u.Price, true)
			}
		}
		sym.Assert(ob.ApplyUpdate(u) == nil, "accepted")
		sym.Assert(sameLevels(ob.Asks, asks), "asks-after-history")
		sym.Assert(sameLevels(ob.Bids, bids), "bids-after-history")
	}
}

// beyond are the rows strictly above or below a price.
func beyond(rows []market.OrderBookRow, price float64, above bool) []market.OrderBookRow {
	var kept []market.OrderBookRow
	for _, r := range rows {
		if (above && r.Price > price) || (!above && r.Price < price) {
			kept = append(kept, r)
		}
	}
	return kept
}

// C03Crossing: every update with volume, opposite side.
//
//verify C03 n=5
//verify C03 exact=10
//verify C03 n=7 thorough
//verify C03 exact=24 thorough
func C03Crossing() {
	na, nb, depth := sizes(sym.Param("n", 3))
	ob := anyBook(na, nb, depth)
	asks, bids := copyRows(ob.Asks), copyRows(ob.Bids)
	price := sym.F64("price", -1e6, 1e9)
	volume := sym.F64("volume", 1e-9, 1e9)
	if sym.Choose("side", 2) == 0 {
		ob.ApplyUpdate(market.OrderBookUpdate{Side: "ask", Price: price, Volume: volume})
		var kept []market.OrderBookRow
		for _, r := range bids {
			if r.Price < price {
				kept = append(kept, r)
			}
		}
		sym.Assert(sameLevels(ob.Bids, kept), "ask-removes-crossed-bids")
		sym.Assert(accumulated(ob.Bids), "bids-reaccumulated")
		if len(ob.Asks) > 0 && len(ob.Bids) > 0 {
			sym.Assert(ob.Bids[0].Price < ob.Asks[0].Price, "ask-leaves-book-uncrossed")
		}
	} else {
		ob.ApplyUpdate(market.OrderBookUpdate{Side: "bid", Price: price, Volume: volume})
		var kept []market.OrderBookRow
		for _, r := range asks {
			if r.Price > price {
				kept = append(kept, r)
			}
		}
		sym.Assert(sameLevels(ob.Asks, kept), "bid-removes-crossed-asks")
		sym.Assert(accumulated(ob.Asks), "asks-reaccumulated")
		if len(ob.Asks) > 0 && len(ob.Bids) > 0 {
			sym.Assert(ob.Bids[0].Price < ob.Asks[0].Price, "bid-leaves-book-uncrossed")
		}
	}
}

// validBook asserts what holds of every book at any time.
func validBook(ob *market.OrderBook, depth int) {
	sym.Assert(sym.And(len(ob.Asks) <= depth, len(ob.Bids) <= depth), "within-depth")
	sorted := true
	for i := 1; i < len(ob.Asks); i++ {
		sorted = sym.And(sorted, ob.Asks[i-1].Price < ob.Asks[i].Price)
	}
	for i := 1; i < len(ob.Bids); i++ {
		sorted = sym.And(sorted, ob.Bids[i-1].Price > ob.Bids[i].Price)
	}
	sym.Assert(sorted, "sides-sorted-without-repeats")
	if len(ob.Asks) > 0 && len(ob.Bids) > 0 {
		sym.Assert(ob.Bids[0].Price < ob.Asks[0].Price, "never-crossed")
	}
	positive := true
	for _, r := range ob.Asks {
		positive = sym.And(positive, r.Volume > 0)
	}
	for _, r := range ob.Bids {
		positive = sym.And(positive, r.Volume > 0)
	}
	sym.Assert(positive, "no-empty-levels")
	sym.Assert(accumulated(ob.Asks), "asks-accumulated")
	sym.Assert(accumulated(ob.Bids), "bids-accumulated")
}

// C04History: every sequence of updates, starting from any valid book.
//
//verify C04 n=4 k=1
//verify C04 exact=10 k=1 real
//verify C04 n=3 k=2 real
//verify C04 n=0 k=5 real
//verify C04 exact=4 k=2 real
//verify C04 exact=2 k=3 real
//verify C04 n=2 k=2
//verify C04 n=0 k=4
//verify C04 n=5 k=1 thorough
//verify C04 n=1 k=4 thorough
//verify C04 n=3 k=2 thorough
func C04History() {
	n, k := sym.Param("n", 2), sym.Param("k", 2)
	na, nb, depth := sym.Param("exact", 0), sym.Param("exact", 0), sym.Param("exact", 0)
	if na == 0 {
		na, nb = sym.Choose("asks", n+1), sym.Choose("bids", n+1)
		depth = sym.Choose("depth", maxInt(n, 1)+2)
	}
	ob := anyBook(na, nb, depth)
	for i := 0; i < k; i++ {
		u := market.OrderBookUpdate{Price: sym.F64(sym.N("price", i), -1e6, 1e9), Side: "ask"}
		if sym.Choose(sym.N("side", i), 2) == 1 {
			u.Side = "bid"
		}
		if sym.Choose(sym.N("remove", i), 2) == 0 {
			u.Volume = sym.F64(sym.N("volume", i), 1e-9, 1e9)
		}
		err := ob.ApplyUpdate(u)
		sym.Assert(err == nil, "update-accepted")
		validBook(&ob, depth)
	}
}

// C04Side: every update of a side that does not exist.
//
//verify C04 n=2
func C04Side() {
	n := sym.Param("n", 2)
	ob := anyBook(sym.Choose("asks", n+1), sym.Choose("bids", n+1), n)
	asks, bids := copyRows(ob.Asks), copyRows(ob.Bids)
	now := ob.Time
	side := anyWord("side", 1, 3, 4, 5)
	sym.Assume(side != "ask")
	sym.Assume(side != "bid")
	volume := 0.0
	if sym.Bool("update") {
		volume = sym.F64("volume", 1e-9, 1e9)
	}
	err := ob.ApplyUpdate(market.OrderBookUpdate{Side: side, Price: sym.F64("price", -1e6, 1e9), Volume: volume})
	sym.Assert(err != nil, "unknown-side-rejected")
	sym.Assert(code(err) == "invalid", "unknown-side-invalid")
	sym.Assert(sym.And(sameRows(ob.Asks, asks), sameRows(ob.Bids, bids), ob.MaxDepth == n, ob.Time == now), "unknown-side-changes-nothing")
}

// C05Depth: every price of every book, fresh or updated.
//
//verify C05 n=6
//verify C05 n=2 updated=1
//verify C05 exact=12
//verify C05 n=8 thorough
//verify C05 n=4 updated=1 thorough
func C05Depth() {
	n := sym.Param("n", 4)
	na, nb, room := sym.Param("exact", 0), sym.Param("exact", 0), sym.Param("exact", 0)
	if na == 0 {
		na, nb, room = sym.Choose("asks", n+1), sym.Choose("bids", n+1), n+1
	}
	ob := anyBook(na, nb, room)
	if sym.Param("updated", 0) == 1 {
		u := market.OrderBookUpdate{Price: sym.F64("uprice", -1e6, 1e9), Side: "ask"}
		if sym.Choose("side", 2) == 1 {
			u.Side = "bid"
		}
		if sym.Choose("remove", 2) == 0 {
			u.Volume = sym.F64("uvolume", 1e-9, 1e9)
		}
		ob.ApplyUpdate(u)
	}
	asks, bids := copyRows(ob.Asks), copyRows(ob.Bids)
	price := sym.F64("price", -1e6, 2e9)
	depth, err := ob.GetDepth(price)
	sym.Assert(sym.And(sameRows(ob.Asks, asks), sameRows(ob.Bids, bids)), "book-unchanged")
	if price <= 0 {
		sym.Assert(sym.And(err != nil, code(err) == "invalid"), "non-positive-price-invalid")
		return
	}
	if len(asks) > 0 && asks[0].Price <= price && price <= asks[len(asks)-1].Price {
		want := 0.0
		for _, r := range asks {
			want = sym.Add(want, sym.IteF(r.Price <= price, r.Volume, 0))
		}
		sym.Assert(sym.And(err == nil, near(depth, want, want)), "depth-of-asks")
	} else if len(bids) > 0 && bids[len(bids)-1].Price <= price && price <= bids[0].Price {
		want := 0.0
		for _, r := range bids {
			want = sym.Add(want, sym.IteF(r.Price >= price, r.Volume, 0))
		}
		sym.Assert(sym.And(err == nil, near(depth, want, want)), "depth-of-bids")
	} else {
		sym.Assert(sym.And(err != nil, code(err) == "not_found"), "outside-not-found")
	}
}

// overlapOf is the overlap of the asks of one book and the bids of another.
// and the most money it can be about.
func overlapOf(asks, bids []market.OrderBookRow) (overlap, money float64) {
	cost, volume := 0.0, 0.0
	for _, r := range asks {
		if r.Price <= bids[0].Price {
			volume = sym.Add(volume, r.Volume)
			cost = sym.Add(cost, sym.Mul(r.Price, r.Volume))
		}
	}
	proceeds, left := 0.0, volume
	for i := len(bids) - 1; i >= 0; i-- {
		r := bids[i]
		if r.Price < asks[0].Price {
			continue
		}
		if r.Volume >= left {
			proceeds = sym.Add(proceeds, sym.Mul(left, r.Price))
			break
		}
		proceeds = sym.Add(proceeds, sym.Mul(r.Volume, r.Price))
		left = sym.Sub(left, r.Volume)
	}
	d := sym.Sub(cost, proceeds)
	return abs(d), sym.Mul(volume, bids[0].Price)
}

// C06Overlap: every two books, each of them uncrossed.
//
//verify C06 n=1
//verify C06 n=2 real nomerge
//verify C06 n=2 oneway=1 nomerge
//verify C06 n=5 oneway=1 real nomerge
//verify C06 n=6 oneway=1 real nomerge thorough
func C06Overlap() {
	n := sym.Param("n", 2)
	side := func(name string, ascending bool) []market.OrderBookRow {
		if sym.Param("oneway", 0) == 1 && (name == "bidA" || name == "askB") {
			return nil
		}
		rows := make([]market.OrderBookRow, sym.Choose(name, n+1))
		for i := range rows {
			rows[i].Price = sym.F64(sym.N(name+".p", i), 1e-6, 1e6)
			rows[i].Volume = sym.F64(sym.N(name+".v", i), 1e-8, 1e6)
			if i > 0 && ascending {
				sym.Assume(rows[i-1].Price < rows[i].Price)
			} else if i > 0 {
				sym.Assume(rows[i-1].Price > rows[i].Price)
			}
		}
		return rows
	}
	asksA, bidsA := side("askA", true), side("bidA", false)
	asksB, bidsB := side("askB", true), side("bidB", false)
	uncrossed(asksA, bidsA)
	uncrossed(asksB, bidsB)
	a := market.NewOrderBook(asksA, bidsA, n)
	b := market.NewOrderBook(asksB, bidsB, n)
	a1, a2, b1, b2 := copyRows(a.Asks), copyRows(a.Bids), copyRows(b.Asks), copyRows(b.Bids)
	got, err := market.CalculateOverlap(a, b)
	back, berr := market.CalculateOverlap(b, a)
	sym.Assert(sym.And(sameRows(a.Asks, a1), sameRows(a.Bids, a2), sameRows(b.Asks, b1), sameRows(b.Bids, b2)), "books-unchanged")
	sym.Assert(sym.And((err == nil) == (berr == nil), got == back), "symmetric")
	if len(a1) > 0 && len(b2) > 0 && a1[0].Price < b2[0].Price {
		want, money := overlapOf(a1, b2)
		sym.Assert(sym.And(err == nil, near(got, want, money)), "overlap-of-asks-with-bids")
	} else if len(b1) > 0 && len(a2) > 0 && b1[0].Price < a2[0].Price {
		want, money := overlapOf(b1, a2)
		sym.Assert(sym.And(err == nil, near(got, want, money)), "overlap-of-bids-with-asks")
	} else {
		sym.Assert(sym.And(err != nil, code(err) == "not_found"), "no-overlap-not-found")
	}
}

// C01Long: long lists given from the worst row to the best.
//
//verify C01 n=16 depth=16
//verify C01 n=20 depth=12
func C01Long() {
	n, depth := sym.Param("n", 16), sym.Param("depth", 16)
	asks, bids := anyRows("ask", n, 0), anyRows("bid", n, 0)
	for i := 1; i < n; i++ {
		sym.Assume(sym.And(asks[i-1].Price > asks[i].Price, bids[i-1].Price < bids[i].Price))
	}
	a, b := copyRows(asks), copyRows(bids)
	ob := market.NewOrderBook(asks, bids, depth)
	sym.Assert(sym.And(len(ob.Asks) == depth, len(ob.Bids) == depth, ob.MaxDepth == depth), "long-sides-limited")
	same := true
	for i := 0; i < depth; i++ {
		same = sym.And(same, ob.Asks[i].Price == a[n-1-i].Price, ob.Asks[i].Volume == a[n-1-i].Volume)
		same = sym.And(same, ob.Bids[i].Price == b[n-1-i].Price, ob.Bids[i].Volume == b[n-1-i].Volume)
	}
	sym.Assert(same, "long-sides-sorted")
	sym.Assert(sym.And(accumulated(ob.Asks), accumulated(ob.Bids)), "long-sides-accumulated")
}

// C01Ties: long lists in which many rows have the same price.
//
//verify C01 n=40 depth=30
//verify C01 n=120 depth=150 unwind=200 real
func C01Ties() {
	n, depth := sym.Param("n", 40), sym.Param("depth", 30)
	prices := []float64{sym.F64("low", -1e6, 1e9), sym.F64("mid", -1e6, 1e9), sym.F64("high", -1e6, 1e9)}
	sym.Assume(sym.And(prices[0] < prices[1], prices[1] < prices[2]))
	volume := sym.F64("volume", 0, 1e9)
	var asks, bids []market.OrderBookRow
	var a, b [3][]market.OrderBookRow
	for i := 0; i < n; i++ {
		k := (i*i + i/3) % 3
		r := market.OrderBookRow{Price: prices[k], Volume: float64(i + 1)}
		if i == n/2 {
			r.Volume = volume
		}
		asks, bids = append(asks, r), append(bids, r)
		a[k], b[2-k] = append(a[k], r), append(b[2-k], r)
	}
	ob := market.NewOrderBook(asks, bids, depth)
	m := minInt(n, depth)
	sym.Assert(sym.And(len(ob.Asks) == m, len(ob.Bids) == m, ob.MaxDepth == depth), "many-equal-limited")
	sym.Assert(sameLevels(ob.Asks, append(append(a[0], a[1]...), a[2]...)[:m]), "many-equal-asks-in-given-order")
	sym.Assert(sameLevels(ob.Bids, append(append(b[0], b[1]...), b[2]...)[:m]), "many-equal-bids-in-given-order")
	sym.Assert(sym.And(accumulated(ob.Asks), accumulated(ob.Bids)), "many-equal-accumulated")
}

// usedBook is a book after m fixed updates, and its sides as they should be.
func usedBook(m, depth int) (ob market.OrderBook, asks, bids []market.OrderBookRow) {
	ob = market.NewOrderBook(nil, nil, depth)
	for i := 0; i < m; i++ {
		u := market.OrderBookUpdate{Price: float64(100 + i*37%41), Volume: float64(1 + i%5), Side: "ask"}
		if i%2 == 1 {
			u.Price, u.Side = float64(99-i*23%37), "bid"
		}
		if i%7 == 6 {
			u.Volume = 0
		}
		if i%19 == 18 {
			u.Price += 3
		}
		if u.Side == "ask" {
			asks = expectSide(asks, u.Price, u.Volume, true, depth)
			if u.Volume != 0 {
				bids = beyond(bids, u.Price, false)
			}
		} else {
			bids = expectSide(bids, u.Price, u.Volume, false, depth)
			if u.Volume != 0 {
				asks = beyond(asks, u.Price, true)
			}
		}
		sym.Assert(ob.ApplyUpdate(u) == nil, "used-accepted")
		if m > 100 && i < m-9 {
			continue
		}
		sym.Assert(sym.And(sameLevels(ob.Asks, asks), sameLevels(ob.Bids, bids)), "used-levels")
		sym.Assert(sym.And(accumulated(ob.Asks), accumulated(ob.Bids)), "used-accumulated")
	}
	return
}

// C02Used: every update of a book that has had many.
//
//verify C02 m=60 depth=25 real
//verify C02 m=60 depth=6 real
func C02Used() {
	depth := sym.Param("depth", 25)
	ob, asks, bids := usedBook(sym.Param("m", 40), depth)
	u := market.OrderBookUpdate{Price: sym.F64("price", -1e6, 1e9), Side: "ask"}
	if sym.Choose("remove", 2) == 0 {
		u.Volume = sym.F64("volume", 1e-9, 1e9)
	}
	if sym.Choose("side", 2) == 1 {
		u.Side = "bid"
	}
	sym.Assert(ob.ApplyUpdate(u) == nil, "used-update-accepted")
	if u.Side == "ask" {
		sym.Assert(sameLevels(ob.Asks, expectSide(asks, u.Price, u.Volume, true, depth)), "used-ask-levels")
	} else {
		sym.Assert(sameLevels(ob.Bids, expectSide(bids, u.Price, u.Volume, false, depth)), "used-bid-levels")
	}
	sym.Assert(ob.MaxDepth == depth, "used-depth-kept")
}

// C03Used: every crossing of a book that has had many updates.
//
//verify C03 m=60 depth=25 real
func C03Used() {
	depth := sym.Param("depth", 25)
	ob, asks, bids := usedBook(sym.Param("m", 40), depth)
	u := market.OrderBookUpdate{Price: sym.F64("price", -1e6, 1e9), Volume: sym.F64("volume", 1e-9, 1e9), Side: "ask"}
	if sym.Choose("side", 2) == 1 {
		u.Side = "bid"
	}
	sym.Assert(ob.ApplyUpdate(u) == nil, "used-update-accepted")
	if u.Side == "ask" {
		sym.Assert(sameLevels(ob.Bids, beyond(bids, u.Price, false)), "used-ask-removes-crossed-bids")
		sym.Assert(accumulated(ob.Bids), "used-bids-reaccumulated")
	} else {
		sym.Assert(sameLevels(ob.Asks, beyond(asks, u.Price, true)), "used-bid-removes-crossed-asks")
		sym.Assert(accumulated(ob.Asks), "used-asks-reaccumulated")
	}
}

// C04Used: every update of a book that has had many.
//
//verify C04 m=80 depth=25 real unwind=128
//verify C04 m=80 depth=5 real unwind=128
//verify C04 m=130 depth=20 real unwind=200
func C04Used() {
	depth := sym.Param("depth", 25)
	ob, _, _ := usedBook(sym.Param("m", 40), depth)
	u := market.OrderBookUpdate{Price: sym.F64("price", -1e6, 1e9), Side: "ask"}
	if sym.Choose("remove", 2) == 0 {
		u.Volume = sym.F64("volume", 1e-9, 1e9)
	}
	if sym.Choose("side", 2) == 1 {
		u.Side = "bid"
	}
	sym.Assert(ob.ApplyUpdate(u) == nil, "used-update-accepted")
	validBook(&ob, depth)
}

// wideBook is a book of n fixed levels on each side with room for one more.
func wideBook(n int) (ob market.OrderBook, asks, bids []market.OrderBookRow) {
	for i := 0; i < n; i++ {
		asks = append(asks, market.OrderBookRow{Price: float64(1000 + 2*i), Volume: float64(1 + i*5%7)})
		bids = append(bids, market.OrderBookRow{Price: float64(999 - 2*i), Volume: float64(1 + i*3%8)})
	}
	return market.NewOrderBook(copyRows(asks), copyRows(bids), n+1), asks, bids
}

// anyUpdate is any update of a wide book near one of several of its levels.
func anyUpdate(n int) market.OrderBookUpdate {
	k := []int{-n, -n / 2, 0, n / 3, n - 1}[sym.Choose("near", 5)]
	price := float64(1000 + 2*k)
	u := market.OrderBookUpdate{Price: sym.F64(sym.N("price", n+k), price-3, price+3), Side: "ask"}
	if sym.Choose("remove", 2) == 0 {
		u.Volume = sym.F64("volume", 1e-9, 1e9)
	}
	if sym.Choose("side", 2) == 1 {
		u.Side = "bid"
	}
	return u
}

// C02Wide: every update of a deep book.
//
//verify C02 n=120 real unwind=400
func C02Wide() {
	n := sym.Param("n", 120)
	ob, asks, bids := wideBook(n)
	u := anyUpdate(n)
	sym.Assert(ob.ApplyUpdate(u) == nil, "wide-update-accepted")
	if u.Side == "ask" {
		sym.Assert(sameLevels(ob.Asks, expectSide(asks, u.Price, u.Volume, true, n+1)), "wide-ask-levels")
	} else {
		sym.Assert(sameLevels(ob.Bids, expectSide(bids, u.Price, u.Volume, false, n+1)), "wide-bid-levels")
	}
	sym.Assert(ob.MaxDepth == n+1, "wide-depth-kept")
}

// C03Wide: every crossing of a deep book.
//
//verify C03 n=120 real unwind=400
func C03Wide() {
	n := sym.Param("n", 120)
	ob, asks, bids := wideBook(n)
	u := anyUpdate(n)
	sym.Assume(u.Volume != 0)
	sym.Assert(ob.ApplyUpdate(u) == nil, "wide-update-accepted")
	if u.Side == "ask" {
		sym.Assert(sameLevels(ob.Bids, beyond(bids, u.Price, false)), "wide-ask-removes-crossed-bids")
		sym.Assert(accumulated(ob.Bids), "wide-bids-reaccumulated")
	} else {
		sym.Assert(sameLevels(ob.Asks, beyond(asks, u.Price, true)), "wide-bid-removes-crossed-asks")
		sym.Assert(accumulated(ob.Asks), "wide-asks-reaccumulated")
	}
}

// C04Wide: every update of a deep book.
//
//verify C04 n=120 real unwind=400
func C04Wide() {
	n := sym.Param("n", 120)
	ob, _, _ := wideBook(n)
	sym.Assert(ob.ApplyUpdate(anyUpdate(n)) == nil, "wide-update-accepted")
	validBook(&ob, n+1)
}

// C05Wide: every price of a deep book.
//
//verify C05 n=120 real unwind=400
func C05Wide() {
	ob, asks, bids := wideBook(sym.Param("n", 120))
	price := sym.F64("price", -1e6, 2e9)
	depth, err := ob.GetDepth(price)
	n := len(asks)
	want, sum := 0.0, 0.0
	for i := range asks {
		sum += asks[i].Volume
		want = sym.IteF(price >= asks[i].Price, sum, want)
	}
	sum = 0
	for i := range bids {
		sum += bids[i].Volume
		want = sym.IteF(price <= bids[i].Price, sum, want)
	}
	switch {
	case price <= 0:
		sym.Assert(sym.And(err != nil, code(err) == "invalid"), "wide-non-positive-price-invalid")
	case price > asks[n-1].Price || price < bids[n-1].Price || (price > bids[0].Price && price < asks[0].Price):
		sym.Assert(sym.And(err != nil, code(err) == "not_found"), "wide-outside-not-found")
	default:
		sym.Assert(sym.And(err == nil, near(depth, want, want)), "wide-depth")
	}
}

// C06Wide: deep books of which one level each has any volume.
//
//verify C06 n=100 real unwind=300 nomerge
func C06Wide() {
	n := sym.Param("n", 100)
	var asks, bids, far, low []market.OrderBookRow
	for i := 0; i < n; i++ {
		asks = append(asks, market.OrderBookRow{Price: float64(1000 + 2*i), Volume: float64(1 + i*5%7)})
		bids = append(bids, market.OrderBookRow{Price: float64(1121 - 3*i), Volume: float64(1 + i*3%8)})
		low = append(low, market.OrderBookRow{Price: float64(900 - i), Volume: 3})
		far = append(far, market.OrderBookRow{Price: float64(2000 + i), Volume: 4})
	}
	at := []int{0, 20, n - 1}[sym.Choose("at", 3)]
	asks[at].Volume = sym.F64("ask", 1e-8, 1e6)
	bids[at].Volume = sym.F64("bid", 1e-8, 1e6)
	a := market.NewOrderBook(copyRows(asks), copyRows(low), n)
	b := market.NewOrderBook(copyRows(far), copyRows(bids), n)
	got, err := market.CalculateOverlap(a, b)
	back, berr := market.CalculateOverlap(b, a)
	sym.Assert(sym.And(sameLevels(a.Asks, asks), sameLevels(a.Bids, low), sameLevels(b.Asks, far), sameLevels(b.Bids, bids)), "wide-books-unchanged")
	sym.Assert(sym.And(err == nil, berr == nil, got == back), "wide-symmetric")
	want, money := overlapOf(asks, bids)
	sym.Assert(near(got, want, money), "wide-overlap")
}
