package h

import (
	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// queryCandles are n candles a minute apart with any prices and volumes.
func queryCandles(name string, n int, first int64) (out []market.Candle) {
	for i := 0; i < n; i++ {
		out = append(out, anyCandle(sym.N(name, i), first+int64(60*i)))
	}
	return
}

// sameNumbers reports whether two lists are the same, value by value.
func sameNumbers(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = sym.And(same, sym.Or(a[i] == b[i], sym.And(a[i] != a[i], b[i] != b[i])))
	}
	return same
}

func copyNumbers(a []float64) []float64 { return append([]float64{}, a...) }

// ask is the answer of one of the functions on candles: a function that shows
// as numbers what the returned list holds now, and one that overwrites it.
func ask(which int, c []market.Candle, period int) (show func() []float64, spoil func()) {
	failed := func() []float64 { return []float64{-1} }
	nothing := func() {}
	switch which {
	case 0, 1, 2:
		f := indicators.MovingAverage
		if which == 1 {
			f = indicators.ExponentialMovingAverage
		} else if which == 2 {
			f = indicators.SmoothedMovingAverage
		}
		got, err := f(c, period)
		if err != nil {
			return failed, nothing
		}
		return func() []float64 { return copyNumbers(got) }, func() {
			for i := range got {
				got[i] = -77
			}
			got = append(got, -78)
		}
	case 3:
		got, err := indicators.RSI(c, period)
		if err != nil {
			return failed, nothing
		}
		return func() (out []float64) {
			for _, x := range got {
				out = append(out, float64(x))
			}
			return
		}, func() {
			for i := range got {
				got[i] = -77
			}
		}
	case 4:
		got := indicators.ExponentialWeightedVolatility(c, 0.5)
		return func() []float64 { return []float64{got} }, nothing
	case 5:
		got, err := market.ModifyInterval(c, period)
		if err != nil {
			return failed, nothing
		}
		return func() (out []float64) {
			for _, x := range got {
				out = append(out, float64(x.Time), x.Open, x.High, x.Low, x.Close, x.Volume)
			}
			return
		}, func() {
			for i := range got {
				got[i] = market.Candle{Time: -77, Open: -77}
			}
		}
	}
	got := float64(market.GetMinInterval(c))
	return func() []float64 { return []float64{got} }, nothing
}

// C30Candles: functions on candles asked again, with other candles asked about
// in between and the list changed in place.
//
//verify C30 n=4 real
func C30Candles() {
	n := sym.Param("n", 4)
	which, period := sym.Choose("which", 7), 1+sym.Choose("period", 3)
	c, d := queryCandles("c", n, 600), queryCandles("d", n, 600)
	if which == 6 {
		// any order of time
		for i := range c {
			c[i].Time, d[i].Time = sym.I64(sym.N("c.at", i), 0, 100000), sym.I64(sym.N("d.at", i), 0, 100000)
		}
	}
	one, two := copyCandles(c), copyCandles(d)
	kept, spoil := ask(which, c, period)
	first := kept()
	sym.Assert(sameCandles(c, one), "candles-unchanged")
	otherKept, _ := ask(which, d, period)
	other := otherKept()
	sym.Assert(sameCandles(d, two), "other-candles-unchanged")
	sym.Assert(sameNumbers(kept(), first), "first-answer-still-there")
	spoil()
	sym.Assert(sym.And(sameCandles(c, one), sameCandles(d, two), sameNumbers(otherKept(), other)), "answer-is-the-callers")
	again, _ := ask(which, c, period)
	sym.Assert(sameNumbers(again(), first), "same-answer-again")
	// other candles at the same place
	copy(c, two)
	sym.Assert(sameNumbers(again(), first), "answer-apart-from-the-candles")
	now, _ := ask(which, c, period)
	sym.Assert(sameNumbers(now(), other), "answer-of-the-candles-now")
	// a part of them, then all again
	ask(which, c[:n-1], period)
	ask(which, c[1:], period)
	now, _ = ask(which, c, period)
	sym.Assert(sameNumbers(now(), other), "answer-after-that-of-a-part")
	sym.Assert(sameCandles(c, two), "candles-still-unchanged")
}

// C30Fractals: fractals asked for again.
//
//verify C30 n=6
func C30Fractals() {
	n := sym.Param("n", 6)
	c, d := queryCandles("c", n, 600), queryCandles("d", n, 600)
	one, two := copyCandles(c), copyCandles(d)
	same := func(a, b []indicators.WilliamFractal) bool {
		if len(a) != len(b) {
			return false
		}
		ok := true
		for i := range a {
			ok = sym.And(ok, a[i] == b[i])
		}
		return ok
	}
	got := indicators.WilliamFractals(c)
	first := append([]indicators.WilliamFractal{}, got...)
	other := append([]indicators.WilliamFractal{}, indicators.WilliamFractals(d)...)
	sym.Assert(same(got, first), "first-fractals-still-there")
	for i := range got {
		got[i].Price = -77
	}
	sym.Assert(sym.And(sameCandles(c, one), sameCandles(d, two)), "fractal-candles-unchanged")
	sym.Assert(same(indicators.WilliamFractals(c), first), "same-fractals-again")
	copy(c, two)
	sym.Assert(same(indicators.WilliamFractals(c), other), "fractals-of-the-candles-now")
}

// C30Books: depth and overlap asked for again, with updates in between.
//
//verify C30 n=2 real
func C30Books() {
	n := sym.Param("n", 2)
	side := func(name string, up bool) (rows []market.OrderBookRow) {
		sum := 0.0
		for i := 0; i < n; i++ {
			price := sym.F64(sym.N(name, i)+".price", 1, 1e6)
			if i > 0 {
				if up {
					sym.Assume(price > rows[i-1].Price)
				} else {
					sym.Assume(price < rows[i-1].Price)
				}
			}
			volume := sym.F64(sym.N(name, i)+".volume", 1, 1e6)
			sum += volume
			rows = append(rows, market.OrderBookRow{Price: price, Volume: volume, AccumVolume: sum})
		}
		return
	}
	book := func(name string) market.OrderBook {
		b := market.OrderBook{Time: 7, Asks: side(name+".ask", true), Bids: side(name+".bid", false), MaxDepth: 5}
		uncrossed(b.Asks, b.Bids)
		return b
	}
	a, b := book("a"), book("b")
	asks, bids, otherAsks, otherBids := copyRows(a.Asks), copyRows(a.Bids), copyRows(b.Asks), copyRows(b.Bids)
	unchanged := func() bool {
		return sym.And(sameRows(a.Asks, asks), sameRows(a.Bids, bids), sameRows(b.Asks, otherAsks), sameRows(b.Bids, otherBids), a.Time == 7, b.Time == 7, a.MaxDepth == 5, b.MaxDepth == 5)
	}
	p, q := sym.F64("p", 1, 1e6), sym.F64("q", 1, 1e6)
	if sym.Choose("overlap", 2) == 1 {
		x, err := market.CalculateOverlap(a, b)
		market.CalculateOverlap(b, a)
		y, again := market.CalculateOverlap(a, b)
		sym.Assert(sym.And(x == y, code(err) == code(again)), "same-overlap-again")
		sym.Assert(unchanged(), "overlap-changes-nothing")
		return
	}
	x, err := a.GetDepth(p)
	a.GetDepth(q)
	b.GetDepth(p)
	y, again := a.GetDepth(p)
	sym.Assert(sym.And(x == y, code(err) == code(again)), "same-depth-again")
	sym.Assert(unchanged(), "depth-changes-nothing")
	a.Asks, a.Bids = otherAsks, otherBids
	x, err = a.GetDepth(p)
	y, again = b.GetDepth(p)
	sym.Assert(sym.And(x == y, code(err) == code(again)), "depth-of-the-rows-now")
}

// C30Records: questions about single records.
//
//verify C30 real
func C30Records() {
	switch sym.Choose("kind", 4) {
	case 0:
		p, q := anyPosition("p"), anyPosition("q")
		was := p
		was.Trades = append([]string{}, p.Trades...)
		a, b := sym.F64("a", 0, 1e6), sym.F64("b", 0, 1e6)
		x := p.UnrealizedProfit(a)
		p.UnrealizedProfit(b)
		q.UnrealizedProfit(a)
		sym.Assert(p.UnrealizedProfit(a) == x, "same-profit-again")
		sym.Assert(samePosition(&p, &was), "profit-changes-nothing")
		p.ID = sym.Text("id", 9, 'a', 'z')
		was.ID, q.ID = p.ID, p.ID
		text, other := p.String(), q.String()
		sym.Assert(sym.And(p.String() == text, q.String() == other, p.GetID() == was.ID), "same-text-again")
		sym.Assert(samePosition(&p, &was), "text-changes-nothing")
	case 1:
		p := anyPair("p")
		q := anyPair("q")
		was, sep := p, sym.Str("separator")
		x := p.Symbol(sep)
		q.Symbol(sep)
		p.Symbol("/")
		sym.Assert(sym.And(p.Symbol(sep) == x, p == was), "same-symbol-again")
	case 2:
		r := market.OrderRequest{Type: market.OrderType(sym.Str("type")), Price: sym.F64("price", 1, 1e6)}
		if sym.Choose("total", 2) == 1 {
			r.Total = sym.F64("amount", 1, 1e6)
		} else {
			r.Quantity = sym.F64("amount", 1, 1e6)
		}
		was := r
		a, b := sym.F64("a", 1, 1e6), sym.F64("b", 1, 1e6)
		x, err := r.CalculateFields(a)
		sym.Assert(err == nil, "completed")
		total, quantity := x.Total, x.Quantity
		x.Total, x.Quantity, x.Price = -77, -77, -77
		r.CalculateFields(b)
		y, err := r.CalculateFields(a)
		sym.Assert(sym.And(err == nil, y.Total == total, y.Quantity == quantity, y.Price == was.Price, r == was), "same-fields-again")
	case 3:
		o := anyOrder("o")
		was := o
		x := o.IsOpen()
		text := o.String()
		sym.Assert(sym.And(o.IsOpen() == x, o.String() == text, o.GetID() == was.ID, sameOrder(&o, &was)), "same-order-again")
	}
}
