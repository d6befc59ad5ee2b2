package h

import (
	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// scale is the size of the greatest price, to which rounding is relative.
func scale() float64 {
	if sym.Param("few", 0) > 0 {
		return sym.F64("scale", 100, 1e6)
	}
	return sym.F64("scale", 0, 1e6)
}

// closes are n candles with any prices of at most the given size, at the
// start of a longer list; with few, only every few-th one has any prices.
func closes(n int, scale float64) []market.Candle {
	all := make([]market.Candle, n+1)
	few := sym.Param("few", 0)
	for i := range all {
		if few > 0 && i%few != 1 {
			base := float64(50 + i*7%13)
			all[i] = market.Candle{Time: int64(60 * i), Open: base, High: base + float64(1+i%5), Low: base - float64(1+i%3), Close: base + float64(i%4) - 1, Volume: float64(i % 9)}
			continue
		}
		all[i] = market.Candle{
			Time:   int64(60 * i),
			Open:   sym.F64(sym.N("open", i), -1e6, 1e6),
			High:   sym.F64(sym.N("high", i), -1e6, 1e6),
			Low:    sym.F64(sym.N("low", i), -1e6, 1e6),
			Close:  sym.F64(sym.N("close", i), -1e6, 1e6),
			Volume: sym.F64(sym.N("volume", i), 0, 1e9),
		}
		for _, x := range []float64{all[i].Open, all[i].High, all[i].Low, all[i].Close} {
			sym.Assume(sym.And(x <= scale, x >= -scale))
		}
	}
	return all[:n]
}

// validPeriod asserts the rejection of missing candles and bad periods; it
// reports whether the arguments are valid.
func validPeriod(n, period, least int, err error, empty bool) bool {
	if period <= 0 || n < least || n == 0 {
		sym.Assert(sym.And(err != nil, empty, code(err) == "invalid"), "bad-arguments-invalid")
		return false
	}
	sym.Assert(err == nil, "good-arguments-accepted")
	return true
}

// lengths are every length up to n with every period, or the given ones.
func lengths() (n, period int) {
	n = sym.Param("n", 6)
	if p := sym.Param("period", 0); p > 0 {
		return n, p
	}
	return sym.Choose("n", n+1), sym.Choose("period", n+3) - 1
}

func list(n int, scale float64) []market.Candle {
	if n == 0 && sym.Choose("nil", 2) == 0 {
		return nil
	}
	return closes(n, scale)
}

// C17Average: the moving average of every list for every period.
//
//verify C17 n=5
//verify C17 n=10 real
//verify C17 n=60 period=20 real
//verify C17 n=520 period=50 few=150 real unwind=600
//verify C17 n=260 period=200 few=100 real unwind=600
//verify C17 n=40 period=1 real
//verify C17 n=16 real thorough
func C17Average() {
	n, period := lengths()
	scale := scale()
	candles := list(n, scale)
	was := copyCandles(candles)
	out, err := indicators.MovingAverage(candles, period)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	if !validPeriod(n, period, period, err, out == nil) {
		return
	}
	sym.Assert(len(out) == n-period+1, "one-average-per-window")
	for i := range out {
		sum := 0.0
		for k := 0; k < period; k++ {
			sum = sym.Add(sum, was[i+k].Close)
		}
		sym.Assert(near(sym.Mul(out[i], float64(period)), sum, sym.Mul(scale, float64(n))), "average-of-window")
	}
}

// C17Smoothed: the smoothed average of every list for every period.
//
//verify C17 n=5
//verify C17 n=10 real
//verify C17 n=60 period=20 real
//verify C17 n=520 period=50 few=150 real unwind=600
//verify C17 n=260 period=200 few=100 real unwind=600
//verify C17 n=40 period=1 real
//verify C17 n=16 real thorough
func C17Smoothed() {
	n, period := lengths()
	scale := scale()
	candles := list(n, scale)
	was := copyCandles(candles)
	out, err := indicators.SmoothedMovingAverage(candles, period)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	if !validPeriod(n, period, period, err, out == nil) {
		return
	}
	sym.Assert(len(out) == n-period+1, "one-smoothed-average-per-window")
	sum := 0.0
	for k := 0; k < period; k++ {
		sum = sym.Add(sum, was[k].Close)
	}
	sym.Assert(near(sym.Mul(out[0], float64(period)), sum, sym.Mul(scale, float64(n))), "starts-with-average")
	for i := 1; i < len(out); i++ {
		want := sym.Add(sym.Mul(out[i-1], float64(period-1)), was[period-1+i].Close)
		sym.Assert(near(sym.Mul(out[i], float64(period)), want, sym.Mul(scale, float64(n*period))), "smoothed-recurrence")
	}
}

// C18Exponential: the exponential average of every list for every period.
//
//verify C18 n=5
//verify C18 n=10 real
//verify C18 n=40 period=14 real
//verify C18 n=320 period=50 few=150 real unwind=600
//verify C18 n=260 period=200 few=100 real unwind=600
//verify C18 n=40 period=1 real
//verify C18 n=16 real thorough
func C18Exponential() {
	n, period := lengths()
	scale := scale()
	candles := list(n, scale)
	was := copyCandles(candles)
	out, err := indicators.ExponentialMovingAverage(candles, period)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	if !validPeriod(n, period, period, err, out == nil) {
		return
	}
	sym.Assert(len(out) == n-period, "one-average-per-later-candle")
	prev := 0.0
	for k := 0; k < period; k++ {
		prev = sym.Add(prev, sym.Mul(was[k].Close, 1/float64(period)))
	}
	// out*(period+1) = 2*close + prev*(period-1)
	for i := range out {
		want := sym.Add(sym.Mul(was[period+i].Close, 2), sym.Mul(prev, float64(period-1)))
		sym.Assert(near(sym.Mul(out[i], float64(period+1)), want, sym.Mul(scale, float64(n*period))), "exponential-recurrence")
		prev = out[i]
	}
}

// C19RSI: the strength index of every list for every period.
//
//verify C19 n=3
//verify C19 n=5 real
//verify C19 n=100 period=14 few=500 real unwind=600
//verify C19 n=210 period=200 few=500 real unwind=600
//verify C19 n=6 real thorough
func C19RSI() {
	n, period := lengths()
	scale := scale()
	candles := list(n, scale)
	was := copyCandles(candles)
	out, err := indicators.RSI(candles, period)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	if !validPeriod(n, period, period+1, err, out == nil) {
		return
	}
	sym.Assert(len(out) == n-period, "one-index-per-window")
	for i := range out {
		up, down := 0.0, 0.0
		for k := i + 1; k <= i+period; k++ {
			d := sym.Sub(was[k].Close, was[k-1].Close)
			up = sym.Add(up, sym.IteF(d > 0, d, 0))
			down = sym.Add(down, sym.IteF(d < 0, sym.Sub(0, d), 0))
		}
		got := float64(out[i])
		if sym.Or(up > 0, down > 0) {
			sym.Assert(sym.IsFinite(got), "moving-window-finite")
			// got = 100*up/(up+down)
			sym.Assume(sym.Add(up, down) > sym.Mul(1e-9, scale))
			sym.Assert(sym.Near(sym.Mul(got, sym.Add(up, down)), sym.Mul(100, up), sym.Mul(0.0001, sym.Add(up, down))), "index-of-window")
			sym.Assert(sym.And(got >= -0.001, got <= 100.001), "index-within-0-and-100")
		} else {
			sym.Assert(sym.IsFinite(got), "flat-window-finite")
		}
	}
}

// C20Volatility: the weighted volatility of every list.
//
//verify C20 n=1
//verify C20 n=12 real
//verify C20 n=3 beta=90
//verify C20 n=3 beta=50
//verify C20 n=30 real
//verify C20 exact=300 few=100 real unwind=600
//verify C20 exact=300 few=100 beta=94 real unwind=600
//verify C20 n=4 beta=90 thorough
func C20Volatility() {
	n := sym.Param("exact", 0)
	if n == 0 {
		n = sym.Choose("n", sym.Param("n", 4)+1)
	}
	scale := scale()
	candles := list(n, scale)
	was := copyCandles(candles)
	beta := sym.F64("beta", 0, 1)
	if b := sym.Param("beta", 0); b > 0 {
		beta = float64(b) / 100
	}
	got := indicators.ExponentialWeightedVolatility(candles, beta)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	want := 0.0
	for i := range was {
		want = sym.Add(sym.Mul(beta, want), sym.Mul(sym.Sub(1, beta), sym.Sub(was[i].High, was[i].Low)))
	}
	sym.Assert(near(got, want, sym.Mul(scale, float64(n))), "weighted-volatility")
}

// C21Fractals: the fractals of every list.
//
//verify C21 n=6
//verify C21 n=8
//verify C21 n=10 thorough
func C21Fractals() {
	n := sym.Choose("n", sym.Param("n", 6)+1)
	scale := scale()
	candles := list(n, scale)
	was := copyCandles(candles)
	out := indicators.WilliamFractals(candles)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	var want []indicators.WilliamFractal
	for i := 2; i < n-2; i++ {
		if confirmed(was, i, func(a, b market.Candle) bool { return a.High < b.High }) {
			want = append(want, indicators.WilliamFractal{Time: was[i].Time, Price: was[i].High, Type: indicators.FractalUp})
		}
		if confirmed(was, i, func(a, b market.Candle) bool { return a.Low > b.Low }) {
			want = append(want, indicators.WilliamFractal{Time: was[i].Time, Price: was[i].Low, Type: indicators.FractalDown})
		}
	}
	sym.Assert(len(out) == len(want), "as-many-fractals")
	same := true
	for i := range want {
		same = sym.And(same, out[i].Time == want[i].Time, out[i].Price == want[i].Price, out[i].Type == want[i].Type)
	}
	sym.Assert(same, "fractals-in-order")
}

// confirmed reports whether candle i is an extreme of its two predecessors
// and of two successors, none being more extreme before them.
func confirmed(c []market.Candle, i int, inside func(a, b market.Candle) bool) bool {
	if !inside(c[i-1], c[i]) || !inside(c[i-2], c[i]) {
		return false
	}
	right := 0
	for k := i + 1; k < len(c) && right < 2; k++ {
		if inside(c[i], c[k]) {
			return false
		}
		if inside(c[k], c[i]) {
			right++
		}
	}
	return right == 2
}

// C19Long: usual periods, the closes going up and down in a fixed pattern of
// any size.
//
//verify C19 n=17 period=14 up=4 real
//verify C19 n=12 period=9 up=3 real
//verify C19 n=24 period=21 up=5 real
func C19Long() {
	n, period := sym.Param("n", 17), sym.Param("period", 14)
	scale := scale()
	candles := closes(n, scale)
	for i := 1; i < n; i++ {
		if i%sym.Param("up", 2) != 0 {
			sym.Assume(candles[i].Close > candles[i-1].Close)
		} else {
			sym.Assume(candles[i].Close < candles[i-1].Close)
		}
	}
	out, err := indicators.RSI(candles, period)
	sym.Assert(err == nil, "long-accepted")
	sym.Assert(len(out) == n-period, "long-one-index-per-window")
	for i := range out {
		up, down := 0.0, 0.0
		for k := i + 1; k <= i+period; k++ {
			if k%sym.Param("up", 2) != 0 {
				up = sym.Add(up, sym.Sub(candles[k].Close, candles[k-1].Close))
			} else {
				down = sym.Add(down, sym.Sub(candles[k-1].Close, candles[k].Close))
			}
		}
		got := float64(out[i])
		sym.Assume(sym.Add(up, down) > sym.Mul(1e-9, scale))
		sym.Assert(sym.Near(sym.Mul(got, sym.Add(up, down)), sym.Mul(100, up), sym.Mul(0.0001, sym.Add(up, down))), "long-index-of-window")
	}
}

// C21Long: long lists with any neighbours at several places.
//
//verify C21 n=24
//verify C21 n=110 any=2 unwind=300
func C21Long() {
	n, any := sym.Param("n", 24), sym.Param("any", 4)
	at := []int{0, 9, n - 4}[sym.Choose("at", 3)]
	candles := make([]market.Candle, n)
	for i := range candles {
		candles[i] = market.Candle{Time: int64(300 * i), High: float64(50 + i*7%13), Low: float64(20 + i*5%11)}
		if i >= at && i < at+any {
			candles[i].High = sym.F64(sym.N("high", i), -1e6, 1e6)
			candles[i].Low = sym.F64(sym.N("low", i), -1e6, 1e6)
		}
	}
	was := copyCandles(candles)
	out := indicators.WilliamFractals(candles)
	sym.Assert(sameCandles(candles, was), "long-candles-unchanged")
	var want []indicators.WilliamFractal
	for i := 2; i < n-2; i++ {
		if confirmed(was, i, func(a, b market.Candle) bool { return a.High < b.High }) {
			want = append(want, indicators.WilliamFractal{Time: was[i].Time, Price: was[i].High, Type: indicators.FractalUp})
		}
		if confirmed(was, i, func(a, b market.Candle) bool { return a.Low > b.Low }) {
			want = append(want, indicators.WilliamFractal{Time: was[i].Time, Price: was[i].Low, Type: indicators.FractalDown})
		}
	}
	sym.Assert(len(out) == len(want), "long-as-many-fractals")
	same := true
	for i := range want {
		same = sym.And(same, out[i] == want[i])
	}
	sym.Assert(same, "long-fractals-in-order")
}
