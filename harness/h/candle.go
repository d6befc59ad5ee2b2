package h

import (
	"math"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// someCandles are n candles in ascending order of time, the first two of
// them delta minutes (and possibly some seconds) apart.
func someCandles(n, delta int) []market.Candle {
	var candles []market.Candle
	t := sym.I64("start", 0, 1<<40)
	for i := 0; i < n; i++ {
		if i == 1 {
			t += int64(delta)*60 + sym.I64("second", 0, 59)
		} else if i > 1 {
			t += sym.I64(sym.N("gap", i), 1, 3*86400)
		}
		candles = append(candles, anyCandle(sym.N("c", i), t))
	}
	return candles
}

// aligned reports whether the resampling can start at t.
func aligned(t int64, interval int) bool {
	mod := interval
	if mod > 60 {
		mod = mod % 60
	}
	if mod == 0 {
		mod = 60
	}
	minute := t / 60 % 60
	return minute%int64(mod) == 0
}

// C13Resample: every list of candles.
//
//verify C13 n=6 delta=1 interval=5
//verify C13 n=4 delta=5 interval=15
//verify C13 n=4 delta=1 interval=1
//verify C13 n=4 delta=15 interval=60
//verify C13 n=4 delta=30 interval=90
//verify C13 n=4 delta=60 interval=1440
//verify C13 n=4 delta=1 interval=7
//verify C13 n=5 delta=60 interval=240
//verify C13 n=4 delta=1 interval=2
//verify C13 n=4 delta=1 interval=10
//verify C13 n=4 delta=1 interval=30
//verify C13 n=4 delta=3 interval=45
//verify C13 n=4 delta=5 interval=60
//verify C13 n=4 delta=1 interval=61
//verify C13 n=4 delta=60 interval=120
//verify C13 n=4 delta=60 interval=720
//verify C13 n=4 delta=1440 interval=10080
//verify C13 n=6 delta=1 interval=3 thorough
//verify C13 n=7 delta=5 interval=30 thorough
func C13Resample() {
	n, delta, interval := sym.Param("n", 4), sym.Param("delta", 1), sym.Param("interval", 5)
	sym.SetLocalOffset(0)
	candles := someCandles(2+sym.Choose("n", n-1), delta)
	was := copyCandles(candles)
	out, err := market.ModifyInterval(candles, interval)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	start := 0
	for start < len(was) && !aligned(was[start].Time, interval) {
		start++
	}
	if start == len(was) {
		sym.Assert(sym.And(err != nil, out == nil), "no-start-rejected")
		return
	}
	sym.Assert(err == nil, "resampled")
	k := 0
	for i := start; i < len(was); {
		j := i + 1
		for j < len(was) && (was[j].Time-was[start].Time)/60/int64(interval) == (was[i].Time-was[start].Time)/60/int64(interval) {
			j++
		}
		sym.Assert(k < len(out), "every-interval-present")
		c := out[k]
		sym.Assert(c.Time == was[i].Time, "time-of-first")
		sym.Assert(c.Open == was[i].Open, "open-of-first")
		sym.Assert(c.Close == was[j-1].Close, "close-of-last")
		high, low, volume := was[i].High, was[i].Low, was[i].Volume
		for m := i + 1; m < j; m++ {
			high = sym.IteF(was[m].High > high, was[m].High, high)
			low = sym.IteF(was[m].Low < low, was[m].Low, low)
			volume = sym.Add(volume, was[m].Volume)
		}
		sym.Assert(c.High == high, "highest-high")
		sym.Assert(c.Low == low, "lowest-low")
		sym.Assert(sym.Near(c.Volume, volume, 0.00000501), "sum-of-volumes")
		i = j
		k++
	}
	sym.Assert(k == len(out), "no-other-candles")
}

// C13Volume: every volume of candles in one interval.
//
//verify C13 n=2 real
//verify C13 n=4 real
func C13Volume() {
	n := sym.Param("n", 2)
	sym.SetLocalOffset(0)
	var candles []market.Candle
	sum := 0.0
	for i := 0; i < n; i++ {
		candles = append(candles, anyCandle(sym.N("c", i), int64(1600000200+60*i)))
		sum = sym.Add(sum, candles[i].Volume)
	}
	out, err := market.ModifyInterval(candles, 10)
	sym.Assert(sym.And(err == nil, len(out) == 1), "one-interval")
	scaled := sym.Mul(out[0].Volume, 100000)
	sym.Assert(sym.Near(scaled, math.Floor(sym.Add(scaled, 0.5)), 0.001), "volume-of-5-decimals")
	sym.Assert(sym.Near(out[0].Volume, sum, 0.00000501), "volume-rounded")
}

// C13Regular: long lists of candles without gaps.
//
//verify C13 n=30 delta=1 interval=5 real
//verify C13 n=24 delta=5 interval=15 real
//verify C13 n=30 delta=60 interval=240 real
//verify C13 n=300 delta=1 interval=60 few=100 real unwind=400
//verify C13 n=200 delta=5 interval=15 few=100 real unwind=400
func C13Regular() {
	n, delta, interval := sym.Param("n", 30), sym.Param("delta", 1), sym.Param("interval", 5)
	sym.SetLocalOffset(0)
	start := 3600 * sym.I64("hour", 0, 10000000)
	var candles []market.Candle
	for i := 0; i < n; i++ {
		at := start + int64(60*delta*i)
		if few := sym.Param("few", 0); few > 0 && i%few != 1 {
			base := float64(50 + i*7%13)
			candles = append(candles, market.Candle{Time: at, Open: base, High: base + float64(1+i%5), Low: base - float64(1+i%3), Close: base + float64(i%4) - 1, Volume: float64(i % 9)})
			continue
		}
		candles = append(candles, anyCandle(sym.N("c", i), at))
	}
	was := copyCandles(candles)
	out, err := market.ModifyInterval(candles, interval)
	sym.Assert(sameCandles(candles, was), "long-candles-unchanged")
	sym.Assert(err == nil, "long-resampled")
	each := interval / delta
	sym.Assert(len(out) == (n+each-1)/each, "long-one-per-interval")
	for k, c := range out {
		end := each*k + each
		if end > n {
			end = n
		}
		of := was[each*k : end]
		high, low, volume := of[0].High, of[0].Low, 0.0
		for _, x := range of {
			high = sym.IteF(x.High > high, x.High, high)
			low = sym.IteF(x.Low < low, x.Low, low)
			volume = sym.Add(volume, x.Volume)
		}
		sym.Assert(sym.And(c.Time == of[0].Time, c.Open == of[0].Open, c.Close == of[len(of)-1].Close), "long-first-and-last")
		sym.Assert(sym.And(c.High == high, c.Low == low), "long-extremes")
		sym.Assert(sym.Near(c.Volume, volume, 0.00000501), "long-sum-of-volumes")
	}
}

// C14Validate: every interval for every distance between candles.
//
//verify C14
func C14Validate() {
	sym.SetLocalOffset(0)
	deltas := []int{0, 1, 2, 3, 4, 5, 7, 10, 15, 30, 45, 60, 90, 240, 720, 1440, 10080}
	delta := deltas[sym.Choose("delta", len(deltas))]
	start := 3600 * sym.I64("hour", 0, 1000000)
	candles := []market.Candle{anyCandle("a", start), anyCandle("b", start+int64(delta)*60+sym.I64("second", 0, 59))}
	interval := sym.Int("interval", -100000, 100000)
	was := copyCandles(candles)
	out, err := market.ModifyInterval(candles, interval)
	sym.Assert(sameCandles(candles, was), "candles-unchanged")
	if interval <= 0 {
		sym.Assert(sym.And(err != nil, out == nil, code(err) == "invalid"), "no-interval-invalid")
	} else if delta == 0 || interval%delta != 0 {
		sym.Assert(sym.And(err != nil, out == nil, code(err) == "conflict"), "no-multiple-conflict")
	} else {
		sym.Assert(sym.And(err == nil, len(out) > 0), "multiple-accepted")
	}
}

// C14Few: lists that have nothing to resample.
//
//verify C14
func C14Few() {
	var candles []market.Candle
	if sym.Choose("one", 2) == 1 {
		candles = append(candles, anyCandle("c", sym.I64("time", 0, 4000000000)))
	}
	was := copyCandles(candles)
	interval := sym.Int("interval", -100000, 100000)
	out, err := market.ModifyInterval(candles, interval)
	if interval <= 0 {
		sym.Assert(sym.And(err != nil, code(err) == "invalid"), "few-no-interval-invalid")
	} else {
		sym.Assert(sym.And(err == nil, sameCandles(out, was)), "few-returned-as-they-are")
	}
}

// C14Min: the smallest distance of every list of candles.
//
//verify C14 n=7
//verify C14 n=12 thorough
func C14Min() {
	n := sym.Choose("n", sym.Param("n", 5)+1)
	var candles []market.Candle
	for i := 0; i < n; i++ {
		candles = append(candles, anyCandle(sym.N("c", i), sym.I64(sym.N("time", i), -1<<40, 1<<40)))
	}
	was := copyCandles(candles)
	got := market.GetMinInterval(candles)
	sym.Assert(sameCandles(candles, was), "min-candles-unchanged")
	if n < 2 {
		sym.Assert(got == 0, "no-distance")
		return
	}
	all, some := true, false
	for i := 1; i < n; i++ {
		d := was[i].Time - was[i-1].Time
		if d < 0 {
			d = -d
		}
		all = sym.And(all, int64(got) <= d/60)
		some = sym.Or(some, int64(got) == d/60)
	}
	sym.Assert(all, "no-closer-candles")
	sym.Assert(some, "distance-of-two-candles")
}

// C14MinLong: the smallest distance in long lists with two distances of any
// size at several places.
//
//verify C14 n=40
//verify C14 n=300 unwind=400
func C14MinLong() {
	n := sym.Param("n", 40)
	at := []int{1, 17, n - 2}[sym.Choose("at", 3)]
	d, e := sym.I64("d", -1<<40, 1<<40), sym.I64("e", -1<<40, 1<<40)
	var candles []market.Candle
	now := int64(1600000000)
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			now += d
		case i == at+1:
			now += e
		case i > 0:
			now += int64(3600 + 60*(i%7))
		}
		candles = append(candles, market.Candle{Time: now, Close: float64(i)})
	}
	if d < 0 {
		d = -d
	}
	if e < 0 {
		e = -e
	}
	want := int64(60)
	if d/60 < want {
		want = d / 60
	}
	if e/60 < want {
		want = e / 60
	}
	sym.Assert(int64(market.GetMinInterval(candles)) == want, "long-smallest-distance")
}
