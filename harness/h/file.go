package h

import (
	"fmt"
	"io/ioutil"
	"strings"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

func someFileCandles(name string, n int) []market.Candle {
	var candles []market.Candle
	for i := 0; i < n; i++ {
		if few := sym.Param("few", 0); few > 0 && i%few != 1 {
			candles = append(candles, market.Candle{Time: int64(60 * i), Open: float64(i%13) + 0.25, High: float64(i%13) + 2, Low: float64(i % 7), Close: float64(i%11) + 0.5, Volume: float64(i)})
			continue
		}
		candles = append(candles, anyCandle(sym.N(name, i), sym.I64(sym.N(name+".time", i), -1<<62, 1<<62)))
	}
	return candles
}

// C15RoundTrip: every list of candles, over any earlier content of the file.
//
//verify C15 n=3
//verify C15 n=8
//verify C15 exact=40
//verify C15 exact=300 few=120 unwind=400
func C15RoundTrip() {
	n := sym.Param("exact", 0)
	if n == 0 {
		n = sym.Choose("n", sym.Param("n", 3)+1)
	}
	path := sym.Path("candles")
	if sym.Choose("exists", 2) == 1 {
		old := someFileCandles("old", 2)
		err := market.SaveCandlesToFile(&old, path)
		sym.Assert(err == nil, "old-saved")
	}
	candles := someFileCandles("c", n)
	was := copyCandles(candles)
	err := market.SaveCandlesToFile(&candles, path)
	sym.Assert(err == nil, "saved")
	sym.Assert(sameCandles(candles, was), "saving-changes-nothing")
	got, err := market.LoadCandlesFromFile(path)
	sym.Assert(err == nil, "loaded")
	sym.Assert(sameCandles(got, was), "loaded-as-saved")
	again, err := market.LoadCandlesFromFile(path)
	sym.Assert(sym.And(err == nil, sameCandles(again, was)), "loading-keeps-the-file")
}

// C15Last: a file whose last line has no line break.
//
//verify C15
func C15Last() {
	content := "{1 2 3 4 5 6}\n{7 " + sym.Text("open", 2, '1', '9') + " 3 4 5 " + sym.Text("volume", 2, '1', '9') + "}"
	path := sym.Path("candles")
	werr := ioutil.WriteFile(path, []byte(content), 0644)
	sym.Assume(werr == nil)
	got, err := market.LoadCandlesFromFile(path)
	sym.Assert(err == nil && len(got) == 2, "last-line-loaded")
	sym.Assert(sym.And(got[0] == market.Candle{Time: 1, Open: 2, High: 3, Low: 4, Close: 5, Volume: 6}, got[1].Time == 7, got[1].Close == 5), "last-line-as-written")
}

// C16Faults: files that cannot be written or read.
//
//verify C16
func C16Faults() {
	candles := someFileCandles("c", sym.Choose("n", 4))
	switch sym.Choose("fault", 6) {
	case 0:
		err := market.SaveCandlesToFile(&candles, sym.Path("!nodir/candles"))
		sym.Assert(err != nil, "missing-directory-reported")
	case 1:
		err := market.SaveCandlesToFile(&candles, sym.Path("!dir"))
		sym.Assert(err != nil, "saving-to-directory-reported")
	case 2:
		sym.Assume(len(candles) > 0)
		err := market.SaveCandlesToFile(&candles, sym.Path("!full"))
		sym.Assert(err != nil, "full-device-reported")
	case 3:
		got, err := market.LoadCandlesFromFile(sym.Path("missing"))
		sym.Assert(sym.And(err != nil, got == nil), "missing-file-reported")
	case 4:
		got, err := market.LoadCandlesFromFile(sym.Path("!dir"))
		sym.Assert(sym.And(err != nil, got == nil), "loading-directory-reported")
	case 5:
		got, err := market.LoadCandlesFromFile(sym.Path("!nodir/candles"))
		sym.Assert(sym.And(err != nil, got == nil), "loading-missing-directory-reported")
	}
}

// C16Malformed: a file of candles with one damaged line anywhere.
//
//verify C16 n=2
//verify C16 n=4
func C16Malformed() {
	n := sym.Param("n", 2)
	bad := sym.Choose("bad", n)
	var lines []string
	for i := 0; i < n; i++ {
		fields := []string{fmt.Sprint(sym.I64(sym.N("time", i), 0, 4000000000))}
		for k := 0; k < 5; k++ {
			fields = append(fields, fmt.Sprint(sym.F64(sym.N(sym.N("f", i)+".", k), 0, 1e6)))
		}
		if i != bad {
			lines = append(lines, "{"+strings.Join(fields, " ")+"}")
			continue
		}
		switch sym.Choose("damage", 6) {
		case 0: // a field is missing
			k := sym.Choose("field", 6)
			fields = append(fields[:k], fields[k+1:]...)
		case 1: // a field too many
			fields = append(fields, "1")
		case 2: // a field is no number
			fields[sym.Choose("field", 6)] = sym.Text("text", 1+sym.Choose("len", 2), 'a', 'z')
		case 3: // a field is empty
			fields[sym.Choose("field", 6)] = ""
		case 4: // the time is no whole number
			fields[0] = "1.5"
		case 5: // an empty or cut line
			lines = append(lines, sym.Text("cut", sym.Choose("cutlen", 3), '0', '9'))
			continue
		}
		lines = append(lines, "{"+strings.Join(fields, " ")+"}")
	}
	path := sym.Path("candles")
	werr := ioutil.WriteFile(path, []byte(strings.Join(lines, "\n")+"\n"), 0644)
	sym.Assume(werr == nil)
	got, err := market.LoadCandlesFromFile(path)
	sym.Assert(sym.And(err != nil, got == nil), "malformed-line-reported")
}

// C16Cut: a file cut off within its last line, or a line in other brackets.
//
//verify C16
func C16Cut() {
	good := "{1 2 3 4 5 6}\n"
	line := "{" + sym.Text("time", 3, '1', '9')
	for k := 0; k < 5; k++ {
		line += " " + sym.Text(sym.N("f", k), 2, '1', '9')
	}
	line += "}"
	content := good + line
	switch sym.Choose("damage", 3) {
	case 0:
		content = content[:len(good)+1+sym.Choose("cut", len(line)-1)]
	case 1:
		first := sym.Text("first", 1, 32, 126)
		sym.Assume(first != "{")
		content = good + first + line[1:] + "\n"
	case 2:
		last := sym.Text("last", 1, 32, 126)
		sym.Assume(last != "}")
		content = good + line[:len(line)-1] + last + "\n"
	}
	path := sym.Path("candles")
	werr := ioutil.WriteFile(path, []byte(content), 0644)
	sym.Assume(werr == nil)
	got, err := market.LoadCandlesFromFile(path)
	sym.Assert(sym.And(err != nil, got == nil), "cut-line-reported")
}

// C16Long: a line longer than the reader takes.
//
//verify C16
func C16Long() {
	path := sym.Path("candles")
	line := "{" + fmt.Sprint(sym.I64("time", 0, 4000000000)) + " 1 2 3 4 5" + strings.Repeat("0", 70000) + "}\n"
	werr := ioutil.WriteFile(path, []byte("{1 1 2 3 4 5}\n"+line), 0644)
	sym.Assume(werr == nil)
	got, err := market.LoadCandlesFromFile(path)
	sym.Assert(sym.Or(err != nil, len(got) == 2), "long-line-not-dropped")
}
