package h

import (
	"fmt"
	"strings"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/zzverif/sym"
)

// C27Print: every record, complete or not, can be printed and shows its texts.
//
//verify C27
func C27Print() {
	letters := func(name string, n int) string { return sym.Text(name, n, 'v', 'z') }
	a, b, c := letters("a", 3), letters("b", 4), letters("c", 5)
	x := sym.F64("x", -1000000, 1000000)
	k := sym.I64("k", 0, 4000000000)
	at := anyTime("t")
	pair := market.Pair{Base: market.Asset{Symbol: a}, Quote: market.Asset{Symbol: b}}
	var s fmt.Stringer
	var names []string
	switch sym.Choose("kind", 25) {
	case 0:
		id := letters("id", sym.Choose("len", 12))
		names = []string{id[:sym.IteI(len(id) > 8, 8, len(id))]}
		s = &market.Position{ID: id, OpenPrice: x, OpenTime: at}
	case 1:
		s = &market.Position{}
	case 2:
		s = &market.Position{ID: "12345678-1234", Pair: pair, Type: market.PositionType(c), OpenTime: at, CloseTime: at, Trades: []string{"t"}}
		names = []string{a, b, c}
	case 3:
		s = &market.Balance{Amount: x}
	case 4:
		s = &market.Balance{Asset: &market.Asset{Name: c, Symbol: a}, Amount: x}
		names = []string{a, c}
	case 5:
		s = &market.Order{ID: a, Status: market.OrderStatus(b), Action: market.ActionType(c), Price: x, OpenTime: at}
		names = []string{a, b, c}
	case 6:
		s = &market.Order{ID: "1", Pair: &pair, Type: market.OrderType(c), CloseTime: at}
		names = []string{a, b, c}
	case 7:
		s = &market.Order{}
	case 8:
		s = &market.Trade{ID: a, OrderType: market.OrderType(b), Action: market.ActionType(c), Price: x, ExecutionTime: at}
		names = []string{a, b, c}
	case 9:
		s = &market.Trade{Pair: pair}
		names = []string{a, b}
	case 10:
		s = &market.Trade{}
	case 11:
		s = &pair
		names = []string{a + "/" + b}
	case 12:
		s = &market.Pair{}
	case 13:
		s = &market.Asset{Symbol: a, Name: c}
		names = []string{a, c}
	case 14:
		s = &market.OrderBook{Time: k, Asks: []market.OrderBookRow{{Price: x}}}
	case 15:
		s = &market.OrderBook{}
	case 16:
		s = &market.OrderRequest{Pair: pair, Quantity: x, Action: market.ActionType(c)}
		names = []string{a, b, c}
	case 17:
		s = &market.OrderRequest{Type: market.OrderType(c)}
		names = []string{c}
	case 18:
		s = &market.AssetsSnapshot{Time: x, Assets: []market.Balance{{Amount: x}}}
	case 19:
		s = &market.PositionCloseOrder{Price: x, OrderID: a}
		names = []string{a}
	case 20:
		s = &strategy.Annotation{ID: a, Label: b, Tooltip: c}
		names = []string{a, b, c}
	case 21:
		s = &strategy.Annotation{ExecutionID: a, Price: x, Time: k}
		names = []string{a}
	case 22:
		s = &strategy.AddAnnotationsAction{Annotations: []strategy.Annotation{{ID: a}, {ID: b, Label: c}}}
		names = []string{a, b, c}
	case 23:
		s = &strategy.AddAnnotationsAction{}
	case 24:
		s = &indicators.WilliamFractal{Price: x, Time: k, Type: indicators.FractalType(a)}
		names = []string{a}
	}
	out := ""
	sym.Assert(!sym.Catch(func() { out = s.String() }), "printable")
	for _, name := range names {
		sym.Assert(strings.Contains(out, name), "texts-shown")
	}
}

// C27Numbers: every number stands after the label of its own field.
//
//verify C27
func C27Numbers() {
	// different enough to tell one from another
	var x [6]float64
	for i := range x {
		x[i] = sym.F64(sym.N("x", i), float64(100*i+1), float64(100*i+99))
	}
	k := sym.I64("k", 0, 4000000000)
	show := func(format string, v float64) string { return fmt.Sprintf(format, v) }
	var s fmt.Stringer
	var want []string
	at := func(t time.Time) string { return fmt.Sprintf("%s", t) }
	t, u := time.Unix(sym.I64("t", 0, 2000000000), 0), time.Unix(sym.I64("u", 2000000001, 4000000000), 0)
	switch sym.Choose("kind", 14) {
	case 0:
		s = &market.Ticker{Time: k, Ask: x[0], Bid: x[1], Last: x[2], Volume: x[3], VWAP: x[4]}
		want = []string{"Time: " + fmt.Sprintf("%d", k), show("Ask: %f", x[0]), show("Bid: %f", x[1]), show("Last: %f", x[2]), show(" Volume: %f", x[3]), show("VWAP: %f", x[4])}
	case 1:
		s = &market.Candle{Time: k, Open: x[0], High: x[1], Low: x[2], Close: x[3], Volume: x[4]}
		want = []string{"Time: " + at(time.Unix(k, 0)), show("Open: %.4f", x[0]), show("High: %.4f", x[1]), show("Low: %.4f", x[2]), show("Close: %.4f", x[3]), show("Volume: %.4f", x[4])}
	case 2:
		s = &market.OrderBookRow{Price: x[0], Volume: x[1], AccumVolume: x[2]}
		want = []string{show("Price: %.3f", x[0]), show(" Volume: %.3f", x[1]), show("AccumVolume: %.3f", x[2])}
	case 3:
		s = &market.BalanceSnapshot{Balance: x[0], Equity: x[1], Margin: x[2], FreeMargin: x[3]}
		want = []string{show("Balance: %f", x[0]), show("Equity: %f", x[1]), show(", Margin: %f", x[2]), show("Free Margin: %f", x[3])}
	case 4:
		s = &market.Order{Price: x[0], Volume: x[1], ExecutedVolume: x[2], Fee: x[3], Cost: x[4], OpenTime: t, CloseTime: u}
		want = []string{show("Price: %.4f", x[0]), show(" Volume: %.4f", x[1]), show("ExecVolume: %.4f", x[2]), show("Fee: $%.4f", x[3]), show("Cost: $%.4f", x[4]), "OT: " + at(t), "CT: " + at(u)}
	case 5:
		s = &market.OrderRequest{Quantity: x[0], Price: x[1], Total: x[2]}
		want = []string{show("Quantity: %.4f", x[0]), show("Price: $%.4f", x[1]), show("Total: $%.4f", x[2])}
	case 6:
		s = &market.Trade{Price: x[0], Quantity: x[1], Fee: x[2], Cost: x[3], ExecutionTime: t}
		want = []string{show("Price: $%.2f", x[0]), show("Quantity: %.4f", x[1]), show("Fee: $%.2f", x[2]), show("Cost: $%.2f", x[3]), "Execution Time: " + at(t)}
	case 7:
		s = &strategy.Annotation{Price: x[0], Time: k, CreationTime: k + 7}
		want = []string{show("Price: %f", x[0]), ", Time: " + fmt.Sprintf("%d", k), "Creation Time: " + fmt.Sprintf("%d", k+7)}
	case 8:
		s = &market.Balance{Amount: x[0]}
		want = []string{show("Amount: %f", x[0])}
	case 9:
		open := sym.Choose("open", 2) == 1
		s = &market.Position{Open: open, OpenPrice: x[0], ClosePrice: x[1], Quantity: x[2], Profit: x[3], OpenTime: t, CloseTime: u, Trades: make([]string, 11)}
		want = []string{show("OpenPrice: %.2f", x[0]), show("ClosePrice: %.2f", x[1]), show("Quantity: %.4f", x[2]), show("Profit: %.2f", x[3]), "OpenTime: " + at(t), "CloseTime: " + at(u), "Trades: 11", fmt.Sprintf("Open: %t", open)}
	case 10:
		s = &market.PositionCloseOrder{Price: x[0], OrderID: "order"}
		want = []string{show("Price: %f", x[0]), "OrderID: order"}
	case 11:
		s = &market.AssetsSnapshot{Time: x[0]}
		want = []string{show("Time: %f", x[0])}
	case 12:
		asks := []market.OrderBookRow{{Price: x[0], Volume: x[1], AccumVolume: x[2]}}
		bids := []market.OrderBookRow{{Price: x[3], Volume: x[4], AccumVolume: x[5]}}
		s = &market.OrderBook{Time: k, Asks: asks, Bids: bids}
		want = []string{fmt.Sprintf("Time: %d", k), fmt.Sprintf("Asks: %v", asks), fmt.Sprintf("Bids: %v", bids)}
	case 13:
		s = &indicators.WilliamFractal{Time: k, Price: x[0], Type: indicators.FractalUp}
		want = []string{fmt.Sprintf("%d %f %v", k, x[0], indicators.FractalUp)}
	}
	out := s.String()
	for _, w := range want {
		sym.Assert(strings.Contains(out, w), "numbers-labelled")
	}
}

// C27Texts: every text stands after the label of its own field.
//
//verify C27
func C27Texts() {
	letters := func(name string, n int) string { return sym.Text(name, n, 'v', 'z') }
	a, b, c, d := letters("a", 3), letters("b", 4), letters("c", 5), letters("d", 6)
	pair := market.Pair{Base: market.Asset{Symbol: "base"}, Quote: market.Asset{Symbol: "quote"}}
	var s fmt.Stringer
	var want []string
	switch sym.Choose("kind", 6) {
	case 0:
		s = &market.Order{ID: a, Action: market.ActionType(b), Type: market.OrderType(c), Status: market.OrderStatus(d), Pair: &pair}
		want = []string{"ID: " + a, "Action: " + b, "Type: " + c, "Status: " + d, "Pair: base/quote"}
	case 1:
		s = &market.Trade{ID: a, Action: market.ActionType(b), OrderType: market.OrderType(c)}
		want = []string{"ID: " + a, "Action: " + b, "Type: " + c}
	case 2:
		s = &market.Position{ID: a, Type: market.PositionType(b), Pair: pair}
		want = []string{"ID: " + a, "Type: " + b, "Pair: base/quote"}
	case 3:
		s = &market.OrderRequest{Action: market.ActionType(a), Type: market.OrderType(b), Pair: pair}
		want = []string{"Action: " + a, "Type: " + b, "Pair: base/quote"}
	case 4:
		s = &strategy.Annotation{ID: a, ExecutionID: b, Label: c, Tooltip: d}
		want = []string{"ID: " + a, "ExecutionID: " + b, "Label: " + c, "Tooltip: " + d}
	case 5:
		s = &market.Asset{Name: a, Symbol: b}
		want = []string{a + ": " + b}
	}
	out := s.String()
	for _, w := range want {
		sym.Assert(strings.Contains(out, w), "texts-labelled")
	}
}

// C27Short: a position shows the first 8 characters of a long identifier and
// no more.
//
//verify C27
func C27Short() {
	id := sym.Text("id", 9+sym.Choose("more", 4), 'a', 'z')
	out := (&market.Position{ID: id, Type: market.LongPosition}).String()
	sym.Assert(strings.Contains(out, "ID: "+id[:8]), "first-characters-shown")
	sym.Assert(!strings.Contains(out, "ID: "+id[:9]), "no-more-characters-shown")
}

// C27Book: a printed book shows the asks from the worst to the best, then the
// bids from the best to the worst.
//
//verify C27
func C27Book() {
	asks, bids := anyRows("ask", sym.Choose("asks", 4), 0), anyRows("bid", sym.Choose("bids", 4), 0)
	ob := &market.OrderBook{Asks: asks, Bids: bids, MaxDepth: 5}
	var want []string
	for i := range asks {
		want = append(want, fmt.Sprint(asks[len(asks)-1-i]))
	}
	for _, r := range bids {
		want = append(want, fmt.Sprint(r))
	}
	// other lines, such as headlines, may stand between the rows
	k := 0
	for _, line := range strings.Split(sym.Capture(ob.Print), "\n") {
		if k < len(want) && line == want[k] {
			k++
		}
	}
	sym.Assert(k == len(want), "book-printed")
}
