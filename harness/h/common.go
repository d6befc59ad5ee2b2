// Package h holds the property harnesses.
package h

import (
	"time"

	"github.com/vanclief/ez"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/zzverif/sym"
)

// code is the error code of err, through any wrapping.
func code(err error) string {
	for err != nil {
		e, ok := err.(*ez.Error)
		if !ok {
			return "other"
		}
		if e.Code != "" {
			return e.Code
		}
		err = e.Err
	}
	return ""
}

// near reports whether two amounts are equal up to rounding, relative to the
// magnitude of what they were computed from.
func near(a, b, magnitude float64) bool { return sym.Near(a, b, sym.Add(sym.Mul(1e-11, magnitude), 1e-200)) }

func abs(a float64) float64 { return sym.IteF(a < 0, sym.Sub(0, a), a) }

// anyRows are rows with any prices and volumes, at least the given one.
func anyRows(name string, n int, least float64) []market.OrderBookRow {
	rows := make([]market.OrderBookRow, n)
	for i := range rows {
		rows[i].Price = sym.F64(sym.N(name+".p", i), -1e6, 1e9)
		rows[i].Volume = sym.F64(sym.N(name+".v", i), least, 1e9)
		rows[i].AccumVolume = sym.F64(sym.N(name+".a", i), 0, 10)
	}
	return rows
}

// askRows are rows in ascending order of price without repeated prices.
func askRows(name string, n int) []market.OrderBookRow {
	rows := anyRows(name, n, 1e-9)
	for i := 1; i < n; i++ {
		sym.Assume(rows[i-1].Price < rows[i].Price)
	}
	return rows
}

// bidRows are rows in descending order of price without repeated prices.
func bidRows(name string, n int) []market.OrderBookRow {
	rows := anyRows(name, n, 1e-9)
	for i := 1; i < n; i++ {
		sym.Assume(rows[i-1].Price > rows[i].Price)
	}
	return rows
}

// uncrossed assumes that the best bid is below the best ask.
func uncrossed(asks, bids []market.OrderBookRow) {
	if len(asks) > 0 && len(bids) > 0 {
		sym.Assume(bids[0].Price < asks[0].Price)
	}
}

// copyRows is an independent copy of rows.
func copyRows(rows []market.OrderBookRow) []market.OrderBookRow {
	c := make([]market.OrderBookRow, len(rows))
	copy(c, rows)
	return c
}

// sameLevels reports whether two sides have the same prices and volumes.
func sameLevels(a, b []market.OrderBookRow) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = sym.And(same, a[i].Price == b[i].Price, a[i].Volume == b[i].Volume)
	}
	return same
}

// sameRows reports whether two sides are identical.
func sameRows(a, b []market.OrderBookRow) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = sym.And(same, a[i].Price == b[i].Price, a[i].Volume == b[i].Volume, a[i].AccumVolume == b[i].AccumVolume)
	}
	return same
}

// accumulated reports whether the accumulated volumes are the running sums.
func accumulated(rows []market.OrderBookRow) bool {
	ok := true
	sum := 0.0
	for i := range rows {
		sum = sym.Add(sum, rows[i].Volume)
		ok = sym.And(ok, near(rows[i].AccumVolume, sum, sum))
	}
	return ok
}

// anyWord is any text: one taken as a whole, or the printable characters of one
// of the given lengths, which can be looked at one by one.
func anyWord(name string, lengths ...int) string {
	k := sym.Choose(name+".form", len(lengths)+1)
	if k == len(lengths) {
		return sym.Str(name)
	}
	return sym.Text(sym.N(name+".text", k), lengths[k], 32, 126)
}

func anyPair(name string) market.Pair {
	return market.Pair{
		Base:  market.Asset{Symbol: sym.Str(name + ".base"), Name: sym.Str(name + ".basename"), AltSymbol: sym.Str(name + ".basealt")},
		Quote: market.Asset{Symbol: sym.Str(name + ".quote"), Name: sym.Str(name + ".quotename"), AltSymbol: sym.Str(name + ".quotealt")},
	}
}

var fixedPair = market.Pair{Base: market.Asset{Symbol: "BTC"}, Quote: market.Asset{Symbol: "USD"}}

func anyAction(name string) market.ActionType {
	if sym.Bool(name) {
		return market.BuyAction
	}
	return market.SellAction
}

func anyTime(name string) time.Time {
	return time.Unix(sym.I64(name, 0, 4000000000), 0)
}

func opposite(a market.ActionType) market.ActionType {
	if a == market.BuyAction {
		return market.SellAction
	}
	return market.BuyAction
}

// anyCandle is a candle of the given time with any prices and volume.
func anyCandle(name string, t int64) market.Candle {
	return market.Candle{
		Time:   t,
		Open:   sym.F64(name+".open", -1e6, 1e6),
		High:   sym.F64(name+".high", -1e6, 1e6),
		Low:    sym.F64(name+".low", -1e6, 1e6),
		Close:  sym.F64(name+".close", -1e6, 1e6),
		Volume: sym.F64(name+".volume", 0, 1e6),
	}
}

func sameCandles(a, b []market.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = sym.And(same, a[i] == b[i])
	}
	return same
}

func copyCandles(a []market.Candle) []market.Candle {
	c := make([]market.Candle, len(a))
	copy(c, a)
	return c
}

func sameTrades(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = sym.And(same, a[i] == b[i])
	}
	return same
}

func samePosition(a, b *market.Position) bool {
	return sym.And(a.ID == b.ID, a.Type == b.Type, a.Pair == b.Pair, a.Open == b.Open, a.TakeProfit == b.TakeProfit, a.StopLoss == b.StopLoss,
		a.OpenPrice == b.OpenPrice, a.ClosePrice == b.ClosePrice, a.Quantity == b.Quantity, a.Profit == b.Profit,
		a.OpenTime.Equal(b.OpenTime), a.CloseTime.Equal(b.CloseTime), sameTrades(a.Trades, b.Trades),
		a.ExecutionID == b.ExecutionID, a.Data == b.Data)
}

func anyTrade(n string) market.Trade {
	return market.Trade{
		ID: sym.Str(n + ".id"), ExecutionTime: anyTime(n + ".time"), Action: market.ActionType(sym.Str(n + ".action")), OrderType: market.OrderType(sym.Str(n + ".type")),
		Pair: anyPair(n + ".pair"), Price: sym.F64(n+".price", -1e9, 1e9), Quantity: sym.F64(n+".quantity", -1e9, 1e9), Fee: sym.F64(n+".fee", -1e9, 1e9), Cost: sym.F64(n+".cost", -1e9, 1e9), ExecutionID: sym.Str(n + ".execution"),
	}
}

func anyIDs(n string) []string {
	var out []string
	for i := 0; i < sym.Choose(n, 3); i++ {
		out = append(out, sym.Str(sym.N(n+".", i)))
	}
	return out
}

func anyOrder(n string) market.Order {
	pair := anyPair(n + ".pair")
	return market.Order{
		ID: sym.Str(n + ".id"), Action: market.ActionType(sym.Str(n + ".action")), Type: market.OrderType(sym.Str(n + ".type")), Pair: &pair,
		Price: sym.F64(n+".price", -1e9, 1e9), Volume: sym.F64(n+".volume", -1e9, 1e9), ExecutedVolume: sym.F64(n+".executed", -1e9, 1e9), Fee: sym.F64(n+".fee", -1e9, 1e9), Cost: sym.F64(n+".cost", -1e9, 1e9),
		Status: market.OrderStatus(anyWord(n+".status", 8, 9)), OpenTime: anyTime(n + ".open"), CloseTime: anyTime(n + ".close"), Trades: anyIDs(n + ".trades"),
		TakeProfit: sym.F64(n+".tp", -1e9, 1e9), StopLoss: sym.F64(n+".sl", -1e9, 1e9), PositionID: sym.Str(n + ".position"), ExecutionID: sym.Str(n + ".execution"),
	}
}

func anyPosition(n string) market.Position {
	return market.Position{
		ID: sym.Str(n + ".id"), Type: market.PositionType(sym.Str(n + ".type")), Pair: anyPair(n + ".pair"), Open: sym.Bool(n + ".isopen"),
		TakeProfit: market.PositionCloseOrder{Price: sym.F64(n+".tp", -1e9, 1e9), OrderID: sym.Str(n + ".tpid")}, StopLoss: market.PositionCloseOrder{Price: sym.F64(n+".sl", -1e9, 1e9), OrderID: sym.Str(n + ".slid")},
		OpenPrice: sym.F64(n+".openprice", -1e9, 1e9), ClosePrice: sym.F64(n+".closeprice", -1e9, 1e9), Quantity: sym.F64(n+".quantity", -1e9, 1e9), Profit: sym.F64(n+".profit", -1e6, 1e6),
		OpenTime: anyTime(n + ".open"), CloseTime: anyTime(n + ".close"), Trades: anyIDs(n + ".trades"), ExecutionID: sym.Str(n + ".execution"), Data: sym.Str(n + ".data"),
	}
}

func anyAnnotation(n string) strategy.Annotation {
	return strategy.Annotation{ID: sym.Str(n + ".id"), Time: sym.I64(n+".time", -1<<40, 1<<40), CreationTime: sym.I64(n+".ctime", -1<<40, 1<<40), Price: sym.F64(n+".price", -1e9, 1e9), ExecutionID: sym.Str(n + ".execution"), Label: sym.Str(n + ".label"), Tooltip: sym.Str(n + ".tooltip")}
}

func sameTrade(a, b *market.Trade) bool {
	return sym.And(a.ID == b.ID, a.ExecutionTime.Equal(b.ExecutionTime), a.Action == b.Action, a.OrderType == b.OrderType, a.Pair == b.Pair, a.Price == b.Price, a.Quantity == b.Quantity, a.Fee == b.Fee, a.Cost == b.Cost, a.ExecutionID == b.ExecutionID)
}

func sameOrder(a, b *market.Order) bool {
	pairs := a.Pair == b.Pair
	if a.Pair != nil && b.Pair != nil {
		pairs = *a.Pair == *b.Pair
	}
	return sym.And(a.ID == b.ID, a.Action == b.Action, a.Type == b.Type, pairs, a.Price == b.Price, a.Volume == b.Volume, a.ExecutedVolume == b.ExecutedVolume, a.Fee == b.Fee, a.Cost == b.Cost,
		a.Status == b.Status, a.OpenTime.Equal(b.OpenTime), a.CloseTime.Equal(b.CloseTime), sameTrades(a.Trades, b.Trades), a.TakeProfit == b.TakeProfit, a.StopLoss == b.StopLoss, a.PositionID == b.PositionID, a.ExecutionID == b.ExecutionID)
}
