package h

import (
	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// The published words, as they are stored and written as JSON.

// C29Names: the named values are the published words.
//
//verify C29
func C29Names() {
	sym.Assert(market.BuyAction == "buy" && market.SellAction == "sell", "actions")
	sym.Assert(market.MarketOrder == "market" && market.ClosePosition == "close_position" && market.LimitOrder == "limit" && market.TakeProfit == "take_profit" && market.StopLoss == "stop_loss", "order-types")
	sym.Assert(market.FulfilledOrder == "fulfilled" && market.PartialyFilledOrder == "partial_fill" && market.UnfilledOrder == "unfilled" && market.CanceledOrder == "canceled", "statuses")
	sym.Assert(market.LongPosition == "long" && market.ShortPosition == "short", "position-types")
	sym.Assert(indicators.FractalUp == "up" && indicators.FractalDown == "down", "fractal-types")
}

// C29Trade: the fee of a trade with any word as action.
//
//verify C29
func C29Trade() {
	action := anyWord("action", 3, 4, 5)
	price, quantity, cost := sym.F64("price", 0, 1e9), sym.F64("quantity", 0, 1e9), sym.F64("cost", 0, 1e18)
	t := market.NewTrade("t", anyTime("time"), market.ActionType(action), "market", fixedPair, price, quantity, cost)
	sym.Assert(string(t.Action) == action, "action-kept")
	value := sym.Mul(price, quantity)
	money := sym.Add(value, cost)
	if action == "buy" {
		sym.Assert(near(sym.Add(value, t.Fee), cost, money), "bought")
	} else if action == "sell" {
		sym.Assert(near(sym.Sub(value, t.Fee), cost, money), "sold")
	}
}

// C29Position: a position opened and changed by trades with any words.
//
//verify C29
func C29Position() {
	open, then := anyWord("open", 3, 4), anyWord("then", 3, 4)
	first := &market.Trade{ID: "first", ExecutionTime: anyTime("first.time"), Action: market.ActionType(open), Pair: fixedPair, Price: sym.F64("first.price", 1, 1e6), Quantity: 4}
	p := market.NewPosition(first)
	current := sym.F64("current", 1, 1e6)
	gain := sym.Mul(4, sym.Sub(current, first.Price))
	scale := sym.Mul(4, sym.Add(current, first.Price))
	switch {
	case open == "buy":
		sym.Assert(p.Type == "long", "bought-is-long")
		sym.Assert(near(p.UnrealizedProfit(current), gain, scale), "long-gains")
	case open == "sell":
		sym.Assert(p.Type == "short", "sold-is-short")
		sym.Assert(near(p.UnrealizedProfit(current), sym.Sub(0, gain), scale), "short-gains")
	default:
		sym.Assert(p.Type != "long" && p.Type != "short", "other-word-is-neither")
		return
	}
	was := *p
	was.Trades = append([]string{}, p.Trades...)
	err := p.Modify(&market.Trade{ID: "then", ExecutionTime: anyTime("then.time"), Action: market.ActionType(then), Pair: fixedPair, Price: sym.F64("then.price", 1, 1e6), Quantity: 1})
	switch {
	case then == open:
		sym.Assert(sym.And(err == nil, p.Quantity == 5, p.Open), "same-word-increases")
	case then == "buy" || then == "sell":
		sym.Assert(sym.And(err == nil, p.Quantity == 3, p.Open), "opposite-word-decreases")
	default:
		sym.Assert(err != nil && code(err) == "invalid", "other-word-invalid")
		sym.Assert(samePosition(p, &was), "other-word-changes-nothing")
	}
}

// C29Order: an order with any word as status.
//
//verify C29
func C29Order() {
	status := anyWord("status", 6, 8, 9, 12)
	o := &market.Order{ID: "o", Status: market.OrderStatus(status)}
	sym.Assert(sym.Iff(o.IsOpen(), sym.And(status != "fulfilled", status != "canceled")), "open-until-fulfilled-or-canceled")
	sym.Assert(string(o.Status) == status, "status-kept")
}

// C29Request: requests with any word as type.
//
//verify C29
func C29Request() {
	kind := anyWord("type", 5, 6, 9)
	sym.Assume(kind != "")
	price, current := sym.F64("price", 1, 1e6), sym.F64("current", 1, 1e6)
	if sym.Choose("unpriced", 2) == 1 {
		r, err := market.NewOrderRequest(fixedPair, "buy", market.OrderType(kind), 2, 0, 0)
		sym.Assert(sym.Iff(err != nil, kind == "limit"), "only-limit-needs-a-price")
		sym.Assert(sym.Iff(r == nil, kind == "limit"), "only-limit-rejected")
		return
	}
	r, err := market.NewOrderRequest(fixedPair, "buy", market.OrderType(kind), 2, price, 0)
	sym.Assert(err == nil, "priced-accepted")
	full, err := r.CalculateFields(current)
	sym.Assert(err == nil, "completed")
	if kind == "market" {
		sym.Assert(near(full.Total, sym.Mul(2, current), sym.Mul(2, current)), "market-at-current-price")
	} else {
		sym.Assert(near(full.Total, sym.Mul(2, price), sym.Mul(2, price)), "others-at-own-price")
	}
}

// C29Fractal: the fractals of a peak and of a valley.
//
//verify C29
func C29Fractal() {
	var peak, valley []market.Candle
	for i := 0; i < 5; i++ {
		low := 100 + 10*i
		if i > 2 {
			low = 140 - 10*i
		}
		h := sym.F64(sym.N("height", i), float64(low), float64(low+5))
		peak = append(peak, market.Candle{Time: int64(60 * i), High: h, Low: float64(50 + i)})
		valley = append(valley, market.Candle{Time: int64(60 * i), High: float64(500 + i), Low: -h})
	}
	found := indicators.WilliamFractals(peak)
	sym.Assert(len(found) == 1 && found[0].Type == "up" && found[0].Time == 120, "peak-is-up")
	found = indicators.WilliamFractals(valley)
	sym.Assert(len(found) == 1 && found[0].Type == "down" && found[0].Time == 120, "valley-is-down")
}
