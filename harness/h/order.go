package h

import (
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// C10Trade: every trade.
//
//verify C10
func C10Trade() {
	pair := anyPair("pair")
	id, when := sym.Str("id"), anyTime("time")
	action := market.ActionType(anyWord("action", 3, 4))
	kind := market.OrderType(anyWord("type", 5))
	price, quantity, cost := sym.F64("price", -1e9, 1e9), sym.F64("quantity", -1e9, 1e9), sym.F64("cost", -1e18, 1e18)
	t := market.NewTrade(id, when, action, kind, pair, price, quantity, cost)
	sym.Assert(sym.And(t.ID == id, t.Action == action, t.OrderType == kind, t.Pair == pair, t.ExecutionTime.Equal(when)), "fields-kept")
	sym.Assert(sym.And(t.Price == price, t.Quantity == quantity, t.Cost == cost), "amounts-kept")
	value := sym.Mul(price, quantity)
	money := sym.Add(abs(value), abs(cost))
	if action == market.BuyAction {
		sym.Assert(near(sym.Add(value, t.Fee), cost, money), "buy-costs-value-plus-fee")
	} else if action == market.SellAction {
		sym.Assert(near(sym.Sub(value, t.Fee), cost, money), "sell-returns-value-minus-fee")
	}
}

func anyOrderType(name string) market.OrderType {
	switch sym.Choose(name, 6) {
	case 0:
		return market.MarketOrder
	case 1:
		return market.ClosePosition
	case 2:
		return market.LimitOrder
	case 3:
		return market.TakeProfit
	case 4:
		return market.StopLoss
	}
	return market.OrderType(anyWord(name+".other", 1, 5, 6))
}

// anyAmount is zero or any amount of money.
func anyAmount(name string) float64 {
	if sym.Choose(name+".zero", 2) == 0 {
		return 0
	}
	return sym.F64(name, 1e-9, 1e9)
}

// C11Request: every order request.
//
//verify C11
func C11Request() {
	pair := anyPair("pair")
	pair.Base.Symbol = anyWord("base", 1, 3)
	action := market.ActionType(anyWord("action", 1, 4))
	kind := anyOrderType("type")
	quantity, price, total := sym.F64("quantity", -1e18, 1e18), sym.F64("price", -1e18, 1e18), sym.F64("total", -1e18, 1e18)
	r, err := market.NewOrderRequest(pair, action, kind, quantity, price, total)
	valid := sym.And(pair.Base.Symbol != "", action != "", kind != "", sym.Or(kind != market.LimitOrder, price != 0), sym.Or(quantity != 0, total != 0))
	if valid {
		sym.Assert(sym.And(err == nil, r != nil), "valid-accepted")
		sym.Assert(sym.And(r.Pair == pair, r.Action == action, r.Type == kind, r.Quantity == quantity, r.Price == price, r.Total == total, r.TakeProfit == 0, r.StopLoss == 0), "fields-kept")
	} else {
		sym.Assert(sym.And(err != nil, r == nil), "invalid-rejected")
		sym.Assert(code(err) == "invalid", "invalid-code")
	}
}

// C12Fields: the missing amount of every order request.
//
//verify C12
func C12Fields() {
	r := &market.OrderRequest{
		Pair: anyPair("pair"), Action: anyAction("action"), Type: anyOrderType("type"),
		Price: anyAmount("price"), TakeProfit: sym.F64("takeprofit", 0, 1e9), StopLoss: sym.F64("stoploss", 0, 1e9),
		Quantity: anyAmount("quantity"), Total: anyAmount("total"),
	}
	sym.Assume(sym.Or(r.Type == market.MarketOrder, r.Price != 0))
	was := *r
	current := sym.F64("current", 1e-9, 1e9)
	full, err := r.CalculateFields(current)
	sym.Assert(*r == was, "request-unchanged")
	if (was.Quantity == 0) == (was.Total == 0) {
		sym.Assert(sym.And(err != nil, full == nil), "ambiguous-rejected")
		sym.Assert(code(err) == "invalid", "ambiguous-invalid")
		return
	}
	sym.Assert(sym.And(err == nil, full != nil), "calculated")
	sym.Assert(sym.And(full.Pair == was.Pair, full.Action == was.Action, full.Type == was.Type, full.Price == was.Price, full.TakeProfit == was.TakeProfit, full.StopLoss == was.StopLoss), "other-fields-kept")
	price := sym.IteF(was.Type == market.MarketOrder, current, was.Price)
	if was.Quantity != 0 {
		sym.Assert(full.Quantity == was.Quantity, "quantity-kept")
		sym.Assert(near(full.Total, sym.Mul(was.Quantity, price), sym.Mul(was.Quantity, price)), "total-is-quantity-times-price")
	} else {
		sym.Assert(full.Total == was.Total, "total-kept")
		sym.Assert(near(sym.Mul(full.Quantity, price), was.Total, was.Total), "quantity-times-price-is-total")
	}
}
