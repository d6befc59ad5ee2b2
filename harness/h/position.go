package h

import (
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// aTrade is a trade of the pair with any price, quantity and time.
func aTrade(name string, pair market.Pair, action market.ActionType, id string) *market.Trade {
	return &market.Trade{
		ID:            id,
		ExecutionTime: anyTime(name + ".time"),
		Action:        action,
		OrderType:     market.MarketOrder,
		Pair:          pair,
		Price:         sym.F64(name+".price", -1e6, 1e6),
		Quantity:      sym.F64(name+".quantity", 1e-8, 1e6),
		Fee:           sym.F64(name+".fee", -1e6, 1e6),
		Cost:          sym.F64(name+".cost", -1e6, 1e6),
	}
}

// C07Conserve: every history of trades that keeps the position open.
//
//verify C07 k=1
//verify C07 k=2 real nomerge
//verify C07 k=3 real nomerge
//verify C07 k=4 real nomerge thorough
func C07Conserve() {
	k := sym.Param("k", 2)
	open := anyAction("open")
	first := aTrade("first", fixedPair, open, "first")
	p := market.NewPosition(first)
	sym.Assert(sym.And(p.Quantity == first.Quantity, p.OpenPrice == first.Price), "opened-at-trade")
	quantity := first.Quantity
	money := sym.Mul(first.Price, first.Quantity)
	gross, turnover := quantity, abs(money)
	for i := 0; i < k; i++ {
		name := sym.N("t", i)
		if sym.Choose(name+".add", 2) == 1 {
			t := aTrade(name, fixedPair, open, name)
			err := p.Modify(t)
			sym.Assert(err == nil, "increase-accepted")
			quantity = sym.Add(quantity, t.Quantity)
			money = sym.Add(money, sym.Mul(t.Price, t.Quantity))
			gross = sym.Add(gross, t.Quantity)
			turnover = sym.Add(turnover, sym.Mul(abs(t.Price), t.Quantity))
			sym.Assert(near(p.Quantity, quantity, gross), "increase-adds-quantity")
			sym.Assert(near(sym.Mul(p.OpenPrice, p.Quantity), money, turnover), "increase-adds-money")
		} else {
			t := aTrade(name, fixedPair, opposite(open), name)
			sym.Assume(sym.Sub(quantity, t.Quantity) >= sym.Mul(1e-9, gross))
			err := p.Modify(t)
			sym.Assert(err == nil, "decrease-accepted")
			quantity = sym.Sub(quantity, t.Quantity)
			money = sym.Sub(money, sym.Mul(t.Price, t.Quantity))
			gross = sym.Add(gross, t.Quantity)
			turnover = sym.Add(turnover, sym.Mul(abs(t.Price), t.Quantity))
			sym.Assert(near(p.Quantity, quantity, gross), "decrease-takes-quantity")
			sym.Assert(near(sym.Mul(p.OpenPrice, p.Quantity), money, turnover), "decrease-takes-money")
		}
		sym.Assert(p.Open, "still-open")
	}
}

// C08Close: every history of trades that ends by closing the position.
//
//verify C08 k=0
//verify C08 k=1 real nomerge
//verify C08 k=2 real nomerge
//verify C08 k=3 real nomerge thorough
func C08Close() {
	k := sym.Param("k", 1)
	open := anyAction("open")
	first := aTrade("first", fixedPair, open, "first")
	p := market.NewPosition(first)
	quantity := first.Quantity
	paid := sym.Mul(first.Price, first.Quantity)
	gross, turnover := quantity, abs(paid)
	for i := 0; i < k; i++ {
		name := sym.N("t", i)
		if sym.Choose(name+".add", 2) == 1 {
			t := aTrade(name, fixedPair, open, name)
			p.Modify(t)
			gross = sym.Add(gross, t.Quantity)
			turnover = sym.Add(turnover, sym.Mul(abs(t.Price), t.Quantity))
			quantity = sym.Add(quantity, t.Quantity)
			paid = sym.Add(paid, sym.Mul(t.Price, t.Quantity))
		} else {
			t := aTrade(name, fixedPair, opposite(open), name)
			sym.Assume(sym.Sub(quantity, t.Quantity) >= sym.Mul(1e-9, gross))
			p.Modify(t)
			gross = sym.Add(gross, t.Quantity)
			turnover = sym.Add(turnover, sym.Mul(abs(t.Price), t.Quantity))
			quantity = sym.Sub(quantity, t.Quantity)
			paid = sym.Sub(paid, sym.Mul(t.Price, t.Quantity))
		}
	}
	last := aTrade("last", fixedPair, opposite(open), "last")
	last.Quantity = p.Quantity
	if sym.Choose("excess", 2) == 1 {
		last.Quantity = p.Quantity + sym.F64("last.excess", 1e-9, 0.000099)
	}
	unrealized := p.UnrealizedProfit(last.Price)
	price, held, opened := p.OpenPrice, p.Quantity, p.OpenTime
	err := p.Modify(last)
	sym.Assert(err == nil, "close-accepted")
	sym.Assert(!p.Open, "closed")
	sym.Assert(p.ClosePrice == last.Price, "closed-at-price-of-trade")
	sym.Assert(p.CloseTime.Equal(last.ExecutionTime), "closed-at-time-of-trade")
	sym.Assert(p.Profit == unrealized, "profit-is-the-unrealized-profit")
	sym.Assert(sym.And(p.OpenPrice == price, p.Quantity == held, p.OpenTime.Equal(opened)), "opening-kept")
	got := sym.Sub(sym.Mul(last.Price, quantity), paid)
	if open == market.SellAction {
		got = sym.Sub(0, got)
	}
	sym.Assert(near(p.Profit, got, sym.Add(turnover, sym.Mul(abs(last.Price), gross))), "profit-is-money-received-minus-paid")
}

// C08Unrealized: the profit of an open position at any price.
//
//verify C08
func C08Unrealized() {
	open := anyAction("open")
	first := aTrade("first", fixedPair, open, "first")
	p := market.NewPosition(first)
	was := *p
	current := sym.F64("current", -1e6, 1e6)
	profit := p.UnrealizedProfit(current)
	want := sym.Mul(sym.Sub(current, first.Price), first.Quantity)
	if open == market.SellAction {
		want = sym.Sub(0, want)
	}
	sym.Assert(near(profit, want, abs(want)), "unrealized-profit")
	sym.Assert(samePosition(p, &was), "position-unchanged")
}

// C09Open: the position opened by any trade.
//
//verify C09
func C09Open() {
	open := anyAction("open")
	t := aTrade("first", anyPair("pair"), open, sym.Str("id"))
	p := market.NewPosition(t)
	q := market.NewPosition(t)
	sym.Assert(sym.And(p.ID != "", p.ID != q.ID), "own-id")
	sym.Assert(sym.Iff(p.Type == market.LongPosition, open == market.BuyAction), "long-when-bought")
	sym.Assert(sym.Iff(p.Type == market.ShortPosition, open == market.SellAction), "short-when-sold")
	sym.Assert(sym.And(p.Open, p.Pair == t.Pair, p.OpenPrice == t.Price, p.Quantity == t.Quantity, p.OpenTime.Equal(t.ExecutionTime)), "opened-by-trade")
	sym.Assert(sym.And(p.Profit == 0, p.ClosePrice == 0, p.CloseTime.IsZero()), "nothing-closed")
	sym.Assert(sameTrades(p.Trades, []string{t.ID}), "lists-the-trade")
}

// C09Ledger: every history of trades, accepted or rejected.
//
//verify C09 k=1
//verify C09 k=3 real
//verify C09 k=6 real
//verify C09 k=10 real thorough
func C09Ledger() {
	k := sym.Param("k", 2)
	open := anyAction("open")
	pair := anyPair("pair")
	first := aTrade("first", pair, open, sym.Str("first.id"))
	p := market.NewPosition(first)
	ledger := []string{first.ID}
	for i := 0; i < k; i++ {
		name := sym.N("t", i)
		t := aTrade(name, pair, open, sym.Str(name+".id"))
		was := *p
		was.Trades = append([]string{}, p.Trades...)
		trade := *t
		switch sym.Choose(name+".kind", 4) {
		case 0:
			err := p.Modify(t)
			sym.Assert(err == nil, "increase-accepted")
			ledger = append(ledger, t.ID)
			sym.Assert(sameTrades(p.Trades, ledger), "increase-listed")
		case 1:
			t.Action = opposite(open)
			trade.Action = t.Action
			sym.Assume(t.Quantity < sym.Mul(p.Quantity, 0.999999999))
			err := p.Modify(t)
			sym.Assert(err == nil, "decrease-accepted")
			ledger = append(ledger, t.ID)
			sym.Assert(sameTrades(p.Trades, ledger), "decrease-listed")
		case 2:
			t.Action = opposite(open)
			trade.Action = t.Action
			sym.Assume(t.Quantity > sym.Add(p.Quantity, 0.000101))
			err := p.Modify(t)
			sym.Assert(sym.And(err != nil, code(err) == "invalid"), "larger-than-position-invalid")
			sym.Assert(samePosition(p, &was), "larger-than-position-changes-nothing")
		case 3:
			t.Pair = anyPair(name + ".pair")
			if i == 0 {
				t.Pair.Base.Symbol = anyWord(name+".pair.word", 3)
			}
			t.Action = anyAction(name + ".action")
			trade.Pair, trade.Action = t.Pair, t.Action
			sym.Assume(t.Pair != pair)
			err := p.Modify(t)
			sym.Assert(sym.And(err != nil, code(err) == "invalid"), "other-pair-invalid")
			sym.Assert(samePosition(p, &was), "other-pair-changes-nothing")
		}
		sym.Assert(sym.And(p.Open, p.Type == was.Type, p.ID == was.ID, p.Pair == was.Pair, p.OpenTime.Equal(was.OpenTime), p.Profit == 0, p.ClosePrice == 0), "stays-open")
		sym.Assert(sym.And(*t == trade), "trade-unchanged")
	}
	t := aTrade("last", pair, opposite(open), sym.Str("last.id"))
	t.Quantity = p.Quantity
	err := p.Modify(t)
	sym.Assert(err == nil, "close-accepted")
	sym.Assert(sameTrades(p.Trades, append(ledger, t.ID)), "close-listed")
}

// usedPosition is a position after m fixed trades, with the quantity and money
// it should stand for.
func usedPosition(m int, open market.ActionType) (p *market.Position, ids []string, quantity, money float64) {
	trade := func(i int, action market.ActionType, price, quantity float64) *market.Trade {
		id := sym.N("used", i)
		ids = append(ids, id)
		return &market.Trade{ID: id, ExecutionTime: time.Unix(int64(1600000000+60*i), 0), Action: action, OrderType: market.LimitOrder, Pair: fixedPair, Price: price, Quantity: quantity}
	}
	p = market.NewPosition(trade(0, open, 100, 8))
	quantity, money = 8, 800
	for i := 1; i <= m; i++ {
		price, amount := float64(96+i*5%9), float64(1+i%3)
		if i%4 == 3 {
			// at the opening price, which stays what it was
			price, amount = p.OpenPrice, quantity/2
			sym.Assert(p.Modify(trade(i, opposite(open), price, amount)) == nil, "used-decrease-accepted")
			quantity, money = quantity-amount, money-price*amount
		} else {
			sym.Assert(p.Modify(trade(i, open, price, amount)) == nil, "used-increase-accepted")
			quantity, money = quantity+amount, money+price*amount
		}
		sym.Assert(sym.And(p.Open, near(p.Quantity, quantity, quantity), near(sym.Mul(p.OpenPrice, p.Quantity), money, money)), "used-conserves")
		if m <= 100 || i%25 == 0 {
			sym.Assert(sameTrades(p.Trades, ids), "used-lists-trades")
		}
	}
	return
}

// C09Used: every trade with a position that has had many.
//
//verify C09 m=60 real
//verify C09 m=200 real unwind=300
func C09Used() {
	open := anyAction("open")
	p, ids, quantity, _ := usedPosition(sym.Param("m", 60), open)
	t := aTrade("t", fixedPair, open, sym.Str("id"))
	was := *p
	was.Trades = append([]string{}, p.Trades...)
	switch sym.Choose("kind", 4) {
	case 0:
	case 1:
		t.Action = opposite(open)
		sym.Assume(t.Quantity < sym.Mul(quantity, 0.999))
	case 2:
		t.Action = opposite(open)
		t.Quantity = p.Quantity
	case 3:
		t.Action = opposite(open)
		sym.Assume(t.Quantity > sym.Add(quantity, 0.001))
		err := p.Modify(t)
		sym.Assert(sym.And(err != nil, code(err) == "invalid", samePosition(p, &was)), "used-larger-than-position-invalid")
		return
	}
	sym.Assert(p.Modify(t) == nil, "used-accepted")
	sym.Assert(sym.And(p.ID == was.ID, sameTrades(p.Trades, append(ids, t.ID))), "used-all-listed")
}

// C07Used: every trade with a position that has had many.
//
//verify C07 m=24 real
func C07Used() {
	open := anyAction("open")
	p, _, quantity, money := usedPosition(sym.Param("m", 24), open)
	if sym.Choose("add", 2) == 1 {
		t := aTrade("t", fixedPair, open, "t")
		sym.Assert(p.Modify(t) == nil, "used-accepts-increase")
		quantity, money = sym.Add(quantity, t.Quantity), sym.Add(money, sym.Mul(t.Price, t.Quantity))
	} else {
		t := aTrade("t", fixedPair, opposite(open), "t")
		sym.Assume(t.Quantity <= sym.Mul(0.999, quantity))
		sym.Assert(p.Modify(t) == nil, "used-accepts-decrease")
		quantity, money = sym.Sub(quantity, t.Quantity), sym.Sub(money, sym.Mul(t.Price, t.Quantity))
	}
	sym.Assert(sym.And(p.Open, near(p.Quantity, quantity, 1e6)), "used-quantity")
	sym.Assert(near(sym.Mul(p.OpenPrice, p.Quantity), money, 1e12), "used-money")
}

// C08Used: closing a position that has had many trades at any price.
//
//verify C08 m=24 real
func C08Used() {
	open := anyAction("open")
	p, _, quantity, money := usedPosition(sym.Param("m", 24), open)
	last := aTrade("last", fixedPair, opposite(open), "last")
	last.Quantity = p.Quantity
	unrealized := p.UnrealizedProfit(last.Price)
	sym.Assert(p.Modify(last) == nil, "used-close-accepted")
	sym.Assert(sym.And(!p.Open, p.ClosePrice == last.Price, p.CloseTime.Equal(last.ExecutionTime), p.Profit == unrealized), "used-closed")
	got := sym.Sub(sym.Mul(last.Price, quantity), money)
	if open == market.SellAction {
		got = sym.Sub(0, got)
	}
	sym.Assert(near(p.Profit, got, 1e10), "used-profit")
}

// C08Boundary: closing trades of exactly 0.0001 more than the position, for
// quantities whose difference is exact, at any price.
//
//verify C08
func C08Boundary() {
	open := anyAction("open")
	first := aTrade("first", fixedPair, open, "first")
	first.Quantity = 0.0001
	p := market.NewPosition(first)
	last := aTrade("last", fixedPair, opposite(open), "last")
	last.Quantity = 0.0002
	unrealized := p.UnrealizedProfit(last.Price)
	sym.Assert(p.Modify(last) == nil, "boundary-close-accepted")
	sym.Assert(sym.And(!p.Open, p.ClosePrice == last.Price, p.Quantity == 0.0001, p.Profit == unrealized), "boundary-closed")
}
