package h

import (
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/zzverif/sym"
)

func anyNumber(name string) float64 { return sym.F64(name, -1e6, 1e6) }

func createOrders(name string, n int) []strategy.CreateOrderAction {
	var out []strategy.CreateOrderAction
	for i := 0; i < n; i++ {
		a := sym.N(name, i)
		out = append(out, strategy.CreateOrderAction{
			ID: sym.Str(a + ".id"), Symbol: sym.Str(a + ".symbol"), ActionType: market.ActionType(sym.Str(a + ".action")), OrderType: market.OrderType(sym.Str(a + ".type")),
			Price: anyNumber(a + ".price"), Volume: anyNumber(a + ".volume"), StopLoss: anyNumber(a + ".sl"), TakeProfit: anyNumber(a + ".tp"), Slippage: anyNumber(a + ".slippage"),
		})
	}
	return out
}

// C22Create: every two batches of orders to create.
//
//verify C22 n=3
//verify C22 n=4 thorough
func C22Create() {
	n := sym.Param("n", 2)
	first, second := createOrders("a", sym.Choose("first", n+1)), createOrders("b", sym.Choose("second", n+1))
	all := append(append([]strategy.CreateOrderAction{}, first...), second...)
	was := append([]strategy.CreateOrderAction{}, all...)
	var a strategy.Actions
	a.AddCreateOrders(first...)
	a.AddCreateOrders(second...)
	sym.Assert(len(a.CreateOrders) == len(all), "create-all-kept")
	for i := range all {
		given := first
		k := i
		if i >= len(first) {
			given, k = second, i-len(first)
		}
		sym.Assert(given[k] == was[i], "create-caller-unchanged")
		found := 0
		for key, x := range a.CreateOrders {
			sym.Assert(sym.And(key == x.ID, key != ""), "create-filed-under-id")
			y := was[i]
			y.ID = x.ID
			if x == y {
				found++
			}
		}
		sym.Assert(found >= 1, "create-fields-kept")
	}
	sym.Assert(len(a.UpdateOrders)+len(a.CancelOrders)+len(a.UpdatePositions)+len(a.ClosePositions)+len(a.Annotations) == 0, "create-nothing-else")
}

// C22Update: every two batches of order updates.
//
//verify C22 n=3
func C22Update() {
	n := sym.Param("n", 2)
	make := func(name string, n int) (out []strategy.UpdateOrderAction) {
		for i := 0; i < n; i++ {
			a := sym.N(name, i)
			out = append(out, strategy.UpdateOrderAction{ID: sym.Str(a + ".id"), OrderID: sym.Str(a + ".order"), Price: anyNumber(a + ".price"), Volume: anyNumber(a + ".volume"), StopLoss: anyNumber(a + ".sl"), TakeProfit: anyNumber(a + ".tp"), Slippage: anyNumber(a + ".slippage")})
		}
		return
	}
	first, second := make("a", sym.Choose("first", n+1)), make("b", sym.Choose("second", n+1))
	was := append(append([]strategy.UpdateOrderAction{}, first...), second...)
	var a strategy.Actions
	a.AddUpdateOrders(first...)
	a.AddUpdateOrders(second...)
	sym.Assert(len(a.UpdateOrders) == len(was), "update-all-kept")
	for i := range was {
		if i < len(first) {
			sym.Assert(first[i] == was[i], "update-caller-unchanged")
		} else {
			sym.Assert(second[i-len(first)] == was[i], "update-caller-unchanged")
		}
		found := 0
		for key, x := range a.UpdateOrders {
			sym.Assert(sym.And(key == x.ID, key != ""), "update-filed-under-id")
			y := was[i]
			y.ID = x.ID
			if x == y {
				found++
			}
		}
		sym.Assert(found >= 1, "update-fields-kept")
	}
	sym.Assert(len(a.CreateOrders)+len(a.CancelOrders)+len(a.UpdatePositions)+len(a.ClosePositions)+len(a.Annotations) == 0, "update-nothing-else")
}

// C22Cancel: every two batches of cancellations.
//
//verify C22 n=3
func C22Cancel() {
	n := sym.Param("n", 2)
	make := func(name string, n int) (out []strategy.CancelOrderAction) {
		for i := 0; i < n; i++ {
			a := sym.N(name, i)
			out = append(out, strategy.CancelOrderAction{ID: sym.Str(a + ".id"), OrderID: sym.Str(a + ".order")})
		}
		return
	}
	first, second := make("a", sym.Choose("first", n+1)), make("b", sym.Choose("second", n+1))
	was := append(append([]strategy.CancelOrderAction{}, first...), second...)
	var a strategy.Actions
	a.AddCancelOrders(first...)
	a.AddCancelOrders(second...)
	sym.Assert(len(a.CancelOrders) == len(was), "cancel-all-kept")
	for i := range was {
		if i < len(first) {
			sym.Assert(first[i] == was[i], "cancel-caller-unchanged")
		} else {
			sym.Assert(second[i-len(first)] == was[i], "cancel-caller-unchanged")
		}
		found := 0
		for key, x := range a.CancelOrders {
			sym.Assert(sym.And(key == x.ID, key != ""), "cancel-filed-under-id")
			if x.OrderID == was[i].OrderID {
				found++
			}
		}
		sym.Assert(found >= 1, "cancel-fields-kept")
	}
	sym.Assert(len(a.CreateOrders)+len(a.UpdateOrders)+len(a.UpdatePositions)+len(a.ClosePositions)+len(a.Annotations) == 0, "cancel-nothing-else")
}

// C22Positions: every two batches of position updates.
//
//verify C22 n=3
func C22Positions() {
	n := sym.Param("n", 2)
	make := func(name string, n int) (out []strategy.UpdatePositionAction) {
		for i := 0; i < n; i++ {
			a := sym.N(name, i)
			out = append(out, strategy.UpdatePositionAction{ID: sym.Str(a + ".id"), PositionID: sym.Str(a + ".position"), ActionType: market.ActionType(sym.Str(a + ".action")), OrderType: market.OrderType(sym.Str(a + ".type")), Volume: anyNumber(a + ".volume"), StopLoss: anyNumber(a + ".sl"), TakeProfit: anyNumber(a + ".tp"), Slippage: anyNumber(a + ".slippage")})
		}
		return
	}
	first, second := make("a", sym.Choose("first", n+1)), make("b", sym.Choose("second", n+1))
	was := append(append([]strategy.UpdatePositionAction{}, first...), second...)
	var a strategy.Actions
	a.AddUpdatePositions(first...)
	a.AddUpdatePositions(second...)
	sym.Assert(len(a.UpdatePositions) == len(was), "positions-all-kept")
	for i := range was {
		if i < len(first) {
			sym.Assert(first[i] == was[i], "positions-caller-unchanged")
		} else {
			sym.Assert(second[i-len(first)] == was[i], "positions-caller-unchanged")
		}
		found := 0
		for key, x := range a.UpdatePositions {
			sym.Assert(sym.And(key == x.ID, key != ""), "positions-filed-under-id")
			y := was[i]
			y.ID = x.ID
			if x == y {
				found++
			}
		}
		sym.Assert(found >= 1, "positions-fields-kept")
	}
	sym.Assert(len(a.CreateOrders)+len(a.UpdateOrders)+len(a.CancelOrders)+len(a.ClosePositions)+len(a.Annotations) == 0, "positions-nothing-else")
}

// C22Close: every two batches of positions to close.
//
//verify C22 n=3
func C22Close() {
	n := sym.Param("n", 2)
	make := func(name string, n int) (out []strategy.ClosePositionAction) {
		for i := 0; i < n; i++ {
			a := sym.N(name, i)
			out = append(out, strategy.ClosePositionAction{ID: sym.Str(a + ".id"), PositionID: sym.Str(a + ".position")})
		}
		return
	}
	first, second := make("a", sym.Choose("first", n+1)), make("b", sym.Choose("second", n+1))
	was := append(append([]strategy.ClosePositionAction{}, first...), second...)
	var a strategy.Actions
	a.AddClosePositions(first...)
	a.AddClosePositions(second...)
	sym.Assert(len(a.ClosePositions) == len(was), "close-all-kept")
	for i := range was {
		if i < len(first) {
			sym.Assert(first[i] == was[i], "close-caller-unchanged")
		} else {
			sym.Assert(second[i-len(first)] == was[i], "close-caller-unchanged")
		}
		found := 0
		for key, x := range a.ClosePositions {
			sym.Assert(sym.And(key == x.ID, key != ""), "close-filed-under-id")
			if x.PositionID == was[i].PositionID {
				found++
			}
		}
		sym.Assert(found >= 1, "close-fields-kept")
	}
	sym.Assert(len(a.CreateOrders)+len(a.UpdateOrders)+len(a.CancelOrders)+len(a.UpdatePositions)+len(a.Annotations) == 0, "close-nothing-else")
}

// C22Annotations: every two batches of annotations.
//
//verify C22 n=4
func C22Annotations() {
	n := sym.Param("n", 3)
	make := func(name string, n int) (out []strategy.Annotation) {
		for i := 0; i < n; i++ {
			a := sym.N(name, i)
			out = append(out, strategy.Annotation{ID: sym.Str(a + ".id"), Time: sym.I64(a+".time", 0, 1<<40), CreationTime: sym.I64(a+".ctime", 0, 1<<40), Price: anyNumber(a + ".price"), ExecutionID: sym.Str(a + ".execution"), Label: sym.Str(a + ".label"), Tooltip: sym.Str(a + ".tooltip")})
		}
		return
	}
	// the first batch is the start of a longer list of the caller
	longer, second := make("a", sym.Choose("first", n+1)+1), make("b", sym.Choose("second", n+1))
	first := longer[:len(longer)-1]
	next := longer[len(first)]
	was := append(append([]strategy.Annotation{}, first...), second...)
	var a strategy.Actions
	a.AddAnnotations(first...)
	a.AddAnnotations(second...)
	sym.Assert(longer[len(first)] == next, "annotations-caller-list-unchanged")
	unchanged := true
	for i := range was {
		if i < len(first) {
			unchanged = sym.And(unchanged, first[i] == was[i])
			first[i] = strategy.Annotation{}
		} else {
			unchanged = sym.And(unchanged, second[i-len(first)] == was[i])
			second[i-len(first)] = strategy.Annotation{}
		}
	}
	sym.Assert(unchanged, "annotations-caller-unchanged")
	sym.Assert(len(a.Annotations) == len(was), "annotations-all-kept")
	same := true
	for i := range was {
		same = sym.And(same, a.Annotations[i] == was[i])
	}
	sym.Assert(same, "annotations-in-order")
	sym.Assert(len(a.CreateOrders)+len(a.UpdateOrders)+len(a.CancelOrders)+len(a.UpdatePositions)+len(a.ClosePositions) == 0, "annotations-nothing-else")
}

// C22Annotation: every new annotation.
//
//verify C22
func C22Annotation() {
	t, price, label, tooltip := sym.I64("time", 0, 1<<40), anyNumber("price"), sym.Str("label"), sym.Str("tooltip")
	a := strategy.NewAnnotation(t, price, label, tooltip)
	b := strategy.NewAnnotation(t, price, label, tooltip)
	sym.Assert(sym.And(a.Time == t, a.Price == price, a.Label == label, a.Tooltip == tooltip), "annotation-fields-kept")
	sym.Assert(sym.And(a.ID != "", a.ID != b.ID), "annotation-own-id")
}

// C22Mixed: one registry of every kind of action.
//
//verify C22
func C22Mixed() {
	var a strategy.Actions
	for i := 0; i < 2; i++ {
		x := sym.N("x", i)
		a.AddCreateOrders(createOrders(x, 1)...)
		a.AddUpdateOrders(strategy.UpdateOrderAction{ID: sym.Str(x + ".uid")})
		a.AddCancelOrders(strategy.CancelOrderAction{ID: sym.Str(x + ".cid")})
		a.AddUpdatePositions(strategy.UpdatePositionAction{ID: sym.Str(x + ".pid")})
		a.AddClosePositions(strategy.ClosePositionAction{ID: sym.Str(x + ".clid")})
		a.AddAnnotations(strategy.Annotation{ID: sym.Str(x + ".aid")})
	}
	sym.Assert(sym.And(len(a.CreateOrders) == 2, len(a.UpdateOrders) == 2, len(a.CancelOrders) == 2, len(a.UpdatePositions) == 2, len(a.ClosePositions) == 2, len(a.Annotations) == 2), "kinds-kept-apart")
}

// C22Many: many actions of every kind, with any identifiers of their own.
//
//verify C22 n=12
//verify C22 n=60 unwind=200
func C22Many() {
	n := sym.Param("n", 12)
	var a strategy.Actions
	for i := 0; i < n; i++ {
		x := sym.N("x", i)
		a.AddCreateOrders(strategy.CreateOrderAction{ID: sym.Str(x + ".id"), Symbol: x, Price: float64(i)})
		a.AddUpdateOrders(strategy.UpdateOrderAction{ID: sym.Str(x + ".uid"), OrderID: x, Volume: float64(i)})
		a.AddCancelOrders(strategy.CancelOrderAction{ID: sym.Str(x + ".cid"), OrderID: x})
		a.AddUpdatePositions(strategy.UpdatePositionAction{ID: sym.Str(x + ".pid"), PositionID: x, StopLoss: float64(i)})
		a.AddClosePositions(strategy.ClosePositionAction{ID: sym.Str(x + ".clid"), PositionID: x})
		a.AddAnnotations(strategy.Annotation{ID: sym.Str(x + ".aid"), Label: x})
	}
	sym.Assert(sym.And(len(a.CreateOrders) == n, len(a.UpdateOrders) == n, len(a.CancelOrders) == n, len(a.UpdatePositions) == n, len(a.ClosePositions) == n, len(a.Annotations) == n), "many-all-kept")
	found := map[string]int{}
	for k, x := range a.CreateOrders {
		sym.Assert(k == x.ID && x.Symbol == sym.N("x", int(x.Price)), "many-create")
		found["create"+x.Symbol]++
	}
	for k, x := range a.UpdateOrders {
		sym.Assert(k == x.ID && x.OrderID == sym.N("x", int(x.Volume)), "many-update")
		found["update"+x.OrderID]++
	}
	for k, x := range a.CancelOrders {
		sym.Assert(k == x.ID, "many-cancel")
		found["cancel"+x.OrderID]++
	}
	for k, x := range a.UpdatePositions {
		sym.Assert(k == x.ID && x.PositionID == sym.N("x", int(x.StopLoss)), "many-positions")
		found["position"+x.PositionID]++
	}
	for k, x := range a.ClosePositions {
		sym.Assert(k == x.ID, "many-close")
		found["close"+x.PositionID]++
	}
	sym.Assert(len(found) == 5*n, "many-every-one-kept")
	for i := range a.Annotations {
		sym.Assert(a.Annotations[i].Label == sym.N("x", i), "many-annotations-in-order")
	}
}
