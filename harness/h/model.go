package h

import (
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// others are values that are no pointer to a model of the kind.
func others(kind int) interface{} {
	switch k := sym.Choose("other", 8); {
	case k == 0 && kind != 0:
		x := anyTrade("other")
		return &x
	case k == 1 && kind != 1:
		x := anyOrder("other")
		return &x
	case k == 2 && kind != 2:
		x := anyPosition("other")
		return &x
	case k == 3 && kind != 3:
		x := anyAnnotation("other")
		return &x
	case k == 4:
		return nil
	case k == 5:
		return sym.Str("text")
	case k == 6:
		return anyTrade("other")
	case k == 7:
		return anyOrder("other")
	}
	return sym.I64("number", 0, 10)
}

// C23Trade: every trade as a stored model.
//
//verify C23
func C23Trade() {
	a, b := anyTrade("a"), anyTrade("b")
	was, with := a, b
	sym.Assert(sym.And(a.GetID() == a.ID, a.GetSchema().Name == "trades", a.GetSchema().PKey == "id"), "trade-identity")
	if sym.Choose("right", 2) == 1 {
		err := a.Update(&b)
		sym.Assert(sym.And(err == nil, sameTrade(&a, &with), sameTrade(&b, &with)), "trade-updated")
		sym.Assert(a.GetID() == b.ID, "trade-id-updated")
		return
	}
	err := a.Update(others(0))
	sym.Assert(sym.And(err != nil, code(err) == "invalid"), "trade-other-kind-invalid")
	sym.Assert(sameTrade(&a, &was), "trade-other-kind-changes-nothing")
}

// C23Order: every order as a stored model.
//
//verify C23
func C23Order() {
	a, b := anyOrder("a"), anyOrder("b")
	was, with := a, b
	sym.Assert(sym.And(a.GetID() == a.ID, a.GetSchema().Name == "orders", a.GetSchema().PKey == "id"), "order-identity")
	open := a.IsOpen()
	sym.Assert(sym.Iff(open, sym.And(a.Status != market.FulfilledOrder, a.Status != market.CanceledOrder)), "order-open-until-done")
	if sym.Choose("right", 2) == 1 {
		err := a.Update(&b)
		sym.Assert(sym.And(err == nil, sameOrder(&a, &with), sameOrder(&b, &with)), "order-updated")
		sym.Assert(a.GetID() == b.ID, "order-id-updated")
		return
	}
	err := a.Update(others(1))
	sym.Assert(sym.And(err != nil, code(err) == "invalid"), "order-other-kind-invalid")
	sym.Assert(sameOrder(&a, &was), "order-other-kind-changes-nothing")
}

// C23Position: every position as a stored model.
//
//verify C23
func C23Position() {
	a, b := anyPosition("a"), anyPosition("b")
	was, with := a, b
	sym.Assert(sym.And(a.GetID() == a.ID, a.GetSchema().Name == "positions", a.GetSchema().PKey == "id"), "position-identity")
	if sym.Choose("right", 2) == 1 {
		err := a.Update(&b)
		sym.Assert(sym.And(err == nil, samePosition(&a, &with), samePosition(&b, &with)), "position-updated")
		sym.Assert(a.GetID() == b.ID, "position-id-updated")
		return
	}
	err := a.Update(others(2))
	sym.Assert(sym.And(err != nil, code(err) == "invalid"), "position-other-kind-invalid")
	sym.Assert(samePosition(&a, &was), "position-other-kind-changes-nothing")
}

// C23Annotation: every annotation as a stored model.
//
//verify C23
func C23Annotation() {
	a, b := anyAnnotation("a"), anyAnnotation("b")
	was, with := a, b
	sym.Assert(sym.And(a.GetID() == a.ID, a.GetSchema().Name == "annotations", a.GetSchema().PKey == "id"), "annotation-identity")
	if sym.Choose("right", 2) == 1 {
		err := a.Update(&b)
		sym.Assert(sym.And(err == nil, a == with, b == with), "annotation-updated")
		sym.Assert(a.GetID() == b.ID, "annotation-id-updated")
		return
	}
	err := a.Update(others(3))
	sym.Assert(sym.And(err != nil, code(err) == "invalid"), "annotation-other-kind-invalid")
	sym.Assert(a == was, "annotation-other-kind-changes-nothing")
}
