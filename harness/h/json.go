package h

import (
	"encoding/json"
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/zzverif/sym"
)

// The records under their published names.

type jsonAsset struct {
	Name      string `json:"name"`
	Symbol    string `json:"symbol"`
	AltSymbol string `json:"alt_symbol"`
}

type jsonPair struct {
	Base  jsonAsset `json:"base"`
	Quote jsonAsset `json:"quote"`
}

type jsonTrade struct {
	ID            string    `json:"id"`
	ExecutionTime time.Time `json:"execution_time"`
	Action        string    `json:"action"`
	OrderType     string    `json:"order_type"`
	Pair          jsonPair  `json:"pair"`
	Price         float64   `json:"price"`
	Quantity      float64   `json:"quantity"`
	Fee           float64   `json:"fee"`
	Cost          float64   `json:"cost"`
	ExecutionID   string    `json:"execution_id"`
}

type jsonOrder struct {
	ID             string    `json:"id"`
	Action         string    `json:"action"`
	Type           string    `json:"type"`
	Pair           *jsonPair `json:"pair"`
	Price          float64   `json:"price"`
	Volume         float64   `json:"volume"`
	ExecutedVolume float64   `json:"executed_volume"`
	Fee            float64   `json:"fee"`
	Cost           float64   `json:"cost"`
	Status         string    `json:"status"`
	OpenTime       time.Time `json:"open_time"`
	CloseTime      time.Time `json:"close_time"`
	Trades         []string  `json:"trades"`
	TakeProfit     float64   `json:"take_profit"`
	StopLoss       float64   `json:"stop_loss"`
	PositionID     string    `json:"position_id"`
	ExecutionID    string    `json:"execution_id"`
}

type jsonCloseOrder struct {
	Price   float64 `json:"price"`
	OrderID string  `json:"order_id"`
}

type jsonPosition struct {
	ID          string         `json:"id"`
	Type        string         `json:"type"`
	Pair        jsonPair       `json:"pair"`
	Open        bool           `json:"open"`
	TakeProfit  jsonCloseOrder `json:"take_profit"`
	StopLoss    jsonCloseOrder `json:"stop_loss"`
	OpenPrice   float64        `json:"open_price"`
	ClosePrice  float64        `json:"close_price"`
	Quantity    float64        `json:"quantity"`
	Profit      float64        `json:"profit"`
	OpenTime    time.Time      `json:"open_time"`
	CloseTime   time.Time      `json:"close_time"`
	Trades      []string       `json:"trades"`
	ExecutionID string         `json:"execution_id"`
	Data        string         `json:"data"`
}

type jsonCandle struct {
	Time   int64   `json:"time"`
	Open   float64 `json:"open"`
	High   float64 `json:"high"`
	Low    float64 `json:"low"`
	Close  float64 `json:"close"`
	Volume float64 `json:"volume"`
}

type jsonRow struct {
	Price       float64 `json:"price"`
	Volume      float64 `json:"volume"`
	AccumVolume float64 `json:"accum_volume"`
}

type jsonUpdate struct {
	Price  float64 `json:"price"`
	Volume float64 `json:"volume"`
	Side   string  `json:"side"`
}

type jsonBook struct {
	Time     int64     `json:"time"`
	Asks     []jsonRow `json:"asks"`
	Bids     []jsonRow `json:"bids"`
	MaxDepth int       `json:"max_depth"`
}

type jsonTicker struct {
	Time   int64   `json:"time"`
	Ask    float64 `json:"ask"`
	Bid    float64 `json:"bid"`
	Last   float64 `json:"last"`
	Volume float64 `json:"volume"`
	VWAP   float64 `json:"vwap"`
}

type jsonBalances struct {
	Balance    float64 `json:"balance"`
	Equity     float64 `json:"equity"`
	Margin     float64 `json:"margin"`
	FreeMargin float64 `json:"free_margin"`
}

type jsonBalance struct {
	Asset  *jsonAsset `json:"asset"`
	Amount float64    `json:"amount"`
}

type jsonAssets struct {
	Time   float64       `json:"time"`
	Assets []jsonBalance `json:"assets"`
}

type jsonAnnotation struct {
	ID           string  `json:"id"`
	Time         int64   `json:"time"`
	CreationTime int64   `json:"creation_time"`
	Price        float64 `json:"price"`
	ExecutionID  string  `json:"execution_id"`
	Label        string  `json:"label"`
	Tooltip      string  `json:"tooltip"`
}

type jsonCreate struct {
	ID         string  `json:"id"`
	Symbol     string  `json:"symbol"`
	ActionType string  `json:"action_type"`
	OrderType  string  `json:"order_type"`
	Price      float64 `json:"price"`
	Volume     float64 `json:"volume"`
	StopLoss   float64 `json:"stop_loss"`
	TakeProfit float64 `json:"take_profit"`
	Slippage   float64 `json:"slippage"`
}

type jsonUpdateOrder struct {
	ID         string  `json:"id"`
	OrderID    string  `json:"order_id"`
	Price      float64 `json:"price"`
	Volume     float64 `json:"volume"`
	StopLoss   float64 `json:"stop_loss"`
	TakeProfit float64 `json:"take_profit"`
	Slippage   float64 `json:"slippage"`
}

type jsonCancel struct {
	ID      string `json:"id"`
	OrderID string `json:"order_id"`
}

type jsonUpdatePosition struct {
	ID         string  `json:"id"`
	PositionID string  `json:"position_id"`
	ActionType string  `json:"action_type"`
	OrderType  string  `json:"order_type"`
	Volume     float64 `json:"volume"`
	StopLoss   float64 `json:"stop_loss"`
	TakeProfit float64 `json:"take_profit"`
	Slippage   float64 `json:"slippage"`
}

type jsonClose struct {
	ID         string `json:"id"`
	PositionID string `json:"position_id"`
}

// Records that hold something else already: reading has to replace all of it.

func staleAsset() jsonAsset { return jsonAsset{"?", "?", "?"} }
func stalePair() jsonPair { return jsonPair{staleAsset(), staleAsset()} }
func staleTrade() jsonTrade { return jsonTrade{"?", time.Unix(7, 0), "?", "?", stalePair(), -7.25, -7.25, -7.25, -7.25, "?"} }
func staleOrder() jsonOrder { return jsonOrder{"?", "?", "?", &jsonPair{staleAsset(), staleAsset()}, -7.25, -7.25, -7.25, -7.25, -7.25, "?", time.Unix(7, 0), time.Unix(7, 0), nil, -7.25, -7.25, "?", "?"} }
func staleCloseOrder() jsonCloseOrder { return jsonCloseOrder{-7.25, "?"} }
func stalePosition() jsonPosition { return jsonPosition{"?", "?", stalePair(), true, staleCloseOrder(), staleCloseOrder(), -7.25, -7.25, -7.25, -7.25, time.Unix(7, 0), time.Unix(7, 0), nil, "?", "?"} }
func staleCandle() jsonCandle { return jsonCandle{-7, -7.25, -7.25, -7.25, -7.25, -7.25} }
func staleRow() jsonRow { return jsonRow{-7.25, -7.25, -7.25} }
func staleUpdate() jsonUpdate { return jsonUpdate{-7.25, -7.25, "?"} }
func staleBook() jsonBook { return jsonBook{-7, nil, nil, -7} }
func staleTicker() jsonTicker { return jsonTicker{-7, -7.25, -7.25, -7.25, -7.25, -7.25} }
func staleBalances() jsonBalances { return jsonBalances{-7.25, -7.25, -7.25, -7.25} }
func staleBalance() jsonBalance { return jsonBalance{&jsonAsset{"?", "?", "?"}, -7.25} }
func staleAssets() jsonAssets { return jsonAssets{-7.25, nil} }
func staleAnnotation() jsonAnnotation { return jsonAnnotation{"?", -7, -7, -7.25, "?", "?", "?"} }
func staleCreate() jsonCreate { return jsonCreate{"?", "?", "?", "?", -7.25, -7.25, -7.25, -7.25, -7.25} }
func staleUpdateOrder() jsonUpdateOrder { return jsonUpdateOrder{"?", "?", -7.25, -7.25, -7.25, -7.25, -7.25} }
func staleCancel() jsonCancel { return jsonCancel{"?", "?"} }
func staleUpdatePosition() jsonUpdatePosition { return jsonUpdatePosition{"?", "?", "?", "?", -7.25, -7.25, -7.25, -7.25} }
func staleClose() jsonClose { return jsonClose{"?", "?"} }

func jsonAssetOf(a market.Asset) jsonAsset { return jsonAsset{a.Name, a.Symbol, a.AltSymbol} }
func jsonPairOf(p market.Pair) jsonPair    { return jsonPair{jsonAssetOf(p.Base), jsonAssetOf(p.Quote)} }

// through writes a value as JSON, reads it as another and writes and reads
// that one again.
func through(from, as, back interface{}) {
	text, err := json.Marshal(from)
	sym.Assert(err == nil, "written")
	err = json.Unmarshal(text, as)
	sym.Assert(err == nil, "read-by-published-names")
	// readers other than Go's tell capital letters from small ones
	var written, published map[string]json.RawMessage
	err = json.Unmarshal(text, &written)
	sym.Assert(err == nil, "names-read")
	text, err = json.Marshal(as)
	sym.Assert(err == nil, "published-form-written")
	err = json.Unmarshal(text, &published)
	sym.Assert(err == nil, "published-names-read")
	exact := true
	for name := range published {
		_, ok := written[name]
		exact = sym.And(exact, ok)
	}
	sym.Assert(exact, "exact-names")
	err = json.Unmarshal(text, back)
	sym.Assert(err == nil, "read-back")
}

// number is any number a record can hold, zero included.
func number(name string) float64 { return sym.F64(name, -1e12, 1e12) }

// C28Trade: every trade.
//
//verify C28
func C28Trade() {
	a := anyTrade("a")
	j := staleTrade()
	var b market.Trade
	if sym.Choose("pointer", 2) == 1 {
		through(&a, &j, &b)
	} else {
		through(a, &j, &b)
	}
	want := jsonTrade{a.ID, a.ExecutionTime, string(a.Action), string(a.OrderType), jsonPairOf(a.Pair), a.Price, a.Quantity, a.Fee, a.Cost, a.ExecutionID}
	sym.Assert(want.ExecutionTime.Equal(j.ExecutionTime), "trade-time-published")
	j.ExecutionTime, want.ExecutionTime = time.Time{}, time.Time{}
	sym.Assert(j == want, "trade-published")
	sym.Assert(sameTrade(&a, &b), "trade-read-back")
}

// C28Order: every order, with or without a pair.
//
//verify C28
func C28Order() {
	a := anyOrder("a")
	if sym.Choose("pair", 2) == 1 {
		a.Pair = nil
	}
	j := staleOrder()
	var b market.Order
	if sym.Choose("pointer", 2) == 1 {
		through(&a, &j, &b)
	} else {
		through(a, &j, &b)
	}
	sym.Assert((a.Pair == nil) == (j.Pair == nil) && (a.Pair == nil) == (b.Pair == nil), "order-pair-present")
	if a.Pair != nil {
		sym.Assert(*j.Pair == jsonPairOf(*a.Pair), "order-pair-published")
	}
	sym.Assert(sym.And(j.ID == a.ID, j.Action == string(a.Action), j.Type == string(a.Type), j.Price == a.Price, j.Volume == a.Volume, j.ExecutedVolume == a.ExecutedVolume, j.Fee == a.Fee, j.Cost == a.Cost,
		j.Status == string(a.Status), j.OpenTime.Equal(a.OpenTime), j.CloseTime.Equal(a.CloseTime), sameTrades(j.Trades, a.Trades), j.TakeProfit == a.TakeProfit, j.StopLoss == a.StopLoss,
		j.PositionID == a.PositionID, j.ExecutionID == a.ExecutionID), "order-published")
	sym.Assert(sameOrder(&a, &b), "order-read-back")
}

// C28Position: every position.
//
//verify C28
func C28Position() {
	a := anyPosition("a")
	j := stalePosition()
	var b market.Position
	if sym.Choose("pointer", 2) == 1 {
		through(&a, &j, &b)
	} else {
		through(a, &j, &b)
	}
	sym.Assert(sym.And(j.ID == a.ID, j.Type == string(a.Type), j.Pair == jsonPairOf(a.Pair), j.Open == a.Open, j.TakeProfit == jsonCloseOrder(a.TakeProfit), j.StopLoss == jsonCloseOrder(a.StopLoss),
		j.OpenPrice == a.OpenPrice, j.ClosePrice == a.ClosePrice, j.Quantity == a.Quantity, j.Profit == a.Profit, j.OpenTime.Equal(a.OpenTime), j.CloseTime.Equal(a.CloseTime),
		sameTrades(j.Trades, a.Trades), j.ExecutionID == a.ExecutionID, j.Data == a.Data), "position-published")
	sym.Assert(samePosition(&a, &b), "position-read-back")
}

// C28Market: every candle, ticker, row, update, asset, pair and balance.
//
//verify C28
func C28Market() {
	x := func(name string) float64 { return number(name) }
	s := func(name string) string { return sym.Str(name) }
	t := sym.I64("time", -1<<60, 1<<60)
	switch sym.Choose("kind", 10) {
	case 0:
		a := market.Candle{Time: t, Open: x("open"), High: x("high"), Low: x("low"), Close: x("close"), Volume: x("volume")}
		j := staleCandle()
		var b market.Candle
		through(a, &j, &b)
		sym.Assert(j == jsonCandle{a.Time, a.Open, a.High, a.Low, a.Close, a.Volume}, "candle-published")
		sym.Assert(a == b, "candle-read-back")
	case 1:
		a := market.Ticker{Time: t, Ask: x("ask"), Bid: x("bid"), Last: x("last"), Volume: x("volume"), VWAP: x("vwap")}
		j := staleTicker()
		var b market.Ticker
		through(&a, &j, &b)
		sym.Assert(j == jsonTicker{a.Time, a.Ask, a.Bid, a.Last, a.Volume, a.VWAP}, "ticker-published")
		sym.Assert(a == b, "ticker-read-back")
	case 2:
		a := market.OrderBookUpdate{Price: x("price"), Volume: x("volume"), Side: s("side")}
		j := staleUpdate()
		var b market.OrderBookUpdate
		through(a, &j, &b)
		sym.Assert(j == jsonUpdate{a.Price, a.Volume, a.Side}, "update-published")
		sym.Assert(a == b, "update-read-back")
	case 3:
		a := anyPair("pair")
		j := stalePair()
		var b market.Pair
		through(&a, &j, &b)
		sym.Assert(j == jsonPairOf(a), "pair-published")
		sym.Assert(a == b, "pair-read-back")
	case 4:
		a := market.Asset{Name: s("name"), Symbol: s("symbol"), AltSymbol: s("alt")}
		j := staleAsset()
		var b market.Asset
		through(a, &j, &b)
		sym.Assert(j == jsonAssetOf(a), "asset-published")
		sym.Assert(a == b, "asset-read-back")
	case 5:
		a := market.BalanceSnapshot{Balance: x("balance"), Equity: x("equity"), Margin: x("margin"), FreeMargin: x("free")}
		j := staleBalances()
		var b market.BalanceSnapshot
		through(a, &j, &b)
		sym.Assert(j == jsonBalances{a.Balance, a.Equity, a.Margin, a.FreeMargin}, "balances-published")
		sym.Assert(a == b, "balances-read-back")
	case 6:
		a := market.OrderBookRow{Price: x("price"), Volume: x("volume"), AccumVolume: x("accum")}
		j := staleRow()
		var b market.OrderBookRow
		through(a, &j, &b)
		sym.Assert(j == jsonRow{a.Price, a.Volume, a.AccumVolume}, "row-published")
		sym.Assert(a == b, "row-read-back")
	case 8:
		a := market.Balance{Amount: x("amount")}
		j := staleBalance()
		var b market.Balance
		through(a, &j, &b)
		sym.Assert(j == jsonBalance{nil, a.Amount}, "balance-published")
		sym.Assert(a == b, "balance-read-back")
	case 9:
		a := market.PositionCloseOrder{Price: x("price"), OrderID: s("order")}
		j := staleCloseOrder()
		var b market.PositionCloseOrder
		through(a, &j, &b)
		sym.Assert(j == jsonCloseOrder(a), "close-order-published")
		sym.Assert(a == b, "close-order-read-back")
	case 7:
		a := anyAnnotation("note")
		j := staleAnnotation()
		var b strategy.Annotation
		through(&a, &j, &b)
		sym.Assert(j == jsonAnnotation{a.ID, a.Time, a.CreationTime, a.Price, a.ExecutionID, a.Label, a.Tooltip}, "annotation-published")
		sym.Assert(a == b, "annotation-read-back")
	}
}

// C28Lists: every order book and list of balances.
//
//verify C28 n=3
//verify C28 exact=60 unwind=200
func C28Lists() {
	n := sym.Param("n", 3)
	count := func(name string) int {
		if exact := sym.Param("exact", 0); exact > 0 {
			return exact
		}
		return sym.Choose(name, n+1)
	}
	if sym.Choose("book", 2) == 1 {
		a := market.OrderBook{Time: sym.I64("time", -1<<60, 1<<60), MaxDepth: sym.Int("depth", -1000, 1000000)}
		rows := func(name string) (out []market.OrderBookRow) {
			for i := 0; i < count(name); i++ {
				r := sym.N(name, i)
				out = append(out, market.OrderBookRow{Price: number(r + ".price"), Volume: number(r + ".volume"), AccumVolume: number(r + ".accum")})
			}
			return
		}
		a.Asks, a.Bids = rows("asks"), rows("bids")
		j := staleBook()
		var b market.OrderBook
		through(a, &j, &b)
		sym.Assert(sym.And(j.Time == a.Time, j.MaxDepth == a.MaxDepth, len(j.Asks) == len(a.Asks), len(j.Bids) == len(a.Bids)), "book-published")
		same := true
		for i, r := range a.Asks {
			same = sym.And(same, j.Asks[i] == jsonRow{r.Price, r.Volume, r.AccumVolume})
		}
		for i, r := range a.Bids {
			same = sym.And(same, j.Bids[i] == jsonRow{r.Price, r.Volume, r.AccumVolume})
		}
		sym.Assert(same, "book-rows-published")
		sym.Assert(sym.And(b.Time == a.Time, b.MaxDepth == a.MaxDepth, sameRows(a.Asks, b.Asks), sameRows(a.Bids, b.Bids)), "book-read-back")
		return
	}
	a := market.AssetsSnapshot{Time: number("at")}
	for i := 0; i < count("assets"); i++ {
		r := sym.N("asset", i)
		x := market.Balance{Amount: number(r + ".amount")}
		if sym.Param("exact", 0) > 0 && i%2 == 0 || sym.Param("exact", 0) == 0 && sym.Choose(r+".known", 2) == 1 {
			x.Asset = &market.Asset{Name: sym.Str(r + ".name"), Symbol: sym.Str(r + ".symbol"), AltSymbol: sym.Str(r + ".alt")}
		}
		a.Assets = append(a.Assets, x)
	}
	j := staleAssets()
	var b market.AssetsSnapshot
	through(a, &j, &b)
	sym.Assert(sym.And(j.Time == a.Time, b.Time == a.Time, len(j.Assets) == len(a.Assets), len(b.Assets) == len(a.Assets)), "assets-published")
	for i, x := range a.Assets {
		sym.Assert(sym.And(j.Assets[i].Amount == x.Amount, b.Assets[i].Amount == x.Amount), "amount-published")
		if x.Asset == nil {
			sym.Assert(j.Assets[i].Asset == nil && b.Assets[i].Asset == nil, "no-asset-published")
		} else {
			sym.Assert(j.Assets[i].Asset != nil && b.Assets[i].Asset != nil, "asset-present")
			sym.Assert(sym.And(*j.Assets[i].Asset == jsonAssetOf(*x.Asset), *b.Assets[i].Asset == *x.Asset), "balance-asset-published")
		}
	}
}

// C28Actions: every action.
//
//verify C28
func C28Actions() {
	x := func(name string) float64 { return number(name) }
	s := func(name string) string { return sym.Str(name) }
	switch sym.Choose("kind", 5) {
	case 0:
		a := strategy.CreateOrderAction{ID: s("id"), Symbol: s("symbol"), ActionType: market.ActionType(s("action")), OrderType: market.OrderType(s("type")), Price: x("price"), Volume: x("volume"), StopLoss: x("sl"), TakeProfit: x("tp"), Slippage: x("slippage")}
		j := staleCreate()
		var b strategy.CreateOrderAction
		through(a, &j, &b)
		sym.Assert(j == jsonCreate{a.ID, a.Symbol, string(a.ActionType), string(a.OrderType), a.Price, a.Volume, a.StopLoss, a.TakeProfit, a.Slippage}, "create-published")
		sym.Assert(a == b, "create-read-back")
	case 1:
		a := strategy.UpdateOrderAction{ID: s("id"), OrderID: s("order"), Price: x("price"), Volume: x("volume"), StopLoss: x("sl"), TakeProfit: x("tp"), Slippage: x("slippage")}
		j := staleUpdateOrder()
		var b strategy.UpdateOrderAction
		through(&a, &j, &b)
		sym.Assert(j == jsonUpdateOrder{a.ID, a.OrderID, a.Price, a.Volume, a.StopLoss, a.TakeProfit, a.Slippage}, "update-order-published")
		sym.Assert(a == b, "update-order-read-back")
	case 2:
		a := strategy.CancelOrderAction{ID: s("id"), OrderID: s("order")}
		j := staleCancel()
		var b strategy.CancelOrderAction
		through(a, &j, &b)
		sym.Assert(j == jsonCancel{a.ID, a.OrderID}, "cancel-published")
		sym.Assert(a == b, "cancel-read-back")
	case 3:
		a := strategy.UpdatePositionAction{ID: s("id"), PositionID: s("position"), ActionType: market.ActionType(s("action")), OrderType: market.OrderType(s("type")), Volume: x("volume"), StopLoss: x("sl"), TakeProfit: x("tp"), Slippage: x("slippage")}
		j := staleUpdatePosition()
		var b strategy.UpdatePositionAction
		through(a, &j, &b)
		sym.Assert(j == jsonUpdatePosition{a.ID, a.PositionID, string(a.ActionType), string(a.OrderType), a.Volume, a.StopLoss, a.TakeProfit, a.Slippage}, "update-position-published")
		sym.Assert(a == b, "update-position-read-back")
	case 4:
		a := strategy.ClosePositionAction{ID: s("id"), PositionID: s("position")}
		j := staleClose()
		var b strategy.ClosePositionAction
		through(&a, &j, &b)
		sym.Assert(j == jsonClose{a.ID, a.PositionID}, "close-published")
		sym.Assert(a == b, "close-read-back")
	}
}
