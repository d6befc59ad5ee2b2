package h

import (
	"sort"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// C24Symbol: the symbol of every pair.
//
//verify C24
func C24Symbol() {
	base := market.Asset{Symbol: anyWord("base", 1, 3), Name: sym.Str("basename"), AltSymbol: sym.Str("basealt")}
	quote := market.Asset{Symbol: anyWord("quote", 1, 3), Name: sym.Str("quotename"), AltSymbol: sym.Str("quotealt")}
	p := market.NewPair(base, quote)
	sym.Assert(sym.And(p.Base == base, p.Quote == quote), "pair-of-assets")
	sep := anyWord("separator", 1)
	got := p.Symbol(sep)
	if quote.Symbol == "" {
		sym.Assert(got == base.Symbol, "single-symbol")
	} else {
		sym.Assert(got == base.Symbol+sep+quote.Symbol, "joined-symbol")
	}
	sym.Assert(sym.And(p.Base == base, p.Quote == quote), "pair-unchanged")
}

// C24Mapping: every entry of the table of pairs.
//
//verify C24 unwind=4000
func C24Mapping() {
	var keys []string
	for key := range market.PairMappings {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	sym.Assert(len(keys) > 0, "table-not-empty")
	key := keys[sym.Choose("entry", len(keys))]
	p := market.PairMappings[key]
	sym.Assert(p.Symbol("") == key, "mapped-pair-has-the-symbol")
	sym.Assert(sym.And(p.Base.Symbol != "", p.Quote.Symbol != "", p.Base.Symbol != p.Quote.Symbol), "mapped-pair-complete")
}

// C25Factories: the asset of any symbol.
//
//verify C25
func C25Factories() {
	kind := sym.Choose("kind", 3)
	s := sym.Str("symbol")
	a, err := makeAsset(kind, s)
	if err != nil {
		sym.Assert(sym.And(code(err) == "not_found", a == market.Asset{}), "unknown-not-found")
		return
	}
	sym.Assert(sym.And(a.Symbol == s, s != ""), "symbol-kept")
	sym.Assert(a.Name != "", "named")
	r := sym.Str("other")
	b, err := makeAsset(kind, r)
	if err == nil {
		sym.Assert(sym.Iff(a.Name == b.Name, r == s), "different-names")
	}
}

// C25Letters: the asset of any few letters, which has the name of a known asset
// only when they are its symbol.
//
//verify C25 unwind=200
func C25Letters() {
	kind := sym.Choose("kind", 3)
	s := sym.Text("symbol", 1+sym.Choose("length", 5), 32, 126)
	a, err := makeAsset(kind, s)
	if err != nil {
		sym.Assert(sym.And(code(err) == "not_found", a == market.Asset{}), "letters-not-found")
		return
	}
	sym.Assert(sym.And(a.Symbol == s, a.Name != ""), "letters-kept")
	for _, known := range knownAssets(kind) {
		sym.Assert(sym.Iff(a.Name == known[1], s == known[0]), "letters-named")
	}
}

// C25Asset: every asset.
//
//verify C25
func C25Asset() {
	s, n := anyWord("symbol", 1, 3), anyWord("name", 1, 3)
	a, err := market.NewAsset(s, n)
	if s == "" || n == "" {
		sym.Assert(sym.And(err != nil, code(err) == "invalid", a == market.Asset{}), "incomplete-invalid")
	} else {
		sym.Assert(sym.And(err == nil, a.Symbol == s, a.Name == n, a.AltSymbol == ""), "complete-accepted")
	}
}

// C25Known: the symbols and names known from the beginning.
//
//verify C25 unwind=200
func C25Known() {
	kind := sym.Choose("kind", 3)
	for _, known := range knownAssets(kind) {
		a, err := makeAsset(kind, known[0])
		sym.Assert(err == nil, "known-symbol-accepted")
		sym.Assert(sym.And(a.Symbol == known[0], a.Name == known[1]), "known-symbol-named")
	}
}

func makeAsset(kind int, s string) (market.Asset, error) {
	switch kind {
	case 0:
		return market.NewCryptoAsset(s)
	case 1:
		return market.NewForexAsset(s)
	}
	return market.NewStockAsset(s)
}

func knownAssets(kind int) [][2]string {
	switch kind {
	case 0:
		return [][2]string{
			{"AAVE", "Aave"},
			{"ALGO", "Algorand"},
			{"BAT", "Basic Attention Token"},
			{"BTC", "Bitcoin"},
			{"BCH", "Bitcoin Cash"},
			{"ADA", "Cardano"},
			{"LINK", "Chainlink"},
			{"COMP", "Compound"},
			{"ATOM", "Cosmos"},
			{"DAI", "DAI"},
			{"DASH", "Dash"},
			{"DOGE", "Dogecoin"},
			{"EOS", "EOS.IO"},
			{"ETH", "Ethereum"},
			{"ETC", "Ethereum Classic"},
			{"EWT", "Energy Web Token"},
			{"EWTB", "Energy Web Token Bridged"},
			{"FILE", "Filecoin"},
			{"FLOW", "Flow"},
			{"LTC", "Litecoin"},
			{"XLM", "Lumen"},
			{"XMR", "Monero"},
			{"NANO", "Nano"},
			{"MATIC", "Polygon"},
			{"QTUM", "Qtum"},
			{"OCEAN", "Ocean Token"},
			{"DOT", "Polkadot"},
			{"USDT", "Tether USD"},
			{"GRT", "The Graph"},
			{"UNI", "Uniswap"},
			{"USDC", "USD Coin"},
			{"XRP", "Ripple"},
			{"ZED", "ZCash"},
		}
	case 1:
		return [][2]string{
			{"USD", "United States Dollar"},
			{"EUR", "Euro"},
		}
	}
	return [][2]string{
		{"AAPL", "Apple Inc"},
	}
}
