From c7266b18982b196b08636455eec311125a49c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:16 +0000
Subject: [PATCH 01/20] fix: remove exactly the crossing rows when an order
 book update crosses the book

An incoming ask or bid dropped one valid row of the opposite side, and kept
a last row that sat at the update's own price.
---
 market/orderbook.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index e204517..d5b0793 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -96,17 +96,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Asks {
-			if ob.Asks[i].Price < price {
+			if ob.Asks[i].Price <= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Asks)-1)))
-				rowsRemoved = len(ob.Asks) - i
-				ob.Asks = ob.Asks[startIndex:]
+				rowsRemoved = i
+				ob.Asks = ob.Asks[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Asks)
 			ob.Asks = []OrderBookRow{}
 		}
 		return rowsRemoved
@@ -115,17 +115,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Bids {
-			if ob.Bids[i].Price > price {
+			if ob.Bids[i].Price >= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Bids)-1)))
-				rowsRemoved = len(ob.Bids) - i
-				ob.Bids = ob.Bids[startIndex:]
+				rowsRemoved = i
+				ob.Bids = ob.Bids[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Bids)
 			ob.Bids = []OrderBookRow{}
 		}
 		return rowsRemoved
-- 
2.43.0


From d36e4f3fef6675bb5a1c722e97da36403be97eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:18 +0000
Subject: [PATCH 02/20] fix: keep the accumulated volumes current after an
 order book update

Rows inserted or replaced by an update had an accumulated volume of zero, and
the rows behind a changed row kept their old value.
---
 market/orderbook.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index d5b0793..d800d48 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -45,6 +45,11 @@ func (ob *OrderBook) sort() {
 	ob.Asks = ob.Asks[:int(askDepth)]
 	ob.Bids = ob.Bids[:int(bidDepth)]
 
+	ob.accumulate()
+}
+
+// accumulate recalculates the accumulated volume of every row
+func (ob *OrderBook) accumulate() {
 	for i := range ob.Asks {
 		if i == 0 {
 			ob.Asks[i].AccumVolume = ob.Asks[i].Volume
@@ -70,6 +75,8 @@ func (ob *OrderBook) limit() {
 	if len(ob.Bids) > ob.MaxDepth {
 		ob.Bids = ob.Bids[:ob.MaxDepth]
 	}
+
+	ob.accumulate()
 }
 
 func (ob *OrderBook) String() string {
-- 
2.43.0


From 87f1678380bcd6a30c50940d0c0575872edffc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:21 +0000
Subject: [PATCH 03/20] fix: return the accumulated volume from GetDepth

The depth query returned the price of the row instead of its accumulated
volume, and it panicked when one side of the book was empty.
---
 market/orderbook.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index d800d48..2d0e955 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -268,26 +268,31 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		return 0, ez.New(op, ez.EINVALID, "Price can't be equal or below zero", nil)
 	}
 
-	firstAsk, lastAsk := ob.Asks[0], ob.Asks[len(ob.Asks)-1]
-	firstBid, lastBid := ob.Bids[0], ob.Bids[len(ob.Bids)-1]
-	if firstAsk.Price <= price && price <= lastAsk.Price {
+	var firstAsk, lastAsk, firstBid, lastBid OrderBookRow
+	if len(ob.Asks) > 0 {
+		firstAsk, lastAsk = ob.Asks[0], ob.Asks[len(ob.Asks)-1]
+	}
+	if len(ob.Bids) > 0 {
+		firstBid, lastBid = ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	}
+	if len(ob.Asks) > 0 && firstAsk.Price <= price && price <= lastAsk.Price {
 		// price is in asks interval
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
 				index := math.Max(0, float64(k-1))
-				return ob.Asks[int(index)].Price, nil
+				return ob.Asks[int(index)].AccumVolume, nil
 			}
 		}
-		return lastAsk.Price, nil
-	} else if lastBid.Price <= price && price <= firstBid.Price {
+		return lastAsk.AccumVolume, nil
+	} else if len(ob.Bids) > 0 && lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
 				index := math.Max(0, float64(k-1))
-				return ob.Bids[int(index)].Price, nil
+				return ob.Bids[int(index)].AccumVolume, nil
 			}
 		}
-		return lastBid.Price, nil
+		return lastBid.AccumVolume, nil
 	}
 	return 0, ez.New(op, ez.ENOTFOUND, "No depth for the selected price", nil)
 }
-- 
2.43.0


From 9fcf47374a6be07725e370c06796ab9fd3a21b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:23 +0000
Subject: [PATCH 04/20] fix: include fully crossed sides when calculating the
 order book overlap

When every row of a side was inside the overlap none of them was counted, and
a book with an empty side caused a panic.
---
 market/orderbook.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 2d0e955..860b026 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -299,7 +299,7 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 
 func overlapCalculation(obA, obB OrderBook) (float64, error) {
 	var obAAccumVolume, obBAccumVolume float64
-	var obAIndex, obBIndex int
+	obAIndex, obBIndex := len(obA.Asks), len(obB.Bids)
 	for i := range obA.Asks {
 		if obA.Asks[i].Price > obB.Bids[0].Price {
 			obAIndex = i
@@ -340,14 +340,13 @@ func overlapCalculation(obA, obB OrderBook) (float64, error) {
 func CalculateOverlap(obA, obB OrderBook) (float64, error) {
 	op := "OrderBook.CalculateOverlap"
 	// First determine if overlap exists
-	if !(obA.Asks[0].Price < obB.Bids[0].Price || obA.Bids[0].Price > obB.Asks[0].Price) {
+	overlapAB := len(obA.Asks) > 0 && len(obB.Bids) > 0 && obA.Asks[0].Price < obB.Bids[0].Price
+	overlapBA := len(obB.Asks) > 0 && len(obA.Bids) > 0 && obA.Bids[0].Price > obB.Asks[0].Price
+	if !(overlapAB || overlapBA) {
 		return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
 	}
-	if obA.Asks[0].Price < obB.Bids[0].Price {
+	if overlapAB {
 		return overlapCalculation(obA, obB)
 	}
-	if obA.Bids[0].Price > obB.Asks[0].Price {
-		return overlapCalculation(obB, obA)
-	}
-	return 0, nil
+	return overlapCalculation(obB, obA)
 }
-- 
2.43.0


From a24a82a2a41c5effae0b88c5851ef31c831849d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:48 +0000
Subject: [PATCH 05/20] fix: report the error when a trade is larger than the
 position

Modify dropped the error, so an oversized trade was silently ignored while the
caller was told it had been applied.
---
 market/position.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/position.go b/market/position.go
index 1329f38..afd4999 100644
--- a/market/position.go
+++ b/market/position.go
@@ -130,13 +130,13 @@ func (p *Position) Modify(trade *Trade) error {
 	}
 
 	if p.Type == LongPosition && trade.Action == BuyAction {
-		p.add(trade)
+		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == BuyAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == SellAction {
-		p.add(trade)
+		return p.add(trade)
 	}
 
 	return nil
-- 
2.43.0


From bb837022294631136855027049582c01c16795f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:50 +0000
Subject: [PATCH 06/20] fix: reject intervals and candles that cannot be
 resampled

ModifyInterval panicked on an empty list, on an interval of zero and on candles
less than a minute apart.
---
 market/candle.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/market/candle.go b/market/candle.go
index 37c4d6c..54aa8d9 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -36,8 +36,12 @@ func (p *Candle) String() string {
 func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	op := "market.ModifyInterval"
 
+	if minuteInterval <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "The interval must be at least 1 minute", nil)
+	}
+
 	// If we only have a candle, return the candle, there is nothing to do
-	if len(candles) == 1 {
+	if len(candles) <= 1 {
 		return candles, nil
 	}
 
@@ -48,7 +52,7 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 		return nil, ez.New(op, ez.ECONFLICT, "No 1 minute interval exists", nil)
 	}
 
-	if int64(minuteInterval)%minuteCandleDelta != 0 {
+	if minuteCandleDelta == 0 || int64(minuteInterval)%minuteCandleDelta != 0 {
 		return nil, ez.New(op, ez.ECONFLICT, fmt.Sprintf(`The retrieved candles cannot be modified to the %d minutes timeframe, the delta between candles is %d minutes`, minuteInterval, minuteCandleDelta), nil)
 	}
 
-- 
2.43.0


From 3f2c064671281a6f626417882b03708f6a392396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:51 +0000
Subject: [PATCH 07/20] fix: start a new interval when its first candle is
 missing

A gap in the data at the start of an interval merged that interval into the
previous candle.
---
 market/candle.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 54aa8d9..a502778 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -64,8 +64,12 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	var modifiedCandles []Candle
 	firstCandleIndex := start
 	pivot := candles[start].Time
+	currentInterval := 0
 	for k, v := range candles[firstCandleIndex+1:] {
-		if int(math.Abs(float64((v.Time-pivot)/60)))%minuteInterval == 0 {
+		// A new interval starts even if its first candles are missing
+		candleInterval := int(math.Abs(float64((v.Time-pivot)/60))) / minuteInterval
+		if candleInterval != currentInterval {
+			currentInterval = candleInterval
 			compressedCandle, err := compressCandle(candles, start, k+firstCandleIndex+1)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 318e6cd4a537154168f0de52835f77bed975c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:53 +0000
Subject: [PATCH 08/20] fix: return no interval for less than two candles

GetMinInterval converted the largest float to an integer in that case.
---
 market/candle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle.go b/market/candle.go
index a502778..64ee188 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -93,6 +93,10 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 // GetMinInterval - Returns the minimun period interval in minutes from an array of
 // candles
 func GetMinInterval(candles []Candle) int {
+	if len(candles) < 2 {
+		return 0
+	}
+
 	minDiff := math.MaxFloat64
 	for k := range candles {
 		if k == 0 {
-- 
2.43.0


From 056a9668374ca538376c72f493308d212deeca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:55 +0000
Subject: [PATCH 09/20] fix: report write errors when saving candles

---
 market/candle_load.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 445740a..83e4ff8 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -22,7 +22,10 @@ func SaveCandlesToFile(candles *[]Candle, filepath string) error {
 	candleList := *candles
 
 	for _, candle := range candleList {
-		fmt.Fprintln(f, candle) // print values to f, one per line
+		_, err = fmt.Fprintln(f, candle) // print values to f, one per line
+		if err != nil {
+			return ez.Wrap(op, err)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 14b185186fd14eb80b3befd5ca5832ce7b2a2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:57 +0000
Subject: [PATCH 10/20] fix: return an error instead of panicking on malformed
 candle lines

---
 market/candle_load.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 83e4ff8..f2a9f0f 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,8 +47,14 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		text := scanner.Text()
 
 		// Parse each line
+		if len(text) < 2 {
+			return nil, ez.New(op, ez.EINVALID, "Malformed candle", nil)
+		}
 		line := text[1 : len(text)-1]
 		lineArr := strings.Split(line, " ")
+		if len(lineArr) != 6 {
+			return nil, ez.New(op, ez.EINVALID, "Malformed candle", nil)
+		}
 
 		// Convert from string to datatypes
 		time, err := strconv.ParseInt(lineArr[0], 10, 32)
-- 
2.43.0


From b0b65bcd2c7b70edf2333dcd4ae132b80469e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:00 +0000
Subject: [PATCH 11/20] fix: report read errors when loading candles

A file that could not be read, or was cut off by an overlong line, was loaded
as if it ended there.
---
 market/candle_load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index f2a9f0f..8c63ae3 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -99,5 +99,9 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		candles = append(candles, candle)
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, ez.Wrap(op, err)
+	}
+
 	return candles, nil
 }
-- 
2.43.0


From 008bc66cc327202f39ae6fcab222422b2060a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:02 +0000
Subject: [PATCH 12/20] fix: load candle times beyond 32 bits

Times after January 2038 could be saved but not loaded again.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 8c63ae3..129157d 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -57,7 +57,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		}
 
 		// Convert from string to datatypes
-		time, err := strconv.ParseInt(lineArr[0], 10, 32)
+		time, err := strconv.ParseInt(lineArr[0], 10, 64)
 		if err != nil {
 			return nil, ez.Wrap(op, err)
 		}
-- 
2.43.0


From e901a75b28c0443a9e4754bb50e36f9e99a6e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:17 +0000
Subject: [PATCH 13/20] fix: calculate the RSI only from the given candles

The last window reached one candle past the end of the list, which panicked or
read a candle the caller had sliced off. The minimum length was fixed at 14
candles whatever the period.
---
 indicators/rsi.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index cd4cb13..f947412 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -25,8 +25,10 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 
 	if candles == nil {
 		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
-	} else if len(candles) < 14 {
-		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI with less than 14 candles", nil)
+	} else if period <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Period can't be less than 1", nil)
+	} else if len(candles) <= period {
+		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI without more candles than the period", nil)
 	}
 
 	var rsiArray []float32
@@ -35,7 +37,7 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 	j := period - 1
 
 	for {
-		if j == len(candles) {
+		if j+1 == len(candles) {
 			break
 		}
 
-- 
2.43.0


From 87b46f474bc2ce6e2cdb684e4a7109895e8928a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:11 +0000
Subject: [PATCH 14/20] fix: do not skip a candle after the seed of the EMA

The seed average was returned in the place of the candle that follows the first
period, so the close of that candle was never part of the series.
---
 indicators/ma.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/indicators/ma.go b/indicators/ma.go
index 9ebfe0c..0c9ffd2 100644
--- a/indicators/ma.go
+++ b/indicators/ma.go
@@ -57,18 +57,16 @@ func ExponentialMovingAverage(candles []market.Candle, period int) ([]float64, e
 	var emaArray []float64
 	p := 2 / (float64(period) + 1)
 
+	// The average of the first period is the seed of the series
+	ema := average(candles[:period])
+
 	for i := range candles {
 		if i < period {
 			continue
 		}
 
-		if len(emaArray) == 0 {
-			emaArray = append(emaArray, average(candles[:period]))
-		} else {
-			ema := (candles[i].Close * p) + (emaArray[len(emaArray)-1] * (1 - p))
-			emaArray = append(emaArray, ema)
-		}
-
+		ema = (candles[i].Close * p) + (ema * (1 - p))
+		emaArray = append(emaArray, ema)
 	}
 
 	return emaArray, nil
-- 
2.43.0


From ba32fcc88004d0391f1e141c5b197168e31b31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:37 +0000
Subject: [PATCH 15/20] fix: only return fractals confirmed by two following
 candles

Candles with the same extreme do not confirm a fractal, but when the list ended
before two confirming candles were found the fractal was returned anyway.
---
 indicators/williams_fractals.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/williams_fractals.go b/indicators/williams_fractals.go
index 48a5fd7..7f4df32 100644
--- a/indicators/williams_fractals.go
+++ b/indicators/williams_fractals.go
@@ -113,5 +113,9 @@ func findFractal(candles []market.Candle, start int, fType FractalType) (foundFr
 
 	}
 
+	if rightCandleCount < 2 {
+		return foundFractal, ez.New(op, ez.EINVALID, "Third candle doesn't have two following candles to confirm it", nil)
+	}
+
 	return foundFractal, nil
 }
-- 
2.43.0


From be12ecd542f104a5bd93e5998bf5e63bd6f13aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:39 +0000
Subject: [PATCH 16/20] fix: map DYDXETH to the DYDX asset

---
 market/pair_mappings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/pair_mappings.go b/market/pair_mappings.go
index ca0bb4e..7efdb00 100644
--- a/market/pair_mappings.go
+++ b/market/pair_mappings.go
@@ -1886,7 +1886,7 @@ var PairMappings = map[string]Pair{
 	"GLMRBUSD":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "BUSD"}},
 	"GLMRUSDT":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "USDT"}},
 	"ATOMBIDR":      {Base: Asset{Symbol: "ATOM"}, Quote: Asset{Symbol: "BIDR"}},
-	"DYDXETH":       {Base: Asset{Symbol: "OOKI"}, Quote: Asset{Symbol: "ETH"}},
+	"DYDXETH":       {Base: Asset{Symbol: "DYDX"}, Quote: Asset{Symbol: "ETH"}},
 	"ROSEETH":       {Base: Asset{Symbol: "ROSE"}, Quote: Asset{Symbol: "ETH"}},
 	"UMABUSD":       {Base: Asset{Symbol: "UMA"}, Quote: Asset{Symbol: "BUSD"}},
 	"UNIETH":        {Base: Asset{Symbol: "UNI"}, Quote: Asset{Symbol: "ETH"}},
-- 
2.43.0


From 40e6e36fc7df27150d89be50f768f6f6c625ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:41 +0000
Subject: [PATCH 17/20] fix: print positions with an ID shorter than 8
 characters

---
 market/position.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index afd4999..d294244 100644
--- a/market/position.go
+++ b/market/position.go
@@ -97,8 +97,13 @@ func (p *Position) Update(i interface{}) error {
 }
 
 func (p *Position) String() string {
+	id := p.ID
+	if len(id) > 8 {
+		id = id[0:8]
+	}
+
 	return fmt.Sprintf("ID: %s Type: %s Pair: %s Open: %t OpenPrice: %.2f ClosePrice: %.2f Quantity: %.4f Profit: %.2f OpenTime: %s CloseTime: %s # Trades: %d\n",
-		p.ID[0:8],
+		id,
 		p.Type,
 		p.Pair.String(),
 		p.Open,
-- 
2.43.0


From e763b5052f491d70268f33e85bdcfa503f7ffe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:43 +0000
Subject: [PATCH 18/20] fix: print balances without an asset

---
 market/balances.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/balances.go b/market/balances.go
index d455028..f33d7b7 100644
--- a/market/balances.go
+++ b/market/balances.go
@@ -31,5 +31,10 @@ type Balance struct {
 }
 
 func (b *Balance) String() string {
-	return fmt.Sprintf("Asset: %s, Amount: %f\n", b.Asset.String(), b.Amount)
+	asset := Asset{}
+	if b.Asset != nil {
+		asset = *b.Asset
+	}
+
+	return fmt.Sprintf("Asset: %s, Amount: %f\n", asset.String(), b.Amount)
 }
-- 
2.43.0


From 05a51fcda9e31297e3bcce15a87f1811a57b96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:24 +0000
Subject: [PATCH 19/20] fix: report a trade that neither buys nor sells

A position took such a trade as accepted but neither changed nor listed it.
---
 market/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index d294244..0eb2e2f 100644
--- a/market/position.go
+++ b/market/position.go
@@ -144,7 +144,7 @@ func (p *Position) Modify(trade *Trade) error {
 		return p.add(trade)
 	}
 
-	return nil
+	return ez.New(op, ez.EINVALID, "A trade must either buy or sell", nil)
 }
 
 // add increments the position size and averages the price
-- 
2.43.0


From d094f47a05650d5232b42b657fa6fcab1b913d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:40 +0000
Subject: [PATCH 20/20] fix: report candle lines without their brackets

The first and last characters of every line were dropped unseen, so a line
that was cut off lost a digit of its volume.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 129157d..6f39fda 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,7 +47,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		text := scanner.Text()
 
 		// Parse each line
-		if len(text) < 2 {
+		if len(text) < 2 || text[0] != '{' || text[len(text)-1] != '}' {
 			return nil, ez.New(op, ez.EINVALID, "Malformed candle", nil)
 		}
 		line := text[1 : len(text)-1]
-- 
2.43.0

