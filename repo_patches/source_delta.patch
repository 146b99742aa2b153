From ab431d626d3cb69692b7087f58d8c1a844b7cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 01/48] fix: report HOLD, not BUY, on bars that have no signal

AnalysisSide left the entries it skips (the first bar, and the warm-up of
Ichimoku and EMAVegas) at the zero value of Side, which is BUY.
---
 channel/Boll.go                         | 2 +-
 channel/DonchianChannel.go              | 2 +-
 channel/KeltnerChannel.go               | 2 +-
 oscillator/AbsolutePriceOscillator.go   | 2 +-
 oscillator/AwesomeOscillator.go         | 2 +-
 oscillator/Camarilla.go                 | 2 +-
 oscillator/ChaikinOscillator.go         | 2 +-
 oscillator/IchimokuCloud.go             | 2 +-
 oscillator/PercentagePriceOscillator.go | 2 +-
 oscillator/ProjectionOscillator.go      | 2 +-
 oscillator/StochasticOscillator.go      | 2 +-
 oscillator/WilliamsR.go                 | 2 +-
 trend/AiCoinCCI.go                      | 2 +-
 trend/Cci.go                            | 2 +-
 trend/EMAVegas.go                       | 2 +-
 trend/Kdj.go                            | 2 +-
 trend/Macd.go                           | 2 +-
 trend/PivotPointSuperTrend.go           | 2 +-
 trend/Rsi.go                            | 2 +-
 trend/StochRsi.go                       | 2 +-
 trend/StochasticHeat.go                 | 2 +-
 trend/SuperTrend.go                     | 2 +-
 trend/TraderXO.go                       | 2 +-
 trend/UTBot.go                          | 2 +-
 utils/Side.go                           | 9 +++++++++
 volume/MoneyFlowIndex.go                | 2 +-
 26 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..df5ab64 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -119,7 +119,7 @@ func (e *Boll) Calculation() *Boll {
 // 收盘价高于 upperBand 时提供卖出操作
 // 收盘价低于 lowerBand 值时提供买入操作。
 func (e *Boll) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..35b14e7 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -73,7 +73,7 @@ func (e *DonchianChannel) Calculation() *DonchianChannel {
 // 当价格冲破上下轨道时，冲入上轨是就是可能的买的信号;
 // 反之，冲破下轨时就是可能的卖的信号
 func (e *DonchianChannel) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..9c85214 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -78,7 +78,7 @@ func (e *KeltnerChannel) Calculation() *KeltnerChannel {
 //
 // 更多使用方法：https://www.oanda.com/bvi-ft/lab-education/technical_analysis/average-candlestick-chart-keltner-channel/
 func (e *KeltnerChannel) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..34a0569 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -52,7 +52,7 @@ func (e *AbsolutePriceOscillator) Calculation() *AbsolutePriceOscillator {
 
 // AnalysisSide Func
 func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..42e6efa 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -55,7 +55,7 @@ func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 
 // AnalysisSide Func
 func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/Camarilla.go b/oscillator/Camarilla.go
index b1dbfd9..83048c5 100644
--- a/oscillator/Camarilla.go
+++ b/oscillator/Camarilla.go
@@ -113,7 +113,7 @@ func (e *Camarilla) getCamarilla(high, low, close float64) *CamarillaData {
 
 // AnalysisSide Func
 func (e *Camarilla) AnalysisSide(klineItem *klines.Item) utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..9e20d70 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -70,7 +70,7 @@ func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
 
 // AnalysisSide Func
 func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..69283c2 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -108,7 +108,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 //	云带颜色从红色变为绿色（看涨），从绿色变为红色（看跌）。
 //	迟行带高于市场价格（看涨），低于市场价格（看跌）。
 func (e *IchimokuCloud) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..dc997da 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -82,7 +82,7 @@ func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
 // 正 PPO 线表示看涨趋势, 而负 PPO 线表示看跌趋势.
 // 还可以根据 PPO 线和信号线的交互方式确定动量. 每当 PPO 线越过信号线上方时，动量是看涨的, 当PPPO线越过信号线下方时，看跌.
 func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..7332436 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -79,7 +79,7 @@ func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
 
 // AnalysisSide Func
 func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..c923549 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -86,7 +86,7 @@ func (e *StochasticOscillator) Calculation() *StochasticOscillator {
 // 当指标处在高位（超买区域），并形成依次向下的波峰，而此时价格形成依次向上的波峰，这叫顶背离，是很好的做空（卖出）信号。
 // 当指标处在低位（超卖区域），并形成依次向上的波谷，而此时价格形成依次向下的波谷，这叫底背离，是很好的做多（买入）信号。
 func (e *StochasticOscillator) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..cd6adcc 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -76,7 +76,7 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 // 1、当%R指标指标小于-80时，说明市场进入了超卖区域，如果此后%R指标从-80下方回头向上穿越-80时，可以参考买入信号。
 // 2、当%R指标指标大于-20时，说明市场进入了超买区域，如果此后%R指标从-20上方回头向下穿过-20时，可以参考卖出信号。
 func (e *WilliamsR) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..cf152b6 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -77,7 +77,7 @@ func (e *AiCoinCCI) Calculation() *AiCoinCCI {
 
 // AnalysisSide Func
 func (e *AiCoinCCI) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..c1bdc74 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -148,7 +148,7 @@ func (e *Cci) Calculation() *Cci {
 
 // AnalysisSide Func
 func (e *Cci) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..96bd78d 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -100,7 +100,7 @@ func (e *EMAVegas) Calculation() *EMAVegas {
 func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	var bullMarkets = e.ohlc.BullMarket
-	sides := make([]utils.Side, len(bullMarkets))
+	sides := utils.HoldSides(len(bullMarkets))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..725273e 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -67,7 +67,7 @@ func (e *Kdj) Calculation() *Kdj {
 // AnalysisCrossSide Func
 // 分析金、死叉买卖方向
 func (e *Kdj) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..3b16f63 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -88,7 +88,7 @@ func (e *Macd) Calculation() *Macd {
 
 // AnalysisSide Func
 func (e *Macd) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..4356887 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -155,7 +155,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 	if len(e.data) == 0 {
 		e = e.Calculation()
 	}
-	sides := make([]utils.Side, len(e.data))
+	sides := utils.HoldSides(len(e.data))
 
 	for i, v := range e.data {
 		if i < 1 {
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..4d226ed 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -53,7 +53,7 @@ func (e *Rsi) Calculation() *Rsi {
 
 // AnalysisSide Func
 func (e *Rsi) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..360080e 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -68,7 +68,7 @@ func (e *StochRsi) Calculation() *StochRsi {
 
 // AnalysisSide Func
 func (e *StochRsi) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..7fa6090 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -181,7 +181,7 @@ func (e *StochasticHeat) getStoch(i int, closing, highs, lows []float64) []float
 
 // AnalysisSide Func
 func (e *StochasticHeat) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..b146fc1 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -174,7 +174,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	if len(e.data) == 0 {
 		e = e.Calculation()
 	}
-	sides := make([]utils.Side, len(e.data))
+	sides := utils.HoldSides(len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
 			continue
diff --git a/trend/TraderXO.go b/trend/TraderXO.go
index 8e4dfba..619340c 100644
--- a/trend/TraderXO.go
+++ b/trend/TraderXO.go
@@ -107,7 +107,7 @@ func (e *TraderXO) AnalysisSide() utils.SideData {
 	if len(e.data) == 0 {
 		e = e.Calculation()
 	}
-	sides := make([]utils.Side, len(e.data))
+	sides := utils.HoldSides(len(e.data))
 	// sides := make([]utils.Side, len(e.kline.Candles))
 
 	if len(e.data) == 0 {
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..8f2a676 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -106,7 +106,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 	if len(e.data) == 0 {
 		e = e.Calculation()
 	}
-	sides := make([]utils.Side, len(e.data))
+	sides := utils.HoldSides(len(e.data))
 
 	for i, v := range e.data {
 		if i < 1 {
diff --git a/utils/Side.go b/utils/Side.go
index e498806..5722a69 100644
--- a/utils/Side.go
+++ b/utils/Side.go
@@ -16,6 +16,15 @@ const (
 	Hold
 )
 
+// HoldSides 返回长度为 n 的 Side 列表，每一项都是 Hold（Side 的零值是 Buy，不能直接作为默认值）
+func HoldSides(n int) []Side {
+	sides := make([]Side, n)
+	for i := range sides {
+		sides[i] = Hold
+	}
+	return sides
+}
+
 // String implements the stringer interface
 func (s Side) String() string {
 	switch s {
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..a70e525 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -90,7 +90,7 @@ func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 // 趋势转向：股票价格仍在上升，但是资金流量指标却向下穿过80线，说明股价向上的趋势快要结束，需要注意股价下跌风险。或者股票价格仍在下跌，但是资金流量指标向上穿过20线，说明股价向下的趋势快要结束，可以考虑买入做多。
 // 底/顶背离：股价创新高(当前价格高于近期最高点)，但是资金流量指标却没有创新高，说明股价的新高缺乏支撑，存在下跌风险。
 func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
-	sides := make([]utils.Side, len(e.kline.Candles))
+	sides := utils.HoldSides(len(e.kline.Candles))
 
 	if len(e.data) == 0 {
 		e = e.Calculation()
-- 
2.43.0


From a0942c17b893b490f96417f6b1df799878e8a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 02/48] fix: Rma publishes one record per candle

Calculation appended to a slice that already had len(candles) zero records.
---
 trend/Rma.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..dd99b34 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -40,7 +40,7 @@ func (e *Rma) Calculation() *Rma {
 
 	var rma = ta.Rma(e.Period, e.kline.GetOHLC().Close)
 
-	e.data = make([]RmaData, len(rma))
+	e.data = make([]RmaData, 0, len(rma))
 	for i, value := range rma {
 
 		e.data = append(e.data, RmaData{
-- 
2.43.0


From 8f8d07c87abe9f468957addd79679601ecb51a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/48] fix: calling Calculation again replaces the records

These indicators appended a second copy of every record, after which
AnalysisSide indexed past the candles.
---
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 channel/UlcerIndex.go                   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/Ema.go                            | 1 +
 trend/Ma.go                             | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/Vortex.go                         | 1 +
 volume/AccumulationDistribution.go      | 1 +
 volume/ChaikinMoneyFlow.go              | 1 +
 volume/EaseOfMovement.go                | 1 +
 volume/ForceIndex.go                    | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 volume/NegativeVolumeIndex.go           | 1 +
 volume/Obv.go                           | 1 +
 volume/VolumePriceTrend.go              | 1 +
 volume/Vwma.go                          | 1 +
 27 files changed, 27 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 35b14e7..1b7560c 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -49,6 +49,7 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index 9c85214..e88f29b 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -50,6 +50,7 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..7df5029 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -46,6 +46,7 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 42e6efa..40b2506 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -34,6 +34,7 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index 9e20d70..b9f585c 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -49,6 +49,7 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
+	e.data = nil
 
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 69283c2..7ae17e1 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -59,6 +59,7 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
+	e.data = nil
 
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index dc997da..486c2c0 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -53,6 +53,7 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
+	e.data = nil
 
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index 7332436..22aebe7 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -47,6 +47,7 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
+	e.data = nil
 
 	period := e.Period
 	smooth := e.Smooth
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index c923549..bdc624a 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -48,6 +48,7 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index cd6adcc..46c04e2 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -46,6 +46,7 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index cf152b6..149fff7 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -60,6 +60,7 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
+	e.data = nil
 
 	close := e.kline.GetOHLC().Close
 
diff --git a/trend/Cci.go b/trend/Cci.go
index c1bdc74..1acbecd 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -68,6 +68,7 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
+	e.data = nil
 
 	hlc3 := e.kline.HLC3()
 
diff --git a/trend/Ema.go b/trend/Ema.go
index b7595f8..49ab3a4 100644
--- a/trend/Ema.go
+++ b/trend/Ema.go
@@ -38,6 +38,7 @@ func NewDefaultEma(klineItem *klines.Item) *Ema {
 
 // Calculation Func
 func (e *Ema) Calculation() *Ema {
+	e.data = nil
 	var vals = ta.Ema(e.Period, e.kline.GetOHLC().Close)
 
 	defer func() {
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..e4167d3 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -47,6 +47,7 @@ func (e *Ma) GetData() []MaData {
 
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
+	e.data = nil
 
 	closes := e.kline.GetOHLC().Close
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 4d226ed..53e1db8 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -38,6 +38,7 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
+	e.data = nil
 
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 360080e..cce0aee 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -47,6 +47,7 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
+	e.data = nil
 
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 7fa6090..0bcc4a8 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -57,6 +57,7 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..11d71ba 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -39,6 +39,7 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
+	e.data = nil
 
 	period := e.Period
 
diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..f380d26 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -45,6 +45,7 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..cb5313e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -50,6 +50,7 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..0ce63de 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -46,6 +46,7 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..2674839 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -42,6 +42,7 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a70e525..405e6e7 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -49,6 +49,7 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..3fb8a3f 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -44,6 +44,7 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..44c3e4f 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -33,6 +33,7 @@ func NewObv(klineItem *klines.Item) *Obv {
 
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..a487ab1 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -42,6 +42,7 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..cde0592 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -45,6 +45,7 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
-- 
2.43.0


From 4bf24cd317f2f8fb11d2092363fa585f27cd206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/48] fix: SortCandlesByTimestamp(desc) sorts the way it is
 asked to

desc=true sorted ascending and desc=false descending; the repository's own
TestItem_SortCandlesByTimestamp expects the opposite.
---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..ec5a278 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -192,10 +192,10 @@ func (e *Item) RemoveDuplicates() {
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
 	if desc {
-		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
+		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
 		return
 	}
-	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
+	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 }
 
 // addPadding 插入填充时间对齐，当交易所不提供所有数据时
-- 
2.43.0


From db1ca5762dbe68d4d6c7bcc5aeb8127f43fa8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 05/48] fix: Heikin-Ashi low is the minimum, and bar 1 opens
 from bar 0

Low took the maximum of the candle low and the body, and the second bar
ignored its predecessor.
---
 utils/klines/technical_analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..c716f25 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -50,7 +50,7 @@ func (e *Item) ToHeikinAshi() *Item {
 	for index, candle := range e.Candles {
 
 		var open = (candle.Open + candle.Close) / 2
-		if index > 1 {
+		if index > 0 {
 			var prev = e.Candles[index-1]
 			open = (prev.Open + prev.Close) / 2
 		}
@@ -59,7 +59,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From 6c24c201d0243edbb752f081c2bfd8346ebaa4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 06/48] fix: converting an item without candles reports an
 error

ConvertToNewInterval panicked with an index out of range.
---
 utils/klines/kline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ec5a278..6feab4a 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
-- 
2.43.0


From 848ee61fe7cfa76d349f9cc470ca69ae7da89b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 07/48] fix: converted candles start at the first candle of
 each group

The start was rounded to the new interval, so a series that does not begin on
a boundary came out with Open 0 and Inf changes, or panicked on a nil candle,
and one beginning at Unix time 0 panicked.
---
 utils/klines/kline.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 6feab4a..89aa4b6 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -79,28 +79,14 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
 	}
 
-	// 有的时候不取整，重新计算开始、结束时间
-	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
-	if err != nil {
-		panic(err)
-	}
-
-	var target int
-
-	// 对要返回的数据时间先赋值，后面好计算
-	for _, rangeHolder := range newIntervalRangeHolder.Ranges {
-		for _, intervalsData := range rangeHolder.Intervals {
-			if target >= len(candles) {
-				break
-			}
-			candles[target] = &Candle{
-				TimeUnix: intervalsData.Start.Time.Unix(),
-			}
-			target++
+	// 对要返回的数据时间先赋值，后面好计算，从第一根蜡烛开始
+	for x := range candles {
+		candles[x] = &Candle{
+			TimeUnix: start.Add(time.Duration(x) * newInterval.Duration()).Unix(),
 		}
 	}
 
-	target = 0
+	var target int
 	for x := range e.Candles {
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
-- 
2.43.0


From 4de1e72ca58e5e4519146dbeb46fb98264d31b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 08/48] fix: candles left over from an incomplete group do not
 widen the last candle

Their highs and lows leaked into the last complete converted candle.
---
 utils/klines/kline.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 89aa4b6..3ec86f5 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -89,6 +89,11 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	var target int
 	for x := range e.Candles {
 
+		// 不足以组成一根完整蜡烛的剩余部分不参与计算
+		if e.Candles[x].TimeUnix >= candles[target].TimeUnix+int64(newInterval.Duration().Seconds()) {
+			break
+		}
+
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
 			candles[target].Open = e.Candles[x].Open
 		}
-- 
2.43.0


From e1ac75a8f106a3de0a945c10c9c1a0873cec7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 09/48] fix: derived candle series keep symbol, code, volume,
 amount and count

Conversion, range copies and Heikin-Ashi silently dropped them.
---
 utils/klines/kline.go              | 6 ++++++
 utils/klines/technical_analysis.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 3ec86f5..37f8d4d 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -108,6 +108,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix || (e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))) {
 			candles[target].Volume += e.Candles[x].Volume
+			candles[target].Amount += e.Candles[x].Amount
+			candles[target].Count += e.Candles[x].Count
 		}
 		if (e.Candles[x].TimeUnix + int64(e.Interval.Duration().Seconds())) == (candles[target].TimeUnix + int64(newInterval.Duration().Seconds())) {
 			candles[target].Close = e.Candles[x].Close
@@ -131,6 +133,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	}
 	return &Item{
 		Exchange: e.Exchange,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Interval: newInterval,
 		Candles:  candles,
 	}, nil
@@ -148,6 +152,8 @@ func (e *Item) RemoveOutsideRangeCopy(start, end time.Time) *Item {
 
 	klineItem := &Item{
 		Exchange: e.Exchange,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Interval: e.Interval,
 		Candles:  candles,
 	}
diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index c716f25..5ab1425 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -43,6 +43,8 @@ func (e *Item) GetOHLC() *OHLC {
 func (e *Item) ToHeikinAshi() *Item {
 	var result = &Item{
 		Exchange: e.Exchange,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Interval: e.Interval,
 	}
 
@@ -60,6 +62,9 @@ func (e *Item) ToHeikinAshi() *Item {
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
 			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
+			Amount:   candle.Amount,
+			Count:    candle.Count,
+			Volume:   candle.Volume,
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From f93070fdb3fa0987d2e524d5662cf95e2772f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 10/48] fix: the standard deviation of no values is 0

SD returned NaN; the repository's own test expects 0.
---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..d68f4a9 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -200,6 +200,10 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From 7225cf260a856d7e14033b9477fdef40378848dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 11/48] fix: the Rma warm-up averages include the first value

R[0] to R[p-1] is documented as SMA(values); value 0 was left out of the sum
but counted in the divisor.
---
 utils/ta/ta.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index d68f4a9..df62e42 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -297,9 +297,6 @@ func Rma(period int, values []float64) []float64 {
 	sum := float64(0)
 
 	for i, value := range values {
-		if i < 1 {
-			continue
-		}
 		count := i + 1
 		if i < period {
 			sum += value
-- 
2.43.0


From dc04c758d81b8cb597518c0b8903f07a58c16d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 12/48] fix: series shorter than the period yield zeros instead
 of a panic

LinearReg*, Wma, Atr, Natr, Variance and StdDev indexed past the end, which
took SuperTrend, PivotPointSuperTrend, UTBot, LinearRegressionCandles and
StochasticHeat down with them.
---
 utils/ta/ta.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index df62e42..10d53d1 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -344,6 +360,10 @@ func Wma(period int, values []float64) []float64 {
 
 	result := make([]float64, len(values))
 
+	if len(values) < period {
+		return result
+	}
+
 	lookbackTotal := period - 1
 	startIdx := lookbackTotal
 
@@ -452,6 +472,10 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	outIdx := inTimePeriod
 	today := inTimePeriod + 1
 
@@ -484,6 +508,10 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	outIdx := inTimePeriod
 	today := inTimePeriod
@@ -1002,6 +1030,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From 65a391e4e1066e8f5512f5931121881e839cd086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 13/48] fix: Rsi of exactly Period candles does not panic

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 53e1db8..13bc5f0 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -105,7 +105,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 08469f9ab26dfc8670d803f210060b39eb9249e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 14/48] fix: VolumePriceTrend of no candles does not panic

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index a487ab1..e2a3cfd 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -49,6 +49,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From 0f3e031cd194b4a6e3ffc6e451216ad3fd28d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 15/48] fix: Kdj with a period of 1 does not panic on the first
 candle

---
 trend/Kdj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 725273e..4ff95e2 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -164,8 +164,12 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 6d0421ee079391e8f02ac5b3b6ae709f35f865b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 16/48] fix: Kdj.GetListK/D/J calculate when needed, as every
 other getter does

---
 trend/Kdj.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4ff95e2..4f35e30 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -104,6 +104,9 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -113,6 +116,9 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -122,6 +128,9 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From c2b32e8a35c8827d4978c2532e496fee7bf43e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 17/48] fix: the first true range of Atr is high - low

The missing previous close was taken as 0, which made it the full price.
---
 trend/Atr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..18f6dfa 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -52,7 +52,8 @@ func (e *Atr) Calculation() *Atr {
 		// klineItem := e.kline[i]
 		var AtrPointStruct AtrData
 		// TR= | 最高价 - 最低价 | 和 | 最高价 - 昨日收盘价 | 和 | 昨日收盘价 - 最低价 | 的最大值
-		var prevClose float64
+		// 第一根没有前收盘价，TR 就是 high - low
+		var prevClose = lows[i]
 		if i != 0 {
 			prevClose = closes[i-1]
 		}
-- 
2.43.0


From 318f6d39da260d51feeb36ed37671a25865b4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 18/48] fix: the true range of Atr covers gaps down

The distances to the previous close were signed, so a gap down counted only
the bar's own range.
---
 trend/Atr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 18f6dfa..bd02848 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -57,7 +57,7 @@ func (e *Atr) Calculation() *Atr {
 		if i != 0 {
 			prevClose = closes[i-1]
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
+		tr[i] = math.Max(highs[i]-lows[i], math.Max(math.Abs(highs[i]-prevClose), math.Abs(lows[i]-prevClose)))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 74a1922b4926eabd3956dfebd15e65483aff2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 19/48] fix: WilliamsR of a flat window is 0, not NaN

---
 oscillator/WilliamsR.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 46c04e2..46f399f 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -58,11 +58,9 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	highestHigh := ta.Max(period, high)
 	lowestLow := ta.Min(period, low)
 
-	result := make([]float64, len(closing))
-
-	for i := 0; i < len(closing); i++ {
-		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
-	}
+	result := ta.MultiplyBy(ta.Divide(
+		ta.Subtract(highestHigh, closing),
+		ta.Subtract(highestHigh, lowestLow)), float64(-100))
 
 	for i := 0; i < len(result); i++ {
 		e.data = append(e.data, WilliamsRData{
-- 
2.43.0


From d9b4a3510d643bf4a88924e393d0dd92439fa636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 20/48] fix: CCI of a flat window is 0, not NaN

AiCoinCCI already does the same.
---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 10d53d1..353ea07 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -424,6 +424,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
+		if md[i] == 0 {
+			continue
+		}
 		typicalPrice := typicalPrices[i]
 		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
 		ccis[i] = cci
-- 
2.43.0


From b0b8740fe4b0bd9a84e565d964ff955f11d8eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 21/48] fix: Vortex of a flat window is 0, not NaN

---
 trend/Vortex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 11d71ba..05d4e88 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -76,8 +76,10 @@ func (e *Vortex) Calculation() *Vortex {
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
 		trSum += tr[j]
 
-		plusVi[i] = plusVmSum / trSum
-		minusVi[i] = minusVmSum / trSum
+		if trSum != 0 {
+			plusVi[i] = plusVmSum / trSum
+			minusVi[i] = minusVmSum / trSum
+		}
 	}
 
 	for i := 0; i < len(plusVi); i++ {
-- 
2.43.0


From 133c07784fff8851201b4320e306204e30d9a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 22/48] fix: a flat or motionless stretch does not turn the ADX
 into 0 for good

0/0 put a NaN into the running sum of the directional index, which never
recovered.
---
 trend/AverageDirectionalIndex.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..23469c8 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,9 +122,13 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
-		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
-		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
-		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
+		if smoothedTR[i] != 0 {
+			plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
+			minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
+		}
+		if sum := plusDI[i] + minusDI[i]; sum != 0 {
+			dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / sum)
+		}
 	}
 
 	// 对 DX 进行平滑处理
-- 
2.43.0


From 351822d671b4a75c81b3af3d17faff5fb560d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 23/48] fix: the moving least square line through one point is
 flat, not NaN

The NaN stayed in the first Period bars of ProjectionOscillator, whose values
were all reported as 0.
---
 utils/regression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/regression.go b/utils/regression.go
index 6154ef0..00b0d00 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -57,7 +57,10 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 			n = float64(period)
 		}
 
-		m[i] = ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+		// 只有一个点时斜率为 0
+		if divisor := (n * sumX2) - (sumX * sumX); divisor != 0 {
+			m[i] = ((n * sumXY) - (sumX * sumY)) / divisor
+		}
 		b[i] = (sumY - (m[i] * sumX)) / n
 	}
 
-- 
2.43.0


From be945346b59490ac799c9786187ad74212121000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:46 +0000
Subject: [PATCH 24/48] fix: the first record carries the time of the first
 candle

UTBot, PivotPointSuperTrend and BreakoutProbability left it at year 1.
---
 trend/BreakoutProbability.go  | 3 +++
 trend/PivotPointSuperTrend.go | 3 +++
 trend/UTBot.go                | 1 +
 3 files changed, 7 insertions(+)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..e47d1aa 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -109,6 +109,9 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 	}()
 
 	e.data = make([]BreakoutProbabilityData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index 4356887..3d75ca1 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -89,6 +89,9 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 	}()
 
 	e.data = make([]PivotPointSuperTrendData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 
 	for i := 1; i < len(closes); i++ {
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index 8f2a676..a3f938b 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -73,6 +73,7 @@ func (e *UTBot) Calculation() *UTBot {
 	e.data = make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
+			e.data[i] = UTBotData{Time: time.Unix(times[i], 0), Close: close}
 			continue
 		}
 		// var prevClose = closeing[i-1]
-- 
2.43.0


From 2aeece29ad4bd4c068373497837334ef7e64a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:46 +0000
Subject: [PATCH 25/48] fix: Boll signals a sell when the close falls through
 the lower band

The previous close was compared with itself, so there never was a sell.
---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index df5ab64..660e4db 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -139,7 +139,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From 60503f57135d971db1464bdfc2a97b288958127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 26/48] fix: the Boll deviation of flat prices is 0, not NaN

The variance of a flat window is a rounding error that may be negative.
---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 660e4db..7577c73 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(sum2/float64(period) - sma[i]*sma[i], 0))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From 9d3973b1cfc71165d7dc020b4e3ad074781af7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 27/48] fix: the Boll bands are PeriodK deviations wide

PeriodK was ignored; the header comment documents MB +/- 2 x MD.
---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 7577c73..0390599 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var width = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, width)
+	var lower = ta.Subtract(middle, width)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From 9eec7aca26b7e806878b84c62b5d74ce48ed844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 28/48] fix: MoneyFlowIndex is 100, not 0, when no money flows
 out

The infinite money ratio was replaced by 0.
---
 volume/MoneyFlowIndex.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index 405e6e7..7172d7d 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -70,11 +70,10 @@ func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 	positiveMoneyFlow := ta.KeepPositives(moneyFlow)
 	negativeMoneyFlow := ta.KeepNegatives(moneyFlow)
 
-	moneyRatio := ta.Divide(
-		ta.Sum(period, positiveMoneyFlow),
-		ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1)))
+	positiveSum := ta.Sum(period, positiveMoneyFlow)
+	negativeSum := ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1))
 
-	moneyFlowIndex := ta.AddBy(ta.MultiplyBy(ta.Pow(ta.AddBy(moneyRatio, 1), -1), -100), 100)
+	moneyFlowIndex := ta.MultiplyBy(ta.Divide(positiveSum, ta.Add(positiveSum, negativeSum)), 100)
 
 	for i := 0; i < len(moneyFlowIndex); i++ {
 		e.data = append(e.data, MoneyFlowIndexData{
-- 
2.43.0


From de589fc7bccef6e532c8421533014364e78b7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 29/48] fix: the Ichimoku conversion line uses one period for
 high and low

The highest high was always taken over 9 bars.
---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7ae17e1..a95ff4b 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -70,7 +70,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From 533484841548c9d744e261194df368651260cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 30/48] fix: CheckEquals compares every pair to its end

It reported equality as soon as one pair ended, whatever the other pairs still
held, and never returned when given no pairs.
---
 helpertools/CheckEquals.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..d664305 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -12,10 +12,15 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 		return errors.New("not pairs")
 	}
 
-	i := 0
+	ended := make([]bool, len(inputs)/2)
+	open := len(ended)
 
-	for {
+	for i := 0; open > 0; i++ {
 		for j := 0; j < len(inputs); j += 2 {
+			if ended[j/2] {
+				continue
+			}
+
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
 
@@ -24,14 +29,16 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
-				return nil
+				ended[j/2] = true
+				open--
+				continue
 			}
 
 			if !reflect.DeepEqual(actual, expected) {
 				return fmt.Errorf("index %d pair %d actual %v expected %v", i, j/2, actual, expected)
 			}
 		}
-
-		i++
 	}
+
+	return nil
 }
-- 
2.43.0


From d55882460b179da756be08200c0e562fcac86c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 31/48] fix: removing an order block that is not listed leaves
 the list as it was

Remove returned nil, losing every other block.
---
 trend/SmartMoneyConcepts_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts_type.go b/trend/SmartMoneyConcepts_type.go
index 2b71777..b189c8f 100644
--- a/trend/SmartMoneyConcepts_type.go
+++ b/trend/SmartMoneyConcepts_type.go
@@ -51,5 +51,5 @@ func (e SmartMoneyConceptsDataOrderBlockList) Remove(k SmartMoneyConceptsDataOrd
 		}
 	}
 
-	return nil
+	return list
 }
-- 
2.43.0


From cf03ba98bef469bf16e05ac1c6310c2c6e469223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 32/48] fix: a break of the swing low is judged by the swing
 trend

It looked at the internal trend, which the same bar may just have turned; the
other three structure breaks and SmartMoneyConcepts.pine use their own trend.
---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..5d2ea21 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -313,7 +313,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
 
 			var choch = false
-			if itrend > 0 {
+			if trend > 0 {
 				choch = true
 			}
 
-- 
2.43.0


From 1f1fd7201cd5a4c07ef64eff20a86f49da805a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 33/48] fix: SmartMoneyConcepts records before SwingLenght
 carry their time

---
 trend/SmartMoneyConcepts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 5d2ea21..9b6cfa6 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,9 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 
 	var trend = 0
 	var itrend = 0
-- 
2.43.0


From 987487bf90297664d34b74a3224ab5b722455847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 34/48] fix: calculating SmartMoneyConcepts again starts from
 scratch

The swing state and the order blocks of the previous run leaked into the next.
---
 trend/SmartMoneyConcepts.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b6cfa6..ef96b57 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -133,6 +133,13 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 	var atr = ta.Atr(highs, lows, closes, 200)
 
+	// 每次计算都从头开始
+	e.os1Prev, e.os2Prev = 0, 0
+	e.idxPrevBullish, e.idxPrevBearish = 0, 0
+	e.OrderBlockBullish, e.OrderBlockBearish = nil, nil
+	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+
 	e.data = make([]SmartMoneyConceptsData, len(closes))
 	for i := range e.data {
 		e.data[i].Time = time.Unix(times[i], 0)
-- 
2.43.0


From b9f47679f31f9ecdb9a639f790b72e07dd24bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 35/48] fix: ConvertToNewInterval refuses candles that are not
 evenly spaced

---
 utils/klines/kline.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 37f8d4d..0ac030b 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -73,6 +73,17 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	for x := range e.Candles {
+		if expected := start.Add(time.Duration(x) * e.Interval.Duration()).Unix(); e.Candles[x].TimeUnix != expected {
+			return nil, fmt.Errorf("%w expected a candle at %d but have %d when converting from %s to %s interval",
+				errCandleDataNotPadded,
+				expected,
+				e.Candles[x].TimeUnix,
+				e.Interval,
+				newInterval)
+		}
+	}
+
 	oldIntervalsPerNewCandle := int(newInterval / e.Interval)
 	candles := make([]*Candle, len(e.Candles)/oldIntervalsPerNewCandle)
 	if len(candles) == 0 {
-- 
2.43.0


From 4268e0ee1bc1bbc0da26aef24476dbb43fa7d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 36/48] fix: sums over a window leave no rounding residue
 behind

After a window without volume, MoneyFlowIndex, ChaikinMoneyFlow and Vwma
divided the residues of values that had left it.
---
 utils/ta/ta.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 353ea07..6e18c3a 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -958,10 +958,14 @@ func Sum(period int, values []float64) []float64 {
 	sum := 0.0
 
 	for i := 0; i < len(values); i++ {
-		sum += values[i]
-
-		if i >= period {
-			sum -= values[i-period]
+		if i < period {
+			sum += values[i]
+		} else {
+			// summed afresh: subtracting what left the window keeps its rounding residue
+			sum = 0
+			for _, value := range values[i-period+1 : i+1] {
+				sum += value
+			}
 		}
 
 		result[i] = sum
-- 
2.43.0


From e425da59b021bd0a6dfc2f5d574cd8ff90d4393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 37/48] fix: KDJ takes the range of cheap assets for none

A window whose range is below 0.000001 counted as flat, so that RSV was
100 on every bar of an asset priced at 0.00001.
---
 trend/Kdj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4f35e30..0d5be13 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -167,7 +167,7 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 			lowest := e.arrayLowest(periodLowArr)
 			highest := e.arrayHighest(periodHighArr)
 
-			if highest-lowest < 0.000001 {
+			if highest == lowest {
 				rsv[i] = 100
 			} else {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
-- 
2.43.0


From 3e47d22f8dce830d4d944013aeaa92b1bad53b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 38/48] fix: PivotMax and PivotMin report the extreme they
 found

When both sides held the same extreme, the value at the index itself was
reported instead, and PivotMax took 0 for the largest of negative values.
---
 utils/ta/ta.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6e18c3a..729b318 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -870,10 +870,8 @@ func PivotLow(values []float64, left, right int) []float64 {
 
 // PivotMax 以 index 为起始点，向 左、右 开始查找最大值
 func PivotMax(values []float64, index, left, right int) (val float64, position int) {
-	var leftVal, rightVal float64
-
-	// val = values[index]
-	position = index
+	var leftVal = values[index]
+	var rightVal = values[index]
 
 	var leftPositions = index
 	var rightPositions = index
@@ -901,12 +899,10 @@ func PivotMax(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal > rightVal {
+	if leftVal >= rightVal {
 		return leftVal, leftPositions
-	} else if leftVal < rightVal {
-		return rightVal, rightPositions
 	}
-	return values[index], index
+	return rightVal, rightPositions
 
 }
 
@@ -943,12 +939,10 @@ func PivotMin(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal < rightVal {
+	if leftVal <= rightVal {
 		return leftVal, leftPositions
-	} else if leftVal > rightVal {
-		return rightVal, rightPositions
 	}
-	return values[index], index
+	return rightVal, rightPositions
 
 }
 
-- 
2.43.0


From 15b85a2293979e346b49fab4504ade32644d75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:34 +0000
Subject: [PATCH 39/48] fix: rounding a number too large to have decimals
 returns it unchanged

---
 helpertools/RoundDigit.go | 7 ++++++-
 utils/ta/ta.go            | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/helpertools/RoundDigit.go b/helpertools/RoundDigit.go
index 86fc4cb..40d1321 100644
--- a/helpertools/RoundDigit.go
+++ b/helpertools/RoundDigit.go
@@ -18,5 +18,10 @@ func RoundDigit[T commonutils.Number](n T, d int) T {
 	for i := 0; i < d; i++ {
 		factor *= 10
 	}
-	return T(math.Round(float64(n)*factor) / factor)
+	scaled := float64(n) * factor
+	// 放大后已经没有小数位（或超出 float64 范围），原值就是结果
+	if math.Abs(scaled) >= 1<<53 {
+		return n
+	}
+	return T(math.Round(scaled) / factor)
 }
diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 729b318..88b1801 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -671,6 +671,11 @@ func RoundDigits(value float64, digits int) float64 {
 	// 计算10 的 digits 次幂
 	n := math.Pow(10, float64(digits))
 
+	// 放大后已经没有小数位（或超出 float64 范围），原值就是结果
+	if math.Abs(value*n) >= 1<<53 {
+		return value
+	}
+
 	// 返回最接近的整数，从零四舍五入
 	return math.Round(value*n) / n
 }
-- 
2.43.0


From c936e90f55ff4dd98976a442e4d7b5c66e48d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 40/48] fix: RSI measures the moves of cheap assets too

---
 trend/Rsi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 13bc5f0..8c3695a 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -141,7 +141,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 	if today > 0 {
 
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 > 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
@@ -183,7 +183,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 		prevLoss /= float64(inTimePeriod)
 		prevGain /= float64(inTimePeriod)
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 > 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
-- 
2.43.0


From f015803308b4ff49173dc14e8f9053269d012ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 41/48] fix: order block search covers prices above 99999999

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index ef96b57..e1e7d69 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -449,7 +449,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList, obType int) SmartMoneyConceptsDataOrderBlockList {
 
-	var min = 99999999.0
+	var min = math.MaxFloat64
 	var max = 0.0
 	var idx = 1
 	var ob_threshold = atr
-- 
2.43.0


From e9da817848ae21465c49621ea3d7966279fe3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 42/48] fix: StochRsi ignores the rounding jitter of an
 unchanged RSI

---
 trend/StochRsi.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index cce0aee..54fe7fb 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -54,7 +54,15 @@ func (e *StochRsi) Calculation() *StochRsi {
 	highestHigh := ta.Max(e.StochLength, rsi)
 	lowestLow := ta.Min(e.StochLength, rsi)
 
-	k := ta.Ema(e.SmoothK, ta.MultiplyBy(ta.Divide(ta.Subtract(rsi, lowestLow), ta.Subtract(highestHigh, lowestLow)), float64(100)))
+	// Rsi 在 0..100 之间，价格不变时只会因舍入而抖动，这样的波动不算
+	rsiRange := ta.Subtract(highestHigh, lowestLow)
+	for i, v := range rsiRange {
+		if v < 1e-9 {
+			rsiRange[i] = 0
+		}
+	}
+
+	k := ta.Ema(e.SmoothK, ta.MultiplyBy(ta.Divide(ta.Subtract(rsi, lowestLow), rsiRange), float64(100)))
 	d := ta.Ema(e.SmoothD, k)
 
 	for i := 0; i < len(k); i++ {
-- 
2.43.0


From 7f65b73110285f590d65a02ded5521f50299b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 43/48] fix: Vortex sums its window afresh, leaving no residue
 of past bars

---
 trend/Vortex.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 05d4e88..b263e28 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -55,26 +55,25 @@ func (e *Vortex) Calculation() *Vortex {
 	minusVm := make([]float64, period)
 	tr := make([]float64, period)
 
-	var plusVmSum, minusVmSum, trSum float64
-
 	for i := 1; i < len(high); i++ {
 		j := i % period
 
-		plusVmSum -= plusVm[j]
 		plusVm[j] = math.Abs(high[i] - low[i-1])
-		plusVmSum += plusVm[j]
-
-		minusVmSum -= minusVm[j]
 		minusVm[j] = math.Abs(low[i] - high[i-1])
-		minusVmSum += minusVm[j]
 
 		highLow := high[i] - low[i]
 		highPrevClosing := math.Abs(high[i] - closing[i-1])
 		lowPrevClosing := math.Abs(low[i] - closing[i-1])
 
-		trSum -= tr[j]
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
-		trSum += tr[j]
+
+		// 每次重新求和：减去离开窗口的值会留下舍入误差
+		var plusVmSum, minusVmSum, trSum float64
+		for n := range tr {
+			plusVmSum += plusVm[n]
+			minusVmSum += minusVm[n]
+			trSum += tr[n]
+		}
 
 		if trSum != 0 {
 			plusVi[i] = plusVmSum / trSum
-- 
2.43.0


From 705b7bc03a34665a5f10b39f78e1d4cd4ffe7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 44/48] fix: moving least squares of an unchanging window has
 slope 0

---
 utils/regression.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/utils/regression.go b/utils/regression.go
index 00b0d00..494b407 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -39,29 +39,28 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 	m := make([]float64, len(x))
 	b := make([]float64, len(x))
 
-	var sumX, sumX2, sumY, sumXY float64
-
 	for i := 0; i < len(x); i++ {
-		sumX += x[i]
-		sumX2 += x[i] * x[i]
-		sumY += y[i]
-		sumXY += x[i] * y[i]
-
-		n := float64(i + 1)
-
+		start := 0
 		if i >= period {
-			sumX -= x[i-period]
-			sumX2 -= x[i-period] * x[i-period]
-			sumY -= y[i-period]
-			sumXY -= x[i-period] * y[i-period]
-			n = float64(period)
+			start = i - period + 1
+		}
+		n := float64(i - start + 1)
+
+		// 相对于窗口的最后一个点求和：没有变化的窗口斜率恰好为 0，也不会留下已离开窗口的值的误差
+		var sumX, sumX2, sumY, sumXY float64
+		for j := start; j <= i; j++ {
+			dx, dy := x[j]-x[i], y[j]-y[i]
+			sumX += dx
+			sumX2 += dx * dx
+			sumY += dy
+			sumXY += dx * dy
 		}
 
 		// 只有一个点时斜率为 0
 		if divisor := (n * sumX2) - (sumX * sumX); divisor != 0 {
 			m[i] = ((n * sumXY) - (sumX * sumY)) / divisor
 		}
-		b[i] = (sumY - (m[i] * sumX)) / n
+		b[i] = y[i] + (sumY-(m[i]*sumX))/n - m[i]*x[i]
 	}
 
 	return m, b
-- 
2.43.0


From cf56a567b2e759bb41e67b5e68957f28c0eaf3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:10 +0000
Subject: [PATCH 45/48] fix: variance of nearly equal values does not drown in
 rounding

---
 utils/ta/ta.go | 48 +++++++++++++++---------------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 88b1801..bafde3d 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1040,38 +1040,20 @@ func Variance(inReal []float64, inTimePeriod int) []float64 {
 		return outReal
 	}
 
-	nbInitialElementNeeded := inTimePeriod - 1
-	startIdx := nbInitialElementNeeded
-	periodTotal1 := 0.0
-	periodTotal2 := 0.0
-	trailingIdx := startIdx - nbInitialElementNeeded
-	i := trailingIdx
-	if inTimePeriod > 1 {
-		for i < startIdx {
-			tempReal := inReal[i]
-			periodTotal1 += tempReal
-			tempReal *= tempReal
-			periodTotal2 += tempReal
-			i++
+	for i := inTimePeriod - 1; i < len(inReal); i++ {
+		// 相对于窗口最后一个值计算，避免大数相减的误差：值都相同时方差恰好为 0
+		window := inReal[i-inTimePeriod+1 : i+1]
+		sum := 0.0
+		for _, value := range window {
+			sum += value - inReal[i]
 		}
-	}
-	outIdx := startIdx
-	for ok := true; ok; {
-		tempReal := inReal[i]
-		periodTotal1 += tempReal
-		tempReal *= tempReal
-		periodTotal2 += tempReal
-		meanValue1 := periodTotal1 / float64(inTimePeriod)
-		meanValue2 := periodTotal2 / float64(inTimePeriod)
-		tempReal = inReal[trailingIdx]
-		periodTotal1 -= tempReal
-		tempReal *= tempReal
-		periodTotal2 -= tempReal
-		outReal[outIdx] = meanValue2 - meanValue1*meanValue1
-		i++
-		trailingIdx++
-		outIdx++
-		ok = i < len(inReal)
+		mean := sum / float64(inTimePeriod)
+		sumOfSquares := 0.0
+		for _, value := range window {
+			diff := value - inReal[i] - mean
+			sumOfSquares += diff * diff
+		}
+		outReal[i] = sumOfSquares / float64(inTimePeriod)
 	}
 	return outReal
 }
@@ -1112,7 +1094,7 @@ func StdDev(inReal []float64, inTimePeriod int, inNbDev float64) []float64 {
 	if inNbDev != 1.0 {
 		for i := 0; i < len(inReal); i++ {
 			tempReal := outReal[i]
-			if !(tempReal < 0.00000000000001) {
+			if tempReal > 0 {
 				outReal[i] = math.Sqrt(tempReal) * inNbDev
 			} else {
 				outReal[i] = 0.0
@@ -1121,7 +1103,7 @@ func StdDev(inReal []float64, inTimePeriod int, inNbDev float64) []float64 {
 	} else {
 		for i := 0; i < len(inReal); i++ {
 			tempReal := outReal[i]
-			if !(tempReal < 0.00000000000001) {
+			if tempReal > 0 {
 				outReal[i] = math.Sqrt(tempReal)
 			} else {
 				outReal[i] = 0.0
-- 
2.43.0


From 21331fd0237629c1dfcb80ec27d0c2d5c0f7c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:10 +0000
Subject: [PATCH 46/48] fix: the average of equal values is exactly that value

---
 utils/ta/ta.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index bafde3d..68ddab4 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -251,11 +251,12 @@ func MA(source []float64, length int) []float64 {
 	}
 
 	for i := length - 1; i < n; i++ {
+		// 相对于最后一个值求和：窗口内的值都相同时均值恰好是该值
 		var sum float64
 		for j := i - length + 1; j <= i; j++ {
-			sum += source[j]
+			sum += source[j] - source[i]
 		}
-		ma[i] = sum / float64(length)
+		ma[i] = source[i] + sum/float64(length)
 	}
 	return ma
 }
@@ -263,18 +264,20 @@ func MA(source []float64, length int) []float64 {
 // 简单移动均线简写为SMA，有时候也直接记为MA。 移动平均线，SMA(N)它将指定周期内的收盘价格之和除以周期N得到的一个指标
 func Sma(period int, values []float64) []float64 {
 	result := make([]float64, len(values))
-	sum := float64(0)
 
 	for i, value := range values {
 		count := i + 1
-		sum += value
-
 		if i >= period {
-			sum -= values[i-period]
 			count = period
 		}
 
-		val := sum / float64(count)
+		// 相对于最后一个值求和：窗口内的值都相同时均值恰好是该值，也不会留下已离开窗口的值的误差
+		sum := float64(0)
+		for _, v := range values[i+1-count : i+1] {
+			sum += v - value
+		}
+
+		val := value + sum/float64(count)
 		if math.IsNaN(val) || math.IsInf(val, -1) {
 			result[i] = 0
 		} else {
@@ -1071,9 +1074,9 @@ func Dev(source []float64, length int) []float64 {
 		// 计算窗口内 MA
 		var sum float64
 		for j := i - length + 1; j <= i; j++ {
-			sum += source[j]
+			sum += source[j] - source[i]
 		}
-		ma := sum / float64(length)
+		ma := source[i] + sum/float64(length)
 
 		// 计算窗口内 dev
 		var devSum float64
-- 
2.43.0


From 00f75be9e6de44ab165a47f1a015433237a8b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 47/48] fix: Bollinger deviation does not drown in rounding at
 high prices

---
 channel/Boll.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 0390599..32f595c 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -77,16 +77,14 @@ func NewDefaultBoll(klineItem *klines.Item) *Boll {
 func (e *Boll) dma(sma []float64) []float64 {
 	result := make([]float64, len(e.kline.Candles))
 	period := e.PeriodN
-	sum2 := 0.0
-	for i, v := range e.kline.Candles {
-		sum2 += v.Close * v.Close
-		if i < period-1 {
-			result[i] = 0.0
-		} else {
-			result[i] = math.Sqrt(math.Max(sum2/float64(period) - sma[i]*sma[i], 0))
-			w := e.kline.Candles[i-(period-1)].Close
-			sum2 -= w * w
+	for i := period - 1; i < len(result); i++ {
+		// 对与均值的差求和，避免大数的平方相减的误差
+		sum2 := 0.0
+		for _, v := range e.kline.Candles[i-(period-1) : i+1] {
+			diff := v.Close - sma[i]
+			sum2 += diff * diff
 		}
+		result[i] = math.Sqrt(sum2 / float64(period))
 	}
 
 	return result
-- 
2.43.0


From 3d00a9f9e927ed7a392ac646ccbabf464d95069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:59 +0000
Subject: [PATCH 48/48] fix: AiCoinCCI scales by the factor it is given

---
 utils/ta/ta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 68ddab4..e6115f8 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -455,7 +455,7 @@ func AiCoinCCI(close []float64, period int, factor float64) []float64 {
 			cci[i] = 0 // 或者 math.NaN()
 			continue
 		}
-		cci[i] = (close[i] - matp[i]) / (0.015 * md[i])
+		cci[i] = (close[i] - matp[i]) / (factor * md[i])
 	}
 	return cci
 
-- 
2.43.0

