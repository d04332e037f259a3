From 85bd47a2b8184f430f0f296b0bfd4a4b166be311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 01/20] fix: recalculating a channel indicator replaces its
 results instead of appending to them

---
 channel/DonchianChannel.go | 2 ++
 channel/KeltnerChannel.go  | 2 ++
 channel/UlcerIndex.go      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..5b1f17c 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -50,6 +50,8 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var closing = e.kline.GetOHLC().Close
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..052533d 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -51,6 +51,8 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
 
+	e.data = nil
+
 	var period = e.Period
 
 	_, atr := trend.NewAtr(e.kline, period).GetValues()
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..49abc23 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -47,6 +47,8 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var closing = e.kline.GetOHLC().Close
-- 
2.43.0


From b0436fd56ded97f93bb02aaff867fc325c9aec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 02/20] fix: recalculating a trend indicator replaces its
 results instead of appending to them

---
 trend/AiCoinCCI.go      | 2 ++
 trend/Cci.go            | 2 ++
 trend/Ma.go             | 2 ++
 trend/Rsi.go            | 2 ++
 trend/StochRsi.go       | 2 ++
 trend/StochasticHeat.go | 2 ++
 trend/Vortex.go         | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..99242ef 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -61,6 +61,8 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
 
+	e.data = nil
+
 	close := e.kline.GetOHLC().Close
 
 	ccis := ta.AiCoinCCI(close, e.Period, e.factor)
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..af4b061 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -69,6 +69,8 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
 
+	e.data = nil
+
 	hlc3 := e.kline.HLC3()
 
 	ccis := ta.CCI(hlc3, e.Period, e.SMAPeriod)
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..c28d943 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -48,6 +48,8 @@ func (e *Ma) GetData() []MaData {
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
 
+	e.data = nil
+
 	closes := e.kline.GetOHLC().Close
 
 	// get maData
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..549b98f 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -39,6 +39,8 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
 
+	e.data = nil
+
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
 	rsiArrayLen := len(rsiArray)
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..432e1e3 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -48,6 +48,8 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
 
+	e.data = nil
+
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
 	highestHigh := ta.Max(e.StochLength, rsi)
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..2a108b1 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -58,6 +58,8 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
 	var lows = ohlc.Low
diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..0adf564 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -40,6 +40,8 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
 
+	e.data = nil
+
 	period := e.Period
 
 	var ohlc = e.kline.GetOHLC()
-- 
2.43.0


From f5486f4ccc5f199384299d708c02258565af2d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 03/20] fix: recalculating an oscillator replaces its results
 instead of appending to them

---
 oscillator/AwesomeOscillator.go         | 2 ++
 oscillator/ChaikinOscillator.go         | 2 ++
 oscillator/IchimokuCloud.go             | 2 ++
 oscillator/PercentagePriceOscillator.go | 2 ++
 oscillator/ProjectionOscillator.go      | 2 ++
 oscillator/StochasticOscillator.go      | 2 ++
 oscillator/WilliamsR.go                 | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..3cc8164 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -35,6 +35,8 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
 	var low = ohlc.Low
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..2d0a0ef 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -50,6 +50,8 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
 
+	e.data = nil
+
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
 	fastEMA := ta.Ema(e.FastPeriod, ad)
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..b6bd4fe 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -60,6 +60,8 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 
+	e.data = nil
+
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
 	laggingLinePeriod := e.LaggingLinePeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..b1be751 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -54,6 +54,8 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
 
+	e.data = nil
+
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
 	var signalPeriod = e.SignalPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..c4122c3 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -48,6 +48,8 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
 
+	e.data = nil
+
 	period := e.Period
 	smooth := e.Smooth
 	var ohlc = e.kline.GetOHLC()
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..a5711d1 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -49,6 +49,8 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var ohlc = e.kline.GetOHLC()
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..ddf00e5 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -47,6 +47,8 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var ohlc = e.kline.GetOHLC()
-- 
2.43.0


From baa528ae98032680a951a741f39491206fcd422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 04/20] fix: recalculating a volume indicator replaces its
 results instead of appending to them

---
 volume/AccumulationDistribution.go | 2 ++
 volume/ChaikinMoneyFlow.go         | 2 ++
 volume/EaseOfMovement.go           | 2 ++
 volume/ForceIndex.go               | 2 ++
 volume/MoneyFlowIndex.go           | 2 ++
 volume/NegativeVolumeIndex.go      | 2 ++
 volume/Obv.go                      | 2 ++
 volume/VolumePriceTrend.go         | 2 ++
 volume/Vwma.go                     | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..cde2c70 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -46,6 +46,8 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
 	var low = ohlc.Low
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..d5fea2e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -51,6 +51,8 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..d2e6e5c 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -47,6 +47,8 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..3860fce 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -43,6 +43,8 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..4b2f61b 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -50,6 +50,8 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..a4139ca 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -45,6 +45,8 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..1f56eae 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -34,6 +34,8 @@ func NewObv(klineItem *klines.Item) *Obv {
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
 	var volumes = ohlc.Volume
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..adf22d4 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -43,6 +43,8 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..d09da40 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -46,6 +46,8 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
-- 
2.43.0


From 937f8f997df726bc2c5a1269123233779ccc291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 05/20] fix: Rma returns one entry per candle, not a zero entry
 per candle in front of them

---
 trend/Rma.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..dd99b34 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -40,7 +40,7 @@ func (e *Rma) Calculation() *Rma {
 
 	var rma = ta.Rma(e.Period, e.kline.GetOHLC().Close)
 
-	e.data = make([]RmaData, len(rma))
+	e.data = make([]RmaData, 0, len(rma))
 	for i, value := range rma {
 
 		e.data = append(e.data, RmaData{
-- 
2.43.0


From 886c89e990711184046564554677a0719ee52453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 06/20] fix: a series shorter than its window gives zeros
 instead of an index-out-of-range crash

---
 utils/ta/ta.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..385ecf4 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -343,6 +359,10 @@ func Wma(period int, values []float64) []float64 {
 
 	result := make([]float64, len(values))
 
+	if period < 1 || len(values) < period {
+		return result
+	}
+
 	lookbackTotal := period - 1
 	startIdx := lookbackTotal
 
@@ -443,7 +463,7 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 
 	inTimePeriodF := float64(inTimePeriod)
 
-	if inTimePeriod < 1 {
+	if inTimePeriod < 1 || len(inClose) <= inTimePeriod {
 		return outReal
 	}
 
@@ -475,7 +495,7 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 
 	outReal := make([]float64, len(inClose))
 
-	if inTimePeriod < 1 {
+	if inTimePeriod < 1 || len(inClose) <= inTimePeriod {
 		return outReal
 	}
 
@@ -1001,6 +1021,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From 17e4bc9dc760981c41209533210b8794c449530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 07/20] fix: Rsi no longer crashes when there are exactly as
 many candles as its period

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 549b98f..62d7da8 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -106,7 +106,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 6bcb1451bc21ea841ad39ae894acaef01abed077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 08/20] fix: VolumePriceTrend of no candles is empty instead of
 a crash

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index adf22d4..3af3264 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -50,6 +50,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From ce4bddf4feb16cb8c329741d28cfcbea941dc7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 09/20] fix: recalculating SmartMoneyConcepts starts from fresh
 state

---
 trend/SmartMoneyConcepts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..2f41ea0 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,12 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	e.OrderBlockBullish = nil
+	e.OrderBlockBearish = nil
+	e.os1Prev, e.os2Prev = 0, 0
+	e.idxPrevBullish, e.idxPrevBearish = 0, 0
+	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
 
 	var trend = 0
 	var itrend = 0
-- 
2.43.0


From cd9a1ed4880257a4887a4265571443da0762434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 10/20] fix: Kdj GetListK, GetListD and GetListJ calculate on
 first use like every other accessor

---
 trend/Kdj.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..20230a8 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -104,6 +104,10 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -113,6 +117,10 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -122,6 +130,10 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From d3e559255819182b3e50d9f6c97ed4a0c3fc7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 11/20] fix: CheckEquals compares every pair to its end, and no
 pairs are equal

---
 helpertools/CheckEquals.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..d664305 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -12,10 +12,15 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 		return errors.New("not pairs")
 	}
 
-	i := 0
+	ended := make([]bool, len(inputs)/2)
+	open := len(ended)
 
-	for {
+	for i := 0; open > 0; i++ {
 		for j := 0; j < len(inputs); j += 2 {
+			if ended[j/2] {
+				continue
+			}
+
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
 
@@ -24,14 +29,16 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
-				return nil
+				ended[j/2] = true
+				open--
+				continue
 			}
 
 			if !reflect.DeepEqual(actual, expected) {
 				return fmt.Errorf("index %d pair %d actual %v expected %v", i, j/2, actual, expected)
 			}
 		}
-
-		i++
 	}
+
+	return nil
 }
-- 
2.43.0


From 23c26d5f05aac77d9234e195732d06c3b76b2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 12/20] fix: SortCandlesByTimestamp(desc) sorts newest first
 when desc is true

---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..ec5a278 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -192,10 +192,10 @@ func (e *Item) RemoveDuplicates() {
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
 	if desc {
-		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
+		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
 		return
 	}
-	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
+	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 }
 
 // addPadding 插入填充时间对齐，当交易所不提供所有数据时
-- 
2.43.0


From e7159882ffd147ed883639d6af6ff3f2b3e1d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 13/20] fix: ConvertToNewInterval reports missing candles
 instead of crashing on an empty history

---
 utils/klines/kline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ec5a278..6feab4a 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
-- 
2.43.0


From 936462f1c0e491a489ff3624b3abba145a3c5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 14/20] fix: the standard deviation of no values is 0, not NaN

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 385ecf4..c27533f 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -216,6 +216,10 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From cb2481dcf0a0f4d28adebe1aa7ecfb3b89ffa963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 15/20] fix: Nzs returns a new series instead of overwriting
 the caller's

---
 utils/ta/ta.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index c27533f..bb44582 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1122,10 +1122,11 @@ func StdDev(inReal []float64, inTimePeriod int, inNbDev float64) []float64 {
 
 // Nzs 以系列中的指定数替换NaN值。
 func Nzs(vals []float64, replacement float64) []float64 {
+	result := make([]float64, len(vals))
 	for i := 0; i < len(vals); i++ {
-		vals[i] = Nz(vals[i], replacement)
+		result[i] = Nz(vals[i], replacement)
 	}
-	return vals
+	return result
 }
 
 // Nz 以系列中的指定数替换NaN值。
-- 
2.43.0


From 7b3ecdcb1f13cf29266f82792d9617c392de2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 16/20] fix: ConvertToNewInterval keeps a trailing incomplete
 window out of the last complete candle's high and low

---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 6feab4a..80057ad 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -107,11 +107,11 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			candles[target].Open = e.Candles[x].Open
 		}
 
-		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].High > candles[target].High {
+		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds())) && e.Candles[x].High > candles[target].High {
 			candles[target].High = e.Candles[x].High
 		}
 
-		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && (candles[target].Low == 0 || e.Candles[x].Low < candles[target].Low) {
+		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds())) && (candles[target].Low == 0 || e.Candles[x].Low < candles[target].Low) {
 			candles[target].Low = e.Candles[x].Low
 		}
 
-- 
2.43.0


From 8f2b8086bcbc48683895c87a043490e519420517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 17/20] fix: decoding into a nil destination is refused with an
 error instead of crashing

---
 utils/commonutils/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/commonutils/common.go b/utils/commonutils/common.go
index 96ec7ad..b3fb915 100644
--- a/utils/commonutils/common.go
+++ b/utils/commonutils/common.go
@@ -75,7 +75,7 @@ func ReadFile(path string) ([]byte, error) {
 
 // JSONDecode decodes JSON data into a structure
 func JSONDecode(data []byte, to interface{}) error {
-	if !strings.Contains(reflect.ValueOf(to).Type().String(), "*") {
+	if to == nil || !strings.Contains(reflect.ValueOf(to).Type().String(), "*") {
 		return errors.New("json decode error - memory address not supplied")
 	}
 	return sonic.Unmarshal(data, to)
-- 
2.43.0


From 9c111bcf8a25a41ffd4ce05c1615e6fce8b03ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 18/20] fix: ConvertToNewInterval keeps a lowest price of zero
 instead of taking it for a missing one

---
 utils/klines/kline.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 80057ad..ca0c4d7 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -101,6 +101,7 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	}
 
 	target = 0
+	started := false // whether candles[target] has taken in a candle already
 	for x := range e.Candles {
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
@@ -111,12 +112,13 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			candles[target].High = e.Candles[x].High
 		}
 
-		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds())) && (candles[target].Low == 0 || e.Candles[x].Low < candles[target].Low) {
+		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds())) && (!started || e.Candles[x].Low < candles[target].Low) {
 			candles[target].Low = e.Candles[x].Low
 		}
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix || (e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))) {
 			candles[target].Volume += e.Candles[x].Volume
+			started = true
 		}
 		if (e.Candles[x].TimeUnix + int64(e.Interval.Duration().Seconds())) == (candles[target].TimeUnix + int64(newInterval.Duration().Seconds())) {
 			candles[target].Close = e.Candles[x].Close
@@ -136,6 +138,7 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			}
 
 			target++
+			started = false
 		}
 	}
 	return &Item{
-- 
2.43.0


From 1adbc50b0c85cdccdd43e754ef8db186b565e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:57 +0000
Subject: [PATCH 19/20] fix: an indicator shows results only once its
 calculation has completed

---
 channel/Boll.go                  | 5 +++--
 trend/AverageDirectionalIndex.go | 7 +++----
 trend/BreakoutProbability.go     | 5 +++--
 trend/Dema.go                    | 5 +++--
 trend/EMAVegas.go                | 5 +++--
 trend/LinearRegressionCandles.go | 5 +++--
 trend/PivotPointSuperTrend.go    | 5 +++--
 trend/SuperTrend.go              | 5 +++--
 trend/TraderXO.go                | 5 +++--
 trend/UTBot.go                   | 5 +++--
 10 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..18c4758 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -96,7 +96,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 func (e *Boll) Calculation() *Boll {
 	l := len(e.kline.Candles)
 
-	e.data = make([]BollData, l)
+	data := make([]BollData, l)
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
@@ -104,7 +104,7 @@ func (e *Boll) Calculation() *Boll {
 	var lower = ta.Subtract(middle, md)
 
 	for i := range middle {
-		e.data[i] = BollData{
+		data[i] = BollData{
 			Time:   time.Unix(e.kline.Candles[i].TimeUnix, 0),
 			Middle: middle[i],
 			Upper:  upper[i],
@@ -112,6 +112,7 @@ func (e *Boll) Calculation() *Boll {
 			MD:     md[i],
 		}
 	}
+	e.data = data
 	return e
 }
 
diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..0ed2715 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -99,8 +99,6 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	var close = e.ohlc.Close
 	var times = e.ohlc.TimeUnix
 
-	e.data = make([]AverageDirectionalIndexData, len(close))
-
 	tr := make([]float64, len(close))
 	plusDM := make([]float64, len(close))
 	minusDM := make([]float64, len(close))
@@ -129,16 +127,17 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 
 	// 对 DX 进行平滑处理
 	smoothedDX := ta.Sma(e.Len, dx)
-	e.data = make([]AverageDirectionalIndexData, len(close))
+	data := make([]AverageDirectionalIndexData, len(close))
 	// 计算 ADX
 	for i := 0; i < len(close); i++ {
-		e.data[i] = AverageDirectionalIndexData{
+		data[i] = AverageDirectionalIndexData{
 			Time:   time.Unix(times[i], 0),
 			DIPlus: plusDI[i],
 			DIMins: minusDI[i],
 			ADX:    smoothedDX[i],
 		}
 	}
+	e.data = data
 
 	return e
 }
diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..40e884a 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -108,7 +108,7 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 		vals = nil
 	}()
 
-	e.data = make([]BreakoutProbabilityData, len(closes))
+	data := make([]BreakoutProbabilityData, len(closes))
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
@@ -182,9 +182,10 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 		dataItem.Win = float64(total[6][0])
 		dataItem.Loss = float64(total[6][1])
 
-		e.data[i] = dataItem
+		data[i] = dataItem
 
 	}
+	e.data = data
 
 	return e
 }
diff --git a/trend/Dema.go b/trend/Dema.go
index 4ecd661..85cf814 100644
--- a/trend/Dema.go
+++ b/trend/Dema.go
@@ -56,16 +56,17 @@ func (e *Dema) Calculation() *Dema {
 	var close = e.ohlc.Close
 	var times = e.ohlc.TimeUnix
 
-	e.data = make([]*DemaData, len(close))
+	data := make([]*DemaData, len(close))
 
 	demas := ta.Dema(period, close)
 
 	for i := 0; i < len(demas); i++ {
-		e.data[i] = &DemaData{
+		data[i] = &DemaData{
 			Time:  time.Unix(times[i], 0),
 			Value: demas[i],
 		}
 	}
+	e.data = data
 	return e
 }
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..47f9d44 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -70,7 +70,7 @@ func (e *EMAVegas) Calculation() *EMAVegas {
 	var closeing = e.ohlc.Close
 	var times = e.ohlc.TimeUnix
 
-	e.data = make([]EMAVegasData, len(closeing))
+	data := make([]EMAVegasData, len(closeing))
 
 	ema := ta.Ema(e.Period, closeing)
 	emaShort1 := ta.Ema(e.PeriodShort1, closeing)
@@ -79,7 +79,7 @@ func (e *EMAVegas) Calculation() *EMAVegas {
 	emaLong2 := ta.Ema(e.PeriodLong2, closeing)
 
 	for i := 0; i < len(emaShort1); i++ {
-		e.data[i] = EMAVegasData{
+		data[i] = EMAVegasData{
 			Time:        time.Unix(times[i], 0),
 			Value:       ema[i],
 			Short1Value: emaShort1[i],
@@ -88,6 +88,7 @@ func (e *EMAVegas) Calculation() *EMAVegas {
 			Long2Value:  emaLong2[i],
 		}
 	}
+	e.data = data
 	clear(ema)
 	clear(emaShort1)
 	clear(emaShort2)
diff --git a/trend/LinearRegressionCandles.go b/trend/LinearRegressionCandles.go
index 96226a1..c39ea39 100644
--- a/trend/LinearRegressionCandles.go
+++ b/trend/LinearRegressionCandles.go
@@ -74,10 +74,10 @@ func (e *LinearRegressionCandles) Calculation() *LinearRegressionCandles {
 	}
 	// ? sma(bclose, signal_length) : ema(bclose, signal_length)
 
-	e.data = make([]LinearRegressionCandlesData, len(closes))
+	data := make([]LinearRegressionCandlesData, len(closes))
 
 	for i := 0; i < len(closes); i++ {
-		e.data[i] = LinearRegressionCandlesData{
+		data[i] = LinearRegressionCandlesData{
 			Open:   bopen[i],
 			Close:  bclose[i],
 			High:   bhigh[i],
@@ -87,6 +87,7 @@ func (e *LinearRegressionCandles) Calculation() *LinearRegressionCandles {
 		}
 
 	}
+	e.data = data
 
 	defer func() {
 		bopen = nil
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..d94795f 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -88,7 +88,7 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 		tCenter = nil
 	}()
 
-	e.data = make([]PivotPointSuperTrendData, len(closes))
+	data := make([]PivotPointSuperTrendData, len(closes))
 
 	for i := 1; i < len(closes); i++ {
 
@@ -117,7 +117,7 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 
 		var trailingsl = commonutils.If(trend[i] == 1, tUP[i], tDown[i]).(float64)
 
-		e.data[i] = PivotPointSuperTrendData{
+		data[i] = PivotPointSuperTrendData{
 			Time:           time.Unix(times[i], 0),
 			UpTrend:        commonutils.If(trend[i] == 1 && trend[i-1] == 1, trailingsl, 0.0).(float64),
 			UpTrendBegin:   commonutils.If(trend[i] == 1 && trend[i-1] == -1, trailingsl, 0.0).(float64),
@@ -125,6 +125,7 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 			DownTrendBegin: commonutils.If(trend[i] == -1 && trend[i-1] == 1, trailingsl, 0.0).(float64),
 		}
 	}
+	e.data = data
 
 	return e
 }
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..9c02354 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -134,9 +134,9 @@ func (e *SuperTrend) Calculation() *SuperTrend {
 		}
 	}
 
-	e.data = make([]SuperTrendData, len(closes))
+	data := make([]SuperTrendData, len(closes))
 	for i := 0; i < len(closes); i++ {
-		e.data[i] = SuperTrendData{
+		data[i] = SuperTrendData{
 			Time:           time.Unix(times[i], 0),
 			UpTrend:        up[i],
 			UpTrendBegin:   upb[i],
@@ -144,6 +144,7 @@ func (e *SuperTrend) Calculation() *SuperTrend {
 			DownTrendBegin: dnb[i],
 		}
 	}
+	e.data = data
 
 	return e
 }
diff --git a/trend/TraderXO.go b/trend/TraderXO.go
index 8e4dfba..53c655d 100644
--- a/trend/TraderXO.go
+++ b/trend/TraderXO.go
@@ -65,16 +65,17 @@ func (e *TraderXO) Calculation() *TraderXO {
 		v_slowEMAList = nil
 	}()
 
-	e.data = make([]TraderXOData, len(closes))
+	data := make([]TraderXOData, len(closes))
 	for i := 0; i < len(closes); i++ {
 
-		e.data[i] = TraderXOData{
+		data[i] = TraderXOData{
 			Time: time.Unix(times[i], 0),
 			Fast: v_fastEMAList[i],
 			Slow: v_slowEMAList[i],
 		}
 
 	}
+	e.data = data
 
 	return e
 }
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..b3198d6 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -70,7 +70,7 @@ func (e *UTBot) Calculation() *UTBot {
 		atr = nil
 	}()
 
-	e.data = make([]UTBotData, len(closes))
+	data := make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
 			continue
@@ -90,13 +90,14 @@ func (e *UTBot) Calculation() *UTBot {
 		}
 
 		// fmt.Printf("[%s]%f\t%f\tatr:%f\txATRTrailingStop:%f\tBuy:%+v\tSell:%+v\n", e.kline.Candles[i].Time.Format("2006-01-02 15:04:05"), close-nLoss, close+nLoss, atr[i], xATRTrailingStop[i], buy, sell)
-		e.data[i] = UTBotData{
+		data[i] = UTBotData{
 			Time:  time.Unix(times[i], 0),
 			Close: close,
 			Value: xATRTrailingStop[i],
 		}
 
 	}
+	e.data = data
 	return e
 }
 
-- 
2.43.0


From e30e091b9bee5166826b17799a27467e8d478259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:33 +0000
Subject: [PATCH 20/20] fix: resampling accepted a history in which a repeated
 candle stands in for a missing one

---
 utils/klines/kline.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ca0c4d7..0fef464 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -73,6 +73,18 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	// 数量相同不代表没有缺失：重复或错位的蜡烛会掩盖缺失的蜡烛
+	for i, candle := range e.Candles {
+		if want := start.Add(time.Duration(i) * e.Interval.Duration()); candle.TimeUnix != want.Unix() {
+			return nil, fmt.Errorf("%w expected a candle at %s but have one at %s when converting from %s to %s interval",
+				errCandleDataNotPadded,
+				want.UTC(),
+				time.Unix(candle.TimeUnix, 0).UTC(),
+				e.Interval,
+				newInterval)
+		}
+	}
+
 	oldIntervalsPerNewCandle := int(newInterval / e.Interval)
 	candles := make([]*Candle, len(e.Candles)/oldIntervalsPerNewCandle)
 	if len(candles) == 0 {
-- 
2.43.0

