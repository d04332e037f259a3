// Facts about the interface, found once with 'sim survey' and part of the
// properties C11 and C12 since.
package main

// madeAnew: results that are made anew for every caller, also when read
// twice from one instance (the others are the memory of the instance itself).
var madeAnew = map[string]bool{
	"KeltnerChannel.AnalysisSide":            true,
	"Boll.AnalysisSide":                      true,
	"DonchianChannel.AnalysisSide":           true,
	"StochRsi.AnalysisSide":                  true,
	"TraderXO.AnalysisSide":                  true,
	"TraderXO.GetValues":                     true,
	"AiCoinCCI.AnalysisSide":                 true,
	"AiCoinCCI.GetValue":                     true,
	"Kdj.AnalysisSide":                       true,
	"Kdj.GetListD":                           true,
	"Kdj.GetListJ":                           true,
	"Kdj.GetListK":                           true,
	"EMAVegas.AnalysisSide":                  true,
	"Macd.AnalysisSide":                      true,
	"Macd.GetDifs":                           true,
	"Macd.GetMACDs":                          true,
	"SuperTrend.AnalysisSide":                true,
	"SuperTrend.GetValues":                   true,
	"Ema.GetValues":                          true,
	"Sma.GetValues":                          true,
	"StochasticHeat.AnalysisSide":            true,
	"Rsi.AnalysisSide":                       true,
	"Rsi.GetValue":                           true,
	"Atr.ChandelierExit":                     true,
	"Atr.GetValues":                          true,
	"PivotPointSuperTrend.AnalysisSide":      true,
	"PivotPointSuperTrend.GetValues":         true,
	"Dema.GetValues":                         true,
	"LinearRegressionCandles.GetValues":      true,
	"Cci.AnalysisSide":                       true,
	"Cci.GetValue":                           true,
	"UTBot.AnalysisSide":                     true,
	"UTBot.GetValues":                        true,
	"AbsolutePriceOscillator.AnalysisSide":   true,
	"ChaikinOscillator.AnalysisSide":         true,
	"StochasticOscillator.AnalysisSide":      true,
	"StochasticOscillator.GetValues":         true,
	"IchimokuCloud.AnalysisSide":             true,
	"ProjectionOscillator.AnalysisSide":      true,
	"AwesomeOscillator.AnalysisSide":         true,
	"PercentagePriceOscillator.AnalysisSide": true,
	"Camarilla.AnalysisSide":                 true,
	"WilliamsR.AnalysisSide":                 true,
	"VolumeOscillator.GetValues":             true,
	"MoneyFlowIndex.AnalysisSide":            true,
	"AccumulationDistribution.GetValues":     true,
}

// follows: instances that work on the history they were given, as it is when
// they are calculated.
var follows = map[string]bool{
	"AbsolutePriceOscillator.item":   true,
	"AccumulationDistribution.item":  true,
	"AiCoinCCI.item":                 true,
	"Atr.item":                       true,
	"AverageDirectionalIndex.ohlc":   true,
	"AwesomeOscillator.item":         true,
	"Boll.item":                      true,
	"BreakoutProbability.ohlc":       true,
	"Camarilla.item":                 true,
	"Cci.item":                       true,
	"ChaikinMoneyFlow.item":          true,
	"ChaikinOscillator.item":         true,
	"Dema.ohlc":                      true,
	"DonchianChannel.item":           true,
	"EMAVegas.ohlc":                  true,
	"EaseOfMovement.item":            true,
	"Ema.item":                       true,
	"ForceIndex.item":                true,
	"IchimokuCloud.item":             true,
	"Kdj.item":                       true,
	"KeltnerChannel.item":            true,
	"LinearRegressionCandles.ohlc":   true,
	"Ma.item":                        true,
	"Macd.item":                      true,
	"MoneyFlowIndex.item":            true,
	"NegativeVolumeIndex.item":       true,
	"Obv.item":                       true,
	"PercentagePriceOscillator.item": true,
	"PivotPointSuperTrend.ohlc":      true,
	"ProjectionOscillator.item":      true,
	"ReversalSignals.item":           true,
	"Rma.item":                       true,
	"Rsi.item":                       true,
	"Sma.item":                       true,
	"StochRsi.item":                  true,
	"StochasticHeat.item":            true,
	"StochasticOscillator.item":      true,
	"TraderXO.ohlc":                  true,
	"UTBot.ohlc":                     true,
	"UlcerIndex.item":                true,
	"VolumeOscillator.item":          true,
	"VolumePriceTrend.item":          true,
	"Vortex.item":                    true,
	"Vwma.item":                      true,
	"WilliamsR.item":                 true,
}

// keeps: instances that took what they need when they were made.
var keeps = map[string]bool{
	"AverageDirectionalIndex.item": true,
	"BreakoutProbability.item":     true,
	"Dema.item":                    true,
	"EMAVegas.item":                true,
	"LinearRegressionCandles.item": true,
	"PivotPointSuperTrend.item":    true,
	"SmartMoneyConcepts.item":      true,
	"SmartMoneyConcepts.ohlc":      true,
	"SuperTrend.item":              true,
	"TraderXO.item":                true,
	"UTBot.item":                   true,
}
