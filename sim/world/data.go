package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"syscall"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// Data describes a synthetic candle history; it is a pure function of its fields.
type Data struct {
	Seed int64 `json:"seed"`
	N    int   `json:"n"`
	Kind int   `json:"kind"` // 0 random walk, 1 trending with reversals, 2 flat stretches and ties, 3 volatile
	Step int64 `json:"step"` // seconds per candle
	T0   int64 `json:"t0"`   // offset, in candles, of the first candle from the epoch base
	Twk  int   `json:"twk"`  // when positive: candle Twk-1 (mod N) is a little different
	Flg  int   `json:"flg,omitempty"`
}

// Oddities of a history (Data.Flg), as markets and feeds produce them.
const (
	flgNoVol    = 1 << iota // candles in which nothing was traded
	flgHugeVol              // volumes beyond a billion
	flgHuge                 // prices in the millions
	flgDisorder             // candles delivered out of order and twice
	flgStill                // long stretches without any movement
	flgZero                 // single candles with a price of zero
	flgTiny                 // prices far below one cent
	flgBare                 // a feed that sends nothing but prices, volume and time
	flgTicks                // prices of a few whole ticks, 0 to 3
	flgBelow                // prices that go below zero
	flgCrossed              // candles whose high and low the feed mixed up, or which closed outside them
)

const baseUnix = int64(1_672_531_200) // 2023-01-01 UTC, a Sunday

func (d Data) step() int64 {
	if d.Step <= 0 {
		return 3600
	}
	return d.Step
}

func (d Data) candles() []*klines.Candle {
	n := d.N
	if n < 0 {
		n = 0
	}
	if n > 40_000 {
		n = 40_000
	}
	r := NewRng(uint64(d.Seed)*31 + uint64(d.Kind) + 5)
	base := baseUnix - baseUnix%d.step()
	price := 50 + 100*r.F()
	dir := 1.0
	out := make([]*klines.Candle, n)
	for i := range out {
		open := price
		var c float64
		switch d.Kind {
		case 1:
			if r.P(0.06) {
				dir = -dir
			}
			c = open * (1 + dir*0.01*r.F() + 0.004*(r.F()-0.5))
		case 2:
			if r.P(0.5) {
				c = open
			} else {
				c = math.Round(open*(1+0.02*(r.F()-0.5))*4) / 4
			}
		case 3:
			c = open * (1 + 0.12*(r.F()-0.5))
		default:
			c = open * (1 + 0.03*(r.F()-0.5))
		}
		if c < 1 {
			c = 1
		}
		hi := math.Max(open, c) * (1 + 0.01*r.F())
		lo := math.Min(open, c) * (1 - 0.01*r.F())
		if d.Kind == 2 && r.P(0.3) {
			hi, lo = math.Max(open, c), math.Min(open, c)
		}
		vol := math.Floor(1+10000*r.F()) / 8
		out[i] = &klines.Candle{Open: open, Close: c, High: hi, Low: lo, Volume: vol, Amount: vol * c,
			Count: int64(1 + r.N(500)), ChangePercent: (c - open) / open, IsBullMarket: c > open,
			TimeUnix: base + (d.T0+int64(i))*d.step()}
		price = c
	}
	if d.Flg != 0 {
		d.odd(out)
	}
	if d.Twk > 0 && n > 0 {
		tweak(out[(d.Twk-1)%n])
	}
	return out
}

// odd makes the history one of the unusual ones; candle i depends only on
// candles up to i, except for the order of disordered histories.
func (d Data) odd(cs []*klines.Candle) {
	r := NewRng(uint64(d.Seed)*77 + uint64(d.Flg))
	quiet, dry := 0, 0
	for i, c := range cs {
		a, b := r.F(), r.F()
		if d.Flg&flgHuge != 0 {
			for _, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close} {
				*p *= 3.3e6
			}
		}
		if d.Flg&flgTiny != 0 {
			for _, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close} {
				*p *= 1.7e-7
			}
		}
		if d.Flg&(flgTicks|flgBelow) != 0 {
			for _, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close} {
				switch {
				case d.Flg&flgTicks == 0:
					*p -= 100
				case d.Flg&flgBelow == 0:
					*p = math.Mod(math.Floor(*p), 4)
				default:
					*p = math.Mod(math.Floor(*p), 4) - 2
				}
			}
			c.High = math.Max(c.High, math.Max(c.Open, c.Close))
			c.Low = math.Min(c.Low, math.Min(c.Open, c.Close))
		}
		if d.Flg&flgHugeVol != 0 {
			c.Volume *= 1e9
		}
		if d.Flg&flgNoVol != 0 {
			if dry == 0 && a > 0.95 {
				dry = 2 + int(b*30) // nobody trades for a while
			}
			if a < 0.25 || dry > 0 {
				c.Volume = 0
			}
			if dry > 0 {
				dry--
			}
		}
		if d.Flg&flgZero != 0 && a < 0.08 {
			switch {
			case b < 0.3:
				c.Open, c.High, c.Low, c.Close = 0, 0, 0, 0
			case b < 0.7:
				c.Close, c.Low = 0, 0
			default:
				c.Low = 0
			}
		}
		if d.Flg&flgStill != 0 {
			if quiet == 0 && a < 0.1 {
				quiet = 3 + int(b*28)
			}
			if quiet > 0 && i > 0 {
				quiet--
				p := cs[i-1].Close
				c.Open, c.High, c.Low, c.Close = p, p, p, p
				if b < 0.5 {
					c.Volume = cs[i-1].Volume
				}
			}
		}
		if d.Flg&flgCrossed != 0 && a < 0.15 {
			if b < 0.6 {
				c.High, c.Low = c.Low, c.High
			} else {
				c.Close = c.High * 1.01
			}
		}
		c.Amount = c.Volume * c.Close
		c.ChangePercent, c.IsBullMarket = 0, c.Close > c.Open
		if c.Open != 0 {
			c.ChangePercent = (c.Close - c.Open) / c.Open
		}
		if d.Flg&flgBare != 0 {
			c.Amount, c.Count, c.ChangePercent, c.IsBullMarket = 0, 0, 0, false
		}
	}
	if d.Flg&flgDisorder != 0 {
		for k := 1 + len(cs)/12; k > 0 && len(cs) > 2; k-- {
			i, j := r.N(len(cs)), r.N(len(cs))
			if r.P(0.4) {
				cs[i].TimeUnix = cs[j].TimeUnix
			} else {
				cs[i], cs[j] = cs[j], cs[i]
			}
		}
	}
}

// tweak is a correction of one candle, as feeds send them.
func tweak(c *klines.Candle) {
	c.Close *= 1.013
	c.High = math.Max(c.High, c.Close) * 1.002
	c.Low *= 0.996
	c.Volume += 12.5
	c.Amount = c.Volume * c.Close
	c.ChangePercent = (c.Close - c.Open) / c.Open
	c.IsBullMarket = c.Close > c.Open
}

func (d Data) item() *klines.Item {
	return &klines.Item{Exchange: "simex", Symbol: "SIM/USD", Code: fmt.Sprint("S", d.Seed), Interval: klines.Interval(d.step() * 1e9), Candles: d.candles()}
}

// Input is one shared market-data set as callers hold it.
type Input struct {
	D    Data
	Item *klines.Item
	Day  *klines.Item // the same market on a longer interval (for Camarilla)
	Ohlc *klines.OHLC
	Hl2  []float64
	Gap  []float64 // closes with missing values in between
}

func (d Data) input() *Input {
	in := &Input{D: d, Item: d.item()}
	in.Day = (Data{Seed: d.Seed + 1000, N: d.N/6 + 2, Kind: d.Kind, Step: d.step() * 6, T0: d.T0 / 6, Flg: d.Flg}).item()
	// built by the harness itself, not by the code under test
	o := &klines.OHLC{}
	for _, c := range in.Item.Candles {
		o.Open = append(o.Open, c.Open)
		o.High = append(o.High, c.High)
		o.Low = append(o.Low, c.Low)
		o.Close = append(o.Close, c.Close)
		o.Volume = append(o.Volume, c.Volume)
		o.BullMarket = append(o.BullMarket, c.IsBullMarket)
		o.TimeUnix = append(o.TimeUnix, c.TimeUnix)
		in.Hl2 = append(in.Hl2, (c.High+c.Low)/2)
	}
	for i, x := range o.Close {
		if i%5 == 3 {
			x = math.NaN()
		}
		in.Gap = append(in.Gap, x)
	}
	in.Ohlc = o
	// as after appending: there is room behind the data, and it is not empty
	for _, p := range []*[]float64{&o.Open, &o.High, &o.Low, &o.Close, &o.Volume, &in.Hl2, &in.Gap} {
		*p = roomy(*p, -12345.5)
	}
	o.BullMarket = roomy(o.BullMarket, true)
	o.TimeUnix = roomy(o.TimeUnix, -7)
	in.Item.Candles = roomy(in.Item.Candles, behind)
	in.Day.Candles = roomy(in.Day.Candles, behind)
	return in
}

// behind is a candle that lies behind the end of a history.
var behind = &klines.Candle{Open: 1, High: 2, Low: -3, Close: 4, Volume: 5, TimeUnix: 6}

// roomy gives the same slice with room for more, filled with x.
func roomy[T any](s []T, x T) []T {
	n := len(s)
	t := make([]T, n+9)
	copy(t, s)
	for i := n; i < len(t); i++ {
		t[i] = x
	}
	return t[:n]
}

func (in *Input) all() []any { return []any{in.Item, in.Day, in.Ohlc, in.Hl2, in.Gap} }

// bits is a canonical copy of everything shared, including slice identities.
func (in *Input) bits() []byte {
	b := flatten(in.all())
	f := &flat{b: b, want: -1}
	f.put('p', uint64(cap(in.Item.Candles)))
	for _, cs := range [][]*klines.Candle{in.Item.Candles, in.Day.Candles} {
		for _, c := range cs[:cap(cs)] {
			f.put('p', uint64(reflect.ValueOf(c).Pointer()))
		}
	}
	for _, s := range [][]float64{in.Ohlc.Open, in.Ohlc.High, in.Ohlc.Low, in.Ohlc.Close, in.Ohlc.Volume, in.Hl2, in.Gap} {
		f.put('p', uint64(reflect.ValueOf(s).Pointer()))
		for _, x := range s[len(s):cap(s)] {
			f.put('f', math.Float64bits(x))
		}
	}
	for _, x := range in.Ohlc.TimeUnix[:cap(in.Ohlc.TimeUnix)] {
		f.put('i', uint64(x))
	}
	for _, x := range in.Ohlc.BullMarket[:cap(in.Ohlc.BullMarket)] {
		f.put('b', uint64(b2i(x)))
	}
	f.b = append(f.b, flatten(behind)...)
	return f.b
}

// ------------------------------------------------------------- the indicators

type indDef struct {
	name string
	np   int                          // number of integer parameters, 0 = default constructor only
	lo   []int                        // smallest sensible parameter values
	hi   []int                        // largest
	mk   func(in *Input, p []int) any // from candles
	mko  func(in *Input, p []int) any // from shared columns, nil if there is no such constructor
	def  func(in *Input) any          // default constructor
}

func maT(i int) types.MATypes {
	return []types.MATypes{types.SMA, types.EMA, types.WMA, types.UnknownMATypes}[((i%4)+4)%4]
}

func chg(i int) bool { return i%2 == 1 }

var inds = []indDef{
	{"KeltnerChannel", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return channel.NewKeltnerChannel(in.Item, p[0]) }, nil, func(in *Input) any { return channel.NewDefaultKeltnerChannel(in.Item) }},
	{"Boll", 2, []int{1, 1}, []int{14, 3}, func(in *Input, p []int) any { return channel.NewBoll(in.Item, p[0], p[1]) }, nil, func(in *Input) any { return channel.NewDefaultBoll(in.Item) }},
	{"DonchianChannel", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return channel.NewDonchianChannel(in.Item, p[0]) }, nil, func(in *Input) any { return channel.NewDefaultDonchianChannel(in.Item) }},
	{"UlcerIndex", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return channel.NewUlcerIndex(in.Item, p[0]) }, nil, func(in *Input) any { return channel.NewDefaultUlcerIndex(in.Item) }},
	{"StochRsi", 4, []int{1, 1, 1, 1}, []int{4, 4, 9, 9}, func(in *Input, p []int) any { return trend.NewStochRsi(in.Item, p[0], p[1], p[2], p[3]) }, nil, func(in *Input) any { return trend.NewDefaultStochRsi(in.Item) }},
	{"TraderXO", 2, []int{1, 1}, []int{5, 12}, func(in *Input, p []int) any { return trend.NewTraderXO(in.Item, p[0], p[1]) }, func(in *Input, p []int) any { return trend.NewTraderXOOHLC(in.Ohlc, p[0], p[1]) }, func(in *Input) any { return trend.NewDefaultTraderXO(in.Item) }},
	{"AiCoinCCI", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewAiCoinCCI(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultAiCoinCCI(in.Item) }},
	{"Vortex", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewVortex(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultVortex(in.Item) }},
	{"Kdj", 1, []int{2}, []int{14}, func(in *Input, p []int) any { return trend.NewKdj(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultKdj(in.Item) }},
	{"EMAVegas", 5, []int{1, 1, 1, 1, 1}, []int{8, 9, 10, 14, 18}, func(in *Input, p []int) any { return trend.NewEMAVegas(in.Item, p[0], p[1], p[2], p[3], p[4]) }, func(in *Input, p []int) any { return trend.NewEMAVegasOHLC(in.Ohlc, p[0], p[1], p[2], p[3], p[4]) }, func(in *Input) any { return trend.NewDefaultEMAVegas(in.Item) }},
	{"Macd", 3, []int{1, 1, 1}, []int{6, 5, 12}, func(in *Input, p []int) any { return trend.NewMacd(in.Item, p[0], p[1], p[2]) }, nil, func(in *Input) any { return trend.NewDefaultMacd(in.Item) }},
	{"Ma", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewMa(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultMa(in.Item) }},
	{"AverageDirectionalIndex", 2, []int{1, 1}, []int{10, 10}, func(in *Input, p []int) any { return trend.NewAverageDirectionalIndex(in.Item, p[0], p[1]) }, func(in *Input, p []int) any { return trend.NewAverageDirectionalIndexOHLC(in.Ohlc, p[0], p[1]) }, func(in *Input) any { return trend.NewDefaultAverageDirectionalIndex(in.Item) }},
	{"SuperTrend", 3, []int{1, 1, 0}, []int{12, 4, 1}, func(in *Input, p []int) any { return trend.NewSuperTrend(in.Item, p[0], p[1], chg(p[2])) }, func(in *Input, p []int) any { return trend.NewSuperTrendOHLC(in.Ohlc, in.Hl2, p[0], p[1], chg(p[2])) }, func(in *Input) any { return trend.NewDefaultSuperTrend(in.Item) }},
	{"Ema", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewEma(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultEma(in.Item) }},
	{"Sma", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewSma(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultSma(in.Item) }},
	{"StochasticHeat", 5, []int{1, 1, 1, 1, 0}, []int{2, 4, 6, 28, 3}, func(in *Input, p []int) any {
		return trend.NewStochasticHeat(in.Item, p[0], p[1], p[2], p[3], maT(p[4]))
	}, nil, func(in *Input) any { return trend.NewDefaultStochasticHeat(in.Item) }},
	{"Rsi", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewRsi(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultRsi(in.Item) }},
	{"Atr", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewAtr(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultAtr(in.Item) }},
	{"ReversalSignals", 0, nil, nil, func(in *Input, p []int) any { return trend.NewReversalSignals(in.Item) }, nil, func(in *Input) any { return trend.NewReversalSignals(in.Item) }},
	{"SmartMoneyConcepts", 4, []int{1, 1, 1, 0}, []int{10, 4, 3, 1}, func(in *Input, p []int) any {
		x := trend.NewSmartMoneyConcepts(in.Item, p[0], p[1], p[2])
		x.EQHEQL_Enable = chg(p[3])
		return x
	}, func(in *Input, p []int) any {
		x := trend.NewSmartMoneyConceptsOHLC(in.Ohlc.Open, in.Ohlc.High, in.Ohlc.Low, in.Ohlc.Close, in.Ohlc.TimeUnix, p[0], p[1], p[2])
		x.EQHEQL_Enable = chg(p[3])
		return x
	}, func(in *Input) any { return trend.NewDefaultSmartMoneyConcepts(in.Item) }},
	{"PivotPointSuperTrend", 3, []int{1, 1, 1}, []int{4, 12, 4}, func(in *Input, p []int) any { return trend.NewPivotPointSuperTrend(in.Item, p[0], p[1], float64(p[2])) }, func(in *Input, p []int) any {
		return trend.NewPivotPointSuperTrendOHLC(in.Ohlc, p[0], p[1], float64(p[2]))
	}, func(in *Input) any { return trend.NewDefaultPivotPointSuperTrend(in.Item) }},
	{"Rma", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewRma(in.Item, p[0]) }, nil, func(in *Input) any { return trend.NewDefaultRma(in.Item) }},
	{"BreakoutProbability", 2, []int{1, 0}, []int{20, 5}, func(in *Input, p []int) any { return trend.NewBreakoutProbability(in.Item, float64(p[0])/10, p[1]) }, func(in *Input, p []int) any { return trend.NewBreakoutProbabilityOHLC(in.Ohlc, float64(p[0])/10, p[1]) }, func(in *Input) any { return trend.NewDefaultBreakoutProbability(in.Item) }},
	{"Dema", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return trend.NewDema(in.Item, p[0]) }, func(in *Input, p []int) any { return trend.NewDemaOHLC(in.Ohlc, p[0]) }, func(in *Input) any { return trend.NewDefaultDema(in.Item) }},
	{"LinearRegressionCandles", 3, []int{1, 1, 0}, []int{8, 12, 1}, func(in *Input, p []int) any { return trend.NewLinearRegressionCandles(in.Item, p[0], p[1], chg(p[2])) }, func(in *Input, p []int) any {
		return trend.NewLinearRegressionCandlesOHLC(in.Ohlc, p[0], p[1], chg(p[2]))
	}, func(in *Input) any { return trend.NewDefaultLinearRegressionCandles(in.Item) }},
	{"Cci", 2, []int{1, 1}, []int{14, 8}, func(in *Input, p []int) any { return trend.NewCci(in.Item, p[0], p[1]) }, nil, func(in *Input) any { return trend.NewDefaultCci(in.Item) }},
	{"UTBot", 2, []int{1, 1}, []int{4, 12}, func(in *Input, p []int) any { return trend.NewUTBot(in.Item, p[0], p[1]) }, func(in *Input, p []int) any { return trend.NewUTBotOHLC(in.Ohlc, p[0], p[1]) }, func(in *Input) any { return trend.NewDefaultUTBot(in.Item) }},
	{"AbsolutePriceOscillator", 0, nil, nil, func(in *Input, p []int) any { return oscillator.NewAbsolutePriceOscillator(in.Item) }, nil, func(in *Input) any { return oscillator.NewAbsolutePriceOscillator(in.Item) }},
	{"ChaikinOscillator", 2, []int{1, 1}, []int{5, 12}, func(in *Input, p []int) any { return oscillator.NewChaikinOscillator(in.Item, p[0], p[1]) }, nil, func(in *Input) any { return oscillator.NewDefaultChaikinOscillator(in.Item) }},
	{"StochasticOscillator", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return oscillator.NewStochasticOscillator(in.Item, p[0]) }, nil, func(in *Input) any { return oscillator.NewDefaultStochasticOscillator(in.Item) }},
	{"IchimokuCloud", 3, []int{1, 1, 1}, []int{9, 20, 12}, func(in *Input, p []int) any { return oscillator.NewIchimokuCloud(in.Item, p[0], p[1], p[2]) }, nil, func(in *Input) any { return oscillator.NewDefaultIchimokuCloud(in.Item) }},
	{"ProjectionOscillator", 2, []int{1, 1}, []int{14, 6}, func(in *Input, p []int) any { return oscillator.NewProjectionOscillator(in.Item, p[0], p[1]) }, nil, func(in *Input) any { return oscillator.NewDefaultProjectionOscillator(in.Item) }},
	{"AwesomeOscillator", 0, nil, nil, func(in *Input, p []int) any { return oscillator.NewAwesomeOscillator(in.Item) }, nil, func(in *Input) any { return oscillator.NewAwesomeOscillator(in.Item) }},
	{"PercentagePriceOscillator", 3, []int{1, 1, 1}, []int{6, 12, 6}, func(in *Input, p []int) any {
		return oscillator.NewPercentagePriceOscillator(in.Item, p[0], p[1], p[2])
	}, nil, func(in *Input) any { return oscillator.NewDefaultPercentagePriceOscillator(in.Item) }},
	{"Camarilla", 1, []int{2}, []int{12}, func(in *Input, p []int) any { return oscillator.NewCamarilla(in.Item, p[0]) }, nil, func(in *Input) any { return oscillator.NewDefaultCamarilla(in.Item) }},
	{"WilliamsR", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return oscillator.NewWilliamsR(in.Item, p[0]) }, nil, func(in *Input) any { return oscillator.NewDefaultWilliamsR(in.Item) }},
	{"VolumeOscillator", 2, []int{1, 1}, []int{5, 12}, func(in *Input, p []int) any { return oscillator.NewVolumeOscillator(in.Item, p[0], p[1]) }, nil, func(in *Input) any { return oscillator.NewDefaultVolumeOscillator(in.Item) }},
	{"Vwma", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return volume.NewVwma(in.Item, p[0]) }, nil, func(in *Input) any { return volume.NewDefaultVwma(in.Item) }},
	{"ForceIndex", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return volume.NewForceIndex(in.Item, p[0]) }, nil, func(in *Input) any { return volume.NewDefaultForceIndex(in.Item) }},
	{"MoneyFlowIndex", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return volume.NewMoneyFlowIndex(in.Item, p[0]) }, nil, func(in *Input) any { return volume.NewDefaultMoneyFlowIndex(in.Item) }},
	{"VolumePriceTrend", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return volume.NewVolumePriceTrend(in.Item, p[0]) }, nil, func(in *Input) any { return volume.NewDefaultVolumePriceTrend(in.Item) }},
	{"Obv", 0, nil, nil, func(in *Input, p []int) any { return volume.NewObv(in.Item) }, nil, func(in *Input) any { return volume.NewObv(in.Item) }},
	{"AccumulationDistribution", 0, nil, nil, func(in *Input, p []int) any { return volume.NewAccumulationDistribution(in.Item) }, nil, func(in *Input) any { return volume.NewDefaultAccumulationDistribution(in.Item) }},
	{"EaseOfMovement", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return volume.NewEaseOfMovement(in.Item, p[0]) }, nil, func(in *Input) any { return volume.NewDefaultEaseOfMovement(in.Item) }},
	{"ChaikinMoneyFlow", 1, []int{1}, []int{14}, func(in *Input, p []int) any { return volume.NewChaikinMoneyFlow(in.Item, p[0]) }, nil, func(in *Input) any { return volume.NewDefaultChaikinMoneyFlow(in.Item) }},
	{"NegativeVolumeIndex", 0, nil, nil, func(in *Input, p []int) any { return volume.NewNegativeVolumeIndex(in.Item) }, nil, func(in *Input) any { return volume.NewDefaultNegativeVolumeIndex(in.Item) }},
}

var indIdx = map[string]int{}

func init() {
	for i, d := range inds {
		indIdx[d.name] = i
	}
}

// accessors lists what a caller can read from an instance, in a fixed order.
func accessors(x any) []string {
	t := reflect.TypeOf(x)
	var out []string
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		switch m.Name {
		case "Clear", "String", "Calculation":
			continue
		}
		if m.Type.NumIn() == 1 && m.Type.NumOut() > 0 {
			out = append(out, m.Name)
		} else if m.Name == "ChandelierExit" || m.Name == "AnalysisSide" {
			out = append(out, m.Name)
		}
	}
	return out
}

// read calls one accessor and returns what it handed out; "$fields" is the
// exported state of the instance itself, once calculated.
func read(x any, acc string, in *Input) []any {
	if acc == "$fields" {
		if m := reflect.ValueOf(x).MethodByName("GetData"); m.IsValid() {
			m.Call(nil)
		}
		v := reflect.ValueOf(x).Elem()
		var out []any
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out = append(out, v.Field(i).Interface())
			}
		}
		return out
	}
	m := reflect.ValueOf(x).MethodByName(acc)
	if !m.IsValid() {
		panic("no accessor " + acc)
	}
	var args []reflect.Value
	for i := 0; i < m.Type().NumIn(); i++ {
		switch m.Type().In(i).Kind() {
		case reflect.Int:
			args = append(args, reflect.ValueOf(5))
		case reflect.Ptr:
			args = append(args, reflect.ValueOf(in.Day))
		default:
			panic("accessor " + acc + " takes " + m.Type().In(i).String())
		}
	}
	var out []any
	for _, v := range m.Call(args) {
		out = append(out, v.Interface())
	}
	return out
}

func calc(x any) {
	m := reflect.ValueOf(x).MethodByName("Calculation")
	if m.IsValid() {
		m.Call(nil)
	}
}

func clampP(def *indDef, p []int) []int {
	out := make([]int, def.np)
	for i := range out {
		v := def.lo[i]
		if i < len(p) && p[i] > v {
			v = p[i]
		}
		if v > 3*def.hi[i] {
			v = 3 * def.hi[i]
		}
		out[i] = v
	}
	return out
}

// ------------------------------------------------------ plain functions on series

type fnDef struct {
	name string
	call func(o *klines.OHLC, p int) []any
}

var fns = []fnDef{
	{"LinearReg", func(o *klines.OHLC, p int) []any { return []any{ta.LinearReg(o.Close, p)} }},
	{"LinearRegAngle", func(o *klines.OHLC, p int) []any { return []any{ta.LinearRegAngle(o.Close, p)} }},
	{"LinearRegIntercept", func(o *klines.OHLC, p int) []any { return []any{ta.LinearRegIntercept(o.Close, p)} }},
	{"LinearRegSlope", func(o *klines.OHLC, p int) []any { return []any{ta.LinearRegSlope(o.Close, p)} }},
	{"TRange", func(o *klines.OHLC, p int) []any { return []any{ta.TRange(o.High, o.Low, o.Close)} }},
	{"Stochastic", func(o *klines.OHLC, p int) []any {
		a, b := ta.Stochastic(o.Close, o.High, o.Low, p)
		return []any{a, b}
	}},
	{"SD", func(o *klines.OHLC, p int) []any { return []any{ta.SD(o.Close)} }},
	{"MA", func(o *klines.OHLC, p int) []any { return []any{ta.MA(o.Close, p)} }},
	{"Sma", func(o *klines.OHLC, p int) []any { return []any{ta.Sma(p, o.Close)} }},
	{"Rma", func(o *klines.OHLC, p int) []any { return []any{ta.Rma(p, o.Close)} }},
	{"Dema", func(o *klines.OHLC, p int) []any { return []any{ta.Dema(p, o.Close)} }},
	{"Ema", func(o *klines.OHLC, p int) []any { return []any{ta.Ema(p, o.Close)} }},
	{"Wma", func(o *klines.OHLC, p int) []any { return []any{ta.Wma(p, o.Close)} }},
	{"MeanDeviation", func(o *klines.OHLC, p int) []any { return []any{ta.MeanDeviation(o.Close, p, o.Open)} }},
	{"CCI", func(o *klines.OHLC, p int) []any { return []any{ta.CCI(o.Close, p, 3)} }},
	{"AiCoinCCI", func(o *klines.OHLC, p int) []any { return []any{ta.AiCoinCCI(o.Close, p, 0.015)} }},
	{"Atr", func(o *klines.OHLC, p int) []any { return []any{ta.Atr(o.High, o.Low, o.Close, p)} }},
	{"Natr", func(o *klines.OHLC, p int) []any { return []any{ta.Natr(o.High, o.Low, o.Close, p)} }},
	{"Cum", func(o *klines.OHLC, p int) []any { return []any{ta.Cum(o.Close)} }},
	{"MultiplyBy", func(o *klines.OHLC, p int) []any { return []any{ta.MultiplyBy(o.Close, float64(p))} }},
	{"Multiply", func(o *klines.OHLC, p int) []any { return []any{ta.Multiply(o.Close, o.Volume)} }},
	{"DivideBy", func(o *klines.OHLC, p int) []any { return []any{ta.DivideBy(o.Close, float64(p))} }},
	{"Divide", func(o *klines.OHLC, p int) []any { return []any{ta.Divide(o.Close, o.Volume)} }},
	{"Add", func(o *klines.OHLC, p int) []any { return []any{ta.Add(o.Close, o.Volume)} }},
	{"AddBy", func(o *klines.OHLC, p int) []any { return []any{ta.AddBy(o.Close, float64(p))} }},
	{"Subtract", func(o *klines.OHLC, p int) []any { return []any{ta.Subtract(o.Close, o.Open)} }},
	{"Diff", func(o *klines.OHLC, p int) []any { return []any{ta.Diff(o.Close, p)} }},
	{"PercentDiff", func(o *klines.OHLC, p int) []any { return []any{ta.PercentDiff(o.Close, p)} }},
	{"ShiftRightAndFillBy", func(o *klines.OHLC, p int) []any { return []any{ta.ShiftRightAndFillBy(p, 7, o.Close)} }},
	{"ShiftRight", func(o *klines.OHLC, p int) []any { return []any{ta.ShiftRight(p, o.Close)} }},
	{"RoundDigitsAll", func(o *klines.OHLC, p int) []any { return []any{ta.RoundDigitsAll(o.Close, 2)} }},
	{"Pow", func(o *klines.OHLC, p int) []any { return []any{ta.Pow(o.Close, 2)} }},
	{"ExtractSign", func(o *klines.OHLC, p int) []any { return []any{ta.ExtractSign(o.Close)} }},
	{"KeepPositives", func(o *klines.OHLC, p int) []any { return []any{ta.KeepPositives(o.Close)} }},
	{"KeepNegatives", func(o *klines.OHLC, p int) []any { return []any{ta.KeepNegatives(o.Close)} }},
	{"Max", func(o *klines.OHLC, p int) []any { return []any{ta.Max(p, o.High)} }},
	{"Min", func(o *klines.OHLC, p int) []any { return []any{ta.Min(p, o.Low)} }},
	{"Highest", func(o *klines.OHLC, p int) []any { return []any{ta.Highest(o.High, p)} }},
	{"Lowest", func(o *klines.OHLC, p int) []any { return []any{ta.Lowest(o.Low, p)} }},
	{"PivotHigh", func(o *klines.OHLC, p int) []any { return []any{ta.PivotHigh(o.High, p, p)} }},
	{"PivotLow", func(o *klines.OHLC, p int) []any { return []any{ta.PivotLow(o.Low, p, p)} }},
	{"Sum", func(o *klines.OHLC, p int) []any { return []any{ta.Sum(p, o.Close)} }},
	{"Sqrt", func(o *klines.OHLC, p int) []any { return []any{ta.Sqrt(o.Close)} }},
	{"Abs", func(o *klines.OHLC, p int) []any { return []any{ta.Abs(o.Close)} }},
	{"Mean", func(o *klines.OHLC, p int) []any { return []any{ta.Mean(o.Close)} }},
	{"TrueRange", func(o *klines.OHLC, p int) []any { return []any{ta.TrueRange(o.High, o.Low, o.Close)} }},
	{"Variance", func(o *klines.OHLC, p int) []any { return []any{ta.Variance(o.Close, p)} }},
	{"Dev", func(o *klines.OHLC, p int) []any { return []any{ta.Dev(o.Close, p)} }},
	{"StdDev", func(o *klines.OHLC, p int) []any { return []any{ta.StdDev(o.Close, p, float64(1+p%2))} }},
	{"ComputeCCI", func(o *klines.OHLC, p int) []any {
		return []any{trend.ComputeCCI(o.Close, ta.Sma(p, o.Close), ta.Dev(o.Close, p))}
	}},
	{"Nzs", func(o *klines.OHLC, p int) []any { return []any{ta.Nzs(o.Close, 0)} }},
	{"PivotMax", func(o *klines.OHLC, p int) []any {
		if len(o.High) == 0 {
			return nil
		}
		v, at := ta.PivotMax(o.High, p*7%len(o.High), p, p)
		return []any{v, at}
	}},
	{"PivotMin", func(o *klines.OHLC, p int) []any {
		if len(o.Low) == 0 {
			return nil
		}
		v, at := ta.PivotMin(o.Low, p*7%len(o.Low), p, p)
		return []any{v, at}
	}},
	{"Cross", func(o *klines.OHLC, p int) []any {
		if len(o.Close) < 2 {
			return nil
		}
		x := (o.Close[len(o.Close)-1] + o.Close[len(o.Close)-2]) / 2
		return []any{ta.CrossOver(o.Close, x), ta.CrossUnder(o.Close, x), ta.GenerateNumbers(1, float64(p), 0.5)}
	}},
	{"LeastSquare", func(o *klines.OHLC, p int) []any { a, b := utils.LeastSquare(o.Close, o.Open); return []any{a, b} }},
	{"MovingLeastSquare", func(o *klines.OHLC, p int) []any {
		a, b := utils.MovingLeastSquare(p, o.Close, o.Open)
		return []any{a, b}
	}},
	{"LinearRegressionUsingLeastSquare", func(o *klines.OHLC, p int) []any {
		return []any{utils.LinearRegressionUsingLeastSquare(o.Close, o.Open)}
	}},
	{"MovingLinearRegressionUsingLeastSquare", func(o *klines.OHLC, p int) []any {
		return []any{utils.MovingLinearRegressionUsingLeastSquare(p, o.Close, o.Open)}
	}},
}

var fnIdx = map[string]int{}

func init() {
	for i, d := range fns {
		fnIdx[d.name] = i
	}
}

// ------------------------------------------------------------------ references

// Job names one computation whose result does not depend on anything else:
// the reference value is what a fresh process, doing nothing but this, returns.
type Job struct {
	D   Data   `json:"d"`
	Op  string `json:"op"`  // ind:<name>, fn:<name>, view:<name>
	P   []int  `json:"p"`   // parameters; nil = defaults
	Src string `json:"src"` // "item" or "ohlc"
	Acc string `json:"acc"`
}

func (j Job) key() string {
	b, _ := json.Marshal(j)
	return string(b)
}

type refVal struct {
	Bytes []byte
	Panic string
}

var refMem = map[string]*refVal{}

// getRef must be called outside the simulation.
func getRef(j Job) *refVal {
	k := j.key()
	if v := refMem[k]; v != nil {
		return v
	}
	dir := os.Getenv("SIM_REFS")
	if dir == "" {
		die("SIM_REFS not set")
	}
	fn := filepath.Join(dir, fmt.Sprintf("%x.ref", hashS(k)))
	b, err := os.ReadFile(fn)
	if err != nil {
		tmp := fmt.Sprintf("%s.%d", fn, os.Getpid())
		if !askHelper(k, tmp) {
			cmd := exec.Command(os.Args[0], "ref", k, tmp)
			cmd.Env = os.Environ()
			cmd.Stderr = os.Stderr
			if err := cmd.Run(); err != nil {
				die("reference process for %s: %v", k, err)
			}
		}
		os.Rename(tmp, fn)
		b, err = os.ReadFile(fn)
		if err != nil {
			die("reference: %v", err)
		}
	}
	var v refVal
	if err := json.Unmarshal(b, &v); err != nil {
		die("reference %s: %v", fn, err)
	}
	refMem[k] = &v
	return &v
}

func refMain(k, out string) {
	var j Job
	if err := json.Unmarshal([]byte(k), &j); err != nil {
		die("ref: %v", err)
	}
	setZone("UTC")
	var v refVal
	in := j.D.input()
	runtime.SimBegin(&runtime.SimConfig{Seed: 1, MaxSteps: 1 << 40, Wall: refWall})
	runtime.SimGo(func() {
		v.Panic = protect(func() { v.Bytes = flatten(runJob(j, in)) })
	})
	runtime.SimWaitIdle()
	runtime.SimEnd()
	b, _ := json.Marshal(v)
	fd, err := syscall.Open(out, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, 0o644)
	if err != nil {
		die("%v", err)
	}
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err != nil {
			die("%v", err)
		}
		b = b[n:]
	}
	syscall.Close(fd)
}

// runJob performs the computation on the given input.
func runJob(j Job, in *Input) []any {
	kind, name := split(j.Op)
	switch kind {
	case "ind":
		return read(makeInd(name, j.P, j.Src, in), j.Acc, in)
	case "fn":
		i, ok := fnIdx[name]
		if !ok {
			panic("unknown function " + name)
		}
		p := 3
		if len(j.P) > 0 {
			p = max(j.P[0], 1)
		}
		o := in.Ohlc
		if name == "Nzs" || j.Src == "gaps" {
			c := *o
			c.Close = in.Gap
			o = &c
		}
		return fns[i].call(o, p)
	case "view":
		return runView(name, j.P, in)
	}
	panic("unknown op " + j.Op)
}

func makeInd(name string, p []int, src string, in *Input) any {
	i, ok := indIdx[name]
	if !ok {
		panic("unknown indicator " + name)
	}
	d := &inds[i]
	if p == nil {
		return d.def(in)
	}
	p = clampP(d, p)
	if src == "ohlc" && d.mko != nil {
		return d.mko(in, p)
	}
	return d.mk(in, p)
}

func split(s string) (string, string) {
	for i := range s {
		if s[i] == ':' {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}
