package main

import (
	"time"

	"github.com/idoall/stockindicator/utils/klines"
)

var viewNames = []string{"GetOHLC", "HL2", "HLC3", "OHLC4", "Copy", "Convert", "HeikinAshi"}

// runView derives a view of the shared candles.
func runView(name string, p []int, in *Input) []any {
	a := 0
	if len(p) > 0 {
		a = p[0]
	}
	it := in.Item
	switch name {
	case "GetOHLC":
		return []any{it.GetOHLC()}
	case "HL2":
		return []any{it.HL2()}
	case "HLC3":
		return []any{it.HLC3()}
	case "OHLC4":
		return []any{it.OHLC4()}
	case "Copy":
		lo, hi := copyRange(p, in.D)
		return []any{it.RemoveOutsideRangeCopy(time.Unix(lo, 0), time.Unix(hi, 0))}
	case "Convert":
		k := []int{2, 3, 4, 6, 12, 7, 24, 5}[((a%8)+8)%8]
		x, err := it.ConvertToNewInterval(klines.Interval(int64(k) * in.D.step() * 1e9))
		e := ""
		if err != nil {
			e = err.Error()
		}
		return []any{x, e}
	case "HeikinAshi":
		return []any{it.ToHeikinAshi()}
	}
	panic("unknown view " + name)
}

func copyRange(p []int, d Data) (lo, hi int64) {
	a := 0
	if len(p) > 0 {
		a = p[0]
	}
	base := baseUnix - baseUnix%d.step()
	lo = base + (d.T0+int64(a%17)-2)*d.step()
	hi = base + (d.T0+int64(d.N)-int64(a%5)+1)*d.step()
	return
}
