package runtime

import _ "unsafe"

func simRealNow() (sec int64, nsec int32, mono int64)

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	if sim.on {
		w := sim.wall
		sec = w / 1e9
		ns := w % 1e9
		if ns < 0 {
			ns += 1e9
			sec--
		}
		return sec, int32(ns), sim.mono
	}
	return simRealNow()
}
