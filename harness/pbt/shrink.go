package pbt

import "time"

// shrink minimises a failing choice sequence.
func shrink(sub Sub, choices []uint64, bad func(Res) bool, budget time.Duration) []uint64 {
	deadline := time.Now().Add(budget)
	best := choices
	runs, hung := 0, 0
	try := func(c []uint64) bool {
		runs++
		if hung > 3 {
			return false
		}
		s := ReplaySrc(c)
		done := make(chan Res, 1)
		go func() {
			r, _ := sub.RunSrc(s)
			done <- r
		}()
		select {
		case r := <-done:
			if !bad(r) {
				return false
			}
		case <-time.After(3 * time.Second): // a candidate may not terminate
			hung++
			return false
		}
		n := s.Choices()
		if less(n, best) {
			best = n
			return true
		}
		return false
	}
	for improved := true; improved && runs < 6000 && time.Now().Before(deadline); {
		improved = false
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i++ {
				if time.Now().After(deadline) {
					return best
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
					i--
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			if time.Now().After(deadline) {
				return best
			}
			c := append([]uint64(nil), best...)
			c[i] = 0
			if try(c) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best[i]
			for k := 0; k < 12 && lo+1 < hi; k++ {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				if i >= len(c) {
					break
				}
				c[i] = mid
				if try(c) {
					improved = true
					hi = mid
				} else {
					lo = mid
				}
			}
			if i < len(best) && best[i] > 0 {
				c := append([]uint64(nil), best...)
				c[i]--
				if try(c) {
					improved = true
				}
			}
		}
	}
	return best
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
