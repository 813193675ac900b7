package main

// Linearizability of a recorded concurrent history against a sequential
// specification (Wing & Gong search with memoisation).

type linOp[S any] struct {
	inv, ret uint64 // order of invocation and response events
	desc     string
	maybe    bool // cut off: took effect or not
	// step applies the operation to a state; ok=false if the recorded result
	// is impossible there. An operation may consist of several atomic parts.
	parts []func(S) (S, bool)
	// again tells whether a part applied to the state has to be repeated
	again func(s S, part int) bool
}

func linearizable[S any](hist [][]*linOp[S], init S, key func(S) uint64) bool {
	type pos struct{ op, part int }
	n := len(hist)
	cur := make([]pos, n)
	seen := map[uint64]bool{}
	var dfs func(st S) bool
	dfs = func(st S) bool {
		doneAll := true
		hk := key(st)
		for c := 0; c < n; c++ {
			if cur[c].op < len(hist[c]) && !hist[c][cur[c].op].maybe {
				doneAll = false
			}
			hk = mix(hk, uint64(cur[c].op)<<8|uint64(cur[c].part))
		}
		if doneAll {
			return true
		}
		if seen[hk] {
			return false
		}
		seen[hk] = true
		// the earliest response among pending operations bounds what may go next
		minRet := ^uint64(0)
		for c := 0; c < n; c++ {
			if cur[c].op < len(hist[c]) && !hist[c][cur[c].op].maybe && hist[c][cur[c].op].ret < minRet {
				minRet = hist[c][cur[c].op].ret
			}
		}
		for c := 0; c < n; c++ {
			if cur[c].op >= len(hist[c]) {
				continue
			}
			o := hist[c][cur[c].op]
			if o.inv > minRet {
				continue
			}
			ns, ok := o.parts[cur[c].part](st)
			if !ok {
				continue
			}
			save := cur[c]
			if o.again != nil && o.again(st, save.part) {
				// the same part once more
			} else if save.part+1 < len(o.parts) {
				cur[c].part++
			} else {
				cur[c] = pos{save.op + 1, 0}
			}
			if dfs(ns) {
				return true
			}
			cur[c] = save
		}
		return false
	}
	return dfs(init)
}
