package main

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"

	"vharness/rig"
)

// patternCmd asks the matcher of each list for each of its names.
func patternCmd(req M) M {
	out := []interface{}{}
	for _, x := range rig.List(req, "q") {
		q := x.(M)
		m := util.NewCommaSeparatedChainedStrMatcher(rig.Str(q, "list"))
		r := ""
		for _, n := range rig.List(q, "names") {
			if m.IsMatch(n.(string)) {
				r += "1"
			} else {
				r += "0"
			}
		}
		out = append(out, r)
	}
	return M{"r": out}
}
