package main

var table = map[string][]hspec{
	"M01": {{pkg: "hcore", fn: "M01", share: 3, opt: hopt{reach: []string{"probed"}}}, {pkg: "hcore", fn: "M01Replace", opt: hopt{reach: []string{"end"}}}},
	"M02": {{pkg: "hcore", fn: "M02", opt: hopt{reach: []string{"end"}}}, {pkg: "hcore", fn: "M02Wide", opt: hopt{reach: []string{"end"}}}},
	"M03": {{pkg: "hcore", fn: "M03", share: 3, opt: hopt{reach: []string{"end"}}}, {pkg: "hcore", fn: "M03Again", opt: hopt{reach: []string{"end"}}}},
	"M04": {{pkg: "hcore", fn: "M04", opt: hopt{reach: []string{"end"}}}},
	"M05": {{pkg: "hcore", fn: "M05", opt: hopt{reach: []string{"end"}}}},
}

func assumptions(specs []hspec) []string {
	return []string{
		"go/ssa's translation of the Go source is faithful; the executor's model of the Go runtime (goroutines, channels, timers, maps) is faithful where sampled paths were not replayed natively",
		"nothing is claimed outside the bounds listed per harness under coverage.harnesses",
	}
}

func init() {
	end := []string{"end"}
	table["M06"] = []hspec{{pkg: "hcore", fn: "M06", share: 2, opt: hopt{reach: end}}, {pkg: "hcore", fn: "M06Many", share: 3, opt: hopt{reach: end}}, {pkg: "hcore", fn: "M06Notice", opt: hopt{reach: end}}, {pkg: "hcore", fn: "M06Race", opt: hopt{reach: end}}}
	table["M07"] = []hspec{{pkg: "hcore", fn: "M07", opt: hopt{reach: end}}, {pkg: "hcore", fn: "M07Race", share: 4, opt: hopt{reach: end}}}
	table["M08"] = []hspec{{pkg: "hcore", fn: "M08", opt: hopt{reach: end}}, {pkg: "hcore", fn: "M08Two", share: 4, opt: hopt{reach: end}}, {pkg: "hcore", fn: "M08Three", opt: hopt{reach: end}}, {pkg: "hcore", fn: "M08Cap", opt: hopt{reach: end}}}
}

func init() {
	end := []string{"end"}
	table["X01"] = []hspec{{pkg: "hcore", fn: "X01", share: 4, opt: hopt{reach: end}}, {pkg: "hcore", fn: "X01Gone", opt: hopt{reach: end}}, {pkg: "hcore", fn: "X01Prepare", opt: hopt{reach: end}}}
	table["X02"] = []hspec{{pkg: "hcore", fn: "X02", share: 3, opt: hopt{reach: end}}, {pkg: "hcore", fn: "X02Bad", opt: hopt{reach: end}}}
	table["S05"] = []hspec{{pkg: "hsign", fn: "S05Hash", share: 2, opt: hopt{reach: end}}, {pkg: "hsign", fn: "S05Wrong", opt: hopt{reach: end}}, {pkg: "hsign", fn: "S05Custom", opt: hopt{reach: end}}, {pkg: "hsign", fn: "S05Names", share: 2, opt: hopt{reach: end}}, {pkg: "hsign", fn: "S05Race", opt: hopt{reach: end}}}
	h := func(fn string, share int, reach ...string) hspec {
		if len(reach) == 0 {
			reach = end
		}
		return hspec{pkg: "hcore", fn: fn, share: share, opt: hopt{reach: reach}}
	}
	table["S01"] = []hspec{h("S01Forge", 2, "accepted", "rejected"), h("S01Tamper", 1), h("S01Refresh", 4, "accepted", "rejected"), h("S01Issue", 2, "same", "different"), h("S01Two", 2)}
	table["S02"] = []hspec{h("S02", 1, "token", "other"), h("S02Parts", 1), h("S02List", 1), h("S02Store", 1)}
	table["S03"] = []hspec{h("S03", 1, "round", "end"), h("S03Forge", 1, "accepted", "end")}
	table["S04"] = []hspec{h("S04", 1)}
	table["S06"] = []hspec{h("S06", 2, "created", "failed"), h("S06Store", 1), h("S06Sign", 1, "failed", "signed")}
	table["O01"] = []hspec{h("O01", 1), h("O01Others", 1)}
	table["O02"] = []hspec{h("O02", 1), h("O02Two", 2)}
	table["S07"] = []hspec{h("S07", 1), h("S07Create", 1)}
	table["E01"] = []hspec{h("E01Mem", 4), {pkg: "hbolt", fn: "E01Bolt", opt: hopt{reach: end}}, {pkg: "hredis", fn: "E01Redis", opt: hopt{reach: end}}}
	table["E02"] = []hspec{h("E02", 4), h("E02Sign", 2), h("E02New", 1), h("E02Coder", 1)}
	table["C01"] = []hspec{h("C01Mem", 2), h("C01Manager", 1), {pkg: "hbolt", fn: "C01Bolt", share: 2, opt: hopt{reach: end}}, {pkg: "hredis", fn: "C01Redis", share: 2, opt: hopt{reach: end}}}
	table["X03"] = []hspec{h("X03", 1, "end", "none"), h("X03Others", 1), h("X03Then", 1)}
}

func init() {
	h := func(fn string, share int) hspec {
		return hspec{pkg: "hbolt", fn: fn, share: share, opt: hopt{reach: []string{"end"}}}
	}
	table["B01"] = []hspec{h("B01", 3), h("B01Replace", 1)}
	table["B02"] = []hspec{h("B02", 1), h("B02Wide", 1)}
	table["B03"] = []hspec{h("B03", 3), h("B03Again", 1)}
	table["B04"] = []hspec{h("B04", 1)}
	table["B05"] = []hspec{h("B05", 1)}
	table["S02"] = append(table["S02"], h("S02Bolt", 1))
}

func init() {
	h := func(fn string, share int) hspec {
		return hspec{pkg: "hbolt", fn: fn, share: share, opt: hopt{reach: []string{"end"}}}
	}
	table["B06"] = []hspec{h("B06", 2), h("B06Fail", 1), h("B06Notice", 3), h("B06Race", 2), h("B06Closed", 1)}
	table["B07"] = []hspec{h("B07Reopen", 4), h("B07Stop", 2), h("B07Gone", 1), h("B07New", 1)}
	table["B08"] = []hspec{h("B08", 1), h("B08Two", 2), h("B08Race", 1), h("B08Close", 2), h("B08CloseRace", 4)}
	table["O01"] = append(table["O01"], h("O01Bolt", 1))
}

func init() {
	h := func(fn string, share int) hspec {
		return hspec{pkg: "hredis", fn: fn, share: share, opt: hopt{reach: []string{"end"}}}
	}
	table["R01"] = []hspec{h("R01", 3), h("R01Replace", 1)}
	table["R02"] = []hspec{h("R02", 3), h("R02Hidden", 1), h("R02Wide", 1)}
	table["R03"] = []hspec{h("R03", 3), h("R03Again", 1)}
	table["R04"] = []hspec{h("R04", 1), h("R04Names", 2)}
	table["R05"] = []hspec{h("R05", 3), h("R05Fault", 1)}
	table["R06"] = []hspec{h("R06", 2), h("R06Two", 2), h("R06Three", 2), h("R06Dead", 1), h("R06Fault", 1)}
	table["R07"] = []hspec{h("R07", 1), h("R07Race", 2)}
	table["O01"] = append(table["O01"], h("O01Redis", 1))
	table["S02"] = append(table["S02"], h("S02Redis", 1))
}

func init() {
	h := func(pkg, fn string, share int) hspec {
		return hspec{pkg: pkg, fn: fn, share: share, opt: hopt{reach: []string{"end"}}}
	}
	table["P01"] = []hspec{h("hcore", "P01Mem", 1), h("hbolt", "P01Bolt", 2), h("hredis", "P01Redis", 2)}
}
