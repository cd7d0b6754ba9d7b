package hcore

// All lists the harnesses.
var All = map[string]func(){
	"Probe": Probe,
	"M01":   M01, "M01Replace": M01Replace, "M02": M02, "M02Wide": M02Wide, "M03": M03, "M03Again": M03Again, "M04": M04, "M05": M05,
	"M06": M06, "M06Many": M06Many, "M06Notice": M06Notice, "M06Race": M06Race, "M07": M07, "M07Race": M07Race, "M08": M08, "M08Two": M08Two, "M08Three": M08Three, "M08Cap": M08Cap,
	"X01": X01, "X01Gone": X01Gone, "X01Prepare": X01Prepare, "X02": X02, "X02Bad": X02Bad,
	"S01Forge": S01Forge, "S01Tamper": S01Tamper, "S01Refresh": S01Refresh, "S01Issue": S01Issue, "S01Two": S01Two, "S02": S02, "S02Store": S02Store, "S02Parts": S02Parts, "S02List": S02List, "S03": S03, "S03Forge": S03Forge, "S04": S04, "S06": S06, "S07": S07, "S07Create": S07Create, "O02": O02, "O02Two": O02Two, "X03": X03, "X03Others": X03Others, "S06Store": S06Store, "S06Sign": S06Sign,
	"X03Then": X03Then, "E01Mem": E01Mem, "E02": E02, "E02Sign": E02Sign, "E02New": E02New, "C01Mem": C01Mem, "C01Manager": C01Manager, "E02Coder": E02Coder,
	"P01Mem": P01Mem,
	"O01":    O01, "O01Others": O01Others,
}
