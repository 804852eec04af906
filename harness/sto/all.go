package sto

import "verif/harness/h"

var Checks = map[string]func(*h.Run){"T01": T01, "T02": T02, "T03": T03, "T04": T04, "T05": T05, "C01": C01, "G01": G01, "G04": G04}
