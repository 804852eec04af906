package srv

import "verif/harness/h"

var Checks = map[string]func(*h.Run){"S01": S01, "S02": S02, "S03": S03, "S04": S04, "S05": S05, "S06": S06, "S07": S07, "S08": S08, "S09": S09, "S10": S10, "S11": S11, "S12": S12, "G02": G02, "G03": G03}
