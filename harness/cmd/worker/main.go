// Command worker runs one check in-process. check.py builds and judges it.
package main

import (
	"fmt"
	"io"
	"os"

	"github.com/sirupsen/logrus"

	"verif/harness/h"
	"verif/harness/lib"
	"verif/harness/srv"
	"verif/harness/sto"
)

func main() {
	logrus.SetOutput(io.Discard)
	if len(os.Args) == 4 && os.Args[1] == "one" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			panic(err)
		}
		lib.DecodeAny(os.Args[2], b)
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "cold" {
		var seed int64
		fmt.Sscan(os.Args[2], &seed)
		lib.Cold(seed)
		return
	}
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: worker CHECK | worker one KIND FILE")
		os.Exit(2)
	}
	var f func(*h.Run)
	for _, m := range []map[string]func(*h.Run){lib.Checks, srv.Checks, sto.Checks} {
		if m[os.Args[1]] != nil {
			f = m[os.Args[1]]
		}
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	r := h.New(os.Args[1])
	f(r)
	r.Finish()
}
