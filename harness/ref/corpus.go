package ref

import (
	_ "embed"
	"encoding/hex"
	"strings"
)

//go:embed corpus.txt
var corpusTxt string

// Corpus is a set of packets sent by real terminals.
func Corpus() [][]byte {
	var out [][]byte
	for _, l := range strings.Fields(corpusTxt) {
		b, err := hex.DecodeString(l)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return out
}
