package checks

import (
	"os"
	"testing"

	"verifharness/core"
)

// FuzzCase is coverage-guided fuzzing of one property (VERIF_FUZZ): the bytes
// the fuzzer mutates are the stream the case is about (FromBytes), or the bits
// its generator draws.
func FuzzCase(f *testing.F) {
	test, ok := map[string]func(*testing.T){
		"T01": TestT01, "T02": TestT02, "T03": TestT03, "T06": TestT06, "T07": TestT07, "T08": TestT08, "T11": TestT11,
		"P01": TestP01, "P02": TestP02, "P03": TestP03, "P04": TestP04,
		"S01": TestS01, "S02": TestS02, "S03": TestS03, "S04": TestS04,
		"V01": TestV01, "V02": TestV02, "V03": TestV03, "V04": TestV04, "V06": TestV06, "V07": TestV07, "V08": TestV08,
		"V09": TestV09, "V11": TestV11, "V12": TestV12, "V14": TestV14, "V15": TestV15,
	}[os.Getenv("VERIF_FUZZ")]
	if !ok {
		f.Skip("VERIF_FUZZ names no property")
	}
	core.Capturing = true
	test(nil)
	for _, s := range core.Captured.Seeds() {
		f.Add(s)
	}
	f.Fuzz(core.Captured.Case)
}

// The first three bytes of a fuzzed stream say how it is read.

var fuzzSizes = [][]int{nil, {1}, {2, 3}, {7, 188}, {184}, {1, 400, 13}, {512, 1}, {5000}}

func fuzzHead(data []byte, vias, errs []string) (via, err string, sizes []int, rest []byte) {
	data = append(make([]byte, 0, len(data)+3), data...)
	for len(data) < 3 {
		data = append(data, 0)
	}
	if len(data) > 1<<14 {
		data = data[:1<<14]
	}
	return vias[int(data[0])%len(vias)], errs[int(data[1])%len(errs)], fuzzSizes[int(data[2])%len(fuzzSizes)], data[3:]
}

// fuzzBytes is the inverse, as far as it matters for a seed.
func fuzzBytes(data []byte, via, err string, vias, errs []string) []byte {
	b := []byte{0, 0, byte(len(data))}
	for i := range vias {
		if vias[i] == via {
			b[0] = byte(i)
		}
	}
	for i := range errs {
		if errs[i] == err {
			b[1] = byte(i)
		}
	}
	return append(b, data...)
}
