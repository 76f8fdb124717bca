package main

import (
	"os"
	"strconv"
	"time"

	"github.com/btcsuite/btcd/chaincfg"
)

var netParams = &chaincfg.RegressionNetParams

// settings from the command line.
var (
	seed      int64
	quietTime = 25 * time.Millisecond
	graceTime = 3 * time.Second
	workers   = 48
)

type modeFunc func(in string)

var modes = map[string]modeFunc{}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: verifharness MODE INPUT [seed] [quiet ms] [workers]")
	}
	f, ok := modes[os.Args[1]]
	if !ok {
		fatal("unknown mode %v", os.Args[1])
	}
	if len(os.Args) > 3 {
		v, err := strconv.ParseInt(os.Args[3], 10, 64)
		must(err)
		seed = v
	}
	if len(os.Args) > 4 {
		v, err := strconv.Atoi(os.Args[4])
		must(err)
		quietTime = time.Duration(v) * time.Millisecond
	}
	if len(os.Args) > 5 {
		v, err := strconv.Atoi(os.Args[5])
		must(err)
		workers = v
	}
	makeNoise()
	f(os.Args[2])
	emit(obj{"done": true})
}
