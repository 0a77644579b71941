// Command api holds the checks that use the exported API of the packages.
package main

import (
	"math/rand"
	"os"

	"github.com/IfanTsai/metis/config"
	"github.com/IfanTsai/metis/log"

	"verifharness/fw"
)

func main() {
	if len(os.Args) == 4 && os.Args[1] == "loadcfg" {
		loadCfg(os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) >= 4 && os.Args[1] == "instances" {
		instances(os.Args[2], os.Args[3], os.Args[4:])
		return
	}
	log.InitLogger(&config.Config{LogLevel: config.LogLevelError})
	fw.Main()
}

// seedRand makes the random choices of the code under test repeatable (go.mod's version keeps rand.Seed working).
func seedRand(n int64) { rand.Seed(n) } //nolint:staticcheck

// without leaves out ops[i:j].
func without[T any](ops []T, i, j int) []T { return append(append([]T{}, ops[:i]...), ops[j:]...) }
