//go:build sched

package main

import (
	"fmt"

	"github.com/tendermint/go-amino/zzsync"
)

func init() {
	runTasks = zzsync.Run
	yield = zzsync.Yield
	drivers["csched"] = driveConc
	drivers["sealsched"] = driveSealSched
	schedStats = func(r *run) {
		r.stats["runs"] = zzsync.Stats.Runs
		r.stats["steps"] = zzsync.Stats.Steps
		r.stats["gave up"] = zzsync.Stats.GaveUp
		fmt.Println(zzsync.Stats)
	}
}
