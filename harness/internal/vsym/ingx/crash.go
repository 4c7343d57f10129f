package ingx

import (
	"github.com/filecoin-project/storetheindex/internal/vsym"
)

// VerifCrash: after a crash at any point of the ingestion of a chain, and after
// an orderly shutdown, the next run picks the chain up so that in the end the
// index answers as the chain says, and nothing that had taken effect is applied
// again when shutdown was orderly.
func VerifCrash() { crash(0, "after a restart and a sync the index answers as the chain says") }

// VerifCrashUnflushed: likewise if the crash also loses the last operation of
// the index when it was not flushed.
func VerifCrashUnflushed() {
	crash(1, "after a restart and a sync the index answers as the chain says although it lost what was not flushed")
}

func crash(lost int, answers string) {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	n := vsym.Param("ads", 2)
	for i := 0; i < n; i++ {
		c.any(c.pub, false)
	}
	w.Start()
	ops := -1
	crashed := func() {
		ops = len(w.Idx.Log)
		w.RDS.Crashes = false
		w.DS.Crashes = false
		if !w.RDS.Crashed() {
			w.RDS.Crash()
		}
		if !w.DS.Crashed() {
			w.DS.Crash()
		}
	}
	w.DS.OnCrash, w.RDS.OnCrash = crashed, crashed
	w.DS.Crashes, w.RDS.Crashes = true, vsym.Param("regcrash", 1) == 1
	got, ok := c.sync()
	vsym.Assert(ok && got == c.ads[n-1].cid, "a sync reports the head of the chain")
	w.DS.Crashes, w.RDS.Crashes = false, false
	vsym.Quiet(w.Stop)
	if ops < 0 {
		w.DS, w.RDS = w.DS.Reopen(), w.RDS.Reopen()
		vsym.Reach("restart")
	} else {
		w.Idx = w.Idx.Reboot(ops, lost)
		w.DS, w.RDS = w.DS.Reboot(), w.RDS.Reboot()
		vsym.Reach("crash")
	}
	w.Start()
	n0 := len(w.Idx.Log)
	if (ops < 0 || vsym.Param("more", 1) == 1) && vsym.Flip("more") {
		c.plain()
		n++
	} else if ops < 0 {
		latest, err := w.Ing.GetLatestSync(c.pub)
		vsym.Assert(err == nil && latest == c.ads[n-1].cid, "the latest sync is known after a restart")
	}
	got, ok = c.sync()
	vsym.Assert(ok && got == c.ads[n-1].cid, "a sync after a restart reports the head of the chain")
	vsym.Assert(same(w.Idx, c.reference(n)), answers)
	vsym.Assert(ops >= 0 || len(w.Idx.Log)-n0 <= n-vsym.Param("ads", 2)+1, "nothing is ingested again after an orderly shutdown")
	info := w.Reg.ProviderInfo(c.pub)
	vsym.Assert(info != nil && info.Publisher == c.pub, "the provider is registered after a restart and a sync")
	vsym.Reach("done")
}
