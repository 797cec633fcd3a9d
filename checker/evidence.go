package main

import (
	"os"
	"path/filepath"
	"strconv"
	"time"
)

func writeEvidence(out string, r rule, c *Ctx, cnt map[string]int, fns, und []string, bad bool, replay string, dur time.Duration) {
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []interface{}
	seen := map[string]int{}
	for _, o := range c.obl {
		if o.Status == "proved" && seen[o.Anchor] < 3 && len(samples) < 40 {
			seen[o.Anchor]++
			samples = append(samples, o)
		}
	}
	for _, v := range c.viol {
		samples = append(samples, v)
	}
	cov := map[string]interface{}{
		"explanation":        r.desc,
		"rule":               r.desc,
		"obligations":        len(c.obl),
		"discharged":         cnt["proved"],
		"undecided":          und,
		"functions_analysed": fns,
		"ssa_instructions":   c.steps,
		"guard_splits":       c.splits,
		"samples":            samples,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	jsonWrite(filepath.Join(out, "evidence", r.id+".json"), map[string]interface{}{
		"property": r.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": dur.Seconds(), "violations": len(c.viol),
		"assumptions": []string{
			"the models of go-ristretto, bn256, math/big, the hashes, io and encoding/binary state those libraries' documented behaviour (checker/models.go)",
			"digests are collision free: equal digests are taken to mean equal inputs",
			"library scalars and points form a field and groups, and pairings are bilinear",
		},
	})
}
