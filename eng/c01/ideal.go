//go:build zzideal

package main

import "github.com/sp301415/ringo-snark/jindo"

var rankVariants = []string{"exact", "roundup"}

func setRank(v string) {
	if v == "exact" {
		jindo.RankOf = func(t, b int) int { return t }
	} else {
		jindo.RankOf = func(t, b int) int { return (t + 37) / 32 * 32 }
	}
}
