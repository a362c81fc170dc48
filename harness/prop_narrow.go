package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

// X10: the same on 32-bit platforms. The workers of the 32-bit build run the
// monitors of the other properties; both builds run the same hostile inputs,
// and what they report is compared.

var narrowProps = []string{"T01", "T02", "T03", "T04", "T05", "T06", "T08", "T09", "T10", "T11", "P01", "P02", "S01", "S02", "S03",
	"V01", "V02", "V03", "V05", "V06", "V07", "V08", "V09", "V14", "V15", "V16", "X01", "X02", "X03", "X04", "X06", "X07", "X09", "V12", "V13"}

func init() {
	min := map[string]int64{"results_compared": 5000, "results_in_the_wide_build": 100000, "results_in_the_narrow_build": 100000}
	for _, id := range narrowProps {
		min["narrow: "+id] = 50
	}
	register(&Prop{
		ID: "X10", Rule: "an input handled by the 32-bit build",
		Quick: 42000, Thorough: 700000, NarrowQuick: 42000, NarrowThor: 700000, Run: runX10, Min: min, Post: postX10,
	})
}

func runX10(c *Case) {
	idx := c.Idx
	if idx%2 == 0 {
		if strconv.IntSize != 32 {
			return // they do so in checks of their own
		}
		id := narrowProps[idx/2%len(narrowProps)]
		c.Note("monitored as in %s", id)
		c.Idx = idx / 2 / len(narrowProps)
		st := c.st
		c.st = newStats()
		defer func() { c.st = st }()
		props[id].Run(c)
		c.st = st
		c.Count("narrow: "+id, 1)
		return
	}
	c.Idx = idx / 2
	width := "wide"
	if strconv.IntSize == 32 {
		width = "narrow"
	}
	c.Watch = func(o *obs, data []byte) {
		h := hashStr(o.end)
		for i, s := range o.seqs {
			h = mix64(h + uint64(i) + 1)
			for _, x := range s {
				h = mix64(h ^ x)
			}
		}
		c.See("inputs, "+width, uint64(idx)<<32|hashBytes(data)>>32)
		c.See("results, "+width, uint64(idx)<<32|h>>32)
		c.Count("results_in_the_"+width+"_build", o.count())
	}
	st, watch := c.st, c.Watch
	c.Watch = func(o *obs, data []byte) {
		c.st = st
		watch(o, data)
	}
	c.st = newStats()
	defer func() { c.st = st }()
	runX03(c)
}

// postX10 compares what the two builds reported.
func postX10(m *Merged) string {
	if os.Getenv("VERIF_NO32") != "" {
		return ""
	}
	table := func(name string) map[uint64]uint64 {
		t := map[uint64]uint64{}
		for h := range m.Sets[name] {
			t[h>>32] = h & 0xffffffff
		}
		return t
	}
	iw, in, rw, rn := table("inputs, wide"), table("inputs, narrow"), table("results, wide"), table("results, narrow")
	var bad []int
	for i, x := range iw {
		y, ok := in[i]
		if !ok || x != y {
			continue
		}
		m.Counters["results_compared"]++
		if rw[i] != rn[i] {
			bad = append(bad, int(i))
		}
	}
	sort.Ints(bad)
	if len(bad) > 0 {
		return fmt.Sprintf("the 32-bit build reports other results than the 64-bit build for %d of %d inputs, the first in case %d", len(bad), m.Counters["results_compared"], bad[0])
	}
	return ""
}
