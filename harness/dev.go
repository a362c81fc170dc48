package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
)

// devMain runs the first n cases in this process and tallies the complaints.
func devMain(prop, n string) {
	p := props[prop]
	k, _ := strconv.Atoi(n)
	st := newStats()
	re := regexp.MustCompile(`-?[0-9.]+`)
	tally := map[string]int{}
	ex := map[string]string{}
	for i := 0; i < k; i++ {
		if v := runCase(p, 1, "quick", plainBuild, i, st, p.Run); v != nil {
			m := re.ReplaceAllString(v.Kind+": "+v.Message, "#")
			if len(m) > 150 {
				m = m[:150]
			}
			tally[m]++
			if ex[m] == "" {
				ex[m] = fmt.Sprintf("case %d: %s\n%s", i, v.Message, v.Stack)
				if len(ex[m]) > 1500 {
					ex[m] = ex[m][:1500]
				}
			}
		}
	}
	var l []string
	for m := range tally {
		l = append(l, m)
	}
	sort.Slice(l, func(i, j int) bool { return tally[l[i]] > tally[l[j]] })
	for _, m := range l {
		fmt.Printf("%6d %s\n       %s\n", tally[m], m, ex[m])
	}
	fmt.Println(st.Cases, "cases held;", st.Counters)
}

// dumpMain writes the inputs of the first n cases to files.
func dumpMain(prop, n, dir string) {
	p := props[prop]
	k, _ := strconv.Atoi(n)
	for i := 0; i < k; i++ {
		var in []byte
		runCase(p, 1, "quick", plainBuild, i, newStats(), func(c *Case) {
			defer func() { in = c.Input }()
			p.Run(c)
		})
		if in != nil {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s.%05d.bin", prop, i)), in, 0o644)
		}
	}
}
