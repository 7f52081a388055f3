// Command replay runs a harness natively, against the compiled real code, with the values of a solver counterexample.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"verifharness/props"
	"verifharness/vp"
)

type cand struct {
	Label string            `json:"label"`
	Mode  string            `json:"mode"`
	Seed  uint64            `json:"seed"`
	Vals  map[string]string `json:"vals"`
	Secs  int               `json:"secs"` // repeat with other seeds for so long
}

type rcase struct {
	Harness string `json:"harness"`
	Choices []int  `json:"choices"`
	Tier    int    `json:"tier"`
	Repeat  int    `json:"repeat"`
	Cands   []cand `json:"cands"`
}

func main() {
	if len(os.Args) != 2 {
		fmt.Println("usage: replay case.json")
		os.Exit(2)
	}
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var c rcase
	if err := json.Unmarshal(data, &c); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f := props.Registry[c.Harness]
	if f == nil {
		fmt.Println("unknown harness", c.Harness)
		os.Exit(2)
	}
	if c.Repeat < 1 {
		c.Repeat = 1
	}
	for i, cd := range c.Cands {
		end := time.Now().Add(time.Duration(cd.Secs) * time.Second)
		for r := 0; r < c.Repeat || (cd.Secs > 0 && time.Now().Before(end)); r++ {
			vp.ReplayChoices = c.Choices
			vp.ReplayTier = c.Tier
			vp.ReplayMode = cd.Mode
			vp.ReplaySeed = cd.Seed + uint64(r)*7919
			vp.ReplayVals = cd.Vals
			vp.Reset()
			p := run(f)
			if p != "" {
				fmt.Printf("VPPANIC candidate %d: %s\n", i, p)
				os.Exit(3)
			}
			if len(vp.Fails) > 0 {
				for _, s := range vp.Fails {
					fmt.Printf("VPFAIL candidate %d: %s\n", i, s)
				}
				os.Exit(3)
			}
		}
	}
	fmt.Println("VPOK")
}

func run(f func()) (msg string) {
	done := false
	defer func() {
		// panic(nil) leaves nothing to recover
		if r := recover(); !done {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "mk-lr/") || strings.Contains(l, "lattigo") || strings.Contains(l, "/props.") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 8 {
				keep = keep[:8]
			}
			msg = fmt.Sprint(r) + " | " + strings.Join(keep, " | ")
		}
	}()
	f()
	done = true
	return
}
