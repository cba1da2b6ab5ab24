package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// sweep SECONDS all|first [ID...]: a short look at many properties in this
// process, used for mutation campaigns (tools/mutate.py), not by any check.
func sweep(a []string) {
	secs, _ := strconv.ParseFloat(a[0], 64)
	first := a[1] == "first"
	ids := a[2:]
	if len(ids) == 0 {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	cur := ""
	var bt beat
	guard(&bt, 8*time.Second, func(m string) { fmt.Println("KILL", cur, m) })
	for _, id := range ids {
		p := props[id]
		cur = id
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("KILL", id, "panic", r)
					if first {
						os.Exit(1)
					}
				}
			}()
			if v, _ := strconv.ParseFloat(os.Getenv("SWEEP_ENUM"), 64); v > 0 && p.Enum != nil {
				// every 7th case, then the others, for at most v seconds
				stop := time.Now().Add(time.Duration(v * float64(time.Second)))
				hit := false
				for ph := 0; ph < 7 && !hit && time.Now().Before(stop); ph++ {
					i := 0
					p.Enum(func(mk mkCase) bool {
						i++
						if i%7 != ph {
							return true
						}
						c := mk()
						if c == nil {
							return true
						}
						c.Prop = id
						bt.start.Store(time.Now().UnixNano())
						m := judge(c)
						bt.start.Store(0)
						if m != "" {
							fmt.Println("KILL", id, strings.ReplaceAll(clip(m, 200), "\n", " "))
							hit = true
							if first {
								os.Exit(1)
							}
							return false
						}
						return time.Now().Before(stop)
					})
				}
				if hit {
					return
				}
				end = time.Now().Add(time.Duration(secs * float64(time.Second)))
			}
			for i := 0; time.Now().Before(end); i++ {
				c := p.Gen(newSrc(caseSeed(id, 7, 3, i)))
				if c == nil || c.skip {
					continue
				}
				c.Prop = id
				bt.start.Store(time.Now().UnixNano())
				m := judge(c)
				bt.start.Store(0)
				if m != "" {
					fmt.Println("KILL", id, strings.ReplaceAll(clip(m, 200), "\n", " "))
					if first {
						os.Exit(1)
					}
					break
				}
			}
		}()
	}
	fmt.Println("END")
}
