// The free-running part of C18, built with the race detector.
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"

	"vmc/mach"
)

func main() {
	part, _ := strconv.Atoi(os.Args[1])
	kinds := mach.Kinds()
	n := 0
	for a := range kinds {
		for b := a; b < len(kinds); b++ {
			n++
			if n%8 != part {
				continue
			}
			fmt.Printf("PAIR %s, %s\n", kinds[a].Name, kinds[b].Name)
			for rep := 0; rep < 2; rep++ {
				var wg sync.WaitGroup
				start := make(chan bool)
				out := make([]string, 2)
				for i, k := range []mach.Kind{kinds[a], kinds[b]} {
					wg.Add(1)
					i, k := i, k
					go func() {
						defer wg.Done()
						<-start
						out[i] = fmt.Sprint(mach.Solo(k, i, nil))
					}()
				}
				close(start)
				wg.Wait()
				for i, k := range []mach.Kind{kinds[a], kinds[b]} {
					if want := fmt.Sprint(mach.Solo(k, i, nil)); out[i] != want {
						fmt.Printf("%s gave %.300s, alone %.300s\n", k.Name, out[i], want)
						os.Exit(1)
					}
				}
			}
		}
	}
}
