package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property>|all [quick|thorough] | dump")
		os.Exit(2)
	}
	if os.Args[1] == "dump" {
		dump()
		return
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if os.Args[1] == "all" {
		os.Exit(runAll(tier))
	}
	os.Exit(runCheck(os.Args[1], tier, nil))
}

func dump() {
	p, err := loadProg()
	if err != nil {
		fmt.Println(err)
		return
	}
	b := buildBase(p)
	if len(os.Args) > 2 {
		for _, f := range p.Funcs {
			if strings.Contains(f.String(), os.Args[2]) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	var ks []*Term
	for k := range b.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	for _, k := range ks {
		fmt.Println(k, "=", b.heap[k])
	}
	for v := range b.immutable {
		fmt.Println("immutable", v)
	}
}
