package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
)

func usage() {
	ids := []string{}
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Println("usage: harness run ID quick|thorough SEED EVIDENCE_DIR | harness replay FILE | harness list", ids)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	atoi := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			usage()
		}
		return n
	}
	switch os.Args[1] {
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	case "run":
		if len(os.Args) < 6 || checks[os.Args[2]] == nil {
			usage()
		}
		only := -1
		if len(os.Args) > 6 {
			only = atoi(os.Args[6])
		}
		os.Exit(runParent(checks[os.Args[2]], os.Args[3], int64(atoi(os.Args[4])), os.Args[5], only))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil || checks[v.Property] == nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dir, _ := os.MkdirTemp("", "verif-replay-")
		defer os.RemoveAll(dir)
		os.Exit(runParent(checks[v.Property], v.Tier, v.Seed, dir, v.Case))
	case "worker":
		a := os.Args
		if len(a) < 11 || checks[a[2]] == nil {
			usage()
		}
		os.Exit(workerMain(checks[a[2]], a[3], int64(atoi(a[4])), atoi(a[5]), atoi(a[6]), atoi(a[7]), atoi(a[8]), a[9], a[10]))
	default:
		extra(os.Args[1:])
	}
}
