package main

import "fmt"

// extra holds development commands
func extra(args []string) {
	if args[0] == "selftest" {
		loadSuite()
		n, bad, undecided := 0, 0, 0
		for _, g := range suiteGroups {
			m := g.mode()
			u, root := m.root(g.Schema)
			if w := u.WellFormed(root); w != "" {
				fmt.Println("MALFORMED", g.File, g.Desc, w)
				bad++
				continue
			}
			for _, c := range g.Cases {
				n++
				u.grey = false
				res := u.Eval(root, c.Data)
				if u.grey {
					undecided++
					continue
				}
				if res.Valid() != c.Valid {
					bad++
					fmt.Println("MODEL", g.File, g.Desc, text(g.Schema), text(c.Data), c.Valid, res.Errs)
				}
			}
		}
		fmt.Println("suite cases", n, "undecided", undecided, "disagreements", bad)
		return
	}
	usage()
}
