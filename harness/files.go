package main

import (
	"os"
	"path/filepath"
)

func writeFile(p, txt string) string {
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte(txt), 0644); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

func removeFiles(l []string) {
	for _, p := range l {
		os.Remove(p)
	}
}
