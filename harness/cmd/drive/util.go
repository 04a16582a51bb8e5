package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
)

func sortU(s []uint64) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }

// load reads a JSON file.
func load(path string, v any) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "drive: cannot load", path, err)
		os.Exit(2)
	}
}

func sortStrings(s []string) { sort.Strings(s) }
