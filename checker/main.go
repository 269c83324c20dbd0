package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

func main() {
	prop := flag.String("property", "", "property id (comma separated)")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	all := flag.Bool("all", false, "run every check")
	list := flag.Bool("list", false, "list checks as technique lines")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if *list {
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\n", id, checks[id].Technique, checks[id].Note)
		}
		return
	}
	if !*all {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		ch := checks[id]
		if ch == nil {
			fmt.Printf("unknown property %q\n", id)
			os.Exit(2)
		}
		if r := runCheck(ch, *repo, *verif, tier, seed, false); r != 0 {
			code = r
			if os.Getenv("VERIF_FIRST") != "" {
				break
			}
		}
	}
	os.Exit(code)
}
