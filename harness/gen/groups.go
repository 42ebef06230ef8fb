package gen

import (
	"fmt"
	"hv/rec"
	"math/rand"
)

// Group is what is recorded together for case i of a profile.
func Group(prof string, seed int64, i int) *rec.Group {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)*104729 + int64(hash("group "+prof))))
	g := &rec.Group{Mode: "alone", Seed: r.Int63()}
	prog := func(name string, i int) {
		p, pr := Program(name, seed, i)
		g.Cases = append(g.Cases, rec.Case{P: p, Pr: pr})
	}
	switch prof {
	case "C12", "C12b":
		g.Mode = "pieces"
		if prof == "C12" {
			prog("C12", i)
		} else {
			prog([]string{"all", "C02", "C11", "C22"}[r.Intn(4)], i)
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			g.Runs = append(g.Runs, 0)
		}
	case "C14", "C14p":
		g.Mode = "inter"
		n := 2
		if r.Intn(4) == 0 {
			n = 3
		}
		if prof == "C14p" {
			g.Mode = "para"
			n = 6
		}
		for k := 0; k < n; k++ {
			if k > 0 && r.Intn(3) == 0 {
				g.Runs = append(g.Runs, r.Intn(len(g.Cases)))
				continue
			}
			prog([]string{"all", "C02", "C08", "C09", "C22", "C05", "C06", "C15", "C14"}[r.Intn(9)], i*10+k)
			g.Runs = append(g.Runs, len(g.Cases)-1)
		}
		g.Share = r.Intn(2) == 0
		for k, c := range g.Cases {
			c.P.Id = prof + idTail(seed, i, k)
			c.P.Profile = prof
		}
		return g
	default:
		prog(prof, i)
		g.Runs = []int{0}
		return g
	}
	for _, c := range g.Cases {
		c.P.Id = prof + idTail(seed, i, -1)
		c.P.Profile = prof
	}
	return g
}

func idTail(seed int64, i, k int) string {
	s := fmt.Sprintf("-%d-%d", seed, i)
	if k >= 0 {
		s += fmt.Sprintf("-%c", 'a'+k)
	}
	return s
}

// Texts are the printed main programs of a generated program.
func Texts(prof string, seed int64, i int) []string {
	c := Group(prof, seed, i).Cases[0]
	mains, _, _, _ := c.P.Print(c.Pr)
	return mains
}
