package main

import (
	"encoding/json"

	"aqwari.net/xml/internal/dependency"
)

func init() { checkers["dep"] = checkDep }

func flattenAdds(adds [][2]int) (order, again []int, n int) {
	g := new(dependency.Graph)
	for _, a := range adds {
		g.Add(a[0], a[1])
	}
	g.Flatten(func(v int) { order = append(order, v) })
	g.Flatten(func(v int) { again = append(again, v) })
	return order, again, g.Len()
}

func checkDep(c *ctx, raw json.RawMessage) {
	var v struct {
		Adds     [][2]int
		Verts    []int
		Ntargets int
		Before   [][2]int
	}
	decode(c, raw, &v)
	order, again, n := flattenAdds(v.Adds)
	c.check(jsonOf(order) == jsonOf(again), "two traversals of one graph differ: %v %v", order, again)
	c.check(n == v.Ntargets, "Len() = %d, graph has %d targets", n, v.Ntargets)
	pos := map[int]int{}
	for i, x := range order {
		if _, dup := pos[x]; dup {
			c.fail("vertex %d visited twice: %v", x, order)
		}
		pos[x] = i
	}
	c.check(len(pos) == len(v.Verts), "visited %v, the graph has vertices %v", order, v.Verts)
	for _, x := range v.Verts {
		if _, ok := pos[x]; !ok {
			c.fail("vertex %d not visited: %v", x, order)
		}
	}
	for _, e := range v.Before {
		c.check(pos[e[1]] < pos[e[0]], "%d depends on %d but is visited first: %v", e[0], e[1], order)
	}
	// the order of insertion must not matter, nor repetition
	for k := 0; k < 3; k++ {
		perm := append([][2]int(nil), v.Adds...)
		c.rng.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		perm = append(perm, v.Adds[c.rng.Intn(len(v.Adds))])
		o, _, _ := flattenAdds(perm)
		c.check(jsonOf(o) == jsonOf(order), "same graph, other insertion order %v: %v, not %v", perm, o, order)
	}
}
