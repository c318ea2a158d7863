package astx

import "github.com/eaburns/toaq/ast"

// Index numbers the nodes of a tree. Lists of terms have no identity.
func Index(n ast.Node) map[ast.Node]int {
	m := map[ast.Node]int{}
	index(n, m)
	return m
}

func index(n ast.Node, m map[ast.Node]int) {
	if _, ok := n.(ast.Terms); !ok {
		if _, ok := m[n]; !ok {
			m[n] = len(m)
		}
	}
	switch n := n.(type) {
	case *ast.PredicationRelative:
		m[&n.Predication] = len(m)
	case *ast.PredicationContent:
		m[&n.Predication] = len(m)
	}
	for _, k := range Kids(n) {
		index(k, m)
	}
}
