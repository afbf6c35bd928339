package main

import "fmt"

func init() {
	// P01: complete rows
	register("P01",
		"A random tree (classification or regression, all predicate kinds, any missing-value strategy, depth <= 4, nodes distinguishable by score or distribution) and 4 complete rows, predicates biased so that the first row runs deep; each is scored by the library and by the reference evaluator and the whole output compared. Non-trivial: some row passes at least 2 levels and the predicates on its way include a false one.",
		1500, 60000,
		gen(func(g G) *TreeCase {
			return g.treeCase(treeOpts{miss: 0, strategies: allStrategies, functions: []string{"classification", "regression"},
				deadEnd: 12, noScore: 5, rows: 4, fields: 4, maxDepth: 4, predDepth: 2, noTrue: noTrues, target: 90, values: 50})
		}),
		func(c *TreeCase) Res {
			var res Res
			cl := map[string]bool{}
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, _ int) {
				if o.Info.Depth >= 2 {
					res.Nontrivial = true
				}
				cl[fmt.Sprintf("depth%d", o.Info.Depth)] = true
				if o.None {
					cl["no prediction"] = true
				}
			})
			cl[c.Doc.Models[0].Function] = true
			res.Classes = classes(cl)
			return res
		})

	// P02: missing values
	p2 := register("P02",
		"A random tree with record counts, ids and a missing-value strategy, and 5 rows with about 40% missing values; predicates are biased so that unknown ones are met at several depths. Library and reference outputs are compared; outcomes PMML leaves open (weights of nodes without records, a missing default child, class confidences of regression trees, members without prediction) are skipped and counted. Non-trivial: for some compared row an unknown child predicate triggers the strategy.",
		2200, 80000,
		gen(func(g G) *TreeCase {
			return g.treeCase(treeOpts{miss: 40, strategies: []string{"lastPrediction", "nullPrediction", "defaultChild", "weightedConfidence", "aggregateNodes", "none"}, functions: []string{"classification", "classification", "regression"},
				unknown: 45, deadEnd: 6, noScore: 2, rows: 5, fields: 4, maxDepth: 4, predDepth: 1, noTrue: noTrues, target: 92, values: 50})
		}),
		func(c *TreeCase) Res {
			var res Res
			cl := map[string]bool{}
			mvs := c.Doc.Models[0].Tree.MVS
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, _ int) {
				if o.Info.Unknowns > 0 {
					res.Nontrivial = true
					cl[mvs+" applied"] = true
				}
				if o.Info.Unknowns > 1 {
					cl[mvs+" applied repeatedly"] = true
				}
				if o.Info.Penalty > 1 {
					cl["penalty twice"] = true
				}
			})
			cl[c.Doc.Models[0].Function] = true
			res.Classes = classes(cl)
			return res
		})
	p2.Assume = []string{"positive record counts where weights are needed"}

	// P05: class distributions
	register("P05",
		"A random classification tree whose nodes carry a score, a distribution (record counts, declared probabilities and confidences) or both, with and without declared target values, any strategy, and 4 rows. The exact key set, each probability and the winner are compared to the reference, and the winner is checked to have the highest returned probability. Non-trivial: a compared row ends in a prediction with at least two classes.",
		1800, 60000,
		gen(func(g G) *TreeCase {
			return g.treeCase(treeOpts{miss: g.n(2) * 25, strategies: allStrategies, functions: []string{"classification"},
				unknown: 15, deadEnd: 15, probs: true, rows: 4, fields: 3, maxDepth: 2, predDepth: 1, noTrue: noTrues, target: 92, values: 65})
		}),
		func(c *TreeCase) Res {
			var res Res
			d := c.Doc
			target, _ := newScope(d).target(d.Models[0])
			_, ms := load(d)
			cl := map[string]bool{}
			for ri, r := range c.Rows {
				want := d.Score(0, r)
				got, err := eval(ms[0], goRow(r))
				if want.Amb != "" {
					res.Skipped++
					continue
				}
				res.Evals++
				if diff := agree(want, got, err); diff != "" {
					fail("row %d {%s}: %s\n%s", ri, showRow(r), diff, render(d.xml()))
				}
				if target != "" && len(got) > 0 {
					win, ok := got["probability("+got[target].String()+")"]
					if !ok {
						fail("row %d {%s}: winner %q has no probability in %s\n%s", ri, showRow(r), got[target].String(), showOut(got, err), render(d.xml()))
					}
					for k, v := range got {
						if k != target && v.Float64() > win.Float64() {
							fail("row %d {%s}: %q beats the winner in %s\n%s", ri, showRow(r), k, showOut(got, err), render(d.xml()))
						}
					}
				}
				if len(want.Vals) > 2 {
					res.Nontrivial = true
				}
			}
			walkNodes(d.Models[0].Tree.Root, func(n *TNode) {
				if len(n.SD) == 0 && n.Score != "" {
					cl["score only"] = true
				}
				for _, s := range n.SD {
					if s.Prob != nil {
						cl["declared probability"] = true
					}
				}
			})
			res.Classes = classes(cl)
			return res
		})

	// P06: no true child
	register("P06",
		"A random tree (classification or regression) biased to dead ends at every depth, with nodes that have no prediction of their own, both no-true-child strategies, and 4 rows (complete, or with missing values under strategies none, lastPrediction and nullPrediction). Non-trivial: a compared row reaches an inner node none of whose children applies.",
		1800, 60000,
		gen(func(g G) *TreeCase {
			return g.treeCase(treeOpts{miss: g.n(3) * 10, strategies: []string{"none", "lastPrediction", "nullPrediction"}, functions: []string{"classification", "regression"},
				unknown: 5, deadEnd: 55, noScore: 20, rows: 4, fields: 3, maxDepth: 4, predDepth: 1, noTrue: noTrues, target: 92, values: 50})
		}),
		func(c *TreeCase) Res {
			var res Res
			cl := map[string]bool{}
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, _ int) {
				if o.Info.NoTrue > 0 {
					res.Nontrivial = true
					cl[c.Doc.Models[0].Tree.NoTrue] = true
					cl[fmt.Sprintf("at depth %d", o.Info.Depth)] = true
				}
				if o.None {
					cl["no prediction"] = true
				}
			})
			res.Classes = classes(cl)
			return res
		})

	// P03: three-valued logic
	register("P03",
		"A random predicate (all kinds, nested to depth 3) with 8 rows, a third of the values missing. It guards the first child of a nullPrediction tree whose second child is always true, so that its value true, false or unknown is observable, and is compared to the reference truth value. Non-trivial: the predicate is not a constant and takes at least two values over the rows.",
		2500, 100000,
		gen(func(g G) *PredCase {
			fs := g.fields(g.between(1, 4))
			c := &PredCase{Fields: fs}
			hint := g.row(fs, 33)
			pc := g.pctx(&Doc{Fields: fs}, fs, hint)
			depth := g.n(4)
			c.Pred = g.pred(pc, depth)
			c.Rows = []Row{hint}
			for i := 0; i < 7; i++ {
				if g.chance(60) {
					c.Rows = append(c.Rows, g.near(hint, fs, 33))
				} else {
					c.Rows = append(c.Rows, g.row(fs, 33))
				}
			}
			return c
		}),
		func(c *PredCase) Res {
			var res Res
			d := c.doc()
			_, ms := load(d)
			seen := map[Tri]bool{}
			cl := map[string]bool{}
			for ri, r := range c.Rows {
				want := evalPred(c.Pred, refRow(d, r), newScope(d).types)
				out, err := eval(ms[0], goRow(r))
				if err != nil {
					fail("row %d {%s}: error %v\n%s", ri, showRow(r), err, render(d.xml()))
				}
				got := F
				switch {
				case len(out) == 0:
					got = U
				case out["score"].Float64() == 1:
					got = T
				case out["score"].Float64() == 2:
					got = F
				default:
					fail("row %d {%s}: %s\n%s", ri, showRow(r), showOut(out, err), render(d.xml()))
				}
				res.Evals++
				if got != want {
					fail("row %d {%s}: predicate is %s, expected %s\n%s", ri, showRow(r), got, want, render(d.xml()))
				}
				seen[want] = true
				cl[c.Pred.Kind+" "+want.String()] = true
			}
			res.Nontrivial = len(seen) > 1
			walkPred(c.Pred, func(p *Pred) { cl["op "+p.Op] = true })
			res.Classes = classes(cl)
			return res
		})
}

type PredCase struct {
	Fields []Field `json:"fields"`
	Pred   *Pred   `json:"pred"`
	Rows   []Row   `json:"rows"`
}

func (c *PredCase) Document() string { return render(c.doc().xml()) }

// doc makes the truth value of the predicate observable.
func (c *PredCase) doc() *Doc {
	root := &TNode{Pred: &Pred{Kind: "true"}, Score: "0", Kids: []*TNode{
		{Pred: c.Pred, Score: "1"}, {Pred: &Pred{Kind: "true"}, Score: "2"}}}
	return &Doc{Fields: c.Fields, Models: []*Model{{Kind: "tree", Function: "regression", Schema: schemaFor(c.Fields, ""),
		Tree: &Tree{MVS: "nullPrediction", NoTrue: "returnNullPrediction", Root: root}}}}
}

func walkNodes(n *TNode, f func(*TNode)) {
	f(n)
	for _, k := range n.Kids {
		walkNodes(k, f)
	}
}

func walkPred(p *Pred, f func(*Pred)) {
	f(p)
	for _, k := range p.Kids {
		walkPred(k, f)
	}
}
