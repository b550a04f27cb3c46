package main

func init() {
	register(&Prop{ID: "C08", Quick: 8000, Deep: 100000, Run: runC08,
		Rule: "random histories (build, edit, append, split, re-open, drop, delete, move, save) over a pool of built and parsed documents full of pictures and links, each with its own bytes or target; after every save each picture and link of the model must resolve to its own bytes or target, all ids unique; non-trivial: the pool ends with real content",
		Need: map[string]int{"bodies compared": 3000, "appends": 800, "splits": 300, "re-opened": 500, "calls AddDrawing": 1000, "calls AddLink": 500}})
	register(&Prop{ID: "C06", Quick: 8000, Deep: 100000, Run: runC06, Probes: c06Probes,
		Rule: "random histories over a pool of built, parsed, loaded, split and appended documents over the whole vocabulary; every saved package goes through the package monitor: zip, names, well-formed XML, declared namespaces, relationships, references, content types; non-trivial: the pool ends with real content",
		Need: map[string]int{"packages checked": 5000, "references resolved": 3000, "content types checked": 5000}})
	register(&Prop{ID: "C09", Quick: 8000, Deep: 120000, Run: runC09, Probes: carriedProbes("split"),
		Rule: "random histories rich in splits (at random sets of paragraphs, or by the plain-text regular expression rule) over built and parsed documents; the pieces must be the model's partition in full, every piece is saved, its references resolved by content and its other parts compared, and the original compared again; non-trivial: the pool ends with real content", Need: map[string]int{"splits": 1500, "pieces": 3000, "fields changed in one document": 500, "runs formatted": 50}})
	register(&Prop{ID: "C10", Quick: 7000, Deep: 120000, Run: runC10, Probes: carriedProbes("append"),
		Rule: "random histories rich in appends (also of a document to itself) over built and parsed documents with overlapping ids and names; target and source are saved and compared with the model, references resolved by content; non-trivial: the pool ends with real content", Need: map[string]int{"appends": 2000, "self appends": 200, "fields changed in one document": 500, "runs formatted": 200}})
	register(&Prop{ID: "C12", Quick: 14000, Deep: 120000, Run: runC12,
		Rule: "random histories rich in Drop* and KeepElements calls on documents and paragraphs full of drawings of all kinds, compared with a model of what each call removes; non-trivial: the pool ends with real content", Need: map[string]int{"drawings dropped": 2000, "keep calls": 1000}})
}

func copySafe(g *Gen) { g.NoDeep = true }

func runC08(c *Ctx) {
	heavy := c.Chance(0.3)
	h := &Hist{c: c, sig: "history", Build: func(b *Builder) { b.Heavy = heavy }, Fresh: 5, Large: 60, W: map[string]int{"build": 4, "edit": 3, "append": 4, "self": 1, "split": 2, "drop": 1, "reopen": 3, "delete": 1, "move": 1, "fresh": 1, "check": 1},
		Setup: func(g *Gen) { g.NoDeep, g.PicOnly = true, c.Chance(0.6) }}
	h.run(2 + c.Intn(9))
}

func runC06(c *Ctx) {
	h := &Hist{c: c, sig: "content", Fresh: 4, Large: 80, W: map[string]int{"build": 2, "edit": 2, "append": 2, "self": 1, "split": 2, "drop": 2, "reopen": 3, "delete": 1, "move": 1, "fresh": 2, "keep": 1, "check": 1}, Setup: copySafe, Exts: c.Chance(0.25)}
	h.run(1 + c.Intn(7))
}
func runC09(c *Ctx) {
	h := &Hist{c: c, sig: "split", Fresh: 3, Large: 30, W: map[string]int{"build": 2, "edit": 2, "append": 1, "split": 8, "reopen": 1, "move": 1}, Setup: copySafe}
	h.run(1 + c.Intn(5))
	h.after()
}

// after changes fields of the documents of a finished history.
func (h *Hist) after() {
	if h.c.Intn(5) == 0 && !h.c.Failed() {
		h.independent()
	}
}

func runC10(c *Ctx) {
	h := &Hist{c: c, sig: "append", Fresh: 3, Large: 30, W: map[string]int{"build": 2, "edit": 2, "append": 8, "self": 2, "split": 1, "reopen": 1, "fresh": 2}, Setup: copySafe}
	h.run(1 + c.Intn(6))
	h.after()
}
func runC12(c *Ctx) {
	hollow := c.Chance(0.4)
	h := &Hist{c: c, sig: "drop", Fresh: 1, Large: 60, W: map[string]int{"build": 2, "drop": 8, "keep": 4, "reopen": 1, "fresh": 2, "append": 1}, Setup: func(g *Gen) { copySafe(g); g.Hollow = hollow }}
	h.run(1 + c.Intn(6))
}
