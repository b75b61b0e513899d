package main

type P = map[string]int

func with(p P, q P) P {
	r := P{}
	for k, v := range p {
		r[k] = v
	}
	for k, v := range q {
		r[k] = v
	}
	return r
}

// parseSpecs is the family of source shapes one parsing harness is run on.
func parseSpecs(h string, thorough bool, base P, reach ...string) []*RunSpec {
	r := []*RunSpec{}
	add := func(reach []string, budget int, p P, bounds string) {
		r = append(r, &RunSpec{Pkg: "parse", Harness: h, Params: with(base, p), Reach: reach, Budget: budget, Bounds: bounds})
	}
	if !thorough {
		add(reach, 60, P{"mode": 0, "n": 3}, "every ASCII string of at most 3 bytes")
		add(nil, 60, P{"mode": 1, "n": 3}, "every ASCII string of at most 3 bytes between dollars")
		add(nil, 60, P{"mode": 2, "n": 3}, "every sequence of 3 tokens (16 kinds, characters arbitrary within the kind) between dollars")
		add(nil, 60, P{"mode": 3, "n": 3}, "every sequence of 3 tokens")
		add(nil, 30, P{"mode": 5, "n": 1}, "control sequences with arbitrary characters in their name, with and without arguments")
		add(nil, 30, P{"mode": 6, "n": 1}, "one arbitrary rune or byte (non-ASCII included) in 7 contexts")
		add(nil, 60, P{"mode": 7, "n": 2}, "every ASCII string of at most 2 bytes inside 9 constructs")
		add(nil, 60, P{"mode": 8, "n": 5}, "28 constructs repeated or nested 10, 18, 34, 66 and 130 times, with one arbitrary ASCII byte")
		add(nil, 90, P{"mode": 4, "n": 1, "lo": 0, "hi": 16, "kinds": 9}, "16 templates with up to 4 holes, each empty or one token of 9 kinds")
		add(nil, 90, P{"mode": 4, "n": 1, "lo": 16, "hi": 18, "kinds": 5}, "2 templates with nested math and up to 5 holes, each empty or one token of 5 kinds")
		return r
	}
	add(reach, 1200, P{"mode": 0, "n": 5}, "every ASCII string of at most 5 bytes")
	add(nil, 1200, P{"mode": 1, "n": 5}, "every ASCII string of at most 5 bytes between dollars")
	add(nil, 1200, P{"mode": 2, "n": 5}, "every sequence of 5 tokens (16 kinds) between dollars")
	add(nil, 1200, P{"mode": 3, "n": 5}, "every sequence of 5 tokens")
	add(nil, 300, P{"mode": 5, "n": 1}, "control sequences with arbitrary characters in their name")
	add(nil, 600, P{"mode": 6, "n": 2}, "two arbitrary runes or bytes in 7 contexts")
	add(nil, 1200, P{"mode": 7, "n": 3}, "every ASCII string of at most 3 bytes inside 9 constructs")
	add(nil, 1800, P{"mode": 8, "n": 7}, "28 constructs repeated or nested 10, 18, 34, 66, 130, 258 and 514 times, with one arbitrary ASCII byte")
	add(nil, 1800, P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": 16}, "18 templates with up to 4 holes, each empty or one token of 16 kinds")
	return r
}

// layoutSpecs are smaller: each source is parsed again for each insertion.
func layoutSpecs() (r []*RunSpec) {
	add := func(reach []string, p P, bounds string) {
		r = append(r, &RunSpec{Pkg: "parse", Harness: "Layout", Params: p, Reach: reach, Budget: 100, Bounds: bounds + ", with one blank or comment inserted at each token boundary"})
	}
	add([]string{"rejected", "inserted"}, P{"comment": 1, "mode": 0, "n": 2}, "every ASCII string of at most 2 bytes")
	add(nil, P{"comment": 1, "mode": 1, "n": 2}, "every ASCII string of at most 2 bytes between dollars")
	add(nil, P{"comment": 1, "mode": 2, "n": 2}, "every sequence of 2 tokens between dollars")
	add(nil, P{"comment": 1, "mode": 3, "n": 2}, "every sequence of 2 tokens")
	add(nil, P{"comment": 1, "mode": 5, "n": 1}, "control sequences with arbitrary characters in their name")
	add(nil, P{"comment": 1, "mode": 6, "n": 1}, "one arbitrary rune or byte in 7 contexts")
	add(nil, P{"comment": 1, "mode": 7, "n": 1}, "every ASCII string of at most 1 byte inside 9 constructs")
	add(nil, P{"comment": 1, "mode": 8, "n": 0}, "28 constructs repeated or nested 4 times, with one arbitrary ASCII byte")
	add(nil, P{"comment": 1, "mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": -1}, "18 templates")
	add(nil, P{"comment": 1, "mode": 4, "n": 1, "lo": 0, "hi": 2, "kinds": 1}, "2 templates with up to 5 holes, each empty or a comment")
	return r
}

func cat(s ...[]*RunSpec) (r []*RunSpec) {
	for _, x := range s {
		r = append(r, x...)
	}
	return r
}

var checks = []*Check{
	{ID: "C01",
		Quick:    cat(parseSpecs("Total", false, nil, "accepted", "rejected"), parseSpecs("Unclosed", false, nil, "accepted", "rejected")),
		Thorough: cat(parseSpecs("Total", true, nil, "accepted", "rejected"), parseSpecs("Unclosed", true, nil, "accepted", "rejected")),
	},
	{ID: "C02",
		Quick:    parseSpecs("Text", false, nil, "accepted", "leaf"),
		Thorough: parseSpecs("Text", true, nil, "accepted", "leaf"),
	},
	{ID: "C03",
		Quick:    parseSpecs("Shape", false, nil, "accepted", "rejected"),
		Thorough: parseSpecs("Shape", true, nil, "accepted", "rejected"),
	},
	{ID: "C04",
		Quick:    parseSpecs("Positions", false, nil, "accepted"),
		Thorough: parseSpecs("Positions", true, nil, "accepted"),
	},
	{ID: "C05",
		Quick:    layoutSpecs(),
		Thorough: parseSpecs("Layout", true, P{"comment": 2}, "rejected", "inserted"),
	},
	{ID: "C06",
		Quick: []*RunSpec{
			{Pkg: "tree", Harness: "Walk", Params: P{"nodes": 3}, Reach: []string{"walked"}, Bounds: "every tree of at most 3 nodes (11 kinds, absent children, lists of at most 3), every combination of answers of the visitor"},
			{Pkg: "tree", Harness: "Inspect", Params: P{"nodes": 3}, Reach: []string{"walked"}, Bounds: "every tree of at most 3 nodes, every combination of answers"},
		},
		Thorough: []*RunSpec{
			{Pkg: "tree", Harness: "Walk", Params: P{"nodes": 4}, Reach: []string{"walked"}, Budget: 3600, Bounds: "every tree of at most 5 nodes"},
			{Pkg: "tree", Harness: "Inspect", Params: P{"nodes": 4}, Reach: []string{"walked"}, Budget: 3600, Bounds: "every tree of at most 5 nodes"},
		},
	},
	{ID: "C07",
		Quick: []*RunSpec{
			{Pkg: "tree", Harness: "Print", Params: P{"nodes": 4}, Reach: []string{"printed"}, Bounds: "every tree of at most 4 nodes"},
			{Pkg: "tree", Harness: "Differ", Params: P{"nodes": 2, "nodes2": 2, "text": 1, "hi": 127}, Reach: []string{"printed", "same", "different"}, Bounds: "every pair of trees of at most 2 nodes, texts of 1 arbitrary ASCII byte"},
			{Pkg: "tree", Harness: "Differ", Params: P{"nodes": 1, "nodes2": 1, "text": 2, "hi": 127}, Reach: []string{"printed", "same", "different"}, Bounds: "every pair of nodes, texts of at most 2 arbitrary ASCII bytes"},
			{Pkg: "tree", Harness: "Forge", Reach: []string{"printed"}, Bounds: "two leaves of 5 kinds in 5 kinds of nodes, and one leaf whose text is what is printed between the texts of these, texts of 1 arbitrary ASCII byte"},
		},
		Thorough: []*RunSpec{
			{Pkg: "tree", Harness: "Print", Params: P{"nodes": 5}, Reach: []string{"printed"}, Budget: 3600, Bounds: "every tree of at most 5 nodes"},
			{Pkg: "tree", Harness: "Differ", Params: P{"nodes": 2, "nodes2": 3, "text": 2, "hi": 127}, Reach: []string{"printed", "same", "different"}, Budget: 7200, Bounds: "every pair of trees of at most 2 and 3 nodes, texts of at most 2 arbitrary ASCII bytes"},
			{Pkg: "tree", Harness: "Forge", Reach: []string{"printed"}, Bounds: "two leaves of 5 kinds in 5 kinds of nodes, and one leaf whose text is what is printed between the texts of these, texts of 1 arbitrary ASCII byte"},
		},
	},
	{ID: "C08",
		Quick: []*RunSpec{
			boxes("HPack", P{"n": 2, "sub": 1, "repack": 2, "mutate": 0}, 0, "every list of 2 children of 11 kinds (lists of at most 1 leaf included), all dimensions, shifts and metrics arbitrary, packed again twice to arbitrary sizes", "packed"),
			boxes("HPack", P{"n": 2, "sub": 0, "repack": 1, "mutate": 1}, 0, "every list of 2 children of which one may be shrunk before it is packed again", "packed", "smaller"),
			boxes("HPack", P{"n": 3, "sub": 0, "repack": 1, "mutate": 0}, 60, "every list of 3 children of 11 kinds, packed again once", "packed"),
		},
		Thorough: []*RunSpec{
			boxes("HPack", P{"n": 2, "sub": 2, "repack": 3, "mutate": 0}, 1200, "every list of 2 children of 11 kinds (lists of at most 2 leaves included), packed again three times", "packed"),
			boxes("HPack", P{"n": 3, "sub": 1, "repack": 2, "mutate": 1}, 1800, "every list of 3 children of 11 kinds (lists of at most 1 leaf included), packed again twice", "packed"),
			boxes("HPack", P{"n": 4, "sub": 0, "repack": 1, "mutate": 0}, 1800, "every list of 4 children of 11 kinds", "packed"),
		},
	},
	{ID: "C09",
		Quick: []*RunSpec{
			boxes("VPack", P{"n": 2, "sub": 1, "repack": 2, "mutate": 0}, 0, "every list of 2 children of 9 kinds (lists of at most 1 leaf included), all dimensions, shifts and metrics arbitrary, packed again twice to arbitrary sizes, with and without a limit on the depth", "packed"),
			boxes("VPack", P{"n": 2, "sub": 0, "repack": 1, "mutate": 1}, 0, "every list of 2 children of which one may be shrunk before it is packed again", "packed", "smaller"),
			boxes("VPack", P{"n": 3, "sub": 0, "repack": 1, "mutate": 0}, 60, "every list of 3 children of 9 kinds, packed again once", "packed"),
		},
		Thorough: []*RunSpec{
			boxes("VPack", P{"n": 2, "sub": 2, "repack": 3, "mutate": 0}, 1200, "every list of 2 children of 9 kinds (lists of at most 2 leaves included), packed again three times", "packed"),
			boxes("VPack", P{"n": 3, "sub": 1, "repack": 2, "mutate": 1}, 1800, "every list of 3 children of 9 kinds (lists of at most 1 leaf included), packed again twice", "packed"),
			boxes("VPack", P{"n": 4, "sub": 0, "repack": 1, "mutate": 0}, 1800, "every list of 4 children of 9 kinds", "packed"),
		},
	},
	{ID: "C10",
		Quick: []*RunSpec{
			boxes("Glue", P{"n": 2, "kinds": 4, "repack": 2, "mutate": 0, "limit": 1}, 0, "every horizontal or vertical list of 2 of the 8 kinds of glue, kerns, boxes and lists with glue of their own, packed again twice to arbitrary sizes", "packed", "set", "rigid", "natural"),
			boxes("Glue", P{"n": 2, "kinds": 4, "repack": 1, "mutate": 1, "limit": 1}, 0, "the same of which one may be shrunk before it is packed again", "packed", "set", "rigid", "natural", "smaller"),
			boxes("Glue", P{"n": 3, "kinds": 2, "repack": 2, "mutate": 0, "limit": 0}, 0, "every list of 3 of the 8 kinds of glue and kerns, packed again twice", "packed", "set", "rigid", "natural"),
			boxes("Glue", P{"n": 4, "kinds": 1, "repack": 2, "mutate": 0, "limit": 0}, 0, "every list of 4 of the 8 kinds of glue, packed again twice", "packed", "set", "rigid", "natural"),
		},
		Thorough: []*RunSpec{
			boxes("Glue", P{"n": 3, "kinds": 4, "repack": 2, "mutate": 1, "limit": 1}, 1800, "every list of 3 of the 8 kinds of glue, kerns, boxes and lists, packed again twice", "packed", "set", "rigid", "natural"),
			boxes("Glue", P{"n": 5, "kinds": 1, "repack": 3, "mutate": 0, "limit": 0}, 1800, "every list of 5 of the 8 kinds of glue, packed again three times", "packed", "set", "rigid", "natural"),
		},
	},
	{ID: "C11",
		Quick: []*RunSpec{
			boxes("Ship", P{"n": 2, "sub": 2, "depth": 2, "kinds": 3, "glues": 2, "empties": 0}, 0, "every tree of 2 children with lists of 2, two deep, 3 kinds of leaves, all dimensions, shifts, sizes and origins arbitrary, shipped twice", "shipped", "rule in a vertical list"),
			boxes("Ship", P{"n": 2, "sub": 2, "depth": 2, "kinds": 2, "glues": 2, "empties": 1}, 0, "the same with 2 kinds of leaves, lists possibly empty", "shipped"),
			boxes("Ship", P{"n": 1, "sub": 1, "depth": 4, "kinds": 2, "glues": 2, "empties": 1}, 0, "every chain of lists four deep", "shipped", "rule in a vertical list"),
			boxes("Ship", P{"n": 3, "sub": 2, "depth": 1, "kinds": 7, "glues": 8, "empties": 0}, 0, "every list of 3 leaves of 7 kinds, with the 8 kinds of glue", "shipped"),
			boxes("Ship", P{"n": 1, "sub": 3, "depth": 2, "kinds": 5, "glues": 8, "empties": 0}, 0, "every list of lists of 3 leaves of 5 kinds, with the 8 kinds of glue", "shipped"),
		},
		Thorough: []*RunSpec{
			boxes("Ship", P{"n": 2, "sub": 2, "depth": 2, "kinds": 5, "glues": 3, "empties": 1}, 1800, "every tree of 2 children with lists of up to 2, two deep, 5 kinds of leaves", "shipped"),
			boxes("Ship", P{"n": 2, "sub": 1, "depth": 4, "kinds": 3, "glues": 2, "empties": 1}, 1800, "every tree of 2 chains of lists four deep", "shipped"),
			boxes("Ship", P{"n": 4, "sub": 2, "depth": 1, "kinds": 7, "glues": 8, "empties": 0}, 1800, "every list of 4 leaves of 7 kinds", "shipped"),
			boxes("Ship", P{"n": 1, "sub": 3, "depth": 3, "kinds": 2, "glues": 2, "empties": 0}, 1800, "every list of lists of lists of 3 leaves of 2 kinds", "shipped"),
		},
	},
	{ID: "C12",
		Quick: []*RunSpec{
			boxes("Scale", P{"n": 2, "sub": 1, "depth": 2, "kinds": 7, "empties": 0, "levels": 2}, 0, "every tree of 2 children of 7 kinds of leaves or lists of 1, two deep, all dimensions arbitrary, shrunk or grown twice", "shrunk", "grown"),
			boxes("Scale", P{"n": 1, "sub": 2, "depth": 2, "kinds": 3, "empties": 0, "levels": 2}, 0, "every list of lists of 2 leaves of 3 kinds, shrunk or grown twice", "shrunk", "grown"),
			boxes("Scale", P{"n": 1, "sub": 1, "depth": 3, "kinds": 7, "empties": 0, "levels": 8}, 0, "every chain of lists three deep, shrunk eight times", "shrunk", "smallest"),
		},
		Thorough: []*RunSpec{
			boxes("Scale", P{"n": 2, "sub": 2, "depth": 2, "kinds": 5, "empties": 1, "levels": 3}, 1800, "every tree of 2 children with lists of 2, two deep, 5 kinds of leaves, shrunk or grown three times", "shrunk", "grown"),
			boxes("Scale", P{"n": 2, "sub": 1, "depth": 3, "kinds": 3, "empties": 0, "levels": 8}, 1800, "every tree of 2 chains of lists three deep, shrunk eight times", "shrunk", "smallest"),
		},
	},
	{ID: "C13",
		Quick: []*RunSpec{
			boxes("Kern", P{"n": 3}, 0, "every list of at most 3 elements, metrics and kerns arbitrary, kerned or not", "built", "kerned"),
		},
		Thorough: []*RunSpec{
			boxes("Kern", P{"n": 5}, 1800, "every list of at most 5 elements, metrics and kerns arbitrary, kerned or not", "built", "kerned"),
		},
	},
	{ID: "C14",
		Quick: []*RunSpec{
			typeset("Names", P{"ctx": 1}, "every function, operator, relation and symbol name of the tables, between two arbitrary letters"),
			typeset("Style", P{"n": 1, "depth": 1, "width": 1, "kinds": 0}, "one construct of 17 kinds around at most one construct of 17 kinds, letters and digits arbitrary"),
			typeset("Style", P{"n": 2, "depth": 0, "width": 1, "kinds": 2, "seps": 3}, "two symbols of 10 kinds, with blanks, comments or nothing between"),
			typeset("Style", P{"n": 1, "depth": 2, "width": 1, "kinds": 8}, "constructs of 4 kinds (fractions, functions with an argument, nested math) nested two deep"),
			typeset("Style", P{"n": 1, "depth": 1, "width": 2, "kinds": 8}, "constructs of 4 kinds around up to two pieces in each operand"),
			typeset("Style", P{"n": 1, "depth": 2, "width": 2, "kinds": 11}, "groups and nested math around up to two pieces each, two deep"),
			typeset("Style", P{"n": 1, "depth": 2, "width": 2, "kinds": 12}, "functions and nested math around up to two pieces each, two deep"),
			typeset("Style", P{"n": 1, "depth": 0, "width": 1, "kinds": 8, "text": 5}, "math between pieces of text of 5 kinds, fractions and functions included"),
			typeset("Style", P{"n": 1, "depth": 1, "width": 1, "kinds": 8, "text": 3}, "constructs of 4 kinds between letters, blanks and symbols of the text"),
			longs(14, 5, 0),
		},
		Thorough: []*RunSpec{
			longs(14, 5, 0).within(1200),
			typeset("Names", P{"ctx": 1}, "every function, operator, relation and symbol name of the tables, between two arbitrary letters"),
			typeset("Style", P{"n": 2, "depth": 1, "width": 1, "kinds": 0}, "two constructs of 17 kinds around at most one construct of 17 kinds").within(1800),
			typeset("Style", P{"n": 1, "depth": 2, "width": 1, "kinds": 0}, "constructs of 17 kinds nested two deep").within(1800),
			typeset("Style", P{"n": 3, "depth": 0, "width": 1, "kinds": 2, "seps": 3}, "three symbols of 10 kinds, with blanks, comments or nothing between").within(1200),
			typeset("Style", P{"n": 1, "depth": 3, "width": 1, "kinds": 8}, "constructs of 4 kinds nested three deep").within(1800),
			typeset("Style", P{"n": 1, "depth": 2, "width": 2, "kinds": 8}, "constructs of 4 kinds around up to two pieces in each operand, two deep").within(1800),
			typeset("Style", P{"n": 1, "depth": 2, "width": 3, "kinds": 11}, "groups and nested math around up to three pieces each, two deep").within(1200),
			typeset("Style", P{"n": 1, "depth": 2, "width": 3, "kinds": 12}, "functions and nested math around up to three pieces each, two deep").within(1200),
			typeset("Style", P{"n": 1, "depth": 1, "width": 1, "kinds": 8, "text": 5}, "constructs of 4 kinds between pieces of text of 5 kinds").within(1200),
		},
	},
	{ID: "C15",
		Quick: []*RunSpec{
			typeset("Classes", P{"names": 0, "lo": 0, "hi": 9}, "every operator and relation name in 9 contexts (14 with the delimiters), metrics and kerns arbitrary"),
			typeset("Classes", P{"names": 1, "lo": 0, "hi": 1}, "every other known name between two letters"),
			typeset("Spaces", P{"size": 1}, "every explicit space and 6 amounts of \\hspace in 11 contexts"),
			typeset("Amounts", P{"n": 3}, "arguments of \\hspace of 3 characters of 7 kinds"),
			typeset("Decimals", P{}, "decimal numbers of 2 or 3 digits, every digit next to the dot, in 8 contexts, inside and outside of math"),
			typeset("Spacing", P{"n": 2, "depth": 0, "width": 1, "kinds": 2, "pick": 2, "seps": 3}, "two pieces of 10 kinds, with blanks, comments or nothing between"),
			typeset("Spacing", P{"n": 3, "depth": 0, "width": 1, "kinds": 2, "seps": 1}, "three pieces of 10 kinds"),
			typeset("Spacing", P{"n": 1, "depth": 1, "width": 2, "kinds": 10, "seps": 1}, "a group, square root or function around up to two of 7 kinds of pieces"),
			longs(15, 5, 0),
		},
		Thorough: []*RunSpec{
			longs(15, 5, 0).within(1200),
			longs(15, 1, 1).within(1200),
			typeset("Classes", P{"names": 0, "lo": 0, "hi": 9}, "every operator and relation name in 9 contexts (14 with the delimiters), metrics and kerns arbitrary"),
			typeset("Classes", P{"names": 1, "lo": 0, "hi": 9}, "every other known name in 9 contexts").within(1200),
			typeset("Spaces", P{"size": 1}, "every explicit space and 6 amounts of \\hspace in 11 contexts"),
			typeset("Amounts", P{"n": 5}, "arguments of \\hspace of 5 characters of 7 kinds").within(1200),
			typeset("Decimals", P{}, "decimal numbers of 2 or 3 digits, every digit next to the dot, in 8 contexts, inside and outside of math"),
			typeset("Spacing", P{"n": 3, "depth": 0, "width": 1, "kinds": 2, "pick": 2, "seps": 3}, "three pieces of 10 kinds, with blanks, comments or nothing between").within(1800),
			typeset("Spacing", P{"n": 4, "depth": 0, "width": 1, "kinds": 2, "seps": 1}, "four pieces of 10 kinds").within(1800),
			typeset("Spacing", P{"n": 1, "depth": 1, "width": 3, "kinds": 10, "seps": 1}, "a group, square root or function around up to three of 7 kinds of pieces").within(1800),
		},
	},
	{ID: "C16",
		Quick: []*RunSpec{
			typeset("Layout", P{"n": 1, "depth": 1, "width": 1, "kinds": 4}, "one construct of 6 kinds around at most one piece in each operand, metrics arbitrary"),
			typeset("Layout", P{"n": 1, "depth": 1, "width": 1, "kinds": 7, "size": 2}, "a fraction, root or overline, at 12.5 points"),
			typeset("Layout", P{"n": 1, "depth": 1, "width": 1, "kinds": 9, "size": 1}, "a binomial, square root or display fraction, at 10 points"),
			longs(16, 5, 0),
		},
		Thorough: []*RunSpec{
			longs(16, 5, 0).within(1200),
			longs(16, 1, 1).within(1200),
			typeset("Layout", P{"n": 1, "depth": 1, "width": 1, "kinds": 4}, "one construct of 6 kinds around at most one piece in each operand, metrics arbitrary").within(600),
			typeset("Layout", P{"n": 1, "depth": 1, "width": 2, "kinds": 4}, "one construct of 6 kinds around up to two pieces in each operand").within(1800),
			typeset("Layout", P{"n": 2, "depth": 1, "width": 1, "kinds": 7, "size": 2}, "two fractions, roots or overlines, at 12.5 points").within(1800),
			typeset("Layout", P{"n": 1, "depth": 2, "width": 1, "kinds": 7, "size": 2}, "fractions, roots and overlines two deep, at 12.5 points").within(1800),
			typeset("Layout", P{"n": 1, "depth": 2, "width": 1, "kinds": 9, "size": 1}, "binomials, square roots and display fractions two deep, at 10 points").within(1800),
		},
	},
	{ID: "C17",
		Quick:    cat(faultSpecs, renderSpecs(false)),
		Thorough: cat(faultSpecs, renderSpecs(true)),
	},
	{ID: "C18",
		Quick: []*RunSpec{
			draws("Page", P{"atoms": 10, "size": 0, "fonts": 0, "shape": 0}, 0, "10 formulas, every font size and resolution such that a page has at most 9.9 million points, arbitrary metrics", "page"),
			draws("Page", P{"atoms": 4, "size": 2, "fonts": 0, "shape": 1}, 0, "4 formulas at 12.5 points, glyphs with arbitrary extents to either side", "page"),
			draws("Page", P{"atoms": 1, "size": 1, "fonts": 1, "shape": 2}, 0, "one formula at 10 points with fonts of its own", "page"),
			draws("Image", P{"n": 2, "dpis": 4}, 0, "two images of 4 resolutions through the PNG renderer, writers that fail included", "image", "error"),
		},
		Thorough: []*RunSpec{
			draws("Page", P{"atoms": 10, "size": 0, "fonts": 0, "shape": 0}, 0, "10 formulas, every font size and resolution", "page"),
			draws("Page", P{"atoms": 10, "size": 2, "fonts": 0, "shape": 1}, 900, "10 formulas at 12.5 points, glyphs with arbitrary extents to either side", "page"),
			draws("Page", P{"atoms": 10, "size": 1, "fonts": 1, "shape": 2}, 900, "10 formulas at 10 points with fonts of their own", "page"),
			draws("Image", P{"n": 3, "dpis": 4}, 900, "three images of 4 resolutions", "image", "error"),
		},
	},
	{ID: "C19",
		Quick: []*RunSpec{
			draws("Measure", P{"shape": 0, "size": 0}, 0, "one symbol of every kind, arbitrary tables of one font, every size and resolution", "measured"),
			draws("Measure", P{"shape": 2, "size": 0}, 0, "the same, glyphs with extents of their own", "measured"),
			draws("Scale", P{"shape": 0}, 0, "one symbol at two arbitrary resolutions", "scaled"),
			draws("Scale", P{"shape": 2}, 0, "the same, glyphs with extents of their own", "scaled"),
			draws("Pairs", P{}, 0, "the kern of two symbols, arbitrary tables", "kern", "none"),
			draws("History", P{"n": 1, "syms": 8, "types": 5, "cmex": 0}, 0, "a query of 8 symbols and 5 font types after one other", "mode", "repeat"),
			draws("History", P{"n": 1, "syms": 2, "types": 2, "cmex": 1}, 0, "the same with a font whose glyphs are centred on the axis", "mode", "repeat"),
			draws("History", P{"n": 2, "syms": 3, "types": 2, "cmex": 0}, 0, "a query of 3 symbols and 2 font types after two others", "mode", "repeat"),
		},
		Thorough: []*RunSpec{
			draws("Measure", P{"shape": 0, "size": 0}, 0, "one symbol of every kind, arbitrary tables of one font, every size and resolution", "measured"),
			draws("Measure", P{"shape": 2, "size": 0}, 0, "the same, glyphs with extents of their own", "measured"),
			draws("Scale", P{"shape": 0}, 0, "one symbol at two arbitrary resolutions", "scaled"),
			draws("Scale", P{"shape": 2}, 0, "the same, glyphs with extents of their own", "scaled"),
			draws("Pairs", P{}, 0, "the kern of two symbols, arbitrary tables", "kern", "none"),
			draws("History", P{"n": 2, "syms": 3, "types": 2, "cmex": 1}, 1800, "a query of 3 symbols after two others, with a font whose glyphs are centred on the axis", "mode", "repeat"),
			draws("History", P{"n": 2, "syms": 8, "types": 5, "cmex": 0}, 1800, "a query of 8 symbols and 5 font types after two others", "mode", "repeat"),
			draws("History", P{"n": 3, "syms": 3, "types": 2, "cmex": 0}, 1800, "a query of 3 symbols and 2 font types after three others", "mode", "repeat"),
		},
	},
	{ID: "C20",
		Quick: []*RunSpec{
			named("Known", P{}, 0, "every name of the tables of the parser, the typesetter and the fonts", "known", "listed"),
			named("Lookup", P{"n": 4}, 0, "every string of at most 4 arbitrary bytes", "text", "minus", "char", "other"),
			named("Near", P{"from": 0, "to": 571}, 0, "every name of the golden table with one arbitrary byte changed", "name", "other"),
		},
		Thorough: []*RunSpec{
			named("Known", P{}, 0, "every name of the tables of the parser, the typesetter and the fonts", "known", "listed"),
			named("Lookup", P{"n": 7}, 1800, "every string of at most 7 arbitrary bytes", "text", "minus", "char", "other"),
			named("Near", P{"from": 0, "to": 571}, 1800, "every name of the golden table with one arbitrary byte changed", "name", "other"),
		},
	},
	{ID: "C21",
		Quick: []*RunSpec{
			named("Sets", P{"parts": 2, "n": 2, "len": 1}, 0, "two sets of at most 2 arbitrary elements of at most 1 byte", "sets"),
			named("Sets", P{"parts": 1, "n": 3, "len": 2}, 0, "one set of at most 3 arbitrary elements of at most 2 bytes", "sets"),
			named("Spaced", P{"n": 4}, 0, "strings of at most 4 arbitrary bytes", "spaced"),
			named("Spaced", P{"n": 0}, 0, "the empty string", "spaced"),
		},
		Thorough: []*RunSpec{
			named("Sets", P{"parts": 3, "n": 2, "len": 1}, 1200, "three sets of at most 2 arbitrary elements of at most 1 byte", "sets"),
			named("Sets", P{"parts": 2, "n": 3, "len": 1}, 1200, "two sets of at most 3 arbitrary elements of at most 1 byte", "sets"),
			named("Sets", P{"parts": 1, "n": 4, "len": 2}, 1200, "one set of at most 4 arbitrary elements of at most 2 bytes", "sets"),
			named("Spaced", P{"n": 8}, 600, "strings of at most 8 arbitrary bytes", "spaced"),
		},
	},
	{ID: "C22",
		Quick: []*RunSpec{
			hist("Parses", P{"mode": 2, "n": 2}, 0, "two parses of any sequences of 2 tokens", "rejected", "accepted"),
			hist("Parses", P{"mode": 0, "n": 2}, 0, "two parses of any ASCII strings of at most 2 bytes", "accepted"),
			hist("Parses", P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": -1}, 0, "two parses of 18 templates", "accepted"),
			hist("Typesets", P{"mode": 2, "n": 2, "fail": 0}, 0, "a sequence of 2 tokens typeset before and after others", "rejected", "typeset"),
			hist("Typesets", P{"mode": 2, "n": 1, "fail": 1}, 0, "the same with one token, after calls that fail"),
			hist("Typesets", P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": -1, "fail": 1}, 0, "18 templates typeset before and after others, failing ones included"),
			hist("Renders", P{}, 0, "formulas rendered before and after others", "rendered"),
			hist("Walks", P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": -1}, 0, "walks and prints of the trees of 18 templates", "walked"),
			hist("Draws", P{}, 0, "images drawn before and after others", "drawn"),
		},
		Thorough: []*RunSpec{
			hist("Parses", P{"mode": 2, "n": 3}, 1200, "two parses of any sequences of 3 tokens", "rejected", "accepted"),
			hist("Parses", P{"mode": 0, "n": 4}, 1200, "two parses of any ASCII strings of at most 4 bytes", "accepted"),
			hist("Parses", P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": 3}, 1200, "two parses of 18 templates with holes of 3 kinds", "accepted"),
			hist("Typesets", P{"mode": 2, "n": 2, "fail": 1}, 1800, "a sequence of 2 tokens typeset before and after others, failing ones included", "rejected", "typeset"),
			hist("Typesets", P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": 1, "fail": 1}, 1800, "18 templates with holes, before and after others"),
			hist("Renders", P{}, 0, "formulas rendered before and after others", "rendered"),
			hist("Walks", P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": 1}, 1200, "walks and prints of the trees of 18 templates with holes", "walked"),
			hist("Draws", P{}, 0, "images drawn before and after others", "drawn"),
		},
	},
	{ID: "C23",
		Quick: []*RunSpec{
			draws("Log", P{"n": 3}, 0, "three warnings with arbitrary texts", "logged"),
			draws("Kinds", P{}, 0, "every kind, numbers outside the range included", "name", "number"),
		},
		Thorough: []*RunSpec{
			draws("Log", P{"n": 5}, 900, "five warnings with arbitrary texts", "logged"),
			draws("Kinds", P{}, 0, "every kind, numbers outside the range included", "name", "number"),
		},
	},
	{ID: "C24",
		Quick: []*RunSpec{
			boxes("Glyphs", P{"levels": 3}, 0, "one character or accent with arbitrary metrics, shrunk or grown up to three times", "glyph", "resized"),
			boxes("Plain", P{}, 0, "one rule, box, kern or glue with arbitrary dimensions", "plain", "the font's thickness"),
			boxes("Delimiter", P{}, 0, "one delimiter with arbitrary metrics, for any height and depth, or 3 factors", "spans", "scaled"),
		},
		Thorough: []*RunSpec{
			boxes("Glyphs", P{"levels": 7}, 1200, "one character or accent with arbitrary metrics, shrunk or grown up to seven times", "glyph", "resized"),
			boxes("Plain", P{}, 0, "one rule, box, kern or glue with arbitrary dimensions", "plain", "the font's thickness"),
			boxes("Delimiter", P{}, 0, "one delimiter with arbitrary metrics, for any height and depth, or 3 factors", "spans", "scaled"),
		},
	},
	{ID: "C25",
		Quick: []*RunSpec{
			draws("FontSets", P{}, 0, "11 symbols and any character, in 5 styles, with each of the three sets of fonts", "set", "none given"),
			hist("FontSets", P{}, 0, "the first request of each set of fonts", "set"),
		},
		Thorough: []*RunSpec{
			draws("FontSets", P{}, 0, "11 symbols and any character, in 5 styles, with each of the three sets of fonts", "set", "none given"),
			hist("FontSets", P{}, 0, "the first request of each set of fonts", "set"),
		},
	},
	{ID: "C26",
		Quick: []*RunSpec{
			{Pkg: "pdf", Harness: "Write", Params: P{"files": 1, "n": 3}, Reach: []string{"written", "failed"}, Bounds: "a canvas of at most 3 glyphs and rectangles, for a page of any size, written to a file that may fail"},
			{Pkg: "pdf", Harness: "Write", Params: P{"files": 2, "n": 1}, Reach: []string{"written", "failed"}, Bounds: "two canvases of at most one glyph or rectangle, written one after the other"},
		},
		Thorough: []*RunSpec{
			{Pkg: "pdf", Harness: "Write", Params: P{"files": 1, "n": 6}, Budget: 900, Reach: []string{"written", "failed"}, Bounds: "a canvas of at most 6 glyphs and rectangles, for a page of any size, written to a file that may fail"},
			{Pkg: "pdf", Harness: "Write", Params: P{"files": 2, "n": 3}, Budget: 900, Reach: []string{"written", "failed"}, Bounds: "two canvases of at most 3 glyphs and rectangles, written one after the other"},
		},
	},
}

var faultSpecs = []*RunSpec{
	draws("Faults", P{}, 0, "a rejected formula, a panic below, an error of the renderer, and a formula that works", "failed", "worked"),
	draws("Missing", P{}, 0, "formulas whose symbols the font may lack, in any combination", "missing", "rendered"),
}

func named(harness string, p P, budget int, bounds string, reach ...string) *RunSpec {
	return &RunSpec{Pkg: "names", Harness: harness, Params: p, Reach: reach, Budget: budget, Bounds: bounds}
}

func draws(harness string, p P, budget int, bounds string, reach ...string) *RunSpec {
	return &RunSpec{Pkg: "render", Harness: harness, Params: p, Reach: reach, Budget: budget, Bounds: bounds}
}

func boxes(harness string, p P, budget int, bounds string, reach ...string) *RunSpec {
	return &RunSpec{Pkg: "boxes", Harness: harness, Params: p, Reach: reach, Budget: budget, Bounds: bounds}
}

func hist(harness string, p P, budget int, bounds string, reach ...string) *RunSpec {
	return &RunSpec{Pkg: "hist", Harness: harness, Params: p, Reach: reach, Budget: budget, Race: true, Bounds: bounds}
}

func renderSpecs(thorough bool) []*RunSpec {
	var r []*RunSpec
	add := func(reach []string, budget int, p P, bounds string) {
		r = append(r, &RunSpec{Pkg: "render", Harness: "Total", Params: p, Reach: reach, Budget: budget, Bounds: bounds})
	}
	if thorough {
		add([]string{"rejected", "rendered"}, 1200, P{"mode": 1, "n": 4}, "every ASCII string of at most 4 bytes between dollars")
		add(nil, 1200, P{"mode": 0, "n": 4}, "every ASCII string of at most 4 bytes")
		add(nil, 1200, P{"mode": 2, "n": 3}, "every sequence of 3 tokens (16 kinds) between dollars")
		add(nil, 1200, P{"mode": 3, "n": 3}, "every sequence of 3 tokens (16 kinds)")
		add(nil, 1800, P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": 5}, "18 templates with up to 4 holes of 5 kinds")
		add(nil, 300, P{"mode": 5, "n": 1}, "control sequences with arbitrary characters in their name")
		add(nil, 900, P{"mode": 8, "n": 3}, "28 constructs repeated or nested 10, 18 and 34 times, with one arbitrary ASCII byte")
		add(nil, 600, P{"mode": 6, "n": 2}, "two arbitrary runes or bytes in 7 contexts")
		add(nil, 600, P{"mode": 7, "n": 2}, "every ASCII string of at most 2 bytes inside 9 constructs")
		return r
	}
	add([]string{"rejected", "rendered"}, 60, P{"mode": 1, "n": 2}, "every ASCII string of at most 2 bytes between dollars")
	add(nil, 60, P{"mode": 0, "n": 2}, "every ASCII string of at most 2 bytes")
	add(nil, 60, P{"mode": 2, "n": 2}, "every sequence of 2 tokens (16 kinds) between dollars")
	add(nil, 60, P{"mode": 3, "n": 2}, "every sequence of 2 tokens (16 kinds)")
	add(nil, 150, P{"mode": 4, "n": 1, "lo": 0, "hi": 18, "kinds": 3}, "18 templates with up to 4 holes of 3 kinds")
	add(nil, 60, P{"mode": 5, "n": 1}, "control sequences with arbitrary characters in their name")
	add(nil, 60, P{"mode": 8, "n": 2}, "28 constructs repeated or nested 10 and 18 times, with one arbitrary ASCII byte")
	add(nil, 60, P{"mode": 6, "n": 1}, "one arbitrary rune or byte in 7 contexts")
	add(nil, 60, P{"mode": 7, "n": 1}, "one arbitrary ASCII byte inside 9 constructs")
	return r
}

func typeset(h string, p P, bounds string) *RunSpec {
	q := P{"text": 0, "pick": 1, "seps": 1, "size": 0}
	if h == "Names" || h == "Classes" || h == "Spaces" || h == "Amounts" || h == "Decimals" {
		q = P{"size": 0}
	}
	return &RunSpec{Pkg: "typeset", Harness: h, Params: with(q, p), Reach: []string{"typeset"}, Bounds: bounds}
}

// longs are the long and deep expressions a property of typesetting is tried
// on, with constant or arbitrary metrics.
func longs(what, n, sym int) *RunSpec {
	bounds := map[int]string{
		1: "15 nestings 4 (2, if they shrink) deep, 16 kinds of pieces repeated 9 times",
		3: "15 nestings 4, 9 and 17 (2, 4 and 5, if they shrink) deep, 16 kinds of pieces repeated 9, 17 and 33 times",
		5: "15 nestings 4, 9, 17, 33 and 65 (2, 4 and 5, if they shrink) deep, 16 kinds of pieces repeated 9, 17, 33, 65 and 130 times",
	}[n] + ", around or between arbitrary letters, metrics "
	return typeset("Long", P{"n": n, "what": what, "sym": sym}, bounds+[]string{"constant", "arbitrary"}[sym])
}

func (r *RunSpec) within(seconds int) *RunSpec {
	r.Budget = seconds
	return r
}
