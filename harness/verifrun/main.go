// Command verifrun replays recorded values on the real build.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"time"

	"github.com/go-latex/latex/internal/verifh/boxes"
	"github.com/go-latex/latex/internal/verifh/hist"
	"github.com/go-latex/latex/internal/verifh/names"
	"github.com/go-latex/latex/internal/verifh/parse"
	"github.com/go-latex/latex/internal/verifh/render"
	"github.com/go-latex/latex/internal/verifh/tree"
	"github.com/go-latex/latex/internal/verifh/typeset"
	nd "github.com/go-latex/latex/internal/verifnd"
)

// more are the harnesses only some builds have.
var more = map[string]map[string]func(){}

type caseT struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Vals    []nd.Val       `json:"vals"`
	Kind    string         `json:"kind"`
}

type result struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Known  []string `json:"known"`
}

func main() {
	log.SetOutput(io.Discard)
	reg := map[string]func(){}
	for pkg, m := range map[string]map[string]func(){
		"hist":    hist.Registry,
		"names":   names.Registry,
		"parse":   parse.Registry,
		"tree":    tree.Registry,
		"boxes":   boxes.Registry,
		"typeset": typeset.Registry,
		"render":  render.Registry,
	} {
		for k, f := range m {
			reg[pkg+"."+k] = f
		}
	}
	for pkg, m := range more {
		for k, f := range m {
			reg[pkg+"."+k] = f
		}
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []caseT
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for i, c := range cases {
		f := reg[c.Harness]
		if f == nil {
			panic("no harness " + c.Harness)
		}
		done := make(chan result, 1)
		go func() { done <- run(f, c) }()
		select {
		case r := <-done:
			r.I = i
			enc.Encode(r)
		case <-time.After(10 * time.Second):
			enc.Encode(result{I: i, Status: "hang", Msg: "no answer within 10 s"})
			os.Exit(0)
		}
	}
}

func run(f func(), c caseT) (r result) {
	nd.Start(c.Vals, c.Params)
	nd.Lenient = c.Kind == "fallback"
	r.Status = "ok"
	defer func() {
		r.Obs, r.Known = nd.Obs, nd.Known
		switch e := recover().(type) {
		case nil:
		case nd.AssertFail:
			r.Status, r.Msg = "fail", e.Msg
		case nd.AssumeFail:
			r.Status, r.Msg = "assume", e.Msg
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(e)
		}
		if nd.Dead != nil {
			r.Status, r.Msg = "assume", nd.Dead.Msg
		}
	}()
	f()
	return r
}
