package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"

	nd "github.com/samuel/go-dsp/verifnd"
)

type req struct {
	Prop, Name string
	Params     []int
	Model      map[string]string
	Trace      bool
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: -list | -run")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "-list":
		for _, e := range nd.Entries {
			e.Func = runtime.FuncForPC(reflect.ValueOf(e.F).Pointer()).Name()
		}
		type ent struct {
			Prop, Name, Func string
			Params           [][]int
		}
		var l []ent
		for _, e := range nd.Entries {
			l = append(l, ent{e.Prop, e.Name, e.Func, e.Params})
		}
		json.NewEncoder(os.Stdout).Encode(l)
	case "-run":
		var r req
		if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		m := map[string]uint64{}
		for k, v := range r.Model {
			m[k], _ = strconv.ParseUint(v, 16, 64)
		}
		for _, e := range nd.Entries {
			if e.Prop == r.Prop && e.Name == r.Name {
				nd.Tracing = r.Trace
				nd.Run(e.F, r.Params, m)
				json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"Failures": nd.Failures, "Traces": nd.Traces, "Vacuous": nd.Vacuous})
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
}
