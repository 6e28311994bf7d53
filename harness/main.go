// Driver for the conformance checks: executes scenarios read as JSON lines from
// stdin against the real packages and reports what they did. It contains no
// expectations; those live in the TLA+ specification.

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

// op is a decoded operation of a scenario.
type op map[string]json.RawMessage

func (o op) str(k string) string {
	s := ""
	if v, ok := o[k]; ok {
		if err := json.Unmarshal(v, &s); err != nil {
			fail("op field %s: %v", k, err)
		}
	}
	return s
}

func (o op) u64(k string) uint64 {
	n := uint64(0)
	if v, ok := o[k]; ok {
		if err := json.Unmarshal(v, &n); err != nil {
			fail("op field %s: %v", k, err)
		}
	}
	return n
}

func (o op) i64(k string) int64 {
	n := int64(0)
	if v, ok := o[k]; ok {
		if err := json.Unmarshal(v, &n); err != nil {
			fail("op field %s: %v", k, err)
		}
	}
	return n
}

func (o op) flag(k string) bool {
	b := false
	if v, ok := o[k]; ok {
		if err := json.Unmarshal(v, &b); err != nil {
			fail("op field %s: %v", k, err)
		}
	}
	return b
}

func (o op) into(k string, dest interface{}) {
	if v, ok := o[k]; ok {
		if err := json.Unmarshal(v, dest); err != nil {
			fail("op field %s: %v", k, err)
		}
	}
}

type scenario struct {
	ID  int    `json:"id"`
	Dir string `json:"dir"`
	Ops []op   `json:"ops"`
}

type obs map[string]interface{}

func fail(format string, v ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", v...)
	os.Exit(3)
}

// executor runs the operations of one scenario.
type executor interface {
	run(o op) obs
	done()
}

// guarded runs an operation, reporting panics and hangs as observations.
func guarded(e executor, o op, limit time.Duration) (res obs, hang bool) {
	ch := make(chan obs, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("DRIVER_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
				ch <- obs{"r": "panic", "msg": fmt.Sprint(r)}
			}
		}()
		debug.SetPanicOnFault(true)
		ch <- e.run(o)
	}()
	select {
	case res = <-ch:
		return res, false
	case <-time.After(limit):
		return obs{"r": "hang"}, true
	}
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: driver index|mount|identify")
	}
	var mk func(s *scenario) executor
	switch os.Args[1] {
	case "index":
		mk = newIndexExec
	case "mount":
		mk = newMountExec
	case "identify":
		mk = newIdentifyExec
	default:
		fail("unknown mode %s", os.Args[1])
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	hangs := 0
	for dec.More() {
		s := &scenario{}
		if err := dec.Decode(s); err != nil {
			fail("%v", err)
		}
		e := mk(s)
		results := []obs{}
		dead := false
		for _, o := range s.Ops {
			if dead {
				break
			}
			limit := 30 * time.Second
			if t := o.u64("limit_ms"); t > 0 {
				limit = time.Duration(t) * time.Millisecond
			}
			// Once something hangs, everything else does not need to wait as long
			if hangs > 0 && limit > 3*time.Second {
				limit = 3 * time.Second
			}
			if hangs > 2 && limit > 300*time.Millisecond {
				limit = 300 * time.Millisecond
			}
			res, hang := guarded(e, o, limit)
			results = append(results, res)
			if hang {
				hangs++
			}
			if res["r"] == "panic" || hang {
				dead = true
			}
		}
		if !dead {
			e.done()
		}
		line, err := json.Marshal(map[string]interface{}{"id": s.ID, "obs": results})
		if err != nil {
			fail("%v", err)
		}
		out.Write(line)
		out.WriteByte('\n')
		out.Flush()
	}
}
