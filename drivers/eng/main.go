// Command eng drives tsgolint's engine (scheduler, traversal, fixer, search, file-system layers, caches) with scenarios
// read as JSON lines, and answers with what the real code did, one JSON line per scenario.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

var ops = map[string]func(json.RawMessage) any{}

type head struct {
	Op string `json:"op"`
}

func one(line []byte) (res any) {
	defer func() {
		if r := recover(); r != nil {
			res = map[string]any{"panic": fmt.Sprint(r), "stack": string(debug.Stack())}
		}
	}()
	var h head
	if err := json.Unmarshal(line, &h); err != nil {
		panic("driver: " + err.Error())
	}
	f := ops[h.Op]
	if f == nil {
		panic("driver: unknown op " + h.Op)
	}
	return f(line)
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			b, e := json.Marshal(one(line))
			if e != nil {
				b, _ = json.Marshal(map[string]string{"drivererror": e.Error()})
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			break
		}
	}
}

func dec[T any](m json.RawMessage) T {
	var v T
	if err := json.Unmarshal(m, &v); err != nil {
		panic("driver: " + err.Error())
	}
	return v
}
