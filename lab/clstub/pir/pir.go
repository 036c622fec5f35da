// Package pir is a stand-in for Checklist's (see driver).
package pir

import (
	"encoding/json"
	"math/rand"
	"os"
	"sync"
	"time"
)

type PirType int

const (
	None PirType = iota
	Matrix
	Punc
	DPF
	NonPrivate
)

func (p PirType) String() string { return [...]string{"None", "Matrix", "Punc", "DPF", "NonPrivate"}[p] }

func RandSource() *rand.Rand { return rand.New(rand.NewSource(time.Now().UnixNano())) }

var mu sync.Mutex
var out *os.File
var start = time.Now()

// Log appends a line; t: microseconds since the start of the program.
func Log(e string, a int, b int64, c int, s string) {
	mu.Lock()
	defer mu.Unlock()
	if out == nil {
		p := os.Getenv("LAB_LOG")
		if p == "" {
			return
		}
		out, _ = os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	}
	x, _ := json.Marshal(map[string]interface{}{"e": e, "a": a, "b": b, "c": c, "s": s, "t": time.Since(start).Microseconds(), "u": time.Now().Unix()})
	out.Write(append(x, '\n'))
}
