// Package updatable is a stand-in for Checklist's (see driver).
package updatable

import (
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"sync"
	"syscall"
	"time"

	"checklist/pir"
)

type UpdatableServer interface{ Server() int }

type Row []byte

var plan struct {
	Init  int      // 1: the hint cannot be had
	Keys  []uint32 // the keys of the servers
	Sleep []int    // microseconds, of each read in turn
	Fail  []int    // which reads fail (from 1)
	Stop  int      // after how many reads the runner is told to stop; 0: never
}

func init() {
	if p := os.Getenv("LAB_PLAN"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			json.Unmarshal(b, &plan)
		}
	}
}

type Client struct {
	CallAsync bool
	servers   [2]UpdatableServer
	mu        sync.Mutex
	reads     int
}

func NewClient(_ *rand.Rand, t pir.PirType, servers [2]UpdatableServer) *Client {
	n := [2]int{}
	for i, s := range servers {
		if s != nil {
			n[i] = s.Server()
		}
	}
	pir.Log("client", n[0], int64(t), n[1], "")
	return &Client{servers: servers}
}

func (c *Client) Init() error {
	pir.Log("init", 0, 0, 0, "")
	if plan.Init == 1 {
		return errors.New("no hint")
	}
	return nil
}

func (c *Client) Keys() []uint32 {
	pir.Log("keys", len(plan.Keys), 0, 0, "")
	return append([]uint32(nil), plan.Keys...)
}

func (c *Client) Read(key uint32) (Row, error) {
	c.mu.Lock()
	c.reads++
	n := c.reads
	c.mu.Unlock()
	pir.Log("read", n, int64(key), 0, "")
	if n == plan.Stop {
		syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
		time.Sleep(800 * time.Millisecond)
	}
	if len(plan.Sleep) > 0 {
		time.Sleep(time.Duration(plan.Sleep[(n-1)%len(plan.Sleep)]) * time.Microsecond)
	}
	for _, f := range plan.Fail {
		if f == n {
			pir.Log("done", n, 1, 0, "")
			return nil, errors.New("no such row")
		}
	}
	pir.Log("done", n, 0, 0, "")
	return make(Row, 8), nil
}
