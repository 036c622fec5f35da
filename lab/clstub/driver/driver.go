// Package driver is a stand-in for Checklist's: the same interface, no network. It records what it is
// asked to do (LAB_LOG, one JSON object per line, in order) and behaves as LAB_PLAN says.
package driver

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"checklist/pir"
	"checklist/updatable"
)

type Config struct {
	FlagSet     *flag.FlagSet
	PirTypeStr  string
	PirType     pir.PirType
	NumRows     int
	RowLen      int
	UpdatableOn bool
	ServerAddr  string
	ServerAddr2 string
	UseTLS      bool
}

func (c *Config) AddPirFlags() *Config {
	if c.FlagSet == nil {
		c.FlagSet = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	}
	c.FlagSet.IntVar(&c.NumRows, "numRows", 10000, "")
	c.FlagSet.IntVar(&c.RowLen, "rowLen", 32, "")
	c.FlagSet.StringVar(&c.PirTypeStr, "pirType", "Punc", "")
	c.FlagSet.BoolVar(&c.UpdatableOn, "updatable", true, "")
	return c
}

func (c *Config) AddClientFlags() *Config {
	if c.FlagSet == nil {
		c.FlagSet = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	}
	c.FlagSet.StringVar(&c.ServerAddr, "serverAddr", "", "")
	c.FlagSet.StringVar(&c.ServerAddr2, "serverAddr2", "", "")
	c.FlagSet.BoolVar(&c.UseTLS, "tls", true, "")
	return c
}

func (c *Config) Parse() *Config {
	if err := c.FlagSet.Parse(os.Args[1:]); err != nil {
		panic(err)
	}
	switch c.PirTypeStr {
	case "Punc":
		c.PirType = pir.Punc
	case "DPF":
		c.PirType = pir.DPF
	default:
		fmt.Fprintln(os.Stderr, "bad pir type")
		os.Exit(2)
	}
	return c
}

var plan struct {
	Connect [2]int   // 1: refuse
	Time    [2]int64 // what the servers state, ns
	Bytes   [2]int
}

func init() {
	if p := os.Getenv("LAB_PLAN"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			json.Unmarshal(b, &plan)
		}
	}
}

type proxy struct {
	n    int
	addr string
}

// PirServerDriver is what the runner gets for a server.
type PirServerDriver interface {
	updatable.UpdatableServer
	GetOnlineTimer(_ int, t *time.Duration) error
	GetOnlineBytes(_ int, b *int) error
	GetOfflineTimer(_ int, t *time.Duration) error
	GetOfflineBytes(_ int, b *int) error
	ResetMetrics(_ int, _ *int) error
}

func (c *Config) connect(n int, addr string) (PirServerDriver, error) {
	pir.Log("connect", n, int64(c.PirType), 0, addr)
	if plan.Connect[n-1] == 1 {
		return nil, fmt.Errorf("cannot connect to %s", addr)
	}
	return &proxy{n, addr}, nil
}
func (c *Config) ServerDriver() (PirServerDriver, error)  { return c.connect(1, c.ServerAddr) }
func (c *Config) Server2Driver() (PirServerDriver, error) { return c.connect(2, c.ServerAddr2) }

func (p *proxy) Server() int { return p.n }
func (p *proxy) GetOnlineTimer(_ int, t *time.Duration) error {
	pir.Log("timer", p.n, 0, 0, "")
	*t = time.Duration(plan.Time[p.n-1])
	return nil
}
func (p *proxy) GetOnlineBytes(_ int, b *int) error {
	pir.Log("bytes", p.n, 0, 0, "")
	*b = plan.Bytes[p.n-1]
	return nil
}
func (p *proxy) GetOfflineTimer(_ int, t *time.Duration) error {
	*t = time.Duration(plan.Time[p.n-1] + 77)
	return nil
}
func (p *proxy) GetOfflineBytes(_ int, b *int) error { *b = plan.Bytes[p.n-1] + 77; return nil }
func (p *proxy) ResetMetrics(_ int, _ *int) error    { pir.Log("reset", p.n, 0, 0, ""); return nil }

