package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/rpcserver"
)

// noise is a logger whose only purpose is that logging takes time: now and
// then, the goroutine that logs is suspended, so that different schedules are
// seen than those the scheduler would come up with.
type noise struct {
	r *rand.Rand
	// rate: how many of 100 lines are slow.
	rate int
}

var _ btclog.Logger = (*noise)(nil)

func (n *noise) wait() {
	switch x := n.r.Intn(100); {
	case x < n.rate:
		time.Sleep(time.Duration(n.r.Intn(300)) * time.Microsecond)
	case x < 2*n.rate:
		runtime.Gosched()
	}
}

// linef formats in the way of a real logger that is enabled.
func (n *noise) linef(f string, p ...interface{}) {
	n.wait()
	if n.r.Intn(4) == 0 {
		_ = fmt.Sprintf(f, p...)
	}
}

func (n *noise) line(p ...interface{}) { n.wait() }

func (n *noise) Tracef(f string, p ...interface{})    { n.linef(f, p...) }
func (n *noise) Debugf(f string, p ...interface{})    { n.linef(f, p...) }
func (n *noise) Infof(f string, p ...interface{})     { n.linef(f, p...) }
func (n *noise) Warnf(f string, p ...interface{})     { n.linef(f, p...) }
func (n *noise) Errorf(f string, p ...interface{})    { n.linef(f, p...) }
func (n *noise) Criticalf(f string, p ...interface{}) { n.linef(f, p...) }
func (n *noise) Trace(p ...interface{})               { n.line(p...) }
func (n *noise) Debug(p ...interface{})               { n.line(p...) }
func (n *noise) Info(p ...interface{})                { n.line(p...) }
func (n *noise) Warn(p ...interface{})                { n.line(p...) }
func (n *noise) Error(p ...interface{})               { n.line(p...) }
func (n *noise) Critical(p ...interface{})            { n.line(p...) }
func (n *noise) Level() btclog.Level                  { return btclog.LevelTrace }
func (n *noise) SetLevel(btclog.Level)                {}

func makeNoise() {
	n := &noise{r: newRand(seed*31 + 5), rate: 15}
	boltnd.UseLogger(n)
	offers.UseLogger(n)
	onionmsg.UseLogger(n)
	routes.UseLogger(n)
	rpcserver.UseLogger(n)
}
