// Package cluster simulates operators, source runners and the job as nodes of a
// network (C01..C06, C09..C11, C14..C16).
package cluster

import (
	"context"
	"errors"
	"time"

	"reduction.dev/reduction/zz_verif/sim"
	"reduction.dev/reduction/zz_verif/simrt"
)

// Node is one process. Killing it freezes all its goroutines.
type Node struct {
	e     *sim.Env
	Name  string
	Group uint32
	dead  chan struct{}
	Alive bool
	// Stalled until this time: incoming requests wait.
	stallUntil time.Time
	cut        bool // partitioned: requests to and from it fail
}

func NewNode(e *sim.Env, name string) *Node {
	return &Node{e: e, Name: name, Group: e.NewGroup(), dead: make(chan struct{}), Alive: true}
}

func (n *Node) Kill() {
	if !n.Alive {
		return
	}
	n.Alive = false
	close(n.dead)
	n.e.Crash(n.Group)
	n.e.Fault("process crash")
	n.e.Log("crash %s", n.Name)
}

// Net delivers calls between nodes.
type Net struct {
	e    *sim.Env
	LatP float64
	Lat  time.Duration
	// ErrP is the probability that a call fails: refused, lost request or lost
	// response.
	ErrP float64
	// NoRetry lists calls whose failures the caller can't survive.
	Quiet map[string]bool
}

var errUnavailable = errors.New("simulated network: unavailable")
var errLost = errors.New("simulated network: response lost")

// Call runs fn as a request from one node to another and waits for its result.
// Without injected faults it fails only if a node is dead or partitioned.
func (n *Net) Call(ctx context.Context, from, to *Node, what string, fn func(ctx context.Context) error) error {
	if l := n.e.Lat("network latency", n.LatP, n.Lat); l > 0 {
		if !n.wait(ctx, to, l) {
			return ctx.Err()
		}
	}
	fault := 0
	if n.ErrP > 0 && !n.Quiet[what] {
		fault = n.e.Choose("", n.ErrP, 3)
	}
	if fault == 1 {
		n.e.Fault("request lost")
		n.e.Log("net: request lost %s -> %s %s", from.Name, to.Name, what)
		return errUnavailable
	}
	if !to.Alive || to.cut || from.cut {
		if !n.wait(ctx, to, 50*time.Millisecond) {
			return ctx.Err()
		}
		return errUnavailable
	}
	for d := time.Until(to.stallUntil); d > 0; d = time.Until(to.stallUntil) {
		if !n.wait(ctx, to, d) {
			return ctx.Err()
		}
	}
	res := make(chan error, 1)
	// The server sees that a request was cancelled at once.
	sctx, cancel := context.WithCancel(ctx)
	simrt.GoIn(to.Group, func() {
		res <- fn(sctx)
		cancel()
	})
	var err error
	select {
	case err = <-res:
	case <-to.dead:
		n.e.Log("net: connection to %s reset during %s", to.Name, what)
		return errUnavailable
	case <-ctx.Done():
		return ctx.Err()
	}
	if fault == 2 {
		n.e.Fault("response lost")
		n.e.Log("net: response lost %s -> %s %s", from.Name, to.Name, what)
		return errLost
	}
	if to.cut || from.cut {
		return errLost
	}
	if l := n.e.Lat("network latency", n.LatP, n.Lat); l > 0 {
		if !n.wait(ctx, to, l) {
			return ctx.Err()
		}
	}
	return err
}

func (n *Net) wait(ctx context.Context, to *Node, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-ctx.Done():
		return false
	}
}
