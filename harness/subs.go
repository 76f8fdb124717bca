package main

import (
	"context"
	"encoding/json"
	"errors"
	"sync"
	"sync/atomic"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() { modes["subs"] = runSubs }

// Scenarios of subscriptions of a real server. Steps:
//
//	sub c t     subscription c for type rank t is requested
//	cancel c    its client goes away
//	rel c r     the oldest unanswered hand-over to c's stream returns
//	msg m       lnd has message m
//	stop        the server is stopped
//	fail        lnd's message stream ends
//	quiet
type scSubs struct {
	ID    int      `json:"id"`
	Msgs  []scMsg  `json:"msgs"`
	Sched []scStep `json:"sched"`
	Auto  bool     `json:"auto"`
}

type subClient struct {
	srvStream
	c      int
	run    *subsRun
	gate   *waiter
	cancel func()

	mtx    sync.Mutex
	broken error // what its stream failed with
}

// brokenErr is the error of a stream, recognizable if it is wrapped.
type brokenErr struct{ error }

func (b *brokenErr) Unwrap() error { return b.error }

func (b *brokenErr) GRPCStatus() *status.Status {
	return status.Convert(b.error)
}

type subsRun struct {
	sc      scSubs
	log     *elog
	f       *msgFactory
	str     *stream
	srv     *rpcserver.Server
	clients map[int]*subClient
	pend    atomic.Int32
}

func (s *subClient) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	f := s.run.f
	rp := "none"
	if r.ReplyPath != nil {
		rp = f.rpcPathTag(r.ReplyPath)
	}
	s.run.log.add(obj{"e": "send", "c": s.c, "v": f.tag(r.Value), "rp": rp})
	res := s.gate.wait()
	s.run.log.add(obj{"e": "sendret", "c": s.c, "r": res})
	if res != "ok" {
		s.mtx.Lock()
		defer s.mtx.Unlock()
		s.broken = anyErr(f.r)
		if f.r.Intn(2) == 0 {
			s.broken = &brokenErr{s.broken}
		}
		return s.broken
	}
	return nil
}

// rpcPathTag identifies a path of the rpc by its content.
func (f *msgFactory) rpcPathTag(p *offersrpc.BlindedPath) string {
	rp := &lnwire.ReplyPath{}
	var err error
	if rp.FirstNodeID, err = parseKey(p.IntroductionNode); err != nil {
		return "?"
	}
	if rp.BlindingPoint, err = parseKey(p.BlindingPoint); err != nil {
		return "?"
	}
	for _, h := range p.Hops {
		k, err := parseKey(h.BlindedNodeId)
		if err != nil {
			return "?"
		}
		rp.Hops = append(rp.Hops, &lnwire.BlindedHop{
			BlindedNodeID: k, EncryptedData: h.EncryptedData,
		})
	}
	return f.pathTag(rp)
}

func (m *subsRun) subscribe(cl *subClient, typ uint64) {
	defer m.pend.Add(-1)
	var err error
	p := guarded(func() {
		err = m.srv.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ}, cl,
		)
	})
	cl.mtx.Lock()
	broken := cl.broken
	cl.mtx.Unlock()
	r := "?"
	switch {
	case p != "":
		r = p
	case err == nil:
		r = "nil"
	case broken != nil && (errors.Is(err, broken) ||
		status.Code(err) == status.Code(broken)):
		r = "broken"
	default:
		if st, ok := status.FromError(err); ok {
			r = st.Code().String()
		} else {
			r = codes.Unknown.String()
		}
	}
	m.log.add(obj{"e": "ret", "c": cl.c, "r": r})
}

func runSubsScenario(sc scSubs) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	us := randKey(r)
	m := &subsRun{sc: sc, log: &elog{}, clients: map[int]*subClient{}}
	m.f = newFactory(r, us, sc.Msgs, maxRank)
	m.f.touch = m.log.touch
	m.str = newStream(m.log, r)
	lnd := &fakeLnd{key: us, ecdhFails: m.f.ecdhFails}
	lnd.subscribe = func(ctx context.Context) (<-chan lndclient.CustomMessage,
		<-chan error, error) {

		a, b := m.str.run(ctx)
		return a, b, nil
	}
	lnd.send = func(context.Context, lndclient.CustomMessage) error {
		m.log.touch()
		return nil
	}
	m.srv = newServer(nil)
	must(m.srv.Start(lnd.services()))
	quiet := func() {
		m.log.quiesce(quietTime)
		m.log.add(obj{"e": "quiet"})
	}
	stopped := false
	stop := func() {
		stopped = true
		m.log.add(obj{"e": "stop"})
		m.pend.Add(1)
		go func() {
			defer m.pend.Add(-1)
			err := m.srv.Stop()
			m.log.add(obj{"e": "stopret", "r": err == nil})
		}()
	}
	for _, st := range sc.Sched {
		switch st.A {
		case "sub":
			ctx, cancel := context.WithCancel(context.Background())
			cl := &subClient{
				srvStream: srvStream{ctx: ctx}, c: st.C, run: m,
				gate: newWaiter(), cancel: cancel,
			}
			if sc.Auto {
				cl.gate.openUp()
			}
			m.clients[st.C] = cl
			m.log.add(obj{"e": "sub", "c": st.C, "t": st.T})
			m.pend.Add(1)
			go m.subscribe(cl, m.f.typ(st.T))
			if m.f.r.Intn(2) == 0 {
				time.Sleep(time.Duration(m.f.r.Intn(300)) *
					time.Microsecond)
			}
		case "cancel":
			m.log.add(obj{"e": "cancel", "c": st.C})
			m.clients[st.C].cancel()
		case "rel":
			m.log.touch()
			m.clients[st.C].gate.release(st.R)
		case "msg":
			m.log.add(obj{"e": "offer", "m": st.M})
			m.str.offer(streamItem{msg: m.f.built[st.M].wire})
		case "stop":
			stop()
		case "hold":
			m.log.hold(st.M)
		case "quiet":
			quiet()
		}
	}
	// Everybody reads what is left, then all leave and the server stops.
	for _, c := range m.clients {
		c.gate.openUp()
	}
	m.log.settle(quietTime, graceTime, func() bool {
		return m.str.pending() && !stopped
	})
	quiet()
	for _, st := range sc.Sched {
		if st.A != "sub" || m.f.r.Intn(3) == 0 {
			continue
		}
		m.log.add(obj{"e": "cancel", "c": st.C})
		m.clients[st.C].cancel()
	}
	quiet()
	if !stopped {
		stop()
	}
	m.log.settle(quietTime, graceTime, func() bool { return m.pend.Load() > 0 })
	m.log.add(obj{"e": "quiet", "long": true})
	msgs := []obj{}
	for _, d := range sc.Msgs {
		msgs = append(msgs, m.f.built[d.ID].abs)
	}
	return obj{"id": sc.ID, "msgs": msgs, "ev": m.log.snapshot()}
}

func runSubs(in string) {
	var scs []scSubs
	readLines(in, func(b []byte) {
		var sc scSubs
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runSubsScenario(scs[i]))
	})
}
