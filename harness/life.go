package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() { modes["life"] = runLife }

// Scenarios of the life of a real server. Steps:
//
//	start c / stop c    start or stop call c
//	call c op valid     rpc c arrives
//	cancel c            its caller gives up
//	tell ok             lnd answers who we are
//	msg c               lnd has a message for subscription c
//	hold m              m milliseconds pass
//	quiet
type lifeStep struct {
	A     string `json:"a"`
	C     int    `json:"c"`
	Op    string `json:"op"`
	Valid bool   `json:"valid"`
	OK    bool   `json:"ok"`
	M     int    `json:"m"`
}

type scLife struct {
	ID    int        `json:"id"`
	Sched []lifeStep `json:"sched"`
}

type lifeRun struct {
	log  *elog
	r    *rand.Rand
	us   *btcec.PrivateKey
	srv  *rpcserver.Server
	lnd  *fakeLnd
	gate *waiter
	str  *stream
	pend atomic.Int32

	mtx     sync.Mutex
	cancels map[int]func()
	targets map[route.Vertex]int
	msgs    map[string]int
	acted   map[int]bool
}

type callKey struct{}

const bechChars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bech32Data encodes bytes with the characters of bech32, padding with zeros.
func bech32Data(b []byte) string {
	var s strings.Builder
	acc, n := 0, 0
	for _, x := range b {
		acc = acc<<8 | int(x)
		n += 8
		for n >= 5 {
			s.WriteByte(bechChars[acc>>(n-5)&31])
			n -= 5
		}
		acc &= 1<<n - 1
	}
	if n > 0 {
		s.WriteByte(bechChars[acc<<(5-n)&31])
	}
	return s.String()
}

// typeOf is the type that subscription c is for.
func typeOf(c int) uint64 {
	if c%4 == 2 {
		return ^uint64(0) - uint64(c) + 2
	}
	return 64 + uint64(c-1)*3
}

// call makes rpc c.
func (m *lifeRun) call(ctx context.Context, c int, op string, valid bool) error {
	var err error
	switch op {
	case "send":
		k := randKey(m.r).PubKey()
		m.mtx.Lock()
		m.targets[vertex(k)] = c
		m.mtx.Unlock()
		req := &offersrpc.SendOnionMessageRequest{
			Pubkey: k.SerializeCompressed(),
			FinalPayloads: map[uint64][]byte{
				100: {1}, 101: {},
			},
		}
		if !valid {
			req.FinalPayloads[2] = []byte{1}
		}
		_, err = m.srv.SendOnionMessage(ctx, req)
	case "route":
		_, err = m.srv.GenerateBlindedRoute(
			ctx, &offersrpc.GenerateBlindedRouteRequest{},
		)
	case "decode":
		req := &offersrpc.DecodeOfferRequest{}
		if valid {
			req.Offer = "lno1" + bech32Data(tlvStream([]tlvRec{
				{10, []byte("something")},
				{30, schnorr.SerializePubKey(
					randKey(m.r).PubKey(),
				)},
			}))
		}
		_, err = m.srv.DecodeOffer(ctx, req)
	case "sub":
		t := typeOf(c)
		if !valid {
			t = uint64(m.r.Intn(64))
		}
		err = m.srv.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: t},
			&lifeStream{srvStream{ctx}, m, c},
		)
	}
	return err
}

type lifeStream struct {
	srvStream
	m *lifeRun
	c int
}

func (s *lifeStream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	s.m.mtx.Lock()
	c, ok := s.m.msgs[string(r.Value)]
	s.m.mtx.Unlock()
	if !ok || c != s.c {
		c = -1
	}
	s.m.log.add(obj{"e": "deliver", "c": c})
	return nil
}

// act logs the first thing that a call does to lnd.
func (m *lifeRun) act(ctx context.Context, c int, op string) {
	if v, ok := ctx.Value(callKey{}).(int); ok && c == 0 {
		c = v
	}
	m.mtx.Lock()
	again := c != 0 && m.acted[c]
	m.acted[c] = true
	m.mtx.Unlock()
	if !again {
		m.log.add(obj{"e": "act", "c": c, "op": op})
	}
}

func (m *lifeRun) fakes() *fakeLnd {
	peer := randKey(m.r).PubKey()
	lnd := &fakeLnd{key: m.us}
	lnd.getInfo = func(ctx context.Context) error {
		m.log.add(obj{"e": "ask"})
		ok := m.gate.wait() == "ok"
		m.log.add(obj{"e": "tell", "ok": ok})
		if !ok {
			return fmt.Errorf("verif: lnd isn't there")
		}
		return nil
	}
	lnd.subscribe = func(ctx context.Context) (<-chan lndclient.CustomMessage,
		<-chan error, error) {

		m.log.add(obj{"e": "open"})
		go func() {
			<-ctx.Done()
			m.log.add(obj{"e": "close"})
		}()
		a, b := m.str.run(ctx)
		return a, b, nil
	}
	lnd.queryRoutes = func(ctx context.Context,
		r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse,
		error) {

		m.mtx.Lock()
		c := m.targets[r.PubKey]
		m.mtx.Unlock()
		m.act(ctx, c, "send")
		k := r.PubKey
		return &lndclient.QueryRoutesResponse{
			Hops: []*lndclient.Hop{{PubKey: &k}},
		}, nil
	}
	lnd.send = func(ctx context.Context, msg lndclient.CustomMessage) error {
		m.mtx.Lock()
		c := m.targets[msg.Peer]
		m.mtx.Unlock()
		m.act(ctx, c, "send")
		return nil
	}
	lnd.listChannels = func(ctx context.Context, _, _ bool) (
		[]lndclient.ChannelInfo, error) {

		m.act(ctx, 0, "route")
		return []lndclient.ChannelInfo{{
			PubKeyBytes: vertex(peer), Active: true,
		}}, nil
	}
	lnd.nodeInfo = func(_ context.Context, v route.Vertex, _ bool) (
		*lndclient.NodeInfo, error) {

		return &lndclient.NodeInfo{
			Node:         &lndclient.Node{PubKey: v},
			ChannelCount: 1,
			Channels:     []lndclient.ChannelEdge{{}},
		}, nil
	}
	return lnd
}

// message builds a message for subscription c.
func (m *lifeRun) message(c int) lndclient.CustomMessage {
	v := randBytes(m.r, 12)
	m.mtx.Lock()
	m.msgs[string(v)] = c
	m.mtx.Unlock()
	bk := randKey(m.r)
	path := blind(bk, []*btcec.PublicKey{m.us.PubKey()}, [][]byte{nil})
	onion, err := buildOnion(randKey(m.r), []onionHop{{
		key: path.BlindedHops[0],
		payload: tlvStream([]tlvRec{
			{4, path.EncryptedData[0]}, {typeOf(c), v},
		}),
	}})
	must(err)
	return lndclient.CustomMessage{
		Peer: vertex(randKey(m.r).PubKey()), MsgType: 513,
		Data: onionMsg(bk.PubKey(), onion),
	}
}

// async runs a call and logs what it returned.
func (m *lifeRun) async(f func() error, done func(err error, panicked string)) {
	m.pend.Add(1)
	go func() {
		defer m.pend.Add(-1)
		var err error
		p := guarded(func() { err = f() })
		done(err, p)
	}()
}

func runLifeScenario(sc scLife) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	m := &lifeRun{
		log: &elog{}, r: r, us: randKey(r), gate: newWaiter(),
		cancels: map[int]func(){}, targets: map[route.Vertex]int{},
		msgs: map[string]int{}, acted: map[int]bool{},
	}
	m.str = newStream(m.log, m.r)
	m.lnd = m.fakes()
	m.srv = newServer(nil)
	stop := func(c int) {
		m.log.add(obj{"e": "stop", "c": c})
		m.async(m.srv.Stop, func(err error, p string) {
			if p != "" {
				m.log.add(obj{"e": p})
				return
			}
			m.log.add(obj{"e": "stopret", "c": c, "ok": err == nil})
		})
	}
	start := func(c int) {
		m.log.add(obj{"e": "start", "c": c})
		m.async(func() error {
			return m.srv.Start(m.lnd.services())
		}, func(err error, p string) {
			if p != "" {
				m.log.add(obj{"e": p})
				return
			}
			m.log.add(obj{"e": "startret", "c": c, "ok": err == nil})
		})
	}
	stops := 0
	for _, st := range sc.Sched {
		st := st
		switch st.A {
		case "start":
			start(st.C)
		case "stop":
			stops++
			stop(st.C)
		case "call":
			ctx, cancel := context.WithCancel(context.WithValue(
				context.Background(), callKey{}, st.C,
			))
			m.cancels[st.C] = cancel
			m.log.add(obj{
				"e": "call", "c": st.C, "op": st.Op,
				"valid": st.Valid,
			})
			m.async(func() error {
				return m.call(ctx, st.C, st.Op, st.Valid)
			}, func(err error, p string) {
				res := codes.OK.String()
				if p != "" {
					res = p
				} else if err != nil {
					s, _ := status.FromError(err)
					res = s.Code().String()
				}
				m.log.add(obj{"e": "ret", "c": st.C, "r": res})
			})
		case "cancel":
			m.log.add(obj{"e": "cancel", "c": st.C})
			m.cancels[st.C]()
		case "tell":
			m.log.touch()
			if st.OK {
				m.gate.release("ok")
			} else {
				m.gate.release("err")
			}
		case "msg":
			m.log.add(obj{"e": "offer", "c": st.C})
			m.str.offer(streamItem{msg: m.message(st.C)})
		case "hold":
			m.log.hold(st.M)
		case "quiet":
			m.log.quiesce(quietTime)
			m.log.add(obj{"e": "quiet"})
		}
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	m.gate.openUp()
	m.log.quiesce(quietTime)
	m.log.add(obj{"e": "quiet"})
	if stops == 0 {
		stop(1000)
	}
	m.log.settle(quietTime, graceTime, func() bool { return m.pend.Load() > 0 })
	m.log.add(obj{"e": "quiet", "long": true})
	for _, c := range m.cancels {
		c()
	}
	return obj{"id": sc.ID, "ev": m.log.snapshot()}
}

func runLife(in string) {
	var scs []scLife
	readLines(in, func(b []byte) {
		var sc scLife
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runLifeScenario(scs[i]))
	})
}
