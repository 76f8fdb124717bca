package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() { modes["network"] = runNetwork }

// Scenarios of several real servers, with the harness as the network between
// them. Steps:
//
//	sub n c t        subscription c at node n for type rank t
//	gen id n intro   node n generates route id
//	route id segs    a route made by somebody else
//	send k n path dest ts rp direct wait; same: with the content of send same
//	arrive k h       the message of send k that was relayed h times arrives
//	hold m           nothing happens for m milliseconds
//	quiet
type netStep struct {
	A      string  `json:"a"`
	N      int     `json:"n"`
	C      int     `json:"c"`
	T      int     `json:"t"`
	ID     int     `json:"id"`
	Intro  int     `json:"intro"`
	Segs   [][]int `json:"segs"`
	K      int     `json:"k"`
	H      int     `json:"h"`
	Path   []int   `json:"path"`
	Dest   []int   `json:"dest"`
	Ts     []int   `json:"ts"`
	Empty  []int   `json:"empty"`
	Rp     int     `json:"rp"`
	Direct bool    `json:"direct"`
	Wait   bool    `json:"wait"`
	Same   int     `json:"same"`
	Large  int     `json:"large"`
	M      int     `json:"m"`
}

type netLabel struct{ k, h int }

type scNet struct {
	ID     int       `json:"id"`
	Nodes  int       `json:"nodes"`
	Sched  []netStep `json:"sched"`
	Faults [][2]int  `json:"faults"`
}

// netContent is what the recipient of a message finds in it.
type netContent struct {
	pl []obj
	rp int
	ed int
}

type netSend struct {
	st      netStep
	done    chan struct{}
	labeled bool
	label   string // abstract content, to find it on the wire
}

type netRoute struct {
	rpc *offersrpc.BlindedPath
	enc []byte
}

type netNode struct {
	lnd    *fakeLnd
	key    *btcec.PrivateKey
	srv    *rpcserver.Server
	str    *stream
	intro  int
	paths  map[route.Vertex][]int
	active []*netSend
	// got has the paths that were received with messages.
	got map[int]*offersrpc.BlindedPath
}

type netRun struct {
	mtx    sync.Mutex
	log    *elog
	r      *rand.Rand
	sc     scNet
	nodes  []*netNode // from 1
	byKey  map[route.Vertex]int
	types  []uint64
	rank   map[uint64]int
	tags   map[string]int    // values
	values map[[2]int][]byte // by send and type
	parts  map[string]int
	routes map[int]*netRoute
	paths  map[string]int // encoded path -> route
	wires  int
	// expected maps what a node is going to forward to its label.
	expected map[string]netLabel
	inflight map[netLabel]*netWire
	faults   map[netLabel]bool
	late     bool
	pend     atomic.Int32
}

type netWire struct {
	i    int
	from int
	to   int
	data []byte
}

func (m *netRun) part(b []byte) int {
	if _, ok := m.parts[string(b)]; !ok {
		m.parts[string(b)] = len(m.parts) + 1
	}
	return m.parts[string(b)]
}

func (m *netRun) pathID(b []byte) int {
	if id, ok := m.paths[string(b)]; ok {
		return id
	}
	return -1
}

func encodeRPC(p *offersrpc.BlindedPath) []byte {
	b := append([]byte{}, p.IntroductionNode...)
	b = append(b, p.BlindingPoint...)
	b = append(b, byte(len(p.Hops)))
	for _, h := range p.Hops {
		b = append(b, h.BlindedNodeId...)
		b = append(b, byte(len(h.EncryptedData)>>8),
			byte(len(h.EncryptedData)))
		b = append(b, h.EncryptedData...)
	}
	return b
}

// content says what there is for the recipient.
func (m *netRun) content(payload []byte) (netContent, bool) {
	c := netContent{pl: []obj{}}
	recs, err := parseTLV(payload)
	if err != nil {
		return c, false
	}
	var enc []byte
	for _, r := range recs {
		switch {
		case r.t == 2:
			c.rp = m.pathID(r.v)
		case r.t == 4:
			enc = r.v
		case r.t >= 64:
			t, ok := m.rank[r.t]
			if !ok {
				return c, false
			}
			c.pl = append(c.pl, obj{"t": t, "v": m.tag(r.v)})
		default:
			return c, false
		}
	}
	c.ed = m.part(enc)
	return c, true
}

func (m *netRun) tag(v []byte) int {
	if len(v) == 0 {
		return 0
	}
	if t, ok := m.tags[string(v)]; ok {
		return t
	}
	return -1
}

// walk takes a message to its recipient with the keys of all nodes.
func (m *netRun) walk(to int, data []byte) ([]int, netContent) {
	var path []int
	for len(path) < 40 {
		if to == 0 {
			return append(path, 0), netContent{pl: []obj{}}
		}
		k := m.nodes[to].key
		p, next, blinding, err := peel(k, data)
		if err != nil {
			return append(path, 0), netContent{pl: []obj{}}
		}
		path = append(path, to)
		if next == nil {
			c, ok := m.content(p)
			if !ok {
				path = append(path, -1)
			}
			return path, c
		}
		recs, err := parseTLV(p)
		if err != nil || len(recs) != 1 || recs[0].t != 4 {
			return append(path, -2), netContent{pl: []obj{}}
		}
		nextNode, override := openBlob(k, data, recs[0].v)
		if nextNode == nil {
			return append(path, -3), netContent{pl: []obj{}}
		}
		if override != nil {
			blinding = override
		}
		data = onionMsg(blinding, next)
		to = m.byKey[vertex(nextNode)]
	}
	return path, netContent{pl: []obj{}}
}

func abstract(path []int, pl []obj, rp int) string {
	b, err := json.Marshal([]interface{}{path, pl, rp})
	must(err)
	return string(b)
}

// send is a call of node n to lnd.
func (m *netRun) send(n int, msg lndclient.CustomMessage) error {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	to := m.byKey[msg.Peer]
	m.log.touch()
	path, c := m.walk(to, msg.Data)
	m.log.touch()
	label, ok := m.expected[fmt.Sprint(n)+string(msg.Data)]
	if !ok {
		a := abstract(nil, c.pl, c.rp)
		for _, s := range m.nodes[n].active {
			if !s.labeled && s.label == a &&
				len(s.st.Path) > 0 && s.st.Path[0] == to {

				s.labeled = true
				label = netLabel{s.st.K, 0}
				ok = true
				break
			}
		}
	}
	if !ok {
		label = netLabel{-1, m.wires}
	}
	m.wires++
	good := !m.faults[label]
	m.log.add(obj{"e": "wire", "n": n, "to": to, "ok": good,
		"ty": msg.MsgType == 513, "path": path, "pl": c.pl,
		"rp": c.rp, "ed": c.ed})
	if !good {
		return errFake
	}
	m.inflight[label] = &netWire{i: m.wires, from: n, to: to,
		data: msg.Data}
	return nil
}

// arrive gives the message to its node.
func (m *netRun) arrive(l netLabel) {
	var w *netWire
	for end := time.Now().Add(2 * time.Second); ; {
		m.mtx.Lock()
		w = m.inflight[l]
		m.mtx.Unlock()
		if w != nil || m.late {
			break
		}
		if time.Now().After(end) {
			m.late = true
			break
		}
		time.Sleep(100 * time.Microsecond)
	}
	if w == nil || w.to == 0 {
		return
	}
	m.deliver(l, w)
}

func (m *netRun) deliver(l netLabel, w *netWire) {
	m.mtx.Lock()
	k := m.nodes[w.to].key
	if p, next, blinding, err := peel(k, w.data); err == nil && next != nil {
		if recs, err := parseTLV(p); err == nil && len(recs) == 1 {
			_, override := openBlob(k, w.data, recs[0].v)
			if override != nil {
				blinding = override
			}
			m.expected[fmt.Sprint(w.to)+
				string(onionMsg(blinding, next))] =
				netLabel{l.k, l.h + 1}
		}
	}
	// Who replays a message may be somebody else.
	from := vertex(m.nodes[w.from].key.PubKey())
	if m.r.Intn(16) == 0 {
		copy(from[:], randKey(m.r).PubKey().SerializeCompressed())
	}
	m.log.add(obj{"e": "arrive", "i": w.i})
	m.nodes[w.to].str.offer(streamItem{msg: lndclient.CustomMessage{
		Peer: from, MsgType: 513, Data: append([]byte{}, w.data...),
	}})
	m.mtx.Unlock()
}

func (m *netRun) start(n int) {
	key := randKey(m.r)
	if n > 2 && n%2 == 0 && m.r.Intn(3) == 0 {
		// One coordinate in common with another node.
		key = negated(m.nodes[n-1].key)
	}
	nd := &netNode{
		key: key, str: newStream(m.log, m.r),
		paths: map[route.Vertex][]int{},
		got:   map[int]*offersrpc.BlindedPath{},
	}
	m.nodes = append(m.nodes, nd)
	m.byKey[vertex(nd.key.PubKey())] = n
	nd.lnd = &fakeLnd{key: nd.key}
	nd.lnd.subscribe = func(ctx context.Context) (
		<-chan lndclient.CustomMessage, <-chan error, error) {

		a, b := nd.str.run(ctx)
		return a, b, nil
	}
	nd.lnd.send = func(_ context.Context, c lndclient.CustomMessage) error {
		return m.send(n, c)
	}
	nd.lnd.listPeers = func(context.Context) ([]lndclient.Peer, error) {
		var ps []lndclient.Peer
		for i := 1; i < len(m.nodes); i++ {
			if i != n {
				ps = append(ps, lndclient.Peer{
					Pubkey: vertex(m.nodes[i].key.PubKey()),
				})
			}
		}
		return ps, nil
	}
	nd.lnd.queryRoutes = func(_ context.Context,
		q lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		m.mtx.Lock()
		defer m.mtx.Unlock()
		p, ok := nd.paths[q.PubKey]
		if !ok {
			return nil, lndclient.ErrNoRouteFound
		}
		resp := &lndclient.QueryRoutesResponse{}
		for i, x := range p {
			v := vertex(m.nodes[x].key.PubKey())
			resp.Hops = append(resp.Hops, &lndclient.Hop{
				ChannelID: uint64(i + 1), PubKey: &v,
			})
		}
		return resp, nil
	}
	nd.lnd.listChannels = func(context.Context, bool, bool) (
		[]lndclient.ChannelInfo, error) {

		m.mtx.Lock()
		defer m.mtx.Unlock()
		var cs []lndclient.ChannelInfo
		for i := 1; i < len(m.nodes); i++ {
			if i != n && (i == nd.intro || i%2 == 0) {
				cs = append(cs, lndclient.ChannelInfo{
					PubKeyBytes: vertex(
						m.nodes[i].key.PubKey(),
					), Active: true,
				})
			}
		}
		return cs, nil
	}
	nd.lnd.nodeInfo = func(_ context.Context, v route.Vertex, _ bool) (
		*lndclient.NodeInfo, error) {

		m.mtx.Lock()
		defer m.mtx.Unlock()
		i, ok := m.byKey[v]
		if !ok {
			return nil, status.Error(codes.NotFound, "not found")
		}
		ni := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v}}
		k := 1
		if i == nd.intro {
			k = 2
		}
		for ; k > 0; k-- {
			ni.Channels = append(ni.Channels, lndclient.ChannelEdge{
				ChannelID: uint64(k),
			})
		}
		ni.ChannelCount = len(ni.Channels)
		return ni, nil
	}
	nd.srv = newServer(nil)
}

type netClient struct {
	srvStream
	m    *netRun
	n, c int
}

func (s *netClient) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	m := s.m
	m.mtx.Lock()
	defer m.mtx.Unlock()
	rp := 0
	if r.ReplyPath != nil {
		rp = m.pathID(encodeRPC(r.ReplyPath))
		if rp > 0 {
			m.nodes[s.n].got[rp] = r.ReplyPath
		}
	}
	m.log.add(obj{"e": "hand", "c": s.c, "v": m.tag(r.Value), "rp": rp})
	return nil
}

// generate lets node n generate a route.
func (m *netRun) generate(st netStep) {
	nd := m.nodes[st.N]
	m.mtx.Lock()
	nd.intro = st.Intro
	m.mtx.Unlock()
	var resp *offersrpc.GenerateBlindedRouteResponse
	var err error
	p := guarded(func() {
		resp, err = nd.srv.GenerateBlindedRoute(
			context.Background(),
			&offersrpc.GenerateBlindedRouteRequest{},
		)
	})
	m.mtx.Lock()
	defer m.mtx.Unlock()
	ev := obj{"e": "gen", "n": st.N, "id": st.ID, "r": "ok",
		"intro": 0, "path": []int{}, "parts": []int{}, "clear": false,
		"ed": 0}
	defer m.log.add(ev)
	if p != "" || err != nil || resp.GetRoute() == nil {
		ev["r"] = "err" + p
		return
	}
	rt := resp.Route
	enc := encodeRPC(rt)
	m.routes[st.ID] = &netRoute{rpc: rt, enc: enc}
	m.paths[string(enc)] = st.ID
	us := nd.key.PubKey().SerializeCompressed()
	// The introduction node may have its coordinate in common with us.
	ev["clear"] = bytes.Contains(bytes.ReplaceAll(
		enc, rt.IntroductionNode, nil), us[1:])
	ev["intro"] = st.Intro
	parts := []int{m.part(rt.BlindingPoint)}
	var hops []onionHop
	for i, h := range rt.Hops {
		parts = append(parts, m.part(h.BlindedNodeId))
		if len(h.EncryptedData) > 0 {
			parts = append(parts, m.part(h.EncryptedData))
		}
		k, err := parseKey(h.BlindedNodeId)
		if err != nil {
			return
		}
		pl := tlvStream([]tlvRec{{4, h.EncryptedData}})
		if i == len(rt.Hops)-1 && len(h.EncryptedData) == 0 {
			pl = tlvStream([]tlvRec{{m.types[0], nil}})
		}
		hops = append(hops, onionHop{k, pl})
	}
	ev["parts"] = parts
	if len(rt.Hops) == 0 {
		return
	}
	ev["ed"] = m.part(rt.Hops[len(rt.Hops)-1].EncryptedData)
	// Where does it lead to?
	first, err1 := parseKey(rt.IntroductionNode)
	point, err2 := parseKey(rt.BlindingPoint)
	if err1 != nil || err2 != nil {
		return
	}
	onion, err := buildOnion(randKey(m.r), hops)
	if err != nil {
		return
	}
	path, _ := m.walk(m.byKey[vertex(first)], onionMsg(point, onion))
	ev["path"] = path
}

// learn makes a route in the way other implementations do.
func (m *netRun) learn(st netStep) {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	rt := &offersrpc.BlindedPath{
		IntroductionNode: m.nodes[st.Segs[0][0]].key.PubKey().
			SerializeCompressed(),
	}
	var points []*btcec.PrivateKey
	for range st.Segs {
		points = append(points, randKey(m.r))
	}
	rt.BlindingPoint = points[0].PubKey().SerializeCompressed()
	for j, seg := range st.Segs {
		var nodes []*btcec.PublicKey
		var data [][]byte
		for i, x := range seg {
			nodes = append(nodes, m.nodes[x].key.PubKey())
			var recs []tlvRec
			if m.r.Intn(3) == 0 {
				// Padding.
				recs = append(recs, tlvRec{1,
					make([]byte, m.r.Intn(4))})
			}
			switch {
			case i+1 < len(seg):
				recs = append(recs, tlvRec{4, m.nodes[seg[i+1]].
					key.PubKey().SerializeCompressed()})
			case j+1 < len(st.Segs):
				recs = append(recs, tlvRec{4, m.nodes[st.
					Segs[j+1][0]].key.PubKey().
					SerializeCompressed()})
				recs = append(recs, tlvRec{8, points[j+1].
					PubKey().SerializeCompressed()})
			default:
				// A path id, only the recipient knows what it
				// is.
				if m.r.Intn(2) == 0 {
					recs = append(recs, tlvRec{6,
						randBytes(m.r, 1+m.r.Intn(20))})
				}
			}
			data = append(data, tlvStream(recs))
		}
		p := blind(points[j], nodes, data)
		for i := range seg {
			rt.Hops = append(rt.Hops, &offersrpc.BlindedHop{
				BlindedNodeId: p.BlindedHops[i].
					SerializeCompressed(),
				EncryptedData: p.EncryptedData[i],
			})
		}
	}
	enc := encodeRPC(rt)
	m.routes[st.ID] = &netRoute{rpc: rt, enc: enc}
	m.paths[string(enc)] = st.ID
	m.log.add(obj{"e": "route", "id": st.ID, "segs": st.Segs,
		"ed": m.part(rt.Hops[len(rt.Hops)-1].EncryptedData)})
}

// request is what is asked of the sender.
func (m *netRun) request(st netStep, s *netSend) (
	*offersrpc.SendOnionMessageRequest, obj) {

	nd := m.nodes[st.N]
	req := &offersrpc.SendOnionMessageRequest{
		DirectConnect: st.Direct, FinalPayloads: map[uint64][]byte{},
	}
	ev := obj{"e": "send", "k": st.K, "n": st.N, "path": st.Path,
		"dest": st.Dest, "rp": st.Rp}
	if len(st.Dest) == 0 {
		req.Pubkey = m.nodes[st.Path[len(st.Path)-1]].key.PubKey().
			SerializeCompressed()
	} else {
		// As it was received with a message, if it was.
		req.BlindedDestination = nd.got[st.Dest[0]]
		if req.BlindedDestination == nil {
			req.BlindedDestination = m.routes[st.Dest[0]].rpc
		}
	}
	if st.Rp > 0 {
		req.ReplyPath = m.routes[st.Rp].rpc
	}
	pl, large := []obj{}, false
	for _, t := range st.Ts {
		v := []byte{}
		if !contains(st.Empty, t) {
			v = m.values[[2]int{st.Same, t}]
		}
		if v == nil {
			n := 5 + m.r.Intn(40)
			if len(st.Ts) > 4 {
				// There has to be space for all of them.
				n = 5 + m.r.Intn(8)
			} else if st.Large > 0 && !large {
				n, large = st.Large, true
			}
			v = randBytes(m.r, n)
			m.tags[string(v)] = 100*st.K + t
		}
		m.values[[2]int{st.K, t}] = v
		req.FinalPayloads[m.types[t-1]] = v
		pl = append(pl, obj{"t": t, "v": m.tag(v)})
	}
	ev["pl"] = pl
	s.label = abstract(nil, pl, st.Rp)
	return req, ev
}

func (m *netRun) sendStep(st netStep) {
	nd := m.nodes[st.N]
	if st.Dest == nil {
		st.Dest = []int{}
	}
	if len(st.Dest) > 0 && m.routes[st.Dest[0]] == nil ||
		st.Rp > 0 && m.routes[st.Rp] == nil {

		return
	}
	target := vertex(m.nodes[st.Path[len(st.Path)-1]].key.PubKey())
	m.mtx.Lock()
	// lnd knows one route to each target at a time.
	var before []*netSend
	for _, s := range nd.active {
		if vertex(m.nodes[s.st.Path[len(s.st.Path)-1]].key.PubKey()) ==
			target && fmt.Sprint(s.st.Path) != fmt.Sprint(st.Path) {

			before = append(before, s)
		}
	}
	m.mtx.Unlock()
	for _, s := range before {
		within(2*time.Second, func() { <-s.done })
	}
	s := &netSend{st: st, done: make(chan struct{})}
	m.mtx.Lock()
	nd.paths[target] = st.Path
	nd.active = append(nd.active, s)
	req, ev := m.request(st, s)
	m.log.add(ev)
	m.mtx.Unlock()
	m.pend.Add(1)
	go func() {
		defer m.pend.Add(-1)
		var err error
		p := guarded(func() {
			_, err = nd.srv.SendOnionMessage(
				context.Background(), req,
			)
		})
		m.mtx.Lock()
		for i, x := range nd.active {
			if x == s {
				nd.active = append(nd.active[:i:i],
					nd.active[i+1:]...)
				break
			}
		}
		ev := obj{"e": "sendret", "k": st.K, "ok": err == nil}
		if p != "" {
			ev["panic"], ev["ok"] = p, false
		} else if err != nil {
			ev["err"] = err.Error()
		}
		m.log.add(ev)
		m.mtx.Unlock()
		close(s.done)
	}()
	if st.Wait {
		within(2*time.Second, func() { <-s.done })
	}
}

func runNetScenario(sc scNet) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	m := &netRun{
		sc: sc, log: &elog{}, r: r, nodes: []*netNode{nil},
		byKey: map[route.Vertex]int{}, tags: map[string]int{},
		values: map[[2]int][]byte{}, rank: map[uint64]int{}, parts: map[string]int{},
		routes: map[int]*netRoute{}, paths: map[string]int{},
		expected: map[string]netLabel{},
		inflight: map[netLabel]*netWire{}, faults: map[netLabel]bool{},
	}
	m.types = concreteTypes(r, 16)
	for i, t := range m.types {
		m.rank[t] = i + 1
	}
	for _, f := range sc.Faults {
		m.faults[netLabel{f[0], f[1]}] = true
	}
	for n := 1; n <= sc.Nodes; n++ {
		m.start(n)
	}
	for n := 1; n <= sc.Nodes; n++ {
		must(m.nodes[n].srv.Start(m.nodes[n].lnd.services()))
	}
	pending := func() bool {
		for n := 1; n <= sc.Nodes; n++ {
			if m.nodes[n].str.pending() {
				return true
			}
		}
		return m.pend.Load() > 0
	}
	quiet := func() {
		m.log.settle(quietTime, graceTime, pending)
		m.log.add(obj{"e": "quiet"})
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	for i, st := range sc.Sched {
		switch st.A {
		case "sub":
			st := st
			m.log.add(obj{"e": "sub", "n": st.N, "c": st.C,
				"t": st.T})
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = m.nodes[st.N].srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: m.types[st.T-1],
					}, &netClient{
						srvStream: srvStream{ctx: ctx},
						m:         m, n: st.N, c: st.C,
					},
				)
			}()
			if i+1 < len(sc.Sched) && sc.Sched[i+1].A != "sub" {
				quiet()
			}
		case "gen":
			m.generate(st)
		case "route":
			m.learn(st)
		case "send":
			m.sendStep(st)
		case "arrive":
			m.arrive(netLabel{st.K, st.H})
		case "hold":
			m.log.hold(st.M)
		case "quiet":
			quiet()
		}
	}
	quiet()
	// What is still under way arrives as well.
	done := map[netLabel]bool{}
	for _, st := range sc.Sched {
		if st.A == "arrive" {
			done[netLabel{st.K, st.H}] = true
		}
	}
	for more := true; more; {
		more = false
		m.mtx.Lock()
		var ls []netLabel
		for l := range m.inflight {
			if !done[l] && m.inflight[l].to != 0 {
				ls = append(ls, l)
			}
		}
		m.mtx.Unlock()
		for _, l := range ls {
			done[l], more = true, true
			m.arrive(l)
		}
		quiet()
	}
	cancel()
	for n := 1; n <= sc.Nodes; n++ {
		nd := m.nodes[n]
		within(3*time.Second, func() { _ = nd.srv.Stop() })
	}
	within(time.Second, wg.Wait)
	return obj{"id": sc.ID, "nodes": sc.Nodes, "ev": m.log.snapshot()}
}

func runNetwork(in string) {
	var scs []scNet
	readLines(in, func(b []byte) {
		var sc scNet
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runNetScenario(scs[i]))
	})
}
