package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() { modes["send"] = runSend }

// A scenario is a sequence of sends through one server. For each, the answers
// of lnd are scripted by kind of call.
type scSend struct {
	ID    int       `json:"id"`
	Sends []scSendR `json:"sends"`
	// Par: the sends are made at the same time.
	Par bool `json:"par"`
	// Few: there are only a few nodes, that sends have in common.
	Few int `json:"few"`
}

type scSendR struct {
	Direct bool     `json:"direct"`
	Hops   int      `json:"hops"`  // unblinded nodes up to the target
	Pub    string   `json:"pub"`   // none, ok, or the kind of defect
	Dest   string   `json:"dest"`  // blinded destination: likewise
	Blind  []int    `json:"blind"` // sizes of its encrypted data
	Reply  string   `json:"reply"` // likewise
	Rp     []int    `json:"rp"`
	Pl     []scPl   `json:"pl"`
	Valid  bool     `json:"valid"`
	List   []string `json:"list"`
	Info   []string `json:"info"`
	Conn   []string `json:"conn"`
	Query  []string `json:"query"`
	Wire   []string `json:"wire"`
	// Slow: how long (ms) lnd takes for the n-th call.
	Slow []int `json:"slow"`
	// Pre: the caller has given up already.
	Pre bool `json:"pre"`
	// Bk: the kind of defect of a key of a path, any if empty.
	Bk string `json:"bk"`
	// Self: the target is our own node.
	Self bool `json:"self"`
	// Again: the request is the one before, sent once more.
	Again bool `json:"again"`
}

type scPl struct {
	Ts  int `json:"ts"`  // size of the encoded type, 0: below the range
	Len int `json:"len"` // size of the value
}

// sendRun is one send.
type sendRun struct {
	mtx    sync.Mutex
	sc     scSendR
	log    *elog
	r      *rand.Rand
	t0     time.Time
	ctx    context.Context
	cancel func()
	done   bool
	n      map[string]int

	us     *btcec.PrivateKey
	keys   []*btcec.PrivateKey // unblinded nodes, the last is the target
	bkeys  []*btcec.PrivateKey // blinded keys of the destination
	bpoint *btcec.PrivateKey
	req    *offersrpc.SendOnionMessageRequest
	reply  *rpath
	addrs  []string
}

func (s *sendRun) target() *btcec.PublicKey {
	return s.keys[len(s.keys)-1].PubKey()
}

func (s *sendRun) ms() int64 { return time.Since(s.t0).Milliseconds() }

// answer picks the scripted answer for a call. If nothing is scripted, the
// default is the last answer of that kind.
func (s *sendRun) answer(ctx context.Context, k string, script []string,
	def string) string {

	s.mtx.Lock()
	defer s.mtx.Unlock()
	i := s.n[k]
	s.n[k]++
	if n := s.n["all"]; n < len(s.sc.Slow) && s.sc.Slow[n] > 0 {
		// Whoever gives up now has no reason to.
		s.mtx.Unlock()
		select {
		case <-ctx.Done():
		case <-time.After(time.Duration(s.sc.Slow[n]) *
			time.Millisecond):
		}
		s.mtx.Lock()
		if ctx.Err() != nil && s.ctx.Err() == nil {
			s.log.add(obj{"e": "gone"})
		}
	}
	s.n["all"]++
	r := def
	if i < len(script) {
		r = script[i]
	} else if len(script) > 0 {
		r = script[len(script)-1]
	}
	if r == "cancel" || s.ctx.Err() != nil {
		s.giveUp()
		return "cancel"
	}
	return r
}

// giveUp is called with the mutex held.
func (s *sendRun) giveUp() {
	if s.ctx.Err() == nil {
		s.log.add(obj{"e": "cancel"})
		s.cancel()
	}
}

// lndErr varies the kind of error that lnd calls fail with.
func (s *sendRun) lndErr() error {
	switch s.r.Intn(9) {
	case 0:
		return status.Error(codes.NotFound, "unable to find node")
	case 1:
		return status.Error(codes.Unknown, "already connected to peer")
	case 2:
		return status.Error(codes.Unknown, "peer is not connected")
	case 3:
		return status.Error(codes.AlreadyExists, "verif: it is there")
	case 4:
		return errors.New("dial tcp 10.0.0.1:9735: i/o timeout")
	default:
		return anyErr(s.r)
	}
}

func (s *sendRun) listPeers(ctx context.Context) ([]lndclient.Peer, error) {
	at := s.ms()
	r := s.answer(ctx, "list", s.sc.List, "no")
	if r == "wait" {
		// The caller is to give up between polls: handled after the
		// answer before. If we get here, it is too late.
		r = "cancel"
		s.mtx.Lock()
		s.giveUp()
		s.mtx.Unlock()
	}
	switch r {
	case "cancel":
		return nil, s.ctx.Err()
	case "err":
		s.log.add(obj{"e": "list", "r": "err", "t": at, "done": s.ms()})
		return nil, s.lndErr()
	}
	var peers []lndclient.Peer
	for i := s.r.Intn(4); i > 0; i-- {
		peers = append(peers, lndclient.Peer{
			Pubkey: vertex(randKey(s.r).PubKey()),
		})
	}
	for i := s.r.Intn(3); i > 0; i-- {
		// Somebody who looks much like the target.
		v := vertex(s.target())
		if s.r.Intn(2) == 0 {
			v[0] ^= 1
		} else {
			v[1+s.r.Intn(32)] ^= 1 << s.r.Intn(8)
		}
		peers = append(peers, lndclient.Peer{Pubkey: v})
	}
	if s.r.Intn(5) == 0 {
		// A large node.
		for i := 40 + s.r.Intn(500); i > 0; i-- {
			var v route.Vertex
			s.r.Read(v[:])
			v[0] = 2 + v[0]&1
			peers = append(peers, lndclient.Peer{Pubkey: v})
		}
	}
	for i := range peers {
		peers[i].Address = "10.1.2.3:9735"
		peers[i].Inbound = s.r.Intn(2) == 0
		peers[i].BytesSent = uint64(s.r.Int63())
	}
	if r == "yes" {
		i := s.r.Intn(len(peers) + 1)
		if s.r.Intn(4) == 0 {
			i = len(peers)
		}
		peers = append(peers, lndclient.Peer{})
		copy(peers[i+1:], peers[i:])
		peers[i] = lndclient.Peer{
			Pubkey: vertex(s.target()), Inbound: s.r.Intn(2) == 0,
			BytesSent:     uint64(s.r.Intn(2)),
			BytesReceived: uint64(s.r.Intn(2)),
			PingTime:      time.Duration(s.r.Intn(2)),
		}
	} else if len(s.keys) > 1 && s.r.Intn(2) == 0 {
		peers = append(peers, lndclient.Peer{
			Pubkey: vertex(s.keys[0].PubKey()),
		})
	}
	s.log.add(obj{"e": "list", "r": r, "t": at, "done": s.ms()})
	s.mtx.Lock()
	next := s.n["list"]
	s.mtx.Unlock()
	if next < len(s.sc.List) && s.sc.List[next] == "wait" {
		go func() {
			time.Sleep(time.Duration(100+s.r.Intn(500)) *
				time.Millisecond)
			s.mtx.Lock()
			s.giveUp()
			s.mtx.Unlock()
		}()
	}
	return peers, nil
}

func (s *sendRun) nodeInfo(ctx context.Context, v route.Vertex,
	_ bool) (*lndclient.NodeInfo, error) {

	isT := v == vertex(s.target())
	r := s.answer(ctx, "info", s.sc.Info, "addr")
	switch r {
	case "cancel":
		return nil, s.ctx.Err()
	case "err":
		s.log.add(obj{"e": "info", "r": "err", "target": isT})
		return nil, s.lndErr()
	}
	n := &lndclient.NodeInfo{Node: &lndclient.Node{
		PubKey: v, Alias: "verif", LastUpdate: time.Unix(1, 0),
	}}
	if r == "addr" {
		n.Addresses = append(n.Addresses, s.addrs...)
	}
	s.log.add(obj{"e": "info", "r": r, "target": isT})
	return n, nil
}

func (s *sendRun) connect(ctx context.Context, v route.Vertex, host string,
	perm bool) error {

	r := s.answer(ctx, "conn", s.sc.Conn, "ok")
	if r == "cancel" {
		return s.ctx.Err()
	}
	s.log.add(obj{"e": "conn", "r": r, "target": v == vertex(s.target()),
		"first": host == s.addrs[0], "perm": perm})
	if r == "err" {
		if s.r.Intn(3) == 0 {
			return fmt.Errorf("rpc error: code = Unknown desc = "+
				"already connected to peer: %v@%v", v, host)
		}
		return s.lndErr()
	}
	return nil
}

func (s *sendRun) queryRoutes(ctx context.Context,
	q lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {

	r := s.answer(ctx, "query", s.sc.Query, "ok")
	if r == "cancel" {
		return nil, s.ctx.Err()
	}
	ev := obj{"e": "query", "r": r,
		"target": q.PubKey == vertex(s.target()),
		"free": !q.UseMissionControl && q.FeeLimitMsat >= 1<<60 &&
			q.MaxCltv == nil && q.LastHop == nil && q.Source == nil,
	}
	hops := make([]*lndclient.Hop, len(s.keys))
	for i, k := range s.keys {
		v := vertex(k.PubKey())
		hops[i] = &lndclient.Hop{PubKey: &v, ChannelID: uint64(i + 1)}
	}
	resp := &lndclient.QueryRoutesResponse{Hops: hops}
	switch r {
	case "ok":
	case "err":
		s.log.add(ev)
		return nil, s.lndErr()
	case "noroute":
		s.log.add(ev)
		return nil, lndclient.ErrNoRouteFound
	case "empty":
		ev["r"] = "noroute"
		resp.Hops = nil
	case "nilhop":
		ev["r"] = "bad"
		hops[s.r.Intn(len(hops))].PubKey = nil
	case "badhop":
		ev["r"] = "bad"
		v := route.Vertex{}
		for i := range v {
			v[i] = 0xff
		}
		hops[s.r.Intn(len(hops))].PubKey = &v
	case "wrongend":
		// Not where the blinded route begins.
		ev["r"] = "bad"
		v := vertex(randKey(s.r).PubKey())
		hops[len(hops)-1].PubKey = &v
	default:
		fatal("answer %v", r)
	}
	s.log.add(ev)
	return resp, nil
}

func (s *sendRun) send(ctx context.Context, m lndclient.CustomMessage) error {
	r := s.answer(ctx, "wire", s.sc.Wire, "ok")
	if r == "cancel" {
		return s.ctx.Err()
	}
	first := s.keys[0].PubKey()
	if s.sc.Direct {
		first = s.target()
	}
	s.log.add(obj{"e": "wire", "r": r, "to": m.Peer == vertex(first),
		"ty": m.MsgType == 513, "whole": s.whole(m.Data)})
	if r == "err" {
		return s.lndErr()
	}
	return nil
}

// whole reports whether the message gets through all nodes of the route to the
// recipient with everything that it was to carry, and with nothing else.
func (s *sendRun) whole(data []byte) bool {
	keys := s.keys
	if s.sc.Direct {
		keys = keys[len(keys)-1:]
	}
	if s.bkeys != nil {
		// The introduction node is the first one that is blinded.
		keys = keys[:len(keys)-1]
	}
	var payload []byte
	for i, k := range keys {
		p, next, blinding, err := peel(k, data)
		if err != nil {
			return false
		}
		last := i == len(keys)-1 && s.bkeys == nil
		if (next == nil) != last {
			return false
		}
		payload = p
		if !last {
			recs, err := parseTLV(p)
			if err != nil || len(recs) != 1 || recs[0].t != 4 {
				return false
			}
			to := s.keys[i+1].PubKey()
			got, override := openBlob(k, data, recs[0].v)
			if got == nil || !got.IsEqual(to) {
				return false
			}
			if i == len(keys)-1 {
				// The blinded route begins.
				if override == nil || !override.IsEqual(
					s.bpoint.PubKey()) {

					return false
				}
			} else if override != nil {
				return false
			}
			data = onionMsg(blinding, next)
		}
	}
	if s.bkeys != nil {
		if len(keys) == 0 && !bytes.Equal(data[:33],
			s.bpoint.PubKey().SerializeCompressed()) {

			return false
		}
		for i, k := range s.bkeys {
			p, next, err := peelPlain(k, data)
			if err != nil {
				return false
			}
			last := i == len(s.bkeys)-1
			if (next == nil) != last {
				return false
			}
			payload = p
			if !last {
				want := tlvStream([]tlvRec{{4, s.enc(i)}})
				if !bytes.Equal(p, want) {
					return false
				}
				data = onionMsg(s.bpoint.PubKey(), next)
			}
		}
	}
	recs, err := parseTLV(payload)
	if err != nil {
		return false
	}
	pl := map[uint64][]byte{}
	path := false
	for _, r := range recs {
		switch {
		case r.t == 2:
			if s.reply == nil || !bytes.Equal(r.v, s.reply.encode()) {
				return false
			}
			path = true
		case r.t == 4:
			if s.bkeys != nil &&
				!bytes.Equal(r.v, s.enc(len(s.bkeys)-1)) {

				return false
			}
		case r.t >= 64:
			pl[r.t] = r.v
		default:
			return false
		}
	}
	if path != (s.reply != nil) || len(pl) != len(s.req.FinalPayloads) {
		return false
	}
	for t, v := range s.req.FinalPayloads {
		w, ok := pl[t]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

// enc is the encrypted data of the blinded destination's hop i.
func (s *sendRun) enc(i int) []byte {
	return s.req.BlindedDestination.Hops[i].EncryptedData
}

func typeOfSize(r *rand.Rand, ts int) uint64 {
	switch ts {
	case 0:
		return lowPool[r.Intn(len(lowPool))]
	case 1:
		return 64 + uint64(r.Intn(252-64))
	case 3:
		return 253 + uint64(r.Intn(65536-253))
	case 5:
		return 65536 + uint64(r.Intn(1<<31))
	default:
		return 1<<32 + uint64(r.Int63())
	}
}

// badKey is something that isn't a public key.
func badKey(r *rand.Rand, kind string) []byte {
	good := randKey(r).PubKey().SerializeCompressed()
	switch kind {
	case "short":
		return good[:32]
	case "long":
		return append(good, 0)
	case "prefix":
		good[0] = 5
		return good
	case "one":
		return []byte{2}
	case "curve":
		for {
			b := append([]byte{2}, randBytes(r, 32)...)
			if _, err := btcec.ParsePubKey(b); err != nil {
				return b
			}
		}
	case "zero":
		return make([]byte, 33)
	default:
		return nil
	}
}

var badKinds = []string{"short", "long", "prefix", "one", "curve", "zero",
	"empty"}

// path creates a path of the rpc with a defect.
func (s *sendRun) path(kind string, sizes []int) (*offersrpc.BlindedPath,
	*rpath, []*btcec.PrivateKey, *btcec.PrivateKey) {

	if kind == "none" {
		return nil, nil, nil, nil
	}
	bp := randKey(s.r)
	rp := &rpath{blinding: bp.PubKey()}
	if kind != "none" {
		rp.first = randKey(s.r).PubKey()
	}
	var keys []*btcec.PrivateKey
	p := &offersrpc.BlindedPath{
		IntroductionNode: rp.first.SerializeCompressed(),
		BlindingPoint:    rp.blinding.SerializeCompressed(),
	}
	for _, n := range sizes {
		k := randKey(s.r)
		keys = append(keys, k)
		d := randBytes(s.r, n)
		rp.ids = append(rp.ids, k.PubKey())
		rp.data = append(rp.data, d)
		p.Hops = append(p.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: k.PubKey().SerializeCompressed(),
			EncryptedData: d,
		})
	}
	bk := s.sc.Bk
	if bk == "" {
		bk = badKinds[s.r.Intn(len(badKinds))]
	}
	bad := badKey(s.r, bk)
	switch kind {
	case "intro":
		p.IntroductionNode = bad
	case "blinding":
		p.BlindingPoint = bad
	case "hop":
		p.Hops[s.r.Intn(len(p.Hops))].BlindedNodeId = bad
	case "lasthop":
		p.Hops[len(p.Hops)-1].BlindedNodeId = bad
	case "blank":
		p = &offersrpc.BlindedPath{}
	}
	return p, rp, keys, bp
}

// addrPool has all kinds of addresses that nodes announce.
var addrPool = []string{
	"10.0.0.1:9735", "10.0.0.1:9736", "203.0.113.9:19735",
	"127.0.0.1:9735", "[2001:db8::1]:9735", "[::1]:9735",
	"3g2upl4pq6kufc4m.onion:9735",
	"vww6ybal4bd7szmgncyruucpgfkqahzddi37ktceo3ah7ngmcopnpyyd.onion:9735",
	"node.example.com:9735",
}

type sendKey struct{}

// prepare creates the request. The nodes of the way are some of few, unless
// these aren't enough; prev is the send before.
func (s *sendRun) prepare(few []*btcec.PrivateKey, prev *sendRun) {
	if s.sc.Again {
		s.keys, s.bkeys, s.bpoint = prev.keys, prev.bkeys, prev.bpoint
		s.req, s.reply, s.addrs = prev.req, prev.reply, prev.addrs
		return
	}
	order := s.r.Perm(len(few))
	for i := 0; i < s.sc.Hops; i++ {
		if s.sc.Hops <= len(few) {
			s.keys = append(s.keys, few[order[i]])
			continue
		}
		s.keys = append(s.keys, randKey(s.r))
	}
	if n := len(s.keys); n > 1 && s.r.Intn(3) == 0 {
		// Two nodes whose keys have one coordinate in common.
		i := s.r.Intn(n)
		j := (i + 1 + s.r.Intn(n-1)) % n
		s.keys[i] = negated(s.keys[j])
	}
	if s.sc.Self {
		s.keys[len(s.keys)-1] = s.us
	}
	s.req = &offersrpc.SendOnionMessageRequest{
		DirectConnect: s.sc.Direct,
		FinalPayloads: map[uint64][]byte{},
	}
	switch s.sc.Pub {
	case "none":
		if s.r.Intn(2) == 0 {
			s.req.Pubkey = []byte{}
		}
	case "ok":
		s.req.Pubkey = s.target().SerializeCompressed()
	default:
		s.req.Pubkey = badKey(s.r, s.sc.Pub)
	}
	dest, _, bkeys, bpoint := s.path(s.sc.Dest, s.sc.Blind)
	if dest != nil {
		if s.sc.Dest != "intro" && s.sc.Dest != "blank" {
			dest.IntroductionNode = s.target().SerializeCompressed()
		}
		s.req.BlindedDestination = dest
		s.bkeys, s.bpoint = bkeys, bpoint
	}
	s.req.ReplyPath, s.reply, _, _ = s.path(s.sc.Reply, s.sc.Rp)
	if s.sc.Reply == "ok" {
		// Where the reply path begins is of no concern here.
		switch s.r.Intn(4) {
		case 0:
			s.reply.first = s.us.PubKey()
		case 1:
			s.reply.first = s.target()
		case 2:
			s.reply.first = s.keys[0].PubKey()
		}
		s.req.ReplyPath.IntroductionNode =
			s.reply.first.SerializeCompressed()
	}
	for _, p := range s.sc.Pl {
		for {
			t := typeOfSize(s.r, p.Ts)
			if _, ok := s.req.FinalPayloads[t]; ok {
				continue
			}
			v := randBytes(s.r, p.Len)
			if p.Len == 0 && s.r.Intn(2) == 0 {
				v = nil
			}
			s.req.FinalPayloads[t] = v
			break
		}
	}
	for _, i := range s.r.Perm(len(addrPool))[:1+s.r.Intn(5)] {
		s.addrs = append(s.addrs, addrPool[i])
	}
}

func (s *sendRun) event() obj {
	pl := []obj{}
	for _, p := range s.sc.Pl {
		pl = append(pl, obj{"ts": p.Ts, "len": p.Len})
	}
	ints := func(v []int) []int {
		if v == nil {
			return []int{}
		}
		return v
	}
	hops := s.sc.Hops
	if s.sc.Direct {
		hops = 1
	}
	return obj{"e": "call", "req": obj{
		"valid": s.sc.Valid, "direct": s.sc.Direct, "hops": hops,
		"blind": ints(s.sc.Blind), "rp": ints(s.sc.Rp), "pl": pl,
	}}
}

func runSendScenario(sc scSend) obj {
	us := randKey(newRand(seed*7 + int64(sc.ID)))
	var (
		mtx   sync.Mutex
		cur   *sendRun
		stray = &elog{} // calls for nobody
	)
	get := func(ctx context.Context, what string) *sendRun {
		mtx.Lock()
		defer mtx.Unlock()
		s, _ := ctx.Value(sendKey{}).(*sendRun)
		if s == nil && !sc.Par {
			// It can only be this one.
			s = cur
		}
		if s == nil || s.done {
			stray.add(obj{"e": "late", "r": what})
			return nil
		}
		return s
	}
	lnd := &fakeLnd{key: us}
	lnd.listPeers = func(ctx context.Context) ([]lndclient.Peer, error) {
		if s := get(ctx, "list"); s != nil {
			return s.listPeers(ctx)
		}
		return nil, errFake
	}
	lnd.nodeInfo = func(ctx context.Context, v route.Vertex, ch bool) (
		*lndclient.NodeInfo, error) {

		if s := get(ctx, "info"); s != nil {
			return s.nodeInfo(ctx, v, ch)
		}
		return nil, errFake
	}
	lnd.connect = func(ctx context.Context, v route.Vertex, h string,
		p bool) error {

		if s := get(ctx, "conn"); s != nil {
			return s.connect(ctx, v, h, p)
		}
		return errFake
	}
	lnd.queryRoutes = func(ctx context.Context,
		q lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse,
		error) {

		if s := get(ctx, "query"); s != nil {
			return s.queryRoutes(ctx, q)
		}
		return nil, errFake
	}
	lnd.send = func(ctx context.Context, m lndclient.CustomMessage) error {
		if s := get(ctx, "wire"); s != nil {
			return s.send(ctx, m)
		}
		return errFake
	}
	srv := newServer(nil)
	must(srv.Start(lnd.services()))
	var few []*btcec.PrivateKey
	for i := 0; i < sc.Few; i++ {
		few = append(few, randKey(newRand(seed*11+int64(sc.ID*100+i))))
	}
	runs := make([]*sendRun, len(sc.Sends))
	for i, c := range sc.Sends {
		s := &sendRun{
			sc: c, log: &elog{}, n: map[string]int{}, us: us,
			r: newRand(seed*1000003 + int64(sc.ID)*101 + int64(i)),
		}
		var prev *sendRun
		if i > 0 {
			prev = runs[i-1]
		}
		s.prepare(few, prev)
		s.ctx, s.cancel = context.WithCancel(context.WithValue(
			context.Background(), sendKey{}, s,
		))
		runs[i] = s
	}
	one := func(i int) bool {
		s := runs[i]
		mtx.Lock()
		cur = s
		mtx.Unlock()
		s.t0 = time.Now()
		s.log.add(s.event())
		if s.sc.Pre {
			s.log.add(obj{"e": "cancel"})
			s.cancel()
		}
		// A call that doesn't end leaves the trace without its end.
		ended := within(40*time.Second, func() {
			var err error
			p := guarded(func() {
				_, err = srv.SendOnionMessage(s.ctx, s.req)
			})
			r := p
			if p == "" {
				r = status.Code(err).String()
			}
			mtx.Lock()
			s.done = true
			mtx.Unlock()
			s.log.add(obj{"e": "ret", "r": r})
		})
		s.cancel()
		return ended
	}
	if sc.Par {
		parallel(len(runs), len(runs), func(i int) { one(i) })
	} else {
		for i := range runs {
			if !one(i) {
				break
			}
		}
	}
	srv.Stop()
	// What is done for one has nothing to do with the others: put together,
	// it is what happens when they come one after the other.
	ev := []obj{}
	for _, s := range runs {
		k := s.log.snapshot()
		ev = append(ev, k...)
		if len(k) == 0 || k[len(k)-1]["e"] != "ret" {
			break
		}
	}
	ev = append(ev, stray.snapshot()...)
	ev = append(ev, obj{"e": "end"})
	return obj{"id": sc.ID, "ev": ev}
}

func runSend(in string) {
	var scs []scSend
	readLines(in, func(b []byte) {
		var sc scSend
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runSendScenario(scs[i]))
	})
}
