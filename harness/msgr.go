package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() { modes["msgr"] = runMsgr }

// Abstract message of a scenario.
type scMsg struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"` // ours, fwd, drop, replay
	Sub  string `json:"sub"`
	Pl   []int  `json:"pl"`   // ranks of the final payload types
	Em   []int  `json:"em"`   // ranks whose value is empty
	Rp   bool   `json:"rp"`   // reply path present
	Ed   bool   `json:"ed"`   // encrypted data present (ours)
	Ov   bool   `json:"ov"`   // blinding override present (fwd)
	Of   int    `json:"of"`   // replayed / corrupted message
	Herr []int  `json:"herr"` // auto mode: ranks whose handler fails
	Rerr bool   `json:"rerr"` // auto mode: relaying fails
	Slow int    `json:"slow"` // ms that lnd takes for each call (ours, fwd)
}

type scStep struct {
	A  string `json:"a"` // call, msg, fail, rel, hold (m: ms), quiet
	Op string `json:"op"`
	C  int    `json:"c"`
	T  int    `json:"t"`
	M  int    `json:"m"`
	K  string `json:"k"`
	R  string `json:"r"`
	// Err is the number of the error that the stream fails with.
	Err int `json:"err"`
	// Seq: a call that has to return before the next step.
	Seq bool `json:"seq"`
}

type scMsgr struct {
	ID      int      `json:"id"`
	Msgs    []scMsg  `json:"msgs"`
	Sched   []scStep `json:"sched"`
	SubFail bool     `json:"subfail"`
	Auto    bool     `json:"auto"`
	Fam     string   `json:"fam"`
	Ranks   int      `json:"ranks"` // how many types there are, 4 if zero
}

// typePool are the concrete final payload types that ranks are mapped to.
var typePool = []uint64{
	64, 65, 66, 67, 68, 70, 71, 100, 127, 128, 200, 252, 253, 254, 255, 256,
	1000, 65535, 65536, 1 << 20, 0xffffffff, 1 << 32, 1 << 40, 1 << 63,
	0xfffffffffffffffe, 0xffffffffffffffff,
}

var lowPool = []uint64{0, 1, 2, 3, 4, 5, 6, 8, 10, 31, 32, 33, 61, 62, 63}

// concreteTypes picks k ascending types, with a preference for the types that
// the code has special knowledge of.
func concreteTypes(r *rand.Rand, k int) []uint64 {
	alike := 1 + 8*r.Intn(2)
	for {
		set := map[uint64]bool{}
		for len(set) < k {
			if len(set) > 0 && r.Intn(10) < alike {
				// One that is the same in fewer bits.
				min := uint64(math.MaxUint64)
				for t := range set {
					if t < min {
						min = t
					}
				}
				min ^= 1 << []uint{0, 1, 8, 16, 31, 32, 63}[r.Intn(7)]
				if min >= 64 {
					set[min] = true
				}
			} else if r.Intn(3) == 0 {
				set[typePool[r.Intn(5)]] = true
			} else if r.Intn(4) == 0 {
				set[64+uint64(r.Intn(2000))] = true
			} else {
				set[typePool[r.Intn(len(typePool))]] = true
			}
		}
		var out []uint64
		for t := range set {
			out = append(out, t)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
}

// builtMsg is a message ready to be handed over, with what to expect of it.
type builtMsg struct {
	wire     lndclient.CustomMessage
	abs      obj
	next     []byte // fwd: peeled onion
	derived  *btcec.PublicKey
	override *btcec.PublicKey
	onion    int
}

// sharedVal and sharedPath are contents of messages with their names.
type sharedVal struct {
	v   []byte
	tag string
}

type sharedPath struct {
	p   *rpath
	tag string
}

// msgFactory builds the messages of one scenario.
type msgFactory struct {
	r     *rand.Rand
	us    *btcec.PrivateKey
	types []uint64 // rank-1 -> type
	built map[int]*builtMsg
	defs  map[int]scMsg
	tags  map[string]string // concrete bytes -> tag
	peers map[route.Vertex]string
	// pool are the nodes around us, most messages come from and go to.
	pool []*btcec.PublicKey
	// deaf are the points that the signer of our lnd fails for.
	deaf map[string]bool
	slow map[string]int // ms that it takes for others
	// share says how much (of 100) of messages is as in earlier ones.
	share  int
	vals   map[int][]sharedVal // by rank
	rps    []sharedPath
	eds    []sharedVal
	blinds []*btcec.PrivateKey
	fresh  bool
	// touch tells that something is going on.
	touch func()
}

func newFactory(r *rand.Rand, us *btcec.PrivateKey, defs []scMsg,
	k int) *msgFactory {

	f := &msgFactory{
		r: r, us: us, types: concreteTypes(r, k),
		built: map[int]*builtMsg{}, defs: map[int]scMsg{},
		tags: map[string]string{}, peers: map[route.Vertex]string{},
	}
	f.deaf, f.slow = map[string]bool{}, map[string]int{}
	f.vals = map[int][]sharedVal{}
	f.share = []int{0, 0, 10, 40}[r.Intn(4)]
	for i, last := []int{1, 2, 3, 6}[r.Intn(4)], us; i > 0; i-- {
		// Some nodes have one coordinate in common, perhaps with us.
		if r.Intn(3) == 0 {
			last = negated(last)
		} else {
			last = randKey(r)
		}
		k := last.PubKey()
		if _, ok := f.peers[vertex(k)]; ok ||
			k.IsEqual(us.PubKey()) {

			last = randKey(r)
			k = last.PubKey()
		}
		f.pool = append(f.pool, k)
		f.peers[vertex(k)] = fmt.Sprintf("P%d", i)
	}
	f.peers[vertex(us.PubKey())] = "us"
	for _, d := range defs {
		f.defs[d.ID] = d
	}
	for _, d := range defs {
		f.get(d.ID)
	}
	return f
}

// takeTime returns whether the caller was patient.
func (f *msgFactory) takeTime(ctx context.Context, ms int) bool {
	for ; ms > 0; ms -= 5 {
		f.touch()
		select {
		case <-ctx.Done():
			return false
		case <-time.After(5 * time.Millisecond):
		}
	}
	return true
}

// ecdhFails says whether lnd fails to tell the secret that we share with p.
func (f *msgFactory) ecdhFails(ctx context.Context, p *btcec.PublicKey) error {
	k := string(p.SerializeCompressed())
	if f.deaf[k] {
		return anyErr(f.r)
	}
	if !f.takeTime(ctx, f.slow[k]) {
		return ctx.Err()
	}
	return nil
}

func (f *msgFactory) typ(rank int) uint64 {
	if rank <= 0 {
		return lowPool[f.r.Intn(len(lowPool))]
	}
	return f.types[rank-1]
}

func (f *msgFactory) tag(b []byte) string {
	if len(b) == 0 {
		return "empty"
	}
	if t, ok := f.tags[string(b)]; ok {
		return t
	}
	return "?"
}

func (f *msgFactory) pathTag(p *lnwire.ReplyPath) string {
	if p == nil {
		return "none"
	}
	rp := &rpath{first: p.FirstNodeID, blinding: p.BlindingPoint}
	for _, h := range p.Hops {
		if h == nil || h.BlindedNodeID == nil {
			return "?"
		}
		rp.ids = append(rp.ids, h.BlindedNodeID)
		rp.data = append(rp.data, h.EncryptedData)
	}
	if rp.first == nil || rp.blinding == nil {
		return "?"
	}
	return f.tag(rp.encode())
}

func contains(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func (f *msgFactory) get(id int) *builtMsg {
	if b, ok := f.built[id]; ok {
		return b
	}
	d := f.defs[id]
	// What lnd does about a message is told by its blinding point.
	f.fresh = d.Slow != 0 || d.Kind == "drop"
	b := f.build(d)
	if d.Slow != 0 {
		f.slow[string(b.wire.Data[:33])] = d.Slow
	}
	f.built[id] = b
	b.abs["id"] = id
	b.abs["on"] = b.onion
	return b
}

func (f *msgFactory) peer() route.Vertex {
	return vertex(f.node())
}

// node is one of the nodes around us, or some other.
func (f *msgFactory) node() *btcec.PublicKey {
	if f.r.Intn(4) == 0 {
		return randKey(f.r).PubKey()
	}
	return f.pool[f.r.Intn(len(f.pool))]
}

func (f *msgFactory) build(d scMsg) *builtMsg {
	switch d.Kind {
	case "ours":
		return f.buildOurs(d)
	case "fwd":
		return f.buildFwd(d)
	case "replay":
		o := f.get(d.Of)
		c := *o
		c.abs = obj{}
		for k, v := range o.abs {
			c.abs[k] = v
		}
		// Possibly from another peer.
		c.wire.Data = append([]byte{}, o.wire.Data...)
		if f.r.Intn(2) == 0 {
			c.wire.Peer = f.peer()
		}
		return &c
	case "drop":
		b := f.buildDrop(d)
		b.onion = d.ID
		b.abs = obj{"kind": "drop", "pl": []obj{}, "rp": "none",
			"ed": "none", "to": "", "bl": ""}
		return b
	}
	fatal("unknown message kind %v", d.Kind)
	return nil
}

// ourRecords creates the payload records of a message for us.
func (f *msgFactory) ourRecords(d scMsg) ([]tlvRec, obj) {
	var recs []tlvRec
	abs := obj{"kind": "ours", "rp": "none", "ed": "none", "to": "",
		"bl": ""}
	// Now and then something takes most of the space that there is.
	big := f.r.Intn(20) == 0 && len(d.Pl) <= 2
	if d.Rp {
		rp, tag := f.replyPath(fmt.Sprintf("r%d", d.ID), big)
		abs["rp"] = tag
		recs = append(recs, tlvRec{2, rp.encode()})
	}
	if d.Ed {
		ed := randBytes(f.r, 1+f.r.Intn(60))
		ed = append(ed, byte(d.ID>>8), byte(d.ID))
		s := sharedVal{ed, fmt.Sprintf("e%d", d.ID)}
		if len(f.eds) > 0 && f.r.Intn(100) < f.share {
			s = f.eds[f.r.Intn(len(f.eds))]
		}
		f.eds = append(f.eds, s)
		abs["ed"] = s.tag
		f.tags[string(s.v)] = s.tag
		recs = append(recs, tlvRec{4, s.v})
	}
	// Records below the final payload range that nobody knows.
	if f.r.Intn(3) == 0 {
		recs = append(recs, tlvRec{
			[]uint64{1, 3, 5, 7, 31, 61, 63}[f.r.Intn(7)],
			randBytes(f.r, f.r.Intn(5)),
		})
	}
	ranks, size := append([]int{}, d.Pl...), 0
	sort.Ints(ranks)
	pl := []obj{}
	for _, rank := range ranks {
		var v []byte
		tag := "empty"
		if !contains(d.Em, rank) {
			n := 1 + f.r.Intn(40)
			if f.r.Intn(10) == 0 {
				n = 200 + f.r.Intn(100)
			}
			if big && !d.Rp && size == 0 {
				n = 300 + f.r.Intn(820)
			} else if big || len(ranks) > 5 || size > 500 {
				// There has to be space for all of them.
				n = 1 + n%15
			}
			v = append(randBytes(f.r, n), byte(d.ID>>8), byte(d.ID),
				byte(rank))
			tag = fmt.Sprintf("v%d.%d", d.ID, rank)
			if k := f.vals[rank]; rank > 0 && len(k) > 0 && !big &&
				len(ranks) <= 5 && size <= 500 &&
				f.r.Intn(100) < f.share {

				s := k[f.r.Intn(len(k))]
				v, tag = s.v, s.tag
			}
			if !big {
				f.vals[rank] = append(
					f.vals[rank], sharedVal{v, tag},
				)
			}
			f.tags[string(v)] = tag
			size += len(v)
		}
		recs = append(recs, tlvRec{f.typ(rank), v})
		pl = append(pl, obj{"t": rank, "v": tag})
	}
	abs["pl"] = pl
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].t < recs[j].t })
	return recs, abs
}

// replyPath creates a reply path, possibly one that is the same as an earlier
// one, or the same but for one thing.
func (f *msgFactory) replyPath(tag string, big bool) (*rpath, string) {
	if big {
		p := randPath(f.r, 4+f.r.Intn(14), 8)
		f.tags[string(p.encode())] = tag
		return p, tag
	}
	p := randPath(f.r, 1+f.r.Intn(3), 60)
	if len(f.rps) > 0 && f.r.Intn(100) < f.share {
		o := f.rps[f.r.Intn(len(f.rps))]
		c := rpath{first: o.p.first, blinding: o.p.blinding}
		for i := range o.p.ids {
			c.ids = append(c.ids, o.p.ids[i])
			c.data = append(c.data, append([]byte{}, o.p.data[i]...))
		}
		i := f.r.Intn(len(c.ids))
		switch f.r.Intn(7) {
		case 0:
			c.first = p.first
		case 1:
			c.blinding = p.blinding
		case 2:
			c.ids[i] = p.ids[0]
		case 3:
			c.data[i] = append(c.data[i], 1)
		case 4:
			if len(c.data[i]) > 0 {
				c.data[i][len(c.data[i])-1]++
			}
		case 5:
			c.ids = append(c.ids, p.ids[0])
			c.data = append(c.data, p.data[0])
		}
		p = &c
	}
	enc := string(p.encode())
	if t, ok := f.tags[enc]; ok {
		tag = t
	}
	f.tags[enc] = tag
	f.rps = append(f.rps, sharedPath{p, tag})
	return p, tag
}

// blindKey is the key that a route to us is blinded with. Messages along the
// same route have the same.
func (f *msgFactory) blindKey() *btcec.PrivateKey {
	if f.fresh || len(f.blinds) == 0 || f.r.Intn(100) >= f.share {
		k := randKey(f.r)
		if !f.fresh {
			f.blinds = append(f.blinds, k)
		}
		return k
	}
	return f.blinds[f.r.Intn(len(f.blinds))]
}

// finalFor wraps a payload in an onion in which node is the last hop.
func (f *msgFactory) finalFor(node *btcec.PublicKey, payload []byte) []byte {
	bk := f.blindKey()
	p := blind(bk, []*btcec.PublicKey{node}, [][]byte{nil})
	onion, err := buildOnion(randKey(f.r), []onionHop{
		{p.BlindedHops[0], payload},
	})
	must(err)
	return onionMsg(bk.PubKey(), onion)
}

func (f *msgFactory) onionWire(data []byte) lndclient.CustomMessage {
	return lndclient.CustomMessage{
		Peer: f.peer(), MsgType: 513, Data: data,
	}
}

func (f *msgFactory) buildOurs(d scMsg) *builtMsg {
	recs, abs := f.ourRecords(d)
	payload := tlvStream(recs)
	if len(payload) == 0 {
		// A zero length payload isn't a TLV payload in sphinx.
		payload = tlvStream([]tlvRec{{1, nil}})
	}
	return &builtMsg{
		wire: f.onionWire(f.finalFor(f.us.PubKey(), payload)),
		abs:  abs, onion: d.ID,
	}
}

// fwdParts creates an onion with us as intermediate hop. data is the plain
// text of our encrypted blob, extra are more records for our payload.
func (f *msgFactory) fwdParts(next *btcec.PublicKey, data []byte,
	edit func(recs []tlvRec) []tlvRec) []byte {

	bk := f.blindKey()
	nodes := []*btcec.PublicKey{f.us.PubKey(), next}
	blobs := [][]byte{data, nil}
	if f.r.Intn(2) == 0 {
		// One more node behind the next one.
		nodes = append(nodes, randKey(f.r).PubKey())
		blobs = append(blobs, nil)
	}
	p := blind(bk, nodes, blobs)
	recs := []tlvRec{{4, p.EncryptedData[0]}}
	if edit != nil {
		recs = edit(recs)
	}
	hops := []onionHop{{p.BlindedHops[0], tlvStream(recs)}}
	for i := 1; i < len(nodes); i++ {
		hops = append(hops, onionHop{
			p.BlindedHops[i], tlvStream([]tlvRec{
				{4, randBytes(f.r, 30)},
				{65, randBytes(f.r, 4)},
			}),
		})
	}
	if len(hops[0].payload) == 0 {
		hops[0].payload = tlvStream([]tlvRec{{1, nil}})
	}
	onion, err := buildOnion(randKey(f.r), hops)
	must(err)
	return onionMsg(bk.PubKey(), onion)
}

func (f *msgFactory) buildFwd(d scMsg) *builtMsg {
	next := f.node()
	if f.r.Intn(12) == 0 {
		// The next node may be us.
		next = f.us.PubKey()
	}
	recs := []tlvRec{{4, next.SerializeCompressed()}}
	b := &builtMsg{onion: d.ID}
	bl := "derived"
	if d.Ov {
		b.override = randKey(f.r).PubKey()
		switch f.r.Intn(8) {
		case 0:
			b.override = next
		case 1:
			b.override = f.us.PubKey()
		}
		recs = append(recs, tlvRec{8, b.override.SerializeCompressed()})
		bl = "override"
	}
	// Unknown odd records and padding don't matter.
	if f.r.Intn(3) == 0 {
		n := f.r.Intn(20)
		if f.r.Intn(3) == 0 {
			n = f.r.Intn(750)
		}
		recs = append([]tlvRec{{1, make([]byte, n)}}, recs...)
	}
	if f.r.Intn(3) == 0 {
		recs = append(recs, tlvRec{
			[]uint64{9, 15, 65, 101}[f.r.Intn(4)],
			randBytes(f.r, f.r.Intn(6)),
		})
	}
	// Neither does what our payload has besides the encrypted data, as
	// long as it is nothing for a final hop.
	edit := func(x []tlvRec) []tlvRec {
		switch f.r.Intn(6) {
		case 0:
			x = append([]tlvRec{
				{2, randPath(f.r, 1+f.r.Intn(2), 20).encode()},
			}, x...)
		case 1:
			x = append(x, tlvRec{
				[]uint64{5, 7, 31, 61, 63}[f.r.Intn(5)],
				randBytes(f.r, f.r.Intn(8)),
			})
		case 2:
			x = append([]tlvRec{
				{[]uint64{1, 3}[f.r.Intn(2)], randBytes(f.r, f.r.Intn(8))},
			}, x...)
		}
		return x
	}
	wire := f.fwdParts(next, tlvStream(recs), edit)
	_, nextOnion, derived, err := peel(f.us, wire)
	must(err)
	b.wire = f.onionWire(wire)
	b.next = nextOnion
	b.derived = derived
	if f.peers[vertex(next)] == "" {
		f.peers[vertex(next)] = fmt.Sprintf("X%d", d.ID)
	}
	to := f.peers[vertex(next)]
	if f.r.Intn(4) == 0 {
		// It comes from where it goes to.
		b.wire.Peer = vertex(next)
	}
	b.abs = obj{"kind": "fwd", "pl": []obj{}, "rp": "none", "ed": "none",
		"to": to, "bl": bl}
	return b
}

// dropSubs are the kinds of messages that must have no effect.
var dropSubs = []string{
	"othertype", "empty", "random", "trunc", "flip", "notforus",
	"tlvtrunc", "tlvorder", "tlvdup", "tlvbig", "rpzero", "rpkey", "rpshort",
	"rplong", "fwdfinal", "fwdnoenc", "fwdundec", "fwdshortenc",
	"fwdnonext", "fwdonlyov", "fwdbadtlv", "fwdbadpoint", "fwdshortpoint",
	"badblind", "badversion", "longlen", "hmac", "ecdh", "fwdecdh", "notours",
}

func (f *msgFactory) someRanks() []int {
	var out []int
	for i := range f.types {
		if f.r.Intn(2) == 0 {
			out = append(out, i+1)
		}
	}
	if len(out) == 0 {
		out = []int{1 + f.r.Intn(len(f.types))}
	}
	return out
}

// validOurs creates a valid message for us that isn't otherwise used.
func (f *msgFactory) validOurs() []byte {
	recs, _ := f.ourRecords(scMsg{
		ID: 9000, Pl: f.someRanks(), Rp: f.r.Intn(2) == 0, Ed: true,
	})
	return f.finalFor(f.us.PubKey(), tlvStream(recs))
}

func (f *msgFactory) junkFinals() []tlvRec {
	var recs []tlvRec
	for _, rank := range f.someRanks() {
		recs = append(recs, tlvRec{f.types[rank-1], randBytes(f.r, 6)})
	}
	return recs
}

func (f *msgFactory) buildDrop(d scMsg) *builtMsg {
	sub := d.Sub
	if sub == "" {
		sub = dropSubs[f.r.Intn(len(dropSubs))]
	}
	r := f.r
	us := f.us.PubKey()
	wire := lndclient.CustomMessage{Peer: f.peer(), MsgType: 513}
	next := f.node()
	nextData := tlvStream([]tlvRec{{4, next.SerializeCompressed()}})
	switch sub {
	case "othertype":
		if r.Intn(2) == 0 {
			wire.Data = f.validOurs()
		} else {
			wire.Data = f.fwdParts(next, nextData, nil)
		}
		wire.MsgType = []uint32{0, 1, 257, 512, 514, 515, 32768, 32769,
			65535, 513 + 65536}[r.Intn(10)]
	case "empty":
	case "random":
		wire.Data = randBytes(r, r.Intn(1600))
	case "trunc":
		wire.Data = f.validOurs()
		wire.Data = wire.Data[:r.Intn(len(wire.Data))]
	case "flip":
		if r.Intn(2) == 0 {
			wire.Data = f.validOurs()
		} else {
			wire.Data = f.fwdParts(next, nextData, nil)
		}
		i := r.Intn(len(wire.Data))
		wire.Data[i] ^= 1 << uint(r.Intn(8))
	case "corrupt":
		// A damaged copy of another message of the scenario.
		o := f.get(d.Of)
		wire.Data = append([]byte{}, o.wire.Data...)
		switch r.Intn(6) {
		case 0:
			// The negative of its blinding point.
			wire.Data[0] ^= 1
		case 1:
			// The negative of the onion's ephemeral key.
			wire.Data[36] ^= 1
		default:
			i := 35 + 34 + r.Intn(len(wire.Data)-35-34)
			wire.Data[i] ^= 1 << uint(r.Intn(8))
		}
	case "wrongtype":
		// Another message of the scenario, with a different type.
		o := f.get(d.Of)
		wire.Data = append([]byte{}, o.wire.Data...)
		wire.MsgType = []uint32{512, 514, 32769}[r.Intn(3)]
	case "notforus", "notours":
		recs := f.junkFinals()
		wire.Data = f.finalFor(randKey(r).PubKey(), tlvStream(recs))
	case "tlvtrunc":
		b := tlvStream(f.junkFinals())
		wire.Data = f.finalFor(us, b[:len(b)-1-r.Intn(3)])
	case "tlvorder":
		recs := []tlvRec{{f.types[len(f.types)-1], []byte{1}},
			{f.types[0], []byte{2}}}
		if len(f.types) == 1 {
			recs[1].t = 5
		}
		wire.Data = f.finalFor(us, tlvStream(recs))
	case "tlvdup":
		t := f.types[r.Intn(len(f.types))]
		wire.Data = f.finalFor(us, tlvStream(
			[]tlvRec{{t, []byte{1}}, {t, []byte{2}}},
		))
	case "tlvbig":
		// A record that claims to be much longer than it is.
		b := tlvStream(f.junkFinals())
		b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
		switch r.Intn(3) {
		case 0:
			b = append(b, 0xfd, 0xff, 0xff)
		case 1:
			b = append(b, 0xfe, 0xff, 0xff, 0xff, 0xff)
		default:
			b = append(b, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
		}
		wire.Data = f.finalFor(us, b)
	case "rpzero", "rpkey", "rpshort", "rplong":
		enc := randPath(r, 1+r.Intn(2), 20).encode()
		switch sub {
		case "rpzero":
			enc = enc[:67]
			enc[66] = 0
		case "rpkey":
			enc[[]int{0, 33, 67}[r.Intn(3)]] = 5
		case "rpshort":
			enc = enc[:r.Intn(len(enc))]
		case "rplong":
			enc = append(enc, randBytes(r, 1+r.Intn(9))...)
		}
		recs := append([]tlvRec{{2, enc}}, f.junkFinals()...)
		wire.Data = f.finalFor(us, tlvStream(recs))
	case "fwdfinal":
		k := r.Intn(5)
		wire.Data = f.fwdParts(next, nextData, func(x []tlvRec) []tlvRec {
			fin := f.junkFinals()
			for i := range fin {
				// Empty ones count as well.
				if k == 0 || k == 1 && i == 0 || k == 2 && i > 0 {
					fin[i].v = nil
				}
			}
			return append(x, fin...)
		})
	case "fwdnoenc":
		wire.Data = f.fwdParts(next, nextData, func([]tlvRec) []tlvRec {
			if r.Intn(2) == 0 {
				return []tlvRec{{4, nil}}
			}
			return []tlvRec{{5, []byte{1}}}
		})
	case "fwdundec":
		wire.Data = f.fwdParts(next, nextData, func(x []tlvRec) []tlvRec {
			x[0].v[r.Intn(len(x[0].v))] ^= 1 << uint(r.Intn(8))
			return x
		})
	case "fwdshortenc":
		wire.Data = f.fwdParts(next, nextData, func(x []tlvRec) []tlvRec {
			x[0].v = randBytes(r, 1+r.Intn(16))
			return x
		})
	case "fwdnonext":
		data := tlvStream(nil)
		if r.Intn(2) == 0 {
			data = tlvStream([]tlvRec{{1, make([]byte, 5)}})
		}
		wire.Data = f.fwdParts(next, data, nil)
	case "fwdonlyov":
		wire.Data = f.fwdParts(next, tlvStream([]tlvRec{
			{8, next.SerializeCompressed()},
		}), nil)
	case "fwdbadtlv":
		data := append([]byte{}, nextData...)
		if r.Intn(2) == 0 {
			data = data[:len(data)-1-r.Intn(5)]
		} else {
			data = append(data, 9, 50, 1)
		}
		wire.Data = f.fwdParts(next, data, nil)
	case "fwdbadpoint":
		k := next.SerializeCompressed()
		k[0] = 7
		wire.Data = f.fwdParts(next, tlvStream([]tlvRec{{4, k}}), nil)
	case "fwdshortpoint":
		k := next.SerializeCompressed()
		wire.Data = f.fwdParts(next, tlvStream([]tlvRec{{4, k[:32]}}), nil)
	case "badblind":
		wire.Data = f.validOurs()
		switch r.Intn(2) {
		case 0:
			wire.Data[0] = 4
		default:
			copy(wire.Data[1:33], bytes.Repeat([]byte{0xff}, 32))
		}
	case "badversion":
		wire.Data = f.validOurs()
		wire.Data[35] = byte(1 + r.Intn(255))
	case "longlen":
		wire.Data = f.validOurs()
		wire.Data[33], wire.Data[34] = 0xff, 0xff
	case "ecdh", "fwdecdh":
		// lnd can't tell the shared secret.
		if sub == "ecdh" {
			wire.Data = f.validOurs()
		} else {
			wire.Data = f.fwdParts(next, nextData, nil)
		}
		f.deaf[string(wire.Data[:33])] = true
	case "hmac":
		wire.Data = f.validOurs()
		wire.Data[len(wire.Data)-1] ^= 1
	default:
		fatal("unknown drop kind %v", sub)
	}
	return &builtMsg{wire: wire}
}

// ---------------------------------------------------------------------------
// Running a scenario against a Messenger.

func (l *fakeMsgrLnd) GetInfo(context.Context) (*lndclient.Info, error) {
	return &lndclient.Info{
		IdentityPubkey: vertex(l.run.f.us.PubKey()), Network: "regtest",
	}, nil
}

type fakeMsgrLnd struct {
	onionmsg.LndOnionMsg
	run *msgrRun
}

type msgrRun struct {
	sc              scMsgr
	log             *elog
	f               *msgFactory
	str             *stream
	m               *onionmsg.Messenger
	tokens          chan string
	ncalls, nstarts atomic.Int32
	open            chan struct{} // closed: everything returns at once
}

func (l *fakeMsgrLnd) SubscribeCustomMessages(ctx context.Context) (
	<-chan lndclient.CustomMessage, <-chan error, error) {

	if l.run.sc.SubFail {
		l.run.log.add(obj{"e": "sub", "r": "err"})
		return nil, nil, anyErr(l.run.f.r)
	}
	l.run.log.add(obj{"e": "sub", "r": "ok"})
	m, e := l.run.str.run(ctx)
	return m, e, nil
}

func (l *fakeMsgrLnd) SendCustomMessage(ctx context.Context,
	msg lndclient.CustomMessage) error {

	ev, on := l.run.f.classify(msg)
	ev["e"] = "fwd"
	l.run.log.add(ev)
	res := l.run.wait(func() string {
		if l.run.f.defs[on].Rerr {
			return "err"
		}
		return "ok"
	})
	if !l.run.f.takeTime(ctx, l.run.f.defs[on].Slow) {
		l.run.log.add(obj{"e": "fwdret", "r": "gone"})
		return ctx.Err()
	}
	l.run.log.add(obj{"e": "fwdret", "r": res})
	if res == "err" {
		return anyErr(l.run.f.r)
	}
	return nil
}

// classify finds out what message was handed to lnd.
func (f *msgFactory) classify(msg lndclient.CustomMessage) (obj, int) {
	ev := obj{"to": "?", "m": 0, "bl": "?", "ty": msg.MsgType == 513}
	if n, ok := f.peers[msg.Peer]; ok {
		ev["to"] = n
	}
	if len(msg.Data) < 35 {
		return ev, 0
	}
	point, onion := msg.Data[:33], msg.Data[35:]
	l := int(msg.Data[33])<<8 | int(msg.Data[34])
	if l != len(onion) {
		return ev, 0
	}
	for _, b := range f.built {
		if b.next == nil || !bytes.Equal(b.next, onion) {
			continue
		}
		ev["m"] = b.onion
		switch {
		case bytes.Equal(b.derived.SerializeCompressed(), point):
			ev["bl"] = "derived"
		case b.override != nil && bytes.Equal(
			b.override.SerializeCompressed(), point,
		):
			ev["bl"] = "override"
		}
		return ev, b.onion
	}
	return ev, 0
}

// wait blocks a handler or relay until the schedule lets it go on.
func (m *msgrRun) wait(auto func() string) string {
	if m.sc.Auto {
		return auto()
	}
	select {
	case r := <-m.tokens:
		return r
	case <-m.open:
		return "ok"
	}
}

func (m *msgrRun) handler(c, rank int) onionmsg.OnionMessageHandler {
	return func(rp *lnwire.ReplyPath, ed, v []byte) error {
		edTag := "none"
		if len(ed) != 0 {
			edTag = m.f.tag(ed)
		}
		vTag := m.f.tag(v)
		m.log.add(obj{"e": "hin", "h": c, "t": rank, "v": vTag,
			"rp": m.f.pathTag(rp), "ed": edTag})
		res := m.wait(func() string {
			var id, rk int
			if _, err := fmt.Sscanf(vTag, "v%d.%d", &id, &rk); err == nil {
				if contains(m.f.defs[id].Herr, rk) {
					return "err"
				}
			}
			return "ok"
		})
		m.log.add(obj{"e": "hout", "r": res})
		if res == "err" {
			// The loop must not mistake our errors for its own.
			switch m.f.r.Intn(4) {
			case 0:
				return onionmsg.ErrShuttingDown
			case 1:
				return fmt.Errorf("x: %w", onionmsg.ErrLNDShutdown)
			}
			return anyErr(m.f.r)
		}
		return nil
	}
}

func (m *msgrRun) call(st scStep, typ uint64) {
	var err error
	p := guarded(func() {
		switch st.Op {
		case "start":
			err = m.m.Start()
		case "stop":
			err = m.m.Stop()
		case "reg":
			err = m.m.RegisterHandler(
				tlv.Type(typ), m.handler(st.C, st.T),
			)
		case "dereg":
			err = m.m.DeregisterHandler(tlv.Type(typ))
		}
	})
	r := "err"
	switch {
	case p != "":
		r = p
	case err == nil:
		r = "ok"
	case st.Op == "start" || st.Op == "stop":
	case errors.Is(err, onionmsg.ErrNotStarted):
		r = "notstarted"
	case errors.Is(err, onionmsg.ErrShuttingDown):
		r = "shut"
	case errors.Is(err, onionmsg.ErrHandlerRegistered):
		r = "dup"
	case errors.Is(err, onionmsg.ErrHandlerNotFound):
		r = "notfound"
	case errors.Is(err, lnwire.ErrNotFinalPayload):
		r = "range"
	}
	m.log.add(obj{"e": "ret", "c": st.C, "r": r})
	m.ncalls.Add(-1)
	if st.Op == "start" {
		m.nstarts.Add(-1)
	}
}

func (m *msgrRun) awaitStarts() {
	end := time.Now().Add(graceTime)
	for m.nstarts.Load() > 0 && time.Now().Before(end) {
		time.Sleep(time.Millisecond)
	}
}

const maxRank = 4

func runMsgrScenario(sc scMsgr) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	us := randKey(r)
	m := &msgrRun{
		sc: sc, log: &elog{}, tokens: make(chan string, 1000),
		open: make(chan struct{}),
	}
	ranks := maxRank
	if sc.Ranks != 0 {
		ranks = sc.Ranks
	}
	m.f = newFactory(r, us, sc.Msgs, ranks)
	m.f.touch = m.log.touch
	m.str = newStream(m.log, r)
	lnd := &fakeMsgrLnd{run: m}
	ecdh, err := onionmsg.NewNodeECDH(lnd, &fakeSigner{key: us, fail: m.f.ecdhFails})
	must(err)
	m.m = onionmsg.NewOnionMessenger(
		netParams, lnd, ecdh, func(err error) {
			m.log.add(obj{"e": "cb", "r": err != nil})
		},
	)
	quiet := func() {
		m.log.quiesce(quietTime)
		m.log.add(obj{"e": "quiet"})
	}
	started, stopped, failed, nextC := false, false, sc.SubFail, 1000
	for _, st := range sc.Sched {
		st := st
		switch st.A {
		case "call":
			if st.Op == "start" {
				started = true
			}
			if st.Op == "start" {
				m.nstarts.Add(1)
			}
			if st.Op == "stop" {
				// A stop isn't concurrent with a start.
				m.awaitStarts()
				stopped = true
			}
			typ := m.f.typ(st.T)
			m.log.add(obj{"e": "call", "c": st.C, "op": st.Op, "t": st.T})
			m.ncalls.Add(1)
			done := make(chan struct{})
			go func() {
				defer close(done)
				m.call(st, typ)
			}()
			if st.Seq {
				// The next step is after this one's end.
				select {
				case <-done:
				case <-time.After(graceTime):
				}
				continue
			}
			// Give the call a chance to get somewhere, in some of
			// the runs.
			if m.f.r.Intn(2) == 0 {
				time.Sleep(time.Duration(m.f.r.Intn(300)) *
					time.Microsecond)
			}
		case "msg":
			m.log.add(obj{"e": "offer", "m": st.M})
			m.str.offer(streamItem{msg: m.f.built[st.M].wire})
		case "fail":
			failed = true
			m.log.add(obj{"e": "fail"})
			k := st.K
			if k == "" || k == "any" {
				k = []string{"err", "errchan", "closemsg",
					"closeerr"}[m.f.r.Intn(4)]
			}
			m.str.offer(streamItem{fail: k, err: st.Err})
		case "rel":
			m.log.touch()
			m.tokens <- st.R
		case "hold":
			// What goes on stays as it is.
			m.log.hold(st.M)
		case "quiet":
			quiet()
		}
	}
	// Let everything go on, and stop in the end.
	close(m.open)
	m.log.settle(quietTime, graceTime, func() bool {
		return m.ncalls.Load() > 0 ||
			m.str.pending() && started && !stopped && !failed
	})
	quiet()
	if started && !stopped {
		m.awaitStarts()
		st := scStep{Op: "stop", C: nextC}
		m.log.add(obj{"e": "call", "c": st.C, "op": "stop", "t": 0})
		go m.call(st, 0)
		m.ncalls.Add(1)
		m.log.settle(quietTime, graceTime, func() bool {
			return m.ncalls.Load() > 0
		})
		quiet()
	}
	var msgs []obj
	for _, d := range sc.Msgs {
		msgs = append(msgs, m.f.built[d.ID].abs)
	}
	if msgs == nil {
		msgs = []obj{}
	}
	return obj{"id": sc.ID, "msgs": msgs, "ev": m.log.snapshot()}
}

func runMsgr(in string) {
	var scs []scMsgr
	readLines(in, func(b []byte) {
		var sc scMsgr
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	var mtx sync.Mutex
	running := map[int]bool{}
	parallel(len(scs), workers, func(i int) {
		mtx.Lock()
		running[scs[i].ID] = true
		mtx.Unlock()
		emit(obj{"begin": scs[i].ID})
		emit(runMsgrScenario(scs[i]))
		mtx.Lock()
		delete(running, scs[i].ID)
		mtx.Unlock()
	})
}
