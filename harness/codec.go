package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() { modes["codec"] = runCodec }

// What is encoded and decoded. Steps: payload, stream, data, msg.
type codecFinal struct {
	T uint64 `json:"t"`
	N int    `json:"n"`
}

type codecRec struct {
	T    uint64 `json:"t"`
	What string `json:"what"`
	N    int    `json:"n"`
	Bad  string `json:"bad"`
}

type codecStep struct {
	A      string       `json:"a"`
	Reply  []int        `json:"reply"` // sizes of the hops' data
	Enc    int          `json:"enc"`
	Finals []codecFinal `json:"finals"`
	Recs   []codecRec   `json:"recs"`
	Cuts   int          `json:"cuts"`
	Muts   int          `json:"muts"`
	N      int          `json:"n"`
	Next   bool         `json:"next"`
	Over   bool         `json:"over"`
	End    string       `json:"end"`
}

type scCodec struct {
	ID    int         `json:"id"`
	Steps []codecStep `json:"steps"`
}

// bytesName is how bytes read.
func bytesName(b []byte) string {
	if len(b) <= 40 {
		return hex.EncodeToString(b)
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:12])
}

func digits(t uint64) []int {
	return []int{
		int(t >> 48), int(t >> 32 & 0xffff), int(t >> 16 & 0xffff),
		int(t & 0xffff),
	}
}

func shortSize(b []byte, v uint64) []byte {
	switch {
	case v < 0xfd:
		return append(b, byte(v))
	case v <= 0xffff:
		return append(b, 0xfd, byte(v>>8), byte(v))
	case v <= 0xffffffff:
		b = append(b, 0xfe, 0, 0, 0, 0)
		binary.BigEndian.PutUint32(b[len(b)-4:], uint32(v))
	default:
		b = append(b, 0xff, 0, 0, 0, 0, 0, 0, 0, 0)
		binary.BigEndian.PutUint64(b[len(b)-8:], v)
	}
	return b
}

// longSize writes a number longer than necessary.
func longSize(b []byte, v uint64, r *rand.Rand) []byte {
	switch {
	case v < 0xfd && r.Intn(2) == 0:
		return append(b, 0xfd, 0, byte(v))
	case v <= 0xffff && r.Intn(2) == 0:
		return append(b, 0xfe, 0, 0, byte(v>>8), byte(v))
	case v <= 0xffffffff:
		b = append(b, 0xff, 0, 0, 0, 0, 0, 0, 0, 0)
		binary.BigEndian.PutUint64(b[len(b)-8:], v)
	default:
		b = shortSize(b, v)
	}
	return b
}

// strictSize returns the number, and "" or what is wrong.
func strictSize(b []byte) (v uint64, rest []byte, bad string) {
	if len(b) == 0 {
		return 0, nil, "short"
	}
	n := 0
	var least uint64
	switch b[0] {
	case 0xfd:
		n, least = 2, 0xfd
	case 0xfe:
		n, least = 4, 0x10000
	case 0xff:
		n, least = 8, 0x100000000
	default:
		return uint64(b[0]), b[1:], ""
	}
	if len(b) < 1+n {
		return 0, nil, "short"
	}
	for _, x := range b[1 : 1+n] {
		v = v<<8 | uint64(x)
	}
	if v < least {
		return 0, nil, "strange"
	}
	return v, b[1+n:], ""
}

func validKey(b []byte) bool {
	if len(b) != 33 {
		return false
	}
	_, err := btcec.ParsePubKey(b)
	return err == nil
}

// readPath reads a reply path, if that's what these bytes are.
func readPath(b []byte) []obj {
	if len(b) < 67 || !validKey(b[:33]) || !validKey(b[33:66]) {
		return []obj{}
	}
	p := obj{
		"first":    hex.EncodeToString(b[:33]),
		"blinding": hex.EncodeToString(b[33:66]),
	}
	n := int(b[66])
	b = b[67:]
	hops := []obj{}
	for i := 0; i < n; i++ {
		if len(b) < 35 || !validKey(b[:33]) {
			return []obj{}
		}
		l := int(b[33])<<8 | int(b[34])
		if len(b) < 35+l {
			return []obj{}
		}
		hops = append(hops, obj{
			"id":   hex.EncodeToString(b[:33]),
			"data": bytesName(b[35 : 35+l]), "n": l,
		})
		b = b[35+l:]
	}
	if len(b) > 0 {
		return []obj{}
	}
	p["hops"] = hops
	return []obj{p}
}

// readStream reads the records of a stream.
func readStream(b []byte) obj {
	recs, end := []obj{}, "clean"
	for len(b) > 0 {
		t, rest, bad := strictSize(b)
		if bad != "" {
			end = bad
			break
		}
		l, rest, bad := strictSize(rest)
		if bad != "" {
			end = bad
			break
		}
		if l > uint64(len(rest)) {
			end = "short"
			break
		}
		v := rest[:l]
		b = rest[l:]
		rec := obj{
			"t": digits(t), "v": bytesName(v), "n": len(v),
			"key": validKey(v), "reply": []obj{},
		}
		if t == 2 {
			rec["reply"] = readPath(v)
		}
		recs = append(recs, rec)
	}
	return obj{"recs": recs, "end": end}
}

func seenPath(p *lnwire.ReplyPath) []obj {
	if p == nil {
		return []obj{}
	}
	hops := []obj{}
	for _, h := range p.Hops {
		hops = append(hops, obj{
			"id": hex.EncodeToString(
				h.BlindedNodeID.SerializeCompressed(),
			),
			"data": bytesName(h.EncryptedData),
			"n":    len(h.EncryptedData),
		})
	}
	return []obj{{
		"first": hex.EncodeToString(p.FirstNodeID.SerializeCompressed()),
		"blinding": hex.EncodeToString(
			p.BlindingPoint.SerializeCompressed(),
		),
		"hops": hops,
	}}
}

type codecRun struct {
	r    *rand.Rand
	ev   []obj
	seen map[string]bool
}

// note adds an event, unless there is the same one already.
func (m *codecRun) note(e obj) {
	b, err := json.Marshal(e)
	must(err)
	if m.seen[string(b)] {
		return
	}
	m.seen[string(b)] = true
	m.ev = append(m.ev, e)
}

func (m *codecRun) decode(b []byte) {
	in := append([]byte{}, b...)
	res := []obj{}
	p := guarded(func() {
		o, err := lnwire.DecodeOnionMessagePayload(in)
		if err != nil {
			return
		}
		finals := []obj{}
		for _, f := range o.FinalHopPayloads {
			finals = append(finals, obj{
				"t": digits(uint64(f.TLVType)),
				"v": bytesName(f.Value),
			})
		}
		res = []obj{{
			"reply": seenPath(o.ReplyPath),
			"enc":   bytesName(o.EncryptedData), "finals": finals,
		}}
	})
	if p != "" {
		m.note(obj{"e": p})
		return
	}
	m.note(obj{"e": "decode", "s": readStream(b), "r": res})
}

func keyName(k *btcec.PublicKey) string {
	if k == nil {
		return ""
	}
	return hex.EncodeToString(k.SerializeCompressed())
}

func (m *codecRun) decodeData(b []byte) {
	in := append([]byte{}, b...)
	res := []obj{}
	p := guarded(func() {
		d, err := lnwire.DecodeBlindedRouteData(in)
		if err != nil {
			return
		}
		res = []obj{{
			"next":     keyName(d.NextNodeID),
			"override": keyName(d.NextBlindingOverride),
		}}
	})
	if p != "" {
		m.note(obj{"e": p})
		return
	}
	m.note(obj{"e": "decdata", "s": readStream(b), "r": res})
}

func readMessage(b []byte) obj {
	none := obj{"ok": false, "key": "", "onion": "", "rest": false}
	if len(b) < 35 || !validKey(b[:33]) {
		return none
	}
	l := int(b[33])<<8 | int(b[34])
	if len(b) < 35+l {
		return none
	}
	return obj{
		"ok": true, "key": hex.EncodeToString(b[:33]),
		"onion": bytesName(b[35 : 35+l]), "rest": len(b) > 35+l,
	}
}

func (m *codecRun) decodeMsg(b []byte) {
	in := append([]byte{}, b...)
	res := []obj{}
	p := guarded(func() {
		var o lnwire.OnionMessage
		if o.Decode(bytes.NewReader(in), 0) != nil {
			return
		}
		res = []obj{{
			"key":   keyName(o.BlindingPoint),
			"onion": bytesName(o.OnionBlob),
		}}
	})
	if p != "" {
		m.note(obj{"e": p})
		return
	}
	m.note(obj{"e": "decmsg", "s": readMessage(b), "r": res})
}

// around decodes b, parts of it, and what it may have become on the way.
func (m *codecRun) around(st codecStep, b []byte, dec func([]byte)) {
	dec(b)
	step := 1
	if st.Cuts > 0 && len(b) > st.Cuts {
		step = len(b)/st.Cuts + 1
	}
	if st.Cuts > 0 {
		for i := m.r.Intn(step); i < len(b); i += step {
			dec(b[:i])
		}
	}
	if recs, err := parseTLV(b); err == nil && st.Cuts > 0 && st.A != "msg" {
		// Parts of each record, as records of their own.
		for i := range recs {
			v := recs[i].v
			for l := 0; l <= len(v)+2; l += 1 + len(v)/(2*st.Cuts) {
				x := append([]byte{}, v...)
				for len(x) < l {
					x = append(x, byte(m.r.Intn(3)))
				}
				recs[i].v = x[:l]
				dec(tlvStream(recs))
			}
			recs[i].v = v
		}
	}
	r := m.r
	for i := 0; i < st.Muts; i++ {
		x := append([]byte{}, b...)
		for j := r.Intn(2); j >= 0; j-- {
			if len(x) == 0 {
				x = append(x, byte(r.Intn(256)))
				continue
			}
			k := r.Intn(len(x))
			if r.Intn(2) == 0 && k > 80 {
				k = r.Intn(80)
			}
			switch r.Intn(6) {
			case 0:
				x[k] ^= 1 << uint(r.Intn(8))
			case 1:
				x[k] = byte(r.Intn(256))
			case 2:
				x = append(x[:k:k], x[k+1:]...)
			case 3:
				x = append(append(x[:k:k], byte(r.Intn(256))), x[k:]...)
			case 4:
				l := k + r.Intn(len(x)-k)
				x = append(append([]byte{}, x[:l]...), x[k:]...)
			case 5:
				x[k]++
			}
		}
		dec(x)
	}
}

func (m *codecRun) key() *btcec.PublicKey { return randKey(m.r).PubKey() }

func (m *codecRun) value(n int) []byte {
	if n == 0 && m.r.Intn(2) == 0 {
		return nil
	}
	return randBytes(m.r, n)
}

func (m *codecRun) path(sizes []int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: m.key(), BlindingPoint: m.key()}
	for _, n := range sizes {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: m.key(), EncryptedData: m.value(n),
		})
	}
	return p
}

func (m *codecRun) payload(st codecStep) {
	o := &lnwire.OnionMessagePayload{EncryptedData: m.value(st.Enc)}
	if st.Reply != nil {
		o.ReplyPath = m.path(st.Reply)
	}
	finals := []obj{}
	for _, f := range st.Finals {
		v := m.value(f.N)
		o.FinalHopPayloads = append(
			o.FinalHopPayloads, &lnwire.FinalHopPayload{
				TLVType: tlv.Type(f.T), Value: v,
			},
		)
		finals = append(finals, obj{
			"t": digits(f.T), "v": bytesName(v), "n": f.N,
		})
	}
	want := obj{
		"reply": seenPath(o.ReplyPath), "enc": bytesName(o.EncryptedData),
		"encn": st.Enc, "finals": finals,
	}
	var b []byte
	var err error
	p := guarded(func() { b, err = lnwire.EncodeOnionMessagePayload(o) })
	if p != "" {
		m.note(obj{"e": p})
		return
	}
	e := obj{"e": "encode", "p": want, "ok": err == nil}
	if err == nil {
		e["out"] = readStream(b)
	}
	m.note(e)
	if err == nil {
		m.around(st, b, m.decode)
	}
}

// stream decodes records, some of them strange.
func (m *codecRun) stream(st codecStep) {
	var b []byte
	r := m.r
	for i, rec := range st.Recs {
		var v []byte
		switch rec.What {
		case "path":
			p := m.path(make([]int, rec.N))
			v = append(p.FirstNodeID.SerializeCompressed(),
				p.BlindingPoint.SerializeCompressed()...)
			v = append(v, byte(rec.N))
			for _, h := range p.Hops {
				d := randBytes(r, r.Intn(4))
				v = append(v, h.BlindedNodeID.SerializeCompressed()...)
				v = append(v, 0, byte(len(d)))
				v = append(v, d...)
			}
			switch rec.Bad {
			case "more":
				v[66]++
			case "fewer":
				v[66]--
			case "long":
				v = append(v, randBytes(r, 1+r.Intn(40))...)
			case "cut":
				v = v[:r.Intn(len(v))]
			case "key":
				v[33*r.Intn(2)] = byte(r.Intn(256))
			}
		case "key":
			v = m.key().SerializeCompressed()
			switch rec.Bad {
			case "cut":
				v = v[:r.Intn(33)]
			case "long":
				v = append(v, 0)
			case "key":
				v[0] = byte(r.Intn(256))
			}
		default:
			v = randBytes(r, rec.N)
		}
		n := uint64(len(v))
		switch rec.Bad {
		case "size":
			n = uint64(r.Int63n(200))
		case "huge":
			n = []uint64{
				65535, 65536, 1 << 20, 1 << 32, 1<<63 - 1, 1 << 63,
				1<<64 - 1,
			}[r.Intn(7)]
		}
		if rec.Bad == "type" {
			b = longSize(b, rec.T, r)
		} else {
			b = shortSize(b, rec.T)
		}
		if rec.Bad == "len" {
			b = longSize(b, n, r)
		} else {
			b = shortSize(b, n)
		}
		b = append(b, v...)
		if i == len(st.Recs)-1 && st.End == "short" && len(b) > 1 {
			cut := 1 + r.Intn(min2(len(b)-1, len(v)+2))
			b = b[:len(b)-cut]
		}
	}
	if st.End == "strange" {
		b = append(b, 0xfd, 0, byte(r.Intn(253)))
		if r.Intn(2) == 0 {
			b = append(b, 0)
		}
	}
	if st.A == "dstream" {
		m.around(st, b, m.decodeData)
	} else {
		m.around(st, b, m.decode)
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (m *codecRun) data(st codecStep) {
	d := &lnwire.BlindedRouteData{}
	if st.Next {
		d.NextNodeID = m.key()
	}
	if st.Over {
		d.NextBlindingOverride = m.key()
	}
	var b []byte
	var err error
	p := guarded(func() { b, err = lnwire.EncodeBlindedRouteData(d) })
	if p != "" {
		m.note(obj{"e": p})
		return
	}
	m.note(obj{
		"e": "encdata", "ok": err == nil, "out": readStream(b),
		"p": obj{
			"next":     keyName(d.NextNodeID),
			"override": keyName(d.NextBlindingOverride),
		},
	})
	m.around(st, b, m.decodeData)
}

func (m *codecRun) msg(st codecStep) {
	k, onion := m.key(), m.value(st.N)
	var b bytes.Buffer
	var err error
	p := guarded(func() {
		err = lnwire.NewOnionMessage(k, onion).Encode(&b, 0)
	})
	if p != "" {
		m.note(obj{"e": p})
		return
	}
	m.note(obj{
		"e": "encmsg", "ok": err == nil, "n": st.N, "key": keyName(k),
		"onion": bytesName(onion), "out": readMessage(b.Bytes()),
	})
	if err == nil {
		m.around(st, b.Bytes(), m.decodeMsg)
	}
}

func runCodec(in string) {
	var scs []scCodec
	readLines(in, func(b []byte) {
		var sc scCodec
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		sc := scs[i]
		emit(obj{"begin": sc.ID})
		m := &codecRun{
			r: newRand(seed*1000003 + int64(sc.ID)), seen: map[string]bool{},
		}
		for _, st := range sc.Steps {
			switch st.A {
			case "payload":
				m.payload(st)
			case "stream", "dstream":
				m.stream(st)
			case "data":
				m.data(st)
			case "msg":
				m.msg(st)
			}
		}
		emit(obj{"id": sc.ID, "ev": m.ev})
	})
}
