package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	bolt "github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

func init() { modes["artifact"] = runArtifact }

// ---------------------------------------------------------------------------
// An independent evaluation of merkle roots. The shape of the tree comes from
// the specification.

type shape []json.RawMessage

var shapes = map[int]shape{}

func taggedHash(tag, msg []byte) []byte {
	t := sha256.Sum256(tag)
	h := sha256.New()
	h.Write(t[:])
	h.Write(t[:])
	h.Write(msg)
	return h.Sum(nil)
}

func branch(a, b []byte) []byte {
	if bytes.Compare(a, b) > 0 {
		a, b = b, a
	}
	return taggedHash([]byte("LnBranch"), append(append([]byte{}, a...),
		b...))
}

// merkle computes the root of records that are all to be committed to.
func merkle(recs []tlvRec) []byte {
	sh, ok := shapes[len(recs)]
	if !ok {
		fatal("no shape for %v records", len(recs))
	}
	all := tlvStream(recs)
	var eval func(shape) []byte
	eval = func(s shape) []byte {
		if len(s) == 1 {
			var i int
			must(json.Unmarshal(s[0], &i))
			r := tlvStream(recs[i-1 : i])
			return branch(taggedHash([]byte("LnLeaf"), r),
				taggedHash(append([]byte("LnAll"), all...), r))
		}
		var l, r shape
		must(json.Unmarshal(s[0], &l))
		must(json.Unmarshal(s[1], &r))
		return branch(eval(l), eval(r))
	}
	return eval(sh)
}

// readShapes handles the input line with the shapes of trees.
func readShapes(b []byte) bool {
	var in struct {
		Shapes []struct {
			N    int   `json:"n"`
			Tree shape `json:"tree"`
		} `json:"shapes"`
	}
	must(json.Unmarshal(b, &in))
	for _, s := range in.Shapes {
		shapes[s.N] = s.Tree
	}
	return len(in.Shapes) > 0
}

func bigType(t uint64) uint64 {
	switch {
	case t >= 2000003:
		return ^uint64(0) - (2000009 - t)
	case t >= 2000000:
		return 1<<40 + t - 2000000
	}
	return t
}

func notSigs(recs []tlvRec) []tlvRec {
	var out []tlvRec
	for _, r := range recs {
		if r.t < 240 || r.t > 1000 {
			out = append(out, r)
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// Values.

// fieldClass of known fields.
var fieldClass = map[string]map[uint64]string{
	"offer": {
		2: "hash", 8: "tu64", 10: "str", 12: "feat", 14: "time",
		20: "str", 22: "tu64", 24: "tu64", 30: "xkey",
	},
	"request": {
		3: "hash", 4: "hash", 8: "tu64", 12: "feat", 32: "tu64",
		38: "xkey", 39: "str", 50: "bytes",
	},
	"invoice": {
		3: "hash", 4: "hash", 8: "tu64", 10: "str", 12: "feat",
		30: "key", 32: "tu64", 38: "key", 39: "str", 40: "u64",
		42: "hash", 44: "u64", 46: "u64", 50: "bytes",
	},
}

var artTags = map[string]string{
	"offer": "offer", "request": "invoice_request", "invoice": "invoice",
}

// artWorld has the real values for all names of values.
type artWorld struct {
	kind string
	raw  bool // text may be any bytes
	r    *rand.Rand
	keys map[string]*btcec.PrivateKey
	// nums are the values of "0" to "3" for truncated integers.
	nums, fixed, small [4]uint64
	vals               map[uint64]map[string][]byte
}

func sortedNums(r *rand.Rand, max uint64) [4]uint64 {
	edges := []uint64{
		1, 2, 100, 127, 128, 252, 253, 255, 256, 257, 65535, 65536,
		1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 5,
		1 << 48, 1 << 56, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2,
		1<<64 - 1,
	}
	for {
		var n []uint64
		for i := 0; i < 3; i++ {
			v := edges[r.Intn(len(edges))]
			if r.Intn(3) == 0 {
				v = r.Uint64() >> uint(r.Intn(64))
			}
			n = append(n, v)
		}
		sort.Slice(n, func(i, j int) bool { return n[i] < n[j] })
		if n[0] > 0 && n[0] < n[1] && n[1] < n[2] && n[2] <= max {
			return [4]uint64{0, n[0], n[1], n[2]}
		}
	}
}

func tu64(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return append([]byte{}, bytes.TrimLeft(b[:], "\x00")...)
}

func u64(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[:]
}

func newArtWorld(kind string, r *rand.Rand) *artWorld {
	return &artWorld{
		kind: kind, r: r,
		keys: map[string]*btcec.PrivateKey{
			"k1": randKey(r), "k2": randKey(r), "k3": randKey(r),
		},
		nums:  sortedNums(r, 1<<64-1),
		fixed: sortedNums(r, 1<<64-1),
		// Periods have to fit into a duration.
		small: sortedNums(r, 9000000000),
		vals:  map[uint64]map[string][]byte{},
	}
}

// text creates bytes that are valid UTF-8.
func text(r *rand.Rand, n int) []byte {
	b := make([]byte, 0, n)
	for len(b) < n {
		switch r.Intn(12) {
		case 0:
			if len(b)+2 <= n {
				b = append(b, "é"...)
			}
		case 1:
			b = append(b, " \t\n+\\\"'%\x00<"[r.Intn(10)])
		default:
			b = append(b, byte('!'+r.Intn(94)))
		}
	}
	return b
}

// create makes up the bytes of a value.
func (w *artWorld) create(t uint64, v string) []byte {
	r := w.r
	class, known := fieldClass[w.kind][t]
	if !known {
		class = "unknown"
	}
	long := func() int {
		if r.Intn(12) == 0 {
			return 1000 + r.Intn(1<<uint(10+r.Intn(6)))
		}
		return []int{252, 253, 254, 300, 700}[r.Intn(5)]
	}
	num := map[string]int{"0": 0, "1": 1, "2": 2, "3": 3}
	switch v {
	case "nothing":
		return []byte{}
	}
	switch class {
	case "hash":
		switch v {
		case "short":
			return randBytes(r, 31)
		case "long":
			return randBytes(r, 33)
		}
		return randBytes(r, 32)

	case "tu64", "time":
		switch v {
		case "nonmin":
			return append([]byte{0}, tu64(r.Uint64()>>uint(8+
				r.Intn(57)))...)
		case "long":
			return randBytes(r, 9)
		}
		return tu64(w.nums[num[v]])

	case "u64":
		switch v {
		case "short":
			return randBytes(r, 7)
		case "long":
			return randBytes(r, 9)
		}
		if t == 44 {
			return u64(w.small[num[v]])
		}
		return u64(w.fixed[num[v]])

	case "feat":
		if v == "e" {
			return []byte{}
		}
		if v == "pad" {
			return append(make([]byte, 1+r.Intn(3)),
				w.value(t, "a")...)
		}
		b := randBytes(r, 1+r.Intn(8))
		if r.Intn(10) == 0 {
			b = randBytes(r, 255+r.Intn(5))
		}
		if b[0] == 0 {
			b[0] = 1
		}
		return b

	case "xkey", "key":
		pre := []byte{}
		if class == "key" {
			pre = []byte{2 + byte(r.Intn(2))}
		}
		switch v {
		case "off":
			for {
				x := randBytes(r, 32)
				_, err := btcec.ParsePubKey(append([]byte{2},
					x...))
				if err != nil {
					return append(pre, x...)
				}
			}
		case "short":
			return append(pre, randBytes(r, 31)...)
		case "long":
			return append(append(pre, schnorr.SerializePubKey(
				w.keys["k1"].PubKey())...), 7)
		case "prefix":
			return append([]byte{[]byte{0, 1, 5, 6}[r.Intn(4)]},
				schnorr.SerializePubKey(
					w.keys["k1"].PubKey())...)
		}
		b := w.keys[v[:2]].PubKey().SerializeCompressed()
		if class == "xkey" {
			return b[1:]
		}
		if len(v) == 3 {
			b[0] ^= 1
		}
		return b

	default:
		switch v {
		case "e":
			return []byte{}
		case "l":
			return text(r, long())
		}
		if w.raw && r.Intn(12) == 0 {
			return randBytes(r, 1+r.Intn(40))
		}
		return text(r, 1+r.Intn(40))
	}
}

// value returns the bytes for a named value, the same each time.
func (w *artWorld) value(t uint64, v string) []byte {
	m := w.vals[t]
	if m == nil {
		m = map[string][]byte{}
		w.vals[t] = m
	}
	if b, ok := m[v]; ok {
		return b
	}
again:
	b := w.create(t, v)
	for n, o := range m {
		// Different names are different values.
		if bytes.Equal(b, o) && n != v {
			goto again
		}
	}
	m[v] = b
	return b
}

// name finds the name of a value that was decoded.
func (w *artWorld) name(t uint64, b []byte) string {
	for _, v := range []string{
		"a", "b", "l", "0", "1", "2", "3", "k1", "k2", "k3", "k1-",
		"k2-", "k3-", "e",
	} {
		if o, ok := w.vals[t][v]; ok && bytes.Equal(o, b) {
			return v
		}
	}
	return "?"
}

// seen is a decoded field.
type seen struct {
	t uint64
	b []byte
}

// artifact is what all kinds have in common.
type artifact struct {
	fields []seen
	sig    *[64]byte
	root   lntypes.Hash
	valid  error
	encode func() ([]byte, error)
}

type fieldList []seen

func (f *fieldList) add(t uint64, present bool, b []byte) {
	if present {
		*f = append(*f, seen{t, b})
	}
}

func features(f *lndwire.FeatureVector) []byte {
	var b bytes.Buffer
	if f == nil {
		return nil
	}
	must(f.EncodeBase256(&b))
	return b.Bytes()
}

func xonly(k *btcec.PublicKey) []byte {
	if k == nil {
		return nil
	}
	return k.SerializeCompressed()[1:]
}

func full(k *btcec.PublicKey) []byte {
	if k == nil {
		return nil
	}
	return k.SerializeCompressed()
}

var noHash lntypes.Hash

// decodeArtifact uses the code under test.
func decodeArtifact(kind string, b []byte) (*artifact, error) {
	var f fieldList
	switch kind {
	case "offer":
		o, err := bolt.DecodeOffer(b)
		if err != nil {
			return nil, err
		}
		f.add(2, o.Chainhash != noHash, o.Chainhash[:])
		f.add(8, o.MinimumAmount != 0, tu64(uint64(o.MinimumAmount)))
		f.add(10, o.Description != "", []byte(o.Description))
		f.add(12, len(features(o.Features)) > 0, features(o.Features))
		f.add(14, !o.Expiry.IsZero(), tu64(uint64(o.Expiry.Unix())))
		f.add(20, o.Issuer != "", []byte(o.Issuer))
		f.add(22, o.QuantityMin != 0, tu64(o.QuantityMin))
		f.add(24, o.QuantityMax != 0, tu64(o.QuantityMax))
		f.add(30, o.NodeID != nil, xonly(o.NodeID))
		return &artifact{f, o.Signature, o.MerkleRoot, o.Validate(),
			func() ([]byte, error) { return bolt.EncodeOffer(o) },
		}, nil

	case "request":
		i, err := bolt.DecodeInvoiceRequest(b)
		if err != nil {
			return nil, err
		}
		f.add(3, i.Chainhash != noHash, i.Chainhash[:])
		f.add(4, i.OfferID != noHash, i.OfferID[:])
		f.add(8, i.Amount != 0, tu64(uint64(i.Amount)))
		f.add(12, len(features(i.Features)) > 0, features(i.Features))
		f.add(32, i.Quantity != 0, tu64(i.Quantity))
		f.add(38, i.PayerKey != nil, xonly(i.PayerKey))
		f.add(39, i.PayerNote != "", []byte(i.PayerNote))
		f.add(50, len(i.PayerInfo) != 0, i.PayerInfo)
		return &artifact{f, i.Signature, i.MerkleRoot, i.Validate(),
			func() ([]byte, error) {
				return bolt.EncodeInvoiceRequest(i)
			},
		}, nil

	case "invoice":
		i, err := bolt.DecodeInvoice(b)
		if err != nil {
			return nil, err
		}
		f.add(3, i.Chainhash != noHash, i.Chainhash[:])
		f.add(4, i.OfferID != noHash, i.OfferID[:])
		f.add(8, i.Amount != 0, tu64(uint64(i.Amount)))
		f.add(10, i.Description != "", []byte(i.Description))
		f.add(12, len(features(i.Features)) > 0, features(i.Features))
		f.add(30, i.NodeID != nil, full(i.NodeID))
		f.add(32, i.Quantity != 0, tu64(i.Quantity))
		f.add(38, i.PayerKey != nil, full(i.PayerKey))
		f.add(39, i.PayerNote != "", []byte(i.PayerNote))
		f.add(40, !i.CreatedAt.IsZero(),
			u64(uint64(i.CreatedAt.Unix())))
		f.add(42, i.PaymentHash != noHash, i.PaymentHash[:])
		f.add(44, i.RelativeExpiry != 0,
			u64(uint64(i.RelativeExpiry/time.Second)))
		f.add(46, i.CLTVExpiry != 0, u64(i.CLTVExpiry))
		f.add(50, len(i.PayerInfo) != 0, i.PayerInfo)
		return &artifact{f, i.Signature, i.MerkleRoot, i.Validate(),
			func() ([]byte, error) { return bolt.EncodeInvoice(i) },
		}, nil
	}
	fatal("kind %v", kind)
	return nil, nil
}

func featuresOf(r *rand.Rand, b []byte) *lndwire.FeatureVector {
	if b == nil && r.Intn(2) == 0 {
		return nil
	}
	raw := lndwire.NewRawFeatureVector()
	for i := 0; i < 8*len(b); i++ {
		if b[len(b)-1-i/8]&(1<<uint(i%8)) != 0 {
			raw.Set(lndwire.FeatureBit(i))
		}
	}
	return lndwire.NewFeatureVector(raw, lndwire.Features)
}

// structOf fills in a struct and has it encoded by the code under test.
func (w *artWorld) structOf(fields []seen, sig *[64]byte) ([]byte, error) {
	get := func(t uint64) []byte {
		for _, f := range fields {
			if f.t == t {
				return f.b
			}
		}
		return nil
	}
	hash := func(t uint64) (h lntypes.Hash) {
		copy(h[:], get(t))
		return h
	}
	num := func(t uint64) (v uint64) {
		for _, x := range get(t) {
			v = v<<8 | uint64(x)
		}
		return v
	}
	key := func(t uint64) *btcec.PublicKey {
		b := get(t)
		if b == nil {
			return nil
		}
		if len(b) == 32 {
			b = append([]byte{2 + byte(w.r.Intn(2))}, b...)
		}
		k, err := btcec.ParsePubKey(b)
		must(err)
		return k
	}
	var when time.Time
	switch w.kind {
	case "offer":
		if get(14) != nil {
			when = time.Unix(int64(num(14)), 0)
		}
		return bolt.EncodeOffer(&bolt.Offer{
			Chainhash:     hash(2),
			MinimumAmount: lndwire.MilliSatoshi(num(8)),
			Description:   string(get(10)),
			Features:      featuresOf(w.r, get(12)),
			Expiry:        when,
			Issuer:        string(get(20)),
			QuantityMin:   num(22),
			QuantityMax:   num(24),
			NodeID:        key(30),
			Signature:     sig,
		})
	case "request":
		return bolt.EncodeInvoiceRequest(&bolt.InvoiceRequest{
			Chainhash: hash(3), OfferID: hash(4),
			Amount:    lndwire.MilliSatoshi(num(8)),
			Features:  featuresOf(w.r, get(12)),
			Quantity:  num(32),
			PayerKey:  key(38),
			PayerNote: string(get(39)),
			PayerInfo: get(50),
			Signature: sig,
		})
	default:
		if get(40) != nil {
			when = time.Unix(int64(num(40)), 0)
		}
		return bolt.EncodeInvoice(&bolt.Invoice{
			Chainhash: hash(3), OfferID: hash(4),
			Amount:         lndwire.MilliSatoshi(num(8)),
			Description:    string(get(10)),
			Features:       featuresOf(w.r, get(12)),
			NodeID:         key(30),
			Quantity:       num(32),
			PayerKey:       key(38),
			PayerNote:      string(get(39)),
			CreatedAt:      when,
			PaymentHash:    hash(42),
			RelativeExpiry: time.Duration(num(44)) * time.Second,
			CLTVExpiry:     num(46),
			PayerInfo:      get(50),
			Signature:      sig,
		})
	}
}

func sameFields(a, b []seen) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].t != b[i].t || !bytes.Equal(a[i].b, b[i].b) {
			return false
		}
	}
	return true
}

func sameSig(a, b *[64]byte) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// comesBack checks that what was encoded decodes to the fields given, with
// the root of these fields.
func comesBack(kind string, enc []byte, err error, want *artifact) bool {
	if err != nil {
		return len(want.fields) == 0
	}
	if len(want.fields) == 0 {
		// Nothing there to compute a root of.
		return true
	}
	a, err := decodeArtifact(kind, enc)
	if err != nil {
		return false
	}
	var recs []tlvRec
	for _, f := range want.fields {
		recs = append(recs, tlvRec{f.t, f.b})
	}
	return sameFields(a.fields, want.fields) && sameSig(a.sig, want.sig) &&
		bytes.Equal(a.root[:], merkle(recs))
}

// ---------------------------------------------------------------------------
// Scenarios.

type artRec struct {
	T uint64 `json:"t"`
	V string `json:"v"`
}

type scArtifact struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"`
	Raw   bool     `json:"raw"`
	Start []artRec `json:"start"`
	Steps []struct {
		Op  string `json:"op"`
		T   uint64 `json:"t"`
		V   string `json:"v"`
		Key string `json:"key"`
		As  string `json:"as"`
		S   string `json:"s"`
		How string `json:"how"`
	} `json:"steps"`
}

// ask has a server decode an offer.
func (w *artWorld) ask(srv *rpcserver.Server, b, sig []byte, ev obj) {
	s := "lno1" + bech32Data(b)
	if w.r.Intn(4) == 0 {
		s = strings.ToUpper(s)
	}
	ev["rpc"], ev["told"], ev["toldsig"] = "error", []interface{}{}, false
	resp, err := srv.DecodeOffer(
		context.Background(), &offersrpc.DecodeOfferRequest{Offer: s},
	)
	if err != nil {
		return
	}
	ev["rpc"] = "OK"
	o := resp.GetOffer()
	if o == nil {
		ev["rpc"] = "nothing"
		return
	}
	var f fieldList
	f.add(8, o.MinAmountMsat != 0, tu64(o.MinAmountMsat))
	f.add(10, o.Description != "", []byte(o.Description))
	// With or without their length.
	feats := o.Features
	if n := len(feats); n >= 2 &&
		int(feats[0])<<8|int(feats[1]) == n-2 {

		feats = feats[2:]
	}
	f.add(12, len(feats) > 0, feats)
	f.add(14, o.ExpiryUnixSeconds != 0, tu64(o.ExpiryUnixSeconds))
	f.add(20, o.Issuer != "", []byte(o.Issuer))
	f.add(22, o.MinQuantity != 0, tu64(o.MinQuantity))
	f.add(24, o.MaxQuantity != 0, tu64(o.MaxQuantity))
	if o.NodeId != "" {
		id, err := hex.DecodeString(o.NodeId)
		if err != nil {
			id = []byte("?")
		}
		// As the offer has it, or in full.
		if len(id) == 33 {
			id = id[1:]
		}
		f.add(30, true, id)
	}
	told := []interface{}{}
	for _, x := range f {
		told = append(told, []interface{}{x.t, w.name(x.t, x.b)})
	}
	ev["told"] = told
	ev["toldsig"] = o.Signature == hex.EncodeToString(sig)
}

func runArtifactScenario(sc scArtifact, srv *rpcserver.Server) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	w := newArtWorld(sc.Kind, r)
	w.raw = sc.Raw
	var (
		log   = &elog{}
		recs  []artRec
		sig   []byte // nil: none
		how   = "no"
		roots = map[lntypes.Hash]int{}
	)
	put := func(t uint64, v string) {
		var out []artRec
		done := false
		for _, x := range recs {
			if x.T >= t && !done {
				out = append(out, artRec{t, v})
				done = true
			}
			if x.T != t {
				out = append(out, x)
			}
		}
		if !done {
			out = append(out, artRec{t, v})
		}
		recs = out
	}
	real := func() (out []tlvRec) {
		for _, x := range recs {
			out = append(out, tlvRec{bigType(x.T), w.value(x.T, x.V)})
		}
		return out
	}
	// answer decodes the stream as it is now.
	answer := func(ev obj) {
		all := real()
		ns := notSigs(all)
		if sig != nil {
			i := 0
			for i < len(all) && all[i].t < 240 {
				i++
			}
			rest := append([]tlvRec{{240, sig}}, all[i:]...)
			all = append(all[:i:i], rest...)
		}
		var b []byte
		how := how
		if how == "swap" && len(all) < 2 {
			how = "dup"
		}
		if how != "no" && len(all) == 0 {
			how = "tail"
		}
		switch how {
		case "no":
			b = tlvStream(all)
		case "trunc":
			b = tlvStream(all)
			n := len(tlvStream(all[len(all)-1:]))
			b = b[:len(b)-1-r.Intn(n-1)]
		case "swap":
			i := r.Intn(len(all) - 1)
			all[i], all[i+1] = all[i+1], all[i]
			b = tlvStream(all)
		case "dup":
			i := r.Intn(len(all))
			all = append(all[:i+1:i+1], all[i:]...)
			b = tlvStream(all)
		case "tail":
			b = append(tlvStream(all), []byte{0xfd, 0xfe, 0xff}[r.Intn(3)])
		case "over":
			// The length of the last record is too large.
			l := all[len(all)-1]
			b = tlvStream(all[:len(all)-1])
			b = append(b, bigSize(l.t)...)
			b = append(b, bigSize(uint64(len(l.v)+1+r.Intn(300)))...)
			b = append(b, l.v...)
		case "wide":
			// A length in a longer form than needed.
			i := r.Intn(len(all))
			b = tlvStream(all[:i])
			b = append(b, bigSize(all[i].t)...)
			if n := len(all[i].v); n < 253 {
				b = append(b, 0xfd, 0, byte(n))
			} else {
				b = append(b, 0xfe, 0, 0, byte(n>>8), byte(n))
			}
			b = append(b, all[i].v...)
			b = append(b, tlvStream(all[i+1:])...)
		default:
			fatal("how %v", how)
		}
		var a *artifact
		p := guarded(func() {
			in := append([]byte{}, b...)
			var err error
			a, err = decodeArtifact(sc.Kind, in)
			if err != nil {
				a = nil
			}
		})
		if p != "" {
			ev["panic"] = p
			ev["e"] = "panic"
			log.add(ev)
			return
		}
		ev["dec"] = a != nil
		ev["valid"] = a != nil && a.valid == nil
		ev["root"] = 0
		ev["own"] = false
		ev["again"] = false
		ev["fields"] = []interface{}{}
		if sc.Kind == "offer" && len(b) > 0 {
			p := guarded(func() { w.ask(srv, b, sig, ev) })
			if p != "" {
				ev["rpc"] = p
			}
		} else if sc.Kind == "offer" {
			ev["rpc"] = "error"
		}
		if a != nil {
			if _, ok := roots[a.root]; !ok {
				roots[a.root] = len(roots) + 1
			}
			ev["root"] = roots[a.root]
			ev["own"] = len(ns) > 0 &&
				bytes.Equal(a.root[:], merkle(ns))
			fs := []interface{}{}
			for _, f := range a.fields {
				fs = append(fs, []interface{}{
					f.t, w.name(f.t, f.b),
				})
			}
			ev["fields"] = fs
			var again bool
			p := guarded(func() {
				e1, err1 := a.encode()
				e2, err2 := w.structOf(a.fields, a.sig)
				again = comesBack(sc.Kind, e1, err1, a) &&
					comesBack(sc.Kind, e2, err2, a)
			})
			if p != "" {
				ev["panic"] = p
			}
			var want *[64]byte
			if len(sig) == 64 {
				want = new([64]byte)
				copy(want[:], sig)
			}
			ev["again"] = again && sameSig(want, a.sig)
		}
		log.add(ev)
	}

	for _, x := range sc.Start {
		put(x.T, x.V)
	}
	start := append([]artRec{}, recs...)
	if start == nil {
		start = []artRec{}
	}
	// Values get their names before anything is decoded.
	for t, c := range fieldClass[sc.Kind] {
		switch c {
		case "hash", "str", "bytes", "feat":
			w.value(t, "a")
			w.value(t, "b")
		case "tu64", "time", "u64":
			for _, v := range []string{"0", "1", "2", "3"} {
				w.value(t, v)
			}
		}
	}
	answer(obj{"e": "begin", "kind": sc.Kind, "recs": start})
	for _, s := range sc.Steps {
		ev := obj{"e": s.Op}
		switch s.Op {
		case "none":
			continue
		case "put":
			put(s.T, s.V)
			ev["t"], ev["v"] = s.T, s.V
		case "drop":
			var out []artRec
			for _, x := range recs {
				if x.T != s.T {
					out = append(out, x)
				}
			}
			recs = out
			ev["t"] = s.T
		case "sign":
			ns := notSigs(real())
			root := make([]byte, 32)
			if len(ns) > 0 {
				root = merkle(ns)
			}
			digest := taggedHash([]byte("lightning"+artTags[s.As]+
				"signature"), root)
			// Signing may negate the key that is passed in.
			key, _ := btcec.PrivKeyFromBytes(
				w.keys[s.Key].Serialize(),
			)
			sg, err := schnorr.Sign(key, digest)
			must(err)
			sig = sg.Serialize()
			ev["key"], ev["as"] = s.Key, s.As
		case "spoil":
			switch s.S {
			case "garbage":
				sig = randBytes(r, 64)
			case "zero":
				sig = make([]byte, 64)
			case "short":
				n := []int{0, 1, 32, 63, 65, 72}[r.Intn(6)]
				sig = append([]byte{}, randBytes(r, n)...)
			case "flipped":
				if len(sig) != 64 {
					sig = randBytes(r, 64)
				}
				sig = append([]byte{}, sig...)
				i := r.Intn(512)
				sig[i/8] ^= 1 << uint(i%8)
			case "none":
				sig = nil
			}
			ev["s"] = s.S
		case "break":
			how = s.How
			ev["how"] = s.How
		}
		answer(ev)
	}
	return obj{"id": sc.ID, "ev": log.snapshot()}
}

func runArtifact(in string) {
	var scs []scArtifact
	readLines(in, func(b []byte) {
		if readShapes(b) {
			return
		}
		var sc scArtifact
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	lnd := &fakeLnd{key: randKey(newRand(seed))}
	srv := newServer(nil)
	must(srv.Start(lnd.services()))
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runArtifactScenario(scs[i], srv))
	})
	must(srv.Stop())
}
