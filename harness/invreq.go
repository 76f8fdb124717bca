package main

import (
	"bytes"
	"encoding/json"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	bolt "github.com/carlakc/boltnd/lnwire"
	"github.com/lightningnetwork/lnd/lnwire"
)

func init() { modes["invreq"] = runInvReq }

type invOffer struct {
	Min   int    `json:"min"`
	Lo    int    `json:"lo"`
	Hi    int    `json:"hi"`
	Chain string `json:"chain"`
	Feat  string `json:"feat"`
}

type scInvReq struct {
	ID    int      `json:"id"`
	Offer invOffer `json:"offer"`
	// Extra records of the offer, which are not copied.
	Extra []artRec `json:"extra"`
	Asks  []struct {
		Amt  int    `json:"amt"`
		Q    int    `json:"q"`
		Key  string `json:"key"`
		Note string `json:"note"`
	} `json:"asks"`
}

func runInvReqScenario(sc scInvReq) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	// One set of numbers for everything.
	w := newArtWorld("offer", r)
	wr := newArtWorld("request", r)
	wr.nums, wr.keys = w.nums, w.keys
	log := &elog{}
	num := func(i int) string { return []string{"0", "1", "2", "3"}[i] }

	var recs []tlvRec
	put := func(t uint64, v string) {
		recs = append(recs, tlvRec{bigType(t), w.value(t, v)})
	}
	all := append([]artRec{}, sc.Extra...)
	for _, f := range []struct {
		t uint64
		v int
	}{{8, sc.Offer.Min}, {22, sc.Offer.Lo}, {24, sc.Offer.Hi}} {
		// A bound of zero may be there or not.
		if f.v != 0 || r.Intn(4) == 0 {
			all = append(all, artRec{f.t, num(f.v)})
		}
	}
	if sc.Offer.Chain != "-" {
		all = append(all, artRec{2, sc.Offer.Chain})
	}
	if sc.Offer.Feat != "-" {
		all = append(all, artRec{12, sc.Offer.Feat})
	}
	all = append(all, artRec{10, "a"}, artRec{30, "k1"})
	for len(all) > 0 {
		// In order.
		m := 0
		for i := range all {
			if all[i].T < all[m].T {
				m = i
			}
		}
		put(all[m].T, all[m].V)
		all = append(all[:m], all[m+1:]...)
	}
	root := merkle(recs)
	offer, err := bolt.DecodeOffer(tlvStream(recs))
	if err != nil {
		log.add(obj{
			"e": "refused", "offer": sc.Offer, "what": err.Error(),
		})
		return obj{"id": sc.ID, "ev": log.snapshot()}
	}

	// index names a number.
	index := func(v uint64) int {
		for i := range w.nums {
			if w.nums[i] == v {
				return i
			}
		}
		return 99
	}
	// In a request, the chain is type 3.
	hash := func(h [32]byte) string {
		for _, v := range []string{"a", "b"} {
			if bytes.Equal(h[:], w.value(2, v)) {
				return v
			}
		}
		if h == noHash {
			return "-"
		}
		return "?"
	}
	feat := func(f *lnwire.FeatureVector) string {
		b := features(f)
		if len(b) == 0 {
			return "-"
		}
		return w.name(12, b)
	}
	w.value(12, "a")
	w.value(12, "b")
	view := func() obj {
		return obj{
			"min":   index(uint64(offer.MinimumAmount)),
			"lo":    index(offer.QuantityMin),
			"hi":    index(offer.QuantityMax),
			"chain": hash(offer.Chainhash),
			"feat":  feat(offer.Features),
		}
	}
	seenReq := func(i *bolt.InvoiceRequest) obj {
		o := obj{
			"offer": "?", "chain": hash(i.Chainhash),
			"feat": feat(i.Features), "amt": index(uint64(i.Amount)),
			"q": index(i.Quantity), "key": "?", "note": "?",
		}
		if bytes.Equal(i.OfferID[:], root) {
			o["offer"] = "root"
		}
		for n, k := range w.keys {
			if bytes.Equal(xonly(i.PayerKey), xonly(k.PubKey())) {
				o["key"] = n
			}
		}
		if i.PayerNote == "" {
			o["note"] = "-"
		} else {
			o["note"] = wr.name(39, []byte(i.PayerNote))
		}
		if len(i.PayerInfo) > 0 {
			o["info"] = true
		}
		return o
	}

	log.add(obj{"e": "offer", "offer": view()})
	for _, a := range sc.Asks {
		var note string
		if a.Note != "-" {
			note = string(wr.value(39, a.Note))
		}
		ev := obj{
			"e": "ask", "amt": a.Amt, "q": a.Q, "key": a.Key,
			"note": a.Note,
		}
		p := guarded(func() {
			req, err := bolt.NewInvoiceRequest(
				offer, lnwire.MilliSatoshi(w.nums[a.Amt]),
				w.nums[a.Q], w.keys[a.Key].PubKey(), note,
			)
			ev["ok"] = err == nil
			if err != nil {
				return
			}
			ev["req"] = seenReq(req)
			ev["dec"] = obj{"offer": "undecodable"}
			ev["root"], ev["signed"] = false, false
			b, err := bolt.EncodeInvoiceRequest(req)
			if err != nil {
				return
			}
			plain, err := parseTLV(b)
			if err != nil {
				return
			}
			own := merkle(notSigs(plain))
			dec, err := bolt.DecodeInvoiceRequest(b)
			if err != nil {
				return
			}
			ev["dec"] = seenReq(dec)
			ev["root"] = dec.MerkleRoot == req.MerkleRoot &&
				bytes.Equal(own, req.MerkleRoot[:])
			// What the payer signs is what others check.
			d := req.SignatureDigest()
			want := taggedHash([]byte("lightninginvoice_request"+
				"signature"), own)
			key, _ := btcec.PrivKeyFromBytes(
				w.keys[a.Key].Serialize(),
			)
			sg, err := schnorr.Sign(key, d[:])
			must(err)
			var raw [64]byte
			copy(raw[:], sg.Serialize())
			req.Signature = &raw
			b, err = bolt.EncodeInvoiceRequest(req)
			if err != nil {
				return
			}
			dec, err = bolt.DecodeInvoiceRequest(b)
			if err != nil {
				return
			}
			ev["signed"] = bytes.Equal(want, d[:]) &&
				dec.Validate() == nil && req.Validate() == nil
		})
		if p != "" {
			ev = obj{"e": "panic", "panic": p}
		}
		log.add(ev)
	}
	log.add(obj{"e": "again", "offer": view()})
	return obj{"id": sc.ID, "ev": log.snapshot()}
}

func runInvReq(in string) {
	var scs []scInvReq
	readLines(in, func(b []byte) {
		if readShapes(b) {
			return
		}
		var sc scInvReq
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runInvReqScenario(scs[i]))
	})
}
