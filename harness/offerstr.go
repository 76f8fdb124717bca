package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	bolt "github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/offersrpc"
)

func init() { modes["offerstr"] = runOfferStr }

type strCase struct {
	Str  []string `json:"str"`
	Hrp  string   `json:"hrp"`
	Data string   `json:"data"`
	Up   bool     `json:"up"`
	Long bool     `json:"long"`
}

type scOfferStr struct {
	ID   int       `json:"id"`
	Strs []strCase `json:"strs"`
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// offerData creates the records of an offer, or of something else.
func offerData(r *rand.Rand, c strCase) ([]tlvRec, []byte) {
	key := randKey(r)
	desc := text(r, 1+r.Intn(30))
	if c.Long {
		desc = text(r, 200+r.Intn(600))
		if r.Intn(6) == 0 {
			desc = text(r, 1000+r.Intn(1<<uint(11+r.Intn(5))))
		}
	}
	node := key.PubKey().SerializeCompressed()[1:]
	recs := []tlvRec{}
	if r.Intn(2) == 0 {
		recs = append(recs, tlvRec{8, tu64(1 + uint64(r.Intn(1<<30)))})
	}
	if !(c.Data == "invalid" && r.Intn(3) == 0) {
		recs = append(recs, tlvRec{10, desc})
	} else {
		c.Data = "done"
	}
	if c.Data == "invalid" && r.Intn(3) == 0 {
		recs = append(recs, tlvRec{22, tu64(5)}, tlvRec{24, tu64(4)})
		c.Data = "done"
	} else if r.Intn(3) == 0 {
		recs = append(recs, tlvRec{22, tu64(uint64(1 + r.Intn(5)))},
			tlvRec{24, tu64(uint64(5 + r.Intn(500)))})
	}
	sign := r.Intn(3) == 0
	if c.Data == "invalid" && r.Intn(2) == 0 {
		c.Data = "done"
		node = nil
	} else {
		recs = append(recs, tlvRec{30, node})
	}
	if c.Data == "invalid" || sign && node != nil {
		d := taggedHash([]byte("lightningoffersignature"), merkle(recs))
		if c.Data == "invalid" {
			d[r.Intn(32)] ^= 4
		}
		k, _ := btcec.PrivKeyFromBytes(key.Serialize())
		sg, err := schnorr.Sign(k, d)
		must(err)
		recs = append(recs, tlvRec{240, sg.Serialize()})
	}
	return recs, tlvStream(recs)
}

func otherCase(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z':
			b.WriteRune(c - 32)
		case c >= 'A' && c <= 'Z':
			b.WriteRune(c + 32)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func hasLetter(s string) bool { return strings.ToLower(s) != strings.ToUpper(s) }

func runOfferStrScenario(sc scOfferStr) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	log := &elog{}
	lnd := &fakeLnd{key: randKey(r)}
	srv := newServer(nil)
	must(srv.Start(lnd.services()))
	for _, c := range sc.Strs {
		recs, raw := offerData(r, c)
		switch c.Data {
		case "garbage":
			switch r.Intn(4) {
			case 0:
				raw = randBytes(r, 1+r.Intn(60))
				raw[0] = 0xff
			case 1:
				raw = raw[:len(raw)-1]
			case 2:
				raw = append(raw, 9)
			case 3:
				raw = append(tlvStream(recs[1:]),
					tlvStream(recs[:1])...)
				if len(recs) < 2 {
					raw = raw[:1]
				}
			}
		case "padding":
			// Make sure that there is some.
			for len(raw)*8%5 == 0 {
				recs, raw = offerData(r, c)
			}
		}
		chars := bech32Data(raw)
		if c.Data == "padding" {
			pad := uint((5 - len(raw)*8%5) % 5)
			last := strings.IndexByte(bechChars, chars[len(chars)-1])
			if r.Intn(2) == 0 {
				last |= 1 + r.Intn(1<<pad-1)
				chars = chars[:len(chars)-1] +
					string(bechChars[last])
			} else {
				// A whole character more than needed.
				chars += "q"
			}
		}
		prefix := "lno1"
		switch c.Hrp {
		case "other":
			prefix = pick(r, "lnr1", "lni1", "lnbc1", "ln1", "lnoo1",
				"no1", "lno11", "1lno1", "o1", "lnp1", "lmo1",
				"lno2", "lnolno1")
			if prefix == "lno2" {
				// The separator is what comes last.
				prefix = "lno21"
			}
		case "none":
			prefix = pick(r, "lno", "", "1")
			chars = strings.TrimLeft(chars, "1")
		}
		// Cut the characters into as many parts as there are places
		// for them.
		n, mixed := 0, false
		for _, t := range c.Str {
			mixed = mixed || t == "C"
			if t == "C" || t == "W" {
				n++
			}
		}
		if n == 0 {
			n = 1
		}
		parts := make([]string, n)
		rest := chars
		for i := range parts {
			k := len(rest)
			if i < n-1 {
				k = 1 + r.Intn(1+2*len(rest)/(n-i))
				if max := len(rest) - (n - i - 1); k > max {
					k = max
				}
				if k < 1 {
					k = 1
				}
				if k > len(rest) {
					k = len(rest)
				}
			}
			parts[i], rest = rest[:k], rest[k:]
		}
		parts[0] = prefix + parts[0]
		var b strings.Builder
		i := 0
		for _, t := range c.Str {
			switch t {
			case "C", "W":
				p := parts[i]
				i++
				if c.Up {
					p = strings.ToUpper(p)
				}
				if t == "W" {
					if !mixed || !hasLetter(p) ||
						r.Intn(2) == 0 {
						// One letter only.
						j := strings.IndexFunc(p, func(
							x rune) bool {

							return hasLetter(
								string(x))
						})
						if j < 0 {
							p += otherCase(pick(r,
								"q", "z"))
							j = 0
						}
						p = otherCase(p[:j+1]) + p[j+1:]
					} else {
						p = otherCase(p)
					}
				}
				b.WriteString(p)
			case "+":
				b.WriteByte('+')
			case "s":
				k := r.Intn(3)
				if r.Intn(8) == 0 {
					k = r.Intn(400)
				}
				for ; k >= 0; k-- {
					b.WriteString(pick(r, " ", "\t", "\n",
						"\r", "\r\n"))
				}
			case "x":
				p := pick(r, "b", "i", "o", "1", "-", "_", "!",
					".", "~", "/", "\"")
				if c.Up {
					p = strings.ToUpper(p)
				}
				b.WriteString(p)
			case "n":
				b.WriteString(pick(r, "\x00", "\x1b", "\x7f",
					"é", "\xff", "\u200b", "\u212a", "ｑ",
					"\xe2\x82", "٠"))
			}
		}
		s := b.String()
		ev := obj{
			"e": "decode", "str": c.Str, "hrp": c.Hrp,
			"data": c.Data, "text": hex.EncodeToString([]byte(s)),
		}
		get := func(t uint64) []byte {
			for _, x := range recs {
				if x.t == t {
					return x.v
				}
			}
			return nil
		}
		p := guarded(func() {
			o, err := offers.DecodeOfferStr(s)
			ev["lib"] = libResult(o, err, recs)
		})
		if p != "" {
			ev["lib"] = p
		}
		p = guarded(func() {
			resp, err := srv.DecodeOffer(
				context.Background(),
				&offersrpc.DecodeOfferRequest{Offer: s},
			)
			ev["rpc"] = "error"
			if err != nil {
				return
			}
			ev["rpc"] = "other"
			o := resp.Offer
			if o == nil {
				return
			}
			if o.Description == string(get(10)) &&
				o.NodeId == hex.EncodeToString(get(30)) &&
				bytes.Equal(tu64(o.MinAmountMsat), get(8)) &&
				bytes.Equal(tu64(o.MinQuantity), get(22)) &&
				bytes.Equal(tu64(o.MaxQuantity), get(24)) &&
				o.Signature == hex.EncodeToString(get(240)) {

				ev["rpc"] = "offer"
			}
		})
		if p != "" {
			ev["rpc"] = p
		}
		log.add(ev)
	}
	must(srv.Stop())
	return obj{"id": sc.ID, "ev": log.snapshot()}
}

func libResult(o *bolt.Offer, err error, recs []tlvRec) string {
	if err != nil {
		return "error"
	}
	if o != nil && bytes.Equal(o.MerkleRoot[:], merkle(notSigs(recs))) {
		return "offer"
	}
	return "other"
}

func runOfferStr(in string) {
	var scs []scOfferStr
	readLines(in, func(b []byte) {
		if readShapes(b) {
			return
		}
		var sc scOfferStr
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runOfferStrScenario(scs[i]))
	})
}
