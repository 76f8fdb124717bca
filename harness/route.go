package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcutil"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() { modes["route"] = runRoute }

type routeInfo struct {
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	Feats []int  `json:"feats"`
	// How lookups of this peer fail, and whether a node without
	// announcement has features.
	How int `json:"how"`
}

type routeWorld struct {
	Info  []routeInfo `json:"info"`
	Chans []struct {
		P       int  `json:"p"`
		Active  bool `json:"active"`
		Private bool `json:"private"`
	} `json:"chans"`
	Req  []uint64 `json:"req"`
	List string   `json:"list"`
}

type scRoute struct {
	ID     int          `json:"id"`
	Worlds []routeWorld `json:"worlds"`
}

func runRouteScenario(sc scRoute) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	log := &elog{}
	us := randKey(r)
	var (
		w     *routeWorld
		peers []*btcec.PublicKey
		last  *btcec.PrivateKey
		known = map[route.Vertex]bool{vertex(us.PubKey()): true}
	)
	lnd := &fakeLnd{key: us}
	lnd.listChannels = func(_ context.Context, active, public bool) (
		[]lndclient.ChannelInfo, error) {

		if w.List == "err" {
			return nil, errors.New("verif: no channels for you")
		}
		var out []lndclient.ChannelInfo
		for i, c := range w.Chans {
			if active && !c.Active || public && c.Private {
				continue
			}
			out = append(out, lndclient.ChannelInfo{
				PubKeyBytes: vertex(peers[c.P-1]),
				Active:      c.Active, Private: c.Private,
				ChannelID:     uint64(i + 1),
				Capacity:      btcutil.Amount(r.Int63n(1 << 40)),
				LocalBalance:  btcutil.Amount(r.Int63n(1 << 40)),
				RemoteBalance: btcutil.Amount(r.Int63n(1 << 40)),
				Initiator:     r.Intn(2) == 0,
			})
		}
		return out, nil
	}
	lnd.nodeInfo = func(_ context.Context, v route.Vertex, ch bool) (
		*lndclient.NodeInfo, error) {

		for i, p := range peers {
			if vertex(p) != v {
				continue
			}
			in := w.Info[i]
			switch in.Kind {
			case "notfound":
				return nil, status.Error(
					codes.NotFound, "unable to find node",
				)
			case "error":
				switch in.How % 4 {
				case 0:
					return nil, errors.New("verif: lookup")
				case 1:
					return nil, status.Error(
						codes.Unavailable, "not found",
					)
				case 2:
					return nil, context.DeadlineExceeded
				}
				return nil, status.Error(codes.Unknown, "node")
			}
			ni := &lndclient.NodeInfo{ChannelCount: in.N}
			if in.Kind == "ok" {
				// What must not make a difference.
				ni.Node = &lndclient.Node{
					PubKey: v,
					Alias:  fmt.Sprint("peer", i),
					Color:  "#3399ff",
					LastUpdate: time.Unix(
						r.Int63n(1700000000), 0,
					),
				}
				ni.TotalCapacity = btcutil.Amount(
					r.Int63n(1 << 40),
				)
				for k := r.Intn(3); k > 0; k-- {
					ni.Node.Addresses = append(
						ni.Node.Addresses,
						"10.0.0.1:9735",
					)
				}
				for _, f := range in.Feats {
					ni.Features = append(
						ni.Features, lnwire.FeatureBit(f),
					)
				}
			}
			for k := 0; k < in.N && ch; k++ {
				ni.Channels = append(ni.Channels,
					lndclient.ChannelEdge{
						ChannelID: uint64(100*i + k + 1),
					})
			}
			return ni, nil
		}
		return nil, status.Error(codes.NotFound, "unable to find node")
	}
	srv := newServer(nil)
	must(srv.Start(lnd.services()))
	for i := range sc.Worlds {
		w = &sc.Worlds[i]
		// Most of the time, the peers are the same ones as before.
		for len(peers) < len(w.Info) {
			k := randKey(r)
			if last == nil {
				last = us
			}
			if r.Intn(3) == 0 {
				// One coordinate in common with another node.
				k = negated(last)
			}
			last = k
			if known[vertex(k.PubKey())] {
				last, k = nil, randKey(r)
			}
			known[vertex(k.PubKey())] = true
			peers = append(peers, k.PubKey())
		}
		// TLC's numbers are small.
		req := append([]uint64{}, w.Req...)
		for k := range req {
			if req[k] > 1000000 {
				req[k] = 1000000
			}
		}
		ev := obj{
			"e": "gen", "req": req, "list": w.List,
			"chans": w.Chans, "info": w.Info, "intro": 0,
		}
		var (
			resp *offersrpc.GenerateBlindedRouteResponse
			err  error
		)
		p := guarded(func() {
			resp, err = srv.GenerateBlindedRoute(
				context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{
					Features: w.Req,
				},
			)
		})
		s, _ := status.FromError(err)
		ev["r"] = s.Code().String()
		if p != "" {
			ev["r"] = p
		} else if err == nil {
			ev["intro"] = -1
			for k, key := range peers {
				if resp.Route != nil && string(
					key.SerializeCompressed(),
				) == string(resp.Route.IntroductionNode) {
					ev["intro"] = k + 1
				}
			}
		}
		log.add(ev)
	}
	must(srv.Stop())
	return obj{"id": sc.ID, "ev": log.snapshot()}
}

func runRoute(in string) {
	var scs []scRoute
	readLines(in, func(b []byte) {
		var sc scRoute
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runRouteScenario(scs[i]))
	})
}
