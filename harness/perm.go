package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/lnrpc"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"github.com/lightningnetwork/lnd/macaroons"
	"github.com/lightningnetwork/lnd/rpcperms"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"gopkg.in/macaroon-bakery.v2/bakery"
	"gopkg.in/macaroon-bakery.v2/bakery/checkers"
	"gopkg.in/macaroon.v2"
)

func init() { modes["perm"] = runPerm }

// Who may call what: a real daemon that is registered with lnd's own
// interceptors and macaroon service. Steps: start, stop, bake m k ops cav,
// revoke k, lnd r, call c meth m req, quiet.
type permOp struct {
	Entity string `json:"entity"`
	Action string `json:"action"`
}

type permStep struct {
	A    string   `json:"a"`
	C    int      `json:"c"`
	M    int      `json:"m"`
	K    int      `json:"k"`
	R    string   `json:"r"`
	Cav  string   `json:"cav"`
	Meth string   `json:"meth"`
	Ops  []permOp `json:"ops"`
	// Req is what the method takes; Direct: it isn't one of those that are
	// registered, lnd's own code asks.
	Req    []permOp `json:"req"`
	Direct bool     `json:"direct"`
}

type scPerm struct {
	ID    int        `json:"id"`
	Sched []permStep `json:"sched"`
}

// permKeys are the root keys, which may be revoked.
type permKeys struct {
	mtx  sync.Mutex
	dead map[int]bool
}

type permKeyID struct{}

func permKey(k int) []byte { return []byte(fmt.Sprintf("verif root key %22d", k)) }

func (p *permKeys) Get(_ context.Context, id []byte) ([]byte, error) {
	k := 0
	if _, err := fmt.Sscanf(string(id), "k%d", &k); err != nil {
		return nil, bakery.ErrNotFound
	}
	p.mtx.Lock()
	defer p.mtx.Unlock()
	if p.dead[k] {
		return nil, bakery.ErrNotFound
	}
	return permKey(k), nil
}

func (p *permKeys) RootKey(ctx context.Context) ([]byte, []byte, error) {
	k := ctx.Value(permKeyID{}).(int)
	return permKey(k), []byte(fmt.Sprintf("k%d", k)), nil
}

func permBakery(keys bakery.RootKeyStore) *macaroons.Service {
	b := bakery.New(bakery.BakeryParams{Location: "lnd", RootKeyStore: keys})
	c := b.Checker.FirstPartyCaveatChecker.(*checkers.Checker)
	cond, f := macaroons.IPLockChecker()
	c.Register(cond, "std", f)
	return &macaroons.Service{
		Bakery:             *b,
		ExternalValidators: make(map[string]macaroons.MacaroonValidator),
	}
}

type permRun struct {
	*daemonRun
	log  *elog
	keys *permKeys
	svc  *macaroons.Service
	lnd  atomic.Value
	pend atomic.Int32
	bad  atomic.Int32
	seen sync.Map // ids of calls that were let through
}

// CheckMacaroonPermissions is what lnd does, if it is able to.
func (m *permRun) CheckMacaroonPermissions(ctx context.Context,
	req *lnrpc.CheckMacPermRequest) (*lnrpc.CheckMacPermResponse, error) {

	m.log.touch()
	switch m.lnd.Load().(string) {
	case "down":
		return nil, status.Error(codes.Unavailable, "verif: lnd is down")
	case "deny":
		return &lnrpc.CheckMacPermResponse{Valid: false}, nil
	}
	var ops []bakery.Op
	for _, p := range req.Permissions {
		ops = append(ops, bakery.Op{Entity: p.Entity, Action: p.Action})
	}
	err := m.svc.CheckMacAuth(ctx, req.Macaroon, ops, req.FullMethod)
	if err != nil && m.bad.Add(1)%2 == 0 {
		// What the interface of lnd also allows.
		return &lnrpc.CheckMacPermResponse{Valid: false}, nil
	}
	if err != nil {
		return nil, status.Error(codes.InvalidArgument, err.Error())
	}
	return &lnrpc.CheckMacPermResponse{Valid: true}, nil
}

// through notes that a call has passed all checks.
func (m *permRun) through(ctx context.Context) error {
	md, _ := metadata.FromIncomingContext(ctx)
	for _, v := range md.Get("verif") {
		m.seen.Store(v, true)
	}
	return status.Error(codes.DataLoss, "verif: let through")
}

const offersPrefix = "/offersrpc.Offers/"

// reported is what the daemon reports to lnd.
func (m *permRun) report(b *boltnd.Boltnd, host *grpc.Server) {
	served := []string{}
	for n, s := range host.GetServiceInfo() {
		for _, x := range s.Methods {
			served = append(served, strings.TrimPrefix(
				"/"+n+"/"+x.Name, offersPrefix,
			))
		}
	}
	sort.Strings(served)
	perms := []obj{}
	for k, ops := range b.Permissions() {
		os := []obj{}
		for _, o := range ops {
			os = append(os, obj{"entity": o.Entity, "action": o.Action})
		}
		perms = append(perms, obj{
			"meth": strings.TrimPrefix(k, offersPrefix), "ops": os,
		})
	}
	sort.Slice(perms, func(i, j int) bool {
		return perms[i]["meth"].(string) < perms[j]["meth"].(string)
	})
	m.log.add(obj{"e": "perms", "served": served, "perms": perms})
}

type stubCodec struct{}

func (stubCodec) Marshal(interface{}) ([]byte, error) { return nil, nil }
func (stubCodec) Unmarshal([]byte, interface{}) error { return nil }
func (stubCodec) Name() string                        { return "proto" }
func (stubCodec) String() string                      { return "proto" }

func runPermScenario(sc scPerm) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	d := &daemonRun{
		log: &elog{}, t0: time.Now(), us: randKey(r), gate: newWaiter(),
		lis: bufconn.Listen(1 << 20), lose: make(chan struct{}),
	}
	log := &elog{}
	m := &permRun{
		daemonRun: d, log: log, keys: &permKeys{dead: map[int]bool{}},
	}
	m.svc = permBakery(m.keys)
	m.lnd.Store("up")

	// lnd, that the daemon is a client of.
	fake := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{
		Certificates: []tls.Certificate{daemonCert()},
	})))
	lnrpc.RegisterLightningServer(fake, m)
	lnrpc.RegisterStateServer(fake, m)
	verrpc.RegisterVersionerServer(fake, &daemonVer{m: d})
	go func() { _ = fake.Serve(d.lis) }()
	defer fake.Stop()

	b, err := boltnd.NewBoltnd(
		boltnd.OptionLNDClient(&lndclient.LndServicesConfig{
			LndAddress: "lnd", Network: lndclient.NetworkRegtest,
			CustomMacaroonHex: "0201036c6e64", Insecure: true,
			Dialer: d.dial, RPCTimeout: 5 * time.Second,
			CheckVersion: &verrpc.Version{
				AppMinor:  15,
				BuildTags: lndclient.DefaultBuildTags,
			},
		}),
		func(c *boltnd.Config) error {
			c.LNDRetires, c.LNDWait = 0, 0
			return nil
		},
	)
	must(err)
	d.b = b

	// lnd's own server, that the daemon is part of: as in lnd's main
	// program and its rpcserver.
	chain := rpcperms.NewInterceptorChain(btclog.Disabled, false, nil)
	must(chain.Start())
	defer func() { _ = chain.Stop() }()
	chain.AddMacaroonService(m.svc)
	chain.SetRPCActive()
	for k, ops := range b.Permissions() {
		if err := chain.AddPermission(k, ops); err != nil {
			log.add(obj{"e": "badperms"})
		}
		must(m.svc.RegisterExternalValidator(k, b))
	}
	host := grpc.NewServer(append(
		chain.CreateServerOpts(),
		grpc.ChainUnaryInterceptor(func(ctx context.Context,
			_ interface{}, _ *grpc.UnaryServerInfo,
			_ grpc.UnaryHandler) (interface{}, error) {

			return nil, m.through(ctx)
		}),
		grpc.ChainStreamInterceptor(func(_ interface{},
			s grpc.ServerStream, _ *grpc.StreamServerInfo,
			_ grpc.StreamHandler) error {

			return m.through(s.Context())
		}),
	)...)
	must(b.RegisterGrpcSubserver(host))
	m.report(b, host)
	streams := map[string]bool{}
	for n, s := range host.GetServiceInfo() {
		for _, x := range s.Methods {
			streams["/"+n+"/"+x.Name] = x.IsServerStream || x.IsClientStream
		}
	}
	hl := bufconn.Listen(1 << 20)
	go func() { _ = host.Serve(hl) }()
	defer host.Stop()
	cc, err := grpc.Dial("host", grpc.WithInsecure(), grpc.WithContextDialer(
		func(context.Context, string) (net.Conn, error) {
			return hl.Dial()
		},
	))
	must(err)
	defer cc.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	macs := map[int][]byte{}
	foreign := permBakery(bakery.NewMemRootKeyStore())
	bake := func(svc *macaroons.Service, k int, ops []bakery.Op,
		cav string) []byte {

		var cavs []checkers.Caveat
		switch cav {
		case "future":
			cavs = append(cavs, checkers.TimeBeforeCaveat(
				time.Now().Add(time.Hour)))
		case "expired":
			cavs = append(cavs, checkers.TimeBeforeCaveat(
				time.Now().Add(-time.Duration(1+r.Intn(1e9)))))
		case "unknown":
			cavs = append(cavs, checkers.Caveat{
				Condition: "verif nobody knows this",
				Namespace: "std",
			})
		}
		mac, err := svc.Oven.NewMacaroon(
			context.WithValue(ctx, permKeyID{}, k),
			bakery.LatestVersion, cavs, ops...,
		)
		must(err)
		raw, err := mac.M().MarshalBinary()
		must(err)
		return raw
	}
	started, stopped := false, false
	for _, st := range sc.Sched {
		st := st
		switch st.A {
		case "start":
			log.add(obj{"e": "start"})
			started = true
			m.pend.Add(1)
			d.gate.release("ok")
			go func() {
				defer m.pend.Add(-1)
				err := b.Start()
				log.add(obj{"e": "startret", "ok": err == nil})
			}()
		case "stop":
			log.add(obj{"e": "stop"})
			stopped = true
			_ = b.Stop()
		case "lnd":
			log.add(obj{"e": "lnd", "r": st.R})
			m.lnd.Store(st.R)
		case "revoke":
			log.add(obj{"e": "revoke", "k": st.K})
			m.keys.mtx.Lock()
			m.keys.dead[st.K] = true
			m.keys.mtx.Unlock()
		case "bake":
			ops := []bakery.Op{}
			for _, o := range st.Ops {
				a := o.Action
				if o.Entity == "uri" {
					a = offersPrefix + a
				}
				ops = append(ops, bakery.Op{Entity: o.Entity, Action: a})
			}
			if len(ops) == 0 {
				// There is no macaroon for nothing at all.
				ops = append(ops, bakery.Op{
					Entity: "verif", Action: "nothing",
				})
			}
			r.Shuffle(len(ops), func(i, j int) {
				ops[i], ops[j] = ops[j], ops[i]
			})
			o := []obj{}
			for _, x := range st.Ops {
				o = append(o, obj{"entity": x.Entity, "action": x.Action})
			}
			log.add(obj{"e": "bake", "m": st.M, "k": st.K, "ops": o,
				"cav": st.Cav})
			macs[st.M] = bake(m.svc, st.K, ops, st.Cav)
		case "call":
			md := []string{"verif", fmt.Sprint(st.C)}
			raw := macs[st.M]
			switch st.R {
			case "ok":
				md = append(md, "macaroon", hex.EncodeToString(raw))
			case "upper":
				md = append(md, "macaroon", strings.ToUpper(hex.EncodeToString(raw)))
			case "none":
			case "empty":
				md = append(md, "macaroon", "")
			case "garbage":
				g := randBytes(r, 1+r.Intn(80))
				s := hex.EncodeToString(g)
				if r.Intn(2) == 0 {
					s += "x"
				}
				md = append(md, "macaroon", s)
			case "forged":
				// Everything is allowed, by somebody else.
				f := bake(foreign, 1, []bakery.Op{
					{Entity: "peers", Action: "write"},
					{Entity: "offchain", Action: "read"},
					{Entity: "uri", Action: offersPrefix + st.Meth},
				}, "")
				md = append(md, "macaroon", hex.EncodeToString(f))
			case "broken":
				// The signature is wrong.
				mac := &macaroon.Macaroon{}
				must(mac.UnmarshalBinary(raw))
				sig := mac.Signature()
				x := bytes.Replace(raw, sig, randBytes(r, len(sig)), 1)
				md = append(md, "macaroon", hex.EncodeToString(x))
			}
			log.add(obj{"e": "call", "c": st.C, "meth": st.Meth,
				"m": st.M, "form": st.R, "req": st.Req})
			m.pend.Add(1)
			full := offersPrefix + st.Meth
			if st.Direct {
				req := []bakery.Op{}
				for _, o := range st.Req {
					req = append(req, bakery.Op{
						Entity: o.Entity, Action: o.Action,
					})
				}
				r.Shuffle(len(req), func(i, j int) {
					req[i], req[j] = req[j], req[i]
				})
				go func() {
					defer m.pend.Add(-1)
					var err error
					res := "through"
					p := guarded(func() {
						err = b.ValidateMacaroon(
							metadata.NewIncomingContext(
								ctx, metadata.Pairs(md...),
							), req, full,
						)
					})
					if p != "" {
						res = p
					} else if err != nil {
						res = "refused"
					}
					if ctx.Err() == nil {
						log.add(obj{"e": "ret", "c": st.C, "r": res})
					}
				}()
				break
			}
			go func() {
				defer m.pend.Add(-1)
				cctx := metadata.AppendToOutgoingContext(ctx, md...)
				in := &offersrpc.DecodeOfferRequest{}
				var err error
				if streams[full] {
					var s grpc.ClientStream
					s, err = cc.NewStream(cctx, &grpc.StreamDesc{
						ServerStreams: true, ClientStreams: true,
					}, full, grpc.ForceCodec(stubCodec{}))
					if err == nil {
						_ = s.SendMsg(in)
						_ = s.CloseSend()
						err = s.RecvMsg(in)
					}
				} else {
					err = cc.Invoke(cctx, full, in, in,
						grpc.ForceCodec(stubCodec{}))
				}
				if ctx.Err() != nil {
					return
				}
				res := "refused"
				if _, ok := m.seen.Load(fmt.Sprint(st.C)); ok {
					res = "through"
				} else if err == nil {
					res = "strange"
				}
				log.add(obj{"e": "ret", "c": st.C, "r": res})
			}()
		case "quiet":
			log.quiesce(quietTime)
			log.add(obj{"e": "quiet"})
		}
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	if !started || stopped {
		log.settle(quietTime, quietTime*4, func() bool { return m.pend.Load() > 0 })
	} else {
		log.settle(quietTime, graceTime, func() bool { return m.pend.Load() > 0 })
	}
	if !stopped {
		log.add(obj{"e": "stop"})
		_ = b.Stop()
	}
	log.settle(quietTime, graceTime, func() bool { return m.pend.Load() > 0 })
	log.add(obj{"e": "quiet"})
	m.report(b, host)
	return obj{"id": sc.ID, "ev": log.snapshot()}
}

func runPerm(in string) {
	var scs []scPerm
	readLines(in, func(b []byte) {
		var sc scPerm
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runPermScenario(scs[i]))
	})
}
