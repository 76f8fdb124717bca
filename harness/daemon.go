package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"errors"
	"math/big"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/lnrpc"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
)

func init() { modes["daemon"] = runDaemon }

// Scenarios of the life of a real daemon. Steps: start c, stop c, call c,
// tell r (how the next attempt to connect ends), lose, sleep c, quiet.
type daemonStep struct {
	A string `json:"a"`
	C int    `json:"c"`
	R string `json:"r"`
}

type scDaemon struct {
	ID   int `json:"id"`
	Conf struct {
		Opt     string `json:"opt"`
		Client  bool   `json:"client"`
		Version []int  `json:"version"`
		Wait    int    `json:"wait"`
	} `json:"conf"`
	Retries int          `json:"retries"`
	CB      bool         `json:"cb"`
	CBStop  bool         `json:"cbstop"`
	Sched   []daemonStep `json:"sched"`
}

type daemonRun struct {
	log  *elog
	t0   time.Time
	us   *btcec.PrivateKey
	b    *boltnd.Boltnd
	gate *waiter
	lis  *bufconn.Listener
	pend atomic.Int32
	rpcs atomic.Int32

	mtx  sync.Mutex
	kind string // of the attempt in progress
	told bool
	lose chan struct{}

	lnrpc.UnimplementedLightningServer
	lnrpc.UnimplementedStateServer
}

type daemonVer struct {
	verrpc.UnimplementedVersionerServer
	m *daemonRun
}

func (m *daemonRun) now() int64 { return time.Since(m.t0).Milliseconds() }

// await waits for the result of this attempt.
func (m *daemonRun) await() string {
	k := m.gate.wait()
	m.mtx.Lock()
	m.kind, m.told = k, true
	m.mtx.Unlock()
	m.log.add(obj{"e": "tell", "r": k, "t": m.now()})
	return k
}

type daemonConn struct {
	net.Conn
	log  *elog
	once sync.Once
}

func (c *daemonConn) Close() error {
	c.once.Do(func() { c.log.add(obj{"e": "unconn"}) })
	return c.Conn.Close()
}

func (m *daemonRun) dial(ctx context.Context, addr string) (net.Conn, error) {
	if addr != "lnd" {
		m.log.add(obj{"e": "elsewhere", "addr": addr})
	}
	m.log.add(obj{"e": "dial", "t": m.now()})
	m.mtx.Lock()
	m.kind, m.told = "", false
	m.mtx.Unlock()
	if m.await() == "refuse" {
		return nil, errors.New("verif: connection refused")
	}
	c, err := m.lis.Dial()
	if err != nil {
		return nil, err
	}
	m.log.add(obj{"e": "conn"})
	return &daemonConn{Conn: c, log: m.log}, nil
}

func (m *daemonRun) SubscribeState(_ *lnrpc.SubscribeStateRequest,
	s lnrpc.State_SubscribeStateServer) error {

	_ = s.Send(&lnrpc.SubscribeStateResponse{
		State: lnrpc.WalletState_SERVER_ACTIVE,
	})
	<-s.Context().Done()
	return nil
}

func (m *daemonRun) GetInfo(context.Context, *lnrpc.GetInfoRequest) (
	*lnrpc.GetInfoResponse, error) {

	m.log.touch()
	m.mtx.Lock()
	k := m.kind
	if k == "okfail" {
		// This one is fine, no other is.
		m.kind = "err"
	}
	m.mtx.Unlock()
	if k == "err" {
		return nil, status.Error(codes.Internal, "verif: no info")
	}
	n := "regtest"
	if k == "network" {
		n = "mainnet"
	}
	return &lnrpc.GetInfoResponse{
		IdentityPubkey: hex.EncodeToString(
			m.us.PubKey().SerializeCompressed(),
		),
		Chains:        []*lnrpc.Chain{{Chain: "bitcoin", Network: n}},
		SyncedToChain: true, SyncedToGraph: true,
	}, nil
}

func (v *daemonVer) GetVersion(context.Context, *verrpc.VersionRequest) (
	*verrpc.Version, error) {

	v.m.log.touch()
	v.m.mtx.Lock()
	defer v.m.mtx.Unlock()
	ver := &verrpc.Version{
		AppMajor: 9, BuildTags: lndclient.DefaultBuildTags,
	}
	if v.m.kind == "version" {
		ver.AppMajor, ver.AppMinor = 0, 14
	}
	return ver, nil
}

func (m *daemonRun) SubscribeCustomMessages(
	_ *lnrpc.SubscribeCustomMessagesRequest,
	s lnrpc.Lightning_SubscribeCustomMessagesServer) error {

	m.log.add(obj{"e": "sub"})
	select {
	case <-m.lose:
		m.log.add(obj{"e": "lose"})
		return status.Error(codes.Unavailable, "verif: gone")
	case <-s.Context().Done():
		m.log.add(obj{"e": "unsub"})
		return nil
	}
}

var (
	daemonCertOnce sync.Once
	daemonCertVal  tls.Certificate
)

func daemonCert() tls.Certificate {
	daemonCertOnce.Do(func() { daemonCertVal = makeDaemonCert() })
	return daemonCertVal
}

func makeDaemonCert() tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "lnd"},
		NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"lnd"},
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

// create makes the daemon.
func (m *daemonRun) create(sc *scDaemon, r *rand.Rand) (got string, err error) {
	client := &lndclient.LndServicesConfig{
		LndAddress: "lnd", Network: lndclient.NetworkRegtest,
		CustomMacaroonHex: "0201036c6e64", Insecure: true,
		Dialer:                m.dial,
		RPCTimeout:            5 * time.Second,
		BlockUntilUnlocked:    r.Intn(2) == 0,
		BlockUntilChainSynced: r.Intn(2) == 0,
	}
	for _, s := range sc.Sched {
		if s.R == "okfail" {
			client.BlockUntilChainSynced = false
		}
	}
	if len(sc.Conf.Version) == 3 {
		v := sc.Conf.Version
		client.CheckVersion = &verrpc.Version{
			AppMajor: uint32(v[0]), AppMinor: uint32(v[1]),
			AppPatch: uint32(v[2]), BuildTags: lndclient.DefaultBuildTags,
		}
	}
	if !sc.Conf.Client {
		client = nil
	}
	var last *boltnd.Config
	opts := []boltnd.ConfigOption{
		boltnd.OptionLNDClient(client),
		func(c *boltnd.Config) error {
			c.LNDRetires = uint8(sc.Retries)
			c.LNDWait = time.Duration(sc.Conf.Wait) * time.Millisecond
			if sc.Conf.Wait < 0 {
				c.LNDWait = time.Duration(sc.Conf.Wait)
			}
			last = c
			return nil
		},
	}
	if sc.Conf.Opt == "fail" {
		opts = append(opts, func(*boltnd.Config) error {
			return errors.New("verif: option fails")
		})
	} else if sc.Conf.Opt != "" {
		lc := lnd.DefaultConfig()
		lc.RPCListeners = []net.Addr{
			&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4321},
			&net.TCPAddr{IP: net.IPv4(127, 0, 0, 2), Port: 4322},
		}
		lc.AdminMacPath, lc.TLSCertPath = "/nowhere/a", "/nowhere/t"
		switch sc.Conf.Opt {
		case "nolistener":
			lc.Bitcoin.MainNet = true
			lc.RPCListeners = nil
		case "mainnet":
			lc.Bitcoin.MainNet = true
		case "testnet":
			lc.Bitcoin.TestNet3 = true
		case "regtest":
			lc.Bitcoin.RegTest = true
		case "simnet":
			lc.Bitcoin.SimNet = true
		}
		opts = append(opts, boltnd.OptionLNDConfig(&lc))
	}
	if sc.CB {
		opts = append(opts, boltnd.OptionRequestShutdown(func() {
			m.log.add(obj{"e": "report"})
			if sc.CBStop {
				m.stop(900)
			}
		}))
	}
	m.b, err = boltnd.NewBoltnd(opts...)
	if err == nil && last != nil && last.LndClientCfg != nil {
		got = string(last.LndClientCfg.Network)
	}
	return got, err
}

func (m *daemonRun) async(n *atomic.Int32, f func() error,
	done func(err error, p string)) {

	n.Add(1)
	go func() {
		defer n.Add(-1)
		var err error
		p := guarded(func() { err = f() })
		done(err, p)
	}()
}

func (m *daemonRun) result(e string, c int) func(error, string) {
	return func(err error, p string) {
		if p != "" {
			m.log.add(obj{"e": p})
			return
		}
		m.log.add(obj{"e": e, "c": c, "ok": err == nil})
	}
}

func (m *daemonRun) start(c int) {
	m.log.add(obj{"e": "start", "c": c})
	m.async(&m.pend, m.b.Start, m.result("startret", c))
}

func (m *daemonRun) stop(c int) {
	m.log.add(obj{"e": "stop", "c": c})
	m.async(&m.pend, m.b.Stop, m.result("stopret", c))
}

func runDaemonScenario(sc scDaemon) obj {
	r := newRand(seed*1000003 + int64(sc.ID))
	m := &daemonRun{
		log: &elog{}, t0: time.Now(), us: randKey(r), gate: newWaiter(),
		lis: bufconn.Listen(1 << 20), lose: make(chan struct{}),
	}
	got, err := m.create(&sc, r)
	m.log.add(obj{
		"e": "new", "conf": sc.Conf, "retries": sc.Retries, "cb": sc.CB,
		"ok": err == nil, "net": got,
	})
	if err != nil || sc.Conf.Opt != "" {
		return obj{"id": sc.ID, "ev": m.log.snapshot()}
	}

	fake := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{
		Certificates: []tls.Certificate{daemonCert()},
	})))
	lnrpc.RegisterLightningServer(fake, m)
	lnrpc.RegisterStateServer(fake, m)
	verrpc.RegisterVersionerServer(fake, &daemonVer{m: m})
	go func() { _ = fake.Serve(m.lis) }()
	defer fake.Stop()

	// The gRPC server that the daemon registers with.
	host := grpc.NewServer()
	must(m.b.RegisterGrpcSubserver(host))
	hl := bufconn.Listen(1 << 20)
	go func() { _ = host.Serve(hl) }()
	defer host.Stop()
	cc, err := grpc.Dial("host", grpc.WithInsecure(), grpc.WithContextDialer(
		func(context.Context, string) (net.Conn, error) {
			return hl.Dial()
		},
	))
	must(err)
	defer cc.Close()
	offers := offersrpc.NewOffersClient(cc)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	stops, lost := 0, false
	for _, st := range sc.Sched {
		st := st
		switch st.A {
		case "start":
			m.start(st.C)
		case "stop":
			stops++
			m.stop(st.C)
		case "tell":
			m.log.touch()
			m.gate.release(st.R)
		case "lose":
			if !lost {
				lost = true
				m.log.touch()
				close(m.lose)
			}
		case "call":
			m.log.add(obj{"e": "call", "c": st.C})
			m.async(&m.rpcs, func() error {
				_, err := offers.DecodeOffer(
					ctx, &offersrpc.DecodeOfferRequest{},
				)
				return err
			}, func(err error, p string) {
				s, _ := status.FromError(err)
				res := s.Code().String()
				if res == "InvalidArgument" {
					res = "served"
				}
				m.log.add(obj{"e": "ret", "c": st.C, "r": res})
			})
		case "sleep":
			time.Sleep(time.Duration(st.C) * time.Millisecond)
		case "quiet":
			m.log.quiesce(quietTime)
			m.log.add(obj{"e": "quiet", "t": m.now()})
		}
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
		}
	}
	// Let all that is going on come to its end.
	for i := 0; i < 300; i++ {
		m.gate.release("err")
	}
	m.log.settle(quietTime, graceTime, func() bool { return m.pend.Load() > 0 })
	m.log.add(obj{"e": "quiet", "t": m.now()})
	if stops == 0 {
		m.stop(1000)
	}
	m.log.settle(quietTime, graceTime, func() bool { return m.pend.Load()+m.rpcs.Load() > 0 })
	m.log.add(obj{"e": "quiet", "long": true, "t": m.now()})
	ev := m.log.snapshot()
	return obj{"id": sc.ID, "ev": ev}
}

func runDaemon(in string) {
	var scs []scDaemon
	readLines(in, func(b []byte) {
		var sc scDaemon
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	parallel(len(scs), workers, func(i int) {
		emit(obj{"begin": scs[i].ID})
		emit(runDaemonScenario(scs[i]))
	})
}
