package main

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/metadata"
)

// fakeLnd stands in for the lnd node that boltnd is attached to. Calls whose
// function isn't set fail.
type fakeLnd struct {
	lndclient.LightningClient
	key *btcec.PrivateKey

	subscribe    func(context.Context) (<-chan lndclient.CustomMessage, <-chan error, error)
	send         func(context.Context, lndclient.CustomMessage) error
	listPeers    func(context.Context) ([]lndclient.Peer, error)
	nodeInfo     func(context.Context, route.Vertex, bool) (*lndclient.NodeInfo, error)
	connect      func(context.Context, route.Vertex, string, bool) error
	queryRoutes  func(context.Context, lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error)
	listChannels func(context.Context, bool, bool) ([]lndclient.ChannelInfo, error)
	getInfo      func(context.Context) error
	ecdhFails    func(context.Context, *btcec.PublicKey) error
	// any is called for every call.
	any func(name string)
}

var errFake = errors.New("verif: not expected")

func (f *fakeLnd) note(n string) {
	if f.any != nil {
		f.any(n)
	}
}

func (f *fakeLnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	if f.getInfo != nil {
		if err := f.getInfo(ctx); err != nil {
			return nil, err
		}
	}
	return &lndclient.Info{
		IdentityPubkey: vertex(f.key.PubKey()), Network: "regtest",
		SyncedToChain: true, SyncedToGraph: true,
	}, nil
}

func (f *fakeLnd) SubscribeCustomMessages(ctx context.Context) (
	<-chan lndclient.CustomMessage, <-chan error, error) {

	if f.subscribe == nil {
		// Nothing ever arrives.
		return make(chan lndclient.CustomMessage), make(chan error), nil
	}
	return f.subscribe(ctx)
}

func (f *fakeLnd) SendCustomMessage(ctx context.Context,
	m lndclient.CustomMessage) error {

	f.note("send")
	if f.send == nil {
		return errFake
	}
	return f.send(ctx, m)
}

func (f *fakeLnd) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	f.note("listpeers")
	if f.listPeers == nil {
		return nil, errFake
	}
	return f.listPeers(ctx)
}

func (f *fakeLnd) GetNodeInfo(ctx context.Context, v route.Vertex,
	ch bool) (*lndclient.NodeInfo, error) {

	f.note("nodeinfo")
	if f.nodeInfo == nil {
		return nil, errFake
	}
	return f.nodeInfo(ctx, v, ch)
}

func (f *fakeLnd) Connect(ctx context.Context, v route.Vertex, host string,
	perm bool) error {

	f.note("connect")
	if f.connect == nil {
		return errFake
	}
	return f.connect(ctx, v, host, perm)
}

func (f *fakeLnd) QueryRoutes(ctx context.Context,
	r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {

	f.note("queryroutes")
	if f.queryRoutes == nil {
		return nil, errFake
	}
	return f.queryRoutes(ctx, r)
}

func (f *fakeLnd) ListChannels(ctx context.Context, active,
	public bool) ([]lndclient.ChannelInfo, error) {

	f.note("listchannels")
	if f.listChannels == nil {
		return nil, errFake
	}
	return f.listChannels(ctx, active, public)
}

// fakeSigner does what lnd's signer does with the node's key.
type fakeSigner struct {
	lndclient.SignerClient
	key  *btcec.PrivateKey
	fail func(context.Context, *btcec.PublicKey) error
}

func (f *fakeSigner) DeriveSharedKey(ctx context.Context, p *btcec.PublicKey,
	loc *keychain.KeyLocator) ([32]byte, error) {

	if loc != nil && (loc.Family != keychain.KeyFamilyNodeKey ||
		loc.Index != 0) {

		return [32]byte{}, errors.New("verif: not the node key")
	}
	if f.fail != nil {
		if err := f.fail(ctx, p); err != nil {
			return [32]byte{}, err
		}
	}
	return (&sphinx.PrivKeyECDH{PrivKey: f.key}).ECDH(p)
}

func (f *fakeLnd) services() *lndclient.LndServices {
	return &lndclient.LndServices{
		Client: f, Signer: &fakeSigner{key: f.key, fail: f.ecdhFails},
		ChainParams: netParams, NodePubkey: vertex(f.key.PubKey()),
	}
}

// newServer creates a server, its shutdown callback logs an event.
func newServer(l *elog) *rpcserver.Server {
	s, err := rpcserver.NewServer(func(err error) {
		if l != nil {
			l.add(obj{"e": "cb", "r": err != nil})
		}
	})
	must(err)
	return s
}

// srvStream is the server side of a subscription.
type srvStream struct {
	ctx context.Context
}

func (s *srvStream) SetHeader(metadata.MD) error  { return nil }
func (s *srvStream) SendHeader(metadata.MD) error { return nil }
func (s *srvStream) SetTrailer(metadata.MD)       {}
func (s *srvStream) Context() context.Context     { return s.ctx }
func (s *srvStream) SendMsg(interface{}) error    { return errFake }
func (s *srvStream) RecvMsg(interface{}) error    { return errFake }

// waiter is a gate that calls pass one by one, or freely once it is open.
type waiter struct {
	tokens chan string
	open   chan struct{}
	once   sync.Once
}

func newWaiter() *waiter {
	return &waiter{tokens: make(chan string, 1000), open: make(chan struct{})}
}

func (w *waiter) release(r string) { w.tokens <- r }
func (w *waiter) openUp()          { w.once.Do(func() { close(w.open) }) }

func (w *waiter) wait() string {
	select {
	case r := <-w.tokens:
		return r
	default:
	}
	select {
	case r := <-w.tokens:
		return r
	case <-w.open:
		return "ok"
	}
}

// within reports whether f returned in the time given.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
