// Command verifharness drives the real boltnd code through scenarios that were
// generated from the TLA+ specifications in /verif/spec and records what the
// code observably did. It lives in /verif and is compiled into the boltnd
// module with `go build -overlay`; nothing of it is part of /repo.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// obj is a generic JSON object.
type obj = map[string]interface{}

// ---------------------------------------------------------------------------
// Scenario input / output.

var outMtx sync.Mutex
var outW = bufio.NewWriterSize(os.Stdout, 1<<20)

// emit writes one JSON line of output and flushes it, so that everything that
// happened before a crash is visible to the driver.
func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprintf("harness: marshal: %v", err))
	}
	outMtx.Lock()
	defer outMtx.Unlock()
	outW.Write(b)
	outW.WriteByte('\n')
	outW.Flush()
}

// readLines calls f for each line of the file.
func readLines(path string, f func([]byte)) {
	file, err := os.Open(path)
	if err != nil {
		fatal("open input: %v", err)
	}
	defer file.Close()
	r := bufio.NewReaderSize(file, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 {
			f(line)
		}
		if err != nil {
			return
		}
	}
}

// fatal ends the harness because of a problem of its own.
func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fatal("%v\n%s", err, debug.Stack())
	}
}

// parallel runs all jobs with the given number of workers.
func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// inBoltnd reports whether the first frame of the stack that is neither the
// runtime nor a library belongs to boltnd (true) or to this harness (false).
func inBoltnd(stack string) bool {
	// Skip everything up to the panic call itself.
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/carlakc/boltnd/verifharness") {
			return false
		}
		if strings.HasPrefix(l, "github.com/carlakc/boltnd") {
			return true
		}
	}
	return false
}

// guarded runs f, which calls boltnd and looks at what it says, and returns a
// description of a panic in boltnd's code, or because what it returned can't be
// used, if there was one.
func guarded(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			_, rt := r.(runtime.Error)
			if !inBoltnd(stack) && !rt {
				fatal("panic in harness: %v\n%s", r, stack)
			}
			panicked = fmt.Sprintf("panic: %v at %s", r,
				boltndFrame(stack))
		}
	}()
	f()
	return ""
}

func boltndFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/carlakc/boltnd") &&
			i+1 < len(lines) {
			return strings.TrimSpace(lines[i+1])
		}
	}
	return "?"
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// ---------------------------------------------------------------------------
// Event log.

// elog is the totally ordered log of a scenario's observable events.
type elog struct {
	mtx    sync.Mutex
	events []obj
	n      int
	last   time.Time
}

func (e *elog) add(ev obj) {
	e.mtx.Lock()
	defer e.mtx.Unlock()
	e.events = append(e.events, ev)
	e.n++
	e.last = time.Now()
}

// touch records activity without an event, so quiescence isn't declared.
// hold lets time pass.
func (e *elog) hold(ms int) {
	for i := 0; i < ms; i += 20 {
		e.touch()
		time.Sleep(20 * time.Millisecond)
	}
}

func (e *elog) touch() {
	e.mtx.Lock()
	e.n++
	e.last = time.Now()
	e.mtx.Unlock()
}

func (e *elog) snapshot() []obj {
	e.mtx.Lock()
	defer e.mtx.Unlock()
	return append([]obj{}, e.events...)
}

// settle is quiesce with patience: as long as pending says that something is
// still expected, it waits for up to the grace period.
func (e *elog) settle(quiet, grace time.Duration, pending func() bool) {
	end := time.Now().Add(grace)
	for {
		e.quiesce(quiet)
		if !pending() || time.Now().After(end) {
			return
		}
		time.Sleep(quiet / 4)
	}
}

// quiesce waits until nothing has been logged for the duration given.
func (e *elog) quiesce(quiet time.Duration) {
	start := time.Now()
	for extra := 0; ; {
		e.mtx.Lock()
		last := e.last
		e.mtx.Unlock()
		if last.Before(start) {
			last = start
		}
		d := quiet - time.Since(last)
		if d <= 0 {
			return
		}
		// On a machine that is too busy to wake us up in time, silence
		// means less.
		t0 := time.Now()
		time.Sleep(d)
		if time.Since(t0)-d > 2*time.Millisecond && extra < 40 {
			extra++
			start = time.Now()
		}
	}
}

// ---------------------------------------------------------------------------
// Keys.

func keyFor(name string) *btcec.PrivateKey {
	h := sha256.Sum256([]byte("verif key " + name))
	k, _ := btcec.PrivKeyFromBytes(h[:])
	return k
}

// lockedSource is a source of randomness for use by several goroutines.
type lockedSource struct {
	mtx sync.Mutex
	src rand.Source64
}

func (l *lockedSource) Int63() int64 {
	l.mtx.Lock()
	defer l.mtx.Unlock()
	return l.src.Int63()
}

func (l *lockedSource) Uint64() uint64 {
	l.mtx.Lock()
	defer l.mtx.Unlock()
	return l.src.Uint64()
}

func (l *lockedSource) Seed(s int64) { l.src.Seed(s) }

func newRand(s int64) *rand.Rand {
	return rand.New(&lockedSource{
		src: rand.NewSource(s).(rand.Source64),
	})
}

func randKey(r *rand.Rand) *btcec.PrivateKey {
	for {
		k, _ := btcec.PrivKeyFromBytes(randBytes(r, 32))
		if !k.Key.IsZero() {
			return k
		}
	}
}

// negated is the key whose public key has the same x coordinate.
func negated(k *btcec.PrivateKey) *btcec.PrivateKey {
	n := *k
	n.Key.Negate()
	return &n
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64() >> 32)
	}
	return b
}

func vertex(p *btcec.PublicKey) route.Vertex { return route.NewVertex(p) }

// ---------------------------------------------------------------------------
// An encoder for TLV streams and onion messages that shares no code with
// boltnd.

func bigSize(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v <= 0xffff:
		b := []byte{0xfd, 0, 0}
		binary.BigEndian.PutUint16(b[1:], uint16(v))
		return b
	case v <= 0xffffffff:
		b := make([]byte, 5)
		b[0] = 0xfe
		binary.BigEndian.PutUint32(b[1:], uint32(v))
		return b
	default:
		b := make([]byte, 9)
		b[0] = 0xff
		binary.BigEndian.PutUint64(b[1:], v)
		return b
	}
}

type tlvRec struct {
	t uint64
	v []byte
}

func tlvStream(recs []tlvRec) []byte {
	var b []byte
	for _, r := range recs {
		b = append(b, bigSize(r.t)...)
		b = append(b, bigSize(uint64(len(r.v)))...)
		b = append(b, r.v...)
	}
	return b
}

// parseTLV splits a stream into its records.
func parseTLV(b []byte) ([]tlvRec, error) {
	var out []tlvRec
	for len(b) > 0 {
		t, n := readBigSize(b)
		if n == 0 {
			return nil, fmt.Errorf("bad type")
		}
		b = b[n:]
		l, n := readBigSize(b)
		if n == 0 || uint64(len(b)-n) < l {
			return nil, fmt.Errorf("bad length")
		}
		b = b[n:]
		out = append(out, tlvRec{t, append([]byte{}, b[:l]...)})
		b = b[l:]
	}
	return out, nil
}

func readBigSize(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	switch {
	case b[0] < 0xfd:
		return uint64(b[0]), 1
	case b[0] == 0xfd:
		if len(b) < 3 {
			return 0, 0
		}
		return uint64(binary.BigEndian.Uint16(b[1:])), 3
	case b[0] == 0xfe:
		if len(b) < 5 {
			return 0, 0
		}
		return uint64(binary.BigEndian.Uint32(b[1:])), 5
	default:
		if len(b) < 9 {
			return 0, 0
		}
		return binary.BigEndian.Uint64(b[1:]), 9
	}
}

// rpath is a reply path in the harness's own representation.
type rpath struct {
	first, blinding *btcec.PublicKey
	ids             []*btcec.PublicKey
	data            [][]byte
}

func (p *rpath) encode() []byte {
	b := append([]byte{}, p.first.SerializeCompressed()...)
	b = append(b, p.blinding.SerializeCompressed()...)
	b = append(b, byte(len(p.ids)))
	for i, id := range p.ids {
		b = append(b, id.SerializeCompressed()...)
		var l [2]byte
		binary.BigEndian.PutUint16(l[:], uint16(len(p.data[i])))
		b = append(b, l[:]...)
		b = append(b, p.data[i]...)
	}
	return b
}

// randPath creates a reply path with arbitrary contents.
func randPath(r *rand.Rand, hops, maxData int) *rpath {
	p := &rpath{
		first: randKey(r).PubKey(), blinding: randKey(r).PubKey(),
	}
	for i := 0; i < hops; i++ {
		p.ids = append(p.ids, randKey(r).PubKey())
		n := 0
		if maxData > 0 {
			n = r.Intn(maxData + 1)
		}
		p.data = append(p.data, randBytes(r, n))
	}
	return p
}

// onionHop is one hop of an onion: the key the onion is built for and the raw
// payload for it.
type onionHop struct {
	key     *btcec.PublicKey
	payload []byte
}

// buildOnion creates onion bytes for already blinded hops.
func buildOnion(session *btcec.PrivateKey, hops []onionHop) ([]byte, error) {
	var path sphinx.PaymentPath
	for i, h := range hops {
		path[i] = sphinx.OnionHop{
			NodePub: *h.key,
			HopPayload: sphinx.HopPayload{
				Type:    sphinx.PayloadTLV,
				Payload: h.payload,
			},
		}
	}
	pkt, err := sphinx.NewOnionPacket(
		&path, session, nil, sphinx.DeterministicPacketFiller,
	)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := pkt.Encode(&buf); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// onionMsg frames an onion as onion message.
func onionMsg(blinding *btcec.PublicKey, onion []byte) []byte {
	b := append([]byte{}, blinding.SerializeCompressed()...)
	var l [2]byte
	binary.BigEndian.PutUint16(l[:], uint16(len(onion)))
	b = append(b, l[:]...)
	return append(b, onion...)
}

// blind creates the blinded path for the nodes and plain text blobs.
func blind(blinding *btcec.PrivateKey, nodes []*btcec.PublicKey,
	data [][]byte) *sphinx.BlindedPath {

	hops := make([]*sphinx.BlindedPathHop, len(nodes))
	for i := range nodes {
		hops[i] = &sphinx.BlindedPathHop{
			NodePub: nodes[i], Payload: data[i],
		}
	}
	p, err := sphinx.BuildBlindedPath(blinding, hops)
	must(err)
	return p
}

// peel removes the outer layer of an onion message for the node with the key
// given, returning the blinding point, the payload, the next onion (nil for
// the final hop), and the derived next blinding point.
func peel(key *btcec.PrivateKey, data []byte) (payload, next []byte,
	nextBlinding *btcec.PublicKey, err error) {

	if len(data) < 35 {
		return nil, nil, nil, fmt.Errorf("short")
	}
	blinding, err := btcec.ParsePubKey(data[:33])
	if err != nil {
		return nil, nil, nil, err
	}
	ecdh := &sphinx.PrivKeyECDH{PrivKey: key}
	log := sphinx.NewMemoryReplayLog()
	must(log.Start())
	router := sphinx.NewRouter(ecdh, netParams, log)
	pkt := &sphinx.OnionPacket{}
	if err := pkt.Decode(bytes.NewReader(data[35:])); err != nil {
		return nil, nil, nil, err
	}
	p, err := router.ProcessOnionPacket(pkt, nil, 0, blinding)
	if err != nil {
		return nil, nil, nil, err
	}
	nextBlinding, err = sphinx.NextEphemeral(ecdh, blinding)
	must(err)
	if p.Action == sphinx.MoreHops {
		var buf bytes.Buffer
		must(p.NextPacket.Encode(&buf))
		next = buf.Bytes()
	}
	return p.Payload.Payload, next, nextBlinding, nil
}

// ---------------------------------------------------------------------------
// The custom message stream of a fake lnd.

type streamItem struct {
	msg  lndclient.CustomMessage
	fail string
	err  int // the number of the error, from 1, or 0 for any
}

// stream hands messages to the code under test in the same way as lndclient:
// one at a time, over an unbuffered channel.
type stream struct {
	log   *elog
	errs  func() error // the errors that it fails with
	items chan streamItem
	mtx   sync.Mutex
	queue []streamItem
	wake  chan struct{}
	// onAccept is called (if set) when the code took an item.
	onAccept func()
}

func newStream(l *elog, r *rand.Rand) *stream {
	return &stream{log: l, wake: make(chan struct{}, 1),
		errs: func() error { return anyErr(r) }}
}

// anyErr is one of the errors that lnd, lndclient and grpc come up with. What
// an error is called must not make a difference to how it is dealt with.
func anyErr(r *rand.Rand) error { return errNo(r.Intn(12)) }

func errNo(n int) error {
	switch n {
	case 0:
		return context.Canceled
	case 1:
		return fmt.Errorf("recv: %w", context.Canceled)
	case 2:
		return status.Error(codes.Canceled, "context canceled")
	case 3:
		return context.DeadlineExceeded
	case 4:
		return status.Error(codes.DeadlineExceeded, "verif: too late")
	case 5:
		return io.EOF
	case 6:
		return status.Error(codes.Unavailable, "transport is closing")
	case 7:
		return status.FromContextError(context.Canceled).Err()
	case 8:
		return status.Error(codes.Unknown, "EOF")
	case 9:
		return fmt.Errorf("peer not found: %w", io.ErrUnexpectedEOF)
	}
	return errors.New("verif: something failed")
}

func (it *streamItem) error(s *stream) error {
	if it.err > 0 {
		return errNo(it.err - 1)
	}
	return s.errs()
}

func (s *stream) offer(it streamItem) {
	s.mtx.Lock()
	s.queue = append(s.queue, it)
	s.mtx.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *stream) pending() bool {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return len(s.queue) > 0
}

func (s *stream) run(ctx context.Context) (<-chan lndclient.CustomMessage,
	<-chan error) {

	msgChan := make(chan lndclient.CustomMessage)
	errChan := make(chan error, 1)
	go func() {
		for {
			s.mtx.Lock()
			var it *streamItem
			if len(s.queue) > 0 {
				it = &s.queue[0]
			}
			s.mtx.Unlock()
			if it == nil {
				select {
				case <-s.wake:
					continue
				case <-ctx.Done():
					return
				}
			}
			switch it.fail {
			case "":
				select {
				case msgChan <- it.msg:
				case <-ctx.Done():
					return
				}
			case "err":
				// As lndclient: error first, then both close.
				errChan <- it.error(s)
				close(errChan)
				close(msgChan)
				return
			case "errchan":
				errChan <- it.error(s)
				return
			case "closemsg":
				close(msgChan)
				return
			case "closeerr":
				close(errChan)
				return
			}
			s.log.touch()
			s.mtx.Lock()
			s.queue = s.queue[1:]
			s.mtx.Unlock()
			if s.onAccept != nil {
				s.onAccept()
			}
		}
	}()
	return msgChan, errChan
}

func parseKey(b []byte) (*btcec.PublicKey, error) { return btcec.ParsePubKey(b) }

// openBlob decrypts the data that an onion message carries for the node with
// the key given, and returns the next node and the blinding point override.
func openBlob(key *btcec.PrivateKey, data, blob []byte) (next,
	override *btcec.PublicKey) {

	blinding, err := btcec.ParsePubKey(data[:33])
	if err != nil {
		return nil, nil
	}
	plain, err := sphinx.DecryptBlindedData(
		&sphinx.PrivKeyECDH{PrivKey: key}, blinding, blob,
	)
	if err != nil {
		return nil, nil
	}
	recs, err := parseTLV(plain)
	if err != nil {
		return nil, nil
	}
	for _, r := range recs {
		switch r.t {
		case 4:
			next, _ = btcec.ParsePubKey(r.v)
		case 8:
			override, _ = btcec.ParsePubKey(r.v)
		}
	}
	return next, override
}

// peelPlain removes the outer layer of an onion for a key that isn't blinded.
func peelPlain(key *btcec.PrivateKey, data []byte) (payload, next []byte,
	err error) {

	log := sphinx.NewMemoryReplayLog()
	must(log.Start())
	router := sphinx.NewRouter(
		&sphinx.PrivKeyECDH{PrivKey: key}, netParams, log,
	)
	if len(data) < 35 {
		return nil, nil, fmt.Errorf("short")
	}
	pkt := &sphinx.OnionPacket{}
	if err := pkt.Decode(bytes.NewReader(data[35:])); err != nil {
		return nil, nil, err
	}
	p, err := router.ProcessOnionPacket(pkt, nil, 0, nil)
	if err != nil {
		return nil, nil, err
	}
	if p.Action == sphinx.MoreHops {
		var buf bytes.Buffer
		must(p.NextPacket.Encode(&buf))
		next = buf.Bytes()
	}
	return p.Payload.Payload, next, nil
}
