package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/build"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"github.com/lightningnetwork/lnd/signal"
)

func init() { modes["config"] = runConfig }

// Daemons that are created one after the other.
type scConfig struct {
	ID    int          `json:"id"`
	Lists [][]cfgOptSC `json:"lists"`
}

type cfgOptSC struct {
	K      string          `json:"k"`
	Listen []string        `json:"listen"`
	Net    string          `json:"net"`
	Mac    string          `json:"mac"`
	TLS    string          `json:"tls"`
	C      json.RawMessage `json:"c"`
	F      string          `json:"f"`
	V      string          `json:"v"`
	N      int64           `json:"n"`
}

// cfgClient is a client configuration as the specification has it.
type cfgClient struct {
	Addr     string `json:"addr"`
	MacDir   string `json:"macdir"`
	Mac      string `json:"mac"`
	TLS      string `json:"tls"`
	Ver      string `json:"ver"`
	Net      string `json:"net"`
	Sync     string `json:"sync"`
	Unlocked string `json:"unlocked"`
	Rest     string `json:"rest"`
}

// cfgAddr is the address that stands for a name.
func cfgAddr(n string) net.Addr {
	switch n {
	case "a":
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4321}
	case "b":
		return &net.TCPAddr{IP: net.ParseIP("::1"), Port: 10009}
	}
	return &net.UnixAddr{Net: "unix", Name: "/nowhere/lnd.sock"}
}

func cfgVersion(v string) *verrpc.Version {
	switch v {
	case "none":
		return nil
	case "low":
		return &verrpc.Version{AppMinor: 14, AppPatch: 99}
	case "high":
		return &verrpc.Version{
			AppMajor: 1, BuildTags: lndclient.DefaultBuildTags,
		}
	}
	return &verrpc.Version{
		AppMinor: 15, BuildTags: []string{
			"signrpc", "walletrpc", "chainrpc", "invoicesrpc",
		},
	}
}

var cfgNets = map[string]lndclient.Network{
	"mainnet": lndclient.NetworkMainnet, "testnet": lndclient.NetworkTestnet,
	"regtest": lndclient.NetworkRegtest, "simnet": lndclient.NetworkSimnet,
}

func yesNo(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// asSpec says what a configuration is in terms of the specification.
func asSpec(c *boltnd.Config, shut *string) obj {
	out := obj{
		"retries": int(c.LNDRetires), "log": "", "shut": "",
		"wait":   int(c.LNDWait / time.Millisecond),
		"client": obj{"addr": "none"},
	}
	if c.LNDWait%time.Millisecond != 0 {
		out["wait"] = c.LNDWait.String()
	}
	if c.RequestShutdown != nil {
		*shut = "?"
		c.RequestShutdown()
		out["shut"] = *shut
	}
	l := c.LndClientCfg
	if l == nil {
		return out
	}
	cl := cfgClient{
		Addr: l.LndAddress, MacDir: l.MacaroonDir,
		Mac: l.CustomMacaroonPath, TLS: l.TLSPath,
		Net: string(l.Network), Sync: yesNo(l.BlockUntilChainSynced),
		Unlocked: yesNo(l.BlockUntilUnlocked), Rest: l.CustomMacaroonHex,
	}
	for _, n := range []string{"a", "b", "c"} {
		if l.LndAddress == cfgAddr(n).String() {
			cl.Addr = n
		}
	}
	if l.LndAddress == "localhost:10009" {
		cl.Addr = "default"
	}
	if l.MacaroonDir == filepath.Join(lnd.DefaultLndDir, "data", "chain",
		"mainnet") {

		cl.MacDir = "default"
	}
	if l.TLSPath == filepath.Join(lnd.DefaultLndDir, "tls.cert") {
		cl.TLS = "default"
	}
	if l.TLSData != "" || l.Insecure || l.SystemCert || l.Dialer != nil ||
		l.CallerCtx != nil || l.RPCTimeout != 0 {

		cl.Rest += fmt.Sprintf("?%v", l)
	}
	v := l.CheckVersion
	switch {
	case v == nil:
		cl.Ver = "none"
	case v.AppMajor == 0 && v.AppMinor < 15:
		cl.Ver = "low"
	case v.AppMajor > 0:
		cl.Ver = "high"
	case v.AppMinor == 15 && v.AppPatch == 0 && strings.Join(
		v.BuildTags, " ") == "signrpc walletrpc chainrpc invoicesrpc":

		cl.Ver = "min"
	default:
		cl.Ver = v.String()
	}
	out["client"] = cl
	return out
}

func runConfigScenario(sc scConfig) obj {
	log := &elog{}
	var last *boltnd.Config
	for _, list := range sc.Lists {
		var (
			opts []boltnd.ConfigOption
			n    int
			logs = [][]string{}
			shut string
			root []*build.RotatingLogWriter
			desc = []interface{}{}
		)
		last = nil
		// add adds an option, counting how many were applied.
		add := func(o boltnd.ConfigOption) {
			opts = append(opts, func(c *boltnd.Config) error {
				last = c
				if err := o(c); err != nil {
					return err
				}
				n++
				return nil
			})
		}
		for _, o := range list {
			o := o
			switch o.K {
			case "lnd":
				lc := lnd.DefaultConfig()
				lc.RPCListeners = nil
				for _, a := range o.Listen {
					lc.RPCListeners = append(
						lc.RPCListeners, cfgAddr(a),
					)
				}
				lc.AdminMacPath, lc.TLSCertPath = o.Mac, o.TLS
				lc.Bitcoin.MainNet = o.Net == "mainnet"
				lc.Bitcoin.TestNet3 = o.Net == "testnet"
				lc.Bitcoin.RegTest = o.Net == "regtest"
				lc.Bitcoin.SimNet = o.Net == "simnet"
				add(boltnd.OptionLNDConfig(&lc))
			case "client":
				var cl cfgClient
				must(json.Unmarshal(o.C, &cl))
				if cl.Addr == "none" {
					add(boltnd.OptionLNDClient(nil))
					break
				}
				add(boltnd.OptionLNDClient(
					&lndclient.LndServicesConfig{
						LndAddress:            cfgAddr(cl.Addr).String(),
						MacaroonDir:           cl.MacDir,
						CustomMacaroonPath:    cl.Mac,
						CustomMacaroonHex:     cl.Rest,
						TLSPath:               cl.TLS,
						CheckVersion:          cfgVersion(cl.Ver),
						Network:               cfgNets[cl.Net],
						BlockUntilChainSynced: cl.Sync == "yes",
						BlockUntilUnlocked:    cl.Unlocked == "yes",
					},
				))
			case "edit":
				add(func(c *boltnd.Config) error {
					l := c.LndClientCfg
					switch o.F {
					case "addr":
						l.LndAddress = cfgAddr(
							o.V,
						).String()
					case "net":
						l.Network = cfgNets[o.V]
					case "ver":
						l.CheckVersion = cfgVersion(
							o.V,
						)
					case "sync":
						l.BlockUntilChainSynced = o.V == "yes"
					}
					return nil
				})
			case "num":
				switch o.F {
				case "retries":
					add(func(c *boltnd.Config) error {
						c.LNDRetires = uint8(o.N)
						return nil
					})
				case "wait":
					add(func(c *boltnd.Config) error {
						c.LNDWait = time.Duration(o.N) *
							time.Millisecond
						return nil
					})
				}
			case "set":
				switch o.F {
				case "log":
					switch o.V {
					case "":
						add(boltnd.OptionSetupLogger(nil))
					case "lnd":
						w := build.NewRotatingLogWriter()
						root = append(root, w)
						add(boltnd.OptionLNDLogger(
							w, signal.Interceptor{},
						))
					default:
						add(boltnd.OptionSetupLogger(func(
							s string,
							_ boltnd.LogRegistration) {

							logs = append(logs, []string{
								o.V, s,
							})
						}))
					}
				case "shut":
					if o.V == "" {
						add(boltnd.OptionRequestShutdown(nil))
						break
					}
					add(boltnd.OptionRequestShutdown(func() {
						shut = o.V
					}))
				}
			case "fail":
				add(func(*boltnd.Config) error {
					return errors.New("verif: no")
				})
			}
			m := obj{"k": o.K}
			switch o.K {
			case "lnd":
				m["listen"], m["net"] = o.Listen, o.Net
				m["mac"], m["tls"] = o.Mac, o.TLS
				if o.Listen == nil {
					m["listen"] = []string{}
				}
			case "client":
				m["c"] = o.C
			case "edit", "set":
				m["f"], m["v"] = o.F, o.V
			case "num":
				m["f"], m["n"] = o.F, o.N
			}
			desc = append(desc, m)
		}
		// Have a look at what comes out of it, or what is left of that.
		opts = append(opts, func(c *boltnd.Config) error {
			last = c
			return nil
		})
		var (
			b   *boltnd.Boltnd
			err error
		)
		p := guarded(func() { b, err = boltnd.NewBoltnd(opts...) })
		ev := obj{
			"e": "new", "opts": desc, "n": n,
			"ok": err == nil && p == "" && b != nil,
			"subs": []string{
				boltnd.Subsystem, rpcserver.Subsystem,
				onionmsg.Subsystem, offers.Subsystem,
				routes.Subsystem,
			},
		}
		for _, w := range root {
			for s := range w.SubLoggers() {
				logs = append(logs, []string{"lnd", s})
			}
		}
		if last != nil {
			cfg := asSpec(last, &shut)
			if last.SetupLogger != nil {
				// Ask it who it is.
				k := len(logs)
				cfg["log"] = "lnd"
				last.SetupLogger("?", func(btclog.Logger) {})
				if len(logs) > k {
					cfg["log"] = logs[k][0]
				}
				logs = logs[:k]
			}
			ev["cfg"] = cfg
		}
		if len(root) > 0 {
			boltnd.DisableLog()
			rpcserver.DisableLog()
			onionmsg.DisableLog()
			offers.DisableLog()
			routes.DisableLog()
		}
		ev["logs"] = logs
		log.add(ev)
	}
	return obj{"id": sc.ID, "ev": log.snapshot()}
}

func runConfig(in string) {
	var scs []scConfig
	readLines(in, func(b []byte) {
		var sc scConfig
		must(json.Unmarshal(b, &sc))
		scs = append(scs, sc)
	})
	// Loggers are global.
	for i := range scs {
		emit(obj{"begin": scs[i].ID})
		emit(runConfigScenario(scs[i]))
	}
}
