package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	p2pcrypto "github.com/libp2p/go-libp2p/core/crypto"
	ma "github.com/multiformats/go-multiaddr"
	"github.com/sisu-network/dheart/core/config"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/run"
	htypes "github.com/sisu-network/dheart/types"
	mc "github.com/sisu-network/dheart/zzmc"
	fakehttp "github.com/sisu-network/dheart/zzmc/shim/http"
	fakep2p "github.com/sisu-network/dheart/zzmc/shim/libp2p"
	fakelog "github.com/sisu-network/dheart/zzmc/shim/log"
	fakenet "github.com/sisu-network/dheart/zzmc/shim/net"
	fakerpc "github.com/sisu-network/dheart/zzmc/shim/rpc"
	fakesql "github.com/sisu-network/dheart/zzmc/shim/sql"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
)

// ------------------------------------------------------------ C35: starting the program

// progWorld is the program started in a scratch directory.
type progWorld struct {
	dir, home string
	cfg       config.HeartConfig
	aes       []byte
	logdna    string // section of the file
	stop      string // why it has to stop; "": it has to serve
	done      func()
	dials     int
	lost      bool
	absent    bool // the server does not answer until it is served itself
}

const progUrl = "http://sisu.example:25456/x"

func newProg(single bool) *progWorld {
	w := &progWorld{aes: append([]byte{}, heartAes...)}
	dir, clean := scratch()
	w.dir, w.home = dir, filepath.Join(dir, "home", "of", "dheart")
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	w.done = func() {
		os.Unsetenv("HOME_DIR")
		os.Unsetenv("AES_KEY_HEX")
		os.Chdir(old)
		clean()
	}
	os.Unsetenv("HOME_DIR")
	os.Unsetenv("AES_KEY_HEX")
	w.cfg = config.HeartConfig{
		HomeDir: w.home, UseOnMemory: single, SisuServerUrl: progUrl, Port: 5678,
		Db: config.DbConfig{Host: "db.example", Port: 3307, Username: "user", Password: "pass", Schema: "shares"},
		Connection: p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: 28300, Rendezvous: "r",
			Peers: []*p2ptypes.Peer{heartPeer(0), heartPeer(1)}},
	}
	mc.OnPanic(func(what string) bool {
		if w.lost {
			w.stop = "the database fails"
		}
		if w.stop == "" {
			return false
		}
		w.unserved("stopping with " + what)
		mc.Outcome("stopped: %s", w.stop)
		return true
	})
	return w
}

func (w *progWorld) text() string {
	c := w.cfg
	s := fmt.Sprintf("home-dir = %q\nuse-on-memory = %v\nshortcut-preparams = false\nsisu-server-url = %q\nport = %d\n", c.HomeDir, c.UseOnMemory, c.SisuServerUrl, c.Port)
	s += fmt.Sprintf("[db]\nhost = %q\nport = %d\nusername = %q\npassword = %q\nschema = %q\n", c.Db.Host, c.Db.Port, c.Db.Username, c.Db.Password, c.Db.Schema)
	s += w.logdna
	s += fmt.Sprintf("[connection]\nhost = %q\nport = %d\nrendezvous = %q\n", c.Connection.Host, c.Connection.Port, c.Connection.Rendezvous)
	for _, p := range c.Connection.Peers {
		s += fmt.Sprintf("[[connection.peers]]\naddress = %q\npubkey = %q\npubkey_type = %q\n", p.Address, p.PubKey, p.PubKeyType)
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *progWorld) write(name, text string) {
	must(os.MkdirAll(filepath.Dir(name), 0700))
	must(ioutil.WriteFile(name, []byte(text), 0600))
}

// files writes what the program reads: the configuration, and its environment in one of three places.
func (w *progWorld) files(aesHex string, source int) {
	w.write(filepath.Join(w.home, "dheart.toml"), w.text())
	h, k := "HOME_DIR="+w.home+"\n", "AES_KEY_HEX="+aesHex+"\n"
	switch source {
	case 0:
		w.write(".env", h+k)
	case 1:
		w.write(".env", "\n")
		os.Setenv("HOME_DIR", w.home)
		os.Setenv("AES_KEY_HEX", aesHex)
	case 2:
		w.write(".env", k)
		os.Setenv("HOME_DIR", w.home)
	}
}

func (w *progWorld) unserved(when string) {
	mc.Check(len(fakehttp.W().Serving) == 0, "serves-anyway", "%s: although %s, the program serves requests", when, w.stop)
}

// start runs the program and gives what it serves.
func (w *progWorld) start() http.Handler {
	fakerpc.W().Dial = func(url string) error {
		mc.Check(url == w.cfg.SisuServerUrl, "url", "the program dials %s, configured is %s", url, w.cfg.SisuServerUrl)
		if w.dials--; w.dials >= 0 || w.absent {
			return errors.New("connection refused")
		}
		return nil
	}
	mc.GoNamed("program", run.Run)
	if w.stop != "" {
		mc.Elapse(10 * time.Minute)
		mc.Fail("not-stopped", "although %s, the program goes on", w.stop)
	}
	return w.served()
}

func (w *progWorld) served() http.Handler {
	h := fakehttp.W()
	up := func() bool { return len(h.Serving) > 0 }
	late := mc.Now() + int64(time.Hour)
	for !up() && mc.Now() < late {
		mc.Elapse(time.Second / 4)
	}
	mc.Check(up(), "not-serving", "the program does not serve requests")
	mc.Check(len(h.Serving) == 1, "two-servers", "the program serves at %d places", len(h.Serving))
	x := h.Serving[0]
	mc.Check(x.L.Port == w.cfg.Port, "port", "the program serves at port %d, configured is %d", x.L.Port, w.cfg.Port)
	mc.Check(x.L.Host == "0.0.0.0" || x.L.Host == "" || x.L.Host == "::", "address", "the program serves at address %s only", x.L.Host)
	mc.Check(x.Handler != nil, "handler", "nothing answers requests")
	return x.Handler
}

// do calls a method that has to succeed.
func (w *progWorld) do(s http.Handler, method string, args ...interface{}) {
	var l []string
	for _, a := range args {
		l = append(l, js(a))
	}
	_, err := fakerpc.Do(s, method, l...)
	mc.Check(err == nil, "call-fails", "%s fails: %v", method, err)
}

// results are the posted ones.
func results(method string) (o []string) {
	for _, c := range fakerpc.W().Calls {
		if c.Method == method {
			o = append(o, c.Args)
		}
	}
	return
}

func (w *progWorld) connected() {
	late := mc.Now() + int64(10*time.Minute)
	for len(results("tss_ping")) == 0 && mc.Now() < late {
		mc.Elapse(time.Second)
	}
	mc.Check(len(results("tss_ping")) == 1, "not-connected", "the program does not connect to the configured server: %v", results("tss_ping"))
}

// waitResult waits for the nth result of a kind.
func waitResult(method string, n int) string {
	late := mc.Now() + int64(20*time.Minute)
	for len(results(method)) < n && mc.Now() < late {
		mc.Elapse(time.Second)
	}
	r := results(method)
	mc.Check(len(r) == n, "results", "%d results %s arrive at the configured server, not %d", len(r), method, n)
	return r[n-1]
}

// dbDown: the database is not there yet.
func (w *progWorld) dbDown(d time.Duration) {
	late := mc.Now() + int64(d)
	fakesql.W().Fault = func(kind, q string) fakesql.Fault {
		if mc.Now() < late {
			return fakesql.Before
		}
		return fakesql.OK
	}
}

func mustJson(s string, v interface{}) {
	err := json.Unmarshal([]byte(s), v)
	mc.Check(err == nil, "results", "%s is no result: %v", s, err)
}

var progCalls = [][]interface{}{{"tss_ping", "s"}, {"tss_setSisuReady", true}, {"tss_blockEnd", 5}}

// singleWork lets the single node make a key and sign.
func (w *progWorld) singleWork(s http.Handler) {
	w.do(s, "tss_setPrivKey", encKey(nodeKeys[0]), "ed25519")
	w.do(s, "tss_keyGen", "k", "eddsa", wrappers(0))
	r := waitResult("tss_keygenResult", 1)
	mc.Check(strings.Contains(r, `"eddsa"`), "results", "the key generation is answered by %s", r)
	q := signReq("eddsa", "p", "m1", "m2")
	w.do(s, "tss_keySign", q, wrappers(0))
	w.signed(q, 1)
}

func (w *progWorld) signed(q *htypes.KeysignRequest, n int) {
	var l []htypes.KeysignResult
	mustJson(waitResult("tss_keysignResult", n), &l)
	mc.Check(js(l[0].Request) == js(q) && l[0].Outcome == htypes.OutcomeSuccess && len(l[0].Signatures) == len(q.KeysignMessages), "results", "the signing is answered by %s", js(l[0]))
}

// fullWork lets the node work with another one.
func (w *progWorld) fullWork(s http.Handler, o *hnode, again bool) {
	o.up()
	for _, bad := range []string{hex.EncodeToString(seal(nodeKeys[0].Bytes(), secretKey(32, 6))), hex.EncodeToString(nodeKeys[0].Bytes())} {
		_, err := fakerpc.Do(s, "tss_setPrivKey", js(bad), js("ed25519"))
		mc.Check(err != nil, "wrong-key", "a node key not encrypted with the key of the environment is accepted")
	}
	enc := hex.EncodeToString(seal(nodeKeys[0].Bytes(), w.aes))
	w.do(s, "tss_setPrivKey", enc, "ed25519")
	id := idOf(p2pcrypto.UnmarshalEd25519PrivateKey(nodeKeys[0].Bytes()))
	h := fakep2p.W().Hosts[id]
	mc.Check(h != nil, "identity", "the node does not take part in the network under its key")
	want, _ := ma.NewMultiaddr(fmt.Sprintf("/ip4/%s/tcp/%d", w.cfg.Connection.Host, w.cfg.Connection.Port))
	mc.Check(len(h.Addrs()) == 1 && h.Addrs()[0].Equal(want), "network-address", "the node listens at %v, configured is %v", h.Addrs(), want)
	w.do(s, "tss_setSisuReady", true)
	kt := []string{"ecdsa", "eddsa"}[mc.Choose(2, 0)]
	if !again {
		w.do(s, "tss_keyGen", "k", kt, wrappers(0, 1))
		err := o.api.KeyGen("k", kt, wrappers(0, 1))
		mc.Check(err == nil, "harness", "the other node refuses: %v", err)
		var l []htypes.KeygenResult
		mustJson(waitResult("tss_keygenResult", 1), &l)
		mc.Check(l[0].KeyType == kt && l[0].Outcome == htypes.OutcomeSuccess, "results", "the key generation is answered by %s", js(l[0]))
	}
	q := signReq(kt, "p", "m1", "m2")
	w.do(s, "tss_keySign", q, wrappers(0, 1))
	err := o.api.KeySign(q, wrappers(0, 1))
	mc.Check(err == nil, "harness", "the other node refuses: %v", err)
	w.signed(q, 1)
	for _, d := range fakesql.W().Opened {
		mc.Check(strings.HasPrefix(d, "user:pass@tcp(db.example:3307)/") || strings.HasPrefix(d, "root:"), "database", "the program uses the database %s", d)
	}
	mc.Check(len(fakesql.W().Opened) > 0, "database", "the program uses no database")
}

// progPeer is the other node of the network.
func progPeer() *hnode { return newHeart(1, heartPeer(0), heartPeer(1)) }

// progRun: every way of configuring it.
func progRun() func() {
	return func() {
		single := mc.Choose(2, 0) == 0
		w := newProg(single)
		defer w.done()
		w.cfg.Port = []int{5678, 1, 80, 65535, 40000}[mc.Choose(5, 1)]
		w.aes = secretKey([]int{32, 16, 24}[mc.Choose(3, 1)], 9)
		k := hex.EncodeToString(w.aes)
		if mc.Choose(2, 1) == 1 {
			k = strings.ToUpper(k)
		}
		dna := mc.Choose(3, 1)
		switch dna {
		case 1:
			w.logdna = "[log_dna]\nsecret = \"sec\"\napp_name = \"app\"\nhost_name = \"hst\"\nflush_interval = \"7s\"\nmax_buffer_len = 99\n"
		case 2:
			w.logdna = "[log_dna]\nsecret = \"\"\napp_name = \"app\"\n"
		}
		w.dials = []int{0, 1, 5}[mc.Choose(3, 1)]
		w.absent = w.dials == 0 && mc.Choose(2, 1) == 1
		w.files(k, mc.Choose(3, 1))
		if !single {
			w.dbDown([]time.Duration{0, time.Second, time.Minute}[mc.Choose(3, 1)])
		}
		s := w.start()
		w.absent = false
		l, _ := fakelog.W().Logger.(*fakelog.DNA)
		if dna == 1 {
			mc.Check(l != nil && l.Key == "sec" && l.Opts.App == "app" && l.Opts.Hostname == "hst" && l.Opts.FlushInterval == 7*time.Second && l.Opts.MaxBufferLen == 99, "log", "the program does not log to the configured service: %v", l)
		} else {
			mc.Check(l == nil, "log", "the program logs to a service without secret")
		}
		for _, c := range progCalls {
			w.do(s, c[0].(string), c[1:]...)
		}
		w.connected()
		if single {
			w.singleWork(s)
		} else {
			w.fullWork(s, progPeer(), false)
		}
		mc.Outcome("served")
	}
}

// progStops: what keeps it from serving.
func progStops() {
	single := mc.Choose(2, 0) == 0
	w := newProg(single)
	defer w.done()
	w.files(hex.EncodeToString(w.aes), mc.Choose(3, 0))
	file := filepath.Join(w.home, "dheart.toml")
	aes := func(s string) {
		w.stop = fmt.Sprintf("the key is %q", s)
		w.write(".env", "")
		os.Setenv("HOME_DIR", w.home)
		os.Setenv("AES_KEY_HEX", s)
	}
	good := hex.EncodeToString(w.aes)
	cases := []func(){
		func() { w.stop = "there is no configuration"; must(os.Remove(file)) },
		func() {
			w.stop = "the configuration is a directory"
			must(os.Remove(file))
			must(os.Mkdir(file, 0700))
		},
		func() { w.stop = "there is no home directory"; must(os.RemoveAll(w.home)) },
		func() {
			w.stop = "the home directory is in a file"
			must(os.RemoveAll(w.home))
			w.write(w.home, "")
		},
		func() { w.stop = "the configuration is broken"; w.write(file, w.text()+"\n[db\n") },
		func() {
			w.stop = "the port is no number"
			w.write(file, strings.Replace(w.text(), "port = 5678", `port = "x"`, 1))
		},
		func() {
			w.stop = "the configuration is elsewhere"
			must(os.Rename(file, filepath.Join(w.dir, "dheart.toml")))
		},
		func() { aes(good[:63]) },
		func() { aes("0x" + good) },
		func() { aes(good[:62] + "zz") },
		func() { aes(" " + good) },
		func() {
			w.stop = "the port is taken"
			fakenet.W().Taken = func(string) bool { return true }
		},
		func() {
			w.stop = "the log service has no name"
			w.logdna = "[log_dna]\nsecret = \"sec\"\nhost_name = \"h\"\n"
			w.write(file, w.text())
		},
		func() {
			w.stop = "no preparameters can be made"
			tssfake.Gen().Fail = 1 << 20
		},
	}
	n := len(cases)
	if single {
		n--
	}
	cases[mc.Choose(n, 0)]()
	w.start()
}

// progEarly: calls arrive from the moment the port is open.
func progEarly(single bool) func() {
	return func() {
		w := newProg(single)
		defer w.done()
		w.files(hex.EncodeToString(w.aes), 0)
		w.dials = mc.Choose(2, 1)
		if !single {
			late := mc.Now() + int64(mc.Choose(2, 0))*int64(4*time.Second)
			fakesql.W().Fault = func(kind, q string) fakesql.Fault {
				if mc.Now() < late {
					return fakesql.Before
				}
				if strings.Contains(q, "preparams (") || strings.Contains(q, "FROM preparams") {
					if mc.Choose(2, 1) == 0 {
						return fakesql.OK
					}
					w.lost = true // it may stop then, or try again
					return fakesql.Before
				}
				return fakesql.OK
			}
		}
		fakerpc.W().Dial = func(url string) error {
			if w.dials--; w.dials >= 0 {
				return errors.New("connection refused")
			}
			return nil
		}
		mc.GoNamed("program", run.Run)
		var gs []*mc.G
		for i, c := range append([][]interface{}{{"tss_setPrivKey", encKey(nodeKeys[0]), "ed25519"}}, progCalls[:2]...) {
			c := c
			gs = append(gs, mc.GoNamed(fmt.Sprint("caller ", i), func() {
				mc.Block("until the port is open", func() bool { return len(fakehttp.W().Serving) > 0 })
				fakesql.W().Fault = nil
				w.do(w.served(), c[0].(string), c[1:]...)
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		w.connected()
		if single {
			w.singleWork(w.served())
		}
		mc.Outcome("served")
	}
}

func init() {
	assume("C35", "The program is run.Run over stand-ins for listening and serving HTTP, the RPC library (calls are made by name with JSON arguments), the log service, the network library, the database server and, in a full node, the cryptographic library; its environment and files are real, in a scratch directory.")
	register("C35",
		&mc.Scenario{Name: "start-stops", Sched: mc.Coop, Bounds: []int{0}, Body: progStops},
		&mc.Scenario{Name: "start-early-single", Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: progEarly(true)},
		&mc.Scenario{Name: "start-early-full", Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: progEarly(false)},
		&mc.Scenario{Name: "start-serves", Sched: mc.Fixed, Bounds: []int{1, 2}, BoundsDeep: []int{2, 3, 4, 8}, Body: progRun()},
	)
}
