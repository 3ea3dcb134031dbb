package main

import (
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/joho/godotenv"
	"github.com/sisu-network/dheart/core/config"
	ptypes "github.com/sisu-network/dheart/p2p/types"
	mc "github.com/sisu-network/dheart/zzmc"
)

// ------------------------------------------------------------ C34: configuration files

var confStrs = []string{"", "plain", `a"b`, `c:\new\u0041`, "x # y", "two\nlines", "tab\t", "é世", "{{ .Port }}", "'''", `"""`, "[db]", "a = 1", " lead", "\x7f", "<&>", "null", "\u2028", "~/.sisu", "$HOME", "%s%d"}
var confInts = []int{0, 1, 80, 65535, 28300, -1}

// confFields are the settings kept in a file, one setter per kind of value.
func confFields() []func(*config.HeartConfig) string {
	str := func(f func(*config.HeartConfig) *string) func(*config.HeartConfig) string {
		return func(c *config.HeartConfig) string {
			p := f(c)
			*p = confStrs[mc.Choose(len(confStrs), 0)]
			return fmt.Sprintf("%q", *p)
		}
	}
	num := func(f func(*config.HeartConfig) *int) func(*config.HeartConfig) string {
		return func(c *config.HeartConfig) string {
			p := f(c)
			*p = confInts[mc.Choose(len(confInts), 0)]
			return fmt.Sprint(*p)
		}
	}
	flag := func(f func(*config.HeartConfig) *bool) func(*config.HeartConfig) string {
		return func(c *config.HeartConfig) string { p := f(c); *p = !*p; return fmt.Sprint(*p) }
	}
	return []func(*config.HeartConfig) string{
		str(func(c *config.HeartConfig) *string { return &c.HomeDir }),
		flag(func(c *config.HeartConfig) *bool { return &c.UseOnMemory }),
		flag(func(c *config.HeartConfig) *bool { return &c.ShortcutPreparams }),
		str(func(c *config.HeartConfig) *string { return &c.SisuServerUrl }),
		num(func(c *config.HeartConfig) *int { return &c.Port }),
		str(func(c *config.HeartConfig) *string { return &c.Db.Host }),
		num(func(c *config.HeartConfig) *int { return &c.Db.Port }),
		str(func(c *config.HeartConfig) *string { return &c.Db.Username }),
		str(func(c *config.HeartConfig) *string { return &c.Db.Password }),
		str(func(c *config.HeartConfig) *string { return &c.Db.Schema }),
		str(func(c *config.HeartConfig) *string { return &c.Connection.Host }),
		num(func(c *config.HeartConfig) *int { return &c.Connection.Port }),
		str(func(c *config.HeartConfig) *string { return &c.Connection.Rendezvous }),
		func(c *config.HeartConfig) string {
			n := []int{0, 1, 2, 3, 40}[mc.Choose(5, 0)]
			c.Connection.Peers = nil
			for i := 0; i < n; i++ {
				p := &ptypes.Peer{Address: fmt.Sprintf("/ip4/10.0.0.%d/tcp/1/p2p/Q%d", i, i), PubKey: fmt.Sprintf("%02x", i+7), PubKeyType: "secp256k1"}
				if i == n-1 {
					s := confStrs[mc.Choose(len(confStrs), 0)]
					switch mc.Choose(3, 0) {
					case 0:
						p.Address = s
					case 1:
						p.PubKey = s
					case 2:
						p.PubKeyType = s
					}
				}
				c.Connection.Peers = append(c.Connection.Peers, p)
			}
			return renderPeers(c.Connection.Peers)
		},
	}
}

func renderPeers(ps []*ptypes.Peer) string {
	var o []string
	for _, p := range ps {
		o = append(o, fmt.Sprintf("%q", *p))
	}
	return strings.Join(o, " ")
}

func confBase() config.HeartConfig {
	return config.HeartConfig{
		HomeDir: "/h", SisuServerUrl: "http://s:1", Port: 5, AesKey: []byte("0123456789abcdefSECRET0123456789"),
		Db:         config.DbConfig{Host: "dh", Port: 33, Username: "du", Password: "dp", Schema: "ds"},
		Connection: ptypes.ConnectionsConfig{Host: "ch", Port: 44, Rendezvous: "cr", Peers: []*ptypes.Peer{{Address: "pa", PubKey: "pk", PubKeyType: "pt"}}},
	}
}

// confShow renders the settings a file keeps.
func confShow(c config.HeartConfig) string {
	return fmt.Sprintf("%q %v %v %q %d | %q %d %q %q %q | %q %d %q %s", c.HomeDir, c.UseOnMemory, c.ShortcutPreparams, c.SisuServerUrl, c.Port,
		c.Db.Host, c.Db.Port, c.Db.Username, c.Db.Password, c.Db.Schema, c.Connection.Host, c.Connection.Port, c.Connection.Rendezvous, renderPeers(c.Connection.Peers))
}

func scratch() (string, func()) {
	d, err := ioutil.TempDir(".", "conf")
	if err != nil {
		panic(err)
	}
	if d, err = filepath.Abs(d); err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// confRound changes n settings of a configuration, writes it and reads it back; twice into the same file.
func confRound(n int) func() {
	return func() {
		dir, done := scratch()
		defer done()
		fs := confFields()
		c := confBase()
		at := 0
		var log []string
		for i := 0; i < n; i++ {
			at += mc.Choose(len(fs)-at-(n-1-i), 0)
			log = append(log, fmt.Sprintf("%d=%s", at, fs[at](&c)))
			at++
		}
		path := filepath.Join(dir, "dheart.toml")
		if mc.Choose(2, 0) == 1 { // a longer one was there before
			o := confBase()
			o.HomeDir = strings.Repeat("long", 500)
			config.WriteConfigFile(path, o)
		}
		before := confShow(c)
		config.WriteConfigFile(path, c)
		mc.Check(confShow(c) == before, "changed", "%v: writing changes the configuration", log)
		bz, err := ioutil.ReadFile(path)
		mc.Check(err == nil, "not-written", "%v: the configuration is not written: %v", log, err)
		key := c.AesKey
		mc.Check(!strings.Contains(string(bz), string(key)) && !strings.Contains(strings.ToLower(string(bz)), hex.EncodeToString(key)) && !strings.Contains(string(bz), strings.Trim(fmt.Sprint(key), "[]")),
			"secret", "%v: the decryption key is written to the file", log)
		got, err := config.ReadConfig(path)
		mc.Check(err == nil, "unreadable", "%v: the configuration written cannot be read: %v", log, err)
		mc.Check(confShow(got) == before, "differs", "%v: written %s, read %s", log, before, confShow(got))
		again, err := config.ReadConfig(path)
		mc.Check(err == nil && reflect.DeepEqual(again, got), "differs", "%v: reading again gives another configuration", log)
		mc.Outcome("%v", log)
	}
}

// confBad reads files that hold no usable configuration.
func confBad() {
	dir, done := scratch()
	defer done()
	good := "home-dir = \"/h\"\nport = 7\nuse-on-memory = true\n[db]\nhost = \"x\"\nport = 3\n[connection]\nport = 9\n[[connection.peers]]\naddress = \"a\"\n"
	bad := []string{
		strings.Replace(good, `"/h"`, `/h`, 1), strings.Replace(good, `"/h"`, `"/h`, 1), strings.Replace(good, "= 7", "= \"7\"", 1),
		strings.Replace(good, "= 7", "", 1), strings.Replace(good, "= true", "= yes", 1), strings.Replace(good, "[db]", "[db", 1),
		strings.Replace(good, `"x"`, "5", 1), strings.Replace(good, "= 3", "= 1.5", 1), strings.Replace(good, `"a"`, "[]", 1),
		good + good, "\x00", "{}", strings.Replace(good, "[[connection.peers]]", "peers = [1]", 1), strings.Replace(good, "= 9", "= 99999999999999999999", 1),
	}
	path := filepath.Join(dir, "dheart.toml")
	switch k := mc.Choose(len(bad)+3, 0); k {
	case 0:
		mc.Check(ioutil.WriteFile(path, []byte(good), 0600) == nil, "harness", "cannot write")
		c, err := config.ReadConfig(path)
		mc.Check(err == nil && c.HomeDir == "/h" && c.Port == 7 && c.UseOnMemory && c.Db.Host == "x" && c.Db.Port == 3 && c.Connection.Port == 9 && len(c.Connection.Peers) == 1 && c.Connection.Peers[0].Address == "a",
			"differs", "a good file is read as %s: %v", confShow(c), err)
	case 1:
		_, err := config.ReadConfig(path)
		mc.Check(err != nil, "no-error", "reading a missing file gives no error")
	case 2:
		_, err := config.ReadConfig(dir)
		mc.Check(err != nil, "no-error", "reading a directory gives no error")
	default:
		mc.Check(ioutil.WriteFile(path, []byte(bad[k-3]), 0600) == nil, "harness", "cannot write")
		c, err := config.ReadConfig(path)
		mc.Check(err != nil, "no-error", "no error for the file %q, read as %s", bad[k-3], confShow(c))
	}
	mc.Outcome("done")
}

// confGen runs the documented generator of a local configuration with a home directory of its own.
func confGen() {
	dir, done := scratch()
	defer done()
	repo := os.Getenv("DHEART_REPO")
	if repo == "" {
		repo = "/repo"
	}
	bin := filepath.Join(dir, "gen")
	cmd := exec.Command("go", "build", "-o", bin, "./core/config/gen-localhost")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot build the generator: %s\n", out)
		os.Exit(3)
	}
	old := mc.Choose(2, 0) == 1
	if old { // run before
		mc.Check(os.MkdirAll(filepath.Join(dir, ".sisu/dheart"), 0700) == nil, "harness", "cannot make a directory")
		ioutil.WriteFile(filepath.Join(dir, ".sisu/dheart/dheart.toml"), []byte(strings.Repeat("# old\n", 500)), 0600)
	}
	cmd = exec.Command(bin)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	out, err = cmd.CombinedOutput()
	mc.Check(err == nil, "generator", "the generator of the local configuration fails: %v", err)
	env, err := godotenv.Read(filepath.Join(dir, ".env"))
	mc.Check(err == nil, "generator", "the generated environment cannot be read: %v", err)
	key, err := hex.DecodeString(env["AES_KEY_HEX"])
	mc.Check(err == nil && len(key) == 32, "generator", "the generated key is no AES-256 key")
	c, err := config.ReadConfig(filepath.Join(env["HOME_DIR"], "dheart.toml"))
	mc.Check(err == nil, "generator", "the generated configuration cannot be read: %v", err)
	mc.Check(c.HomeDir == env["HOME_DIR"], "generator", "the home directory is not the one of the environment")
	mc.Check(c.Port > 0 && c.Port < 65536 && c.Connection.Port > 0 && c.Connection.Port < 65536 && c.Port != c.Connection.Port, "generator", "the ports %d and %d cannot be used together", c.Port, c.Connection.Port)
	mc.Check(c.Connection.Host != "" && c.Connection.Rendezvous != "" && strings.HasPrefix(c.SisuServerUrl, "http"), "generator", "the generated configuration is incomplete")
	d := config.GetLocalhostDbConfig()
	mc.Check(c.UseOnMemory && c.Db == d, "generator", "the generated database settings are not the local ones")
	mc.Outcome("done")
}

func init() {
	assume("C34", "The environment variables and files are the real ones of the machine, in scratch directories.")
	register("C34",
		&mc.Scenario{Name: "conf-one", Sched: mc.Fixed, Bounds: []int{0}, Body: confRound(1)},
		&mc.Scenario{Name: "conf-two", Sched: mc.Fixed, Bounds: []int{0}, Body: confRound(2)},
		&mc.Scenario{Name: "conf-three", Deep: true, Sched: mc.Fixed, Bounds: []int{0}, Body: confRound(3)},
		&mc.Scenario{Name: "conf-bad", Sched: mc.Fixed, Bounds: []int{0}, Body: confBad},
		&mc.Scenario{Name: "conf-gen", Sched: mc.Fixed, Bounds: []int{0}, Body: confGen},
	)
}
