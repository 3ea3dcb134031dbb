package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"time"

	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/rpc"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C28 the client of the caller's server

var errRefused = errors.New("refused by the server")

func keygenResults() []*types.KeygenResult {
	return []*types.KeygenResult{
		{KeyType: "ecdsa", KeygenIndex: 3, Outcome: types.OutcomeSuccess, PubKeyBytes: []byte{4, 0, 255}},
		{KeyType: "eddsa", Outcome: types.OutcomeFailure, Culprits: []*tss.PartyID{allNodes[1].PartyId}},
		{},
	}
}

func keysignResults() []*types.KeysignResult {
	return []*types.KeysignResult{
		{Request: &types.KeysignRequest{KeyType: "ecdsa", KeysignMessages: []*types.KeysignMessage{{Id: "i", InChain: "n", OutChain: "c", OutHash: "h", Bytes: []byte{0, 200}, BytesToSign: []byte{1}}}},
			Outcome: types.OutcomeSuccess, Signatures: [][]byte{{1, 2}, {}}},
		{Outcome: types.OutcomeFailure, ErrMesage: "x", Culprits: []*tss.PartyID{allNodes[2].PartyId}},
		{Outcome: types.OutcometNotSelected},
	}
}

type post struct {
	method, args string
	do           func(c client.Client) error
}

func args(v interface{}) string {
	bz, err := json.Marshal([]interface{}{v})
	if err != nil {
		panic(err)
	}
	back := reflect.New(reflect.TypeOf(v))
	l := []interface{}{back.Interface()}
	err = json.Unmarshal(bz, &l)
	mc.Check(err == nil && reflect.DeepEqual(back.Elem().Interface(), v), "wire", "a result does not survive its encoding as %s: %v", bz, err)
	return string(bz)
}

func posts() (o []post) {
	for _, r := range keygenResults() {
		r := r
		o = append(o, post{"tss_keygenResult", args(r), func(c client.Client) error { return c.PostKeygenResult(r) }})
	}
	for _, r := range keysignResults() {
		r := r
		o = append(o, post{"tss_keysignResult", args(r), func(c client.Client) error { return c.PostKeysignResult(r) }})
	}
	return
}

// arrived counts the calls that reached the server.
func arrived(method, args string) (n int) {
	for _, c := range rpc.W().Calls {
		if c.Method == method && c.Args == args {
			n++
		}
	}
	return
}

// posting while dialling, with failures of connection, ping and calls
func clientRun(posters int, pause bool) func() {
	return func() {
		w := rpc.W()
		c := client.NewClient("http://sisu:1")
		failed, refused, pings := 0, 0, 0
		w.Dial = func(url string) error {
			mc.Check(url == "http://sisu:1", "url", "dials %s", url)
			mc.Check(pings == 0, "dials-again", "the client dials although it is connected")
			if failed < 3 && mc.Choose(2, 1) == 1 {
				failed++
				return errors.New("connection refused")
			}
			return nil
		}
		w.Call = func(cl *rpc.Client, method, args string) error {
			if method == "tss_ping" {
				mc.Check(args == `["dheart"]`, "ping-args", "ping with %s", args)
				if failed < 3 && mc.Choose(2, 1) == 1 {
					failed++
					return errRefused
				}
				mc.Check(pings == 0, "pings-again", "the client pings although it is connected")
				pings++
				return nil
			}
			if mc.Choose(2, 1) == 1 {
				refused++
				return errRefused
			}
			return nil
		}
		dial := mc.GoNamed("dial", c.TryDial)
		var gs []*mc.G
		all := posts()
		pre := posters*2 - 4
		if pre < 0 {
			pre = 0
		}
		for i := 0; i < posters; i++ {
			mine := []post{all[i*2%len(all)], all[(i*2+3)%len(all)]}
			gs = append(gs, mc.GoNamed(fmt.Sprint("poster", i), func() {
				for _, p := range mine {
					connected := dial.Done()
					r := refused
					err := p.do(c)
					n := arrived(p.method, p.args)
					mc.Note("%s %s: %v", p.method, p.args, err)
					mc.Check(!connected || err == nil || refused > r, "post-fails", "posting to a connected server fails: %v", err)
					mc.Check(err != nil || n == 1, "delivery", "posted with success, reached the server %d times", n)
					mc.Check(err == nil || n == 0, "delivery", "posted with an error, reached the server %d times", n)
					if pause {
						mc.Elapse(25 * time.Second)
					}
				}
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		dial.Join()
		mc.Check(pings == 1, "ping", "dialling ends after %d pings", pings)
		w.Call = nil
		for _, p := range all {
			n := arrived(p.method, p.args)
			err := p.do(c)
			mc.Check(err == nil, "post-fails", "posting to a connected server fails: %v", err)
			mc.Check(arrived(p.method, p.args) == n+1, "delivery", "%s reached the server %d times", p.args, arrived(p.method, p.args)-n)
		}
		w.Call = func(cl *rpc.Client, method, args string) error { return errRefused }
		for _, p := range all {
			err := p.do(c)
			mc.Check(errors.Is(err, errRefused), "error-lost", "the server's error is returned as %v", err)
		}
		mc.Elapse(10 * time.Minute)
		mc.Check(w.Dials <= failed+1, "dials-again", "%d dials, %d failures", w.Dials, failed)
	}
}

// not connected at all
func clientUnconnected() {
	c := client.NewClient("http://sisu:1")
	for _, p := range posts() {
		err := p.do(c)
		mc.Check(err != nil, "no-error", "posting before the server was dialled gives no error")
	}
	c.PostPresignResult(&types.PresignResult{})
	mc.Check(len(rpc.W().Calls) == 0, "made-up", "a call reached the server")
}

// the server stays away for long
func clientLong() {
	w := rpc.W()
	n := []int{0, 1, 20, 300}[mc.Choose(4, 0)]
	ping := mc.Choose(2, 0) == 1
	w.Dial = func(string) error {
		if !ping && w.Dials <= n {
			return errors.New("away")
		}
		return nil
	}
	k := 0
	w.Call = func(cl *rpc.Client, method, args string) error {
		if k++; ping && k <= n {
			return errRefused
		}
		return nil
	}
	c := client.NewClient("u")
	g := mc.GoNamed("dial", c.TryDial)
	mc.Elapse(time.Duration(n+2) * time.Minute)
	mc.Check(g.Done(), "gives-up", "the server came back after %d failures, but is not connected a minute per failure later", n)
	mc.Check(c.PostKeygenResult(keygenResults()[0]) == nil, "post-fails", "posting to a connected server fails")
}

func init() {
	register("C28",
		&mc.Scenario{Name: "client-unconnected", Sched: mc.Fixed, Bounds: []int{0}, Body: clientUnconnected},
		&mc.Scenario{Name: "client-long", Sched: mc.Coop, Bounds: []int{0}, Body: clientLong},
		&mc.Scenario{Name: "client-2", Sched: mc.Preempt, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: clientRun(2, true)},
		&mc.Scenario{Name: "client-3", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2, 3}, BoundsDeep: []int{0, 1, 2, 3, 4}, Body: clientRun(3, false)},
	)
	assume("C28", "The RPC library is represented by a stand-in whose dial and call succeed or fail at any time; results are compared as the JSON the library sends.")
}
