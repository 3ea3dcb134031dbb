package rpc

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"unicode"

	rrpc "github.com/ethereum/go-ethereum/rpc"
	mc "github.com/sisu-network/dheart/zzmc"
)

// Server keeps what is registered; calls are answered as the library does.
type Server struct {
	names map[string]interface{}
}

func NewServer() *Server { return &Server{names: map[string]interface{}{}} }

// RegisterName checks the receiver with the real library.
func (s *Server) RegisterName(name string, receiver interface{}) error {
	r := rrpc.NewServer()
	defer r.Stop()
	if err := r.RegisterName(name, receiver); err != nil {
		return err
	}
	mc.Point("register")
	s.names[name] = receiver
	return nil
}

func (s *Server) Stop() {}

// ServeHTTP answers one call.
func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var q struct {
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if err := json.NewDecoder(r.Body).Decode(&q); err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
	var args []string
	for _, p := range q.Params {
		args = append(args, string(p))
	}
	res, err := s.call(q.Method, args...)
	o := map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": res}
	if err != nil {
		o = map[string]interface{}{"jsonrpc": "2.0", "id": 1, "error": map[string]interface{}{"code": -32000, "message": err.Error()}}
	}
	w.Header().Set("Content-Type", "application/json")
	json.NewEncoder(w).Encode(o)
}

// Do makes a call over HTTP to whatever is served.
func Do(h http.Handler, method string, args ...string) (string, error) {
	r := httptest.NewRequest(http.MethodPost, "http://dheart/", strings.NewReader(fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"method":%q,"params":[%s]}`, method, strings.Join(args, ","))))
	r.Header.Set("Content-Type", "application/json")
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	var o struct {
		Result json.RawMessage
		Error  *struct{ Message string }
	}
	if err := json.Unmarshal(w.Body.Bytes(), &o); w.Code != http.StatusOK || err != nil {
		return "", fmt.Errorf("HTTP status %d, %.100q", w.Code, w.Body.String())
	}
	if o.Error != nil {
		return "", errors.New(o.Error.Message)
	}
	return string(o.Result), nil
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

// call calls a method given as name_method with JSON arguments.
func (s *Server) call(method string, args ...string) (interface{}, error) {
	mc.Point("request " + method)
	missing := fmt.Errorf("the method %s does not exist/is not available", method)
	p := strings.SplitN(method, "_", 2)
	if len(p) != 2 || s.names[p[0]] == nil {
		return nil, missing
	}
	v := reflect.ValueOf(s.names[p[0]])
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		n := []rune(m.Name)
		n[0] = unicode.ToLower(n[0])
		if m.PkgPath != "" || string(n) != p[1] {
			continue
		}
		f := v.Method(i)
		t := f.Type()
		if len(args) > t.NumIn() {
			return nil, fmt.Errorf("too many arguments, want at most %d", t.NumIn())
		}
		var in []reflect.Value
		for k := 0; k < t.NumIn(); k++ {
			a := reflect.New(t.In(k))
			if k >= len(args) || args[k] == "null" {
				if t.In(k).Kind() != reflect.Ptr {
					return nil, fmt.Errorf("missing value for required argument %d", k)
				}
			} else if err := json.Unmarshal([]byte(args[k]), a.Interface()); err != nil {
				return nil, fmt.Errorf("invalid argument %d: %v", k, err)
			}
			in = append(in, a.Elem())
		}
		var res interface{}
		var err error
		for _, o := range f.Call(in) {
			if o.Type().Implements(errorType) {
				if !o.IsNil() {
					err = o.Interface().(error)
				}
			} else {
				res = o.Interface()
			}
		}
		return res, err
	}
	return nil, missing
}
