// The server of the tree under a clock which C22 sets: requests on stdin, answers on stdout.
package main

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs/serverlet"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vhttp"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vtime"
)

type request struct {
	At                       int64 // seconds after the start
	Method, Path, Type, Body string
}

type answer struct {
	Now    int64
	Status int
	Body   []byte
}

func main() {
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	vtime.Base = time.Now()
	var at int64
	vsched.Env = func(o vsched.Op) vsched.Act {
		if o.Kind == "time" {
			return vsched.Act{Do: vsched.Value, N: at}
		}
		return vsched.Act{}
	}
	go func() { serverlet.VerifMain(); os.Exit(3) }()
	var h http.Handler
	select {
	case h = <-vhttp.Handlers:
	case <-time.After(time.Minute):
		os.Exit(4)
	}
	var qs []request
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	var as []answer
	for _, q := range qs {
		at = q.At
		req := httptest.NewRequest(q.Method, q.Path, strings.NewReader(q.Body))
		if q.Type != "" {
			req.Header.Set("Content-Type", q.Type)
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		as = append(as, answer{vtime.Base.Unix() + at, w.Code, w.Body.Bytes()})
	}
	if err := json.NewEncoder(out).Encode(as); err != nil {
		panic(err)
	}
}
