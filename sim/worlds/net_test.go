//go:build go1.25

package worlds

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"math/big"
	nethttp "net/http"
	"time"

	"github.com/mutecomm/mute/zzverif/shim/http"
	"github.com/mutecomm/mute/zzverif/sim"
)

// simCA is the certificate of the simulated certificate authority.
var simCA = makeCA("mute CA")

// otherCA is a certificate authority the clients were not configured with.
var otherCA = makeCA("other CA")

func makeCA(name string) []byte {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, IsCA: true,
		BasicConstraintsValid: true, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

// trusts reports whether a client with configuration cfg accepts a server
// whose certificate was issued by ca.
func trusts(cfg *tls.Config, ca []byte) bool {
	if cfg == nil {
		return false // the system's roots do not contain the simulated CA
	}
	if cfg.InsecureSkipVerify {
		return true
	}
	if cfg.RootCAs == nil {
		return false
	}
	b, _ := pem.Decode(ca)
	crt, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		panic(err)
	}
	_, err = crt.Verify(x509.VerifyOptions{Roots: cfg.RootCAs, CurrentTime: time.Unix(1<<30, 0), KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}})
	return err == nil
}

type rpcRequest struct {
	Method string          `json:"method"`
	Params json.RawMessage `json:"params"`
	ID     json.RawMessage `json:"id"`
}

// rpcError is an error a simulated server returns to the client.
type rpcError string

func (e rpcError) Error() string { return string(e) }

func readRPC(req *nethttp.Request) (*rpcRequest, error) {
	b, err := ioutil.ReadAll(req.Body)
	if err != nil {
		return nil, err
	}
	var q rpcRequest
	if err := json.Unmarshal(b, &q); err != nil {
		return nil, err
	}
	return &q, nil
}

func rpcReply(req *nethttp.Request, q *rpcRequest, result interface{}, err error) *nethttp.Response {
	m := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
	if err != nil {
		m["error"] = map[string]interface{}{"code": -32000, "message": err.Error()}
	} else {
		m["result"] = result
	}
	b, e := json.Marshal(m)
	if e != nil {
		panic(e)
	}
	return http.Reply(req, 200, string(b))
}

// mangle returns a malformed version of a reply: a truncated or empty body, a
// missing field, or a field of another type or with cut content.
func mangle(r *sim.Run, req *nethttp.Request, q *rpcRequest, result map[string]interface{}) *nethttp.Response {
	return mangleSeen(r, req, q, result, func(map[string]interface{}) {})
}

// mangleSeen reports the result it sends, if it sends any.
func mangleSeen(r *sim.Run, req *nethttp.Request, q *rpcRequest, result map[string]interface{}, seen func(map[string]interface{})) *nethttp.Response {
	keys := []string{}
	c := map[string]interface{}{}
	for k, v := range result {
		c[k] = v
		keys = append(keys, k)
	}
	sortStrings(keys)
	kind := r.Choose(9)
	k := ""
	if len(keys) > 0 {
		k = keys[r.Choose(len(keys))]
	}
	r.Logf("  malformed reply %d %s", kind, k)
	switch kind {
	case 0:
		return http.Reply(req, 500, "<html>bad gateway</html>")
	case 1:
		return http.Reply(req, 200, "")
	case 2:
		return http.Reply(req, 200, `{"jsonrpc":"2.0","result":`)
	case 3:
		return http.Reply(req, 200, `{"jsonrpc":"2.0","result":null,"id":1}`)
	case 4:
		delete(c, k)
	case 5:
		c[k] = nil
	case 6:
		c[k] = 17
	case 7:
		c[k] = []interface{}{fmt.Sprint(c[k]), 1}
	case 8:
		if s, ok := c[k].(string); ok {
			if r.Bool(1, 2) && len(s) > 8 {
				s = s[:(len(s)/8)*4]
			} else {
				s = "%%" + s
			}
			c[k] = s
		} else {
			c[k] = "x"
		}
	}
	seen(c)
	return rpcReply(req, q, c, nil)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
