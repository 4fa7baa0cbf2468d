package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"os"
	"path"
	"regexp"
	"strings"
	"time"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/dynamodbkeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/postgreskeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/vaultkeystore"

	"verifmc/ctl"
)

type roundTripFunc func(*http.Request) (*http.Response, error)

func (f roundTripFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func httpResponse(r *http.Request, status int, contentType string, body interface{}) *http.Response {
	b, ok := body.([]byte)
	if !ok {
		b, _ = json.Marshal(body)
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {contentType}}, Body: ioutil.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}
}

// fakeVault is a Vault KV version 2 secret engine (data and destroy endpoints,
// check-and-set, at most 10 versions).
type fakeVault struct {
	x       *ctl.X
	secrets map[string][]vaultVersion
}

type vaultVersion struct {
	data      map[string]interface{}
	destroyed bool
}

func (v *fakeVault) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	v.x.Point()
	resp := v.serve(r)
	v.x.Point()
	return resp, nil
}

func (v *fakeVault) serve(r *http.Request) *http.Response {
	var body []byte
	if r.Body != nil {
		body, _ = ioutil.ReadAll(r.Body)
		r.Body.Close()
	}
	fail := func(status int, msg string) *http.Response {
		return httpResponse(r, status, "application/json", map[string]interface{}{"errors": []string{msg}})
	}
	p := r.URL.Path
	if path.Clean(p) != p {
		// a server mux redirects paths that are not clean
		resp := fail(http.StatusMovedPermanently, "")
		resp.Header.Set("Location", path.Clean(p))
		return resp
	}
	const dataP, destroyP = "/v1/secret/data/", "/v1/secret/destroy/"
	type ver struct {
		V []int `json:"versions"`
	}
	switch {
	case strings.HasPrefix(p, dataP) && r.Method == http.MethodGet:
		vs := v.secrets[p[len(dataP):]]
		if len(vs) == 0 {
			return httpResponse(r, 404, "application/json", map[string]interface{}{"errors": []string{}})
		}
		last := vs[len(vs)-1]
		status := 200
		var data interface{} = last.data
		if last.destroyed {
			status, data = 404, nil
		}
		return httpResponse(r, status, "application/json", map[string]interface{}{"data": map[string]interface{}{
			"data": data, "metadata": map[string]interface{}{"created_time": "2021-01-01T00:00:00Z", "deletion_time": "", "destroyed": last.destroyed, "version": len(vs)}}})
	case strings.HasPrefix(p, dataP) && (r.Method == http.MethodPost || r.Method == http.MethodPut):
		var in struct {
			Data    map[string]interface{} `json:"data"`
			Options struct {
				CAS *int `json:"cas"`
			} `json:"options"`
		}
		if err := json.Unmarshal(body, &in); err != nil || in.Data == nil {
			return fail(400, "no data provided")
		}
		name := p[len(dataP):]
		if in.Options.CAS != nil && *in.Options.CAS != len(v.secrets[name]) {
			return fail(400, "check-and-set parameter did not match the current version")
		}
		v.secrets[name] = append(v.secrets[name], vaultVersion{data: in.Data})
		return httpResponse(r, 200, "application/json", map[string]interface{}{"data": map[string]interface{}{
			"created_time": "2021-01-01T00:00:00Z", "deletion_time": "", "destroyed": false, "version": len(v.secrets[name])}})
	case strings.HasPrefix(p, destroyP) && (r.Method == http.MethodPost || r.Method == http.MethodPut):
		var in ver
		if err := json.Unmarshal(body, &in); err != nil || len(in.V) == 0 {
			return fail(400, "no version number provided")
		}
		vs := v.secrets[p[len(destroyP):]]
		for _, n := range in.V {
			if n >= 1 && n <= len(vs) {
				vs[n-1] = vaultVersion{destroyed: true}
			}
		}
		return httpResponse(r, 204, "application/json", []byte{})
	}
	return fail(405, "unsupported operation")
}

// fakeDynamo is a DynamoDB table behind the JSON protocol: conditional puts,
// SET/REMOVE updates, and reads that may return the previous version of an item
// unless they ask for consistency.
type fakeDynamo struct {
	x     *ctl.X
	items map[string]map[string]interface{}
	prev  map[string]map[string]interface{}
	stale bool // offer stale reads
}

type dynReq struct {
	Key                       map[string]map[string]interface{}
	Item                      map[string]map[string]interface{}
	ConsistentRead            bool
	ConditionExpression       string
	UpdateExpression          string
	ProjectionExpression      string
	AttributesToGet           []string
	ExpressionAttributeNames  map[string]string
	ExpressionAttributeValues map[string]interface{}
}

var condRe = regexp.MustCompile(`^(attribute_not_exists|attribute_exists)\s*\(\s*([#\w]+)\s*\)$`)

func (d *fakeDynamo) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	d.x.Point()
	resp := d.serve(r)
	d.x.Point()
	return resp, nil
}

func (d *fakeDynamo) serve(r *http.Request) *http.Response {
	const ct = "application/x-amz-json-1.0"
	fail := func(typ, msg string) *http.Response {
		return httpResponse(r, 400, ct, map[string]string{"__type": "com.amazonaws.dynamodb.v20120810#" + typ, "message": msg})
	}
	var rd io.Reader = r.Body
	var in dynReq
	if err := json.NewDecoder(rd).Decode(&in); err != nil {
		return fail("SerializationException", err.Error())
	}
	r.Body.Close()
	key := func(m map[string]map[string]interface{}) (string, bool) {
		s, ok := m["SubjectID"]["S"].(string)
		return s, ok && s != ""
	}
	name := func(n string) string {
		n = strings.TrimSpace(n)
		if strings.HasPrefix(n, "#") {
			return in.ExpressionAttributeNames[n]
		}
		return n
	}
	cond := func(item map[string]interface{}) (bool, bool) {
		if in.ConditionExpression == "" {
			return true, true
		}
		for _, part := range strings.Split(in.ConditionExpression, " AND ") {
			m := condRe.FindStringSubmatch(strings.TrimSpace(part))
			if m == nil {
				return false, false
			}
			_, has := item[name(m[2])]
			if has != (m[1] == "attribute_exists") {
				return false, true
			}
		}
		return true, true
	}
	set := func(k string, item map[string]interface{}) {
		d.prev[k] = d.items[k]
		d.items[k] = item
	}
	op := r.Header.Get("X-Amz-Target")
	switch op[strings.LastIndex(op, ".")+1:] {
	case "GetItem":
		k, ok := key(in.Key)
		if !ok {
			return fail("ValidationException", "One or more parameter values are not valid. The AttributeValue for a key attribute cannot contain an empty string value. Key: SubjectID")
		}
		item := d.items[k]
		if d.stale && !in.ConsistentRead {
			if p, ok := d.prev[k]; ok && d.x.ChooseF(2, 1, func(i int) string { return [...]string{"up-to-date", "stale"}[i] + " read of " + k }) == 1 {
				item = p
			}
		}
		if item == nil {
			return httpResponse(r, 200, ct, map[string]interface{}{})
		}
		return httpResponse(r, 200, ct, map[string]interface{}{"Item": item})
	case "PutItem":
		k, ok := key(in.Item)
		if !ok {
			return fail("ValidationException", "One or more parameter values are not valid. The AttributeValue for a key attribute cannot contain an empty string value. Key: SubjectID")
		}
		hold, known := cond(d.items[k])
		if !known {
			return fail("ValidationException", "cannot evaluate "+in.ConditionExpression)
		}
		if !hold {
			return fail("ConditionalCheckFailedException", "The conditional request failed")
		}
		item := map[string]interface{}{}
		for n, v := range in.Item {
			item[n] = v
		}
		set(k, item)
		return httpResponse(r, 200, ct, map[string]interface{}{})
	case "UpdateItem":
		k, ok := key(in.Key)
		if !ok {
			return fail("ValidationException", "One or more parameter values are not valid. The AttributeValue for a key attribute cannot contain an empty string value. Key: SubjectID")
		}
		hold, known := cond(d.items[k])
		if !known {
			return fail("ValidationException", "cannot evaluate "+in.ConditionExpression)
		}
		if !hold {
			return fail("ConditionalCheckFailedException", "The conditional request failed")
		}
		item := map[string]interface{}{"SubjectID": map[string]interface{}{"S": k}}
		for n, v := range d.items[k] {
			item[n] = v
		}
		expr := in.UpdateExpression
		mode := ""
		for _, tok := range strings.Split(strings.NewReplacer("SET ", ",@SET,", "REMOVE ", ",@REMOVE,").Replace(expr), ",") {
			tok = strings.TrimSpace(tok)
			switch {
			case tok == "":
			case strings.HasPrefix(tok, "@"):
				mode = tok
			case mode == "@SET":
				kv := strings.SplitN(tok, "=", 2)
				v, ok := in.ExpressionAttributeValues[strings.TrimSpace(kv[len(kv)-1])]
				if len(kv) != 2 || !ok {
					return fail("ValidationException", "cannot evaluate "+expr)
				}
				item[name(kv[0])] = v
			case mode == "@REMOVE":
				delete(item, name(tok))
			default:
				return fail("ValidationException", "cannot evaluate "+expr)
			}
		}
		set(k, item)
		return httpResponse(r, 200, ct, map[string]interface{}{})
	case "DeleteItem":
		k, _ := key(in.Key)
		set(k, nil)
		return httpResponse(r, 200, ct, map[string]interface{}{})
	}
	return fail("UnknownOperationException", op)
}

// keySys is one key store under test.
type keySys struct {
	kind   string
	st     crypto.KeyStore
	second crypto.KeyStore // cache: the layer behind
	// unique: one key for two subjects must be refused
	unique bool
	// odd: subjects the implementation may refuse with any error
	odd func(subject string) bool
	// tables of the fakes, for damage reports
	close func()
}

func never(string) bool { return false }

func openKeys(x *ctl.X, kind string, stale bool) *keySys {
	k := &keySys{kind: kind, odd: never, close: func() {}}
	switch kind {
	case "memory":
		k.st, k.unique = inmemorykeystore.New(), true
	case "cache":
		k.second = inmemorykeystore.New()
		k.st, k.unique = cachekeystore.New(&pointKeys{x: x, KeyStore: inmemorykeystore.New()}, &pointKeys{x: x, KeyStore: k.second}), true
	case "cache-forgetful":
		k.second = inmemorykeystore.New()
		k.st, k.unique = cachekeystore.New(&pointKeys{x: x, KeyStore: &forgetfulKeys{}}, &pointKeys{x: x, KeyStore: k.second}), true
	case "cache-dynamodb":
		sec := openKeys(x, "dynamodb", stale)
		k.second = sec.st
		k.st = cachekeystore.New(&pointKeys{x: x, KeyStore: inmemorykeystore.New()}, sec.st)
		k.close = sec.close
		k.unique = false
	case "dynamodb":
		f := &fakeDynamo{x: x, items: map[string]map[string]interface{}{}, prev: map[string]map[string]interface{}{}, stale: stale}
		for _, kv := range os.Environ() {
			if strings.HasPrefix(kv, "AWS_") {
				os.Unsetenv(strings.SplitN(kv, "=", 2)[0])
			}
		}
		oldT, oldC := http.DefaultTransport, http.DefaultClient.Transport
		http.DefaultTransport, http.DefaultClient.Transport = f, f
		k.close = func() { http.DefaultTransport, http.DefaultClient.Transport = oldT, oldC }
		st, err := dynamodbkeystore.New(&dynamodbkeystore.Config{AccessKeyID: "AK", SecretAccessKey: "SK", AWSRegion: "us-east-1", TableName: "vault", EndpointURL: "http://dynamo.test"})
		if err != nil {
			x.Fail("dynamodb: %v", err)
		}
		k.st = st
		k.odd = func(s string) bool { return s == "" }
	case "cache-postgres":
		sec := openKeys(x, "postgres", stale)
		if x.Failed() {
			return sec
		}
		k.second = sec.st
		k.st = cachekeystore.New(&pointKeys{x: x, KeyStore: inmemorykeystore.New()}, sec.st)
		k.close = sec.close
		k.odd = sec.odd
		k.unique = true
	case "postgres":
		srv := newPgServer(x)
		st, err := postgreskeystore.New(pgConfig)
		if err != nil {
			x.Fail("postgres: %v", err)
		}
		k.st, k.unique = st, true
		k.odd = func(s string) bool { return strings.ContainsAny(s, "\x00") }
		k.close = func() {
			if srv.unsupported != "" {
				x.FailSig("unsupported", "the PostgreSQL stand-in does not understand a statement: %s", srv.unsupported)
			}
			x.Quiesce()
			srv.close()
			x.Quiesce()
		}
	case "vault":
		st, err := vaultkeystore.New(vaultkeystore.Config{Address: "http://vault.test", Token: "tok"})
		if err != nil {
			x.Fail("vault: %v", err)
		}
		st.SetTimeout(0 * time.Second)
		st.SetTransport(&fakeVault{x: x, secrets: map[string][]vaultVersion{}})
		k.st = st
		k.odd = func(s string) bool { return s == "" || strings.ContainsAny(s, "?#%\x00") || path.Clean("/"+s) != "/"+s }
	default:
		panic(kind)
	}
	return k
}

// pointKeys offers scheduling points around the calls of a layer.
type pointKeys struct {
	x *ctl.X
	crypto.KeyStore
}

func (p *pointKeys) Get(s string) (string, error) {
	p.x.Point()
	defer p.x.Point()
	return p.KeyStore.Get(s)
}
func (p *pointKeys) Set(s, k string) error {
	p.x.Point()
	defer p.x.Point()
	return p.KeyStore.Set(s, k)
}
func (p *pointKeys) Delete(s string) error {
	p.x.Point()
	defer p.x.Point()
	return p.KeyStore.Delete(s)
}
