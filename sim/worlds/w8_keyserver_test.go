//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/aes"
	gocipher "crypto/cipher"
	"crypto/rand"
	"crypto/sha256"
	"encoding/json"
	"fmt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/identity"
)

// vKS is a simulated key server: it registers identities, publishes them in
// its hash chain and hands out key init messages.
type vKS struct {
	domain  string
	host    string
	srv     *uid.Message // its own identity
	sigkey  *cipher.Ed25519Key
	tknkey  string
	chain   []string
	owner   []string // identity an entry is for
	evil    []bool   // entry was not made from a registration
	replies map[string]*uid.MessageReply
	pos     map[string][]int
	uids    map[string]*uid.Message
	regs    map[string]string // UID message JSON -> index
	inits   map[string][]string
	token   func(usage, token string) error // checks and spends a token
	fetched []string                        // key inits handed out
}

func vSigKey(m *uid.Message) *cipher.Ed25519Key {
	k := new(cipher.Ed25519Key)
	if err := k.SetPrivateKey(m.PrivateSigKey64()[:]); err != nil {
		panic(err)
	}
	return k
}

func newVKS(domain, host string) *vKS {
	k := &vKS{domain: domain, host: host, replies: map[string]*uid.MessageReply{}, pos: map[string][]int{}, uids: map[string]*uid.Message{},
		regs: map[string]string{}, inits: map[string][]string{}}
	m, err := uid.Create("keyserver@"+domain, false, "", "", uid.Strict, "", rand.Reader)
	if err != nil {
		panic(err)
	}
	k.srv = m
	k.sigkey = vSigKey(m)
	k.publish(m.Identity(), m)
	return k
}

// vEntry makes the hash chain entry for identity id, UIDHash and index.
func vEntry(prev, id string, nonce, uidHash, uidIndex []byte) string {
	k1, k2 := cipher.CKDF(nonce)
	hashID := cipher.SHA256(append(append([]byte{}, k1...), id...))
	idKey := cipher.SHA256(append(append([]byte{}, k2...), id...))
	crUID := make([]byte, 48)
	rand.Read(crUID[:16])
	b, err := aes.NewCipher(idKey)
	if err != nil {
		panic(err)
	}
	gocipher.NewCBCEncrypter(b, crUID[:16]).CryptBlocks(crUID[16:], uidHash)
	return vLink(prev, hashchain.Type[0], nonce, hashID, crUID, uidIndex)
}

func vLink(prev string, typ byte, parts ...[]byte) string {
	e := []byte{typ}
	for _, p := range parts {
		e = append(e, p...)
	}
	ph := make([]byte, sha256.Size)
	if prev != "" {
		p, err := base64.Decode(prev)
		if err != nil || len(p) < 32 {
			p = make([]byte, 32)
		}
		ph = p[:32]
	}
	h := sha256.Sum256(append(append([]byte{}, e...), ph...))
	return base64.Encode(append(h[:], e...))
}

func (k *vKS) last() string {
	if len(k.chain) == 0 {
		return ""
	}
	return k.chain[len(k.chain)-1]
}

func (k *vKS) nonce() []byte {
	n := make([]byte, 8)
	rand.Read(n)
	return n
}

// publish appends an entry for m, under identity id.
func (k *vKS) publish(id string, m *uid.Message) *uid.MessageReply {
	return k.publishRaw(id, m.JSON())
}

func (k *vKS) publishRaw(id string, jsn []byte) *uid.MessageReply {
	uidHash := cipher.SHA256(jsn)
	uidIndex := cipher.SHA256(uidHash)
	enc := vEncUID(uidHash, uidIndex, jsn)
	e := vEntry(k.last(), id, k.nonce(), uidHash, uidIndex)
	k.chain = append(k.chain, e)
	k.owner = append(k.owner, id)
	k.evil = append(k.evil, false)
	n := len(k.chain) - 1
	k.pos[id] = append(k.pos[id], n)
	rep := uid.CreateReply(enc, e, uint64(n), k.sigkey)
	k.replies[base64.Encode(uidIndex)] = rep
	return rep
}

func vEncUID(uidHash, uidIndex, jsn []byte) string {
	enc := make([]byte, 16+len(jsn))
	rand.Read(enc[:16])
	b, err := aes.NewCipher(uidHash)
	if err != nil {
		panic(err)
	}
	gocipher.NewCTR(b, enc[:16]).XORKeyStream(enc[16:], jsn)
	return base64.Encode(append(append([]byte{}, uidIndex...), enc...))
}

// rotate replaces the server's signature key.
func (k *vKS) rotate() {
	up, err := k.srv.Update(rand.Reader)
	if err != nil {
		panic(err)
	}
	k.publish(up.Identity(), up) // signed with the old key
	k.srv = up
	k.sigkey = vSigKey(up)
}

func (k *vKS) register(jsn json.RawMessage, update bool) (*uid.MessageReply, error) {
	m, err := uid.NewJSON(string(jsn))
	if err != nil {
		return nil, err
	}
	if err := m.Check(); err != nil {
		return nil, err
	}
	if err := m.VerifySelfSig(); err != nil {
		return nil, err
	}
	if m.Domain() != k.domain {
		return nil, fmt.Errorf("domain not served")
	}
	can := string(m.JSON())
	if i := k.regs[can]; i != "" {
		return k.replies[i], nil
	}
	old := k.uids[m.Identity()]
	if update {
		if old == nil {
			return nil, fmt.Errorf("UID does not exist")
		}
		if err := m.VerifyUserSig(old); err != nil {
			return nil, err
		}
	} else {
		if old != nil {
			return nil, fmt.Errorf("UID already exists")
		}
		if m.UIDContent.MSGCOUNT != 0 {
			return nil, fmt.Errorf("MSGCOUNT must be 0")
		}
	}
	rep := k.publish(m.Identity(), m)
	k.uids[m.Identity()] = m
	_, idx, _ := m.Encrypt()
	k.regs[can] = base64.Encode(idx)
	return rep, nil
}

func (k *vKS) caps() map[string]interface{} {
	return map[string]interface{}{
		"METHODS": []string{"KeyRepository.Capabilities", "KeyRepository.CreateUID", "KeyRepository.UpdateUID", "KeyRepository.FetchUID",
			"KeyInitRepository.AddKeyInit", "KeyInitRepository.FetchKeyInit", "KeyInitRepository.FlushKeyInit",
			"KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyHashchain.LookupUID"},
		"DOMAINS": []string{k.domain}, "KEYREPOSITORYURIS": []string{k.host}, "KEYINITREPOSITORYURIS": []string{k.domain},
		"KEYHASHCHAINURIS": []string{k.host}, "KEYHASHCHAINENTRY": k.last(), "TKNPUBKEY": k.tknkey, "SIGPUBKEYS": []string{k.srv.SigPubKey()},
	}
}

func vGeneric(x interface{}) map[string]interface{} {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// serve answers a request.
func (k *vKS) serve(q *rpcRequest) (map[string]interface{}, error) {
	var p struct {
		UIDMessage                 json.RawMessage
		Token                      string
		SigPubKey                  string
		KeyInits                   []json.RawMessage
		Tokens                     []string
		SigKeyHash                 string
		StartPosition, EndPosition uint64
		UIDIndex                   string
		Identity                   string
		Nonce                      uint64
		Signature                  string
	}
	if len(q.Params) > 0 {
		if err := json.Unmarshal(q.Params, &p); err != nil {
			return nil, err
		}
	}
	switch q.Method {
	case "KeyRepository.Capabilities":
		return map[string]interface{}{"CAPABILITIES": k.caps()}, nil
	case "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		if k.token != nil {
			if err := k.token("UID", p.Token); err != nil {
				return nil, err
			}
		}
		rep, err := k.register(p.UIDMessage, q.Method == "KeyRepository.UpdateUID")
		if err != nil {
			return nil, err
		}
		return map[string]interface{}{"UIDMessageReply": vGeneric(rep)}, nil
	case "KeyRepository.FetchUID":
		rep := k.replies[p.UIDIndex]
		if rep == nil {
			return nil, fmt.Errorf("no such UID")
		}
		return map[string]interface{}{"UIDMessageReply": vGeneric(rep)}, nil
	case "KeyHashchain.FetchLastHashChain":
		return map[string]interface{}{"HCEntry": k.last(), "HCPos": float64(len(k.chain) - 1)}, nil
	case "KeyHashchain.FetchHashChain":
		if p.StartPosition > p.EndPosition || p.EndPosition >= uint64(len(k.chain)) {
			return nil, fmt.Errorf("invalid range")
		}
		var es []interface{}
		for _, e := range k.chain[p.StartPosition : p.EndPosition+1] {
			es = append(es, e)
		}
		return map[string]interface{}{"HCFirstPos": float64(p.StartPosition), "HCEntries": es}, nil
	case "KeyHashchain.LookupUID":
		id, err := identity.Map(p.Identity)
		if err != nil {
			return nil, err
		}
		if k.pos[id] == nil {
			return map[string]interface{}{"HCPositions": nil}, nil
		}
		var ps []interface{}
		for _, n := range k.pos[id] {
			ps = append(ps, float64(n))
		}
		return map[string]interface{}{"HCPositions": ps}, nil
	case "KeyInitRepository.AddKeyInit":
		if len(p.Tokens) != len(p.KeyInits) {
			return nil, fmt.Errorf("wrong number of tokens")
		}
		var sigs []interface{}
		for i, raw := range p.KeyInits {
			ki, err := uid.NewJSONKeyInit(raw)
			if err != nil {
				return nil, err
			}
			if err := ki.Verify([]string{k.domain}, p.SigPubKey); err != nil {
				return nil, err
			}
			if k.token != nil {
				if err := k.token("Message", p.Tokens[i]); err != nil {
					return nil, err
				}
			}
			k.inits[ki.SigKeyHash()] = append(k.inits[ki.SigKeyHash()], string(ki.JSON()))
			sigs = append(sigs, ki.Sign(k.sigkey))
		}
		return map[string]interface{}{"Signatures": sigs}, nil
	case "KeyInitRepository.FetchKeyInit":
		l := k.inits[p.SigKeyHash]
		if len(l) == 0 {
			return nil, fmt.Errorf("no key init found")
		}
		ki := l[len(l)-1]
		k.fetched = append(k.fetched, ki)
		return map[string]interface{}{"KeyInit": ki}, nil
	case "KeyInitRepository.FlushKeyInit":
		if err := uid.VerifyNonce(p.SigPubKey, p.Nonce, p.Signature); err != nil {
			return nil, err
		}
		pk, err := base64.Decode(p.SigPubKey)
		if err != nil {
			return nil, err
		}
		delete(k.inits, base64.Encode(cipher.SHA512(cipher.SHA512(pk))))
		return map[string]interface{}{}, nil
	}
	return nil, fmt.Errorf("unknown method %s", q.Method)
}

// vSplit is the reference reading of a hash chain entry.
func vSplit(entry string) (parts [][]byte, err error) {
	b, err := base64.Decode(entry)
	if err != nil {
		return nil, err
	}
	if len(b) != 153 || b[32] != 1 {
		return nil, fmt.Errorf("malformed entry")
	}
	return [][]byte{b[:32], b[32:33], b[33:41], b[41:73], b[73:121], b[121:]}, nil
}

// vValid is the reference check of a hash chain: it returns the first bad
// position or -1.
func vValid(chain []string) int {
	prev := make([]byte, 32)
	for i, e := range chain {
		p, err := vSplit(e)
		if err != nil {
			return i
		}
		x := bytes.Join(p[1:], nil)
		h := sha256.Sum256(append(x, prev...))
		if !bytes.Equal(h[:], p[0]) {
			return i
		}
		prev = p[0]
	}
	return -1
}

// vCommitted is the hash an entry commits identity id to; ok is false if the
// entry is not for id.
func vCommitted(entry, id string) (uidHash, uidIndex []byte, ok bool) {
	p, err := vSplit(entry)
	if err != nil {
		return nil, nil, false
	}
	k1, k2 := cipher.CKDF(p[2])
	if !bytes.Equal(cipher.SHA256(append(append([]byte{}, k1...), id...)), p[3]) {
		return nil, nil, false
	}
	key := cipher.SHA256(append(append([]byte{}, k2...), id...))
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	h := make([]byte, 32)
	gocipher.NewCBCDecrypter(b, p[4][:16]).CryptBlocks(h, p[4][16:])
	return h, p[5], true
}

func vBlock(key []byte) func(iv, dst, src []byte) {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	return func(iv, dst, src []byte) { gocipher.NewCTR(b, iv).XORKeyStream(dst, src) }
}
