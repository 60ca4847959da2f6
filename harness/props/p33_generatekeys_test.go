package props

import (
	"bytes"
	"encoding/hex"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sync"
	"testing"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf/p256"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP33(t *testing.T) {
	Run(t, "a whole set of keys was generated, used and compared with all earlier ones",
		Sub{Name: "command", Quick: 1600, Thorough: 40000, Prop: propKeyCommand},
		Sub{Name: "vrf keys", Quick: 8000, Thorough: 200000, Prop: propVrfKeyGeneration},
	)
}

var generateKeys struct {
	once sync.Once
	path string
	err  error
	out  []byte
	seen map[string]bool // keys ever generated
}

// keyCommand builds cmd/generate-keys.
func keyCommand(rt *rapid.T) string {
	g := &generateKeys
	g.once.Do(func() {
		_, file, _, _ := runtime.Caller(0)
		dir, err := os.MkdirTemp(".", "keys")
		if err == nil {
			dir, err = filepath.Abs(dir)
		}
		if err != nil {
			g.err = err
			return
		}
		g.path = filepath.Join(dir, "generate-keys")
		cmd := exec.Command("go", "build", "-o", g.path, "github.com/Bren2010/katie/cmd/generate-keys")
		cmd.Dir = filepath.Dir(file)
		g.out, g.err = cmd.CombinedOutput()
	})
	if g.err != nil {
		rt.Fatalf("cmd/generate-keys can not be built: %v %s", g.err, g.out)
	}
	return g.path
}

// fresh fails the case if a secret was generated before.
func fresh(rt *rapid.T, what string, secret []byte) {
	g := &generateKeys
	if g.seen == nil {
		g.seen = map[string]bool{}
	}
	if g.seen[string(secret)] {
		rt.Fatalf("the same %s was generated twice", what)
	}
	g.seen[string(secret)] = true
	zero := 0
	for _, b := range secret {
		if b == 0 {
			zero++
		}
	}
	if zero > 12 {
		rt.Fatalf("the %s %x is not random", what, secret)
	}
}

var keyLine = regexp.MustCompile(`(?m)^(Signing|VRF) (Private|Public) Key: +([0-9a-f]+)$`)

func propKeyCommand(rt *rapid.T, c *Case) {
	path := keyCommand(rt)
	var cs suites.CipherSuite
	arg := Pick(rt, []string{"p256", "ed25519"}, "suite")
	if arg == "p256" {
		cs = suites.KTSha256P256{}
	} else {
		cs = suites.KTSha256Ed25519{}
	}
	message := Bytes(rt, 0, 40, "message")
	out, err := exec.Command(path, arg).Output()
	if err != nil {
		rt.Fatalf("generate-keys %s fails: %v", arg, err)
	}
	keys := map[string][]byte{}
	for _, m := range keyLine.FindAllStringSubmatch(string(out), -1) {
		raw, err := hex.DecodeString(m[3])
		if err != nil {
			rt.Fatalf("generate-keys %s prints %q", arg, m[0])
		}
		keys[m[1]+m[2]] = raw
	}
	if len(keys) != 4 {
		rt.Fatalf("generate-keys %s prints %q", arg, out)
	}
	c.Logf("%s %x", arg, message)
	fresh(rt, "signing key", keys["SigningPrivate"])
	fresh(rt, "VRF key", keys["VRFPrivate"])
	useSigningKeys(rt, cs, keys["SigningPrivate"], keys["SigningPublic"], message)
	useVrfKeys(rt, cs, keys["VRFPrivate"], keys["VRFPublic"], message)
	c.Class(arg)
	c.NonTrivial()
}

func useSigningKeys(rt *rapid.T, cs suites.CipherSuite, private, public, message []byte) {
	priv, err := cs.ParseSigningPrivateKey(private)
	if err != nil {
		rt.Fatalf("the generated signing key %x can not be used: %v", private, err)
	}
	pub, err := cs.ParseSigningPublicKey(public)
	if err != nil {
		rt.Fatalf("the generated signing public key %x can not be used: %v", public, err)
	}
	if !bytes.Equal(priv.Public().Bytes(), pub.Bytes()) || !bytes.Equal(pub.Bytes(), public) {
		rt.Fatalf("the generated signing public key %x does not belong to the private key (%x)", public, priv.Public().Bytes())
	}
	sig, err := priv.Sign(message)
	if err != nil {
		rt.Fatalf("signing with a generated key: %v", err)
	} else if !pub.Verify(message, sig) {
		rt.Fatalf("a signature by a generated key does not verify")
	} else if pub.Verify(append(Dup(message), 0), sig) {
		rt.Fatalf("a signature verifies for another message")
	}
}

func useVrfKeys(rt *rapid.T, cs suites.CipherSuite, private, public, message []byte) {
	priv, err := cs.ParseVRFPrivateKey(private)
	if err != nil {
		rt.Fatalf("the generated VRF key %x can not be used: %v", private, err)
	}
	if !bytes.Equal(priv.PublicKey().Bytes(), public) {
		rt.Fatalf("the generated VRF public key %x does not belong to the private key (%x)", public, priv.PublicKey().Bytes())
	}
	pub, err := cs.ParseVRFPublicKey(public)
	if err != nil {
		rt.Fatalf("the generated VRF public key %x can not be used: %v", public, err)
	}
	want, proof := priv.Prove(message)
	if got, err := pub.Verify(message, proof); err != nil || !bytes.Equal(got, want) {
		rt.Fatalf("a VRF proof by a generated key does not verify (%v)", err)
	}
}

func propVrfKeyGeneration(rt *rapid.T, c *Case) {
	message := Bytes(rt, 0, 40, "message")
	raw := p256.GeneratePrivateKey() // from randomness the case determines
	if bytes.Equal(raw, p256.GeneratePrivateKey()) {
		rt.Fatalf("the same VRF key was generated twice")
	}
	key, err := p256.NewPrivateKey(raw)
	if err != nil {
		rt.Fatalf("the generated VRF key %x can not be used: %v", raw, err)
	}
	useVrfKeys(rt, suites.KTSha256P256{}, raw, key.PublicKey().Bytes(), message)
	c.Logf("%x", message)
	c.NonTrivial()
}
