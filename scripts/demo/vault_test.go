package PKG

// Builds small OPVaults for the demonstrations.

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

type demoItem struct {
	Uid, Category    string
	Trashed          bool
	Created, Updated int64
	Overview         map[string]interface{}
	Details          map[string]interface{}
	// faults
	BadKeyTag, BadOverviewTag, BadDetailsTag bool
}

func demoB64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func demoRand(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func demoMac(key, data []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func demoCBC(key, iv, plain []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(plain))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, plain)
	return out
}

func demoOpdata(plain, key, mac []byte) []byte {
	pad := 16 - len(plain)%16
	buf := append(demoRand(pad), plain...)
	head := append([]byte("opdata01"), make([]byte, 8)...)
	binary.LittleEndian.PutUint64(head[8:], uint64(len(plain)))
	iv := demoRand(16)
	data := append(append(head, iv...), demoCBC(key, iv, buf)...)
	return append(data, demoMac(mac, data)...)
}

func demoBreak(b []byte, on bool) []byte {
	if on {
		b[len(b)-1] ^= 1
	}
	return b
}

// demoKDF is PBKDF2-HMAC-SHA512 with one 64 byte block.
func demoKDF(pw, salt []byte, n int) []byte {
	h := hmac.New(sha512.New, pw)
	h.Write(salt)
	h.Write([]byte{0, 0, 0, 1})
	u := h.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < n; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(nil)
		for j := range out {
			out[j] ^= u[j]
		}
	}
	return out
}

// demoVault writes a vault below a fresh temporary directory.
func demoVault(t *testing.T, password string, items []demoItem, tweak func(profile map[string]interface{}, bands map[string]map[string]interface{})) string {
	dir, err := ioutil.TempDir("", "demovault")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	salt := demoRand(16)
	dk := demoKDF([]byte(password), salt, 1000)
	master, over := demoRand(256), demoRand(64)
	mk, ok := sha512.Sum512(master), sha512.Sum512(over)
	profile := map[string]interface{}{
		"salt": demoB64(salt), "iterations": 1000,
		"masterKey":   demoB64(demoOpdata(master, dk[:32], dk[32:])),
		"overviewKey": demoB64(demoOpdata(over, dk[:32], dk[32:])),
	}
	bands := map[string]map[string]interface{}{"band_0.js": {}}
	for _, it := range items {
		ik := demoRand(64)
		iv := demoRand(16)
		kd := append(iv, demoCBC(mk[:32], iv, ik)...)
		kd = append(kd, demoMac(mk[32:], kd)...)
		oj, _ := json.Marshal(it.Overview)
		dj, _ := json.Marshal(it.Details)
		r := map[string]interface{}{
			"uuid": it.Uid, "category": it.Category, "created": it.Created, "updated": it.Updated, "hmac": "",
			"k": demoB64(demoBreak(kd, it.BadKeyTag)),
			"o": demoB64(demoBreak(demoOpdata(oj, ok[:32], ok[32:]), it.BadOverviewTag)),
			"d": demoB64(demoBreak(demoOpdata(dj, ik[:32], ik[32:]), it.BadDetailsTag)),
		}
		if it.Trashed {
			r["trashed"] = true
		}
		bands["band_0.js"][it.Uid] = r
	}
	if tweak != nil {
		tweak(profile, bands)
	}
	os.MkdirAll(filepath.Join(dir, "default"), 0755)
	pj, _ := json.Marshal(profile)
	ioutil.WriteFile(filepath.Join(dir, "default", "profile.js"), []byte("var profile="+string(pj)+";"), 0644)
	for n, b := range bands {
		bj, _ := json.Marshal(b)
		ioutil.WriteFile(filepath.Join(dir, "default", n), []byte("ld("+string(bj)+");"), 0644)
	}
	return dir
}
