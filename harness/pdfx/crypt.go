package pdfx

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand"
)

// The standard security handler, written from ISO 32000 (7.6) and independent
// of the code under test.

var padString = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// PadString returns the 32 padding bytes of Algorithm 2.
func PadString() []byte { return append([]byte(nil), padString...) }

// Crypt is an encrypted document's security handler state.
type Crypt struct {
	V, R, N       int // N: file key length in bytes
	P             int32
	EncMeta       bool
	O, U, OE, UE  []byte
	ID            []byte
	Key           []byte
	StmM, StrM    string // "V2", "AESV2", "AESV3", "Identity"
	CF            map[string]string
	LenInDict     bool // write /Length where it is optional
	CFLenBits     bool
	UnsignedP     bool
	ExplicitMeta  bool
	PermsGarbage  bool
	CFMoreEntries bool
}

func pad32(pw []byte) []byte { return append(append([]byte(nil), pw...), padString...)[:32] }

func rc4x(key, b []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(b))
	c.XORKeyStream(o, b)
	return o
}

func xorKey(k []byte, x int) []byte {
	o := make([]byte, len(k))
	for i := range k {
		o[i] = k[i] ^ byte(x)
	}
	return o
}

func (c *Crypt) legacyKey(padded []byte) []byte {
	var b bytes.Buffer
	b.Write(padded)
	b.Write(c.O[:32])
	u := uint32(c.P)
	b.Write([]byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)})
	b.Write(c.ID)
	if c.R >= 4 && !c.EncMeta {
		b.WriteString("\xff\xff\xff\xff")
	}
	h := md5.Sum(b.Bytes())
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			h = md5.Sum(h[:c.N])
		}
	}
	return append([]byte(nil), h[:c.N]...)
}

func (c *Crypt) ownerRC4(owner []byte) []byte {
	h := md5.Sum(pad32(owner))
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			h = md5.Sum(h[:])
		}
	}
	return append([]byte(nil), h[:c.N]...)
}

func (c *Crypt) legacyU(key []byte) []byte {
	if c.R == 2 {
		return rc4x(key, padString)
	}
	h := md5.Sum(append(append([]byte(nil), padString...), c.ID...))
	x := h[:]
	for i := 0; i <= 19; i++ {
		x = rc4x(xorKey(key, i), x)
	}
	return x
}

// hash2 is the hash of revisions 5 and 6.
func (c *Crypt) hash2(pw, salt, u []byte) []byte {
	if len(pw) > 127 {
		pw = pw[:127]
	}
	cat := func(xs ...[]byte) []byte { return bytes.Join(xs, nil) }
	s := sha256.Sum256(cat(pw, salt, u))
	k := s[:]
	if c.R == 5 {
		return k
	}
	for i := 1; ; i++ { // i: rounds done after this one
		one := cat(pw, k, u)
		in := bytes.Repeat(one, 64)
		blk, _ := aes.NewCipher(k[0:16])
		e := make([]byte, len(in))
		cipher.NewCBCEncrypter(blk, k[16:32]).CryptBlocks(e, in)
		m := new(big.Int).Mod(new(big.Int).SetBytes(e[:16]), big.NewInt(3)).Int64()
		switch m {
		case 0:
			x := sha256.Sum256(e)
			k = x[:]
		case 1:
			x := sha512.Sum384(e)
			k = x[:]
		case 2:
			x := sha512.Sum512(e)
			k = x[:]
		}
		if i >= 64 && int(e[len(e)-1]) <= i-32 {
			return k[:32]
		}
	}
}

func cbc0(key, b []byte, enc bool) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(b))
	if enc {
		cipher.NewCBCEncrypter(blk, make([]byte, 16)).CryptBlocks(o, b)
	} else {
		cipher.NewCBCDecrypter(blk, make([]byte, 16)).CryptBlocks(o, b)
	}
	return o
}

// Setup computes the validators for a pair of passwords. An empty owner
// password means the user password. V, R, N, P, EncMeta and ID must be set.
func (c *Crypt) Setup(r *rand.Rand, user, owner []byte) {
	if len(owner) == 0 {
		owner = user
	}
	rnd := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	if c.R <= 4 {
		ok := c.ownerRC4(owner)
		o := rc4x(ok, pad32(user))
		if c.R >= 3 {
			for i := 1; i <= 19; i++ {
				o = rc4x(xorKey(ok, i), o)
			}
		}
		c.O = o
		c.Key = c.legacyKey(pad32(user))
		c.U = c.legacyU(c.Key)
		if c.R >= 3 {
			c.U = append(c.U, [][]byte{make([]byte, 16), rnd(16)}[r.Intn(2)]...)
		}
		return
	}
	c.Key = rnd(32)
	s := rnd(32)
	c.U = append(c.hash2(user, s[:8], nil), s[:16]...)
	c.UE = cbc0(c.hash2(user, s[8:16], nil), c.Key, true)
	c.O = append(c.hash2(owner, s[16:24], c.U), s[16:32]...)
	c.OE = cbc0(c.hash2(owner, s[24:32], c.U), c.Key, true)
}

// Auth checks a password and sets Key.
func (c *Crypt) Auth(pw []byte) bool {
	if c.R >= 5 {
		if len(c.U) < 48 || len(c.O) < 48 || len(c.UE) != 32 || len(c.OE) != 32 {
			return false
		}
		if bytes.Equal(c.hash2(pw, c.U[32:40], nil), c.U[:32]) {
			c.Key = cbc0(c.hash2(pw, c.U[40:48], nil), c.UE, false)
			return true
		}
		if bytes.Equal(c.hash2(pw, c.O[32:40], c.U[:48]), c.O[:32]) {
			c.Key = cbc0(c.hash2(pw, c.O[40:48], c.U[:48]), c.OE, false)
			return true
		}
		return false
	}
	try := func(padded []byte) bool {
		k := c.legacyKey(padded)
		u := c.legacyU(k)
		if len(c.U) < len(u) || !bytes.Equal(u, c.U[:len(u)]) {
			return false
		}
		c.Key = k
		return true
	}
	if try(pad32(pw)) {
		return true
	}
	ok := c.ownerRC4(pw)
	up := c.O
	if c.R >= 3 {
		for i := 19; i >= 1; i-- {
			up = rc4x(xorKey(ok, i), up)
		}
	}
	return try(rc4x(ok, up))
}

// Dict is the encryption dictionary.
func (c *Crypt) Dict() Dict {
	d := Dict{"Filter": Name("Standard"), "V": c.V, "R": c.R, "O": Str(c.O), "U": Str(c.U), "P": int(c.P)}
	if c.UnsignedP {
		d["P"] = int(uint32(c.P))
	}
	if c.V == 2 || c.LenInDict {
		d["Length"] = c.N * 8
	}
	if c.V >= 4 {
		cf := Dict{}
		put := func(name, m string) {
			f := Dict{"CFM": Name(m)}
			n := 16
			if m == "AESV3" {
				n = 32
			}
			if c.CFLenBits {
				n *= 8
			}
			f["Length"] = n
			if c.CFMoreEntries {
				f["Type"] = Name("CryptFilter")
				f["AuthEvent"] = Name("DocOpen")
			}
			cf[name] = f
		}
		names := map[string]string{"Identity": "Identity"}
		for n, m := range c.CF {
			put(n, m)
			names[m] = n
		}
		for i, m := range []string{c.StmM, c.StrM} {
			if m != "Identity" && names[m] == "" {
				names[m] = []string{"StdCF", "Str#CF"}[i]
				put(names[m], m)
			}
			k := []string{"StmF", "StrF"}[i]
			if m == "Identity" && c.CFLenBits {
				continue // Identity is the default
			}
			d[k] = Name(names[m])
		}
		d["CF"] = cf
		if !c.EncMeta || c.ExplicitMeta {
			d["EncryptMetadata"] = c.EncMeta
		}
	}
	if c.V == 5 {
		d["UE"], d["OE"] = Str(c.UE), Str(c.OE)
		perms := []byte{byte(c.P), byte(c.P >> 8), byte(c.P >> 16), byte(c.P >> 24), 255, 255, 255, 255, 'F', 'a', 'd', 'b', 1, 2, 3, 4}
		if c.EncMeta {
			perms[8] = 'T'
		}
		blk, _ := aes.NewCipher(c.Key)
		blk.Encrypt(perms, perms)
		d["Perms"] = Str(perms)
	}
	return d
}

// CryptOf reads an encryption dictionary.
func CryptOf(d Dict, id []byte) (*Crypt, error) {
	c := &Crypt{EncMeta: true, ID: id, CF: map[string]string{}}
	if d["Filter"] != Name("Standard") {
		return nil, fmt.Errorf("encryption dictionary: /Filter %v", d["Filter"])
	}
	c.V, _ = d["V"].(int)
	c.R, _ = d["R"].(int)
	p, ok := d["P"].(int)
	if !ok {
		return nil, fmt.Errorf("encryption dictionary: no /P")
	}
	c.P = int32(uint32(p))
	get := func(k string) []byte { s, _ := d[k].(Str); return s }
	c.O, c.U, c.OE, c.UE = get("O"), get("U"), get("OE"), get("UE")
	if b, ok := d["EncryptMetadata"].(bool); ok {
		c.EncMeta = b
	}
	switch c.V {
	case 1:
		c.N, c.StmM, c.StrM = 5, "V2", "V2"
	case 2:
		c.N, c.StmM, c.StrM = 5, "V2", "V2"
		if n, ok := d["Length"].(int); ok {
			c.N = n / 8
		}
	case 4, 5:
		c.N = 16
		if c.V == 5 {
			c.N = 32
		}
		cf, _ := d["CF"].(Dict)
		for n, f := range cf {
			fd, _ := f.(Dict)
			m, ok := fd["CFM"].(Name)
			if !ok {
				m = "None"
			}
			c.CF[n] = string(m)
		}
		for _, k := range []string{"StmF", "StrF"} {
			m := "Identity"
			if n, ok := d[k].(Name); ok && n != "Identity" {
				if m, ok = c.CF[string(n)]; !ok {
					return nil, fmt.Errorf("encryption dictionary: /%s /%s is no crypt filter", k, n)
				}
			}
			if k == "StmF" {
				c.StmM = m
			} else {
				c.StrM = m
			}
		}
	default:
		return nil, fmt.Errorf("encryption dictionary: /V %d", c.V)
	}
	if len(c.O) < 32 || len(c.U) < 32 {
		return nil, fmt.Errorf("encryption dictionary: /O and /U of %d and %d bytes", len(c.O), len(c.U))
	}
	if c.R >= 5 {
		if len(c.U) != 48 || len(c.O) != 48 || len(c.UE) != 32 || len(c.OE) != 32 || len(get("Perms")) != 16 {
			return nil, fmt.Errorf("encryption dictionary: /U /O /UE /OE /Perms of %d %d %d %d %d bytes", len(c.U), len(c.O), len(c.UE), len(c.OE), len(get("Perms")))
		}
	}
	return c, nil
}

// CheckPerms validates /Perms against /P once the key is known.
func (c *Crypt) CheckPerms(d Dict) error {
	if c.V != 5 {
		return nil
	}
	b := append([]byte(nil), d["Perms"].(Str)...)
	blk, _ := aes.NewCipher(c.Key)
	blk.Decrypt(b, b)
	u := uint32(c.P)
	m := byte('F')
	if c.EncMeta {
		m = 'T'
	}
	if !bytes.Equal(b[:4], []byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}) || string(b[9:12]) != "adb" || b[8] != m {
		return fmt.Errorf("/Perms decrypts to %q, which is not what /P %d says", b, c.P)
	}
	return nil
}

// StreamMethod is how a stream with this dictionary is encrypted.
func (c *Crypt) StreamMethod(d Dict) string {
	if d["Type"] == Name("XRef") {
		return "Identity"
	}
	if d["Type"] == Name("Metadata") && c.V >= 4 && !c.EncMeta {
		return "Identity"
	}
	f, p := d["Filter"], d["DecodeParms"]
	if a, ok := f.(Arr); ok && len(a) > 0 {
		f = a[0]
		if pa, ok := p.(Arr); ok && len(pa) > 0 {
			p = pa[0]
		}
	}
	if f == Name("Crypt") {
		pd, _ := p.(Dict)
		n, _ := pd["Name"].(Name)
		if m, ok := c.CF[string(n)]; ok {
			return m
		}
		return "Identity"
	}
	return c.StmM
}

func (c *Crypt) objKey(m string, n, g int) []byte {
	if m == "AESV3" {
		return c.Key
	}
	b := append(append([]byte(nil), c.Key...), byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if m == "AESV2" {
		b = append(b, "sAlT"...)
	}
	h := md5.Sum(b)
	l := len(c.Key) + 5
	if l > 16 {
		l = 16
	}
	return h[:l]
}

// Encrypt encrypts with a method; the AES initialization vector comes from r.
func (c *Crypt) Encrypt(r *rand.Rand, m string, n, g int, b []byte) []byte {
	switch m {
	case "Identity", "None":
		return append([]byte(nil), b...)
	case "V2":
		return rc4x(c.objKey(m, n, g), b)
	}
	blk, err := aes.NewCipher(c.objKey(m, n, g))
	if err != nil {
		panic(err)
	}
	iv := make([]byte, 16)
	r.Read(iv)
	k := 16 - len(b)%16
	in := append(append([]byte(nil), b...), bytes.Repeat([]byte{byte(k)}, k)...)
	o := make([]byte, len(in))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(o, in)
	return append(iv, o...)
}

func (c *Crypt) DecryptBytes(m string, n, g int, b []byte) ([]byte, error) {
	switch m {
	case "Identity", "None":
		return b, nil
	case "V2":
		return rc4x(c.objKey(m, n, g), b), nil
	case "AESV2", "AESV3":
	default:
		return nil, fmt.Errorf("crypt filter method %q", m)
	}
	if len(b) < 32 || len(b)%16 != 0 {
		return nil, fmt.Errorf("AES data of %d bytes", len(b))
	}
	blk, err := aes.NewCipher(c.objKey(m, n, g))
	if err != nil {
		return nil, err
	}
	o := make([]byte, len(b)-16)
	cipher.NewCBCDecrypter(blk, b[:16]).CryptBlocks(o, b[16:])
	k := int(o[len(o)-1])
	if k < 1 || k > 16 {
		return nil, fmt.Errorf("AES padding %d", k)
	}
	for _, x := range o[len(o)-k:] {
		if int(x) != k {
			return nil, fmt.Errorf("AES padding is damaged")
		}
	}
	return o[:len(o)-k], nil
}

// Unlock makes a file decrypt with a password; it fails when the password is
// wrong or the encryption dictionary unusable.
func (f *File) Unlock(pw []byte) (*Crypt, error) {
	var d Dict
	switch e := f.Trailer["Encrypt"].(type) {
	case Ref:
		v, err := f.Get(e.N)
		if err != nil {
			return nil, err
		}
		d, _ = v.(Dict)
	case Dict:
		d = e
	}
	if d == nil {
		return nil, fmt.Errorf("no encryption dictionary")
	}
	var id []byte
	if a, ok := f.Trailer["ID"].(Arr); ok && len(a) == 2 {
		s, _ := a[0].(Str)
		id = s
	} else {
		return nil, fmt.Errorf("encrypted file without /ID")
	}
	c, err := CryptOf(d, id)
	if err != nil {
		return nil, err
	}
	if !c.Auth(pw) {
		return nil, fmt.Errorf("wrong password")
	}
	f.Decrypt = func(n, g int, b []byte, s *Stream) ([]byte, error) {
		if s == nil {
			return c.DecryptBytes(c.StrM, n, g, b)
		}
		return c.DecryptBytes(c.StreamMethod(s.D), n, g, b)
	}
	return c, c.CheckPerms(d)
}
