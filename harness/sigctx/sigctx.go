// Package sigctx has what a signature depends on, and an independent computation of the values in its equations.
package sigctx

import (
	"crypto/hmac"
	"crypto/sha512"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// Tweak is the generalised BIP32 tweak of a key for a path; paths with an unsuitable hash output are left out
func Tweak(k P, path [][]byte) S {
	chain, off := make([]byte, 32), SInt(0)
	for _, i := range path {
		h := hmac.New(sha512.New, chain)
		h.Write(append(k.Compressed(), i...))
		o := h.Sum(nil)
		s := SBytes(o[:32])
		k = k.Add(G().Mul(s))
		Assume(And(EqBytes(s.Bytes(), o[:32]), Not(k.IsInf())))
		chain, off = o[32:], off.Add(s)
	}
	return off
}

// DPath makes the derivation path
func DPath(path [][]byte) *key.DerivationPath {
	p := make([]key.DerivationIndex, len(path))
	for i := range p {
		p[i] = append(key.DerivationIndex{}, path[i]...)
	}
	return key.New(p)
}

// Context is what a signature is made for
type Context struct {
	Key, Pre   P // master public key, presignature point
	Path       [][]byte
	Msg, Rand  []byte
	KeyT, PreT *dealings.IDkgTranscriptInternal
}

// Transcript wraps points as a commitment to a sum (pedersen) or an interpolation
func Transcript(pedersen, sum bool, p []P) *dealings.IDkgTranscriptInternal {
	var c poly.PolynomialCommitment
	if pedersen {
		c = poly.PedersenCM.New(Points(p))
	} else {
		c = poly.SimpleCM.New(Points(p))
	}
	if sum {
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: c}}
	}
	return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}
}

// NewContext makes an arbitrary context: key, presignature, message of 32 bytes, path of 0..1 four-byte indices, randomness
// of 0..2 bytes; tr transcripts have n points
func NewContext(tag string, n int) *Context {
	c := &Context{Key: NewP("key" + tag), Pre: NewP("presig" + tag), Msg: Bytes("msg"+tag, 32), Rand: Bytes("rand"+tag, Choose("randlen"+tag, 2)*2)}
	c.Path = make([][]byte, Choose("steps"+tag, 2))
	for i := range c.Path {
		c.Path[i] = Bytes("idx"+tag, 4)
	}
	c.Wrap(n)
	return c
}

// Wrap makes the transcripts of the context with n points
func (c *Context) Wrap(n int) {
	k, q := []P{c.Key}, []P{c.Pre}
	for i := 1; i < n; i++ {
		k, q = append(k, NewP("kt")), append(q, NewP("pt"))
	}
	c.KeyT, c.PreT = Transcript(false, false, k), Transcript(false, false, q)
}

// Values are what the signing equations use
type Values struct {
	E, Tweak, Randomizer, Rho, Theta S
	R                                P // the rerandomised presignature
}

// Values computes the values of a context
func (c *Context) Values() Values {
	var v Values
	v.Tweak = Tweak(c.Key, c.Path)
	o := ro.NewRandomOracle("ic-crypto-tecdsa-rerandomize-presig")
	o.AddBytesString("randomness", c.Rand)
	o.AddBytesString("hashed_message", c.Msg)
	o.AddPoint("pre_sig", MkPoint(c.Pre))
	o.AddScalar("key_tweak", MkScalar(v.Tweak))
	r, err := o.OutputScalar(curve.K256)
	Assert(err == nil, "randomizer")
	v.Randomizer = SVal(r)
	v.R = c.Pre.Add(G().Mul(v.Randomizer))
	v.Rho = v.R.XS()
	v.E = SBytes(c.Msg)
	v.Theta = v.E.Add(v.Rho.Mul(v.Tweak))
	return v
}
