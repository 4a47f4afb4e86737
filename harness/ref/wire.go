// Package ref holds the independent re-implementations the monitors compare the
// code under test with. Nothing here imports the repository.
package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"sort"

	"golang.org/x/crypto/blake2b"
)

const ProofSize = 42

// Hdr is a block header as it appears on the wire.
type Hdr struct {
	Version                            uint16
	Height                             uint64
	TS                                 int64
	Prev, PrevRoot, UTXO, RProof, Kern [32]byte
	Offset                             [32]byte
	OutMmr, KerMmr, TD                 uint64
	Scaling                            uint32
	Nonce                              uint64
	EdgeBits                           uint8
	Nonces                             []uint32
}

type W struct{ B []byte }

func (w *W) U8(v uint8)   { w.B = append(w.B, v) }
func (w *W) U16(v uint16) { w.B = append(w.B, byte(v>>8), byte(v)) }
func (w *W) U32(v uint32) { w.U16(uint16(v >> 16)); w.U16(uint16(v)) }
func (w *W) U64(v uint64) { w.U32(uint32(v >> 32)); w.U32(uint32(v)) }
func (w *W) Raw(b []byte) { w.B = append(w.B, b...) }

// PackNonces packs the nonces little-endian bit by bit: bit j of nonce i is bit
// i*eb+j of the stream, bit k of the stream is bit k%8 of byte k/8.
func PackNonces(eb uint8, nonces []uint32) []byte {
	out := make([]byte, (int(eb)*ProofSize+7)/8)
	pos := 0
	for _, n := range nonces {
		v := uint64(n)
		for j := 0; j < int(eb); j++ {
			if j < 64 && v>>uint(j)&1 == 1 {
				out[pos>>3] |= 1 << uint(pos&7)
			}
			pos++
		}
	}
	return out
}

func (h *Hdr) EncNoPow() []byte {
	var w W
	w.U16(h.Version)
	w.U64(h.Height)
	w.U64(uint64(h.TS))
	w.Raw(h.Prev[:])
	w.Raw(h.PrevRoot[:])
	w.Raw(h.UTXO[:])
	w.Raw(h.RProof[:])
	w.Raw(h.Kern[:])
	w.Raw(h.Offset[:])
	w.U64(h.OutMmr)
	w.U64(h.KerMmr)
	w.U64(h.TD)
	w.U32(h.Scaling)
	w.U64(h.Nonce)
	return w.B
}

// HdrFixed is the length of a header up to the proof.
const HdrFixed = 2 + 8 + 8 + 32*6 + 8*3 + 4 + 8

func (h *Hdr) Enc() []byte {
	var w W
	w.Raw(h.EncNoPow())
	w.U8(h.EdgeBits)
	w.Raw(PackNonces(h.EdgeBits, h.Nonces))
	return w.B
}

// ID is the identity of a header or block: the hash of its packed nonces.
func (h *Hdr) ID() [32]byte { return blake2b.Sum256(PackNonces(h.EdgeBits, h.Nonces)) }

// PowDifficulty is the maximum target over the leading 64 bits of the proof's hash.
func (h *Hdr) PowDifficulty() uint64 {
	s := blake2b.Sum256(append([]byte{h.EdgeBits}, PackNonces(h.EdgeBits, h.Nonces)...))
	return DiffFromHash(s[:])
}

// DiffFromHash: a zero prefix counts as one.
func DiffFromHash(hash []byte) uint64 {
	n := binary.BigEndian.Uint64(hash)
	if n == 0 {
		n = 1
	}
	return uint64(0x0fffffffffffffff) / n
}

type R struct {
	B   []byte
	Pos int
	Err error
}

func (r *R) take(n int) []byte {
	if r.Err != nil || len(r.B)-r.Pos < n || n < 0 {
		r.Err = io.ErrUnexpectedEOF
		return make([]byte, max(0, min(n, 1<<16)))
	}
	b := r.B[r.Pos : r.Pos+n]
	r.Pos += n
	return b
}
func (r *R) U8() uint8          { return r.take(1)[0] }
func (r *R) U16() uint16        { return binary.BigEndian.Uint16(r.take(2)) }
func (r *R) U32() uint32        { return binary.BigEndian.Uint32(r.take(4)) }
func (r *R) U64() uint64        { return binary.BigEndian.Uint64(r.take(8)) }
func (r *R) Raw(n int) []byte   { return append([]byte(nil), r.take(n)...) }
func (r *R) Hash() (h [32]byte) { copy(h[:], r.take(32)); return }
func (r *R) Left() int          { return len(r.B) - r.Pos }

var ErrCanon = errors.New("ref: not canonical")

// DecHdr decodes one header, refusing non-canonical proofs.
func DecHdr(r *R) (h Hdr, err error) {
	h.Version = r.U16()
	h.Height = r.U64()
	h.TS = int64(r.U64())
	h.Prev, h.PrevRoot, h.UTXO, h.RProof, h.Kern, h.Offset = r.Hash(), r.Hash(), r.Hash(), r.Hash(), r.Hash(), r.Hash()
	h.OutMmr, h.KerMmr, h.TD = r.U64(), r.U64(), r.U64()
	h.Scaling = r.U32()
	h.Nonce = r.U64()
	h.EdgeBits = r.U8()
	if r.Err != nil {
		return h, r.Err
	}
	if h.EdgeBits == 0 || h.EdgeBits > 64 {
		return h, ErrCanon
	}
	packed := r.Raw((int(h.EdgeBits)*ProofSize + 7) / 8)
	if r.Err != nil {
		return h, r.Err
	}
	h.Nonces = make([]uint32, ProofSize)
	for i := range h.Nonces {
		for j := 0; j < int(h.EdgeBits); j++ {
			k := i*int(h.EdgeBits) + j
			if packed[k/8]>>(uint(k)%8)&1 == 1 && j < 32 {
				h.Nonces[i] |= 1 << uint(j)
			}
		}
	}
	if !bytes.Equal(PackNonces(h.EdgeBits, h.Nonces), packed) {
		return h, ErrCanon
	}
	return h, nil
}

type In struct {
	Feat   uint8
	Commit [33]byte
}
type Out struct {
	Feat   uint8
	Commit [33]byte
	Proof  []byte
}
type Ker struct {
	Feat      uint8
	Fee, Lock uint64
	Excess    [33]byte
	Sig       [64]byte
}

const RangeProofLen = 675

func (i In) Enc() []byte   { return append([]byte{i.Feat}, i.Commit[:]...) }
func (o Out) Head() []byte { return append([]byte{o.Feat}, o.Commit[:]...) }
func (o Out) Enc() []byte {
	w := W{o.Head()}
	w.U64(uint64(len(o.Proof)))
	w.Raw(o.Proof)
	return w.B
}
func (k Ker) Enc() []byte {
	var w W
	w.U8(k.Feat)
	w.U64(k.Fee)
	w.U64(k.Lock)
	w.Raw(k.Excess[:])
	w.Raw(k.Sig[:])
	return w.B
}
func h32(b []byte) []byte  { s := blake2b.Sum256(b); return s[:] }
func (i In) Hash() []byte  { return h32(i.Enc()) }
func (o Out) Hash() []byte { return h32(o.Head()) }
func (k Ker) Hash() []byte { return h32(k.Enc()) }

type Body struct {
	Ins  []In
	Outs []Out
	Kers []Ker
}

func SortedIns(x []In) []In    { return byHash(x, func(i In) []byte { return i.Hash() }) }
func SortedOuts(x []Out) []Out { return byHash(x, func(o Out) []byte { return o.Hash() }) }
func SortedKers(x []Ker) []Ker { return byHash(x, func(k Ker) []byte { return k.Hash() }) }

// byHash sorts a copy, keeping the order of equal hashes.
func byHash[T any](x []T, hash func(T) []byte) []T {
	type keyed struct {
		h []byte
		v T
	}
	l := make([]keyed, len(x))
	for i, v := range x {
		l[i] = keyed{hash(v), v}
	}
	sort.SliceStable(l, func(a, b int) bool { return bytes.Compare(l[a].h, l[b].h) < 0 })
	var y []T
	for i := range l {
		y = append(y, l[i].v)
	}
	return y
}

func (b Body) Sorted() Body { return Body{SortedIns(b.Ins), SortedOuts(b.Outs), SortedKers(b.Kers)} }

func (b Body) IsSorted() bool {
	for i := 1; i < len(b.Ins); i++ {
		if bytes.Compare(b.Ins[i].Hash(), b.Ins[i-1].Hash()) < 0 {
			return false
		}
	}
	for i := 1; i < len(b.Outs); i++ {
		if bytes.Compare(b.Outs[i].Hash(), b.Outs[i-1].Hash()) < 0 {
			return false
		}
	}
	for i := 1; i < len(b.Kers); i++ {
		if bytes.Compare(b.Kers[i].Hash(), b.Kers[i-1].Hash()) < 0 {
			return false
		}
	}
	return true
}

// EncAsIs writes counts and items in the given order.
func (b Body) EncAsIs() []byte {
	var w W
	w.U64(uint64(len(b.Ins)))
	w.U64(uint64(len(b.Outs)))
	w.U64(uint64(len(b.Kers)))
	for _, x := range b.Ins {
		w.Raw(x.Enc())
	}
	for _, x := range b.Outs {
		w.Raw(x.Enc())
	}
	for _, x := range b.Kers {
		w.Raw(x.Enc())
	}
	return w.B
}

// EncBlock is the canonical encoding of a block.
func EncBlock(h Hdr, b Body) []byte { return append(h.Enc(), b.Sorted().EncAsIs()...) }

// EncTx is the canonical encoding of a transaction.
func EncTx(offset [32]byte, b Body) []byte {
	return append(append([]byte(nil), offset[:]...), b.Sorted().EncAsIs()...)
}

type Compact struct {
	H    Hdr
	Outs []Out
	Kers []Ker
	IDs  [][6]byte
}

func (c Compact) EncAsIs() []byte {
	w := W{c.H.Enc()}
	w.U8(uint8(len(c.Outs)))
	w.U8(uint8(len(c.Kers)))
	w.U64(uint64(len(c.IDs)))
	for _, x := range c.Outs {
		w.Raw(x.Enc())
	}
	for _, x := range c.Kers {
		w.Raw(x.Enc())
	}
	for _, x := range c.IDs {
		w.Raw(x[:])
	}
	return w.B
}
func (c Compact) Sorted() Compact {
	ids := append([][6]byte(nil), c.IDs...)
	sort.SliceStable(ids, func(a, b int) bool { return bytes.Compare(ids[a][:], ids[b][:]) < 0 })
	return Compact{c.H, SortedOuts(c.Outs), SortedKers(c.Kers), ids}
}
func (c Compact) Enc() []byte { return c.Sorted().EncAsIs() }

// DecBody decodes counts and items.
func DecBody(r *R) (b Body, err error) {
	ni, no, nk := r.U64(), r.U64(), r.U64()
	if r.Err == nil && (ni > 1000000 || no > 1000000 || nk > 1000000) {
		return b, ErrCanon
	}
	for i := uint64(0); i < ni && r.Err == nil; i++ {
		var x In
		x.Feat = r.U8()
		copy(x.Commit[:], r.take(33))
		b.Ins = append(b.Ins, x)
	}
	for i := uint64(0); i < no && r.Err == nil; i++ {
		x, e := decOut(r)
		if e != nil {
			return b, e
		}
		b.Outs = append(b.Outs, x)
	}
	for i := uint64(0); i < nk && r.Err == nil; i++ {
		x, e := decKer(r)
		if e != nil {
			return b, e
		}
		b.Kers = append(b.Kers, x)
	}
	return b, r.Err
}

func okPrefix(c [33]byte) bool { return c[0] == 8 || c[0] == 9 }

func decOut(r *R) (x Out, err error) {
	x.Feat = r.U8()
	copy(x.Commit[:], r.take(33))
	n := r.U64()
	if r.Err == nil && !okPrefix(x.Commit) {
		return x, ErrCanon
	}
	if r.Err == nil && n != RangeProofLen {
		return x, ErrCanon
	}
	if r.Err == nil {
		x.Proof = r.Raw(int(n))
	}
	return x, r.Err
}
func decKer(r *R) (x Ker, err error) {
	x.Feat = r.U8()
	x.Fee, x.Lock = r.U64(), r.U64()
	copy(x.Excess[:], r.take(33))
	copy(x.Sig[:], r.take(64))
	if r.Err == nil && !okPrefix(x.Excess) {
		return x, ErrCanon
	}
	return x, r.Err
}

func DecBlock(r *R) (h Hdr, b Body, err error) {
	if h, err = DecHdr(r); err != nil {
		return
	}
	b, err = DecBody(r)
	return
}

func DecCompact(r *R) (c Compact, err error) {
	if c.H, err = DecHdr(r); err != nil {
		return
	}
	no, nk := r.U8(), r.U8()
	ni := r.U64()
	if r.Err == nil && ni > 1000000 {
		return c, ErrCanon
	}
	for i := 0; i < int(no) && r.Err == nil; i++ {
		x, e := decOut(r)
		if e != nil {
			return c, e
		}
		c.Outs = append(c.Outs, x)
	}
	for i := 0; i < int(nk) && r.Err == nil; i++ {
		x, e := decKer(r)
		if e != nil {
			return c, e
		}
		c.Kers = append(c.Kers, x)
	}
	for i := uint64(0); i < ni && r.Err == nil; i++ {
		var id [6]byte
		copy(id[:], r.take(6))
		c.IDs = append(c.IDs, id)
	}
	return c, r.Err
}

// Addr is a socket address: 4 or 16 bytes of IP and a port.
type Addr struct {
	IP   []byte
	Port uint16
}

func (a Addr) Enc() []byte {
	var w W
	if len(a.IP) == 4 {
		w.U8(0)
	} else {
		w.U8(1)
	}
	w.Raw(a.IP)
	w.U16(a.Port)
	return w.B
}
func DecAddr(r *R) (a Addr, err error) {
	switch f := r.U8(); {
	case r.Err != nil:
		return a, r.Err
	case f == 0:
		a.IP = r.Raw(4)
	case f == 1:
		a.IP = r.Raw(16)
	default:
		return a, ErrCanon
	}
	a.Port = r.U16()
	return a, r.Err
}

func EncAddrs(as []Addr) []byte {
	var w W
	w.U32(uint32(len(as)))
	for _, a := range as {
		w.Raw(a.Enc())
	}
	return w.B
}
func DecAddrs(b []byte) (as []Addr, err error) {
	r := &R{B: b}
	n := r.U32()
	if n > 256 {
		return nil, ErrCanon
	}
	for i := uint32(0); i < n; i++ {
		a, e := DecAddr(r)
		if e != nil {
			return nil, e
		}
		as = append(as, a)
	}
	if r.Err == nil && r.Left() != 0 {
		return nil, ErrCanon
	}
	return as, r.Err
}

type Hand struct {
	Version, Caps    uint32
	Nonce, TD        uint64
	Sender, Receiver Addr
	UA               string
	Genesis          [32]byte
}

func (h Hand) Enc() []byte {
	var w W
	w.U32(h.Version)
	w.U32(h.Caps)
	w.U64(h.Nonce)
	w.U64(h.TD)
	w.Raw(h.Sender.Enc())
	w.Raw(h.Receiver.Enc())
	w.U64(uint64(len(h.UA)))
	w.Raw([]byte(h.UA))
	w.Raw(h.Genesis[:])
	return w.B
}
func DecHand(b []byte) (h Hand, err error) {
	r := &R{B: b}
	h.Version, h.Caps = r.U32(), r.U32()
	h.Nonce, h.TD = r.U64(), r.U64()
	if h.Sender, err = DecAddr(r); err != nil {
		return
	}
	if h.Receiver, err = DecAddr(r); err != nil {
		return
	}
	n := r.U64()
	if n > uint64(r.Left()) {
		return h, io.ErrUnexpectedEOF
	}
	h.UA = string(r.Raw(int(n)))
	h.Genesis = r.Hash()
	if r.Err == nil && r.Left() != 0 {
		return h, ErrCanon
	}
	return h, r.Err
}

type Shake struct {
	Version, Caps uint32
	TD            uint64
	UA            string
	Genesis       [32]byte
}

func (h Shake) Enc() []byte {
	var w W
	w.U32(h.Version)
	w.U32(h.Caps)
	w.U64(h.TD)
	w.U64(uint64(len(h.UA)))
	w.Raw([]byte(h.UA))
	w.Raw(h.Genesis[:])
	return w.B
}
func DecShake(b []byte) (h Shake, err error) {
	r := &R{B: b}
	h.Version, h.Caps = r.U32(), r.U32()
	h.TD = r.U64()
	n := r.U64()
	if n > uint64(r.Left()) {
		return h, io.ErrUnexpectedEOF
	}
	h.UA = string(r.Raw(int(n)))
	h.Genesis = r.Hash()
	if r.Err == nil && r.Left() != 0 {
		return h, ErrCanon
	}
	return h, r.Err
}

func EncPing(td, height uint64) []byte { var w W; w.U64(td); w.U64(height); return w.B }

func EncLocator(hs [][32]byte) []byte {
	var w W
	w.U8(uint8(len(hs)))
	for _, h := range hs {
		w.Raw(h[:])
	}
	return w.B
}
func EncError(code uint32, msg string) []byte {
	var w W
	w.U32(code)
	w.U64(uint64(len(msg)))
	w.Raw([]byte(msg))
	return w.B
}
func EncHeaders(hs []Hdr) []byte {
	var w W
	w.U16(uint16(len(hs)))
	for i := range hs {
		w.Raw(hs[i].Enc())
	}
	return w.B
}

// Message types.
const (
	TError = iota
	THand
	TShake
	TPing
	TPong
	TGetPeerAddrs
	TPeerAddrs
	TGetHeaders
	THeader
	THeaders
	TGetBlock
	TBlock
	TGetCompactBlock
	TCompactBlock
	TStemTransaction
	TTransaction
	TTxHashSetRequest
	TTxHashSetArchive
	TBanReason
	TGetTransaction
	TTransactionKernel
)

var Magic = [2]byte{0x54, 0x34}

const MaxMsg = 20000000

// Frame is a message with its header.
func Frame(typ uint8, body []byte) []byte {
	var w W
	w.Raw(Magic[:])
	w.U8(typ)
	w.U64(uint64(len(body)))
	w.Raw(body)
	return w.B
}

// Testnet4 genesis identity, as all Testnet4 nodes announce it.
var Testnet4Genesis = [32]byte{0x06, 0x44, 0xce, 0xdb, 0x1a, 0xcf, 0xdd, 0xe4, 0xee, 0x9e, 0x13, 0x5a, 0xe6, 0x1d, 0xe3, 0xcb,
	0xeb, 0x30, 0x1b, 0x5f, 0x27, 0xa4, 0x0a, 0x2c, 0x36, 0x6d, 0xa8, 0xe7, 0x24, 0x29, 0x2f, 0x20}
