package c15

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"sync"
	"testing"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/data/gencoder"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
)

var lens = []int{0, 1, 2, 3, 7, 8, 31, 32, 63, 64, 100, 126, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 16382, 16383, 16384, 16385, 20000}
var bigLens = []int{65535, 65536, 1<<21 - 1, 1 << 21, 1<<21 + 1}
var bits = []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0xffc12345, 0x7f800001, 1, 0x007fffff, 0x3f800000, 0x3f800001, 0xffffffff, 0x7f7fffff, 0x00800000}
var u32s = []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, math.MaxUint32}
var u64s = []uint64{0, 1, 255, 256, 1 << 32, 1<<40 + 3, 1<<63 - 1, 1 << 63, math.MaxUint64}

func genLen(r *rand.Rand, big bool) int {
	if big {
		return bigLens[r.IntN(len(bigLens))]
	}
	if r.IntN(3) > 0 {
		return lens[r.IntN(15)]
	}
	return lens[r.IntN(len(lens))]
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 1: // zeros
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = []byte{0x80, 0x7f, 0, 1}[r.IntN(4)]
		}
	}
	return b
}

func genFeature(r *rand.Rand, n int) []float32 {
	f := make([]float32, n)
	for i := range f {
		switch r.IntN(3) {
		case 0:
			f[i] = math.Float32frombits(r.Uint32())
		case 1:
			f[i] = math.Float32frombits(bits[r.IntN(len(bits))])
		default:
			f[i] = float32(r.NormFloat64())
		}
	}
	return f
}

func g32(r *rand.Rand) uint32 {
	if r.IntN(2) == 0 {
		return u32s[r.IntN(len(u32s))]
	}
	return r.Uint32()
}

func g64(r *rand.Rand) uint64 {
	if r.IntN(2) == 0 {
		return u64s[r.IntN(len(u64s))]
	}
	return r.Uint64()
}

// ids that do not depend on the code under test
func keyID(k *pb.DatumKey) string {
	b := make([]byte, 0, 64+len(k.Feature)*4+len(k.GroupLabel))
	b = fmt.Appendf(b, "%d %d %d %d %d %d ", k.Size1, k.Size2, k.Dim1, k.Dim2, len(k.Feature), len(k.GroupLabel))
	for _, f := range k.Feature {
		b = binary.BigEndian.AppendUint32(b, math.Float32bits(f))
	}
	return string(append(b, k.GroupLabel...))
}

func valID(v *pb.DatumValue) string { return fmt.Sprint(v.Version, " ") + string(v.Label) }

func cloneKey(k *pb.DatumKey) *pb.DatumKey {
	return &pb.DatumKey{Feature: append([]float32{}, k.Feature...), GroupLabel: append([]byte{}, k.GroupLabel...), Size1: k.Size1, Size2: k.Size2, Dim1: k.Dim1, Dim2: k.Dim2}
}

// mutants differ from k in exactly one field, in ways that could collide
func mutants(r *rand.Rand, k *pb.DatumKey) []*pb.DatumKey {
	var out []*pb.DatumKey
	add := func(f func(m *pb.DatumKey)) {
		m := cloneKey(k)
		f(m)
		out = append(out, m)
	}
	add(func(m *pb.DatumKey) { m.Size1 ^= 1 << r.IntN(32) })
	add(func(m *pb.DatumKey) { m.Size2 ^= 1 << r.IntN(32) })
	add(func(m *pb.DatumKey) { m.Dim1 ^= 1 << r.IntN(32) })
	add(func(m *pb.DatumKey) { m.Dim2 ^= 1 << r.IntN(32) })
	add(func(m *pb.DatumKey) { m.Size1, m.Size2 = m.Size2, m.Size1 })
	add(func(m *pb.DatumKey) { m.Dim1, m.Dim2 = m.Dim2, m.Dim1 })
	add(func(m *pb.DatumKey) { m.Size1, m.Dim1 = m.Dim1, m.Size1 })
	add(func(m *pb.DatumKey) { m.GroupLabel = append(m.GroupLabel, 0) })
	add(func(m *pb.DatumKey) { m.Feature = append(m.Feature, 0) })
	if len(k.Feature) > 0 {
		add(func(m *pb.DatumKey) {
			i := r.IntN(len(m.Feature))
			m.Feature[i] = math.Float32frombits(math.Float32bits(m.Feature[i]) ^ 1<<r.IntN(32))
		})
		add(func(m *pb.DatumKey) { m.Feature = m.Feature[:len(m.Feature)-1] })
		add(func(m *pb.DatumKey) { // the last component moves into the group label
			b := math.Float32bits(m.Feature[len(m.Feature)-1])
			m.Feature = m.Feature[:len(m.Feature)-1]
			m.GroupLabel = append([]byte{byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24)}, m.GroupLabel...)
		})
		add(func(m *pb.DatumKey) {
			for i, j := 0, len(m.Feature)-1; i < j; i, j = i+1, j-1 {
				m.Feature[i], m.Feature[j] = m.Feature[j], m.Feature[i]
			}
		})
	}
	if len(k.GroupLabel) > 0 {
		add(func(m *pb.DatumKey) { m.GroupLabel[r.IntN(len(m.GroupLabel))] ^= 1 << r.IntN(8) })
		add(func(m *pb.DatumKey) { m.GroupLabel = m.GroupLabel[:len(m.GroupLabel)-1] })
		add(func(m *pb.DatumKey) { m.GroupLabel = m.GroupLabel[1:] })
	}
	return out
}

func TestEncoding(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "encoding")
	n := rep.N(4000, 60000)
	if rep.Stage != "plain" {
		n = rep.N(350, 10000)
	}
	seenK, seenV := map[string]string{}, map[string]string{}
	var reusedK pb.DatumKey
	var reusedV pb.DatumValue
	for c := 0; c < n; c++ {
		r := rep.Rng(fmt.Sprint("enc", c))
		big := c%400 == 399
		k := &pb.DatumKey{Feature: genFeature(r, genLen(r, big && r.IntN(2) == 0)), GroupLabel: genBytes(r, genLen(r, big && r.IntN(2) == 0)), Size1: g32(r), Size2: g32(r), Dim1: g32(r), Dim2: g32(r)}
		v := &pb.DatumValue{Label: genBytes(r, genLen(r, big && r.IntN(2) == 0)), Version: g64(r)}
		if c%50 == 0 {
			k.Feature, k.GroupLabel, v.Label = nil, nil, nil
		}
		all := append([]*pb.DatumKey{k}, mutants(r, k)...)
		if big {
			all = all[:1]
		}
		for _, x := range all {
			id := keyID(x)
			kb, err := data.GetKeyAsBytes(&pb.Datum{Key: x})
			if err != nil {
				rep.Violate("case %d: encoding the key failed: %v", c, err)
				continue
			}
			if keyID(x) != id {
				rep.Violate("case %d: encoding changed the key", c)
			}
			s := util.EncodeToString(kb)
			if !big {
				if other, ok := seenK[s]; ok && other != id {
					rep.Violate("case %d: keys %.150q and %.150q have the same encoding", c, other, id)
				}
				if len(seenK) > 30000 {
					seenK = map[string]string{}
				}
				seenK[s] = id
			}
			// concatenated with other bytes it consumes exactly its own
			tail := genBytes(r, r.IntN(20))
			buf := append(append([]byte{}, kb...), tail...)
			var got pb.DatumKey
			used, err := gencoder.UnmarshalKey(&got, buf)
			if err != nil || used != uint64(len(kb)) {
				rep.Violate("case %d: decoding a key of %d components and a group label of %d bytes used %d of %d bytes (%v)", c, len(x.Feature), len(x.GroupLabel), used, len(kb), err)
				continue
			}
			if sz := gencoder.SizeKey(x); sz != uint64(len(kb)) {
				rep.Violate("case %d: the size of a key is given as %d, it has %d bytes", c, sz, len(kb))
			}
			for i := range buf { // nothing decoded refers to the buffer
				buf[i] ^= 0x5a
			}
			if keyID(&got) != id {
				rep.Violate("case %d: decoded key differs: %.150q instead of %.150q", c, keyID(&got), id)
			}
			if p, err := data.ToDatumKey(kb); err != nil || keyID(p) != id {
				rep.Violate("case %d: ToDatumKey differs (%v)", c, err)
			}
			if _, err := gencoder.UnmarshalKey(&reusedK, kb); err != nil || keyID(&reusedK) != id {
				rep.Violate("case %d: a key decoded into a used structure differs: %.150q instead of %.150q", c, keyID(&reusedK), id)
			}
			if s != string(kb) && util.EncodeToString(kb) != s {
				rep.Violate("case %d: the string form of a key is not stable", c)
			}
			rep.Count("keys", 1)
		}
		vals := []*pb.DatumValue{v, {Label: v.Label, Version: v.Version ^ 1<<r.IntN(64)}, {Label: append(append([]byte{}, v.Label...), 0), Version: v.Version}}
		if len(v.Label) > 0 {
			m := append([]byte{}, v.Label...)
			m[r.IntN(len(m))] ^= 1 << r.IntN(8)
			vals = append(vals, &pb.DatumValue{Label: m, Version: v.Version}, &pb.DatumValue{Label: v.Label[1:], Version: v.Version})
		}
		for _, x := range vals {
			id := valID(x)
			vb, err := data.GetValueAsBytes(&pb.Datum{Value: x})
			if err != nil {
				rep.Violate("case %d: encoding the value failed: %v", c, err)
				continue
			}
			if other, ok := seenV[string(vb)]; ok && other != id {
				rep.Violate("case %d: values %.150q and %.150q have the same encoding", c, other, id)
			}
			if len(seenV) > 40000 || big {
				seenV = map[string]string{}
			}
			seenV[string(vb)] = id
			buf := append(append([]byte{}, vb...), genBytes(r, r.IntN(20))...)
			var got pb.DatumValue
			used, err := gencoder.UnmarshalValue(&got, buf)
			for i := range buf {
				buf[i] ^= 0x5a
			}
			if err != nil || used != uint64(len(vb)) || valID(&got) != id {
				rep.Violate("case %d: decoding a value with a label of %d bytes used %d of %d bytes and gave %.150q instead of %.150q (%v)", c, len(x.Label), used, len(vb), valID(&got), id, err)
			}
			if sz := gencoder.SizeValue(x); sz != uint64(len(vb)) {
				rep.Violate("case %d: the size of a value is given as %d, it has %d bytes", c, sz, len(vb))
			}
			if p, err := data.ToDatumValue(vb); err != nil || valID(p) != id {
				rep.Violate("case %d: ToDatumValue differs (%v)", c, err)
			}
			if _, err := gencoder.UnmarshalValue(&reusedV, vb); err != nil || valID(&reusedV) != id {
				rep.Violate("case %d: a value decoded into a used structure differs: %.150q instead of %.150q", c, valID(&reusedV), id)
			}
			kb, _ := data.GetKeyAsBytes(&pb.Datum{Key: k})
			if p, err := data.ToDatum(kb, vb); err != nil || keyID(p.GetKey()) != keyID(k) || valID(p.GetValue()) != id {
				rep.Violate("case %d: ToDatum differs (%v)", c, err)
			}
			rep.Count("values", 1)
		}
		d := data.NewDatum(k.Feature, k.Dim1, k.Dim2, k.Size1, k.Size2, k.GroupLabel, v.Label, v.Version)
		if keyID(d.GetKey()) != keyID(k) || valID(d.GetValue()) != valID(v) {
			rep.Violate("case %d: NewDatum(%v, %v, %v, %v) built %.150q = %.150q", c, k.Dim1, k.Dim2, k.Size1, k.Size2, keyID(d.GetKey()), valID(d.GetValue()))
		}
		sc := gencoder.DatumScore{Score: math.Float64frombits(g64(r))}
		if b, err := sc.Marshal(); err != nil || len(b) != int(sc.Size()) {
			rep.Violate("case %d: encoding a score: %v", c, err)
		} else {
			var o gencoder.DatumScore
			if u, err := o.Unmarshal(b); err != nil || u != uint64(len(b)) || math.Float64bits(o.Score) != math.Float64bits(sc.Score) {
				rep.Violate("case %d: score %v decoded as %v", c, sc.Score, o.Score)
			}
		}
		for _, bad := range []*pb.Datum{nil, {}} {
			if _, err := data.GetKeyAsBytes(bad); err == nil {
				rep.Violate("encoding a missing key succeeded")
			}
			if _, err := data.GetValueAsBytes(bad); err == nil {
				rep.Violate("encoding a missing value succeeded")
			}
		}
		rep.Case(fmt.Sprint(len(k.Feature), len(k.GroupLabel), len(v.Label), k.Size1, v.Version, c))
		if c < 2 {
			rep.Sample(fmt.Sprintf("%d components, group label of %d bytes, label of %d bytes, sizes %d %d, dims %d %d, version %d, %d one-field mutants", len(k.Feature), len(k.GroupLabel), len(v.Label), k.Size1, k.Size2, k.Dim1, k.Dim2, v.Version, len(all)-1))
		}
	}
	// concurrent use shares nothing
	var wg sync.WaitGroup
	k := &pb.DatumKey{Feature: genFeature(rep.Rng("c"), 300), GroupLabel: []byte("shared"), Size1: 1}
	want, _ := gencoder.MarshalKey(k)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < rep.N(500, 5000); i++ {
				b, err := gencoder.MarshalKey(k)
				if err != nil || !bytes.Equal(b, want) {
					rep.Violate("concurrent encoding of one key differs (%v)", err)
					return
				}
				if p, err := data.ToDatumKey(want); err != nil || keyID(p) != keyID(k) {
					rep.Violate("concurrent decoding differs (%v)", err)
					return
				}
				rep.Count("concurrent", 1)
			}
		}()
	}
	wg.Wait()
	rep.Done()
}
