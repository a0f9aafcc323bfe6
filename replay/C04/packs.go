// dir: scouterx/common/netdata with: netdata_ref.go
package netdata

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"
)

func i32v(r *rand.Rand) int32 { return int32(rint(r)) }
func r64(v int64) []byte      { return rbe(8, v) }
func r32(v int32) []byte      { return rbe(4, int64(v)) }
func r8(v int) []byte         { return []byte{byte(v)} }

// one random pack, its reference type code, and the reference layout before and after the
// map-shaped part (nil canon: no map part)
func rpack(r *rand.Rand, k int) (p Pack, typ byte, pre []byte, canon *string, post []byte) {
	mp := func(m *MapValue) *string { s := rcanonmap(m.Table); return &s }
	vmap := []byte{80}
	switch k {
	case 0:
		q := &MapPack{Table: rmap(r, 2).Table}
		s := rcanonmap(q.Table)
		return q, 10, nil, &s, nil
	case 1:
		q := &XlogPack{EndTime: rint(r), ObjHash: i32v(r), Service: i32v(r), Txid: rint(r), ThreadNameHash: i32v(r), Caller: rint(r), Gxid: rint(r),
			Elapsed: i32v(r), Error: i32v(r), Cpu: i32v(r), SqlCount: i32v(r), SqlTime: i32v(r), Ipaddr: []byte(rstr(r)), Kbytes: i32v(r), Status: i32v(r),
			Userid: rint(r), UserAgent: i32v(r), Referer: i32v(r), Group: i32v(r), ApicallCount: i32v(r), ApicallTime: i32v(r), CountryCode: rstr(r), City: i32v(r),
			XType: XlogType(r.Intn(256)), Login: i32v(r), Desc: i32v(r), WebHash: i32v(r), WebTime: i32v(r), HasDump: byte(r.Intn(256)), Text1: rstr(r), Text2: rstr(r),
			QueuingHostHash: i32v(r), QueuingTime: i32v(r), Queuing2ndHostHash: i32v(r), Queuing2ndTime: i32v(r), Text3: rstr(r), Text4: rstr(r), Text5: rstr(r),
			ProfileCount: i32v(r), B3Mode: r.Intn(2) == 0, ProfileSize: i32v(r), DiscardType: XlogDiscardType(r.Intn(256)), IgnoreGlobalConsequentSampling: r.Intn(2) == 0}
		d := func(v int32) []byte { return rdec(int64(v)) }
		b := rcat(rdec(q.EndTime), d(q.ObjHash), d(q.Service), r64(q.Txid), r64(q.Caller), r64(q.Gxid), d(q.Elapsed), d(q.Error), d(q.Cpu), d(q.SqlCount), d(q.SqlTime),
			rblob(q.Ipaddr), d(q.Kbytes), d(q.Status), rdec(q.Userid), d(q.UserAgent), d(q.Referer), d(q.Group), d(q.ApicallCount), d(q.ApicallTime),
			rtext(q.CountryCode), d(q.City), r8(int(q.XType)), d(q.Login), d(q.Desc), d(q.WebHash), d(q.WebTime), r8(int(q.HasDump)), d(q.ThreadNameHash),
			rtext(q.Text1), rtext(q.Text2), d(q.QueuingHostHash), d(q.QueuingTime), d(q.Queuing2ndHostHash), d(q.Queuing2ndTime),
			rtext(q.Text3), rtext(q.Text4), rtext(q.Text5), d(q.ProfileCount), rbool(q.B3Mode), d(q.ProfileSize), r8(int(q.DiscardType)), rbool(q.IgnoreGlobalConsequentSampling))
		return q, 21, rblob(b), nil, nil
	case 2:
		q := &XlogProfilePack{Time: rint(r), ObjHash: i32v(r), Service: i32v(r), Txid: rint(r), Elapsed: i32v(r), Profile: []byte(rstr(r))}
		return q, 26, rcat(rdec(q.Time), rdec(int64(q.ObjHash)), rdec(int64(q.Service)), r64(q.Txid), rblob(q.Profile)), nil, nil
	case 3:
		q := &TextPack{Xtype: texttype.TextType(rstr(r)), Hash: i32v(r), Text: rstr(r)}
		return q, 50, rcat(rtext(string(q.Xtype)), r32(q.Hash), rtext(q.Text)), nil, nil
	case 4:
		q := &PerfCounterPack{Time: rint(r), ObjName: rstr(r), Timetype: int8(rint(r)), Data: rmap(r, 2)}
		return q, 60, rcat(r64(q.Time), rtext(q.ObjName), r8(int(q.Timetype)), vmap), mp(q.Data), nil
	case 5:
		q := &PerfCounterK8SPack{Time: rint(r), SiteID: rstr(r), Cluster: rstr(r), NameSpace: rstr(r), NodeName: rstr(r), DaemonSetName: rstr(r), DeploymentName: rstr(r),
			PodName: rstr(r), ContainerName: rstr(r), ObjName: rstr(r), Timetype: int8(rint(r)), MetricLevel: int8(rint(r)), Data: rmap(r, 2)}
		return q, 65, rcat(r64(q.Time), rtext(q.SiteID), rtext(q.Cluster), rtext(q.NameSpace), rtext(q.NodeName), rtext(q.DaemonSetName), rtext(q.DeploymentName),
			rtext(q.PodName), rtext(q.ContainerName), rtext(q.ObjName), r8(int(q.Timetype)), r8(int(q.MetricLevel)), vmap), mp(q.Data), nil
	case 6:
		q := &AlertPack{Time: rint(r), ObjType: rstr(r), ObjHash: i32v(r), Level: AlertLevel(r.Intn(256)), Title: rstr(r), Message: rstr(r), Tags: rmap(r, 2)}
		return q, 70, rcat(r64(q.Time), r8(int(q.Level)), rtext(q.ObjType), r32(q.ObjHash), rtext(q.Title), rtext(q.Message), vmap), mp(q.Tags), nil
	case 7:
		q := &ObjectPack2{SiteID: rstr(r), ObjType: rstr(r), ObjHash: i32v(r), ObjName: rstr(r), Address: rstr(r), Version: rstr(r), Alive: r.Intn(2) == 0, Wakeup: rint(r), Family: int8(rint(r)), Tags: rmap(r, 2)}
		return q, 80, rcat(rtext(q.SiteID), rtext(q.ObjType), rdec(int64(q.ObjHash)), rtext(q.ObjName), rtext(q.Address), rtext(q.Version), rbool(q.Alive), rdec(q.Wakeup), r8(int(q.Family)), vmap), mp(q.Tags), nil
	}
	q := &ObjectPack{ObjType: rstr(r), ObjHash: i32v(r), ObjName: rstr(r), Address: rstr(r), Version: rstr(r), Alive: r.Intn(2) == 0, Wakeup: rint(r), Tags: rmap(r, 2)}
	return q, 80, rcat(rtext(q.ObjType), rdec(int64(q.ObjHash)), rtext(q.ObjName), rtext(q.Address), rtext(q.Version), rbool(q.Alive), rdec(q.Wakeup), vmap), mp(q.Tags), nil
}

// canonical text of the fields of a decoded pack
func pcanon(p Pack) string {
	switch q := p.(type) {
	case *MapPack:
		return rcanonmap(q.Table)
	case *PerfCounterPack:
		return fmt.Sprintf("%d %x %d ", q.Time, q.ObjName, q.Timetype) + rcanonmap(q.Data.Table)
	case *PerfCounterK8SPack:
		return fmt.Sprintf("%d %x %x %x %x %x %x %x %x %x %d %d ", q.Time, q.SiteID, q.Cluster, q.NameSpace, q.NodeName, q.DaemonSetName, q.DeploymentName, q.PodName, q.ContainerName, q.ObjName, q.Timetype, q.MetricLevel) + rcanonmap(q.Data.Table)
	case *ObjectPack2:
		return fmt.Sprintf("%x %x %d %x %x %x %v %d %d ", q.SiteID, q.ObjType, q.ObjHash, q.ObjName, q.Address, q.Version, q.Alive, q.Wakeup, q.Family) + rcanonmap(q.Tags.Table)
	case *ObjectPack:
		return fmt.Sprintf("%x %d %x %x %x %v %d ", q.ObjType, q.ObjHash, q.ObjName, q.Address, q.Version, q.Alive, q.Wakeup) + rcanonmap(q.Tags.Table)
	}
	return ""
}

func TestVerifPacks(t *testing.T) {
	for seed := int64(0); seed < 900; seed++ {
		func() {
			r := rand.New(rand.NewSource(seed))
			k := int(seed) % 9
			p, typ, pre, canon, post := rpack(r, k)
			bad := func(f string, a ...interface{}) {
				t.Errorf("FAILING-INPUT: seed %d %T: %s", seed, p, fmt.Sprintf(f, a...))
			}
			defer func() {
				if e := recover(); e != nil {
					bad("%v", e)
				}
			}()
			out := NewDataOutputX(nil)
			if _, err := out.WritePack(p); err != nil {
				bad("WritePack: %v", err)
			}
			b := append([]byte(nil), out.Bytes()...)
			if len(b) == 0 || b[0] != typ || p.GetPackType() != typ {
				bad("pack type byte %x, want %d", b[:1], typ)
				return
			}
			want := pcanon(p)
			if len(b) < 1+len(pre) || !bytes.Equal(b[1:1+len(pre)], pre) {
				for i := range pre {
					if 1+i >= len(b) || b[1+i] != pre[i] {
						bad("%s\nlayout differs at offset %d", p.ToString(), 1+i)
						return
					}
				}
			}
			rest := b[1+len(pre):]
			if canon == nil {
				if len(rest) != 0 {
					bad("%d bytes after the pack", len(rest))
				}
			} else {
				pp := &rparse{rest}
				if got := pp.mapbody(); got != *canon {
					bad("map part encodes %.300s, want %.300s", got, *canon)
				}
				if !bytes.Equal(pp.b, post) {
					bad("%d bytes after the pack", len(pp.b))
				}
			}
			if want == "" {
				return
			}
			if k == 5 || k == 8 { // these two are decoded by their own Read
				in := NewDataInputX(b[1:])
				var q Pack
				var err error
				if k == 5 {
					q, err = NewPerfCounterK8SPack().Read(in)
				} else {
					q, err = NewObjectPack().Read(in)
				}
				if err != nil || pcanon(q) != want {
					bad("decodes to %.300s (%v), want %.300s", pcanon(q), err, want)
				}
				return
			}
			for _, in := range []*DataInputX{NewDataInputX(b), NewDataInputX(bytes.NewReader(b))} {
				q, err := in.ReadPack()
				if err != nil || q == nil || fmt.Sprintf("%T", q) != fmt.Sprintf("%T", p) || pcanon(q) != want {
					bad("decodes to %T %.300s (%v), want %.300s", q, pcanon(q), err, want)
					return
				}
			}
		}()
		if t.Failed() {
			return
		}
	}
}

func TestVerifPackTypes(t *testing.T) {
	for c := 0; c < 256; c++ {
		p := CreatePack(byte(c))
		want := map[int]string{10: "*netdata.MapPack", 50: "*netdata.TextPack", 60: "*netdata.PerfCounterPack", 70: "*netdata.AlertPack", 80: "*netdata.ObjectPack2"}[c]
		if want == "" {
			want = "<nil>"
		}
		if got := fmt.Sprintf("%T", p); got != want {
			t.Errorf("FAILING-INPUT: CreatePack(%d) gives %s, want %s", c, got, want)
		}
	}
}
