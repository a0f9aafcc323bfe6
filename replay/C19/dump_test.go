// dir: scouterx/dump
package dump

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func verifHome(t *testing.T) (home, top string) {
	top, err := ioutil.TempDir("", "govdump")
	if err != nil {
		t.Fatal(err)
	}
	logger.Error = log.New(ioutil.Discard, "", 0)
	home = filepath.Join(top, "a", "b")
	os.Setenv("SCOUTER_AGENT_HOME", home)
	for _, d := range []string{getDumpPath(), getBinaryDumpPath()} {
		if len(d) < len(top) || d[:len(top)] != top {
			os.RemoveAll(top)
			t.Fatalf("dump path %s is outside the scratch directory", d)
		}
		os.MkdirAll(filepath.Join(d, "sub"), 0755)
	}
	return
}
func verifContent(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}
func verifBlocks(b []byte) (data []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("malformed reply: %v", r)
		}
	}()
	rd := bytes.NewReader(b)
	in := netdata.NewDataInputX(rd)
	for rd.Len() > 0 {
		m, _ := in.ReadInt8()
		if m != 3 {
			return data, fmt.Errorf("block announced by %d, not by the continuation marker", m)
		}
		blk, e := in.ReadBlob()
		if e != nil {
			return data, e
		}
		data = append(data, blk...)
	}
	return data, nil
}
func verifGet(name string, binary bool) []byte {
	buf := new(bytes.Buffer)
	out := netdata.NewDataOutputX(buf)
	if binary {
		DownloadBinaryDumpFiles(out, name)
	} else {
		p := netdata.NewMapPack()
		p.Put("name", name)
		StreamDumpFileContents(p, out)
	}
	return buf.Bytes()
}

var verifSizes = []int{0, 1, 2, 299, 300, 301, 599, 600, 601, 4095, 4096, 4097, 8192, 10000, 70000, 1 << 20, 5<<20 + 1}

func TestVerifDumpContent(t *testing.T) {
	_, top := verifHome(t)
	defer os.RemoveAll(top)
	for _, n := range verifSizes {
		for _, bin := range []bool{true, false} {
			dir, name := getDumpPath(), fmt.Sprintf("d%d.log", n)
			if bin {
				dir, name = getBinaryDumpPath(), fmt.Sprintf("d%d.pprof", n)
			}
			want := verifContent(n)
			ioutil.WriteFile(filepath.Join(dir, name), want, 0644)
			got, err := verifBlocks(verifGet(name, bin))
			if err != nil || !bytes.Equal(got, want) {
				fmt.Printf("FAILING-INPUT: dump %s of %d bytes: reply carries %d bytes, same=%v, err=%v\n", name, n, len(got), bytes.Equal(got, want), err)
				t.Fail()
			}
		}
	}
}

var verifNames = []string{"", ".", "..", "/", "../x", "../secret.pprof", "../../secret.pprof", "sub/in.pprof", "./in.pprof", "/in.pprof", "..pprof/../../secret.pprof",
	"..", "../binary_dump/in.pprof", "../dump/in.log", "sub", "sub/../in.pprof", "in.pprof/", "in.log", "in.pprof2", "pprof", "x.pprof.log",
	`..\secret.pprof`, `sub\in.pprof`, `..\..\secret.pprof`, "%2e%2e%2fsecret.pprof", "..%2fsecret.pprof", "sub%2Fin.pprof", " in.pprof", "in.pprof ", "\tin.pprof\n", "..;/secret.pprof", "in.pprof\x00", "IN.PPROF", "~", "$HOME",
	"....//secret.pprof", "..//../secret.pprof", "//in.pprof", "sub//in.pprof", "*.pprof", "?n.pprof"}

func TestVerifDumpNames(t *testing.T) {
	home, top := verifHome(t)
	defer os.RemoveAll(top)
	put := func() {
		for _, p := range []string{filepath.Join(home, "secret.pprof"), filepath.Join(home, "..", "secret.pprof"), filepath.Join(home, "x"),
			filepath.Join(getBinaryDumpPath(), "in.pprof"), filepath.Join(getBinaryDumpPath(), "in.log"), filepath.Join(getBinaryDumpPath(), "in.pprof2"),
			filepath.Join(getBinaryDumpPath(), "x.pprof.log"), filepath.Join(getBinaryDumpPath(), "sub", "in.pprof"), filepath.Join(getDumpPath(), "in.log"), filepath.Join(getDumpPath(), "in.pprof"),
			filepath.Join(getDumpPath(), "sub", "in.pprof"), filepath.Join(getDumpPath(), "x.pprof.log"), filepath.Join(getDumpPath(), "in.pprof2")} {
			if err := ioutil.WriteFile(p, []byte("content of "+p), 0644); err != nil {
				t.Fatal(err)
			}
		}
	}
	all := func() map[string]bool {
		m := map[string]bool{}
		filepath.Walk(top, func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				m[p] = true
			}
			return nil
		})
		return m
	}
	for _, n := range verifNames {
		plain := n != "" && n != "." && n != ".." && n == filepath.Base(n) && n != "/"
		prof := plain && len(n) >= 5 && n[len(n)-5:] == "pprof"
		for _, bin := range []bool{true, false} {
			put()
			got := verifGet(n, bin)
			ok, dir := plain, getDumpPath()
			if bin {
				ok, dir = prof, getBinaryDumpPath()
			}
			if !ok && len(got) != 0 {
				fmt.Printf("FAILING-INPUT: name %q (binary download: %v) is refused, but %d bytes were sent\n", n, bin, len(got))
				t.Fail()
			}
			if ok {
				want, err := ioutil.ReadFile(filepath.Join(dir, n))
				data, e2 := verifBlocks(got)
				if err != nil && len(got) != 0 {
					fmt.Printf("FAILING-INPUT: name %q (binary download: %v): there is no such file, reply %q\n", n, bin, data)
					t.Fail()
				}
				if err == nil && (e2 != nil || !bytes.Equal(data, want)) {
					fmt.Printf("FAILING-INPUT: name %q (binary download: %v): reply %q err %v, file %q\n", n, bin, data, e2, want)
					t.Fail()
				}
			}
		}
		put()
		before := all()
		r := DeleteBinaryDumpFiles(n).(*netdata.MapPack)
		after := all()
		gone := []string{}
		for p := range before {
			if !after[p] {
				gone = append(gone, p)
			}
		}
		want := filepath.Join(getBinaryDumpPath(), n)
		succ := r.Table["success"].(*netdata.BooleanValue).Value
		if len(gone) > 1 || len(gone) == 1 && (!prof || gone[0] != want) || succ != (len(gone) == 1) || prof && before[want] && !succ {
			fmt.Printf("FAILING-INPUT: delete %q: removed %v, success=%v\n", n, gone, succ)
			t.Fail()
		}
	}
}

func TestVerifDumpLists(t *testing.T) {
	_, top := verifHome(t)
	defer os.RemoveAll(top)
	for _, bin := range []bool{true, false} {
		dir := getDumpPath()
		if bin {
			dir = getBinaryDumpPath()
		}
		want := map[string]int64{}
		for i, n := range []string{"a.pprof", "b.log", "c.pprof", "pprof", "d.pprofx"} {
			ioutil.WriteFile(filepath.Join(dir, n), verifContent(10*i+1), 0644)
			if !bin || len(n) >= 5 && n[len(n)-5:] == "pprof" {
				want[n] = int64(10*i + 1)
			}
		}
		// a large file (sparse)
		big := filepath.Join(dir, "big.pprof")
		ioutil.WriteFile(big, nil, 0644)
		if os.Truncate(big, 5<<30+9) == nil {
			want["big.pprof"] = 5<<30 + 9
		} else {
			os.Remove(big)
		}
		ioutil.WriteFile(filepath.Join(dir, "sub", "deep.pprof"), verifContent(77), 0644)
		want["deep.pprof"] = 77
		list := func() map[string]int64 {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("FAILING-INPUT: listing (binary: %v) panics: %v\n", bin, r)
					t.Fail()
				}
			}()
			var p *netdata.MapPack
			if bin {
				p = ListBinaryDumpFiles().(*netdata.MapPack)
			} else {
				p = ListDumpFiles().(*netdata.MapPack)
			}
			names, sizes := p.Table["name"].(*netdata.ListValue), p.Table["size"].(*netdata.ListValue)
			got := map[string]int64{}
			if len(names.Value) != len(sizes.Value) {
				fmt.Printf("FAILING-INPUT: listing (binary: %v): %d names, %d sizes\n", bin, len(names.Value), len(sizes.Value))
				t.Fail()
				return got
			}
			for i := range names.Value {
				got[names.Value[i].(*netdata.TextValue).Value] = sizes.Value[i].(*netdata.DecimalValue).Value
			}
			return got
		}
		if got := list(); fmt.Sprint(got) != fmt.Sprint(want) {
			fmt.Printf("FAILING-INPUT: listing (binary: %v) is %v, the files are %v\n", bin, got, want)
			t.Fail()
		}
		os.RemoveAll(dir)
		if got := list(); len(got) != 0 {
			fmt.Printf("FAILING-INPUT: listing (binary: %v) of a missing directory: %v\n", bin, got)
			t.Fail()
		}
	}
}
