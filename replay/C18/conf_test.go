// dir: scouterx/conf
package conf

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
)

type vbind struct {
	key, field, kind, def string
	i32                   bool
}

var vbinds = []vbind{
	{"obj_name", "ObjNameSimple", "string", "go1", false},
	{"obj_type", "ObjType", "string", "golang", false},
	{"_trace", "_trace", "bool", "false", false},
	{"trace_obj_send", "TraceObjSend", "bool", `false`, false},
	{"send_queue_size", "SendQueueSize", "int", `3000`, false},
	{"net_collector_ip", "NetCollectorIP", "string", `127.0.0.1`, false},
	{"net_collector_udp_port", "NetCollectorUDPPort", "int", `6100`, false},
	{"net_collector_tcp_port", "NetCollectorTCPPort", "int", `6100`, false},
	{"net_collector_tcp_so_timeout_ms", "NetCollectorTcpSoTimeoutMs", "int", `60000`, false},
	{"net_collector_tcp_connection_timeout_ms", "NetCollectorTcpConnectionTimeoutMs", "int", `3000`, false},
	{"udp_max_bytes", "UDPMaxBytes", "int", `60000`, false},
	{"stuck_service_base_time_ms", "StuckServiceBaseTimeMs", "int", `300000`, false},
	{"stuck_service_remove_enabled", "StuckServiceRemoveEnabled", "bool", `true`, false},
	{"stuck_service_alert_enabled", "StuckServiceAlertEnabled", "bool", `true`, false},
	{"trace_activeservice_yellow_time", "TraceActiveserviceYellowTime", "int", `3000`, false},
	{"trace_activeservice_red_time", "TraceActiveserviceRedTime", "int", `8000`, false},
	{"profile_step_max_keep_in_memory_count", "ProfileStepMaxKeepInMemoryCount", "int", `2048`, false},
	{"profile_step_max_count", "ProfileStepMaxCount", "int", `1024`, false},
	{"profile_http_querystring_enabled", "ProfileHttpQuerystringEnabled", "bool", `false`, false},
	{"profile_http_header_enabled", "ProfileHttpHeaderEnabled", "bool", `false`, false},
	{"profile_http_header_keys", "ProfileHttpHeaderKeys", "string", ``, false},
	{"trace_http_client_ip_header_key", "TraceHttpClientIpHeaderKey", "string", ``, false},
	{"xlog_discard_service_patterns", "XlogDiscardServicePatterns", "string", ``, false},
	{"xlog_discard_service_show_error", "XlogDiscardServiceShowError", "bool", `true`, false},
	{"xlog_sampling_exclude_patterns", "XlogSamplingExcludePatterns", "string", ``, false},
	{"xlog_sampling_enabled", "XlogSamplingEnabled", "bool", `false`, false},
	{"xlog_sampling_only_profile", "XlogSamplingOnlyProfile", "bool", `false`, false},
	{"xlog_sampling_step1_ms", "XlogSamplingStep1Ms", "int", `100`, true},
	{"xlog_sampling_step1_rate_pct", "XlogSamplingStep1RatePct", "int", `2`, false},
	{"xlog_sampling_step2_ms", "XlogSamplingStep2Ms", "int", `500`, true},
	{"xlog_sampling_step2_rate_pct", "XlogSamplingStep2RatePct", "int", `7`, false},
	{"xlog_sampling_step3_ms", "XlogSamplingStep3Ms", "int", `1000`, true},
	{"xlog_sampling_step3_rate_pct", "XlogSamplingStep3RatePct", "int", `15`, false},
	{"xlog_sampling_over_rate_pct", "XlogSamplingOverRatePct", "int", `3000`, false},
	{"xlog_patterned_sampling_enabled", "XlogPatternedSamplingEnabled", "bool", `false`, false},
	{"xlog_patterned_sampling_service_patterns", "XlogPatternedSamplingServicePatterns", "string", ``, false},
	{"xlog_patterned_sampling_only_profile", "XlogPatternedSamplingOnlyProfile", "bool", `false`, false},
	{"xlog_patterned_sampling_step1_ms", "XlogPatternedSamplingStep1Ms", "int", `100`, true},
	{"xlog_patterned_sampling_step1_rate_pct", "XlogPatternedSamplingStep1RatePct", "int", `2`, false},
	{"xlog_patterned_sampling_step2_ms", "XlogPatternedSamplingStep2Ms", "int", `500`, true},
	{"xlog_patterned_sampling_step2_rate_pct", "XlogPatternedSamplingStep2RatePct", "int", `7`, false},
	{"xlog_patterned_sampling_step3_ms", "XlogPatternedSamplingStep3Ms", "int", `1000`, true},
	{"xlog_patterned_sampling_step3_rate_pct", "XlogPatternedSamplingStep3RatePct", "int", `15`, false},
	{"xlog_patterned_sampling_over_rate_pct", "XlogPatternedSamplingOverRatePct", "int", `3000`, false},
	{"xlog_patterned2_sampling_enabled", "XlogPatterned2SamplingEnabled", "bool", `false`, false},
	{"xlog_patterned2_sampling_service_patterns", "XlogPatterned2SamplingServicePatterns", "string", ``, false},
	{"xlog_patterned2_sampling_only_profile", "XlogPatterned2SamplingOnlyProfile", "bool", `false`, false},
	{"xlog_patterned2_sampling_step1_ms", "XlogPatterned2SamplingStep1Ms", "int", `100`, true},
	{"xlog_patterned2_sampling_step1_rate_pct", "XlogPatterned2SamplingStep1RatePct", "int", `2`, false},
	{"xlog_patterned2_sampling_step2_ms", "XlogPatterned2SamplingStep2Ms", "int", `500`, true},
	{"xlog_patterned2_sampling_step2_rate_pct", "XlogPatterned2SamplingStep2RatePct", "int", `7`, false},
	{"xlog_patterned2_sampling_step3_ms", "XlogPatterned2SamplingStep3Ms", "int", `1000`, true},
	{"xlog_patterned2_sampling_step3_rate_pct", "XlogPatterned2SamplingStep3RatePct", "int", `15`, false},
	{"xlog_patterned2_sampling_over_rate_pct", "XlogPatterned2SamplingOverRatePct", "int", `3000`, false},
	{"xlog_patterned3_sampling_enabled", "XlogPatterned3SamplingEnabled", "bool", `false`, false},
	{"xlog_patterned3_sampling_service_patterns", "XlogPatterned3SamplingServicePatterns", "string", ``, false},
	{"xlog_patterned3_sampling_only_profile", "XlogPatterned3SamplingOnlyProfile", "bool", `false`, false},
	{"xlog_patterned3_sampling_step1_ms", "XlogPatterned3SamplingStep1Ms", "int", `100`, true},
	{"xlog_patterned3_sampling_step1_rate_pct", "XlogPatterned3SamplingStep1RatePct", "int", `2`, false},
	{"xlog_patterned3_sampling_step2_ms", "XlogPatterned3SamplingStep2Ms", "int", `500`, true},
	{"xlog_patterned3_sampling_step2_rate_pct", "XlogPatterned3SamplingStep2RatePct", "int", `7`, false},
	{"xlog_patterned3_sampling_step3_ms", "XlogPatterned3SamplingStep3Ms", "int", `1000`, true},
	{"xlog_patterned3_sampling_step3_rate_pct", "XlogPatterned3SamplingStep3RatePct", "int", `15`, false},
	{"xlog_patterned3_sampling_over_rate_pct", "XlogPatterned3SamplingOverRatePct", "int", `3000`, false},
}

type vobs struct{ n int }

func (o *vobs) Run() { o.n++ }

func vtruth(v string) string {
	switch strings.ToLower(v) {
	case "1", "true", "yes", "on":
		return "true"
	}
	return "false"
}

func vwant(b vbind, file, env map[string]string) string {
	v, ok := file[b.key]
	if !ok {
		v, ok = env[b.key]
	}
	if !ok || v == "" {
		return b.def
	}
	switch b.kind {
	case "bool":
		return vtruth(v)
	case "int":
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			return b.def
		}
		return strconv.FormatInt(n, 10)
	}
	return v
}

func vgot(c *Configure, field string) string {
	f := reflect.ValueOf(c).Elem().FieldByName(field)
	switch f.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(f.Bool())
	case reflect.Int, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(f.Int(), 10)
	}
	return f.String()
}

func vcheck(t *testing.T, what string, c *Configure, file, env map[string]string) {
	desc := GetConfigureDescMap()
	for _, b := range vbinds {
		w := vwant(b, file, env)
		full := w
		if b.i32 {
			n, _ := strconv.ParseInt(w, 10, 64)
			w = strconv.FormatInt(int64(int32(n)), 10)
		}
		if g := vgot(c, b.field); g != w {
			t.Errorf("FAILING-INPUT: %s: file %v environment %v: setting %s is %q, want %q (key %s)", what, file, env, b.field, g, w, b.key)
		}
		if b.key == "_trace" {
			continue
		}
		d, ok := desc.Get(b.key)
		if !ok {
			t.Errorf("FAILING-INPUT: %s: key %s is not described", what, b.key)
			continue
		}
		cd := d.(ConfigureDesc)
		if cd.Key != b.key || cd.Value != full || cd.DefaultValue != b.def {
			t.Errorf("FAILING-INPUT: %s: file %v environment %v: key %s described as %q=%q default %q, want value %q default %q", what, file, env, b.key, cd.Key, cd.Value, cd.DefaultValue, full, b.def)
		}
	}
	host, err := os.Hostname()
	if err != nil {
		host = "unknown"
	}
	name := "/" + host + "/" + vwant(vbinds[0], file, env)
	if c.ObjName != name || c.ObjHash != util.HashString(name) {
		t.Errorf("FAILING-INPUT: %s: object name %q (hash %d), want %q (hash %d)", what, c.ObjName, c.ObjHash, name, util.HashString(name))
	}
}

func vval(r *rand.Rand, kind string) string {
	switch kind {
	case "bool":
		return []string{"true", "TRUE", "on", "yes", "1", "false", "0", "off", "", "nonsense"}[r.Intn(10)]
	case "int":
		return []string{strconv.Itoa(r.Intn(100000)), strconv.Itoa(-r.Intn(1000)), "0", "", "abc", "12x", "2147483647"}[r.Intn(7)]
	}
	return []string{"v" + strconv.Itoa(r.Intn(1000)), "", "/a*,/b*", "x=y", "10.0.0.1"}[r.Intn(5)]
}

func vwrite(t *testing.T, path string, file map[string]string, at time.Time) {
	s := ""
	for k, v := range file {
		s += k + "=" + v + "\n"
	}
	if err := ioutil.WriteFile(path, []byte(s), 0644); err != nil {
		t.Fatal(err)
	}
	os.Chtimes(path, at, at)
}

func TestVerifConf(t *testing.T) {
	dir, err := ioutil.TempDir("", "verifconf")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("SCOUTER_AGENT_HOME", dir)
	path := filepath.Join(dir, "scouter.conf")
	os.Setenv("SCOUTER_CONFIG", path)
	o := &vobs{}
	AddToConfObserver("verif", o)
	on := &vobs{}
	AddObjChangedObserver(on)
	r := rand.New(rand.NewSource(7))
	base := time.Now().Add(-time.Hour)
	c := &Configure{}
	for n := 0; n < 60; n++ {
		file, env := map[string]string{}, map[string]string{}
		for _, b := range vbinds {
			p := n % 4
			if p == 1 && r.Intn(2) == 0 || p == 2 && r.Intn(6) == 0 || p == 3 {
				file[b.key] = vval(r, b.kind)
			}
			if r.Intn(4) == 0 {
				env[b.key] = vval(r, b.kind)
			}
		}
		for _, b := range vbinds {
			os.Unsetenv(b.key)
		}
		for k, v := range env {
			os.Setenv(k, v)
		}
		vwrite(t, path, file, base.Add(time.Duration(n)*time.Second))
		k, kn, old := o.n, on.n, c.ObjName
		c.Refresh()
		vcheck(t, fmt.Sprintf("reload %d", n), c, file, env)
		if o.n != k+1 {
			t.Errorf("FAILING-INPUT: reload %d notified the observer %d times", n, o.n-k)
		}
		if want := map[bool]int{true: 0, false: 1}[old == c.ObjName]; on.n-kn != want {
			t.Errorf("FAILING-INPUT: reload %d (name %q to %q) notified the object observer %d times", n, old, c.ObjName, on.n-kn)
		}
		k = o.n
		c.Refresh()
		if o.n != k {
			t.Errorf("FAILING-INPUT: refresh of an unchanged file notified the observer")
		}
		vcheck(t, "unchanged file", c, file, env)
		if n%5 == 0 {
			before := *c
			ioutil.WriteFile(path, []byte("send_queue_size=77\nnet_collector_ip=${net_collector_ip}\n"), 0644)
			os.Chtimes(path, base.Add(time.Duration(n)*time.Second+time.Millisecond), base.Add(time.Duration(n)*time.Second+time.Millisecond))
			k = o.n
			c.Refresh()
			for _, b := range vbinds {
				if vgot(&before, b.field) != vgot(c, b.field) {
					t.Errorf("FAILING-INPUT: a file that cannot be parsed changed %s from %q to %q", b.field, vgot(&before, b.field), vgot(c, b.field))
				}
			}
			if o.n != k {
				t.Errorf("FAILING-INPUT: a file that cannot be parsed notified the observers")
			}
			// repaired within the same second: still newer than what was loaded
			vwrite(t, path, file, base.Add(time.Duration(n)*time.Second+time.Millisecond))
			c.Refresh()
			vcheck(t, "repaired file", c, file, env)
			if o.n != k+1 {
				t.Errorf("FAILING-INPUT: the repaired file was not loaded once (%d)", o.n-k)
			}
		}
	}
	// a directory in place of the file cannot be read
	before := *c
	os.Remove(path)
	os.Mkdir(path, 0755)
	at := base.Add(2000 * time.Second)
	os.Chtimes(path, at, at)
	os.Setenv("send_queue_size", "4711")
	c.Refresh()
	for _, b := range vbinds {
		if vgot(&before, b.field) != vgot(c, b.field) {
			t.Errorf("FAILING-INPUT: a file that cannot be read changed %s from %q to %q", b.field, vgot(&before, b.field), vgot(c, b.field))
		}
	}
	os.Remove(path)
	// no file: the environment and the defaults
	for _, b := range vbinds {
		os.Unsetenv(b.key)
	}
	env := map[string]string{"send_queue_size": "12", "obj_name": "envname", "trace_obj_send": "yes"}
	for k, v := range env {
		os.Setenv(k, v)
	}
	os.Setenv("verif_odd", "a=b=c")
	c2 := &Configure{}
	c2.Refresh()
	vcheck(t, "no file", c2, nil, env)
}
