# Configuration (C18) and the locking of its shared state (C21).
guard @conf.descSync : @conf.descMap gods.*
guard @conf.observerLock : @conf.observers @conf.objChangeObserver map*
funcspec props.nonempty(k, v)
  returns v != ""
# what the description lists for a key
inline def desc(k): return as_(lkval(glob("conf.descMap"), box("string", k)), "conf.ConfigureDesc")
inline def listed(k, v, d): return lkhas(glob("conf.descMap"), box("string", k)) and is_(lkval(glob("conf.descMap"), box("string", k)), "conf.ConfigureDesc") \
    and desc(k).Key == k and desc(k).Value == v and desc(k).DefaultValue == d
inline def others(k): return lkothers(glob("conf.descMap"), box("string", k))

func conf.boolOf(props, key, defaultValue, desc)
  for C18 C21
  option helper
  option one-section
  requires arg: nonnil(props) and nonnil(glob("conf.descMap"))
  modifies linked(glob("conf.descMap"))
  returns pbool(pcontent(props), key, defaultValue)
  ensures listed: listed(key, fmtbool(result), fmtbool(defaultValue))
  ensures others: others(key)

func conf.intOf(props, key, defaultValue, desc)
  for C18 C21
  option helper
  option one-section
  requires arg: nonnil(props) and nonnil(glob("conf.descMap"))
  modifies linked(glob("conf.descMap"))
  returns pint(pcontent(props), key, defaultValue)
  ensures listed: listed(key, itoa(result), itoa(defaultValue))
  ensures others: others(key)

func conf.stringOf(props, key, defaultValue, desc)
  for C18 C21
  option helper
  option one-section
  requires arg: nonnil(props) and nonnil(glob("conf.descMap"))
  modifies linked(glob("conf.descMap"))
  returns pstr(pcontent(props), key, defaultValue)
  ensures listed: listed(key, result, defaultValue)
  ensures others: others(key)

func conf.stringOfType(props, key, defaultValue, valueType, desc)
  for C18 C21
  option helper
  option one-section
  requires arg: nonnil(props) and nonnil(glob("conf.descMap"))
  modifies linked(glob("conf.descMap"))
  returns pstr(pcontent(props), key, defaultValue)
  ensures listed: listed(key, result, defaultValue)
  ensures others: others(key)

func conf.GetConfigureDescMap()
  for C18 C21
  option one-section
  requires arg: nonnil(glob("conf.descMap"))
  invariant size: lksize(local("*github.com/emirpasic/gods/maps/linkedhashmap.Map")) == k
  invariant keys: allkeys(lambda q: lkhas(local("*github.com/emirpasic/gods/maps/linkedhashmap.Map"), q) == (lkhas(glob("conf.descMap"), q) and lkpos(glob("conf.descMap"), q) < k))
  invariant values: allkeys(lambda q: implies(lkhas(local("*github.com/emirpasic/gods/maps/linkedhashmap.Map"), q), lkval(local("*github.com/emirpasic/gods/maps/linkedhashmap.Map"), q) == lkval(glob("conf.descMap"), q)))
  ensures own: nonnil(result) and result != glob("conf.descMap")
  ensures keys: allkeys(lambda q: lkhas(result, q) == lkhas(glob("conf.descMap"), q))
  ensures values: allkeys(lambda q: implies(lkhas(result, q), lkval(result, q) == lkval(glob("conf.descMap"), q)))

# observers: what one does is its own business; it must not need a lock held while it runs
func conf.Runnable.Run(r)
  option trusted
  events EV("notified", r)

func conf.AddToConfObserver(name, r)
  for C18 C21
  option one-section
  requires arg: nonnil(glob("conf.observers"))
  modifies mapof(glob("conf.observers"))
  ensures set: has(glob("conf.observers"), name) and glob("conf.observers")[name] == r
  ensures others: anykey(glob("conf.observers"), lambda q: implies(q != name, has(glob("conf.observers"), q) == old(has(glob("conf.observers"), q)) and glob("conf.observers")[q] == old(glob("conf.observers")[q])))

func conf.AddObjChangedObserver(r)
  for C18 C21
  option one-section
  modifies glob("conf.objChangeObserver")
  ensures set: glob("conf.objChangeObserver") == r

inline def observersok(): return nonnil(glob("conf.observers")) and forkeys(glob("conf.observers"), lambda q: nonnil(glob("conf.observers")[q]))
inline def notifyall(): return CAT(0, length(glob("conf.observers")), lambda i: EV("notified", glob("conf.observers")[enumkey(glob("conf.observers"), i)]))
inline def notifyobj(): return ite(glob("conf.objChangeObserver") == nil, EMPTY, EV("notified", glob("conf.objChangeObserver")))

func conf.confChangeNotify()
  for C18 C21
  option one-section
  requires obs: observersok()
  invariant-events CAT(0, k, lambda i: EV("notified", glob("conf.observers")[enumkey(glob("conf.observers"), i)]))
  events notifyall()

func conf.objChangeNotify()
  for C18 C21
  option one-section
  events notifyobj()

# the settings of a content c
inline def objname(c): return "/" + ite(hosterr() == nil, hostname(), "unknown") + "/" + pstr(c, "obj_name", "go1")
inline def hash32(s): return wrap("int32", -1 - crc32(s))
inline def objset(o, c): return o.ObjNameSimple == pstr(c, "obj_name", "go1") and o.ObjName == objname(c) and o.ObjHash == hash32(objname(c)) and o.ObjType == pstr(c, "obj_type", "golang")
inline def objlisted(c): return listed("obj_name", pstr(c, "obj_name", "go1"), "go1") and listed("obj_type", pstr(c, "obj_type", "golang"), "golang")

inline def set0(o, c): return o.TraceObjSend == pbool(c, "trace_obj_send", false) \
    and o.SendQueueSize == pint(c, "send_queue_size", 3000) \
    and o.NetCollectorIP == pstr(c, "net_collector_ip", "127.0.0.1") \
    and o.NetCollectorUDPPort == pint(c, "net_collector_udp_port", 6100) \
    and o.NetCollectorTCPPort == pint(c, "net_collector_tcp_port", 6100) \
    and o.NetCollectorTcpSoTimeoutMs == pint(c, "net_collector_tcp_so_timeout_ms", 60000) \
    and o.NetCollectorTcpConnectionTimeoutMs == pint(c, "net_collector_tcp_connection_timeout_ms", 3000) \
    and o.UDPMaxBytes == pint(c, "udp_max_bytes", 60000)
inline def listed0(c): return listed("trace_obj_send", fmtbool(pbool(c, "trace_obj_send", false)), fmtbool(false)) \
    and listed("send_queue_size", itoa(pint(c, "send_queue_size", 3000)), itoa(3000)) \
    and listed("net_collector_ip", pstr(c, "net_collector_ip", "127.0.0.1"), "127.0.0.1") \
    and listed("net_collector_udp_port", itoa(pint(c, "net_collector_udp_port", 6100)), itoa(6100)) \
    and listed("net_collector_tcp_port", itoa(pint(c, "net_collector_tcp_port", 6100)), itoa(6100)) \
    and listed("net_collector_tcp_so_timeout_ms", itoa(pint(c, "net_collector_tcp_so_timeout_ms", 60000)), itoa(60000)) \
    and listed("net_collector_tcp_connection_timeout_ms", itoa(pint(c, "net_collector_tcp_connection_timeout_ms", 3000)), itoa(3000)) \
    and listed("udp_max_bytes", itoa(pint(c, "udp_max_bytes", 60000)), itoa(60000))
inline def set1(o, c): return o.StuckServiceBaseTimeMs == pint(c, "stuck_service_base_time_ms", 300000) \
    and o.StuckServiceRemoveEnabled == pbool(c, "stuck_service_remove_enabled", true) \
    and o.StuckServiceAlertEnabled == pbool(c, "stuck_service_alert_enabled", true) \
    and o.TraceActiveserviceYellowTime == pint(c, "trace_activeservice_yellow_time", 3000) \
    and o.TraceActiveserviceRedTime == pint(c, "trace_activeservice_red_time", 8000) \
    and o.ProfileStepMaxKeepInMemoryCount == pint(c, "profile_step_max_keep_in_memory_count", 2048) \
    and o.ProfileStepMaxCount == pint(c, "profile_step_max_count", 1024) \
    and o.ProfileHttpQuerystringEnabled == pbool(c, "profile_http_querystring_enabled", false)
inline def listed1(c): return listed("stuck_service_base_time_ms", itoa(pint(c, "stuck_service_base_time_ms", 300000)), itoa(300000)) \
    and listed("stuck_service_remove_enabled", fmtbool(pbool(c, "stuck_service_remove_enabled", true)), fmtbool(true)) \
    and listed("stuck_service_alert_enabled", fmtbool(pbool(c, "stuck_service_alert_enabled", true)), fmtbool(true)) \
    and listed("trace_activeservice_yellow_time", itoa(pint(c, "trace_activeservice_yellow_time", 3000)), itoa(3000)) \
    and listed("trace_activeservice_red_time", itoa(pint(c, "trace_activeservice_red_time", 8000)), itoa(8000)) \
    and listed("profile_step_max_keep_in_memory_count", itoa(pint(c, "profile_step_max_keep_in_memory_count", 2048)), itoa(2048)) \
    and listed("profile_step_max_count", itoa(pint(c, "profile_step_max_count", 1024)), itoa(1024)) \
    and listed("profile_http_querystring_enabled", fmtbool(pbool(c, "profile_http_querystring_enabled", false)), fmtbool(false))
inline def set2(o, c): return o.ProfileHttpHeaderEnabled == pbool(c, "profile_http_header_enabled", false) \
    and o.ProfileHttpHeaderKeys == pstr(c, "profile_http_header_keys", "") \
    and o.TraceHttpClientIpHeaderKey == pstr(c, "trace_http_client_ip_header_key", "") \
    and o.XlogDiscardServicePatterns == pstr(c, "xlog_discard_service_patterns", "") \
    and o.XlogDiscardServiceShowError == pbool(c, "xlog_discard_service_show_error", true) \
    and o.XlogSamplingExcludePatterns == pstr(c, "xlog_sampling_exclude_patterns", "") \
    and o.XlogSamplingEnabled == pbool(c, "xlog_sampling_enabled", false) \
    and o.XlogSamplingOnlyProfile == pbool(c, "xlog_sampling_only_profile", false)
inline def listed2(c): return listed("profile_http_header_enabled", fmtbool(pbool(c, "profile_http_header_enabled", false)), fmtbool(false)) \
    and listed("profile_http_header_keys", pstr(c, "profile_http_header_keys", ""), "") \
    and listed("trace_http_client_ip_header_key", pstr(c, "trace_http_client_ip_header_key", ""), "") \
    and listed("xlog_discard_service_patterns", pstr(c, "xlog_discard_service_patterns", ""), "") \
    and listed("xlog_discard_service_show_error", fmtbool(pbool(c, "xlog_discard_service_show_error", true)), fmtbool(true)) \
    and listed("xlog_sampling_exclude_patterns", pstr(c, "xlog_sampling_exclude_patterns", ""), "") \
    and listed("xlog_sampling_enabled", fmtbool(pbool(c, "xlog_sampling_enabled", false)), fmtbool(false)) \
    and listed("xlog_sampling_only_profile", fmtbool(pbool(c, "xlog_sampling_only_profile", false)), fmtbool(false))
inline def set3(o, c): return o.XlogSamplingStep1Ms == wrap("int32", pint(c, "xlog_sampling_step1_ms", 100)) \
    and o.XlogSamplingStep1RatePct == pint(c, "xlog_sampling_step1_rate_pct", 2) \
    and o.XlogSamplingStep2Ms == wrap("int32", pint(c, "xlog_sampling_step2_ms", 500)) \
    and o.XlogSamplingStep2RatePct == pint(c, "xlog_sampling_step2_rate_pct", 7) \
    and o.XlogSamplingStep3Ms == wrap("int32", pint(c, "xlog_sampling_step3_ms", 1000)) \
    and o.XlogSamplingStep3RatePct == pint(c, "xlog_sampling_step3_rate_pct", 15) \
    and o.XlogSamplingOverRatePct == pint(c, "xlog_sampling_over_rate_pct", 3000) \
    and o.XlogPatternedSamplingEnabled == pbool(c, "xlog_patterned_sampling_enabled", false)
inline def listed3(c): return listed("xlog_sampling_step1_ms", itoa(pint(c, "xlog_sampling_step1_ms", 100)), itoa(100)) \
    and listed("xlog_sampling_step1_rate_pct", itoa(pint(c, "xlog_sampling_step1_rate_pct", 2)), itoa(2)) \
    and listed("xlog_sampling_step2_ms", itoa(pint(c, "xlog_sampling_step2_ms", 500)), itoa(500)) \
    and listed("xlog_sampling_step2_rate_pct", itoa(pint(c, "xlog_sampling_step2_rate_pct", 7)), itoa(7)) \
    and listed("xlog_sampling_step3_ms", itoa(pint(c, "xlog_sampling_step3_ms", 1000)), itoa(1000)) \
    and listed("xlog_sampling_step3_rate_pct", itoa(pint(c, "xlog_sampling_step3_rate_pct", 15)), itoa(15)) \
    and listed("xlog_sampling_over_rate_pct", itoa(pint(c, "xlog_sampling_over_rate_pct", 3000)), itoa(3000)) \
    and listed("xlog_patterned_sampling_enabled", fmtbool(pbool(c, "xlog_patterned_sampling_enabled", false)), fmtbool(false))
inline def set4(o, c): return o.XlogPatternedSamplingServicePatterns == pstr(c, "xlog_patterned_sampling_service_patterns", "") \
    and o.XlogPatternedSamplingOnlyProfile == pbool(c, "xlog_patterned_sampling_only_profile", false) \
    and o.XlogPatternedSamplingStep1Ms == wrap("int32", pint(c, "xlog_patterned_sampling_step1_ms", 100)) \
    and o.XlogPatternedSamplingStep1RatePct == pint(c, "xlog_patterned_sampling_step1_rate_pct", 2) \
    and o.XlogPatternedSamplingStep2Ms == wrap("int32", pint(c, "xlog_patterned_sampling_step2_ms", 500)) \
    and o.XlogPatternedSamplingStep2RatePct == pint(c, "xlog_patterned_sampling_step2_rate_pct", 7) \
    and o.XlogPatternedSamplingStep3Ms == wrap("int32", pint(c, "xlog_patterned_sampling_step3_ms", 1000)) \
    and o.XlogPatternedSamplingStep3RatePct == pint(c, "xlog_patterned_sampling_step3_rate_pct", 15)
inline def listed4(c): return listed("xlog_patterned_sampling_service_patterns", pstr(c, "xlog_patterned_sampling_service_patterns", ""), "") \
    and listed("xlog_patterned_sampling_only_profile", fmtbool(pbool(c, "xlog_patterned_sampling_only_profile", false)), fmtbool(false)) \
    and listed("xlog_patterned_sampling_step1_ms", itoa(pint(c, "xlog_patterned_sampling_step1_ms", 100)), itoa(100)) \
    and listed("xlog_patterned_sampling_step1_rate_pct", itoa(pint(c, "xlog_patterned_sampling_step1_rate_pct", 2)), itoa(2)) \
    and listed("xlog_patterned_sampling_step2_ms", itoa(pint(c, "xlog_patterned_sampling_step2_ms", 500)), itoa(500)) \
    and listed("xlog_patterned_sampling_step2_rate_pct", itoa(pint(c, "xlog_patterned_sampling_step2_rate_pct", 7)), itoa(7)) \
    and listed("xlog_patterned_sampling_step3_ms", itoa(pint(c, "xlog_patterned_sampling_step3_ms", 1000)), itoa(1000)) \
    and listed("xlog_patterned_sampling_step3_rate_pct", itoa(pint(c, "xlog_patterned_sampling_step3_rate_pct", 15)), itoa(15))
inline def set5(o, c): return o.XlogPatternedSamplingOverRatePct == pint(c, "xlog_patterned_sampling_over_rate_pct", 3000) \
    and o.XlogPatterned2SamplingEnabled == pbool(c, "xlog_patterned2_sampling_enabled", false) \
    and o.XlogPatterned2SamplingServicePatterns == pstr(c, "xlog_patterned2_sampling_service_patterns", "") \
    and o.XlogPatterned2SamplingOnlyProfile == pbool(c, "xlog_patterned2_sampling_only_profile", false) \
    and o.XlogPatterned2SamplingStep1Ms == wrap("int32", pint(c, "xlog_patterned2_sampling_step1_ms", 100)) \
    and o.XlogPatterned2SamplingStep1RatePct == pint(c, "xlog_patterned2_sampling_step1_rate_pct", 2) \
    and o.XlogPatterned2SamplingStep2Ms == wrap("int32", pint(c, "xlog_patterned2_sampling_step2_ms", 500)) \
    and o.XlogPatterned2SamplingStep2RatePct == pint(c, "xlog_patterned2_sampling_step2_rate_pct", 7)
inline def listed5(c): return listed("xlog_patterned_sampling_over_rate_pct", itoa(pint(c, "xlog_patterned_sampling_over_rate_pct", 3000)), itoa(3000)) \
    and listed("xlog_patterned2_sampling_enabled", fmtbool(pbool(c, "xlog_patterned2_sampling_enabled", false)), fmtbool(false)) \
    and listed("xlog_patterned2_sampling_service_patterns", pstr(c, "xlog_patterned2_sampling_service_patterns", ""), "") \
    and listed("xlog_patterned2_sampling_only_profile", fmtbool(pbool(c, "xlog_patterned2_sampling_only_profile", false)), fmtbool(false)) \
    and listed("xlog_patterned2_sampling_step1_ms", itoa(pint(c, "xlog_patterned2_sampling_step1_ms", 100)), itoa(100)) \
    and listed("xlog_patterned2_sampling_step1_rate_pct", itoa(pint(c, "xlog_patterned2_sampling_step1_rate_pct", 2)), itoa(2)) \
    and listed("xlog_patterned2_sampling_step2_ms", itoa(pint(c, "xlog_patterned2_sampling_step2_ms", 500)), itoa(500)) \
    and listed("xlog_patterned2_sampling_step2_rate_pct", itoa(pint(c, "xlog_patterned2_sampling_step2_rate_pct", 7)), itoa(7))
inline def set6(o, c): return o.XlogPatterned2SamplingStep3Ms == wrap("int32", pint(c, "xlog_patterned2_sampling_step3_ms", 1000)) \
    and o.XlogPatterned2SamplingStep3RatePct == pint(c, "xlog_patterned2_sampling_step3_rate_pct", 15) \
    and o.XlogPatterned2SamplingOverRatePct == pint(c, "xlog_patterned2_sampling_over_rate_pct", 3000) \
    and o.XlogPatterned3SamplingEnabled == pbool(c, "xlog_patterned3_sampling_enabled", false) \
    and o.XlogPatterned3SamplingServicePatterns == pstr(c, "xlog_patterned3_sampling_service_patterns", "") \
    and o.XlogPatterned3SamplingOnlyProfile == pbool(c, "xlog_patterned3_sampling_only_profile", false) \
    and o.XlogPatterned3SamplingStep1Ms == wrap("int32", pint(c, "xlog_patterned3_sampling_step1_ms", 100)) \
    and o.XlogPatterned3SamplingStep1RatePct == pint(c, "xlog_patterned3_sampling_step1_rate_pct", 2)
inline def listed6(c): return listed("xlog_patterned2_sampling_step3_ms", itoa(pint(c, "xlog_patterned2_sampling_step3_ms", 1000)), itoa(1000)) \
    and listed("xlog_patterned2_sampling_step3_rate_pct", itoa(pint(c, "xlog_patterned2_sampling_step3_rate_pct", 15)), itoa(15)) \
    and listed("xlog_patterned2_sampling_over_rate_pct", itoa(pint(c, "xlog_patterned2_sampling_over_rate_pct", 3000)), itoa(3000)) \
    and listed("xlog_patterned3_sampling_enabled", fmtbool(pbool(c, "xlog_patterned3_sampling_enabled", false)), fmtbool(false)) \
    and listed("xlog_patterned3_sampling_service_patterns", pstr(c, "xlog_patterned3_sampling_service_patterns", ""), "") \
    and listed("xlog_patterned3_sampling_only_profile", fmtbool(pbool(c, "xlog_patterned3_sampling_only_profile", false)), fmtbool(false)) \
    and listed("xlog_patterned3_sampling_step1_ms", itoa(pint(c, "xlog_patterned3_sampling_step1_ms", 100)), itoa(100)) \
    and listed("xlog_patterned3_sampling_step1_rate_pct", itoa(pint(c, "xlog_patterned3_sampling_step1_rate_pct", 2)), itoa(2))
inline def set7(o, c): return o.XlogPatterned3SamplingStep2Ms == wrap("int32", pint(c, "xlog_patterned3_sampling_step2_ms", 500)) \
    and o.XlogPatterned3SamplingStep2RatePct == pint(c, "xlog_patterned3_sampling_step2_rate_pct", 7) \
    and o.XlogPatterned3SamplingStep3Ms == wrap("int32", pint(c, "xlog_patterned3_sampling_step3_ms", 1000)) \
    and o.XlogPatterned3SamplingStep3RatePct == pint(c, "xlog_patterned3_sampling_step3_rate_pct", 15) \
    and o.XlogPatterned3SamplingOverRatePct == pint(c, "xlog_patterned3_sampling_over_rate_pct", 3000)
inline def listed7(c): return listed("xlog_patterned3_sampling_step2_ms", itoa(pint(c, "xlog_patterned3_sampling_step2_ms", 500)), itoa(500)) \
    and listed("xlog_patterned3_sampling_step2_rate_pct", itoa(pint(c, "xlog_patterned3_sampling_step2_rate_pct", 7)), itoa(7)) \
    and listed("xlog_patterned3_sampling_step3_ms", itoa(pint(c, "xlog_patterned3_sampling_step3_ms", 1000)), itoa(1000)) \
    and listed("xlog_patterned3_sampling_step3_rate_pct", itoa(pint(c, "xlog_patterned3_sampling_step3_rate_pct", 15)), itoa(15)) \
    and listed("xlog_patterned3_sampling_over_rate_pct", itoa(pint(c, "xlog_patterned3_sampling_over_rate_pct", 3000)), itoa(3000))

func (*conf.Configure).resetObjNameAndType(conf, props)
  for C18
  option helper
  let c = pcontent(props)
  requires arg: nonnil(conf) and nonnil(props) and nonnil(glob("conf.descMap"))
  modifies conf.ObjNameSimple, conf.ObjName, conf.ObjHash, conf.ObjType, linked(glob("conf.descMap"))
  ensures set: objset(conf, c)
  ensures listed: objlisted(c)
  events ite(old(conf.ObjName) == objname(pcontent(props)), EMPTY, notifyobj())

func (*conf.Configure).addToConf(conf, props)
  for C18
  option helper
  let c = pcontent(props)
  requires arg: nonnil(conf) and nonnil(props) and nonnil(glob("conf.descMap"))
  modifies conf.ObjNameSimple, conf.ObjName, conf.ObjHash, conf.ObjType, conf._trace, conf.TraceObjSend, conf.SendQueueSize, conf.NetCollectorIP, conf.NetCollectorUDPPort, conf.NetCollectorTCPPort, conf.NetCollectorTcpSoTimeoutMs, conf.NetCollectorTcpConnectionTimeoutMs, conf.UDPMaxBytes, conf.StuckServiceBaseTimeMs, conf.StuckServiceRemoveEnabled, conf.StuckServiceAlertEnabled, conf.TraceActiveserviceYellowTime, conf.TraceActiveserviceRedTime, conf.ProfileStepMaxKeepInMemoryCount, conf.ProfileStepMaxCount, conf.ProfileHttpQuerystringEnabled, conf.ProfileHttpHeaderEnabled, conf.ProfileHttpHeaderKeys, conf.TraceHttpClientIpHeaderKey, conf.XlogDiscardServicePatterns, conf.XlogDiscardServiceShowError, conf.XlogSamplingExcludePatterns, conf.XlogSamplingEnabled, conf.XlogSamplingOnlyProfile, conf.XlogSamplingStep1Ms, conf.XlogSamplingStep1RatePct, conf.XlogSamplingStep2Ms, conf.XlogSamplingStep2RatePct, conf.XlogSamplingStep3Ms, conf.XlogSamplingStep3RatePct, conf.XlogSamplingOverRatePct, conf.XlogPatternedSamplingEnabled, conf.XlogPatternedSamplingServicePatterns, conf.XlogPatternedSamplingOnlyProfile, conf.XlogPatternedSamplingStep1Ms, conf.XlogPatternedSamplingStep1RatePct, conf.XlogPatternedSamplingStep2Ms, conf.XlogPatternedSamplingStep2RatePct, conf.XlogPatternedSamplingStep3Ms, conf.XlogPatternedSamplingStep3RatePct, conf.XlogPatternedSamplingOverRatePct, conf.XlogPatterned2SamplingEnabled, conf.XlogPatterned2SamplingServicePatterns, conf.XlogPatterned2SamplingOnlyProfile, conf.XlogPatterned2SamplingStep1Ms, conf.XlogPatterned2SamplingStep1RatePct, conf.XlogPatterned2SamplingStep2Ms, conf.XlogPatterned2SamplingStep2RatePct, conf.XlogPatterned2SamplingStep3Ms, conf.XlogPatterned2SamplingStep3RatePct, conf.XlogPatterned2SamplingOverRatePct, conf.XlogPatterned3SamplingEnabled, conf.XlogPatterned3SamplingServicePatterns, conf.XlogPatterned3SamplingOnlyProfile, conf.XlogPatterned3SamplingStep1Ms, conf.XlogPatterned3SamplingStep1RatePct, conf.XlogPatterned3SamplingStep2Ms, conf.XlogPatterned3SamplingStep2RatePct, conf.XlogPatterned3SamplingStep3Ms, conf.XlogPatterned3SamplingStep3RatePct, conf.XlogPatterned3SamplingOverRatePct, linked(glob("conf.descMap"))
  ensures obj: objset(conf, c)
  ensures trace: conf._trace == pbool(c, "_trace", false)
  ensures set0: set0(conf, c)
  ensures set1: set1(conf, c)
  ensures set2: set2(conf, c)
  ensures set3: set3(conf, c)
  ensures set4: set4(conf, c)
  ensures set5: set5(conf, c)
  ensures set6: set6(conf, c)
  ensures set7: set7(conf, c)
  ensures obj-listed: objlisted(c)
  ensures listed0: listed0(c)
  ensures listed1: listed1(c)
  ensures listed2: listed2(c)
  ensures listed3: listed3(c)
  ensures listed4: listed4(c)
  ensures listed5: listed5(c)
  ensures listed6: listed6(c)
  ensures listed7: listed7(c)
  events ite(old(conf.ObjName) == objname(pcontent(props)), EMPTY, notifyobj())
# where the configuration lives
inline def homepath(): return ite(getenv("SCOUTER_AGENT_HOME") != "", getenv("SCOUTER_AGENT_HOME"), pathjoin(ite(cwderr() == nil, cwd(), tempdir()), "scouter"))
inline def configured(): return ite(getenv("SCOUTER_CONFIG") != "", getenv("SCOUTER_CONFIG"), getenv("scouter.config"))
inline def confpath(): return ite(configured() != "", configured(), pathjoin(pathjoin(homepath(), "conf"), "scouter.conf"))
func util.MakeDir(path)
  for C18
  modifies ghost("$fs")
func util.GetScouterPath()
  for C18
  modifies ghost("$fs")
  returns homepath()
func conf.getConfFilePath()
  for C18
  option helper
  modifies ghost("$fs")
  returns confpath()

# a file that is not there counts as empty; any other failure is an error
inline def missing(e): return is_(e, "*os.PathError") and is_(as_(e, "*os.PathError").Err, "syscall.Errno") and as_(as_(e, "*os.PathError").Err, "syscall.Errno") == 2
inline def statok(p): return staterr(p) == nil or missing(staterr(p))
inline def loadok(p): return loaderr(p) == nil or missing(loaderr(p))
inline def reload(o): return statok(confpath()) and (statinfo(confpath()) == nil or modtime(statinfo(confpath())) > old(nanos(o.lastModified))) and loadok(confpath())
inline def effective(p): return pnonempty(ite(loaderr(p) == nil, pmerge(penv(environn()), loadc(p)), penv(environn())))
inline def bindings(o, c): return objset(o, c) and o._trace == pbool(c, "_trace", false) and set0(o, c) and set1(o, c) and set2(o, c) and set3(o, c) and set4(o, c) and set5(o, c) and set6(o, c) and set7(o, c)
inline def alllisted(c): return objlisted(c) and listed0(c) and listed1(c) and listed2(c) and listed3(c) and listed4(c) and listed5(c) and listed6(c) and listed7(c)

func (*conf.Configure).Refresh(conf)
  for C18 C21
  option events-post
  let p = confpath()
  requires arg: nonnil(conf) and nonnil(glob("conf.descMap")) and observersok()
  modifies conf.ObjNameSimple, conf.ObjName, conf.ObjHash, conf.ObjType, conf._trace, conf.TraceObjSend, conf.SendQueueSize, conf.NetCollectorIP, conf.NetCollectorUDPPort, conf.NetCollectorTCPPort, conf.NetCollectorTcpSoTimeoutMs, conf.NetCollectorTcpConnectionTimeoutMs, conf.UDPMaxBytes, conf.StuckServiceBaseTimeMs, conf.StuckServiceRemoveEnabled, conf.StuckServiceAlertEnabled, conf.TraceActiveserviceYellowTime, conf.TraceActiveserviceRedTime, conf.ProfileStepMaxKeepInMemoryCount, conf.ProfileStepMaxCount, conf.ProfileHttpQuerystringEnabled, conf.ProfileHttpHeaderEnabled, conf.ProfileHttpHeaderKeys, conf.TraceHttpClientIpHeaderKey, conf.XlogDiscardServicePatterns, conf.XlogDiscardServiceShowError, conf.XlogSamplingExcludePatterns, conf.XlogSamplingEnabled, conf.XlogSamplingOnlyProfile, conf.XlogSamplingStep1Ms, conf.XlogSamplingStep1RatePct, conf.XlogSamplingStep2Ms, conf.XlogSamplingStep2RatePct, conf.XlogSamplingStep3Ms, conf.XlogSamplingStep3RatePct, conf.XlogSamplingOverRatePct, conf.XlogPatternedSamplingEnabled, conf.XlogPatternedSamplingServicePatterns, conf.XlogPatternedSamplingOnlyProfile, conf.XlogPatternedSamplingStep1Ms, conf.XlogPatternedSamplingStep1RatePct, conf.XlogPatternedSamplingStep2Ms, conf.XlogPatternedSamplingStep2RatePct, conf.XlogPatternedSamplingStep3Ms, conf.XlogPatternedSamplingStep3RatePct, conf.XlogPatternedSamplingOverRatePct, conf.XlogPatterned2SamplingEnabled, conf.XlogPatterned2SamplingServicePatterns, conf.XlogPatterned2SamplingOnlyProfile, conf.XlogPatterned2SamplingStep1Ms, conf.XlogPatterned2SamplingStep1RatePct, conf.XlogPatterned2SamplingStep2Ms, conf.XlogPatterned2SamplingStep2RatePct, conf.XlogPatterned2SamplingStep3Ms, conf.XlogPatterned2SamplingStep3RatePct, conf.XlogPatterned2SamplingOverRatePct, conf.XlogPatterned3SamplingEnabled, conf.XlogPatterned3SamplingServicePatterns, conf.XlogPatterned3SamplingOnlyProfile, conf.XlogPatterned3SamplingStep1Ms, conf.XlogPatterned3SamplingStep1RatePct, conf.XlogPatterned3SamplingStep2Ms, conf.XlogPatterned3SamplingStep2RatePct, conf.XlogPatterned3SamplingStep3Ms, conf.XlogPatterned3SamplingStep3RatePct, conf.XlogPatterned3SamplingOverRatePct, conf.lastModified, linked(glob("conf.descMap")), ghost("$fs")
  invariant env: pcontent(local("*github.com/magiconair/properties.Properties")) == penv(k)
  ensures unchanged: implies(not reload(conf), conf.ObjNameSimple == old(conf.ObjNameSimple) and conf.ObjName == old(conf.ObjName) and conf.ObjHash == old(conf.ObjHash) and conf.ObjType == old(conf.ObjType) and conf._trace == old(conf._trace) and conf.TraceObjSend == old(conf.TraceObjSend) and conf.SendQueueSize == old(conf.SendQueueSize) and conf.NetCollectorIP == old(conf.NetCollectorIP) and conf.NetCollectorUDPPort == old(conf.NetCollectorUDPPort) and conf.NetCollectorTCPPort == old(conf.NetCollectorTCPPort) and conf.NetCollectorTcpSoTimeoutMs == old(conf.NetCollectorTcpSoTimeoutMs) and conf.NetCollectorTcpConnectionTimeoutMs == old(conf.NetCollectorTcpConnectionTimeoutMs) and conf.UDPMaxBytes == old(conf.UDPMaxBytes) and conf.StuckServiceBaseTimeMs == old(conf.StuckServiceBaseTimeMs) and conf.StuckServiceRemoveEnabled == old(conf.StuckServiceRemoveEnabled) and conf.StuckServiceAlertEnabled == old(conf.StuckServiceAlertEnabled) and conf.TraceActiveserviceYellowTime == old(conf.TraceActiveserviceYellowTime) and conf.TraceActiveserviceRedTime == old(conf.TraceActiveserviceRedTime) and conf.ProfileStepMaxKeepInMemoryCount == old(conf.ProfileStepMaxKeepInMemoryCount) and conf.ProfileStepMaxCount == old(conf.ProfileStepMaxCount) and conf.ProfileHttpQuerystringEnabled == old(conf.ProfileHttpQuerystringEnabled) and conf.ProfileHttpHeaderEnabled == old(conf.ProfileHttpHeaderEnabled) and conf.ProfileHttpHeaderKeys == old(conf.ProfileHttpHeaderKeys) and conf.TraceHttpClientIpHeaderKey == old(conf.TraceHttpClientIpHeaderKey) and conf.XlogDiscardServicePatterns == old(conf.XlogDiscardServicePatterns) and conf.XlogDiscardServiceShowError == old(conf.XlogDiscardServiceShowError) and conf.XlogSamplingExcludePatterns == old(conf.XlogSamplingExcludePatterns) and conf.XlogSamplingEnabled == old(conf.XlogSamplingEnabled) and conf.XlogSamplingOnlyProfile == old(conf.XlogSamplingOnlyProfile) and conf.XlogSamplingStep1Ms == old(conf.XlogSamplingStep1Ms) and conf.XlogSamplingStep1RatePct == old(conf.XlogSamplingStep1RatePct) and conf.XlogSamplingStep2Ms == old(conf.XlogSamplingStep2Ms) and conf.XlogSamplingStep2RatePct == old(conf.XlogSamplingStep2RatePct) and conf.XlogSamplingStep3Ms == old(conf.XlogSamplingStep3Ms) and conf.XlogSamplingStep3RatePct == old(conf.XlogSamplingStep3RatePct) and conf.XlogSamplingOverRatePct == old(conf.XlogSamplingOverRatePct) and conf.XlogPatternedSamplingEnabled == old(conf.XlogPatternedSamplingEnabled) and conf.XlogPatternedSamplingServicePatterns == old(conf.XlogPatternedSamplingServicePatterns) and conf.XlogPatternedSamplingOnlyProfile == old(conf.XlogPatternedSamplingOnlyProfile) and conf.XlogPatternedSamplingStep1Ms == old(conf.XlogPatternedSamplingStep1Ms) and conf.XlogPatternedSamplingStep1RatePct == old(conf.XlogPatternedSamplingStep1RatePct) and conf.XlogPatternedSamplingStep2Ms == old(conf.XlogPatternedSamplingStep2Ms) and conf.XlogPatternedSamplingStep2RatePct == old(conf.XlogPatternedSamplingStep2RatePct) and conf.XlogPatternedSamplingStep3Ms == old(conf.XlogPatternedSamplingStep3Ms) and conf.XlogPatternedSamplingStep3RatePct == old(conf.XlogPatternedSamplingStep3RatePct) and conf.XlogPatternedSamplingOverRatePct == old(conf.XlogPatternedSamplingOverRatePct) and conf.XlogPatterned2SamplingEnabled == old(conf.XlogPatterned2SamplingEnabled) and conf.XlogPatterned2SamplingServicePatterns == old(conf.XlogPatterned2SamplingServicePatterns) and conf.XlogPatterned2SamplingOnlyProfile == old(conf.XlogPatterned2SamplingOnlyProfile) and conf.XlogPatterned2SamplingStep1Ms == old(conf.XlogPatterned2SamplingStep1Ms) and conf.XlogPatterned2SamplingStep1RatePct == old(conf.XlogPatterned2SamplingStep1RatePct) and conf.XlogPatterned2SamplingStep2Ms == old(conf.XlogPatterned2SamplingStep2Ms) and conf.XlogPatterned2SamplingStep2RatePct == old(conf.XlogPatterned2SamplingStep2RatePct) and conf.XlogPatterned2SamplingStep3Ms == old(conf.XlogPatterned2SamplingStep3Ms) and conf.XlogPatterned2SamplingStep3RatePct == old(conf.XlogPatterned2SamplingStep3RatePct) and conf.XlogPatterned2SamplingOverRatePct == old(conf.XlogPatterned2SamplingOverRatePct) and conf.XlogPatterned3SamplingEnabled == old(conf.XlogPatterned3SamplingEnabled) and conf.XlogPatterned3SamplingServicePatterns == old(conf.XlogPatterned3SamplingServicePatterns) and conf.XlogPatterned3SamplingOnlyProfile == old(conf.XlogPatterned3SamplingOnlyProfile) and conf.XlogPatterned3SamplingStep1Ms == old(conf.XlogPatterned3SamplingStep1Ms) and conf.XlogPatterned3SamplingStep1RatePct == old(conf.XlogPatterned3SamplingStep1RatePct) and conf.XlogPatterned3SamplingStep2Ms == old(conf.XlogPatterned3SamplingStep2Ms) and conf.XlogPatterned3SamplingStep2RatePct == old(conf.XlogPatterned3SamplingStep2RatePct) and conf.XlogPatterned3SamplingStep3Ms == old(conf.XlogPatterned3SamplingStep3Ms) and conf.XlogPatterned3SamplingStep3RatePct == old(conf.XlogPatterned3SamplingStep3RatePct) and conf.XlogPatterned3SamplingOverRatePct == old(conf.XlogPatterned3SamplingOverRatePct) and conf.lastModified == old(conf.lastModified) and lksame(glob("conf.descMap")))
  ensures bound: implies(reload(conf), bindings(conf, effective(p)))
  ensures listed: implies(reload(conf), alllisted(effective(p)))
  ensures modified: implies(reload(conf) and nonnil(statinfo(p)), nanos(conf.lastModified) == modtime(statinfo(p)))
  events ite(reload(conf), ite(old(conf.ObjName) == conf.ObjName, EMPTY, notifyobj()) + notifyall(), EMPTY)

func (*conf.Configure).IsTrace(conf)
  for C18
  requires arg: nonnil(conf)
  returns conf._trace
func (*conf.Configure).SetTrace(conf, mode)
  for C18
  requires arg: nonnil(conf)
  modifies conf._trace
  ensures set: conf._trace == mode

func conf.GetInstance()
  for C13 C12 C14 C24 C20 C09
  assumes started: done("conf.once") and nonnil(glob("conf.configure"))
  ensures started: nonnil(result)
  returns glob("conf.configure")
