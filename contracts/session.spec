# TCP session (C20): exactly one well-formed reply per command frame.
# Views: @session wraps each input/handling/output step of the session loop with ghosts that record what was read, what
# was handled and whether a transport or encoding error was reported.

func (*netdata.DataInputX).ReadIntBytes@session(in_)
  for C20
  option ghosttype !frame []byte; !rerr error

  requires in: nonnil(in_) and nonnil(in_.reader)
  modifies in_.offset, input(in_)
  returns _, _
  sets ghost("!frame") := result0
  sets ghost("!rerr") := result1
  sets ghost("!nframe") := gh("!nframe") + 1
  sets ghost("!nstage") := 1

func (*netdata.DataInputX).ReadString@session(in_)
  for C20
  option forget-input
  option ghosttype !cmd string; !cmdin *netdata.DataInputX
  requires in: nonnil(in_) and nonnil(in_.reader)
  requires order: gh("!nstage") == 1
  requires frame: sameinput(in_, gh("!frame"))
  modifies in_.offset, input(in_)
  returns _, _
  sets ghost("!cmd") := result0
  sets ghost("!cmdin") := in_
  sets ghost("!nstage") := 2

func (*netdata.DataInputX).ReadPack@session(in_)
  for C20
  option forget-input
  option ghosttype !param netdata.Pack; !perr error
  requires in: nonnil(in_) and nonnil(in_.reader)
  requires depth: 0 <= in_.depth
  requires order: gh("!nstage") == 2 and in_ == gh("!cmdin")
  modifies in_.offset, input(in_)
  returns _, _
  sets ghost("!param") := result0
  sets ghost("!perr") := result1
  sets ghost("!nstage") := 3

# the contract proved for C04 (packs.spec), for a reply pack shorter than 1 GiB (assumed)
func (*netdata.DataOutputX).WritePack@session(out, pack)
  for C20
  option ghosttype !eerr error; !enc []byte
  requires out: nonnil(out) and nonnil(out.writer)
  requires pack: nonnil(pack)
  requires result: pack == gh("!res")
  assumes size: length(packbytes(pack)) < 1073741824
  emits out : packbytes(pack)
  modifies out.written
  returns out, _
  ensures size: old(length(packbytes(pack))) < 1073741824
  sets ghost("!enc") := bytesof(packbytes(pack))
  sets ghost("!eerr") := result1

func (*netdata.DataOutputX).Write@session(out, value)
  for C20
  option ghosttype !werr error
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : RAW(value)
  sets out.written := wrap("int32", out.written + length(value))
  returns _
  sets ghost("!werr") := result0

func tcpclient.handle@session(cmd, pack, in_, out)
  for C20
  option trusted
  option ghosttype !res netdata.Pack; !blocks []byte
  requires order: gh("!nstage") == 3
  requires command: cmd == gh("!cmd")
  requires parameter: pack == gh("!param")
  requires empty: nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer")) and length(stream(out)) == 0
  emits out : RAW(gh("!blocks"))
  modifies out.written, all("conf.Configure")
  returns _
  ensures pack: implies(result != nil, nonnil(result)) and length(gh("!blocks")) < 1073741824
  sets ghost("!res") := result
  sets ghost("!ncmd") := gh("!ncmd") + 1
  sets ghost("!nstage") := 4

inline def answer(): return RAW(gh("!blocks")) + cond(gh("!res") != nil, u8(3) + intbytes(gh("!enc")), EMPTY) + u8(4)
inline def line(c): return stream(box("*net.TCPConn", c.conn))

func (*tcpclient.TCPClient).Process(c)
  for C20
  option view session
  option frame-off
  option events-off
  option streams-off
  requires ok: nonnil(c) and nonnil(glob("tcpclient.ac"))
  case closed:
    when c.conn == nil
    returns nil
  case open:
    when nonnil(c.conn)
    entry opening: streameq(line(c), old(line(c)) + i32(wrap("int32", 0xCAFE1002)) + i32(c.objHash))
    iteration one: gh("!ncmd") == old(gh("!ncmd")) + 1 and gh("!nframe") == old(gh("!nframe")) + 1
    iteration reply: streameq(line(c), old(line(c)) + answer())
    iteration read: gh("!rerr") == nil
    iteration written: gh("!werr") == nil
    leave handled: gh("!ncmd") == old(gh("!ncmd")) or gh("!werr") != nil or gh("!eerr") != nil
    leave silent: implies(gh("!ncmd") == old(gh("!ncmd")), streameq(line(c), old(line(c))))
    returns _

# ---- dispatch: each command runs its own handler with the received parameter, exactly once, and its result is the answer
inline def ran(name): return EV("run", name)

func tcpclient.ResetCache@dispatch(pack)
  for C20
  # (the sent-caches' own invariant, which C13 establishes and keeps)
  assumes distinct: glob("netio.serviceNameSent") != glob("netio.hashMessageSent") and glob("netio.serviceNameSent") != glob("netio.objNameSent") and glob("netio.serviceNameSent") != glob("netio.refererSent") and glob("netio.serviceNameSent") != glob("netio.userAgentSent") and glob("netio.serviceNameSent") != glob("netio.methodSent") and glob("netio.serviceNameSent") != glob("netio.apicallSent") and glob("netio.serviceNameSent") != glob("netio.errorSent") and glob("netio.serviceNameSent") != glob("netio.loginSent") and glob("netio.serviceNameSent") != glob("netio.descSent") and glob("netio.serviceNameSent") != glob("netio.stackElementSent") and glob("netio.hashMessageSent") != glob("netio.objNameSent") and glob("netio.hashMessageSent") != glob("netio.refererSent") and glob("netio.hashMessageSent") != glob("netio.userAgentSent") and glob("netio.hashMessageSent") != glob("netio.methodSent") and glob("netio.hashMessageSent") != glob("netio.apicallSent") and glob("netio.hashMessageSent") != glob("netio.errorSent") and glob("netio.hashMessageSent") != glob("netio.loginSent") and glob("netio.hashMessageSent") != glob("netio.descSent") and glob("netio.hashMessageSent") != glob("netio.stackElementSent") and glob("netio.objNameSent") != glob("netio.refererSent") and glob("netio.objNameSent") != glob("netio.userAgentSent") and glob("netio.objNameSent") != glob("netio.methodSent") and glob("netio.objNameSent") != glob("netio.apicallSent") and glob("netio.objNameSent") != glob("netio.errorSent") and glob("netio.objNameSent") != glob("netio.loginSent") and glob("netio.objNameSent") != glob("netio.descSent") and glob("netio.objNameSent") != glob("netio.stackElementSent") and glob("netio.refererSent") != glob("netio.userAgentSent") and glob("netio.refererSent") != glob("netio.methodSent") and glob("netio.refererSent") != glob("netio.apicallSent") and glob("netio.refererSent") != glob("netio.errorSent") and glob("netio.refererSent") != glob("netio.loginSent") and glob("netio.refererSent") != glob("netio.descSent") and glob("netio.refererSent") != glob("netio.stackElementSent") and glob("netio.userAgentSent") != glob("netio.methodSent") and glob("netio.userAgentSent") != glob("netio.apicallSent") and glob("netio.userAgentSent") != glob("netio.errorSent") and glob("netio.userAgentSent") != glob("netio.loginSent") and glob("netio.userAgentSent") != glob("netio.descSent") and glob("netio.userAgentSent") != glob("netio.stackElementSent") and glob("netio.methodSent") != glob("netio.apicallSent") and glob("netio.methodSent") != glob("netio.errorSent") and glob("netio.methodSent") != glob("netio.loginSent") and glob("netio.methodSent") != glob("netio.descSent") and glob("netio.methodSent") != glob("netio.stackElementSent") and glob("netio.apicallSent") != glob("netio.errorSent") and glob("netio.apicallSent") != glob("netio.loginSent") and glob("netio.apicallSent") != glob("netio.descSent") and glob("netio.apicallSent") != glob("netio.stackElementSent") and glob("netio.errorSent") != glob("netio.loginSent") and glob("netio.errorSent") != glob("netio.descSent") and glob("netio.errorSent") != glob("netio.stackElementSent") and glob("netio.loginSent") != glob("netio.descSent") and glob("netio.loginSent") != glob("netio.stackElementSent") and glob("netio.descSent") != glob("netio.stackElementSent")
  assumes serviceNameSent: lrainv(glob("netio.serviceNameSent"))
  assumes hashMessageSent: lrainv(glob("netio.hashMessageSent"))
  assumes objNameSent: lrainv(glob("netio.objNameSent"))
  assumes refererSent: lrainv(glob("netio.refererSent"))
  assumes userAgentSent: lrainv(glob("netio.userAgentSent"))
  assumes methodSent: lrainv(glob("netio.methodSent"))
  assumes apicallSent: lrainv(glob("netio.apicallSent"))
  assumes errorSent: lrainv(glob("netio.errorSent"))
  assumes loginSent: lrainv(glob("netio.loginSent"))
  assumes descSent: lrainv(glob("netio.descSent"))
  assumes stackElementSent: lrainv(glob("netio.stackElementSent"))
  option events-off
  option streams-off
  option frame-off
  option panics assume
  events-as EV("run", "ResetCache", pack)
  returns _
  sets ghost("!hres") := result

func dump.HeavyAllStackTrace@dispatch()
  for C20
  option events-off
  option panics assume
  events-as EV("run", "HeavyAllStackTrace")
  returns _
  sets ghost("!hres") := result

func dump.ListDumpFiles@dispatch()
  for C20
  option view list
  option events-off
  option panics assume
  events-as EV("run", "ListDumpFiles")
  returns _
  sets ghost("!hres") := result

func dump.StreamDumpFileContents@dispatch(param, out)
  for C20
  requires out: nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer"))
  option streams-off
  option events-off
  option panics assume
  modifies out.written
  events-as EV("run", "StreamDumpFileContents", param, out)

func tcpclient.triggerBlockProfile@dispatch(pack, out)
  for C20
  option events-off
  option panics assume
  option helper
  events-as EV("run", "triggerBlockProfile")
  returns _

func tcpclient.triggerMutexProfile@dispatch(pack, out)
  for C20
  option events-off
  option panics assume
  option helper
  events-as EV("run", "triggerMutexProfile")
  returns _

func dump.ListBinaryDumpFiles@run()
  for C20
  option view list
  option events-off
  option streams-off
  option frame-off
  option panics assume
  returns _

func tcpclient.listBinaryDump@dispatch(pack, out)
  for C20
  option view run
  option events-off
  option panics assume
  option helper
  events-as EV("run", "listBinaryDump")
  returns _
  sets ghost("!hres") := result

func tcpclient.downloadBinaryDump@dispatch(pack, out)
  for C20
  requires out: nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer"))
  option events-off
  option panics assume
  option helper
  events-as EV("run", "downloadBinaryDump", pack, out)
  returns _
  sets ghost("!hres") := result

func tcpclient.deleteBinaryDump@dispatch(pack, out)
  for C20
  option events-off
  option panics assume
  option helper
  events-as EV("run", "deleteBinaryDump", pack)
  returns _
  sets ghost("!hres") := result

func tcpclient.triggerBinaryCpuProfile@dispatch(pack, out)
  for C20
  option events-off
  option panics assume
  option helper
  events-as EV("run", "triggerBinaryCpuProfile")
  returns _
  sets ghost("!hres") := result

func tcpclient.triggerBinaryBlockProfile@dispatch(pack, out)
  for C20
  option events-off
  option panics assume
  option helper
  events-as EV("run", "triggerBinaryBlockProfile")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.triggerBinaryMutexProfile@dispatch(pack, out)
  for C20
  option events-off
  option panics assume
  option helper
  events-as EV("run", "triggerBinaryMutexProfile")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.loadConfig@dispatch()
  for C20
  assumes env: nonnil(glob("conf.descMap"))
  option events-off
  option frame-off
  option panics assume
  option helper
  events-as EV("run", "loadConfig")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.saveConfig@dispatch(pack)
  for C20
  assumes env: nonnil(glob("conf.descMap")) and observersok()
  option events-off
  option frame-off
  option panics assume
  option helper
  events-as EV("run", "saveConfig", pack)
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.listConfig@dispatch()
  for C20
  assumes env: nonnil(glob("conf.descMap"))
  option events-off
  option frame-off
  option panics assume
  option helper
  events-as EV("run", "listConfig")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.listConfigValueType@dispatch()
  for C20
  assumes env: nonnil(glob("conf.descMap"))
  option events-off
  option panics assume
  option helper
  events-as EV("run", "listConfigValueType")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.listConfigDescription@dispatch()
  for C20
  assumes env: nonnil(glob("conf.descMap"))
  option events-off
  option panics assume
  option helper
  events-as EV("run", "listConfigDescription")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.GetActiveList@dispatch()
  for C20
  assumes env: lrainv(txids()) and forkeys(txids().table, lambda q: lraval(txids(), q) != nil)
  option events-off
  option frame-off
  option panics assume
  events-as EV("run", "GetActiveList")
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.GetGoroutineDetail@dispatch(param)
  for C20
  assumes env: lrainv(txids())
  option events-off
  option panics assume
  events-as EV("run", "GetGoroutineDetail", param)
  returns _
  ensures result: nonnil(result)
  sets ghost("!hres") := box("*netdata.MapPack", result)

func tcpclient.handle(cmd, pack, in_, out)
  for C20
  option view dispatch
  option ghosttype !hres netdata.Pack
  requires ok: nonnil(glob("tcpclient.ac")) and nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer"))
  modifies out.written
  case reset-cache:
    when cmd == "OBJECT_RESET_CACHE"
    events EV("run", "ResetCache", pack)
    returns _
    ensures result: result == gh("!hres")
  case stack-dump:
    when cmd == "TRIGGER_THREAD_DUMP"
    events EV("run", "HeavyAllStackTrace")
    returns _
    ensures result: result == gh("!hres")
  case dump-list:
    when cmd == "OBJECT_DUMP_FILE_LIST"
    events EV("run", "ListDumpFiles")
    returns _
    ensures result: result == gh("!hres")
  case dump-detail:
    when cmd == "OBJECT_DUMP_FILE_DETAIL"
    events EV("run", "StreamDumpFileContents", pack, out)
    returns _
    ensures none: result == nil
  case block-profile:
    when cmd == "TRIGGER_BLOCK_PROFILE"
    events EV("run", "triggerBlockProfile")
    returns _
    ensures none: result == nil
  case mutex-profile:
    when cmd == "TRIGGER_MUTEX_PROFILE"
    events EV("run", "triggerMutexProfile")
    returns _
    ensures none: result == nil
  case binary-list:
    when cmd == "OBJECT_LIST_HEAP_DUMP"
    events EV("run", "listBinaryDump")
    returns _
    ensures result: result == gh("!hres")
  case binary-download:
    when cmd == "OBJECT_DOWNLOAD_HEAP_DUMP"
    events EV("run", "downloadBinaryDump", pack, out)
    returns _
    ensures result: result == gh("!hres")
  case binary-delete:
    when cmd == "OBJECT_DELETE_HEAP_DUMP"
    events EV("run", "deleteBinaryDump", pack)
    returns _
    ensures result: result == gh("!hres")
  case cpu-profile:
    when cmd == "OBJECT_CALL_CPU_PROFILE"
    events EV("run", "triggerBinaryCpuProfile")
    returns _
    ensures result: result == gh("!hres")
  case block-binary:
    when cmd == "OBJECT_CALL_BLOCK_PROFILE"
    events EV("run", "triggerBinaryBlockProfile")
    returns _
    ensures result: result == gh("!hres")
  case mutex-binary:
    when cmd == "OBJECT_CALL_MUTEX_PROFILE"
    events EV("run", "triggerBinaryMutexProfile")
    returns _
    ensures result: result == gh("!hres")
  case config-get:
    when cmd == "GET_CONFIGURE_WAS"
    events EV("run", "loadConfig")
    returns _
    ensures result: result == gh("!hres")
  case config-set:
    when cmd == "SET_CONFIGURE_WAS"
    events EV("run", "saveConfig", pack)
    returns _
    ensures result: result == gh("!hres")
  case config-list:
    when cmd == "LIST_CONFIGURE_WAS"
    events EV("run", "listConfig")
    returns _
    ensures result: result == gh("!hres")
  case config-types:
    when cmd == "CONFIGURE_VALUE_TYPE"
    events EV("run", "listConfigValueType")
    returns _
    ensures result: result == gh("!hres")
  case config-desc:
    when cmd == "CONFIGURE_DESC"
    events EV("run", "listConfigDescription")
    returns _
    ensures result: result == gh("!hres")
  case active-list:
    when cmd == "OBJECT_ACTIVE_SERVICE_LIST"
    events EV("run", "GetActiveList")
    returns _
    ensures result: result == gh("!hres")
  case thread-detail:
    when cmd == "OBJECT_THREAD_DETAIL"
    events EV("run", "GetGoroutineDetail", pack)
    returns _
    ensures result: result == gh("!hres")
  case other:
    when cmd != "OBJECT_RESET_CACHE" and cmd != "TRIGGER_THREAD_DUMP" and cmd != "OBJECT_DUMP_FILE_LIST" and cmd != "OBJECT_DUMP_FILE_DETAIL" and cmd != "TRIGGER_BLOCK_PROFILE" and cmd != "TRIGGER_MUTEX_PROFILE" and cmd != "OBJECT_LIST_HEAP_DUMP" and cmd != "OBJECT_DOWNLOAD_HEAP_DUMP" and cmd != "OBJECT_DELETE_HEAP_DUMP" and cmd != "OBJECT_CALL_CPU_PROFILE" and cmd != "OBJECT_CALL_BLOCK_PROFILE" and cmd != "OBJECT_CALL_MUTEX_PROFILE" and cmd != "GET_CONFIGURE_WAS" and cmd != "SET_CONFIGURE_WAS" and cmd != "LIST_CONFIGURE_WAS" and cmd != "CONFIGURE_VALUE_TYPE" and cmd != "CONFIGURE_DESC" and cmd != "OBJECT_ACTIVE_SERVICE_LIST" and cmd != "OBJECT_THREAD_DETAIL"
    events EMPTY
    returns nil

# whatever a handler does - panic included - the command is answered: handle returns
func tcpclient.handle@fail(cmd, pack, in_, out)
  for C20
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  returns _
