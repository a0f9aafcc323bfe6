# Dump files (C19)
inline def dumpdir(): return pathjoin(homepath(), "dump")
inline def binarydir(): return pathjoin(homepath(), "binary_dump")
inline def profilename(n): return plainname(n) and endswith(n, "pprof")
inline def block(): return u8(3) + blob(filepart(gh("!nfrom"), gh("!nto")))

func (*netdata.MapPack).GetString@dump(s, key)
  for C19
  option ghosttype !dname string
  requires s: nonnil(s)
  returns _
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.TextValue") and nonnil(as_(s.Table[key], "*netdata.TextValue")), result0 == as_(s.Table[key], "*netdata.TextValue").Value)
  ensures missing: implies(not has(s.Table, key), result0 == "")
  sets ghost("!dname") := result0
  sets ghost("!dkey") := key

func dump.DownloadBinaryDumpFiles(out, fileName)
  for C19
  option ghosttype !dasked string
  sets ghost("!dasked") := fileName
  sets ghost("!ndown") := gh("!ndown") + 1
  option streams-off
  option frame-off
  option ghosttype !rerr error
  requires out: nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer"))
  assumes start: gh("!nfopen") == 0
  events cond(profilename(fileName), EV("open", pathjoin(binarydir(), fileName)), EMPTY)
  entry start: gh("!nto") == 0 and streameq(stream(out), old(stream(out)))
  iteration order: gh("!nfrom") == old(gh("!nto"))
  iteration block: streameq(stream(out), old(stream(out)) + block())
  finish end: gh("!rerr") != nil and gh("!nfrom") == old(gh("!nto")) and implies(gh("!rerr") == eof(), gh("!nto") == filesize())
  finish block: gh("!rerr") != eof() or streameq(stream(out), old(stream(out)) + block()) or (gh("!nto") == gh("!nfrom") and streameq(stream(out), old(stream(out))))
  ensures nothing: gh("!nfopen") == 1 or streameq(stream(out), old(stream(out)))

func dump.StreamDumpFileContents(param, out)
  for C19
  option view dump
  option streams-off
  option frame-off
  requires out: nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer"))
  assumes start: gh("!nfopen") == 0
  case other:
    when not is_(param, "*netdata.MapPack")
    events EMPTY
    ensures nothing: streameq(stream(out), old(stream(out)))
  case map:
    when is_(param, "*netdata.MapPack")
    requires param: nonnil(as_(param, "*netdata.MapPack"))
    option events-post
    events cond(plainname(gh("!dname")), EV("open", pathjoin(dumpdir(), gh("!dname"))), EMPTY)
    entry start: gh("!nto") == 0 and streameq(stream(out), old(stream(out)))
    iteration order: gh("!nfrom") == old(gh("!nto"))
    iteration block: streameq(stream(out), old(stream(out)) + block())
    finish end: gh("!rerr") != nil and gh("!nfrom") == old(gh("!nto")) and implies(gh("!rerr") == eof(), gh("!nto") == filesize())
    finish block: gh("!rerr") != eof() or streameq(stream(out), old(stream(out)) + block()) or (gh("!nto") == gh("!nfrom") and streameq(stream(out), old(stream(out))))
    ensures nothing: gh("!nfopen") == 1 or streameq(stream(out), old(stream(out)))
    ensures key: gh("!dkey") == "name"

func dump.DeleteBinaryDumpFiles(fileName)
  for C19
  option ghosttype !dasked string
  sets ghost("!dasked") := fileName
  sets ghost("!ndel") := gh("!ndel") + 1
  option frame-off
  option ghosttype !rmerr error
  events cond(profilename(fileName), EV("remove", pathjoin(binarydir(), fileName)), EMPTY)
  returns _
  ensures result: is_(result, "*netdata.MapPack") and nonnil(as_(result, "*netdata.MapPack"))
  ensures success: as_(as_(result, "*netdata.MapPack").Table["success"], "*netdata.BooleanValue").Value == (profilename(fileName) and gh("!rmerr") == nil)

# Lists. In this view a list value is the sequence of the additions made to it (that an addition appends exactly one entry with this
# value is the contract of C03)
func (*netdata.ListValue).AddString@list(s, value)
  for C19
  requires s: nonnil(s)
  option events-off
  option frame-off
  events-as EV("text", s, value)
  returns s

func (*netdata.ListValue).AddInt64@list(s, value)
  for C19
  requires s: nonnil(s)
  option events-off
  option frame-off
  events-as EV("dec", s, value)
  returns s

inline def dlist(r, n): return as_(as_(r, "*netdata.MapPack").Table[n], "*netdata.ListValue")
inline def listpack(r): return is_(r, "*netdata.MapPack") and nonnil(as_(r, "*netdata.MapPack")) and nonnil(as_(r, "*netdata.MapPack").Table)
inline def islist(r, n): return has(as_(r, "*netdata.MapPack").Table, n) and is_(as_(r, "*netdata.MapPack").Table[n], "*netdata.ListValue") and nonnil(dlist(r, n))
inline def afile(): return gh("!nwalk") == 1 and gh("!nwinfo") == 1 and gh("!nwdir") == 0

func dump.ListDumpFiles()
  for C19
  option view list
  option events-any-order
  option events-post
  option ghosttype !wname string
  events EV("walk", dumpdir()) + cond(afile(), EV("text", dlist(result, "name"), gh("!wname")) + EV("dec", dlist(result, "size"), gh("!nwsize")) + EV("dec", dlist(result, "last_modified"), msdiv(gh("!nwtime"))), EMPTY)
  returns _
  ensures result: listpack(result) and islist(result, "name") and islist(result, "size") and islist(result, "last_modified")
  ensures apart: dlist(result, "name") != dlist(result, "size") and dlist(result, "name") != dlist(result, "last_modified") and dlist(result, "size") != dlist(result, "last_modified")
  ensures kept: listskept()
  ensures empty: length(dlist(result, "name").Value) == 0 and length(dlist(result, "size").Value) == 0 and length(dlist(result, "last_modified").Value) == 0

func dump.ListBinaryDumpFiles()
  for C19
  option view list
  option events-any-order
  option events-post
  option ghosttype !wname string
  events EV("walk", binarydir()) + cond(afile() and endswith(gh("!wname"), "pprof"), EV("text", dlist(result, "name"), gh("!wname")) + EV("dec", dlist(result, "size"), gh("!nwsize")), EMPTY)
  returns _
  ensures result: listpack(result) and islist(result, "name") and islist(result, "size")
  ensures apart: dlist(result, "name") != dlist(result, "size")
  ensures kept: listskept()
  ensures empty: length(dlist(result, "name").Value) == 0 and length(dlist(result, "size").Value) == 0

# The commands: the name in the parameter, under the collector's key, and nothing for another parameter
func tcpclient.downloadBinaryDump@dumpcmd(pack, out)
  for C19
  option helper
  option view dump
  option ghosttype !dasked string; !dname string; !dkey string
  option events-off
  option streams-off
  option frame-off
  requires out: nonnil(out) and is_(out.writer, "*bytes.Buffer") and nonnil(out.writer) and nonnil(as_(out.writer, "*bytes.Buffer"))
  requires pack: implies(is_(pack, "*netdata.MapPack"), nonnil(as_(pack, "*netdata.MapPack")))
  assumes start: gh("!ndown") == 0 and gh("!ndel") == 0
  ensures one: gh("!ndel") == 0 and gh("!ndown") == ite(is_(pack, "*netdata.MapPack"), 1, 0)
  ensures name: implies(is_(pack, "*netdata.MapPack"), gh("!dasked") == gh("!dname") and gh("!dkey") == "fileName")

func tcpclient.deleteBinaryDump@dumpcmd(pack, out)
  for C19
  option helper
  option view dump
  option ghosttype !dasked string; !dname string; !dkey string
  option events-off
  option streams-off
  option frame-off
  requires pack: implies(is_(pack, "*netdata.MapPack"), nonnil(as_(pack, "*netdata.MapPack")))
  assumes start: gh("!ndown") == 0 and gh("!ndel") == 0
  ensures one: gh("!ndown") == 0 and gh("!ndel") == ite(is_(pack, "*netdata.MapPack"), 1, 0)
  ensures name: implies(is_(pack, "*netdata.MapPack"), gh("!dasked") == gh("!dname") and gh("!dkey") == "delfileName")
