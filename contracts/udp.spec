# UDP framing (C10)
inline def frag(pkid, total, num, data): return EV("datagram", RAW("CAFM") + BE(4, 0) + BE(8, pkid) + BE(2, total) + BE(2, num) + blob(data))
inline def pieces(n, max): return n // max + ite(n % max == 0, 0, 1)
inline def fragments(pkid, b, max): return CAT(0, blength(b) // max, lambda i: frag(pkid, pieces(blength(b), max), i, b[i * max:i * max + max])) + \
    cond(blength(b) % max == 0, EMPTY, frag(pkid, pieces(blength(b), max), blength(b) // max, b[blength(b) - blength(b) % max:blength(b)]))

func util.CopyArray(data, pos, length_)
  for C10
  requires range: 0 <= pos and 0 <= length_ and pos + length_ <= length(data)
  returns data[pos:pos + length_]

func (*udpclient.UDPClient).writeMTUSub(udpClient, pkid, total, num, data)
  for C10
  option helper
  requires open: nonnil(udpClient) and nonnil(udpClient.Conn)
  requires len: length(data) < 2147483648
  requires count: 0 <= num and num < total and total <= 32767
  events frag(pkid, total, num, content(data))

func (*udpclient.UDPClient).writeMTU(udpClient, data, packetSize)
  for C10
  option helper
  requires arg: nonnil(udpClient) and packetSize > 0
  requires len: length(data) < 2147483648
  requires count: pieces(length(data), packetSize) <= 32767
  case open:
    when nonnil(udpClient.Conn)
    option events-post
    events fragments(gh("pkid"), content(data), packetSize)
    events-as EV("fragments", content(data), packetSize)
    returns true
  case closed:
    when udpClient.Conn == nil
    events EMPTY
    returns false

func (*udpclient.UDPClient).sendBufferList(udpClient, bufferCount, data)
  for C10
  option helper
  requires open: nonnil(udpClient) and nonnil(udpClient.Conn)
  requires len: length(data) < 2147483648
  events EV("datagram", RAW("CAFN") + BE(2, bufferCount) + RAW(data))

func (*udpclient.UDPClient).WriteBuffer(udpClient, buff)
  for C10 C11
  requires arg: nonnil(udpClient) and udpClient.udpMaxBytes > 0
  requires len: length(buff) < 2147483648
  requires count: pieces(length(buff), udpClient.udpMaxBytes) <= 32767
  events-as handed(buff)
  case closed:
    when udpClient.Conn == nil
    events EMPTY
    returns false
  case small:
    when nonnil(udpClient.Conn) and length(buff) <= udpClient.udpMaxBytes
    events EV("datagram", RAW("CAFE") + RAW(buff))
    returns true
  case large:
    when nonnil(udpClient.Conn) and length(buff) > udpClient.udpMaxBytes
    events EV("fragments", content(buff), udpClient.udpMaxBytes)
    returns true

# the pending batch after k buffers of a list (bytes, and one byte per buffer in it), and what has been sent by then
inline def buf(l, i): return as_(lat(l, i), "[]byte")
def pend(l, max, k):
    b = buf(l, k - 1)
    return cond(k <= 0, EMPTY,
           cond(length(b) > max, pend(l, max, k - 1),
           cond(length(b) + length(pend(l, max, k - 1)) > max, RAW(b), pend(l, max, k - 1) + RAW(b))))
def pendn(l, max, k):
    b = buf(l, k - 1)
    return cond(k <= 0, EMPTY,
           cond(length(b) > max, pendn(l, max, k - 1),
           cond(length(b) + length(pend(l, max, k - 1)) > max, BE(1, 0), pendn(l, max, k - 1) + BE(1, 0))))
inline def batch(l, max, k): return EV("datagram", RAW("CAFN") + BE(2, length(pendn(l, max, k))) + pend(l, max, k))
def sentby(l, max, k):
    b = buf(l, k - 1)
    return cond(k <= 0, EMPTY,
           cond(length(b) > max, sentby(l, max, k - 1) + EV("fragments", content(b), max),
           cond(length(b) + length(pend(l, max, k - 1)) > max, sentby(l, max, k - 1) + batch(l, max, k - 1), sentby(l, max, k - 1))))

func (*udpclient.UDPClient).WriteBufferList(udpClient, bufferList)
  for C10 C11
  requires arg: nonnil(udpClient) and nonnil(bufferList) and 0 < udpClient.udpMaxBytes and udpClient.udpMaxBytes < 1073741824
  requires list: llen(bufferList) <= 32767 and forall(0, llen(bufferList), lambda i: is_(lat(bufferList, i), "[]byte") and length(buf(bufferList, i)) < 2147483648 and pieces(length(buf(bufferList, i)), udpClient.udpMaxBytes) <= 32767)
  events-as handedlist(bufferList)
  case closed:
    when udpClient.Conn == nil
    events EMPTY
    returns false
  case open:
    when nonnil(udpClient.Conn)
    let max = udpClient.udpMaxBytes
    let n = llen(bufferList)
    invariant at: buffer == lelem(bufferList, k)
    invariant k: k <= n
    invariant count: outCount == length(pendn(bufferList, max, k)) and outCount <= k
    invariant bytes: out.written == length(pend(bufferList, max, k)) and out.written <= max
    invariant-stream out: pend(bufferList, max, k)
    invariant-events sentby(bufferList, max, k)
    events sentby(bufferList, max, n) + cond(length(pend(bufferList, max, n)) > 0, batch(bufferList, max, n), EMPTY)
    returns true

# UDP queue (C11): "handed" is a buffer passed to the socket layer
inline def handed(b): return EV("handed", content(b))
inline def handedlist(l): return CAT(0, llen(l), lambda i: handed(as_(lat(l, i), "[]byte")))
inline def sendable(b, max): return length(b) < 2147483648 and pieces(length(b), max) <= 32767
inline def client(s): return nonnil(s) and nonnil(s.udpClient) and 0 < s.udpClient.udpMaxBytes and s.udpClient.udpMaxBytes < 1073741824
inline def bufs(l): return forall(0, llen(l), lambda i: is_(lat(l, i), "[]byte"))

func (*udpsender.UDPSender).getQueueSize(s)
  for C11
  option helper
  requires arg: nonnil(s)
  returns chlen(s.udpChannel)

func (*udpsender.UDPSender).AddBuffer(s, buffer)
  for C11
  option nonblocking
  requires arg: nonnil(s)
  case room:
    when chlen(s.udpChannel) < chcap(s.udpChannel)
    events EV("enqueue", s.udpChannel, content(buffer))
    modifies chan(s.udpChannel)
  case full:
    when chlen(s.udpChannel) >= chcap(s.udpChannel)
    events EMPTY

func (*udpsender.UDPSender).AddPack(s, pack)
  for C11 C13
  option nonblocking
  events-as EV("addpack", packbytes(pack))
  requires arg: nonnil(s) and nonnil(pack)
  case room:
    when chlen(s.udpChannel) < chcap(s.udpChannel)
    events EV("enqueue", s.udpChannel, packbytes(pack))
    modifies chan(s.udpChannel)
  case full:
    when chlen(s.udpChannel) >= chcap(s.udpChannel)
    events EMPTY

func (*udpsender.UDPSender).sendList(s, bufferList)
  for C11
  option helper
  requires arg: client(s) and nonnil(bufferList) and bufs(bufferList)
  requires sizes: llen(bufferList) <= 32767 and forall(0, llen(bufferList), lambda i: sendable(as_(lat(bufferList, i), "[]byte"), s.udpClient.udpMaxBytes))
  events handedlist(bufferList)

func (*udpsender.UDPSender).send(s, size)
  for C11
  option helper
  let ch = s.udpChannel
  let p = chpos(s.udpChannel)
  requires arg: client(s) and 0 <= size and size <= 32767 and nonnil(glob("udpsender.ac"))
  requires sizes: forall(0, size, lambda i: sendable(chval(s.udpChannel, chpos(s.udpChannel) + i), s.udpClient.udpMaxBytes))
  invariant pos: chpos(ch) == p + k
  invariant n: llen(local("*container/list.List")) <= k
  invariant bytes: forall(0, llen(local("*container/list.List")), lambda i: is_(lat(local("*container/list.List"), i), "[]byte"))
  invariant content: forall(0, llen(local("*container/list.List")), lambda i: as_(lat(local("*container/list.List"), i), "[]byte") == chval(ch, p + k - llen(local("*container/list.List")) + i))
  invariant-events CAT(0, k - llen(local("*container/list.List")), lambda i: handed(chval(ch, p + i)))
  events CAT(0, size, lambda i: handed(chval(ch, p + i)))
  ensures pos: chpos(s.udpChannel) == p + size
  modifies chan(s.udpChannel)

func (*udpsender.UDPSender).run(s)
  for C11
  option events-post
  let ch = s.udpChannel
  let p = chpos(s.udpChannel)
  requires arg: client(s) and nonnil(glob("udpsender.ac")) and chcap(s.udpChannel) <= 32767
  requires sizes: forall(chpos(s.udpChannel), 2199023255552, lambda i: sendable(chval(s.udpChannel, i), s.udpClient.udpMaxBytes))
  invariant pos: p <= chpos(ch)
  invariant-events CAT(0, chpos(ch) - p, lambda i: handed(chval(ch, p + i)))
  events CAT(0, chpos(s.udpChannel) - p, lambda i: handed(chval(ch, p + i)))
  modifies chan(s.udpChannel)

func (*udpsender.UDPSender).SendPackDirect(s, pack)
  for C11
  requires arg: nonnil(s) and nonnil(pack) and nonnil(glob("udpsender.ac")) and nonnil(s.udpClient)
  requires untraced: not (glob("udpsender.ac").TraceObjSend and is_(pack, "*netdata.ObjectPack"))
  events-as EV("sendpack", packbytes(pack))
  events EV("go (*udpclient.UDPClient).WriteBuffer", s.udpClient, packbytes(pack))
  sets ghost("!sent") := pack

func (*udpsender.UDPSender).SendDirect(s, bufferList)
  for C11
  requires arg: nonnil(s)
  case none:
    when bufferList == nil
    events EMPTY
  case list:
    when nonnil(bufferList)
    events EV("go (*udpsender.UDPSender).sendList", s, bufferList)
