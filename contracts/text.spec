# Text dictionary (C13). A kind's cache holds the identifiers already announced; "addpack" is a message handed to the UDP queue
func udpsender.GetInstance()
  for C13 C12 C14 C24
  assumes started: done("udpsender.once") and nonnil(glob("udpsender.udpSender"))
  ensures started: nonnil(result)
  returns glob("udpsender.udpSender")

inline def textmsg(kind, h, name): return EV("addpack", u8(50) + text(kind) + i32(h) + text(name))
inline def hashkey(name): return box("int32", -1 - crc32(name))
inline def known(cache, name): return has(glob(cache).table, hashkey(name))

func netio.SendServiceName(name)
  for C13
  requires inv: lrainv(glob("netio.serviceNameSent")) and glob("netio.serviceNameSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.serviceNameSent"))
  ensures known: implies(name != "", known("netio.serviceNameSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.serviceNameSent", name)
    modifies mapof(glob("netio.serviceNameSent").table), list(glob("netio.serviceNameSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.serviceNameSent").table, lambda q: has(glob("netio.serviceNameSent").table, q) == old(has(glob("netio.serviceNameSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.serviceNameSent", name) and llen(glob("netio.serviceNameSent").lst) < glob("netio.serviceNameSent").MaxEntries
    modifies mapof(glob("netio.serviceNameSent").table), list(glob("netio.serviceNameSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.serviceNameSent").table, lambda q: has(glob("netio.serviceNameSent").table, q) == (q == hashkey(name) or old(has(glob("netio.serviceNameSent").table, q))))
    events textmsg("service", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.serviceNameSent", name) and llen(glob("netio.serviceNameSent").lst) == glob("netio.serviceNameSent").MaxEntries
    modifies mapof(glob("netio.serviceNameSent").table), list(glob("netio.serviceNameSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.serviceNameSent").table, lambda q: has(glob("netio.serviceNameSent").table, q) == (q == hashkey(name) or old(has(glob("netio.serviceNameSent").table, q) and q != oldestkey(glob("netio.serviceNameSent")))))
    events textmsg("service", -1 - crc32(name), name)

func netio.SendHashedMessage(name)
  for C13
  requires inv: lrainv(glob("netio.hashMessageSent")) and glob("netio.hashMessageSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.hashMessageSent"))
  ensures known: implies(name != "", known("netio.hashMessageSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.hashMessageSent", name)
    modifies mapof(glob("netio.hashMessageSent").table), list(glob("netio.hashMessageSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.hashMessageSent").table, lambda q: has(glob("netio.hashMessageSent").table, q) == old(has(glob("netio.hashMessageSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.hashMessageSent", name) and llen(glob("netio.hashMessageSent").lst) < glob("netio.hashMessageSent").MaxEntries
    modifies mapof(glob("netio.hashMessageSent").table), list(glob("netio.hashMessageSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.hashMessageSent").table, lambda q: has(glob("netio.hashMessageSent").table, q) == (q == hashkey(name) or old(has(glob("netio.hashMessageSent").table, q))))
    events textmsg("hmsg", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.hashMessageSent", name) and llen(glob("netio.hashMessageSent").lst) == glob("netio.hashMessageSent").MaxEntries
    modifies mapof(glob("netio.hashMessageSent").table), list(glob("netio.hashMessageSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.hashMessageSent").table, lambda q: has(glob("netio.hashMessageSent").table, q) == (q == hashkey(name) or old(has(glob("netio.hashMessageSent").table, q) and q != oldestkey(glob("netio.hashMessageSent")))))
    events textmsg("hmsg", -1 - crc32(name), name)

func netio.SendObjName(name)
  for C13
  requires inv: lrainv(glob("netio.objNameSent")) and glob("netio.objNameSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.objNameSent"))
  ensures known: implies(name != "", known("netio.objNameSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.objNameSent", name)
    modifies mapof(glob("netio.objNameSent").table), list(glob("netio.objNameSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.objNameSent").table, lambda q: has(glob("netio.objNameSent").table, q) == old(has(glob("netio.objNameSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.objNameSent", name) and llen(glob("netio.objNameSent").lst) < glob("netio.objNameSent").MaxEntries
    modifies mapof(glob("netio.objNameSent").table), list(glob("netio.objNameSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.objNameSent").table, lambda q: has(glob("netio.objNameSent").table, q) == (q == hashkey(name) or old(has(glob("netio.objNameSent").table, q))))
    events textmsg("object", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.objNameSent", name) and llen(glob("netio.objNameSent").lst) == glob("netio.objNameSent").MaxEntries
    modifies mapof(glob("netio.objNameSent").table), list(glob("netio.objNameSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.objNameSent").table, lambda q: has(glob("netio.objNameSent").table, q) == (q == hashkey(name) or old(has(glob("netio.objNameSent").table, q) and q != oldestkey(glob("netio.objNameSent")))))
    events textmsg("object", -1 - crc32(name), name)

func netio.SendReferer(name)
  for C13
  requires inv: lrainv(glob("netio.refererSent")) and glob("netio.refererSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.refererSent"))
  ensures known: implies(name != "", known("netio.refererSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.refererSent", name)
    modifies mapof(glob("netio.refererSent").table), list(glob("netio.refererSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.refererSent").table, lambda q: has(glob("netio.refererSent").table, q) == old(has(glob("netio.refererSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.refererSent", name) and llen(glob("netio.refererSent").lst) < glob("netio.refererSent").MaxEntries
    modifies mapof(glob("netio.refererSent").table), list(glob("netio.refererSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.refererSent").table, lambda q: has(glob("netio.refererSent").table, q) == (q == hashkey(name) or old(has(glob("netio.refererSent").table, q))))
    events textmsg("referer", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.refererSent", name) and llen(glob("netio.refererSent").lst) == glob("netio.refererSent").MaxEntries
    modifies mapof(glob("netio.refererSent").table), list(glob("netio.refererSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.refererSent").table, lambda q: has(glob("netio.refererSent").table, q) == (q == hashkey(name) or old(has(glob("netio.refererSent").table, q) and q != oldestkey(glob("netio.refererSent")))))
    events textmsg("referer", -1 - crc32(name), name)

func netio.SendUserAgent(name)
  for C13
  requires inv: lrainv(glob("netio.userAgentSent")) and glob("netio.userAgentSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.userAgentSent"))
  ensures known: implies(name != "", known("netio.userAgentSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.userAgentSent", name)
    modifies mapof(glob("netio.userAgentSent").table), list(glob("netio.userAgentSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.userAgentSent").table, lambda q: has(glob("netio.userAgentSent").table, q) == old(has(glob("netio.userAgentSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.userAgentSent", name) and llen(glob("netio.userAgentSent").lst) < glob("netio.userAgentSent").MaxEntries
    modifies mapof(glob("netio.userAgentSent").table), list(glob("netio.userAgentSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.userAgentSent").table, lambda q: has(glob("netio.userAgentSent").table, q) == (q == hashkey(name) or old(has(glob("netio.userAgentSent").table, q))))
    events textmsg("ua", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.userAgentSent", name) and llen(glob("netio.userAgentSent").lst) == glob("netio.userAgentSent").MaxEntries
    modifies mapof(glob("netio.userAgentSent").table), list(glob("netio.userAgentSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.userAgentSent").table, lambda q: has(glob("netio.userAgentSent").table, q) == (q == hashkey(name) or old(has(glob("netio.userAgentSent").table, q) and q != oldestkey(glob("netio.userAgentSent")))))
    events textmsg("ua", -1 - crc32(name), name)

func netio.SendMethod(name)
  for C13
  requires inv: lrainv(glob("netio.methodSent")) and glob("netio.methodSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.methodSent"))
  ensures known: implies(name != "", known("netio.methodSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.methodSent", name)
    modifies mapof(glob("netio.methodSent").table), list(glob("netio.methodSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.methodSent").table, lambda q: has(glob("netio.methodSent").table, q) == old(has(glob("netio.methodSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.methodSent", name) and llen(glob("netio.methodSent").lst) < glob("netio.methodSent").MaxEntries
    modifies mapof(glob("netio.methodSent").table), list(glob("netio.methodSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.methodSent").table, lambda q: has(glob("netio.methodSent").table, q) == (q == hashkey(name) or old(has(glob("netio.methodSent").table, q))))
    events textmsg("method", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.methodSent", name) and llen(glob("netio.methodSent").lst) == glob("netio.methodSent").MaxEntries
    modifies mapof(glob("netio.methodSent").table), list(glob("netio.methodSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.methodSent").table, lambda q: has(glob("netio.methodSent").table, q) == (q == hashkey(name) or old(has(glob("netio.methodSent").table, q) and q != oldestkey(glob("netio.methodSent")))))
    events textmsg("method", -1 - crc32(name), name)

func netio.SendApicall(name)
  for C13
  requires inv: lrainv(glob("netio.apicallSent")) and glob("netio.apicallSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.apicallSent"))
  ensures known: implies(name != "", known("netio.apicallSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.apicallSent", name)
    modifies mapof(glob("netio.apicallSent").table), list(glob("netio.apicallSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.apicallSent").table, lambda q: has(glob("netio.apicallSent").table, q) == old(has(glob("netio.apicallSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.apicallSent", name) and llen(glob("netio.apicallSent").lst) < glob("netio.apicallSent").MaxEntries
    modifies mapof(glob("netio.apicallSent").table), list(glob("netio.apicallSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.apicallSent").table, lambda q: has(glob("netio.apicallSent").table, q) == (q == hashkey(name) or old(has(glob("netio.apicallSent").table, q))))
    events textmsg("apicall", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.apicallSent", name) and llen(glob("netio.apicallSent").lst) == glob("netio.apicallSent").MaxEntries
    modifies mapof(glob("netio.apicallSent").table), list(glob("netio.apicallSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.apicallSent").table, lambda q: has(glob("netio.apicallSent").table, q) == (q == hashkey(name) or old(has(glob("netio.apicallSent").table, q) and q != oldestkey(glob("netio.apicallSent")))))
    events textmsg("apicall", -1 - crc32(name), name)

func netio.SendError(name)
  for C13
  requires inv: lrainv(glob("netio.errorSent")) and glob("netio.errorSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.errorSent"))
  ensures known: implies(name != "", known("netio.errorSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.errorSent", name)
    modifies mapof(glob("netio.errorSent").table), list(glob("netio.errorSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.errorSent").table, lambda q: has(glob("netio.errorSent").table, q) == old(has(glob("netio.errorSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.errorSent", name) and llen(glob("netio.errorSent").lst) < glob("netio.errorSent").MaxEntries
    modifies mapof(glob("netio.errorSent").table), list(glob("netio.errorSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.errorSent").table, lambda q: has(glob("netio.errorSent").table, q) == (q == hashkey(name) or old(has(glob("netio.errorSent").table, q))))
    events textmsg("error", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.errorSent", name) and llen(glob("netio.errorSent").lst) == glob("netio.errorSent").MaxEntries
    modifies mapof(glob("netio.errorSent").table), list(glob("netio.errorSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.errorSent").table, lambda q: has(glob("netio.errorSent").table, q) == (q == hashkey(name) or old(has(glob("netio.errorSent").table, q) and q != oldestkey(glob("netio.errorSent")))))
    events textmsg("error", -1 - crc32(name), name)

func netio.SendLogin(name)
  for C13
  requires inv: lrainv(glob("netio.loginSent")) and glob("netio.loginSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.loginSent"))
  ensures known: implies(name != "", known("netio.loginSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.loginSent", name)
    modifies mapof(glob("netio.loginSent").table), list(glob("netio.loginSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.loginSent").table, lambda q: has(glob("netio.loginSent").table, q) == old(has(glob("netio.loginSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.loginSent", name) and llen(glob("netio.loginSent").lst) < glob("netio.loginSent").MaxEntries
    modifies mapof(glob("netio.loginSent").table), list(glob("netio.loginSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.loginSent").table, lambda q: has(glob("netio.loginSent").table, q) == (q == hashkey(name) or old(has(glob("netio.loginSent").table, q))))
    events textmsg("login", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.loginSent", name) and llen(glob("netio.loginSent").lst) == glob("netio.loginSent").MaxEntries
    modifies mapof(glob("netio.loginSent").table), list(glob("netio.loginSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.loginSent").table, lambda q: has(glob("netio.loginSent").table, q) == (q == hashkey(name) or old(has(glob("netio.loginSent").table, q) and q != oldestkey(glob("netio.loginSent")))))
    events textmsg("login", -1 - crc32(name), name)

func netio.SendDesc(name)
  for C13
  requires inv: lrainv(glob("netio.descSent")) and glob("netio.descSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.descSent"))
  ensures known: implies(name != "", known("netio.descSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.descSent", name)
    modifies mapof(glob("netio.descSent").table), list(glob("netio.descSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.descSent").table, lambda q: has(glob("netio.descSent").table, q) == old(has(glob("netio.descSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.descSent", name) and llen(glob("netio.descSent").lst) < glob("netio.descSent").MaxEntries
    modifies mapof(glob("netio.descSent").table), list(glob("netio.descSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.descSent").table, lambda q: has(glob("netio.descSent").table, q) == (q == hashkey(name) or old(has(glob("netio.descSent").table, q))))
    events textmsg("desc", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.descSent", name) and llen(glob("netio.descSent").lst) == glob("netio.descSent").MaxEntries
    modifies mapof(glob("netio.descSent").table), list(glob("netio.descSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.descSent").table, lambda q: has(glob("netio.descSent").table, q) == (q == hashkey(name) or old(has(glob("netio.descSent").table, q) and q != oldestkey(glob("netio.descSent")))))
    events textmsg("desc", -1 - crc32(name), name)

func netio.SendStackElement(name)
  for C13
  requires inv: lrainv(glob("netio.stackElementSent")) and glob("netio.stackElementSent").MaxEntries > 0
  returns ite(name == "", 0, -1 - crc32(name))
  ensures inv: lrainv(glob("netio.stackElementSent"))
  ensures known: implies(name != "", known("netio.stackElementSent", name))
  case empty:
    when name == ""
    events EMPTY
  case known:
    when name != "" and known("netio.stackElementSent", name)
    modifies mapof(glob("netio.stackElementSent").table), list(glob("netio.stackElementSent").lst), all("lra.entry.value")
    ensures keys: anykey(glob("netio.stackElementSent").table, lambda q: has(glob("netio.stackElementSent").table, q) == old(has(glob("netio.stackElementSent").table, q)))
    events EMPTY
  case room:
    when name != "" and not known("netio.stackElementSent", name) and llen(glob("netio.stackElementSent").lst) < glob("netio.stackElementSent").MaxEntries
    modifies mapof(glob("netio.stackElementSent").table), list(glob("netio.stackElementSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.stackElementSent").table, lambda q: has(glob("netio.stackElementSent").table, q) == (q == hashkey(name) or old(has(glob("netio.stackElementSent").table, q))))
    events textmsg("stackelem", -1 - crc32(name), name)
  case full:
    when name != "" and not known("netio.stackElementSent", name) and llen(glob("netio.stackElementSent").lst) == glob("netio.stackElementSent").MaxEntries
    modifies mapof(glob("netio.stackElementSent").table), list(glob("netio.stackElementSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel)
    ensures keys: anykey(glob("netio.stackElementSent").table, lambda q: has(glob("netio.stackElementSent").table, q) == (q == hashkey(name) or old(has(glob("netio.stackElementSent").table, q) and q != oldestkey(glob("netio.stackElementSent")))))
    events textmsg("stackelem", -1 - crc32(name), name)

func netio.ResetTextSent()
  for C13
  requires distinct: glob("netio.serviceNameSent") != glob("netio.hashMessageSent") and glob("netio.serviceNameSent") != glob("netio.objNameSent") and glob("netio.serviceNameSent") != glob("netio.refererSent") and glob("netio.serviceNameSent") != glob("netio.userAgentSent") and glob("netio.serviceNameSent") != glob("netio.methodSent") and glob("netio.serviceNameSent") != glob("netio.apicallSent") and glob("netio.serviceNameSent") != glob("netio.errorSent") and glob("netio.serviceNameSent") != glob("netio.loginSent") and glob("netio.serviceNameSent") != glob("netio.descSent") and glob("netio.serviceNameSent") != glob("netio.stackElementSent") and glob("netio.hashMessageSent") != glob("netio.objNameSent") and glob("netio.hashMessageSent") != glob("netio.refererSent") and glob("netio.hashMessageSent") != glob("netio.userAgentSent") and glob("netio.hashMessageSent") != glob("netio.methodSent") and glob("netio.hashMessageSent") != glob("netio.apicallSent") and glob("netio.hashMessageSent") != glob("netio.errorSent") and glob("netio.hashMessageSent") != glob("netio.loginSent") and glob("netio.hashMessageSent") != glob("netio.descSent") and glob("netio.hashMessageSent") != glob("netio.stackElementSent") and glob("netio.objNameSent") != glob("netio.refererSent") and glob("netio.objNameSent") != glob("netio.userAgentSent") and glob("netio.objNameSent") != glob("netio.methodSent") and glob("netio.objNameSent") != glob("netio.apicallSent") and glob("netio.objNameSent") != glob("netio.errorSent") and glob("netio.objNameSent") != glob("netio.loginSent") and glob("netio.objNameSent") != glob("netio.descSent") and glob("netio.objNameSent") != glob("netio.stackElementSent") and glob("netio.refererSent") != glob("netio.userAgentSent") and glob("netio.refererSent") != glob("netio.methodSent") and glob("netio.refererSent") != glob("netio.apicallSent") and glob("netio.refererSent") != glob("netio.errorSent") and glob("netio.refererSent") != glob("netio.loginSent") and glob("netio.refererSent") != glob("netio.descSent") and glob("netio.refererSent") != glob("netio.stackElementSent") and glob("netio.userAgentSent") != glob("netio.methodSent") and glob("netio.userAgentSent") != glob("netio.apicallSent") and glob("netio.userAgentSent") != glob("netio.errorSent") and glob("netio.userAgentSent") != glob("netio.loginSent") and glob("netio.userAgentSent") != glob("netio.descSent") and glob("netio.userAgentSent") != glob("netio.stackElementSent") and glob("netio.methodSent") != glob("netio.apicallSent") and glob("netio.methodSent") != glob("netio.errorSent") and glob("netio.methodSent") != glob("netio.loginSent") and glob("netio.methodSent") != glob("netio.descSent") and glob("netio.methodSent") != glob("netio.stackElementSent") and glob("netio.apicallSent") != glob("netio.errorSent") and glob("netio.apicallSent") != glob("netio.loginSent") and glob("netio.apicallSent") != glob("netio.descSent") and glob("netio.apicallSent") != glob("netio.stackElementSent") and glob("netio.errorSent") != glob("netio.loginSent") and glob("netio.errorSent") != glob("netio.descSent") and glob("netio.errorSent") != glob("netio.stackElementSent") and glob("netio.loginSent") != glob("netio.descSent") and glob("netio.loginSent") != glob("netio.stackElementSent") and glob("netio.descSent") != glob("netio.stackElementSent")
  requires serviceNameSent: lrainv(glob("netio.serviceNameSent"))
  requires hashMessageSent: lrainv(glob("netio.hashMessageSent"))
  requires objNameSent: lrainv(glob("netio.objNameSent"))
  requires refererSent: lrainv(glob("netio.refererSent"))
  requires userAgentSent: lrainv(glob("netio.userAgentSent"))
  requires methodSent: lrainv(glob("netio.methodSent"))
  requires apicallSent: lrainv(glob("netio.apicallSent"))
  requires errorSent: lrainv(glob("netio.errorSent"))
  requires loginSent: lrainv(glob("netio.loginSent"))
  requires descSent: lrainv(glob("netio.descSent"))
  requires stackElementSent: lrainv(glob("netio.stackElementSent"))
  modifies glob("netio.serviceNameSent").lst, glob("netio.serviceNameSent").table, glob("netio.hashMessageSent").lst, glob("netio.hashMessageSent").table, glob("netio.objNameSent").lst, glob("netio.objNameSent").table, glob("netio.refererSent").lst, glob("netio.refererSent").table, glob("netio.userAgentSent").lst, glob("netio.userAgentSent").table, glob("netio.methodSent").lst, glob("netio.methodSent").table, glob("netio.apicallSent").lst, glob("netio.apicallSent").table, glob("netio.errorSent").lst, glob("netio.errorSent").table, glob("netio.loginSent").lst, glob("netio.loginSent").table, glob("netio.descSent").lst, glob("netio.descSent").table, glob("netio.stackElementSent").lst, glob("netio.stackElementSent").table
  ensures serviceNameSent: lrainv(glob("netio.serviceNameSent")) and length(glob("netio.serviceNameSent").table) == 0 and anykey(glob("netio.serviceNameSent").table, lambda q: not has(glob("netio.serviceNameSent").table, q))
  ensures hashMessageSent: lrainv(glob("netio.hashMessageSent")) and length(glob("netio.hashMessageSent").table) == 0 and anykey(glob("netio.hashMessageSent").table, lambda q: not has(glob("netio.hashMessageSent").table, q))
  ensures objNameSent: lrainv(glob("netio.objNameSent")) and length(glob("netio.objNameSent").table) == 0 and anykey(glob("netio.objNameSent").table, lambda q: not has(glob("netio.objNameSent").table, q))
  ensures refererSent: lrainv(glob("netio.refererSent")) and length(glob("netio.refererSent").table) == 0 and anykey(glob("netio.refererSent").table, lambda q: not has(glob("netio.refererSent").table, q))
  ensures userAgentSent: lrainv(glob("netio.userAgentSent")) and length(glob("netio.userAgentSent").table) == 0 and anykey(glob("netio.userAgentSent").table, lambda q: not has(glob("netio.userAgentSent").table, q))
  ensures methodSent: lrainv(glob("netio.methodSent")) and length(glob("netio.methodSent").table) == 0 and anykey(glob("netio.methodSent").table, lambda q: not has(glob("netio.methodSent").table, q))
  ensures apicallSent: lrainv(glob("netio.apicallSent")) and length(glob("netio.apicallSent").table) == 0 and anykey(glob("netio.apicallSent").table, lambda q: not has(glob("netio.apicallSent").table, q))
  ensures errorSent: lrainv(glob("netio.errorSent")) and length(glob("netio.errorSent").table) == 0 and anykey(glob("netio.errorSent").table, lambda q: not has(glob("netio.errorSent").table, q))
  ensures loginSent: lrainv(glob("netio.loginSent")) and length(glob("netio.loginSent").table) == 0 and anykey(glob("netio.loginSent").table, lambda q: not has(glob("netio.loginSent").table, q))
  ensures descSent: lrainv(glob("netio.descSent")) and length(glob("netio.descSent").table) == 0 and anykey(glob("netio.descSent").table, lambda q: not has(glob("netio.descSent").table, q))
  ensures stackElementSent: lrainv(glob("netio.stackElementSent")) and length(glob("netio.stackElementSent").table) == 0 and anykey(glob("netio.stackElementSent").table, lambda q: not has(glob("netio.stackElementSent").table, q))

func netio.init()
  for C13
  modifies glob("netio.serviceNameSent"), glob("netio.hashMessageSent"), glob("netio.objNameSent"), glob("netio.refererSent"), glob("netio.userAgentSent"), glob("netio.methodSent"), glob("netio.apicallSent"), glob("netio.errorSent"), glob("netio.loginSent"), glob("netio.descSent"), glob("netio.stackElementSent"), glob("netio.ac"), glob("netio.aconf"), glob("netio.init$guard")
  requires first: not glob("netio.init$guard")
  ensures distinct: glob("netio.serviceNameSent") != glob("netio.hashMessageSent") and glob("netio.serviceNameSent") != glob("netio.objNameSent") and glob("netio.serviceNameSent") != glob("netio.refererSent") and glob("netio.serviceNameSent") != glob("netio.userAgentSent") and glob("netio.serviceNameSent") != glob("netio.methodSent") and glob("netio.serviceNameSent") != glob("netio.apicallSent") and glob("netio.serviceNameSent") != glob("netio.errorSent") and glob("netio.serviceNameSent") != glob("netio.loginSent") and glob("netio.serviceNameSent") != glob("netio.descSent") and glob("netio.serviceNameSent") != glob("netio.stackElementSent") and glob("netio.hashMessageSent") != glob("netio.objNameSent") and glob("netio.hashMessageSent") != glob("netio.refererSent") and glob("netio.hashMessageSent") != glob("netio.userAgentSent") and glob("netio.hashMessageSent") != glob("netio.methodSent") and glob("netio.hashMessageSent") != glob("netio.apicallSent") and glob("netio.hashMessageSent") != glob("netio.errorSent") and glob("netio.hashMessageSent") != glob("netio.loginSent") and glob("netio.hashMessageSent") != glob("netio.descSent") and glob("netio.hashMessageSent") != glob("netio.stackElementSent") and glob("netio.objNameSent") != glob("netio.refererSent") and glob("netio.objNameSent") != glob("netio.userAgentSent") and glob("netio.objNameSent") != glob("netio.methodSent") and glob("netio.objNameSent") != glob("netio.apicallSent") and glob("netio.objNameSent") != glob("netio.errorSent") and glob("netio.objNameSent") != glob("netio.loginSent") and glob("netio.objNameSent") != glob("netio.descSent") and glob("netio.objNameSent") != glob("netio.stackElementSent") and glob("netio.refererSent") != glob("netio.userAgentSent") and glob("netio.refererSent") != glob("netio.methodSent") and glob("netio.refererSent") != glob("netio.apicallSent") and glob("netio.refererSent") != glob("netio.errorSent") and glob("netio.refererSent") != glob("netio.loginSent") and glob("netio.refererSent") != glob("netio.descSent") and glob("netio.refererSent") != glob("netio.stackElementSent") and glob("netio.userAgentSent") != glob("netio.methodSent") and glob("netio.userAgentSent") != glob("netio.apicallSent") and glob("netio.userAgentSent") != glob("netio.errorSent") and glob("netio.userAgentSent") != glob("netio.loginSent") and glob("netio.userAgentSent") != glob("netio.descSent") and glob("netio.userAgentSent") != glob("netio.stackElementSent") and glob("netio.methodSent") != glob("netio.apicallSent") and glob("netio.methodSent") != glob("netio.errorSent") and glob("netio.methodSent") != glob("netio.loginSent") and glob("netio.methodSent") != glob("netio.descSent") and glob("netio.methodSent") != glob("netio.stackElementSent") and glob("netio.apicallSent") != glob("netio.errorSent") and glob("netio.apicallSent") != glob("netio.loginSent") and glob("netio.apicallSent") != glob("netio.descSent") and glob("netio.apicallSent") != glob("netio.stackElementSent") and glob("netio.errorSent") != glob("netio.loginSent") and glob("netio.errorSent") != glob("netio.descSent") and glob("netio.errorSent") != glob("netio.stackElementSent") and glob("netio.loginSent") != glob("netio.descSent") and glob("netio.loginSent") != glob("netio.stackElementSent") and glob("netio.descSent") != glob("netio.stackElementSent")
  ensures serviceNameSent: lrainv(glob("netio.serviceNameSent")) and glob("netio.serviceNameSent").MaxEntries > 0 and length(glob("netio.serviceNameSent").table) == 0
  ensures hashMessageSent: lrainv(glob("netio.hashMessageSent")) and glob("netio.hashMessageSent").MaxEntries > 0 and length(glob("netio.hashMessageSent").table) == 0
  ensures objNameSent: lrainv(glob("netio.objNameSent")) and glob("netio.objNameSent").MaxEntries > 0 and length(glob("netio.objNameSent").table) == 0
  ensures refererSent: lrainv(glob("netio.refererSent")) and glob("netio.refererSent").MaxEntries > 0 and length(glob("netio.refererSent").table) == 0
  ensures userAgentSent: lrainv(glob("netio.userAgentSent")) and glob("netio.userAgentSent").MaxEntries > 0 and length(glob("netio.userAgentSent").table) == 0
  ensures methodSent: lrainv(glob("netio.methodSent")) and glob("netio.methodSent").MaxEntries > 0 and length(glob("netio.methodSent").table) == 0
  ensures apicallSent: lrainv(glob("netio.apicallSent")) and glob("netio.apicallSent").MaxEntries > 0 and length(glob("netio.apicallSent").table) == 0
  ensures errorSent: lrainv(glob("netio.errorSent")) and glob("netio.errorSent").MaxEntries > 0 and length(glob("netio.errorSent").table) == 0
  ensures loginSent: lrainv(glob("netio.loginSent")) and glob("netio.loginSent").MaxEntries > 0 and length(glob("netio.loginSent").table) == 0
  ensures descSent: lrainv(glob("netio.descSent")) and glob("netio.descSent").MaxEntries > 0 and length(glob("netio.descSent").table) == 0
  ensures stackElementSent: lrainv(glob("netio.stackElementSent")) and glob("netio.stackElementSent").MaxEntries > 0 and length(glob("netio.stackElementSent").table) == 0

# Packs sent at once (C24, C12, C14): "sendpack" is a pack serialised and handed to a sending goroutine; ghost !sent names the pack
inline def sender(): return glob("udpsender.udpSender")
func netio.SendPackDirect(pack)
  for C24 C14
  requires pack: nonnil(pack)
  requires untraced: not (glob("udpsender.ac").TraceObjSend and is_(pack, "*netdata.ObjectPack"))
  assumes agent: nonnil(sender().udpClient) and nonnil(glob("udpsender.ac"))
  events EV("sendpack", packbytes(pack))
  sets ghost("!sent") := pack
