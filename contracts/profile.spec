# Profiles (C12): one message carries consecutive steps of one transaction
inline def stepsb(s, lo, hi): return CAT(lo, hi, lambda i: cond(s[i] == nil, EMPTY, stepbytes(s[i])))
inline def profmsg(s, lo, hi, t): return EV("sendpack", u8(26) + decimal(0) + decimal(glob("netio.ac").ObjHash) + decimal(t.ServiceHash) + i64(t.Txid) + blob(bytesof(stepsb(s, lo, hi))))
inline def bulk(): return glob("netio.ac").ProfileStepMaxCount
inline def profile(s, n, t): return CAT(0, n // bulk(), lambda j: profmsg(s, j * bulk(), j * bulk() + bulk(), t)) + cond(n % bulk() > 0, profmsg(s, n // bulk() * bulk(), n, t), EMPTY)

func netio.sendProfile0(steps, tctx)
  for C12 C14
  option helper
  requires tctx: nonnil(tctx)
  requires agent: nonnil(glob("netio.ac")) and nonnil(glob("udpsender.ac")) and nonnil(sender().udpClient)
  case none:
    when length(steps) == 0
    events EMPTY
  case some:
    when length(steps) > 0
    option events-post
    modifies tctx.ProfileCount, tctx.ProfileSize, ghost("$now"), ghost("!sent")
    ensures count: tctx.ProfileCount == wrap("int", old(tctx.ProfileCount) + length(steps))
    ensures size: tctx.ProfileSize == wrap("int", old(tctx.ProfileSize) + length(stepsb(steps, 0, length(steps))))
    events profmsg(steps, 0, length(steps), tctx)

func netio.SendProfile(steps, tctx)
  for C12 C14
  requires tctx: nonnil(tctx)
  requires agent: nonnil(glob("netio.ac")) and nonnil(glob("udpsender.ac")) and nonnil(sender().udpClient)
  requires bulk: bulk() > 0
  option events-post
  modifies tctx.ProfileCount, tctx.ProfileSize, ghost("$now"), ghost("!sent")
  ensures count: tctx.ProfileCount == wrap("int", old(tctx.ProfileCount) + length(steps))
  ensures size: tctx.ProfileSize == wrap("int", old(tctx.ProfileSize) + length(stepsb(steps, 0, length(steps))))
  invariant tctx.ProfileSize == wrap("int", old(tctx.ProfileSize) + length(stepsb(steps, 0, k * bulk())))
  invariant tctx.ProfileCount == wrap("int", old(tctx.ProfileCount) + k * bulk())
  invariant-events CAT(0, k, lambda j: profmsg(steps, j * bulk(), j * bulk() + bulk(), tctx))
  events profile(steps, length(steps), tctx)
# Collecting the steps of a transaction
inline def pcok(c): return nonnil(c) and nonnil(c.tctx) and 0 <= c.pos and c.pos < length(c.steps)
inline def pcenv(): return nonnil(glob("netio.ac")) and nonnil(glob("netio.aconf")) and nonnil(glob("udpsender.ac")) and nonnil(sender().udpClient) and bulk() > 0 and glob("netio.aconf").ProfileStepMaxKeepInMemoryCount > 0

func netio.NewProfileCollector(tctx)
  for C12 C14
  requires conf: nonnil(glob("netio.aconf")) and glob("netio.aconf").ProfileStepMaxKeepInMemoryCount > 0
  returns _
  ensures new: fresh(result)
  ensures empty: result.pos == 0 and result.currentLevel == 0 and result.parentLevel == 0 and result.tctx == tctx
  ensures room: fresh(result.steps) and length(result.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount

func (*netio.ProfileCollector).Process(c, ss)
  for C12 C14
  requires c: pcok(c) and pcenv()
  case room:
    when c.pos + 1 < length(c.steps)
    modifies c.pos, elems(c.steps)
    ensures next: c.pos == old(c.pos) + 1
    ensures kept: c.steps[old(c.pos)] == ss
    ensures others: forall(0, length(c.steps), lambda i: implies(i != old(c.pos), c.steps[i] == old(c.steps[i])))
    events EMPTY
  case full:
    when c.pos + 1 >= length(c.steps)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent")
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures kept: old(c.steps)[old(c.pos)] == ss
    ensures others: forall(0, length(old(c.steps)), lambda i: implies(i != old(c.pos), old(c.steps)[i] == old(c.steps[i])))
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    events profile(old(c.steps), length(old(c.steps)), c.tctx)

func (*netio.ProfileCollector).Close(c, ok)
  for C12 C14
  requires c: pcok(c) and pcenv()
  case nothing:
    when not ok or c.pos == 0
    events EMPTY
  case send:
    when ok and c.pos > 0
    option events-post
    modifies c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent")
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + c.pos)
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(c.steps, 0, c.pos)))
    events profile(c.steps, c.pos, c.tctx)

inline def pcroom(c): return c.pos + 1 < length(c.steps)

func (*netio.ProfileCollector).Push(c, ss)
  for C12 C14
  requires c: nonnil(c) and nonnil(ss)
  ensures index: c.currentLevel == wrap("int32", old(c.currentLevel) + 1) and c.parentLevel == old(c.currentLevel)
  case MethodStep:
    when is_(ss, "*netdata.MethodStep")
    modifies c.currentLevel, c.parentLevel, addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Index, addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent
    ensures step: addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent == old(c.parentLevel)
  case MessageStep:
    when is_(ss, "*netdata.MessageStep")
    modifies c.currentLevel, c.parentLevel, addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent
    ensures step: addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent == old(c.parentLevel)
  case ApiCallStep:
    when is_(ss, "*netdata.ApiCallStep")
    modifies c.currentLevel, c.parentLevel, addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Index, addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent
    ensures step: addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent == old(c.parentLevel)
  case HashedMessageStep:
    when is_(ss, "*netdata.HashedMessageStep")
    modifies c.currentLevel, c.parentLevel, addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent
    ensures step: addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent == old(c.parentLevel)
  case AsyncServiceStep:
    when is_(ss, "*netdata.AsyncServiceStep")
    modifies c.currentLevel, c.parentLevel, addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Index, addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent
    ensures step: addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent == old(c.parentLevel)
  case PMessageStep:
    when is_(ss, "*netdata.PMessageStep")
    modifies c.currentLevel, c.parentLevel, addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent
    ensures step: addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent == old(c.parentLevel)
  case SingleStep:
    when is_(ss, "*netdata.SingleStep")
    modifies c.currentLevel, c.parentLevel, as_(ss, "*netdata.SingleStep").Index, as_(ss, "*netdata.SingleStep").Parent
    ensures step: as_(ss, "*netdata.SingleStep").Index == old(c.currentLevel) and as_(ss, "*netdata.SingleStep").Parent == old(c.parentLevel)

func (*netio.ProfileCollector).Pop(c, ss)
  for C12 C14
  requires c: nonnil(ss) and pcok(c) and pcenv()
  ensures kept: old(c.steps)[old(c.pos)] == ss
  ensures others: forall(0, length(old(c.steps)), lambda i: implies(i != old(c.pos), old(c.steps)[i] == old(c.steps[i])))
  case MethodSteproom:
    when is_(ss, "*netdata.MethodStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent)
    events EMPTY
  case MethodStepfull:
    when is_(ss, "*netdata.MethodStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case MessageSteproom:
    when is_(ss, "*netdata.MessageStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent)
    events EMPTY
  case MessageStepfull:
    when is_(ss, "*netdata.MessageStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case ApiCallSteproom:
    when is_(ss, "*netdata.ApiCallStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent)
    events EMPTY
  case ApiCallStepfull:
    when is_(ss, "*netdata.ApiCallStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case HashedMessageSteproom:
    when is_(ss, "*netdata.HashedMessageStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent)
    events EMPTY
  case HashedMessageStepfull:
    when is_(ss, "*netdata.HashedMessageStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case AsyncServiceSteproom:
    when is_(ss, "*netdata.AsyncServiceStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent)
    events EMPTY
  case AsyncServiceStepfull:
    when is_(ss, "*netdata.AsyncServiceStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case PMessageSteproom:
    when is_(ss, "*netdata.PMessageStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent)
    events EMPTY
  case PMessageStepfull:
    when is_(ss, "*netdata.PMessageStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case SingleSteproom:
    when is_(ss, "*netdata.SingleStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.parentLevel
    ensures next: c.pos == old(c.pos) + 1
    ensures parent: c.parentLevel == old(as_(ss, "*netdata.SingleStep").Parent)
    events EMPTY
  case SingleStepfull:
    when is_(ss, "*netdata.SingleStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.parentLevel
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures parent: c.parentLevel == old(as_(ss, "*netdata.SingleStep").Parent)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)

func (*netio.ProfileCollector).Add(c, ss)
  for C12 C14
  requires c: nonnil(ss) and pcok(c) and pcenv()
  ensures index: c.currentLevel == wrap("int32", old(c.currentLevel) + 1)
  ensures kept: old(c.steps)[old(c.pos)] == ss
  ensures others: forall(0, length(old(c.steps)), lambda i: implies(i != old(c.pos), old(c.steps)[i] == old(c.steps[i])))
  case MethodSteproom:
    when is_(ss, "*netdata.MethodStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Index, addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case MethodStepfull:
    when is_(ss, "*netdata.MethodStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Index, addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.MethodStep"), "SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case MessageSteproom:
    when is_(ss, "*netdata.MessageStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case MessageStepfull:
    when is_(ss, "*netdata.MessageStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.MessageStep"), "SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case ApiCallSteproom:
    when is_(ss, "*netdata.ApiCallStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Index, addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case ApiCallStepfull:
    when is_(ss, "*netdata.ApiCallStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Index, addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.ApiCallStep"), "SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case HashedMessageSteproom:
    when is_(ss, "*netdata.HashedMessageStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case HashedMessageStepfull:
    when is_(ss, "*netdata.HashedMessageStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.HashedMessageStep"), "SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case AsyncServiceSteproom:
    when is_(ss, "*netdata.AsyncServiceStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Index, addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case AsyncServiceStepfull:
    when is_(ss, "*netdata.AsyncServiceStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Index, addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.AsyncServiceStep"), "SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case PMessageSteproom:
    when is_(ss, "*netdata.PMessageStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case PMessageStepfull:
    when is_(ss, "*netdata.PMessageStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Index, addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Index == old(c.currentLevel) and addr(as_(ss, "*netdata.PMessageStep"), "SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
  case SingleSteproom:
    when is_(ss, "*netdata.SingleStep") and pcroom(c)
    modifies c.pos, elems(c.steps), c.currentLevel, as_(ss, "*netdata.SingleStep").Index, as_(ss, "*netdata.SingleStep").Parent
    ensures next: c.pos == old(c.pos) + 1
    ensures step: as_(ss, "*netdata.SingleStep").Index == old(c.currentLevel) and as_(ss, "*netdata.SingleStep").Parent == old(c.parentLevel)
    events EMPTY
  case SingleStepfull:
    when is_(ss, "*netdata.SingleStep") and not pcroom(c)
    option events-post
    modifies c.pos, c.steps, elems(c.steps), c.tctx.ProfileCount, c.tctx.ProfileSize, ghost("$now"), ghost("!sent"), c.currentLevel, as_(ss, "*netdata.SingleStep").Index, as_(ss, "*netdata.SingleStep").Parent
    ensures next: c.pos == 0 and fresh(c.steps) and length(c.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount
    ensures count: c.tctx.ProfileCount == wrap("int", old(c.tctx.ProfileCount) + length(old(c.steps)))
    ensures size: c.tctx.ProfileSize == wrap("int", old(c.tctx.ProfileSize) + length(stepsb(old(c.steps), 0, length(old(c.steps)))))
    ensures step: as_(ss, "*netdata.SingleStep").Index == old(c.currentLevel) and as_(ss, "*netdata.SingleStep").Parent == old(c.parentLevel)
    events profile(old(c.steps), length(old(c.steps)), c.tctx)
