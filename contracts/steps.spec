# Profile steps (C05). stepbody is the payload the Scouter protocol defines for each step kind.
def stephead(s): return decimal(s.SingleStep.Parent) + decimal(s.SingleStep.Index) + decimal(s.SingleStep.StartTime) + BE(1, 0)
def singlehead(s): return decimal(s.Parent) + decimal(s.Index) + decimal(s.StartTime) + BE(1, 0)
inline def i32array(a): return BE(2, length(a)) + CAT(0, length(a), lambda i: i32(a[i]))
def methodstep(s): return stephead(s) + decimal(s.Hash) + decimal(s.Elapsed) + decimal(s.CpuTime)
def messagestep(s): return stephead(s) + text(s.Message)
def apicallstep(s): return stephead(s) + decimal(s.Txid) + decimal(s.Hash) + decimal(s.Elapsed) + decimal(s.CpuTime) + decimal(s.Error) + u8(s.Opt) + cond(s.Opt == 1, text(s.Address), EMPTY)
def hmessagestep(s): return stephead(s) + decimal(s.Hash) + decimal(s.Time) + decimal(s.Value)
def dumpstep(s): return stephead(s) + i32array(s.Stacks) + i64(s._threadId) + text(s._threadName) + text(s._threadState) + i64(s._lockOwnerId) + text(s._lockName) + text(s._lockOwnerName)
def threadstep(s): return stephead(s) + decimal(s.Txid) + decimal(s.Hash) + decimal(s.Elapsed) + u8(1)
def pmessagestep(s): return stephead(s) + decimal(s.Hash) + decimal(s.Elapsed) + decimal(s.Level) + text(s.paramString)
def stepbody(s):
    return cond(is_(s, "*netdata.MethodStep"), methodstep(as_(s, "*netdata.MethodStep")),
           cond(is_(s, "*netdata.MessageStep"), messagestep(as_(s, "*netdata.MessageStep")),
           cond(is_(s, "*netdata.ApiCallStep"), apicallstep(as_(s, "*netdata.ApiCallStep")),
           cond(is_(s, "*netdata.HashedMessageStep"), hmessagestep(as_(s, "*netdata.HashedMessageStep")),
           cond(is_(s, "*netdata.DumpStep"), dumpstep(as_(s, "*netdata.DumpStep")),
           cond(is_(s, "*netdata.AsyncServiceStep"), threadstep(as_(s, "*netdata.AsyncServiceStep")),
           cond(is_(s, "*netdata.PMessageStep"), pmessagestep(as_(s, "*netdata.PMessageStep")),
           cond(is_(s, "*netdata.SingleStep"), singlehead(as_(s, "*netdata.SingleStep")), EMPTY))))))))
inline def steptype(s):
    return ite(is_(s, "*netdata.MethodStep"), 1, ite(is_(s, "*netdata.MessageStep"), 3, ite(is_(s, "*netdata.ApiCallStep"), 6,
           ite(is_(s, "*netdata.HashedMessageStep"), 9, ite(is_(s, "*netdata.DumpStep"), 12, ite(is_(s, "*netdata.AsyncServiceStep"), 14,
           ite(is_(s, "*netdata.PMessageStep"), 17, 0)))))))
def stepbytes(s): return u8(steptype(s)) + stepbody(s)

func netdata.Step.GetStepType(s)
  for C05
  option iface
  requires s: nonnil(s)
  returns steptype(s)

func netdata.Step.Write(s, out)
  for C05
  option iface
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(s)
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.SingleStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.SingleStep", s))

func (*netdata.SingleStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.SingleStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.MethodStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.MethodStep", s))

func (*netdata.MethodStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.MethodStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.MessageStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.MessageStep", s))

func (*netdata.MessageStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.MessageStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.ApiCallStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.ApiCallStep", s))

func (*netdata.ApiCallStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.ApiCallStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.HashedMessageStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.HashedMessageStep", s))

func (*netdata.HashedMessageStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.HashedMessageStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.DumpStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.DumpStep", s))

func (*netdata.DumpStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes stack: length(s.Stacks) <= 32767
  emits out : stepbody(box("*netdata.DumpStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.AsyncServiceStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.AsyncServiceStep", s))

func (*netdata.AsyncServiceStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.AsyncServiceStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.PMessageStep).GetStepType(s)
  for C05
  requires s: nonnil(s)
  returns steptype(box("*netdata.PMessageStep", s))

func (*netdata.PMessageStep).Write(s, out)
  for C05
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : stepbody(box("*netdata.PMessageStep", s))
  modifies out.written
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.SingleStep).SetIndex(s, index)
  for C05 C12
  requires s: nonnil(s)
  sets s.Index := index

func (*netdata.SingleStep).SetParent(s, parent)
  for C05 C12
  requires s: nonnil(s)
  sets s.Parent := parent

func (*netdata.SingleStep).GetParent(s)
  for C05 C12
  requires s: nonnil(s)
  returns s.Parent

func (*netdata.SingleStep).GetOrder(s)
  for C05
  requires s: nonnil(s)
  returns s.Index

func (*netdata.DataOutputX).WriteStep(out, step)
  for C05
  requires out: nonnil(out) and nonnil(out.writer)
  requires step: nonnil(step)
  emits out : stepbytes(step)
  modifies out.written
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func netdata.StepsToBytes(steps)
  for C05
  case none:
    when steps == nil
    returns nil
  case some:
    when steps != nil
    returns bytesof(CAT(0, length(steps), lambda i: cond(steps[i] == nil, EMPTY, stepbytes(steps[i]))))

func (*netdata.PMessageStep).SetMessage(s, hash, params)
  for C05
  requires s: nonnil(s)
  sets s.Hash := hash
  modifies s.paramString
  ensures text: streameq(RAW(s.paramString), CAT(0, length(params), lambda i: RAW(params[i]) + BE(1, 3)))
