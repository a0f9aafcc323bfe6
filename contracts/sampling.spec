# Sampling (C09): the decision for a transaction, from the configuration and the number drawn
inline def sac(): return glob("strace.ac")
inline def draw(): return gh("$draw")
inline def verdict(old_, e, s1, s2, s3, r1, r2, r3, ro, only): return ite(draw() >= ite(e < s1, r1, ite(e < s2, r2, ite(e < s3, r3, ro))), ite(only, 3, 2), old_)
inline def verdict1(m, e, c): return verdict(m, e, c.XlogPatternedSamplingStep1Ms, c.XlogPatternedSamplingStep2Ms, c.XlogPatternedSamplingStep3Ms, c.XlogPatternedSamplingStep1RatePct, c.XlogPatternedSamplingStep2RatePct, c.XlogPatternedSamplingStep3RatePct, c.XlogPatternedSamplingOverRatePct, c.XlogPatternedSamplingOnlyProfile)
inline def verdict2(m, e, c): return verdict(m, e, c.XlogPatterned2SamplingStep1Ms, c.XlogPatterned2SamplingStep2Ms, c.XlogPatterned2SamplingStep3Ms, c.XlogPatterned2SamplingStep1RatePct, c.XlogPatterned2SamplingStep2RatePct, c.XlogPatterned2SamplingStep3RatePct, c.XlogPatterned2SamplingOverRatePct, c.XlogPatterned2SamplingOnlyProfile)
inline def verdict3(m, e, c): return verdict(m, e, c.XlogPatterned3SamplingStep1Ms, c.XlogPatterned3SamplingStep2Ms, c.XlogPatterned3SamplingStep3Ms, c.XlogPatterned3SamplingStep1RatePct, c.XlogPatterned3SamplingStep2RatePct, c.XlogPatterned3SamplingStep3RatePct, c.XlogPatterned3SamplingOverRatePct, c.XlogPatterned3SamplingOnlyProfile)
inline def verdict4(m, e, c): return verdict(m, e, c.XlogSamplingStep1Ms, c.XlogSamplingStep2Ms, c.XlogSamplingStep3Ms, c.XlogSamplingStep1RatePct, c.XlogSamplingStep2RatePct, c.XlogSamplingStep3RatePct, c.XlogSamplingOverRatePct, c.XlogSamplingOnlyProfile)
# a matcher holds the patterns of a list
inline def holds(m, s): return pats(m.strMatches, s) and denoteall(m.strMatches)
inline def named(s, t): return s != "" and listmatch(s, t)
inline def samples(s): return nonnil(s) and holds(s.excludeSamplingPatternMatcher, s.currentExcludeSamplingPattern) and holds(s.discardPatternMatcher, s.currentDiscardServicePatterns) \
    and holds(s.samplingPatternMatcher, s.currentSamplingServicePatterns) and holds(s.sampling2PatternMatcher, s.currentSampling2ServicePatterns) and holds(s.sampling3PatternMatcher, s.currentSampling3ServicePatterns)
inline def synced(s, c): return s.currentExcludeSamplingPattern == c.XlogSamplingExcludePatterns and s.currentDiscardServicePatterns == c.XlogDiscardServicePatterns \
    and s.currentSamplingServicePatterns == c.XlogPatternedSamplingServicePatterns and s.currentSampling2ServicePatterns == c.XlogPatterned2SamplingServicePatterns and s.currentSampling3ServicePatterns == c.XlogPatterned3SamplingServicePatterns
inline def documentedall(c): return listdoc(c.XlogSamplingExcludePatterns) and listdoc(c.XlogDiscardServicePatterns) and listdoc(c.XlogPatternedSamplingServicePatterns) and listdoc(c.XlogPatterned2SamplingServicePatterns) and listdoc(c.XlogPatterned3SamplingServicePatterns)
inline def evaluated(e, name, c):
    return ite(c.XlogSamplingEnabled and named(c.XlogSamplingExcludePatterns, name), 1,
           ite(c.XlogPatternedSamplingEnabled and named(c.XlogPatternedSamplingServicePatterns, name), verdict1(1, e, c),
           ite(c.XlogPatterned2SamplingEnabled and named(c.XlogPatterned2SamplingServicePatterns, name), verdict2(1, e, c),
           ite(c.XlogPatterned3SamplingEnabled and named(c.XlogPatterned3SamplingServicePatterns, name), verdict3(1, e, c),
           ite(c.XlogSamplingEnabled, verdict4(1, e, c), 1)))))

func (*strace.XlogSampler).referToProfileMode(sampler, onlyProfile)
  for C09
  option helper
  returns ite(onlyProfile, 3, 2)

func (*strace.XlogSampler).samplingPatterned1(sampler, elapsed, discardMode)
  for C09
  option helper
  requires conf: nonnil(sac())
  modifies ghost("$draw"), ghost("$drawmax")
  ensures drawn: 0 <= draw() and draw() < 100 and gh("$drawmax") == 100
  returns _
  ensures decided: result == verdict1(discardMode, elapsed, sac())

func (*strace.XlogSampler).samplingPatterned2(sampler, elapsed, discardMode)
  for C09
  option helper
  requires conf: nonnil(sac())
  modifies ghost("$draw"), ghost("$drawmax")
  ensures drawn: 0 <= draw() and draw() < 100 and gh("$drawmax") == 100
  returns _
  ensures decided: result == verdict2(discardMode, elapsed, sac())

func (*strace.XlogSampler).samplingPatterned3(sampler, elapsed, discardMode)
  for C09
  option helper
  requires conf: nonnil(sac())
  modifies ghost("$draw"), ghost("$drawmax")
  ensures drawn: 0 <= draw() and draw() < 100 and gh("$drawmax") == 100
  returns _
  ensures decided: result == verdict3(discardMode, elapsed, sac())

func (*strace.XlogSampler).sampling4Elapsed(sampler, elapsed, discardMode)
  for C09
  option helper
  requires conf: nonnil(sac())
  modifies ghost("$draw"), ghost("$drawmax")
  ensures drawn: 0 <= draw() and draw() < 100 and gh("$drawmax") == 100
  returns _
  ensures decided: result == verdict4(discardMode, elapsed, sac())

func (*strace.XlogSampler).isExcludeSamplingServicePattern(sampler, serviceName)
  for C09
  option helper
  requires conf: nonnil(sac()) and nonnil(sampler)
  requires current: holds(sampler.excludeSamplingPatternMatcher, sac().XlogSamplingExcludePatterns)
  returns _
  ensures match: implies(listdoc(sac().XlogSamplingExcludePatterns), result == named(sac().XlogSamplingExcludePatterns, serviceName))

func (*strace.XlogSampler).isDiscardServicePattern(sampler, serviceName)
  for C09
  option helper
  requires conf: nonnil(sac()) and nonnil(sampler)
  requires current: holds(sampler.discardPatternMatcher, sac().XlogDiscardServicePatterns)
  returns _
  ensures match: implies(listdoc(sac().XlogDiscardServicePatterns), result == named(sac().XlogDiscardServicePatterns, serviceName))

func (*strace.XlogSampler).isSamplingServicePattern(sampler, serviceName)
  for C09
  option helper
  requires conf: nonnil(sac()) and nonnil(sampler)
  requires current: holds(sampler.samplingPatternMatcher, sac().XlogPatternedSamplingServicePatterns)
  returns _
  ensures match: implies(listdoc(sac().XlogPatternedSamplingServicePatterns), result == named(sac().XlogPatternedSamplingServicePatterns, serviceName))

func (*strace.XlogSampler).isSampling2ServicePattern(sampler, serviceName)
  for C09
  option helper
  requires conf: nonnil(sac()) and nonnil(sampler)
  requires current: holds(sampler.sampling2PatternMatcher, sac().XlogPatterned2SamplingServicePatterns)
  returns _
  ensures match: implies(listdoc(sac().XlogPatterned2SamplingServicePatterns), result == named(sac().XlogPatterned2SamplingServicePatterns, serviceName))

func (*strace.XlogSampler).isSampling3ServicePattern(sampler, serviceName)
  for C09
  option helper
  requires conf: nonnil(sac()) and nonnil(sampler)
  requires current: holds(sampler.sampling3PatternMatcher, sac().XlogPatterned3SamplingServicePatterns)
  returns _
  ensures match: implies(listdoc(sac().XlogPatterned3SamplingServicePatterns), result == named(sac().XlogPatterned3SamplingServicePatterns, serviceName))

func (*strace.XlogSampler).eEvaluateXLogDiscard(sampler, elapsed, serviceName)
  for C09
  requires conf: nonnil(sac()) and samples(sampler) and synced(sampler, sac())
  modifies ghost("$draw"), ghost("$drawmax")
  returns _
  ensures known: result == 1 or result == 2 or result == 3
  ensures drawn: gh("$draw") == old(gh("$draw")) or 0 <= draw() and draw() < 100 and gh("$drawmax") == 100
  ensures decided: implies(documentedall(sac()), result == evaluated(elapsed, serviceName, sac()))

func (*strace.XlogSampler).Run(sampler)
  for C09
  requires sampler: samples(sampler)
  ensures current: samples(sampler) and synced(sampler, glob("conf.configure"))
  modifies others("conf.Configure", "@")

func strace.GetXlogSampler()
  for C09
  requires conf: nonnil(sac())
  assumes started: implies(done("strace.xlogSamplerOnce"), samples(glob("strace.xlogSampler")) and synced(glob("strace.xlogSampler"), sac()))
  returns _
  ensures same: result == glob("strace.xlogSampler")
  case started
  when done("strace.xlogSamplerOnce")
  ensures current: samples(result) and synced(result, sac())
  case first
  when not done("strace.xlogSamplerOnce")
  assumes registry: nonnil(glob("conf.observers"))
  modifies glob("strace.xlogSampler"), mapof(glob("conf.observers"))
  ensures current: samples(result) and synced(result, sac())

func strace.findXLogDiscard(tctx, elapsed)
  for C09 C14
  option remember discard
  requires tctx: nonnil(tctx)
  assumes conf: nonnil(sac())
  assumes started: done("strace.xlogSamplerOnce") and samples(glob("strace.xlogSampler")) and synced(glob("strace.xlogSampler"), sac())
  modifies ghost("$draw"), ghost("$drawmax")
  returns _
  ensures known: result == 1 or result == 2 or result == 3 or result == 4
  ensures error: implies(tctx.Error != 0, result == 1)
  ensures drawn: gh("$draw") == old(gh("$draw")) or 0 <= draw() and draw() < 100 and gh("$drawmax") == 100
  ensures decided: implies(documentedall(sac()), result == ite(tctx.Error != 0, 1, ite(named(sac().XlogDiscardServicePatterns, tctx.ServiceName), 4, evaluated(elapsed, tctx.ServiceName, sac()))))
