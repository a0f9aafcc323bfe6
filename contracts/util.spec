# Text identifiers (C06): crc(b, n) is the bitwise IEEE CRC-32 register after n bytes, defined in gov/bv.py
func util.Hash(bytes)
  for C06 C13
  assumes len: length(bytes) <= 1000000000000
  invariant crc: crc == crc32(bytes, k)
  returns -1 - crc32(bytes)

func util.HashString(v)
  for C06 C13
  returns -1 - crc32(v)

# IPv4 text (C07): parts and their numbers as strings.Split and strconv.ParseUint define them
inline def octetok(ip, i): return uintok(splitpart(ip, ".", i), 10, 8)
inline def octet(ip, i): return uintval(splitpart(ip, ".", i), 10, 8)
inline def ipok(ip): return splitn(ip, ".") == 4 and octetok(ip, 0) and octetok(ip, 1) and octetok(ip, 2) and octetok(ip, 3)

func util.IpToBytes(ip)
  for C07
  ensures length: length(result0) == 4
  ensures valid: implies(ipok(ip), result0[0] == octet(ip, 0) and result0[1] == octet(ip, 1) and result0[2] == octet(ip, 2) and result0[3] == octet(ip, 3))
  ensures invalid: implies(not ipok(ip), result0[0] == 0 and result0[1] == 0 and result0[2] == 0 and result0[3] == 0)

func netdata.NewIp4Value(ip)
  for C07
  ensures length: nonnil(result0) and length(result0.Value) == 4
  ensures valid: implies(ipok(ip), result0.Value[0] == octet(ip, 0) and result0.Value[1] == octet(ip, 1) and result0.Value[2] == octet(ip, 2) and result0.Value[3] == octet(ip, 3))
  ensures invalid: implies(not ipok(ip), result0.Value[0] == 0 and result0.Value[1] == 0 and result0.Value[2] == 0 and result0.Value[3] == 0)
