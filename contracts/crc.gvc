# CRC-16/MODBUS: crclo/crchi(s, n) are the low/high byte of the checksum register after the first n bytes of s
func zdecoder.GetCrC (buff) -> (out)
  property C05
  ensures[len] len(out) == 2
  ensures[low] out[0] == crclo(buff, len(buff))
  ensures[high] out[1] == crchi(buff, len(buff))
  ensures[fresh] fresh(out)
  template (a: uint16|uint8, b: uint16|uint8, i: int): a == crclo(buff, i) and b == crchi(buff, i)
  template (c: uint16, i: int): c == crchi(buff, i) * 256 + crclo(buff, i)
  template (i: int): 0 <= i <= len(buff)

func zdecoder.IsComplete (src, dst) -> (ok)
  property C05
  ensures[exact] iff(ok, len(src) == 2 and len(dst) == 2 and src[0] == dst[0] and src[1] == dst[1])

func zdecoder.CheckCRC (src, crc) -> (ok)
  property C05
  ensures[exact] iff(ok, len(crc) == 2 and crc[0] == crclo(src, len(src)) and crc[1] == crchi(src, len(src)))
