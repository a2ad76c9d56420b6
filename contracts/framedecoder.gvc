# FrameDecoder.Decode: cutting a byte stream into length-prefixed frames.
# T is the unconsumed input followed by the new bytes; positions are offsets into T.  A position beyond the end of T means
# that the bytes up to it still have to be skipped (bytesToDiscard).
def byte(T, p, k) = T[p + k]
def le2(T, p) = T[p] + T[p+1] * 2**8
def le3(T, p) = T[p] + T[p+1] * 2**8 + T[p+2] * 2**16
def le4(T, p) = T[p] + T[p+1] * 2**8 + T[p+2] * 2**16 + T[p+3] * 2**24
def le8(T, p) = le4(T, p) + le4(T, p+4) * 2**32
def be2(T, p) = T[p] * 2**8 + T[p+1]
def be3(T, p) = T[p] * 2**16 + T[p+1] * 2**8 + T[p+2]
def be4(T, p) = T[p] * 2**24 + T[p+1] * 2**16 + T[p+2] * 2**8 + T[p+3]
def be8(T, p) = be4(T, p) * 2**32 + be4(T, p+4)
def lef(T, q, n) = T[q] if n == 1 else (le2(T, q) if n == 2 else (le3(T, q) if n == 3 else (le4(T, q) if n == 4 else le8(T, q))))
def bef(T, q, n) = T[q] if n == 1 else (be2(T, q) if n == 2 else (be3(T, q) if n == 3 else (be4(T, q) if n == 4 else be8(T, q))))
def isle(d) = typeis(d.Order, "encoding/binary.littleEndian")
def isbe(d) = typeis(d.Order, "encoding/binary.bigEndian")
# declared length field, total frame length
def lfield(d, T, p) = named("lfield", T, d.LengthFieldOffset, d.LengthFieldLength, d.Order.tag, p, lfieldx(d, T, p))
def lfieldx(d, T, p) = lef(T, p + d.LengthFieldOffset, d.LengthFieldLength) if isle(d) else bef(T, p + d.LengthFieldOffset, d.LengthFieldLength)
def total(d, T, p) = lfield(d, T, p) + d.LengthAdjustment + d.LengthFieldOffset + d.LengthFieldLength
def header(d, T, p) = p + d.LengthFieldEndOffset <= len(T)
def sane(d, T, p) = lfield(d, T, p) < 2**63 and total(d, T, p) < 2**63 and total(d, T, p) >= d.LengthFieldEndOffset
def over(d, T, p) = sane(d, T, p) and total(d, T, p) > d.MaxFrameLength
def normal(d, T, p) = sane(d, T, p) and total(d, T, p) <= d.MaxFrameLength
def bad(d, T, p) = header(d, T, p) and not over(d, T, p) and (not sane(d, T, p) or d.InitialBytesToStrip > total(d, T, p))
def complete(d, T, p) = p + total(d, T, p) <= len(T)
def good(d, T, p) = normal(d, T, p) and complete(d, T, p) and d.InitialBytesToStrip <= total(d, T, p)
def config(d) = d.LengthFieldOffset >= 0 and d.LengthFieldOffset < 2**31 and d.LengthFieldEndOffset == d.LengthFieldOffset + d.LengthFieldLength
    and (d.LengthFieldLength == 1 or d.LengthFieldLength == 2 or d.LengthFieldLength == 3 or d.LengthFieldLength == 4 or d.LengthFieldLength == 8)
    and d.InitialBytesToStrip >= 0 and d.InitialBytesToStrip < 2**31 and -(2**31) < d.LengthAdjustment < 2**31 and (isle(d) or isbe(d))
def boundary(d, T, start, p) = frames(T, start, d.LengthFieldOffset, d.LengthFieldLength, d.LengthAdjustment, d.InitialBytesToStrip,
    d.MaxFrameLength, d.Order.tag, p, header(d, T, p), over(d, T, p), good(d, T, p), total(d, T, p))
def nframes(d, T, start, p) = framecnt(T, start, d.LengthFieldOffset, d.LengthFieldLength, d.LengthAdjustment, d.InitialBytesToStrip,
    d.MaxFrameLength, d.Order.tag, p)
def fstart(d, T, start, i) = framestart(T, start, d.LengthFieldOffset, d.LengthFieldLength, d.LengthAdjustment, d.InitialBytesToStrip,
    d.MaxFrameLength, d.Order.tag, i)
def stream(d, buff) = cat(old(snap(d.in)), old(snap(buff)))
def pos(d, buff) = len(stream(d, buff)) - len(d.in) + d.bytesToDiscard
def kept(d, buff) = len(d.in) <= len(stream(d, buff)) and seqeq(d.in, 0, stream(d, buff), len(stream(d, buff)) - len(d.in), len(d.in))
def totalof(d, T, p) = nameof("lfield", T, d.LengthFieldOffset, d.LengthFieldLength, d.Order.tag, p) + d.LengthAdjustment + d.LengthFieldOffset + d.LengthFieldLength
def isframe(d, T, start, x, i) = len(x) == totalof(d, T, fstart(d, T, start, i)) - d.InitialBytesToStrip
    and seqeq(x, 0, T, fstart(d, T, start, i) + d.InitialBytesToStrip, len(x))

func (*zinterceptor.FrameDecoder).getUnadjustedFrameLength (d, buf, offset, length, order) -> (n)
  property C02 C03
  option helper
  requires buf != nil and offset >= 0 and (length == 1 or length == 2 or length == 3 or length == 4 or length == 8) and offset < 2**32
  requires typeis(order, "encoding/binary.littleEndian") or typeis(order, "encoding/binary.bigEndian")
  requires 0 <= buf.off <= len(buf.buf) and offset + length <= len(buf.buf) - buf.off
  ensures[field] n == signed64(lef(buf.buf, buf.off + offset, length) if typeis(order, "encoding/binary.littleEndian") else bef(buf.buf, buf.off + offset, length))

def posof(d, T) = len(T) - len(d.in) + d.bytesToDiscard
func (*zinterceptor.FrameDecoder).decode (d, buf) -> (arr)
  property C02 C03
  option helper paths=60
  requires d != nil and config(d) and buf == d.in and buf.cap == d.in.cap and len(buf) < 2**47
  requires d.bytesToDiscard >= 0 and iff(d.discardingTooLongFrame, d.bytesToDiscard > 0)
  modifies d.in, d.bytesToDiscard, d.discardingTooLongFrame, d.tooLongFrameLength
  ensures[state] d.bytesToDiscard >= 0 and iff(d.discardingTooLongFrame, d.bytesToDiscard > 0) and implies(d.bytesToDiscard > 0, len(d.in) == 0)
  ensures[suffix] ref(d.in) == ref(buf) and len(d.in) <= len(buf) and d.in.off + len(d.in) == buf.off + len(buf) and d.in.off + d.in.cap == buf.off + buf.cap
  ensures[frame] implies(arr != nil, old(d.bytesToDiscard) <= len(buf) and header(d, old(snap(buf)), old(d.bytesToDiscard)) and good(d, old(snap(buf)), old(d.bytesToDiscard))
     and posof(d, buf) == old(d.bytesToDiscard) and d.bytesToDiscard == 0)
  ensures[bytes] implies(arr != nil, len(arr) == total(d, old(snap(buf)), old(d.bytesToDiscard)) - d.InitialBytesToStrip
     and seqeq(arr, 0, old(snap(buf)), old(d.bytesToDiscard) + d.InitialBytesToStrip, len(arr)))
  ensures[fresh] implies(arr != nil, fresh(arr))
  ensures[nothing] implies(arr == nil, (posof(d, buf) == old(d.bytesToDiscard) and implies(d.bytesToDiscard == 0, not header(d, old(snap(buf)), old(d.bytesToDiscard)) or (normal(d, old(snap(buf)), old(d.bytesToDiscard)) and not complete(d, old(snap(buf)), old(d.bytesToDiscard)))))
     or (header(d, old(snap(buf)), old(d.bytesToDiscard)) and over(d, old(snap(buf)), old(d.bytesToDiscard)) and posof(d, buf) == old(d.bytesToDiscard) + total(d, old(snap(buf)), old(d.bytesToDiscard))))
  onpanic[only-malformed] bad(d, old(snap(buf)), old(d.bytesToDiscard)) and posof(d, buf) == old(d.bytesToDiscard) and len(d.in) <= len(buf)

func (*zinterceptor.FrameDecoder).Decode (d, buff) -> (resp)
  property C02 C03
  option terminates paths=60
  requires d != nil and config(d) and ref(d.in) != ref(buff)
  requires len(d.in) + len(buff) < 2**47
  requires d.bytesToDiscard >= 0 and iff(d.discardingTooLongFrame, d.bytesToDiscard > 0) and implies(d.bytesToDiscard > 0, len(d.in) == 0)
  modifies d.in, d.bytesToDiscard, d.discardingTooLongFrame, d.tooLongFrameLength, elems(d.in)
  measure len(d.in)
  template[state] (): d.bytesToDiscard >= 0 and iff(d.discardingTooLongFrame, d.bytesToDiscard > 0)
  template[kept] (): kept(d, buff)
  template[boundary] (): boundary(d, stream(d, buff), old(d.bytesToDiscard), pos(d, buff))
  template[count] (r: [][]byte): boundary(d, stream(d, buff), old(d.bytesToDiscard), pos(d, buff)) and nframes(d, stream(d, buff), old(d.bytesToDiscard), pos(d, buff)) == len(r)
  template[frames] (r: [][]byte): forall(lambda i: implies(0 <= i < len(r), isframe(d, stream(d, buff), old(d.bytesToDiscard), r[i], i)))
  template[fresh] (r: [][]byte): forall(lambda i: implies(0 <= i < len(r), fresh(r[i]) and ref(r[i]) != ref(d.in)))
  template[same-in] (): ref(d.in) == entry(ref(d.in))
  template[in] (): fresh(d.in) or ref(d.in) == old(ref(d.in))
  ensures[boundary] boundary(d, stream(d, buff), old(d.bytesToDiscard), pos(d, buff))
  ensures[count] nframes(d, stream(d, buff), old(d.bytesToDiscard), pos(d, buff)) == len(resp)
  ensures[frames] forall(lambda i: implies(0 <= i < len(resp), isframe(d, stream(d, buff), old(d.bytesToDiscard), resp[i], i)))
  ensures[rest-kept] kept(d, buff)
  ensures[all-delivered] implies(d.bytesToDiscard == 0, not header(d, stream(d, buff), pos(d, buff)) or (normal(d, stream(d, buff), pos(d, buff)) and not complete(d, stream(d, buff), pos(d, buff))))
  ensures[state] d.bytesToDiscard >= 0 and iff(d.discardingTooLongFrame, d.bytesToDiscard > 0) and implies(d.bytesToDiscard > 0, len(d.in) == 0)
  ensures[independent] forall(lambda i: implies(0 <= i < len(resp), fresh(resp[i]) and ref(resp[i]) != ref(d.in)))
  ensures[own-buffer] fresh(d.in) or ref(d.in) == old(ref(d.in))
  onpanic[only-malformed] bad(d, stream(d, buff), pos(d, buff))

func zinterceptor.NewFrameDecoder (lf) -> (x)
  property C02 C03
  ensures[config] typeis(x, "*zinterceptor.FrameDecoder") and x.LengthFieldOffset == lf.LengthFieldOffset and x.LengthFieldLength == lf.LengthFieldLength
    and x.LengthAdjustment == lf.LengthAdjustment and x.InitialBytesToStrip == lf.InitialBytesToStrip and x.MaxFrameLength == lf.MaxFrameLength
  ensures[derived] x.LengthFieldEndOffset == wrapint(lf.LengthFieldOffset + lf.LengthFieldLength)
  ensures[order] implies(lf.Order == nil, typeis(x.Order, "encoding/binary.bigEndian")) and implies(lf.Order != nil, x.Order == lf.Order)
  ensures[initial] len(x.in) == 0 and x.bytesToDiscard == 0 and not x.discardingTooLongFrame and fresh(x)
