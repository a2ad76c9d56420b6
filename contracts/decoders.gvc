# Protocol decoders: what is handed on for a complete frame, and what is dropped.
devirt ziface.IMessage -> *zpack.Message
iface ziface.IChain.GetIMessage (c) -> (m)
  trusted the chain's message is the message of the request it carries (a *zpack.Message), or none
  pure
  ensures m.pay == gh(c, "msg") and iff(m == nil, gh(c, "msg") == 0) and implies(m != nil, typeis(m, "*zpack.Message"))
iface ziface.IChain.ProceedWithIMessage (c, m, resp) -> (r)
  trusted calls the next interceptor; may do anything else
  event proceed(c, m, r.pay)
  modifies everything
  ensures r.tag == gh(c, "resptag")
iface ziface.IChain.Request (c) -> (r)
  trusted the chain's request; not used by the decoders
  pure

def msg(chain) = ptr(gh(chain, "msg"), "*zpack.Message")
def be4(T, p) = T[p] * 2**24 + T[p+1] * 2**16 + T[p+2] * 2**8 + T[p+3]
def le4(T, p) = T[p] + T[p+1] * 2**8 + T[p+2] * 2**16 + T[p+3] * 2**24
def one(chain, r) = ntrace() == 1 and ev(0, "proceed", chain, old(gh(chain, "msg")), r.pay) and r.tag == gh(chain, "resptag")
def frame(chain) = old(snap(msg(chain).Data))
def has(chain) = old(gh(chain, "msg")) != 0
def untouched(m, resp, chain) = resp == nil and m.pay == old(gh(chain, "msg")) and implies(has(chain), msg(chain).Data == old(msg(chain).Data) and msg(chain).ID == old(msg(chain).ID) and msg(chain).DataLen == old(msg(chain).DataLen) and seqeq(msg(chain).Data, 0, frame(chain), 0, len(frame(chain))))

func (*zdecoder.TLVDecoder).Intercept (d, chain) -> (r)
  property C04
  option noframe
  requires chain != nil and gh(chain, "msg") >= 0
  requires implies(gh(chain, "msg") != 0 and len(msg(chain).Data) >= 8, len(msg(chain).Data) == 8 + be4(msg(chain).Data, 4) and len(msg(chain).Data) < 2**32)
  ensures[one] one(chain, r)
  oncall[short-frame-unchanged] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(not has(chain) or len(frame(chain)) < 8, c == chain and untouched(m, resp, chain))
  oncall[tag] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, c == chain and m.pay == gh(chain, "msg") and m.ID == be4(frame(chain), 0))
  oncall[length] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, m.DataLen == be4(frame(chain), 4))
  oncall[value] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, len(m.Data) == be4(frame(chain), 4) and seqeq(m.Data, 0, frame(chain), 8, len(m.Data)))
  oncall[response] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, typeis(resp, "zdecoder.TLVDecoder") and cast(resp, "zdecoder.TLVDecoder").Tag == be4(frame(chain), 0) and cast(resp, "zdecoder.TLVDecoder").Length == be4(frame(chain), 4)
     and len(cast(resp, "zdecoder.TLVDecoder").Value) == be4(frame(chain), 4) and seqeq(cast(resp, "zdecoder.TLVDecoder").Value, 0, frame(chain), 8, be4(frame(chain), 4)))

func (*zdecoder.LTV_Little_Decoder).Intercept (d, chain) -> (r)
  property C04
  option noframe
  requires chain != nil and gh(chain, "msg") >= 0
  requires implies(gh(chain, "msg") != 0 and len(msg(chain).Data) >= 8, len(msg(chain).Data) == 8 + le4(msg(chain).Data, 0) and len(msg(chain).Data) < 2**32)
  ensures[one] one(chain, r)
  oncall[short-frame-unchanged] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(not has(chain) or len(frame(chain)) < 8, c == chain and untouched(m, resp, chain))
  oncall[tag] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, c == chain and m.pay == gh(chain, "msg") and m.ID == le4(frame(chain), 4))
  oncall[length] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, m.DataLen == le4(frame(chain), 0))
  oncall[value] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, len(m.Data) == le4(frame(chain), 0) and seqeq(m.Data, 0, frame(chain), 8, len(m.Data)))
  oncall[response] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 8, typeis(resp, "zdecoder.LTV_Little_Decoder") and cast(resp, "zdecoder.LTV_Little_Decoder").Tag == le4(frame(chain), 4) and cast(resp, "zdecoder.LTV_Little_Decoder").Length == le4(frame(chain), 0)
     and len(cast(resp, "zdecoder.LTV_Little_Decoder").Value) == le4(frame(chain), 0) and seqeq(cast(resp, "zdecoder.LTV_Little_Decoder").Value, 0, frame(chain), 8, le4(frame(chain), 0)))

def crcok(T) = T[len(T) - 2] == crclo(T, len(T) - 2) and T[len(T) - 1] == crchi(T, len(T) - 2)
func (*zdecoder.HtlvCrcDecoder).Intercept (d, chain) -> (r)
  property C04
  option noframe
  requires chain != nil and gh(chain, "msg") >= 0
  requires implies(gh(chain, "msg") != 0 and len(msg(chain).Data) >= 5, len(msg(chain).Data) == 5 + msg(chain).Data[2])
  ensures[bad-checksum-dropped] implies(has(chain) and len(frame(chain)) >= 5 and not crcok(frame(chain)), ntrace() == 0 and r == nil)
  ensures[one] implies(not has(chain) or len(frame(chain)) < 5 or crcok(frame(chain)), one(chain, r))
  oncall[short-frame-unchanged] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(not has(chain) or len(frame(chain)) < 5, c == chain and untouched(m, resp, chain))
  oncall[function-code] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 5, c == chain and m.pay == gh(chain, "msg") and m.ID == frame(chain)[1])
  oncall[frame-kept] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 5, m.Data == old(msg(chain).Data) and seqeq(m.Data, 0, frame(chain), 0, len(frame(chain))) and m.DataLen == old(msg(chain).DataLen))
  oncall[response] ziface.IChain.ProceedWithIMessage (c, m, resp): implies(has(chain) and len(frame(chain)) >= 5, typeis(resp, "zdecoder.HtlvCrcDecoder") and cast(resp, "zdecoder.HtlvCrcDecoder").Head == frame(chain)[0]
     and cast(resp, "zdecoder.HtlvCrcDecoder").Funcode == frame(chain)[1] and cast(resp, "zdecoder.HtlvCrcDecoder").Length == frame(chain)[2]
     and len(cast(resp, "zdecoder.HtlvCrcDecoder").Body) == frame(chain)[2] and seqeq(cast(resp, "zdecoder.HtlvCrcDecoder").Body, 0, frame(chain), 3, frame(chain)[2])
     and len(cast(resp, "zdecoder.HtlvCrcDecoder").Crc) == 2 and seqeq(cast(resp, "zdecoder.HtlvCrcDecoder").Crc, 0, frame(chain), len(frame(chain)) - 2, 2)
     and seqeq(cast(resp, "zdecoder.HtlvCrcDecoder").Data, 0, frame(chain), 0, len(frame(chain))) and len(cast(resp, "zdecoder.HtlvCrcDecoder").Data) == len(frame(chain)))

func (*zdecoder.TLVDecoder).GetLengthField (d) -> (f)
  property C04
  ensures[layout] f.LengthFieldOffset == 4 and f.LengthFieldLength == 4 and f.LengthAdjustment == 0 and f.InitialBytesToStrip == 0 and f.MaxFrameLength == 2**32 + 7
  ensures[order] f.Order == nil or typeis(f.Order, "encoding/binary.bigEndian")
func (*zdecoder.LTV_Little_Decoder).GetLengthField (d) -> (f)
  property C04
  ensures[layout] f.LengthFieldOffset == 0 and f.LengthFieldLength == 4 and f.LengthAdjustment == 4 and f.InitialBytesToStrip == 0 and f.MaxFrameLength == 2**32 + 7
  ensures[order] typeis(f.Order, "encoding/binary.littleEndian")
func (*zdecoder.HtlvCrcDecoder).GetLengthField (d) -> (f)
  property C04
  ensures[layout] f.LengthFieldOffset == 2 and f.LengthFieldLength == 1 and f.LengthAdjustment == 2 and f.InitialBytesToStrip == 0 and f.MaxFrameLength == 260
