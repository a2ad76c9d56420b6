devirt ziface.IMessage -> *zpack.Message
def same(a, b) = len(a) == len(b) and seqeq(a, 0, b, 0, len(b))
def cfg = glob("zconf.GlobalObject")
def be32(s, o) = s[o] * 2**24 + s[o+1] * 2**16 + s[o+2] * 2**8 + s[o+3]
def le32(s, o) = s[o+3] * 2**24 + s[o+2] * 2**16 + s[o+1] * 2**8 + s[o]

func (*zpack.DataPack).Pack (dp, msg) -> (out, err)
  property C01
  requires msg != nil and msg.pay != 0
  ensures[ok] err == nil
  ensures[len] len(out) == 8 + len(msg.Data)
  ensures[id] be32(out, 0) == msg.ID
  ensures[dlen] be32(out, 4) == msg.DataLen
  ensures[payload] seqeq(out, 8, msg.Data, 0, len(msg.Data))
  ensures[fresh] fresh(out)

func (*zpack.DataPackLtv).Pack (dp, msg) -> (out, err)
  property C01
  requires msg != nil and msg.pay != 0
  ensures[ok] err == nil
  ensures[len] len(out) == 8 + len(msg.Data)
  ensures[id] le32(out, 4) == msg.ID
  ensures[dlen] le32(out, 0) == msg.DataLen
  ensures[payload] seqeq(out, 8, msg.Data, 0, len(msg.Data))
  ensures[fresh] fresh(out)

func (*zpack.DataPack).Unpack (dp, bin) -> (m, err)
  property C01
  requires cfg != nil
  ensures[short] implies(len(bin) < 8, err != nil)
  ensures[toolarge] implies(len(bin) >= 8 and cfg.MaxPacketSize > 0 and be32(bin, 4) > cfg.MaxPacketSize, err != nil)
  ensures[ok] implies(len(bin) >= 8 and (cfg.MaxPacketSize == 0 or be32(bin, 4) <= cfg.MaxPacketSize), err == nil and m != nil and m.ID == be32(bin, 0) and m.DataLen == be32(bin, 4))
  ensures[nomsg] implies(err != nil, m == nil)

func (*zpack.DataPackLtv).Unpack (dp, bin) -> (m, err)
  property C01
  requires cfg != nil
  ensures[short] implies(len(bin) < 8, err != nil)
  ensures[toolarge] implies(len(bin) >= 8 and cfg.MaxPacketSize > 0 and le32(bin, 0) > cfg.MaxPacketSize, err != nil)
  ensures[ok] implies(len(bin) >= 8 and (cfg.MaxPacketSize == 0 or le32(bin, 0) <= cfg.MaxPacketSize), err == nil and m != nil and m.ID == le32(bin, 4) and m.DataLen == le32(bin, 0))
  ensures[nomsg] implies(err != nil, m == nil)

func (*zpack.DataPack).GetHeadLen (dp) -> (n)
  property C01
  ensures[headlen] n == 8

func (*zpack.DataPackLtv).GetHeadLen (dp) -> (n)
  property C01
  ensures[headlen] n == 8

func (*zpack.pack_factory).NewPack (f, kind) -> (dp)
  property C01
  ensures[tlv] implies(kind == "zinx_pack_tlv_big_endian", typeis(dp, "*zpack.DataPack"))
  ensures[ltv] implies(kind == "zinx_pack_ltv_little_endian", typeis(dp, "*zpack.DataPackLtv"))
  ensures[default] dp != nil

func zpack.NewMsgPackage (id, data) -> (m)
  property C01
  ensures[fields] m != nil and m.ID == id and m.DataLen == len(data) % 2**32
  ensures[data] same(m.Data, data) and same(m.rawData, data)

func zpack.NewMessage (n, data) -> (m)
  property C01
  ensures[fields] m != nil and m.DataLen == n and same(m.Data, data) and same(m.rawData, data)

func zpack.NewMessageByMsgId (id, n, data) -> (m)
  property C01
  ensures[fields] m != nil and m.ID == id and m.DataLen == n and same(m.Data, data) and same(m.rawData, data)

func (*zpack.Message).Init (m, id, data) -> ()
  property C01
  requires m != nil
  modifies m.ID, m.DataLen, m.Data, m.rawData
  ensures[fields] m.ID == id and m.DataLen == len(data) % 2**32 and same(m.Data, data) and same(m.rawData, data)

func (*zpack.Message).GetDataLen (m) -> (n)
  property C01
  requires m != nil
  ensures[get] n == m.DataLen

func (*zpack.Message).GetMsgID (m) -> (n)
  property C01
  requires m != nil
  ensures[get] n == m.ID

func (*zpack.Message).GetData (m) -> (d)
  property C01
  requires m != nil
  ensures[get] same(d, m.Data)

func (*zpack.Message).GetRawData (m) -> (d)
  property C01
  requires m != nil
  ensures[get] same(d, m.rawData)

func (*zpack.Message).SetDataLen (m, n) -> ()
  property C01
  requires m != nil
  modifies m.DataLen
  ensures[set] m.DataLen == n

func (*zpack.Message).SetMsgID (m, n) -> ()
  property C01
  requires m != nil
  modifies m.ID
  ensures[set] m.ID == n

func (*zpack.Message).SetData (m, d) -> ()
  property C01
  requires m != nil
  modifies m.Data
  ensures[set] same(m.Data, d)

lemma[tlv-roundtrip] C01 (i0, i1, i2, i3, j0, j1, j2, j3): 0 <= i0 < 256 and 0 <= i1 < 256 and 0 <= i2 < 256 and 0 <= i3 < 256 and 0 <= j0 < 256 and 0 <= j1 < 256 and 0 <= j2 < 256 and 0 <= j3 < 256 and i0 * 2**24 + i1 * 2**16 + i2 * 2**8 + i3 == j0 * 2**24 + j1 * 2**16 + j2 * 2**8 + j3 ==> i0 == j0 and i1 == j1 and i2 == j2 and i3 == j3
