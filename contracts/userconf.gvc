# Merging a user configuration: one clause per documented field; the frame is exactly those fields of the global object.
func zlog.SetLogLevel (level)
  trusted
  note the logger's own settings are not part of this property
  modifies trace
func zlog.SetLogFile (dir, file)
  trusted
  modifies trace
func zlog.SetMaxAge (n)
  trusted
  modifies trace
func zlog.SetMaxSize (n)
  trusted
  modifies trace
func zlog.SetCons (b)
  trusted
  modifies trace
func zconf.UserConfToGlobal (u)
  property C20
  requires u != nil and glob("zconf.GlobalObject") != nil and u != glob("zconf.GlobalObject")
  modifies trace, glob("zconf.GlobalObject").Host, glob("zconf.GlobalObject").WsPath, glob("zconf.GlobalObject").Name, glob("zconf.GlobalObject").Version, glob("zconf.GlobalObject").WorkerMode, glob("zconf.GlobalObject").Mode, glob("zconf.GlobalObject").LogDir, glob("zconf.GlobalObject").LogFile, glob("zconf.GlobalObject").CertFile, glob("zconf.GlobalObject").PrivateKeyFile, glob("zconf.GlobalObject").TCPPort, glob("zconf.GlobalObject").WsPort, glob("zconf.GlobalObject").KcpPort, glob("zconf.GlobalObject").KcpNoDelay, glob("zconf.GlobalObject").KcpInterval, glob("zconf.GlobalObject").KcpResend, glob("zconf.GlobalObject").KcpNc, glob("zconf.GlobalObject").KcpSendWindow, glob("zconf.GlobalObject").KcpRecvWindow, glob("zconf.GlobalObject").KcpFecDataShards, glob("zconf.GlobalObject").KcpFecParityShards, glob("zconf.GlobalObject").MaxPacketSize, glob("zconf.GlobalObject").MaxConn, glob("zconf.GlobalObject").WorkerPoolSize, glob("zconf.GlobalObject").MaxWorkerTaskLen, glob("zconf.GlobalObject").MaxMsgChanLen, glob("zconf.GlobalObject").IOReadBuffSize, glob("zconf.GlobalObject").LogSaveDays, glob("zconf.GlobalObject").LogFileSize, glob("zconf.GlobalObject").HeartbeatMax, glob("zconf.GlobalObject").KcpACKNoDelay, glob("zconf.GlobalObject").RouterSlicesMode, glob("zconf.GlobalObject").RequestPoolMode, glob("zconf.GlobalObject").LogCons, glob("zconf.GlobalObject").LogIsolationLevel, glob("zconf.GlobalObject").KcpStreamMode
  ensures[Host] glob("zconf.GlobalObject").Host == (u.Host if u.Host != "" else old(glob("zconf.GlobalObject").Host))
  ensures[WsPath] glob("zconf.GlobalObject").WsPath == (u.WsPath if u.WsPath != "" else old(glob("zconf.GlobalObject").WsPath))
  ensures[Name] glob("zconf.GlobalObject").Name == (u.Name if u.Name != "" else old(glob("zconf.GlobalObject").Name))
  ensures[Version] glob("zconf.GlobalObject").Version == (u.Version if u.Version != "" else old(glob("zconf.GlobalObject").Version))
  ensures[WorkerMode] glob("zconf.GlobalObject").WorkerMode == (u.WorkerMode if u.WorkerMode != "" else old(glob("zconf.GlobalObject").WorkerMode))
  ensures[Mode] glob("zconf.GlobalObject").Mode == (u.Mode if u.Mode != "" else old(glob("zconf.GlobalObject").Mode))
  ensures[LogDir] glob("zconf.GlobalObject").LogDir == (u.LogDir if u.LogDir != "" else old(glob("zconf.GlobalObject").LogDir))
  ensures[LogFile] glob("zconf.GlobalObject").LogFile == (u.LogFile if u.LogFile != "" else old(glob("zconf.GlobalObject").LogFile))
  ensures[CertFile] glob("zconf.GlobalObject").CertFile == (u.CertFile if u.CertFile != "" else old(glob("zconf.GlobalObject").CertFile))
  ensures[PrivateKeyFile] glob("zconf.GlobalObject").PrivateKeyFile == (u.PrivateKeyFile if u.PrivateKeyFile != "" else old(glob("zconf.GlobalObject").PrivateKeyFile))
  ensures[TCPPort] glob("zconf.GlobalObject").TCPPort == (u.TCPPort if u.TCPPort != 0 else old(glob("zconf.GlobalObject").TCPPort))
  ensures[WsPort] glob("zconf.GlobalObject").WsPort == (u.WsPort if u.WsPort != 0 else old(glob("zconf.GlobalObject").WsPort))
  ensures[KcpPort] glob("zconf.GlobalObject").KcpPort == (u.KcpPort if u.KcpPort != 0 else old(glob("zconf.GlobalObject").KcpPort))
  ensures[KcpNoDelay] glob("zconf.GlobalObject").KcpNoDelay == (u.KcpNoDelay if u.KcpNoDelay != 0 else old(glob("zconf.GlobalObject").KcpNoDelay))
  ensures[KcpInterval] glob("zconf.GlobalObject").KcpInterval == (u.KcpInterval if u.KcpInterval != 0 else old(glob("zconf.GlobalObject").KcpInterval))
  ensures[KcpResend] glob("zconf.GlobalObject").KcpResend == (u.KcpResend if u.KcpResend != 0 else old(glob("zconf.GlobalObject").KcpResend))
  ensures[KcpNc] glob("zconf.GlobalObject").KcpNc == (u.KcpNc if u.KcpNc != 0 else old(glob("zconf.GlobalObject").KcpNc))
  ensures[KcpSendWindow] glob("zconf.GlobalObject").KcpSendWindow == (u.KcpSendWindow if u.KcpSendWindow != 0 else old(glob("zconf.GlobalObject").KcpSendWindow))
  ensures[KcpRecvWindow] glob("zconf.GlobalObject").KcpRecvWindow == (u.KcpRecvWindow if u.KcpRecvWindow != 0 else old(glob("zconf.GlobalObject").KcpRecvWindow))
  ensures[KcpFecDataShards] glob("zconf.GlobalObject").KcpFecDataShards == (u.KcpFecDataShards if u.KcpFecDataShards != 0 else old(glob("zconf.GlobalObject").KcpFecDataShards))
  ensures[KcpFecParityShards] glob("zconf.GlobalObject").KcpFecParityShards == (u.KcpFecParityShards if u.KcpFecParityShards != 0 else old(glob("zconf.GlobalObject").KcpFecParityShards))
  ensures[MaxPacketSize] glob("zconf.GlobalObject").MaxPacketSize == (u.MaxPacketSize if u.MaxPacketSize != 0 else old(glob("zconf.GlobalObject").MaxPacketSize))
  ensures[MaxConn] glob("zconf.GlobalObject").MaxConn == (u.MaxConn if u.MaxConn != 0 else old(glob("zconf.GlobalObject").MaxConn))
  ensures[WorkerPoolSize] glob("zconf.GlobalObject").WorkerPoolSize == (u.WorkerPoolSize if u.WorkerPoolSize != 0 else old(glob("zconf.GlobalObject").WorkerPoolSize))
  ensures[MaxWorkerTaskLen] glob("zconf.GlobalObject").MaxWorkerTaskLen == (u.MaxWorkerTaskLen if u.MaxWorkerTaskLen != 0 else old(glob("zconf.GlobalObject").MaxWorkerTaskLen))
  ensures[MaxMsgChanLen] glob("zconf.GlobalObject").MaxMsgChanLen == (u.MaxMsgChanLen if u.MaxMsgChanLen != 0 else old(glob("zconf.GlobalObject").MaxMsgChanLen))
  ensures[IOReadBuffSize] glob("zconf.GlobalObject").IOReadBuffSize == (u.IOReadBuffSize if u.IOReadBuffSize != 0 else old(glob("zconf.GlobalObject").IOReadBuffSize))
  ensures[LogSaveDays] glob("zconf.GlobalObject").LogSaveDays == (u.LogSaveDays if u.LogSaveDays != 0 else old(glob("zconf.GlobalObject").LogSaveDays))
  ensures[LogFileSize] glob("zconf.GlobalObject").LogFileSize == (u.LogFileSize if u.LogFileSize != 0 else old(glob("zconf.GlobalObject").LogFileSize))
  ensures[HeartbeatMax] glob("zconf.GlobalObject").HeartbeatMax == (u.HeartbeatMax if u.HeartbeatMax != 0 else old(glob("zconf.GlobalObject").HeartbeatMax))
  ensures[KcpACKNoDelay] glob("zconf.GlobalObject").KcpACKNoDelay == (u.KcpACKNoDelay or old(glob("zconf.GlobalObject").KcpACKNoDelay))
  ensures[RouterSlicesMode] glob("zconf.GlobalObject").RouterSlicesMode == (u.RouterSlicesMode or old(glob("zconf.GlobalObject").RouterSlicesMode))
  ensures[RequestPoolMode] glob("zconf.GlobalObject").RequestPoolMode == (u.RequestPoolMode or old(glob("zconf.GlobalObject").RequestPoolMode))
  ensures[LogCons] glob("zconf.GlobalObject").LogCons == (u.LogCons or old(glob("zconf.GlobalObject").LogCons))
  ensures[LogIsolationLevel] glob("zconf.GlobalObject").LogIsolationLevel == u.LogIsolationLevel
  ensures[KcpStreamMode] glob("zconf.GlobalObject").KcpStreamMode == u.KcpStreamMode
  ensures[same] glob("zconf.GlobalObject") == old(glob("zconf.GlobalObject"))
  oncall[level] zlog.SetLogLevel (level): level == u.LogIsolationLevel and level > 0
  oncall[file] zlog.SetLogFile (dir, file): file == u.LogFile and file != "" and dir == (u.LogDir if u.LogDir != "" else old(glob("zconf.GlobalObject").LogDir))
  oncall[age] zlog.SetMaxAge (n): n == u.LogSaveDays and n != 0
  oncall[size] zlog.SetMaxSize (n): n == u.LogFileSize and n != 0
  oncall[cons] zlog.SetCons (b): b and u.LogCons
func (*zconf.Config).HeartbeatMaxDuration (g) -> (d)
  property C20
  requires g != nil
  ensures[seconds] d == wrapint(g.HeartbeatMax * 1000000000)
