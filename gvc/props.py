"""Which contracts and which replay programs decide each property."""

PKGS = ["./zutils", "./zpack", "./zdecoder", "./zinterceptor", "./znet", "./zasync_op", "./zlog", "./zconf", "./ztimer", "./znotify",
        "./zinx_app_demo/mmo_game/core", "./ziface"]

TECH = "contract-based deductive verification of the real code (go/ssa -> verification conditions -> z3)"

PROPS = {
    "C01": dict(contracts=["pack.gvc"], replay=[dict(pkg="zpack", files=["c01_pack_test.go"],
                bound="structured + pseudo-random ids, payloads up to 70000 bytes, all limits 0..9")]),
    "C04": dict(contracts=["decoders.gvc", "crc.gvc"], replay=[dict(pkg="zdecoder", files=["c04_decoders_test.go"],
                bound="TLV/LTV values up to 70001 bytes, every HTLV body length with 6 corruptions each, all short lengths")]),
    "C05": dict(contracts=["crc.gvc"], replay=[dict(pkg="zdecoder", files=["c05_crc_test.go"],
                bound="all strings of up to 2 bytes, 4000 pseudo-random strings up to 300 bytes, lengths up to 100000")]),
    "C02": dict(contracts=["framedecoder.gvc"], replay=[dict(pkg="zinterceptor", files=["c02_frame_test.go"],
                bound="every header layout (1,2,3,4,8-byte fields, both orders), streams of up to 6 frames, all 2-splits and random splits")]),
    "C03": dict(contracts=["framedecoder.gvc"], replay=[dict(pkg="zinterceptor", files=["c02_frame_test.go"], env={"VERIF_BAD": "1"},
                bound="as C02 plus oversized and malformed headers")]),
    "C06": dict(contracts=["chain.gvc"], replay=[dict(pkg="znet", files=["c06_chain_test.go"],
                bound="chains of up to 9 interceptors, 4 behaviours each, several executions per builder with additions in between")]),
    "C11": dict(contracts=["shardmap.gvc", "connmgr.gvc"], replay=[dict(pkg="znet", files=["c11_connmgr_test.go"], race=True, timeout=200,
                bound="60 histories of 40 additions/removals over pools of 2, 12 and 200 ids; 8 concurrent users of their own ids")],
                gaps=["IterBuffered's goroutines are assumed to deliver every binding once (see C15); the companion runs them"]),
    "C23": dict(contracts=["shardmap.gvc", "notify.gvc"], replay=[dict(pkg="znotify", files=["c23_notify_test.go"], race=True, timeout=200,
                bound="60 histories of 60 operations over pools of 8 and 60 ids, 12 connections of which 4 fail; 8 concurrent users")]),
    "C15": dict(contracts=["shardmap.gvc"], replay=[dict(pkg="zutils", files=["c15_map_test.go"], race=True, timeout=200,
                bound="150 histories of 60 operations, 4 hash functions; 60 rounds of 8 concurrent users under the race detector")],
                gaps=["the goroutines behind IterBuffered and Keys (snapshot, fanIn) and the JSON encoding are assumed to deliver every binding once; the companion runs them",
                      "interference between the separate critical sections of one multi-key operation (MSet, Clear, Count, iteration) is not modelled"]),
    "C16": dict(contracts=["snowflake.gvc"], replay=[dict(pkg="zutils", files=["c16_snowflake_test.go"],
                bound="8 goroutines x 20000 ids, 3 worker numbers; constructor over -3..1027")]),
    "C19": dict(contracts=["callbacks.gvc"], replay=[dict(pkg="znet", files=["c19_callbacks_test.go"],
                bound="the list and the three transports, 1500 histories of 14 registrations/removals each")]),
    "C20": dict(contracts=["userconf.gvc"], replay=[dict(pkg="zconf", files=["c20_userconf_test.go"],
                bound="every single field alone, all but each single field, 4000 random combinations")]),
    "C21": dict(contracts=["aoi.gvc"], replay=[dict(pkg="zinx_app_demo/mmo_game/core", files=["c21_aoi_test.go"],
                bound="400 geometries of 1..36 cells (uneven divisions, negative coordinates), 40 operations each", always=True)],
                gaps=["GetPIDsByPos (the concatenation over the surrounding cells) is decided by the bounded companion only"]),
    "C07": dict(contracts=["router.gvc"], replay=[dict(pkg="znet", files=["c07_router_test.go"],
                bound="4000 dispatchers of 7 registrations, 6 messages each, 9 behaviours per step")]),
    "C08": dict(contracts=["routerslices.gvc"], replay=[dict(pkg="znet", files=["c08_slices_test.go"],
                bound="1500 histories of 14 registrations with a message after each, 7 behaviours per handler, up to 130 handlers at once")]),
    "C09": dict(contracts=["request.gvc", "time.gvc", "queue.gvc"], replay=[dict(pkg="znet", files=["c09_queue_test.go"], timeout=200,
                bound="48 connections (TCP pipe, websocket, KCP) x 20-80 frames cut at random, with and without pool, decoder, slices and request pool; 20 function tasks each")],
                gaps=["the order in which concurrent goroutines enter a queue is that of the channel (assumed FIFO)"]),
    "C14": dict(contracts=["request.gvc", "time.gvc", "queue.gvc", "heartbeat.gvc"], replay=[dict(pkg="znet", files=["c14_heartbeat_test.go"], timeout=200,
                bound="4000 random configurations x 6 checks; 300 silences; 120 live connections (TCP pipe, websocket) with intervals of 1-50 microseconds")],
                gaps=["how often the runtime's ticker ticks; data races on the activity time (read by the checker, written by the reader)"]),
    "C12": dict(contracts=["request.gvc", "time.gvc", "queue.gvc", "teardown.gvc"], replay=[dict(pkg="znet", files=["c12_teardown_test.go"], timeout=200,
                bound="300 connections (TCP pipe, websocket, KCP), 9 ways to end, with and without heartbeat and manager")],
                gaps=["a hook that never returns, and a socket whose Close or Read never returns, keep the connection open (liveness)",
                      "goroutines started by Start are verified in the schedule that runs them last, StartReader under its own contract"]),
    "C13": dict(contracts=["send.gvc"], replay=[dict(pkg="znet", files=["c13_send_test.go"], timeout=200,
                bound="80 connections (recording socket, websocket, KCP loopback), up to 4 concurrent senders x 10-30 messages of up to 23000 bytes, direct and buffered")],
                gaps=["interleavings of senders with Stop are exercised by the companion only; frames still queued when a connection closes are dropped by design"]),
    "C17": dict(contracts=["timer.gvc"], replay=[dict(pkg="ztimer", files=["c17_timer_test.go"], race=True, timeout=200,
                bound="60 histories of 60 additions, cancellations and takings on 1 to 3 wheels; 240 timers by 4 users on three turning wheels (20 ms ticks), a quarter cancelled, some panicking, some in the far future")],
                gaps=["the slot maps of different wheels are different objects (each wheel makes its own, which is proved of NewTimeWheel)",
                      "that an id is in no second slot, real time (how late a timer fires) and the scheduler's loops (Start, NewAutoExecTimerScheduler) are covered by the companion only"]),
    "C18": dict(contracts=["async.gvc"], replay=[dict(pkg="zasync_op", files=["c18_async_test.go"], timeout=200,
                bound="20000 results with up to 2 setters and 2 registrars in random order and at once; 15 keys (negative, extreme) x 200 operations x 6 rounds")],
                gaps=["the words hasReturnedObj, hasCompleteFunc and completeFuncHasAlreadyBeenCalled interleave at atomic operations only (sequential consistency of sync/atomic)"]),
    "C24": dict(contracts=["log.gvc"], replay=[dict(pkg="zlog", files=["c24_log_test.go"], race=True, always=True, timeout=200,
                bound="4000 random records over 7 thresholds x 10 functions x 64 flag combinations; caller lines; record times; 8 concurrent writers to console and file; 6 fatal calls in child processes")],
                gaps=["what fmt, runtime.Caller and time.Now return, and the log file writer (zutils.Writer), which is exercised by the companion only",
                      "Stack writes its dump whatever the threshold is: it has no level of its own and is outside the property"]),
    "C10": dict(contracts=["worker.gvc"], replay=[dict(pkg="znet", files=["c10_worker_test.go"], race=True, timeout=200,
                bound="150 histories of 40 openings/closings of up to 7 connections in 3 modes; 8 concurrent users")],
                gaps=["a connection beyond MaxConn in bind mode shares a worker by hash; what its closing does to the pool is outside the property"]),
    "C22": dict(contracts=["request.gvc"], replay=[dict(pkg="znet", files=["c22_request_test.go"], race=True, timeout=200,
                bound="3000 recycled requests with every kind of leftover, 20 context/copy operations each; 8 concurrent users")]),
    "C25": dict(contracts=["property.gvc"], replay=[dict(pkg="znet", files=["c25_property_test.go"],
                bound="3 transports x 400 histories of 30 operations, 8 concurrent users of their own keys")]),
    "C26": dict(contracts=["acceptdelay.gvc"], replay=[dict(pkg="znet", files=["c26_delay_test.go"],
                bound="2000 random histories of 40 failures/successes; the TCP and KCP accept loops at and below their limit; 4 histories of refused, unauthorised and failed websocket requests")],
                gaps=["the accept loops themselves (ListenTcpConn, ListenWebsocketConn, ListenKcpConn) are only exercised by the companion"]),
}

NOTE = ("Every obligation generated from the contracts of the listed functions (pre/postconditions, frames, loop and lock invariants, "
        "absence of panics) is discharged by z3 for all inputs and iterations, on the go/ssa form of /repo's current source. Assumed: the "
        "go/ssa builder, the condition generator gvc, the stated contracts of library functions (listed in the evidence). Integers have "
        "their Go width. Bounded companion programs run the real code for the glue not under contract; they are not counted as proved.")
NOTES = "One check per property; see DESIGN.md. Checks: bash check.sh <id> quick|thorough."
NA = {
    "C27": "Termination of goroutines under every schedule is a liveness property of the Go scheduler, blocking network reads and channels; "
           "partial-correctness contracts over sequential function bodies can neither express nor decide it.",
    "C28": "Durability across process crashes and external file clean-up depends on file-system state outside the program; no contract on the "
           "Go functions can express what survives a crash.",
}
