#!/usr/bin/env python3
"""Writes properties.jsonl.  The single source of the property texts."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over.split(','), text=text), why_tests_cant=why,
             anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs: d['anchors']['observe_at'] = obs
    P.append(d)

p('C01', 'Packing and unpacking messages follows the documented wire format exactly',
  'For every message id and payload, packing a message produces exactly an 8-byte header followed by the payload bytes unchanged: the default format is id then length, both big-endian 32-bit, the legacy format is length then id, both little-endian. Unpacking a header returns exactly the id and length that were packed, refuses a header shorter than 8 bytes, and refuses a declared length above the configured packet-size limit (a limit of 0 means unlimited). Selecting a format by its documented name yields that format, and the message accessors return what was stored.',
  'inputs,configurations', 'all message ids, payloads of any length, header byte strings, packet-size limits',
  'the tests pack a handful of small messages; the byte layout has to hold for all 2^32 ids and all payload lengths',
  'zpack/datapack_tlv_bigendian.go zpack/datapack_ltv_littleendian.go zpack/message.go zpack/packfactory.go',
  [('field-by-field binary.Write/Read with a fixed byte order', 'zpack/datapack_tlv_bigendian.go'), ('packet-size check', 'zpack/datapack_ltv_littleendian.go:Unpack')],
  obs=['bytes returned by Pack', 'message and error returned by Unpack'])
p('C02', 'Reassembled frames do not depend on how the byte stream is split into reads',
  'For every length-field configuration and every byte stream of well-formed frames, feeding the stream to the frame decoder in any sequence of chunks delivers exactly the frames of the stream, each once, in order, with the configured number of leading bytes removed and every other byte unchanged. An incomplete trailing frame is kept, never delivered early and never lost. Delivered frames stay valid: later input never changes their bytes.',
  'inputs,histories,configurations', 'all length-field configurations (offset, width 1/2/3/4/8, adjustment, strip, byte order), all streams, all splits',
  'tests feed a few hex strings in a few splits; a boundary inside the length field or between two frames in one read has to work for every split',
  'zinterceptor/framedecoder.go', [('accumulate-and-slice loop', 'zinterceptor/framedecoder.go:Decode'), ('length-field parsing', 'zinterceptor/framedecoder.go:getUnadjustedFrameLength')],
  [('pending bytes', 'bytes received but not yet delivered', 'FrameDecoder.in')], ['slices returned by Decode'])
p('C03', 'Oversized or malformed frames are never delivered and never wedge the decoder',
  'A frame whose declared total length exceeds the configured maximum is never delivered: exactly its bytes are skipped, however they are split over reads, and the frames after it are decoded normally. A frame whose length field is negative, or smaller than its own header, or smaller than the number of bytes to strip is rejected by failing the decode call (which closes the connection), never by delivering data. Every decode call finishes, whatever bytes it is given.',
  'inputs,histories,configurations', 'all byte streams including adversarial ones, all splits, all length-field configurations',
  'no existing test sends an oversized, negative or too-short length; an attacker can send any bytes in any split',
  'zinterceptor/framedecoder.go', [('maximum-length check and discard mode', 'zinterceptor/framedecoder.go:decode'), ('failing on invalid lengths', 'zinterceptor/framedecoder.go:failOnNegativeLengthField')],
  [('discard mode', 'how many bytes of an oversized frame remain to be skipped', 'FrameDecoder.bytesToDiscard')])
p('C04', 'Protocol decoders extract exactly the documented fields and drop bad checksums',
  'For every complete frame the TLV, little-endian LTV and HTLV+CRC decoders hand the next stage a message whose id, data and length are exactly the documented fields of the frame, and a decoded value carrying the same fields. A HTLV frame whose checksum does not match is never passed on as a decoded message and never crashes the connection; data shorter than a header is passed on untouched. The length-field settings each decoder advertises make the frame decoder cut exactly its own frame format.',
  'inputs', 'all frames and all data byte strings', 'tests decode a few captured frames, all with valid checksums',
  'zdecoder/tlvdecoder.go zdecoder/ltvdecoder_little.go zdecoder/htlvcrcdecoder.go', [('field extraction', 'zdecoder/tlvdecoder.go:decode'), ('checksum check', 'zdecoder/htlvcrcdecoder.go:decode')],
  obs=['message id/data/length after Intercept', 'value passed to the next interceptor'])
p('C05', 'The checksum equals CRC-16/MODBUS for every input, and verification is exact',
  'For every byte string the computed two-byte checksum equals CRC-16/MODBUS of it (initial value 0xFFFF, reflected polynomial 0xA001), low byte first. Checksum verification accepts a pair of bytes if and only if it is that checksum; anything that is not exactly two bytes is rejected.',
  'inputs', 'all byte strings of any length, all candidate checksums', 'tests compute the checksum of a few inputs; one wrong entry among 512 table bytes shows only for specific inputs',
  'zdecoder/crc.go', [('two 256-entry tables and a byte loop', 'zdecoder/crc.go:GetCrC'), ('comparison', 'zdecoder/crc.go:IsComplete')])
p('C06', 'Interceptors run exactly once each, in order: head, added ones, then the tail',
  'For every request, executing the chain calls the head interceptor first, then every added interceptor in the order it was added, then the tail, each exactly once as long as each one proceeds; an interceptor that does not proceed stops the chain there. Each interceptor sees the request its predecessor proceeded with, and the response of the chain is what the interceptors return. Proceeding with a decoded value attaches that value to the request that the next interceptor sees.',
  'programs,histories', 'all numbers and orders of interceptor registrations, all interceptor behaviours', 'tests use one or two interceptors that always proceed',
  'zinterceptor/chain.go znet/chainbuilder.go', [('position index copied into the next chain', 'zinterceptor/chain.go:Proceed'), ('assembly head/body/tail', 'znet/chainbuilder.go:Execute')])
p('C07', 'A message reaches exactly the router registered for its id, with steps in order',
  'A request is handled by exactly the router registered for its message id: pre-handle, handle and post-handle run once each in that order on that request, aborting skips the remaining steps, and jumping to a step makes that step run next. A message id without a router runs no handler, a panicking handler neither runs later steps nor escapes the dispatcher, and registering a second router for an id is refused and leaves the first in place.',
  'inputs,programs,histories', 'all message ids, routing tables, handler behaviours (return, abort, jump, panic)', 'tests register a few routers that return normally',
  'znet/msghandler.go znet/request.go znet/server.go', [('routing map lookup', 'znet/msghandler.go:doMsgHandler'), ('step loop', 'znet/request.go:Call')])
p('C08', 'Function-style routes run global, group, then own handlers, in order, once each',
  'For a message id the handler list is exactly the global handlers registered so far, then the group handlers, then the handlers of the route, in registration order, and later registrations never change it. Handling a request runs that list in order, each handler once, whether handlers return or call next themselves; aborting prevents the handlers not yet started from running. Adding a route outside its group range, or twice for the same id, is refused.',
  'inputs,programs,histories', 'all registration sequences, all handler behaviours (return, call next, abort), any number of handlers', 'tests register a few handlers in one order',
  'znet/router.go znet/request.go', [('merged copy of handler lists', 'znet/router.go:AddHandler'), ('index-driven loop', 'znet/request.go:RouterSlicesNext')])
p('C09', 'Messages of a connection are handled by its worker, once each, in arrival order',
  'Every message the reader extracts is placed exactly once, in extraction order, on the queue of the worker assigned to its connection, carrying that connection and exactly the frame bytes. A worker handles every queued message exactly once in queue order, function tasks included, and a panicking handler loses only its own message and never stops the worker. Without a worker pool every message is still handled exactly once.',
  'schedules,histories,inputs', 'all message sequences, handler behaviours including panics, all interleavings of connections', 'tests check a few request/reply round trips with well-behaved handlers',
  'znet/msghandler.go znet/connection.go znet/ws_connection.go znet/kcp_connection.go', [('one FIFO channel per worker', 'znet/msghandler.go:SendMsgToTaskQueue'), ('worker loop with recovery', 'znet/msghandler.go:StartOneWorker')])
p('C10', 'Worker assignment stays in range and is exclusive where the mode promises it',
  'The worker assigned to a connection always has a started queue. In bind mode, and in dynamic-bind mode, no two connections that are open at the same time and were given a worker from the pool share it, and a worker is available again after its connection closed; in hash mode the worker is the connection id modulo the pool size. An extra worker started for a connection in dynamic mode is stopped exactly once, when that connection closes.',
  'schedules,histories,configurations', 'all interleavings of connection opens and closes, all pool sizes and connection limits, all modes', 'tests never open more connections than pool workers and never reuse a worker',
  'znet/msghandler.go', [('free sets under a mutex', 'znet/msghandler.go:useWorker'), ('return of the worker', 'znet/msghandler.go:freeWorker')],
  [('free workers', 'ids not assigned to any connection', 'MsgHandle.freeWorkers'), ('extra free workers', 'ids of temporary workers not in use', 'MsgHandle.extraFreeWorkers')])
p('C11', 'The connection manager is an exact registry of its connections',
  'After any sequence of additions and removals the manager finds exactly the connections added and not removed, by numeric and by string id, and reports their exact number and ids. Removing or adding one connection never affects another. Iteration visits every registered connection exactly once, and clearing stops every registered connection.',
  'histories,schedules,inputs', 'all sequences and interleavings of add/remove/lookup/iterate', 'tests add a few connections sequentially',
  'znet/connmanager.go zutils/shard_lock_map.go', [('sharded map keyed by the decimal id', 'znet/connmanager.go')])
p('C12', 'Closing a connection tears it down completely and exactly once',
  'When a started connection ends, for whatever reason, the stop hook runs once, its heartbeat is stopped, its socket is closed, it is removed from its manager, its close callbacks run and its worker is returned, and the start hook has run before any data was read. A reader that fails or panics closes its connection. After the teardown the connection reports closed.',
  'histories,fault_sequences,schedules', 'all ways a connection can end: peer close, read error, malformed data, local stop, heartbeat timeout', 'tests cover orderly closes only',
  'znet/connection.go znet/ws_connection.go znet/kcp_connection.go', [('cancellation then finalizer', 'znet/connection.go:Start'), ('deferred stop in the reader', 'znet/connection.go:StartReader')])
p('C13', 'A successful send writes exactly the packed frame; a closed connection refuses',
  'Sending a message on an open connection writes exactly the packed frame of that id and payload, once, as one transport write; a buffered send queues exactly that frame once, and queued frames are written in queue order. Sending on a closed connection returns an error and writes or queues nothing, as does a buffered send on a connection that is not started, and transport errors are reported to the caller. A frame is never split by another one.',
  'inputs,histories,fault_sequences', 'all ids and payloads, open/closed states, transport outcomes', 'tests send a few small messages over loopback',
  'znet/connection.go znet/ws_connection.go znet/kcp_connection.go', [('pack then write', 'znet/connection.go:SendMsg'), ('bounded queue and writer loop', 'znet/connection.go:SendToQueue')])
p('C14', 'Heartbeats: silent peers are reported, live ones pinged, settings inherited',
  'At every heartbeat check a connection whose last activity is older than the configured maximum, or that is closed, is reported through the configured not-alive action (by default it is stopped), and any other connection is sent the configured heartbeat message or function instead, never both. Every connection gets its own checker with the same interval, message, action and handlers as configured on the server, and receiving data refreshes the activity time. Configuring nil handlers or the reserved default id leaves the defaults.',
  'inputs,histories,schedules', 'all activity times, intervals, configurations', 'tests would need to wait for real timeouts; they check one configuration',
  'znet/heartbeat.go znet/connection.go znet/server.go zconf/zconf.go', [('liveness test', 'znet/connection.go:IsAlive'), ('check', 'znet/heartbeat.go:check'), ('per-connection clone', 'znet/heartbeat.go:Clone')])
p('C15', 'The sharded concurrent map behaves like one linearizable map',
  'Every operation of the sharded map (set, get, has, count, set-if-absent, multi-set, remove, conditional removal, pop, clear, iteration, keys, items, JSON) has exactly the effect of the same operation on a single map, for every key and every history. Operations on a key are atomic with respect to each other, including the ones that run a callback, and never touch other keys. No operation leaves a lock held, not even on early return.',
  'schedules,histories,inputs', 'all keys, all operation sequences and interleavings', 'tests use a few keys sequentially; shard selection and locking only matter under interleaving and colliding keys',
  'zutils/shard_lock_map.go', [('hash to shard, one RWMutex per shard', 'zutils/shard_lock_map.go')])
p('C16', 'Generated ids are unique and strictly increasing per generator',
  'Every id a generator hands out is larger than every id it handed out before, under any number of concurrent callers and whatever the clock does: same millisecond, sequence overflow, or clock moved backwards (then an error is returned and no id). Ids of generators with different worker numbers never collide, and an id encodes its time, worker and sequence in the documented bit fields. Worker numbers outside the valid range are refused.',
  'schedules,histories,fault_sequences', 'all interleavings of callers, all clock readings, all worker ids', 'tests draw a few ids; overflow within one millisecond and clock rollback are not reached',
  'zutils/snowflake_uuid.go', [('mutex, last timestamp and 12-bit sequence', 'zutils/snowflake_uuid.go:NextID')], [('last timestamp and sequence', 'the last id handed out', 'IDWorker')])
p('C17', 'Timers fire once, not early beyond the window, never after cancellation',
  'A timer added to the wheel is in exactly one slot of exactly one wheel until it is taken: turning a wheel never loses or duplicates a timer, and a timer is placed on the coarsest wheel whose tick is not longer than its remaining time, as many slots ahead as whole ticks remain (or, on the finest wheel, in the current slot, and in the next one when the wheel turns). A deadline beyond the representable time counts as the far future. Taking due timers returns exactly the timers of the current slot due within the window, each only once, and cancelling removes the timer from every wheel so that it is never returned afterwards. Timer ids are unique, and a panicking callback does not stop the scheduler.',
  'histories,schedules,inputs', 'all deadlines, clock readings, sequences of add/cancel/turn/take', 'tests wait for real time and only a few timers',
  'ztimer/timewheel.go ztimer/timerscheduler.go ztimer/timer.go ztimer/delayfunc.go', [('slot arithmetic', 'ztimer/timewheel.go:addTimer'), ('turning', 'ztimer/timewheel.go:run')])
p('C18', 'Async results complete exactly once on the owner worker; tasks run in order',
  'Once a result and a completion callback have both been set, in either order and from any goroutines, the callback is handed exactly once to the worker of the connection that owns the operation, and only then; later sets change nothing. Async operations with the same key run in submission order on one worker, each exactly once, and a panicking one does not stop the ones after it.',
  'schedules,histories', 'all interleavings of setting the result and the callback, all keys including negative ones', 'a test reaches one order of the two calls, not the race between them',
  'zasync_op/async_op_result.go zasync_op/async_worker.go zasync_op/async_op.go', [('compare-and-swap flags', 'zasync_op/async_op_result.go:doComplete'), ('one queue per key class', 'zasync_op/async_op.go:getCurWorker')])
p('C19', 'Close callbacks: each registered and not removed callback runs once, in order',
  'After any sequence of registrations and removals the callback list holds exactly the callbacks registered and not removed, in registration order; removal takes out exactly the first one registered under that owner and key and leaves the others. Invoking calls each of them exactly once in that order, and the count is exact. A nil callback is never registered.',
  'histories,programs', 'all sequences of add/remove/invoke, any handlers and keys', 'tests remove from the middle of short lists; removing the last or only element and adding afterwards is where links break',
  'znet/callbacks.go znet/connection.go', [('singly linked list with tail pointer', 'znet/callbacks.go')], [('list', 'first, last and next links', 'callbacks')])
p('C20', 'User configuration overrides exactly the fields it sets',
  'Merging a user configuration into the global one sets every documented field the user gave a non-empty value to exactly that value, and leaves every field the user left empty at its previous value. It changes nothing else, for every combination of set and unset fields; the log level and the KCP stream mode follow the user value directly. The heartbeat duration is the merged number of seconds.',
  'configurations,inputs', 'all configurations', 'tests merge one configuration; a swapped or forgotten field is only visible in the combination that sets it',
  'zconf/userconf.go zconf/zconf.go', [('field-wise conditional copy', 'zconf/userconf.go')])
p('C21', 'Area-of-interest queries return exactly the players in surrounding cells',
  'For every map geometry, the cell of a position inside the map is the cell whose bounds contain it (the strip left over when the size does not divide evenly belongs to the last column or row), and the surrounding cells of a cell are exactly the existing cells at distance at most one, each once, never wrapping around an edge. Players added to a cell and not removed are exactly the players reported for that cell, and a position query returns exactly the players of the surrounding cells.',
  'inputs,histories,configurations', 'all grid sizes, all cells, all positions, all add/remove histories', 'tests print the neighbours of one 5x5 grid',
  'zinx_app_demo/mmo_game/core/aoi.go zinx_app_demo/mmo_game/core/grid.go', [('index arithmetic with edge checks', 'zinx_app_demo/mmo_game/core/aoi.go:GetSurroundGrIDsByGID')])
p('C22', 'Requests never leak earlier state; copies are faithful and independent',
  'A request obtained for a connection and a message exposes exactly that connection and message, an empty context, no response, no router and the first step, whether it is newly made or recycled and whatever its previous user did with it. A copy carries the same message id, data, response and context values, cannot reach the connection or handlers of the original, and later changes to either context are invisible to the other. Context values read back what was last stored under the key.',
  'histories,schedules,configurations', 'all usage histories of recycled requests, pooled and unpooled mode', 'tests use each request once',
  'znet/request.go', [('reset on take', 'znet/request.go:Reset'), ('copy', 'znet/request.go:Copy')])
p('C23', 'Notifications reach exactly the registered connection, or all of them once',
  'Notifying an id sends exactly the given message once to the connection last registered under that id and to no other; an unregistered or deleted id gets an error and nothing is sent. Broadcasting sends the message once to every registered connection, and one failing connection does not prevent the others from receiving it. Registration, deletion, existence test and count are exact, and send errors are reported for single notifications.',
  'histories,fault_sequences,inputs', 'all registration histories, ids, send outcomes', 'tests notify a handful of fake connections that never fail',
  'znotify/notify.go', [('sharded map keyed by decimal id', 'znotify/notify.go')])
p('C24', 'A log line is written if and only if its level passes the configured threshold',
  'For every threshold and every levelled logging function (Debug to Fatal, plain and formatted, of a logger and of the package), a record is written once if its level is at or above the threshold and not at all otherwise, carrying its own level tag and the formatted message terminated by a newline. Panic and fatal records that pass the threshold panic or exit after being written. Concurrent records are never mixed within a line, and the header contains exactly the parts selected by the flags.',
  'inputs,configurations,schedules', 'all levels, thresholds, flag combinations, messages', 'tests print to the console and check nothing',
  'zlog/logger_core.go zlog/stdzlog.go', [('threshold comparison', 'zlog/logger_core.go:verifyLogIsolation'), ('output under a mutex', 'zlog/logger_core.go:OutPut')])
p('C25', 'Connection properties read back exactly what was last stored',
  'For each of the TCP, WebSocket and KCP connections, reading a property returns the value last set under that key, and an error if it was never set or was removed since. Setting or removing one key never affects another. Concurrent accesses are atomic and never leave the connection locked.',
  'histories,schedules', 'all sequences and interleavings of set/get/remove, all keys and values', 'tests set one property',
  'znet/connection.go znet/ws_connection.go znet/kcp_connection.go', [('map under a mutex', 'znet/connection.go:SetProperty')])
p('C26', 'Accept back-off grows to a bounded maximum and resets',
  'Each consecutive failed or refused accept doubles the waiting time starting from 5 ms, never exceeding one second and never waiting less than 5 ms, and a success resets it. For every history of failures and successes the next wait is exactly determined by the number of failures since the last success.',
  'histories', 'all sequences of failures and resets', 'the test checks the first few steps',
  'znet/acceptdelay.go', [('doubling with cap', 'znet/acceptdelay.go:Up')])
p('C27', 'Stopping a server or connection ends all of its goroutines',
  'After a server or a connection has been stopped, every goroutine it started eventually terminates. A stop call itself always returns.',
  'schedules,fault_sequences', 'all schedules and transport behaviours', 'liveness under all schedules cannot be sampled',
  'znet/server.go znet/connection.go', [('context cancellation', 'znet/connection.go:Stop')])
p('C28', 'Rotated log files never lose accepted records',
  'Every record accepted by the file logger is present in exactly one log file after rotation, retention clean-up and process crashes, except for files older than the retention limit.',
  'crash_points,histories', 'all crash points and rotation histories', 'tests never crash or rotate',
  'zutils/witer.go', [('rotation by size and date', 'zutils/witer.go')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
