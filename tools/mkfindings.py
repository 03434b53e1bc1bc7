import subprocess
m={'4ce312d':('C01','TestDefect_StaleControlLength: a pong/ping without payload sent after one with payload kept the old length byte'),
'61d2dff':('C02','TestDefect_FlushRetry: a flush that failed on its context had already written the header and could not be retried'),
'3565ef7':('C05','TestDefect_WriteFailureDeadlock, TestDefect_BroadcastFailureCloses: a failed data write deadlocked on the write lock; a failed broadcast write left the connection open'),
'f546cb4':('C04','TestDefect_WriteAfterPartialFrame: the close frame was written into the middle of a partially written frame'),
'eec955e':('C13','TestDefect_CloseWithOpenWriter, TestDefect_PooledBufferAfterClose: closing finished the message of a writer in use (from another goroutine) and pooled its buffer'),
'a58597d':('C03','TestDefect_StaleWriterHandle: closing a writer twice ended the message of the next writer'),
'ab50f8c':('C03','TestDefect_SendJSONLeak, TestDefect_SendMessageCtx, TestDefect_AbortedFragmentedMessage: failed sends kept the writer reserved, or sent a truncated message as complete'),
'd646d8f':('C03','TestDefect_BroadcastInterleaves: a broadcast frame was written between the fragments of another message'),
'ffa2e5a':('C13','TestDefect_CloseWithFailingDeadline: a failing write deadline left the transport open'),
'46e3e66':('C24','the ping loop and the reader shared the control writer timer without a lock (data race)'),
'd32cced':('C28','TestDefect_PingLoopLeak: the ping goroutine of a closed connection never ended; its ticker was a data race'),
'96c34b8':('C25','TestDefect_HookReentrancy: a hook closing its connection deadlocked'),
'76b365c':('C13','TestDefect_ReplacedFlusher: a closed connection stayed in its flusher after batching was enabled again'),
'c556e25':('C19','TestDefect_TwoRooms: a connection in two rooms (or a room and a manager) left only one of them on close'),
'00dd1dc':('C19','TestDefect_RoomHooks: hooks ran for members added again and for non-members removed'),
'1264e09':('C19','TestDefect_RemoveAllNilHook: emptying a room without a leave hook panicked'),
'd221d24':('C19','TestDefect_AddClosedConn: a closed connection added to a room stayed in it'),
'2f541a4':('C20','TestDefect_BroadcastQueueRace: joins from several goroutines replaced the queue; members were visible before they had one'),
'a2b1e60':('C18','TestDefect_ReplacedConnEvictsNew: the close of a replaced connection unregistered its replacement'),
'43b85da':('C18','TestDefect_RegisterClosedConn: a closed connection stayed registered'),
'b158ea8':('C27','TestDefect_ManagerShutdown: shutdown deadlocked'),
'9aa4c4c':('C27','TestDefect_RoomShutdownHook: shutdown held the registry lock while hooks ran'),
'0faf80f':('C19','TestDefect_RoomCloseTwice: closing an old room dropped the newer room of the same key'),
'ee6fadc':('C20','TestDefect_BroadcastWaitOnClosed: a waiting broadcast blocked forever on a closed connection'),
'56062d6':('C20','TestDefect_BatchBroadcastNilCtx: nil context panicked'),
'903f849':('C09','TestDefect_NoMaxMessageSize, TestDefect_SizeOverflow, TestDefect_ControlFramesAndMessageLimit: -1 rejected everything, the total overflowed, the message limit applied to control frames'),
'990dbeb':('C09','TestDefect_MaxFragments: N+1 fragments were accepted'),
'8c020bc':('C08','TestDefect_ReadAfterMismatch, TestDefect_JSONTrailing: the rest of a partly read message was parsed as frame headers'),
'0758795':('C07','TestDefect_UnmaskWithError: bytes returned with an error stayed masked'),
'93a1970':('C21','TestDefect_BatchNilRace: the flusher could find a connection whose batch was still nil'),
'103d218':('C28','TestDefect_FailedHandshakeLeaks: a failed 101 write leaked the connection, its goroutine and registrations; pings could precede the 101'),
'7ef4b5f':('C23','TestDefect_LimiterLeakOnConnectClose: a connection closed by OnConnect stayed in the limiter; messages read before addClient were not limited'),
'7969460':('C15','TestDefect_SplitHeaderLines: only the first line of multi-line headers was considered'),
'9076957':('C17','TestDefect_SmallReadBuffer: control frames larger than the read buffer closed the connection'),
'd1a1edb':('C26','TestDefect_TinyWriteBuffer: write buffers of 14 bytes or less panicked or looped'),
'ae042b7':('C11','TestDefect_FastPong: a pong arriving before Ping returned was lost, stopping all later pings'),
'dd31b1f':('C14','TestDefect_PingFailureCloses: a fatal ping error left the connection open'),
'7264166':('C11','TestDefect_UnsolicitedPong: an unsolicited pong closed the connection'),
'3c2d357':('C14','TestDefect_LimiterErrorCloses: a fatal error from the limit hook left the connection open'),
'4fc6a33':('C21','TestDefect_BatchOrder: batches were sent by competing goroutines, out of order and above the size limit'),
'388a920':('C21','TestDefect_BatchWhileFlusherCloses: a message accepted while the flusher closed was never sent'),
'1eae631':('C06','TestDefect_HugeControlFrame: a control frame with a 64-bit length was answered with 1009 instead of 1002'),
'bbbe9a7':('C09','TestDefect_ReadAfterFatal: reading on after a fatal error delivered the message that was too large'),
'321b884':('C03','TestDefect_MessageAfterAbandonedOne: a message could start after one abandoned while the connection was closing')}
log=subprocess.run(['git','-C','/repo','log','--format=%h','--reverse','1ee6d84..'],capture_output=True,text=True).stdout.split()
with open('/verif/KNOWN_FINDINGS','w') as f:
    f.write('# Genuine defects of the base commit. "fixed:" entries suppress nothing; the tests named are in defects/defects_verif_test.go.\n')
    for h in log:
        if h[:7] in m: f.write('fixed: property=%s %s %s\n'%(m[h[:7]][0],h,m[h[:7]][1]))
        else: print('missing',h)
