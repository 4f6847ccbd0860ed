#!/usr/bin/env python3
"""Writes known-findings.txt from the fix commits of /repo and the table below."""
import subprocess
T = [
 ('bound every Buffer read', ['C01', 'C02'], 'Buffer::operator>> read past the end of the message (scalars, byte and word vectors) when it was shorter than the value'),
 ('report failed sends', ['C11'], 'TCPSocket/UDPSocket/UDPBoundSocket ignored failing and partial sends'),
 ('return only the bytes', ['C11', 'C01', 'C02'], 'Receive() returned the whole requested length even if fewer bytes arrived; the rest was made-up zero bytes'),
 ('retry interrupted', ['C11'], 'recv/connect interrupted by a signal (EINTR) surfaced as failure or was mistaken for success'),
 ('report a receive timeout', ['C11'], 'a failing setsockopt(SO_RCVTIMEO) was ignored'),
 ('close the descriptor if configuring', ['C12'], 'the TCPSocket constructor leaked the descriptor when fcntl/connect/select failed'),
 ('forbid copying sockets', ['C12'], 'BaseSocket and its subclasses could be copied, the copy closed the same descriptor a second time'),
 ('wait for sockets', ['C22'], 'BaseSocket::select dereferenced max_element of an empty list, indexed fd_sets beyond FD_SETSIZE, failed on EINTR and could be kept busy forever by one socket'),
 ('let a begin-receive handler', ['C20', 'C22'], 'an unset begin-receive handler threw bad_function_call; one that replaced itself destroyed the running function object'),
 ('never throw from the destructor of a session', ['C13'], 'SessionInfo::~SessionInfo threw (std::terminate) if the connection was gone'),
 ('never throw from the destructor of a log', ['C13', 'C28'], 'Logger::~Logger threw with a throwing or missing appender'),
 ('order end points', ['C29', 'C21'], 'EndPoint::operator< was no strict weak order: two different end points could be equivalent and share one socket'),
 ('refuse strings longer', ['C03'], 'strings longer than the length field were encoded with a truncated length'),
 ('refuse data longer', ['C04', 'C05'], 'data longer than the 16-bit length field of its frame or item was sent with a truncated length'),
 ('throw if a common packet', ['C05', 'C02'], 'a common packet with fewer items than announced was accepted'),
 ('keep every id', ['C06'], 'EPath lost ids equal to zero or dropped the high byte of ids in 8-bit segments, expandPaddedPath kept stale ids'),
 ('check only ids', ['C06', 'C31'], 'Yaskawa_EPath::expandPaddedPath tested a word that 8-bit segments never set (introduced by 5fb7c10, found by C06)'),
 ('report too short explicit', ['C08', 'C14'], 'a too short explicit reply escaped as std::out_of_range (not std::runtime_error)'),
 ('report truncated connection-open', ['C02'], 'a truncated Forward Open reply produced a connection with zero ids'),
 ('report truncated identity', ['C02'], 'a truncated identity reply produced an identity of zeros'),
 ('report truncated parameter', ['C02'], 'a truncated parameter reply produced a parameter of zeros; typed reads past the value'),
 ('let a parameter created', ['C31'], 'ParameterObject(id, full) left its message router null; updateValue dereferenced it'),
 ('convert engineering', ['C26'], 'engToActual multiplied in int and overflowed (undefined behaviour)'),
 ('report truncated drive', ['C02'], 'truncated drive fault replies produced faults of zeros'),
 ('let a new-fault handler', ['C20'], 'a new-fault handler that replaced itself destroyed the running function object'),
 ('track connections by', ['C15', 'C16'], 'connection ids were truncated to 16 bits: two connections could collide'),
 ('measure the silence', ['C19'], 'the watchdog added truncated milliseconds and overflowed its limit: it fired late or never'),
 ('read the headers of consumed', ['C18'], 'run/idle header and sequence count of consumed data were read in the wrong order or from data that was not there'),
 ('discard malformed I/O', ['C21'], 'a malformed I/O datagram threw out of handleConnections'),
 ('let I/O listeners', ['C20'], 'an I/O listener that opened, closed or handled connections invalidated the iterators in use'),
 ('let a timed-out', ['C15'], 'forwardClose of a timed-out connection asserted / erased a connection that had taken its id'),
 ('refuse connection paths', ['C16'], 'connection paths of odd length or beyond 255 words and sizes beyond 65535 were truncated silently'),
 ('let network connection', ['C30'], 'NetworkConnectionParametersBuilder or-ed new fields into old ones; setRedundantOwner returned a copy'),
 ('report truncated file', ['C02'], 'truncated file object replies were accepted'),
 ('finish a file upload', ['C23'], 'an upload with a failing status never finished or finished twice'),
 ('refuse network connection parameters', ['C16'], 'forwardOpen truncated network connection parameters above 16 bits silently'),
 ('number produced data', ['C17'], 'a send listener that handled connections made sequence numbers go out in the wrong order'),
 ('do not send data of a connection closed', ['C19'], 'a connection closed (or timed out) while its send listener ran still sent data'),
 ('do not restart the connect timeout', ['C11'], 'a connect interrupted by signals waited the whole timeout again after each interruption and could never time out'),
 ('keep the error code of a failed receive', ['C11'], 'the code of a failed UDP receive was read after logging, which may overwrite it'),
 ('check the session handle of every reply', ['C09'], 'with session handle 0 granted by the device, replies of any other session were accepted'),
 ('skip malformed discovery', ['C32'], 'one malformed discovery reply aborted discovery or produced a bogus identity'),
]
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
out = ['# Genuine defects of nimbuscontrols/EIPScanner found by the checks.',
       '#   finding: property=<id> key=<key> <what fails>   recorded, not repaired; exactly that key is reported as KNOWN-FINDING',
       '#   fixed: property=<id> <commit> <what failed>     repaired; suppresses nothing']
used = set()
for key, ids, what in T:
    m = [(h, s) for h, s in log if s.startswith('fix: ' + key)]
    assert len(m) == 1, (key, m)
    used.add(m[0][0])
    out += [f'fixed: property={i} {m[0][0]} {what}' for i in ids]
print([l for l in log if l[0] not in used])
open('/verif/known-findings.txt', 'w').write('\n'.join(out) + '\n')
