#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the committed file is its output).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=hook)))
CL="protocol/client.go"; SV="protocol/server.go"; GO="protocol/genout.go"; GE="protocol/gen.go"
FS="filesystem/filesystem.go"; NP="filesystem/ninep.go"; NU="filesystem/ninep_unix.go"; DB="pkg/debugfs/debug.go"

p("C01","Every RPC returns the server's reply to that very request",
 "However many callers share one client connection and in whatever order the server answers, every call returns exactly the result or the error the server sent in reply to that call's own request. Each call puts exactly one well-formed request on the wire, and every call whose reply arrives completes; a call whose arguments do not fit a message (a string or list longer than a 16-bit length can tell) fails without sending anything.",
 ["schedules","histories"],"all interleavings of concurrent callers with the client's own goroutines, all orders and delays in which a server may answer, with and without tracing",
 "The tests issue one call at a time against an in-order server; no two requests are ever outstanding together.",
 [CL,GO,GE],[("one reply channel per call, found through the tag table","client.go IO(), genout.go CallT*")],
 ["values returned by CallT*","bytes on the client's connection"],
 [dict(name="tag table",meaning="which call waits for which tag",where=CL)])
p("C02","Tags in flight are distinct, valid, and never leak",
 "At any instant all requests outstanding on a client connection carry distinct tags, none of them the reserved values 0 and NOTAG. A tag is available again once its request has been answered, by a result or by an error, so a connection never runs out of tags; when no tag is free a call waits for one and then proceeds.",
 ["schedules","histories"],"all interleavings and reply orders, every number of free tags down to one, every mix of successful and failing calls",
 "With 65534 tags and sequential calls the tests never reach tag exhaustion with more than one call outstanding, nor tag reuse racing a late reply.",
 [CL],[("pool of free tags; a tag goes back only after its reply was handed over","client.go NewClient, IO()")],
 ["tag fields of requests on the wire","completion of calls"])
p("C03","A lost connection fails calls promptly and never kills or hangs the program",
 "When the connection to the server breaks at any byte (end of stream, read error, write error, a reply cut short), every call in flight and every later call on that client returns an error after a bounded number of steps. The client never crashes or exits the program, never leaves a caller blocked, never reports a partly received reply as a result, and what it has sent by then is requests that callers made, the last perhaps cut short.",
 ["fault_sequences","schedules","crash_points"],"a break at every byte position of either direction, of every kind, in every interleaving with calls being issued and answered",
 "No test ever closes or breaks a connection.",
 [CL,GO],[("connection failure marks the client dead and releases waiters","client.go readNetPackets, IO()")],
 ["values returned by CallT*","process survival"])
p("C04","A misbehaving server cannot crash the client or corrupt calls",
 "Whatever messages the server sends (unknown, reserved or repeated tags, replies of the wrong type, bodies too short or too long, inner lengths beyond the message, impossible sizes), the client neither crashes nor hangs past the end of the connection, and a call whose reply does not decode exactly as the reply type of that call returns an error. A call never returns data that was not in its own reply.",
 ["inputs","fault_sequences","schedules"],"all ill-formed or unexpected server messages, interleaved arbitrarily with correct ones and concurrent calls",
 "The tests only ever talk to a correct server.",
 [CL,GO,GE],[("tag lookup and reply decoding","client.go IO(); genout.go Unmarshal*Pkt, CallT*")],
 ["values returned by CallT*","process survival"])
p("C05","FIDs handed out by a client are unique",
 "Within the lifetime of one client no two requests for a new fid, from any number of concurrent callers, are given the same fid.",
 ["schedules"],"all interleavings of concurrent callers asking for fids, alone or while calls run",
 "No test asks for two fids, let alone concurrently.",
 [CL],[("atomic counter","client.go GetFID")],["values returned by GetFID"])
p("C06","Fragmentation of the byte stream is invisible",
 "How the network splits or merges the byte stream has no observable effect: for every chunking of the bytes read, down to single bytes, in either direction, the server executes the same requests and gives the same replies, and client calls return the same results, as when every message arrives whole.",
 ["inputs","schedules"],"all chunkings of both directions of all connections, for all message sequences",
 "The tests run over net.Pipe, which hands over each message header whole.",
 [SV,CL],[("reading of fixed-size header and sized body","server.go serve, client.go readNetPackets")],
 ["replies on the wire","operations the file server sees","values returned by CallT*"])
p("C07","Exactly one correctly tagged reply per request",
 "For every complete request received on a connection, including pipelined requests and unsupported or unknown message types, the server sends exactly one complete, well-formed reply carrying that request's tag and either the matching reply type or an error, however long the operation's results or error text are, and it sends nothing else; the reply waits for nothing further from the client, and comes also when the client has ended its own direction. A supported request invokes the file server's operation exactly once, in the order of arrival.",
 ["histories","inputs","schedules"],"all pipelined request sequences over any number of connections, all outcomes of the file server's operations",
 "The tests send one request at a time and never pipeline, and no test sends an unsupported type.",
 [SV,GO,GE],[("read-dispatch-write loop","server.go serve, Dispatch; genout.go SrvR*")],
 ["replies on the wire","operations the file server sees"])
p("C08","Malformed or cut-off requests are never executed and never crash the server",
 "A request that is cut off by the end of the connection, or whose body does not decode exactly as its message type (too short, too long, inner lengths beyond the message, impossible size), never reaches the file server's operations, not even with partly decoded arguments. It is answered with an error or ends its own connection; the server process never crashes and other connections are served on.",
 ["inputs","fault_sequences","crash_points"],"all corruptions of requests and all cut points of the incoming stream, interleaved with correct requests on the same and other connections",
 "The tests send only well-formed, complete requests.",
 [SV,GO,GE],[("size check on the frame and decode errors in the generated decoders","server.go serve; genout.go Unmarshal*Pkt, SrvR*")],
 ["operations the file server sees","replies on the wire","process survival"])
p("C09","No request is executed before version negotiation",
 "On every connection, until a version request has been received on that same connection, every other request is answered with an error carrying its tag and has no effect on the file server. Once a version request has been received the session's requests are dispatched normally.",
 ["histories","schedules"],"all request sequences before and after the version request, on any number of interleaved connections",
 "One test sends a single attach before version on a single connection.",
 [SV],[("per-connection version flag checked before dispatch","server.go Dispatch")],
 ["replies on the wire","operations the file server sees"])
p("C10","Connections are isolated from each other",
 "Every accepted connection is its own session: fids established on one connection mean nothing on another, whatever their numbers. A connection that breaks, stalls, stops reading or sends garbage never delays, alters or ends the service of any other connection or the acceptance of new ones.",
 ["schedules","fault_sequences","histories"],"all interleavings of any number of connections, with faults on any subset of them",
 "The tests use a single connection per server.",
 [SV,FS],[("one file server and one goroutine per connection","server.go newConn, Accept, serve; filesystem.go NewUFS")],
 ["replies on each connection"])
p("C11","The accept loop survives temporary errors and obeys shutdown",
 "A temporary accept error never ends serving: the accept is retried after a delay that grows from milliseconds to at most one second and starts over after a success, and every connection that arrives is served. A permanent accept error ends serving and is returned to the caller; shutdown closes every listener being served, so that every serve call returns, while connections already accepted continue to be served.",
 ["fault_sequences","schedules"],"all sequences of temporary and permanent accept errors, arrivals and shutdowns, with any number of listeners",
 "No test calls Serve or Shutdown.",
 [SV],[("retry loop with back-off, listener tracking under a lock","server.go Serve, trackListener, Shutdown, closeListenersLocked")],
 ["return of Serve and Shutdown","accept calls and their times on the injected listener","service of accepted connections"])
p("C12","Calls carry arguments and results unchanged end to end",
 "For every kind of call, the file server's operation receives exactly the arguments the client was given (every integer value, empty strings and strings of up to 65535 bytes, name lists, binary data of any length; file attributes encoded for stat and wstat decode to the same values), and the caller receives exactly the results or the error text the operation returned (of a text longer than the 65535 bytes a message can carry, the beginning). This holds for all interleavings of calls and for every transport chunking.",
 ["inputs","schedules"],"all argument and result values of all twelve calls, under all schedules and chunkings",
 "The tests use a dozen fixed argument lists and ignore most results.",
 [GO,GE,CL,SV],[("generated marshalling on both sides","genout.go MarshalT*/UnmarshalT*/MarshalR*/UnmarshalR*, SrvR*, CallT*")],
 ["arguments seen by the file server's operations","values returned by CallT*"])
p("C13","Diagnostics never change behaviour",
 "Whether a trace function is installed on the client, on the listener, on both or on neither, and whether the debug wrapper is put around the file server, has no effect on what clients and file servers observe: the same operations with the same arguments, the same results and errors, the same progress.",
 ["configurations","schedules","inputs"],"all combinations of trace functions and debug wrapping, for all calls, outcomes and interleavings",
 "The tests always install both trace functions and never use the debug wrapper.",
 [CL,SV,DB,FS],[("trace calls guarded by nil checks; pass-through wrapper","client.go, server.go logf, debug.go")],
 ["arguments seen by the file server's operations","values returned by CallT*"])
p("C14","A fid names what it was last bound to until clunked or removed",
 "On a connection to the exported file system, a fid is usable exactly from the attach or full-length walk that bound it until it is clunked or removed, and all that time it stands for the file reached then (or the one created through it), unless that file or a directory above it is renamed or removed by other means. A remove gives up its fid even when it fails; apart from that a request that fails, and a walk that ends early, leaves every fid as it was; a fid in use cannot be bound again by attach or walk, nor opened twice; operations on one fid never affect another fid.",
 ["histories","fault_sequences","schedules"],"all request histories over any set of fids and connections, with failing system calls at any point",
 "The tests follow one fixed path with no partial walks, no reuse of fids in use, no clones of open fids, no I/O failures.",
 [FS],[("per-connection fid table","filesystem.go Rattach, Rwalk, Ropen, Rcreate, clunk, Rremove")],
 ["replies to requests naming the fid"],
 [dict(name="fid table",meaning="fid -> path and open file",where=FS)],"none: the os package is replaced by a simulated one at build time")
p("C15","Reads return exactly what was written",
 "Data read through the exported file system is byte for byte what the latest writes to that file left at the requested offset, by whichever fid or connection they were made; a write is acknowledged with the number of bytes actually stored and touches no other byte. A read returns at most the requested count and never more than fits the negotiated message size; when the disk fails the request fails, and wrong data is never returned.",
 ["histories","fault_sequences","schedules"],"all sequences of reads, writes, truncating opens and size changes at all offsets and counts, over all fids and connections, with disk errors, full disks and short transfers at any point",
 "The tests read one byte and never read back what they wrote; no disk error ever occurs.",
 [FS,NP],[("positioned reads and writes on the open file","filesystem.go Rread, Rwrite, Ropen; ninep.go modeToUnixFlags")],
 ["Rread and Rwrite replies","contents of the backing store"],None,"none: simulated os package")
p("C16","Directory reading lists every entry exactly once",
 "Reading an open directory from offset zero to the end returns whole, decodable entries, never more bytes than requested, in which every file present throughout appears exactly once and no file absent throughout appears, while other connections create and remove files and whatever read counts are used. Reading from offset zero again starts over; a count too small for the next entry never loses an entry, and a vanishing file never breaks the listing or the server.",
 ["schedules","histories","fault_sequences"],"all read counts, restarts and interleavings with creation and removal of entries by others",
 "One test lists one unchanging directory with a generous count and does not check the contents.",
 [FS,"filesystem/filesystem_unix.go"],[("one entry per read, overflow kept for the next","filesystem.go Rread, resetDir")],
 ["Rread replies on directory fids"],None,"none: simulated os package")
p("C17","Clients cannot name anything outside the exported root",
 "No attach, walk, create, rename or any other request, with whatever names (dot-dot, slashes, absolute names, empty names), in whatever sequence, makes the server look up, open, create, change or remove a path outside the directory tree it exports. Dot-dot from the root stays at the root. (Symbolic links that lie in the exported tree are the administrator's doing and not covered.)",
 ["inputs","histories"],"all names in all requests, in all sequences, for all export roots",
 "The tests export / and never use dot-dot.",
 [FS],[("path joining in attach, walk, create and rename","filesystem.go Rattach, Rwalk, Rcreate, Rwstat")],
 ["paths passed to the operating system"],None,"none: simulated os package records every path")
p("C18","Attribute changes do exactly what was asked",
 "A successful attribute-change request changes exactly the attributes given (permissions, name, length, modification time) to the values given, and leaves alone every attribute marked as not to be changed and every other file, except that a rename onto the name of an existing file replaces that file. A request that asks for a change of owner or group, or for a rename onto an existing directory, is refused and changes nothing, and after a rename the fid still stands for the renamed file.",
 ["inputs","histories","fault_sequences"],"all combinations of given and omitted attributes on files and directories, in all histories, with system calls failing at any point",
 "No test calls wstat on the file system.",
 [FS],[("wstat handling","filesystem.go Rwstat")],
 ["Rwstat replies","state of the backing store"],None,"none: simulated os package")
p("C19","Data synced through an attribute request survives a crash",
 "When the server answers a null attribute-change request (every attribute marked as not to be changed) on a fid open for writing with success, everything previously acknowledged as written through that fid (if an earlier such request for the file failed: since then) survives a crash of the machine at any later point. If the data could not be made durable, even once, the request is answered with an error.",
 ["crash_points","fault_sequences","histories"],"crashes at every point and sync failures, after all histories of writes and syncs on any number of files and connections",
 "The tests never sync, crash or fail a disk.",
 [FS],[("fsync when a wstat changes nothing","filesystem.go Rwstat")],
 ["contents of the backing store after a simulated crash"],None,"none: simulated os package with volatile page cache")
p("C20","File identity and attributes are reported truthfully",
 "The identity a client is given for a file (by attach, walk, open, create, stat and directory reading) is the same for the same file every time, differs between different files that exist together, tells directories from files, and changes version when the file's contents change (at least a millisecond apart, and the modification time not set by request). Stat and directory entries report the file's actual name, length, permissions, directory bit and modification time at that moment.",
 ["histories","schedules"],"all histories of creation, renaming, writing and attribute changes, on any number of connections",
 "The tests log these values without checking them.",
 [FS,NP,NU],[("conversion of file information to identity and directory entry","ninep.go, ninep_unix.go, filesystem.go stat, Rstat")],
 ["Rattach, Rwalk, Ropen, Rcreate, Rstat, Rread replies"],None,"none: simulated os package")
p("C21","Operating-system files are opened only by open fids and always closed",
 "At every moment the server holds exactly one open operating-system file for each fid a client has successfully opened and not yet clunked or removed. Failed requests hold none, and when a connection ends, however it ends, everything it held open is closed.",
 ["histories","fault_sequences","crash_points"],"all request histories, with failing requests and system calls and connection breaks at any byte",
 "The tests never count open files, reopen a fid, or end a connection.",
 [FS,SV],[("close on clunk and remove, release at the end of the connection","filesystem.go Ropen, Rcreate, clunk; server.go serve")],
 ["open files of the backing store"],None,"none: simulated os package counts open files")
p("C22","Create and remove change the tree exactly as answered",
 "A successful create leaves exactly one new or emptied file, or exactly one new directory, of the given name in the fid's directory with the requested permissions (less the umask of the server's process), and makes the fid stand for it; a successful remove takes away exactly the file the fid stood for. When either is answered with an error no file has been taken away or replaced by something else, and creating a directory where the name already exists is an error.",
 ["histories","fault_sequences","inputs"],"all create and remove requests over all trees and names, with system calls failing at any point",
 "The tests create one file and one directory under fresh names and remove them; nothing fails.",
 [FS],[("create, mkdir and remove","filesystem.go Rcreate, Rremove, stat")],
 ["replies","state of the backing store"],None,"none: simulated os package")
p("C23","The generated marshalling code is what the generator produces",
 "The checked-in marshalling code equals the output of the code generator for the message definitions.",
 ["programs"],"the message definitions",
 "No test runs the generator.",
 [GE,GO],[("code generation","gen.go main")],["generator output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
