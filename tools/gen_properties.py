#!/usr/bin/env python3
# Generates properties.jsonl (one JSON object per line) from the readable table below.
import json, pathlib
S="EigenIPC/src/"; I="EigenIPC/include/EigenIPC/"; PB="EigenIPC/bindings/PyEigenIPC/"
SRV=S+"Server.cpp"; CLI=S+"Client.cpp"; MU=S+"MemUtils.hpp"; HLP=I+"Helpers.hpp"
STR=S+"StringTensor.cpp"; PRO=S+"Producer.cpp"; CON=S+"Consumer.cpp"; CV=S+"CondVar.cpp"; CFG=I+"SharedMemConfig.hpp"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("P01","Safe transfers are indivisible",
 "When several processes share one tensor through safe handles, every successful read or write, of the whole tensor or of a block, takes effect as a single step at some instant between its start and its end. No read ever mixes parts of different writes, and no read returns content older than a write that had already finished when the read began. This also holds when processes are stalled or killed in the middle of a transfer.",
 ["schedules","crash_points","histories"],"all interleavings of concurrent safe reads and writes by the server and any number of clients, and all points at which one of them can stall or die",
 "Two processes in a test overlap on a handful of timings; a torn or stale read needs one specific preemption between two element copies.",
 [SRV,CLI,MU],[("non-blocking acquisition of the data semaphore around each copy",CLI+" read/write and "+SRV+" read/write"),("block copy to and from the mapping",MU+" write/read")],"values returned by read()/write() of servers and clients")

prop("P02","Transfers land exactly where asked or change nothing",
 "For every element type, memory layout, tensor shape, block position and block size, including strided views, a successful write changes exactly the addressed block of the shared tensor and a successful read copies exactly the addressed block. A transfer that does not fit or is refused returns false and changes neither the shared tensor nor the caller's buffer, and no transfer touches memory outside the two.",
 ["inputs","histories","configurations"],"all element types, layouts, shapes, offsets (also negative and past the end), block sizes, plain and strided views, on server and client, in any order of operations",
 "The suite checks a few shapes written by one process; out-of-range and strided combinations, and the frame around a block, are never compared.",
 [MU,HLP,SRV,CLI],[("bounds check",HLP+" canFitTensor"),("block copy",MU+" write/read")],"return value of read()/write(), full content of the shared tensor and of the caller's buffer")

prop("P03","The manual data lock is exclusive",
 "After a handle has acquired a tensor's data lock and until it releases it, no other handle of that tensor acquires the lock and no other handle's safe transfer succeeds. Read-modify-write sequences done under the lock therefore never lose an update. This stays true when the server is stopped and started again, however often.",
 ["schedules","histories"],"all interleavings of acquire, release, safe transfers, stop and run by the server and any number of clients",
 "Lost updates need two holders at once, which needs particular stop/run histories or preemptions that a timed test does not produce.",
 [SRV,CLI,MU],[("acquire/release of the data semaphore",SRV+" dataSemAcquire/dataSemRelease, "+CLI+" dataSemAcquire/dataSemRelease"),("lock handed over by run()",SRV+" run/stop")],"order of acquire/release returns and the values of a shared counter updated under the lock")

prop("P04","Transfers never wait",
 "A read or write through any handle finishes within a bounded number of its own steps whatever the other processes are doing, even when the process that is using the tensor is stalled or dead. It then returns false without effect. A transfer that fits, on a running server or attached client, returns false only if some other party had the tensor locked at some moment during that call; a handle created as not safe does not use the lock, and its transfers succeed whoever holds it.",
 ["schedules","fault_sequences"],"all interleavings of transfers with lock holders that proceed, stall for arbitrarily long or die",
 "A test cannot stop another process between two instructions inside the lock, nor tell a bounded wait from an unbounded one.",
 [SRV,CLI,MU],[("one-shot semaphore acquisition",MU+" SemTryWait/acquireSemOneShot")],"number of steps and virtual time taken by read()/write(), and their result")

prop("P05","No call leaves the tensor locked behind",
 "Every call that takes a tensor's lock on its own (transfers, attach, detach, client count, creating and starting a server), including calls that are refused or fail with an error, has given it back when it returns or throws; a newly created server keeps it only until it is first started or closed. So once all calls have returned and nobody holds the lock manually, the next transfer succeeds and the next attach completes.",
 ["histories","schedules","fault_sequences"],"all sequences of successful, refused and failing calls by any number of processes, in all interleavings",
 "A leaked lock shows only in what happens after an unusual (failing, refused, interrupted) call; tests end there.",
 [SRV,CLI,MU],[("acquire/release pairing",SRV+" read/write/getNClients/run, "+CLI+" attach/detach/read/write")],"success of a probe transfer and a probe attach after the history")

prop("P06","One running server per name",
 "At most one server per name is in the running state at any moment, unless a forced take-over is requested. Creating or starting a second one without forcing fails with an error, and leaves the first server, its tensor content, its shape, its client count and its attached clients undisturbed.",
 ["schedules","histories"],"all interleavings of creation, start, stop and use of two or more servers for one name, with clients attached",
 "Uniqueness violations and collateral damage need servers racing between specific steps of creation and start.",
 [SRV,MU],[("server semaphore",SRV+" run/stop"),("acquisition in the constructor",SRV+" Server()"),("timed acquisition",MU+" acquireSemTimeout")],"isRunning() of every server, errors thrown, and the first server's content, count and clients afterwards")

prop("P07","Attach waits for the server and gets its tensor",
 "In whatever order server and clients start, attaching never returns before a server of that name has been started, and then gives the client that server's shape and content. Once a server is running and the lock is free, every waiting attach completes within bounded time, independently of wall-clock jumps and of how often the server was stopped, started or re-created before.",
 ["schedules","histories","configurations"],"all start orders and interleavings of server creation, start, stop, close and client attach, and all shapes",
 "Tests start the server first or sleep; the windows between publishing shape, flag and lock are a few instructions wide.",
 [CLI,SRV],[("waiting for the running flag",CLI+" _waitForServer"),("reading the published shape",CLI+" attach"),("publishing",SRV+" _initMetaMem/run")],"return of attach(), getNRows()/getNCols(), first reads")

prop("P08","Mismatched clients are refused without side effects",
 "Attaching with an element type or memory layout different from the server's fails with an error, for every pair of types and layouts, and a matching one is never refused. A refused attempt leaves the server, the other clients, the tensor content and the client count exactly as they were, and everyone can go on working.",
 ["configurations","schedules"],"all pairs of element type and layout, at any moment of a session with other clients active",
 "The suite tries matching types only; the effect of a refusal on other processes appears later and elsewhere.",
 [CLI,SRV],[("type and layout checks under the lock",CLI+" _checkDType/_checkMemLayout/attach"),("published type and layout",SRV+" _initMetaMem")],"exception of attach() and the following transfers and counts of the other handles")

prop("P09","The client count is exact",
 "The count a server reports equals the number of clients currently attached to it: each completed attach adds exactly one, each completed detach or close of an attached client removes exactly one. Refused, failed or repeated attaches, repeated detaches or closes, and clients of an earlier server of the same name never change it.",
 ["schedules","histories"],"all interleavings of attach, detach, close, re-attach and count queries by any number of clients",
 "Lost increments need two clients inside attach or detach at once at one instruction.",
 [CLI,SRV],[("counter updated under the data lock",CLI+" attach/detach"),("count query",SRV+" getNClients")],"getNClients() against the set of attached clients")

prop("P10","A killed server can always be replaced",
 "If a server process is killed at any point whatsoever (while being created, started, used, stopped or closed, with or without the lock), a new server for the same name created with forced reconnection comes up within a bounded number of steps, with its own shape and zeroed content. New clients can then attach to it and exchange data, and the leftovers of the dead server never show.",
 ["crash_points","histories"],"every instruction of the server's life at which it can be killed, repeatedly, with clients attached or waiting or killed too",
 "No test kills processes between two system calls; each such point leaves a different set of half-initialised names behind.",
 [SRV,MU,CLI],[("destroying and recreating semaphores",MU+" acquireSemTimeout"),("clearing old memory",MU+" checkMem")],"creation and start of the new server, getNClients(), attach and transfers of new clients")

prop("P11","A dying or stalled client harms nobody",
 "Killing or stalling a client at any point never makes another process crash, hang in a transfer or see content nobody wrote. If it held the lock when it died, the others' transfers keep returning false until the server is re-created with forced reconnection; otherwise they keep succeeding.",
 ["crash_points","fault_sequences","schedules"],"every instruction of a client's life (waiting, attaching, transferring, detaching, closing) at which it can be killed or stalled, with other processes active",
 "Needs a kill at a chosen instruction of one process while others are inside their own operations.",
 [CLI,MU],[("lock held only around copies and count updates",CLI+" attach/detach/read/write")],"results of the survivors' calls and content they read")

prop("P12","Resource shortages are reported, never half-done",
 "If the system refuses shared memory, a mapping, a semaphore, a descriptor or heap memory while a server, client, string tensor, producer or consumer is created, started or attached, the call fails with an error. It never crashes the process and never yields an object that pretends to work. Other processes of the session stay undisturbed, nothing stays locked, and a new attempt after the shortage works.",
 ["fault_sequences"],"every system call and allocation that can fail, singly and in combination, at every occurrence",
 "Tests cannot make the n-th system call fail.",
 [MU,SRV,CLI],[("error codes of memory and semaphore setup",MU+" initMem/semInit"),("turning codes into exceptions",SRV+" _initMetaMem/_initDataMem, "+CLI+" _initMetaMem/_initDataMem")],"exceptions thrown, subsequent transfers, probe sessions after the fault")

prop("P13","Every resource taken is given back exactly once",
 "Closing or destroying a server, client, string tensor, producer or consumer gives back every descriptor, mapping and semaphore handle it took, and never closes one it does not own, whatever was called before and whether or not it was ever attached or started. Any number of create/close or attach/detach cycles leaves the process's resources where they were. After a server's close none of its names remain that a later session could mistake for live.",
 ["histories","fault_sequences"],"all sequences of construction, attach, detach, re-attach, run, stop, close and destruction, with and without failures",
 "Leaks and foreign closes are invisible to value checks and need long or odd histories (never attached, attached twice, closed twice).",
 [MU,SRV,CLI,STR],[("closing descriptors and semaphores",MU+" cleanUpMem/semClose/checkMem"),("close paths",SRV+" _cleanMems/_closeSems, "+CLI+" _cleanMems/_closeSems")],"per-process descriptor, mapping and semaphore tables and the system-wide name space")

prop("P14","A new session starts clean and isolated",
 "When a server is closed and one is created again under the same name, with the same or another shape, clients that attach to it see exactly its shape, all-zero content until something is written, and a client count that starts at zero. Handles left over from the earlier session cannot alter the new session's content or count.",
 ["histories","schedules","configurations"],"all sequences of sessions under one name with any shapes, and old clients transferring, detaching, closing or dying at any moment of the new session",
 "Needs a second generation of server while processes of the first generation are still active.",
 [SRV,CLI,MU],[("unlinking old memory",MU+" checkMem/cleanUpMem"),("initialising published values",SRV+" _initMetaMem")],"shape, content and count seen through new handles")

prop("P15","Every trigger reaches every consumer exactly once",
 "With one producer and any number of consumers, where the producer triggers again only after all consumers have received the previous trigger, every trigger makes exactly one wait of every running consumer succeed, and no wait succeeds without a trigger of its own. A wait never sleeps through a trigger. A consumer that missed triggers gets an error, never a silent skip.",
 ["schedules","histories"],"all interleavings of trigger and wait, including triggers before, during and after the call to wait, spurious wake-ups and any number of consumers",
 "Lost wake-ups live in windows of a few instructions between checking and sleeping.",
 [PRO,CON,CV],[("counter under a named mutex and condition",PRO+" trigger, "+CON+" wait/_check_trigger_received"),("condition variable",CV+" wait/timedwait/notify_all")],"results of wait() against the number of triggers issued")

prop("P16","Acknowledgements are counted exactly once",
 "Every acknowledgement a consumer gives is counted exactly once, even when many are given at the same moment. Waiting for n acknowledgements succeeds only when n have been given since the last successful such wait, and when the n-th arrives a waiting producer is released within bounded time.",
 ["schedules","histories"],"all interleavings of any number of acknowledging consumers with a waiting, not yet waiting or timing-out producer",
 "Lost counts and lost wake-ups need two consumers or producer and consumer inside a few instructions.",
 [PRO,CON,CV],[("ack counter under the named mutex",CON+" ack/_acknowledge"),("waiting",PRO+" wait_ack_from/_check_ack_counter")],"results of wait_ack_from() against acknowledgements given")

prop("P17","Timed waits keep their deadline and lose nothing",
 "Waiting for a trigger or for acknowledgements with a timeout returns no earlier than the timeout unless the awaited event happened, and no later than the timeout plus a bounded overhead as long as no peer dies or is stalled inside a call, however many unrelated wake-ups occur. A trigger or acknowledgement that arrives around the deadline is not lost: either this wait or the next one reports it.",
 ["schedules","fault_sequences"],"all interleavings of timed waits with triggers, acknowledgements, partial acknowledgements and spurious wake-ups around the deadline",
 "Real clocks never hit the deadline and the event in the same microsecond, and overhead bounds drown in noise.",
 [PRO,CON,CV],[("timed waiting",CV+" timedwait/timedwait_for, "+CON+" _wait, "+PRO+" _wait")],"virtual time taken and result of wait()/wait_ack_from()")

prop("P18","Strings arrive whole and unchanged",
 "A string of up to 1024 non-zero bytes written at any valid index of a string tensor is read back byte for byte by every other process, and no other index changes. With safe handles a list of strings written in one call is read either entirely or not at all. A string that is too long, or an index or list that does not fit, is refused and changes nothing.",
 ["inputs","schedules","histories"],"all byte strings, lengths, indices and list sizes, and all interleavings of concurrent readers and writers",
 "Tests use a few short strings and one writer; length limits, odd bytes and torn lists are never reached.",
 [STR],[("encoding and decoding",STR+" _encode_str/_decode_str"),("range checks",STR+" _fits/write/read")],"strings returned by read() on any handle")

prop("P19","Stopping a server refuses its transfers and keeps the data",
 "A server that is not running refuses its own reads and writes without any effect. Stopping and starting it again, any number of times and with clients attached and active, keeps the tensor content, the client count and the attached clients working. A closed server stays closed: it does not report that it runs, refuses transfers, and an attempt to start it again fails with an error.",
 ["histories","schedules"],"all interleavings of stop, run, transfers, attach and detach",
 "Tests run each server once.",
 [SRV,CLI],[("running state",SRV+" run/stop/read/write/_checkIsRunning")],"results of transfers and content before, during and after the stop")

prop("P20","Differently named tensors never interact",
 "Tensors, string tensors and producer/consumer channels with different names or different namespaces never influence each other: no content, count, lock, running state or trigger of one is visible through the other, whatever their sessions do, including crashes and forced reconnection.",
 ["configurations","histories"],"all pairs of different names and namespaces and all concurrent sessions on them",
 "Tests use one name at a time.",
 [CFG,SRV,CLI],[("derivation of system-wide names",CFG+" SharedMemConfig")],"results on one name while sessions on the other run, stop, crash and force")

prop("P21","A signal never passes for the lock",
 "If a signal interrupts a call that waits for a tensor's lock, that call either completes normally or fails with an error and without any effect: the lock is not taken, the client count is unchanged, no other process is disturbed, and repeating the call works. A signal never terminates the process, not even while a handle is being destroyed.",
 ["fault_sequences","schedules"],"signals at every blocking point of acquire, attach, detach, count query, close and destruction, repeatedly",
 "Delivering a signal exactly while a process sleeps on the lock is not something a test can do reliably.",
 [MU,CLI,SRV],[("blocking acquisition and its error path",MU+" semBlockingWait/acquireSemBlocking"),("destruction",CLI+" ~Client/detach")],"exceptions, lock ownership and client count after interrupted calls")

prop("P22","Named condition variables lose no notification",
 "A process that checks its condition while holding the mutex and then waits is woken by every notification sent after it began waiting; it never sleeps through it. When a wait returns, the caller holds the mutex exclusively again; a timed wait reports a timeout only if its deadline has passed, and ends within a bounded time after it once the mutex is free, however often it was woken; waiting with a predicate returns true only if the predicate holds.",
 ["schedules","histories"],"all interleavings of any number of waiters and notifiers, notify-one and notify-all, spurious wake-ups and timeouts",
 "Lost notifications occur only between the release of the mutex and the sleep.",
 [CV],[("wait, timed wait, notify",CV+" wait/wait_for/timedwait/timedwait_for/notify_one/notify_all")],"values of a counter protected by the mutex and results of the waits")

prop("P23","Python views mirror the shared tensor",
 "Through the Python handles and the shared tensor view, in any order of synchronisations, reads and writes by several processes, a completed write to shared memory of any block is what other processes' completed reads return, for every supported element type and layout. A synchronisation that reports failure changes neither side, reads never block, and a view never shows content nobody wrote.",
 ["inputs","histories","schedules"],"all element types, layouts, shapes, blocks and interleavings of Python users sharing one tensor",
 "Python tests move one fixed matrix between two processes with sleeps in between.",
 [PB+"wrappers/shared_data_view.py",PB+"src/PyServer.cpp",PB+"src/PyClient.cpp"],[("view synchronisation",PB+"wrappers/shared_data_view.py SharedTWrapper"),("array conversion",PB+"src")],"numpy arrays obtained through the view")

prop("P24","Shared dictionaries are complete or not visible",
 "A client of a shared dictionary that has started sees exactly the server's keys in the server's order and the server's shape, whatever the start order, and for each key reads exactly the value last written for that key by a completed write, never a mix of keys.",
 ["schedules","histories","configurations"],"all start orders, key sets, value sequences and interleavings of a dictionary server and its clients",
 "The dictionary consists of several tensors published one after the other; tests start the server long before the client.",
 [PB+"wrappers/shared_tensor_dict.py"],[("publishing names, size and data",PB+"wrappers/shared_tensor_dict.py")],"keys and values returned to the dictionary client")

prop("P25","Result code sets combine and report faithfully",
 "Combining result codes keeps every code that was added, removing one removes only that one, resetting empties the set, and the textual description lists exactly the codes contained.",
 ["inputs"],"all combinations of result codes",
 "There are far more combinations than a test enumerates.",
 [I+"ReturnCodes.hpp"],[("set operations on codes",I+"ReturnCodes.hpp operator+/operator-/isin/getDescriptions")],"value of combined codes")

prop("P26","Python processes get the guarantees of the C++ classes",
 "Servers, clients, string tensors, producers and consumers created through the Python bindings keep every promise of their C++ counterparts, and Python and C++ processes can be mixed freely on the same objects: transfers of numpy blocks of any supported strides are atomic and never reach outside the block, arrays that cannot be transferred are refused without touching memory, and creation, attachment, replacement of a server, crashes, triggers, acknowledgements and failures of system calls have the same outcome whichever language the processes use.",
 ["schedules","fault_sequences","histories","inputs"],"all mixtures of Python and C++ processes, over the histories, schedules and faults of the other properties, and all numpy blocks",
 "Python tests run one fixed exchange between two processes; every binding is one more place where arguments, strides, results or exceptions can be lost.",
 [PB+"src/PyServer.cpp",PB+"src/PyClient.cpp",PB+"src/PyStringTensor.cpp",PB+"src/PyProducer.cpp",PB+"src/PyConsumer.cpp",PB+"src/PyEigenIPCUtils.hpp"],[("array conversion and checks",PB+"src/PyEigenIPCUtils.hpp CheckInputBuffer/ToEigenStrides"),("bindings",PB+"src")],"results, exceptions and numpy arrays of the Python calls, and the history of all processes")

prop("P27","The ROS bridge mirrors the shared tensor",
 "ToRos and FromRos carry a tensor or string tensor over topics to a mirror on the other side. FromRos reports running, and its shared memory server exists, only once the metadata of the publisher has arrived, whichever side starts first; the mirror then has the shape, type and strings length of the source. Everything a reader of the mirror reads is either the neutral initial fill or one complete content the source really had, never a mix, never another tensor's, and never older than what was shown before; and a write that was completed before an update of ToRos is visible, or superseded by a later one, once the topics were delivered and FromRos was updated. Calls of run and update report truthfully, may be repeated in any order, never hang and never throw, also when a publisher of another size takes over the topics: its messages are refused without any effect.",
 ["schedules","histories","fault_sequences","configurations"],"all start orders, interleavings of writes, updates and deliveries, delays, lost and repeated messages, link failures, restarts and crashes of either side, both ROS backends, all element types and shapes",
 "The ROS bridge has example scripts but no test; ROS is not installed where the tests run.",
 [PB+"extensions/ros_bridge/to_ros.py",PB+"extensions/ros_bridge/from_ros.py",PB+"extensions/ros_bridge/abstractions.py",PB+"extensions/ros_bridge/ros1_utils.py",PB+"extensions/ros_bridge/ros2_utils.py"],[("publishing side",PB+"extensions/ros_bridge/to_ros.py ToRos"),("receiving side",PB+"extensions/ros_bridge/from_ros.py FromRos"),("metadata and data callbacks",PB+"extensions/ros_bridge/abstractions.py RosSubscriber")],"values of run and update, shape and content read from the mirror by its clients")

prop("P28","A channel is used within its session only",
 "A producer or consumer that was not started, failed to start or was closed refuses to trigger, to wait and to acknowledge with an error and without effect, and a producer that was closed or replaced cannot be started again. Whatever is asked of such handles, or of handles of earlier sessions of the same name (also after the producer died or was replaced by force), a running session does not notice: its consumers can join and leave, each of its triggers is received and each of its acknowledgements counted. A new session starts without triggers and acknowledgements, only one producer can have the channel unless it is taken over by force, a failed start can be repeated and a consumer that was closed can join again.",
 ["histories","fault_sequences","schedules"],"all sequences of sessions of a channel with calls on handles in every state in between and at the same time, failing system calls and allocations while starting or joining, and death of producers and consumers",
 "Tests run one session of one producer in the right order.",
 [PRO,CON,CV,SRV,CLI],[("running state of both sides",PRO+" run/close/_check_running, "+CON+" run/close/_check_running"),("ownership of the condition variables' names",CV+" constructor/close"),("ownership of the counters",SRV+" run/close")],"results of run, trigger, wait, ack and wait_ack_from in every state, against the triggers and acknowledgements of the present session")

out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
