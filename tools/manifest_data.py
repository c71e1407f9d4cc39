CLAIMED = ["C%02d" % i for i in range(1, 34)]
ORC = "library endpoints through a fault-injecting, recording UDP proxy; "
TECH = {
 "C01": ORC + "history oracle (exactly once, order, content) plus raw peers compared with a reference receiver",
 "C02": ORC + "exactly-once oracle over self-describing messages, raw peer repeating and renumbering frames",
 "C03": ORC + "oracle over the sequenced messages received, raw peers choosing arrival order",
 "C04": ORC + "integrity and multiplicity oracle against the delivered datagram copies",
 "C05": "monitor of every datagram size at a raw peer over all kinds of MTU and message lengths",
 "C06": "monitor of flush() results against acknowledgements on the wire and messages at the peer, with withheld ACKs and closes",
 "C07": "online trace monitor of ACK/NACK datagrams against the datagrams delivered",
 "C08": "trace monitor of retransmissions at a raw peer that withholds, gives and asks for frames",
 "C09": "handshake fault injection: every datagram position dropped, repeated or delayed, monitored results of connect/accept",
 "C10": "monitored negotiation with raw clients and servers over versions",
 "C11": "hostile datagram workload with panic monitor and probes of the service",
 "C12": "hostile in-session workload with panic monitor, latency probes and a healthy neighbour connection",
 "C13": "many connections plus forged datagrams from other addresses, per-connection oracles",
 "C14": "stalled readers, full backlogs and slow acceptors with monitored progress of the others",
 "C15": "close scenarios under load and loss, monitored end of both sides",
 "C16": "listener close scenarios, monitored results and release of port and tasks",
 "C17": "resource monitor (runtime tasks, UDP descriptors) over drop scenarios",
 "C18": "timed liveness monitor with raw peers that stop or keep sending",
 "C19": "monitored pongs and ping() results against a reference codec and controlled delays",
 "C20": "multi-threaded stress with scheduling perturbation, panic monitor and conservation oracle over all tasks",
 "C21": "the C01-C04 oracles on connections started just before their counters wrap, and really long ones",
 "C22": "independent decoder as online monitor of every datagram, and a raw peer emitting every valid form",
 "C23": "monitored reconnects and repeated requests at random points of a connection's life",
 "C24": "the real proxy binary between library clients and server, history oracle and process monitor",
 "C25": "connections monitored while CLOCK_REALTIME, interposed in the harness process, is stepped",
 "C26": "losses counted per stage against binomial bounds at raw peers; history oracle between lossy ends",
 "C27": "fault injection into sendto, recvfrom and socket of chosen sockets, history oracles and probes of the service",
 "C28": "counting allocator read at quiescent points between rounds of equal history",
 "C29": "output of child processes with real traffic judged line by line per level, with failing outputs, and their history oracles",
 "C30": "exact accounting of every answer strangers' sockets get to mutated offline datagrams, and of accept()",
 "C32": "retransmission and acknowledgement timing monitor at raw peers that choose what is missing; delay statistics under loss",
 "C33": "duration medians on a clean network and full count of datagrams until after the end",
 "C31": "stall monitor on single-threaded runtimes, history oracles across runtimes, runtimes shut down under traffic",
}
B = "Held on every execution observed (seeded workloads, thread schedules perturbed, not enumerated). Trusts loopback UDP and the harness's own codec."
NOTE = {k: B for k in TECH}
NOTE["C09"] = "Each datagram of the handshake, by position and direction, is lost, repeated and delayed at least once, singly and in combination; schedules are sampled. " + "Trusts loopback UDP and the harness's own codec."
NOTE["C18"] = "Held on every execution observed, in real time against the 60 s limit, with slack for a loaded machine. Trusts loopback UDP and the clock."
NOTE["C21"] = B + " The counters' first values are set through the guarded hook; in the thorough tier 2^24 frames and datagrams are really sent as well."
HOOKS = {
 "guard": "cfg(rkv_hooks)",
 "enable": "RUSTFLAGS='--cfg rkv_hooks' (set by check.sh and setup.sh)",
 "source_commits": ["a2e17ef"],
}
