NOTE = ("Random search with shrinking, not a proof: holds for the generated cases only. Trusts rapid, Go's testing/synctest "
        "(fake clock and quiescence detection), and the in-memory net.Conn of the harness. ")
def T(technique, note=""):
    return (technique, NOTE + note)
TECH = {
"C01": T("property-based testing: generated messages, options and stream splits against an independent frame codec (rapid + synctest)"),
"C02": T("stateful property-based testing: generated concurrent call histories and rogue response scripts, per-request tag oracle"),
"C03": T("property-based fault injection on a fake clock: generated calls x peer behaviour x loss point, exact completion-time oracle"),
"C04": T("property-based fault injection on a fake clock: exactly-once callback oracle over generated async-call scripts"),
"C05": T("property-based round-trip testing of replies, errors and argument checks"),
"C06": T("property-based testing of notification sequences: exactly-once / order / overlap oracle over the handler history"),
"C07": T("model-based testing of the bounded send queue with stalls on a fake clock"),
"C08": T("stateful property-based testing of stream histories against a per-direction FIFO+EOF model, with fault injection"),
"C09": T("property-based fault injection: scripted dial results and losses against a reconnect-schedule model on a fake clock"),
"C10": T("property-based fault injection: stop at generated instants; callback-count, closed-connection and goroutine-leak oracle"),
"C11": T("structured fuzzing of hostile byte streams with liveness probes on the same and other connections"),
"C12": T("model-based testing of generated route/middleware tables against a reference router"),
"C13": T("differential property-based testing: same workload with and without coder chains; round-trip of every coder"),
"C14": T("stateful model-based testing of connect/disconnect histories against a load-accounting model"),
"C15": T("property-based testing: exactly-once intact delivery oracle over generated broadcasts"),
"C16": T("stateful testing of the allocator against a shadow model, and differential pooled/unpooled workloads with content oracle"),
"C17": T("model-based testing of pool picks against a fairness/health oracle"),
"C18": T("stateful model-based testing of pub/sub histories against a membership model"),
"C19": T("stateful model-based testing of authentication and reconnect histories"),
"C20": T("model-based testing of arrival/departure histories on the split listener"),
"C21": T("property-based round-trip testing of byte streams over the real websocket and QUIC stacks"),
"C22": T("differential property-based testing: HTTP response body against the frame a connection would get"),
"C23": T("stateful model-based testing of service-manager histories over a fake network and clock"),
"C24": T("stateful testing of register/discovery against an in-process fake redis server with injected failures"),
"C25": T("metamorphic property-based testing: caller memory mutated after every call, contents compared with the value at call time"),
"C26": T("model-based testing of setter sequences and constructors against a plain-struct model"),
"C27": T("property-based testing of request/shutdown interleavings on a fake clock"),
"C28": T("property-based testing on a fake clock: exact deadline oracle for generated traffic patterns"),
"C29": T("property-based testing: the shipped arpc.js run in node against generated server scripts and an independent frame codec"),
"C30": T("model-based testing of level and logger histories against the expected output lines"),
"C31": T("property-based testing of generated operation histories: weak pointers to everything they were given or made, reachability after garbage collection as the oracle"),
"C33": T("property-based testing of connect/call/stop interleavings on a fake clock, with exact return-time and connection-state oracles"),
"C32": T("stateful testing of register/discovery against an in-process fake etcd gRPC server with injected failures and forced interleavings", "The fake etcd covers the part of the protocol that the library and etcd's client use; real time, with generous patience."),
}
