"""Why properties are not claimed."""
NA = {
    "C17": "The WASI pass-through adds the memory's base to the guest's pointer and leaves every range check to the sandbox of the "
           "host runtime (documented design, as for C31): no construct in this source establishes the property, so a static check "
           "would report every host call. That the result pointers are not written on failure is claimed as C18.",
    "C29": "Equality of two whole executions (stopped and resumed against uninterrupted) quantifies over run-time histories; "
           "the parts that are decidable from the source (what is captured, how frames are rebuilt) are claimed as C11-C13.",
    "C30": "A bound on latency and idle cost is a quantity of running time and of the host; no static argument here bounds it. "
           "That every function polls at all is claimed as C14.",
    "C31": "The interpreter does not check linear memory bounds by documented design (mem.rs: the host runtime's sandbox is relied "
           "upon), so there is no construct in the source that establishes the property; it would be violated by every access.",
    "C32": "Agreement of whole executions across dispatchers and host runtimes depends on host runtimes outside the source; that "
           "each dispatcher runs every instruction as specified is claimed by the thorough tier of C01-C08.",
}
