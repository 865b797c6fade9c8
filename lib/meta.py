"""What each check runs for real and what it replaces."""
BUS_REAL = ["lamppost::bus (Bus, Publisher, Subscriber, ActionConsumer, ActionProvider)", "lamppost::messages (Message, Datagram)", "lamppost::Identifiable",
            "libstdc++ containers, strings, threads, condition variables, functions (compiled into the simulation, instrumented)"]
BASE_STUB = ["pthread scheduling, mutexes, condition variables, sleeping and all clocks: simulated scheduler and simulated time",
             "malloc/new: simulated arena with shadow state (dead memory, bounds, happens-before races) and injected failures"]
NET_STUB = ["libzmq: simulated sockets, contexts and network (connect, subscribe, queues, LINGER, loss, delay, reset, partition, stalled peers, failing and interrupted calls)"]
FS_STUB = ["stat/access/opendir/readdir/readlink/realpath/getcwd and file reads: simulated file system with failures, short and interrupted reads"]
DL_STUB = ["dlopen/dlsym/dlclose: simulated loader with handle accounting; the plugin code itself is real, linked in as a separate image with its own copy of the library's static data, as a plugin library has"]
SIG_STUB = ["signal/sigaction (SA_RESETHAND included): simulated delivery at arbitrary instants of any thread"]
OUT_STUB = ["std::cout: stream buffer that yields between characters and can fail"]
HOST_REAL = BUS_REAL + ["lamppost::LampPost, plugin::* (manager, templates, instances)", "settings, JSON and path helpers, log::Log", "platformspecific/xnix", "src/plugins/* (link, sysinfo)"]
NET_REAL = BUS_REAL + ["src/plugins/link, src/plugins/sysinfo where loaded", "messages::Message serialisation, FlatBuffers verifier"]

ASSUMPTIONS = [
    "g++'s -fsanitize=thread instrumentation reports every memory access of the code under test; memory orders weaker than sequential consistency are not explored",
    "sampling: a clean run is evidence, not proof",
    "the simulated libzmq, file system, loader and signals behave as their documentation says; the differences listed in DESIGN.md are not explored",
]
_bus = {"real": BUS_REAL, "stub": BASE_STUB}
_host = {"real": HOST_REAL, "stub": BASE_STUB + NET_STUB + FS_STUB + DL_STUB + OUT_STUB}
_net = {"real": NET_REAL, "stub": BASE_STUB + NET_STUB}
META = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"):
    META[p] = dict(_bus)
for p in ("C13", "C14", "C15"):
    META[p] = dict(_net)
for p in ("C16", "C17", "C18"):
    META[p] = dict(_host)
META["C19"] = {"real": HOST_REAL + ["src/main.cpp"], "stub": BASE_STUB + NET_STUB + FS_STUB + DL_STUB + SIG_STUB + OUT_STUB}
META["C20"] = {"real": ["lamppost::log::*"] , "stub": BASE_STUB + OUT_STUB}
META["C21"] = {"real": ["lamppost::Filesystem (compiled for this platform)", "libstdc++ strings and lists"], "stub": BASE_STUB + FS_STUB}
META["C26"] = {"real": NET_REAL + ["json-c (the system's library, allocating outside of the arena; its tokeners and objects are counted)"], "stub": BASE_STUB + NET_STUB}
META["C27"] = {"real": HOST_REAL + ["config/default_server.cfg, config/default_client.cfg (as text, through the simulated file system)"], "stub": BASE_STUB + NET_STUB + FS_STUB + DL_STUB + OUT_STUB}
