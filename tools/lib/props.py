"""The properties: id -> slug used in the contracts, monitors of the simulator that witness it."""
P = {
    "C01": ("agreement", ["agreement", "write-quorum", "leader-recovery", "ballot-fencing", "log-sync", "accept-order", "decided-monotone", "promise-durability"]),
    "C02": ("promise-durability", ["promise-durability"]),
    "C03": ("ballot-fencing", ["ballot-fencing"]),
    "C04": ("accept-order", ["accept-order"]),
    "C05": ("decided-monotone", ["decided-monotone"]),
    "C06": ("write-quorum", ["write-quorum"]),
    "C07": ("leader-recovery", ["leader-recovery"]),
    "C08": ("log-sync", ["log-sync"]),
    "C09": ("quorum-config", ["quorum-config"]),
    "C10": ("leader-election", ["leader-election"]),
    "C11": ("read-correct", ["read-correct"]),
    "C12": ("compaction-safe", ["compaction-safe"]),
    "C13": ("reconfig-seal", ["reconfig-seal"]),
    "C14": ("restart-recovery", ["restart-recovery"]),
    "C15": ("storage-backends", ["storage-backends"]),
    "C16": ("batching", ["batching"]),
    "C17": ("unicache-roundtrip", ["unicache-roundtrip"]),
    "C18": ("no-panic", ["no-panic"]),
}
SLUG = {v[0]: k for k, v in P.items()}
