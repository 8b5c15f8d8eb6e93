_O = json.load(open(os.path.join(HERE, "tools", "oracles.json")))
for _k, _v in _O.items():
    TECH[_k] = "runtime monitoring of generated histories on the real server: " + {
        "C16": "differential monitor (dumped and loaded against undisturbed)", "C19": "differential monitor (by reference against direct) and model of references",
        "C27": "differential monitor (after a history / beside another server against fresh)", "C28": "fault injection and mutation with state-invariance monitor",
        "C25": "round-trip and collision monitor over everything issued", "C01": "online exactly-once monitor with injected interleavings",
        "C14": "whole-state comparison with a model tree after every operation", "C17": "round-trip and alteration monitor",
    }.get(_k, "online reference-model monitor")
