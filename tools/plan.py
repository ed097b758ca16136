"""Which scenarios decide which property: (scenario, weight), runs of the quick check, and
the counters a run must have to count as non-trivial."""
LEVEL_RULE = "Each evaluation is one simulated deployment (several service nodes, workers, database, Redis, clients) run from one seed to quiescence, checked during the run and on its whole history."


def p(mix, runs=200, needs=(), cap=80):
    return {"mix": mix, "runs": runs, "needs": list(needs), "cap": cap}


PLAN = {
    "P01": p([("mixed", 2), ("mixed-calm", 1), ("spend", 1), ("queued", 1), ("holds", 1)], 450, ["txn_APPLIED"]),
    "P02": p([("mixed", 2), ("mixed-calm", 1), ("spend", 1), ("queued", 1), ("holds", 1), ("crashy", 1)], 450, ["txn_APPLIED"]),
    "P03": p([("dups", 3), ("dups-calm", 1), ("mixed", 1), ("crashy", 1)], 450, ["op_dup"]),
    "P04": p([("spend", 3), ("spend-calm", 2), ("queued", 1), ("mixed", 1)], 450, ["txn_APPLIED"]),
    "P05": p([("spend", 2), ("spend-calm", 2), ("reads", 2), ("reads-calm", 1)], 450, ["reads_checked"]),
    "P06": p([("holds", 3), ("holds-calm", 3), ("mixed", 1)], 450, ["txn_INFLIGHT"]),
    "P07": p([("expiry", 3), ("expiry-calm", 4), ("holds", 1)], 450, ["txn_INFLIGHT"]),
    "P08": p([("refunds", 3), ("refunds-calm", 3), ("mixed", 1)], 450, ["op_refund"]),
    "P09": p([("queued", 3), ("coalesce", 1), ("coalesce-calm", 1), ("queued-calm", 1), ("crashy", 1), ("wipe", 1)], 450, ["txn_QUEUED"]),
    "P10": p([("coalesce", 3), ("coalesce-calm", 3), ("queued", 1)], 450, ["batches"]),
    "P11": p([("splits", 2), ("splits-calm", 3)], 450, ["op_split"]),
    "P12": p([("bulks", 2), ("bulks-calm", 3)], 450, ["op_bulk"]),
    "P13": p([("scheduled", 3), ("scheduled-calm", 2)], 450, ["txn_SCHEDULED"]),
    "P14": p([("locks", 3), ("locks-calm", 2), ("holds", 1), ("spend", 2), ("holds-calm", 1), ("bulks-calm", 1), ("mixed", 1)], 450, ["locks_taken"]),
    "P15": p([("firsts", 3), ("firsts-calm", 3), ("mixed", 1)], 450, ["firsts_checked"]),
    "P16": p([("history", 2), ("history-calm", 2), ("backdated", 1), ("backdated-calm", 1)], 450, ["history_checked"]),
    "P17": p([("monitors", 1), ("monitors-calm", 1)], 300, ["monitor_fires"]),
    "P18": p([("events", 2), ("events-calm", 4)], 450, ["webhooks_confirmed"]),
    "P19": p([("lineage", 2), ("lineage-calm", 3)], 220, ["lineage_steps"]),
    "P20": p([("lineage", 4), ("lineage-calm", 1)], 220, ["lineage_steps"]),
    "P21": p([("chain", 4), ("chain-calm", 3), ("backfill", 1)], 450, ["verified"]),
    "P22": p([("recon", 3), ("recon-calm", 2)], 300, ["recon_completed"]),
    "P23": p([("keys", 1), ("keys-calm", 1)], 300, ["revocations"]),
    "P24": p([("metadata", 3), ("metadata-calm", 3), ("mixed", 1)], 450, ["metas_checked"]),
    "P25": p([("mixed", 2), ("mixed-calm", 1), ("holds", 1), ("refunds", 1), ("queued", 1)], 450, ["txn_APPLIED"]),
    "P26": p([("dryruns", 2), ("dryruns-calm", 3)], 450, ["predictions"]),
    "P27": p([("hooks", 2), ("hooks-calm", 3)], 450, ["post_hooks_confirmed"]),
    "P29": p([("tokens", 1), ("tokens-calm", 1)], 400, ["fields_tokenized", "values_read"]),
}

# How each property is decided, in a few words.
NOTES = {
    "P01": "conservation checked at every database commit",
    "P02": "every commit compared with a replay of the recorded transactions",
    "P03": "history checked for exactly-once effect per reference and durability of acknowledgements",
    "P04": "available funds checked against the limit at every commit",
    "P05": "real-time order and atomicity checked against the commit history",
    "P06": "consumption of each hold replayed at every commit",
    "P07": "expiries and automatic commits compared with their dates on the virtual clock",
    "P08": "refunds checked against their originals at every commit",
    "P09": "exactly one terminal outcome per accepted reference after faults stop",
    "P10": "every batch commit replayed member by member; refusals checked against the balance history",
    "P11": "parts of each split checked against the request after faults stop",
    "P12": "all-or-nothing of each atomic bulk checked after faults stop",
    "P13": "effects compared with the schedule on the virtual clock",
    "P14": "every lock command in Redis checked for ownership, intervals of holders for overlap",
    "P15": "every balance row and every posting that names an indicator compared with the one balance it stands for",
    "P16": "every answer compared with the recorded transactions at some moment of the request",
    "P17": "monitor notifications counted against the commit history of their balance",
    "P18": "deliveries compared with the commit history, both ways, after faults stop",
    "P19": "every shadow posting compared with the posting it accounts for; allocations replayed over the history of the provider balances",
    "P20": "every change of an outbox entry checked: leases, attempts, order; completion after faults stop",
    "P21": "every chain commit checked for gaps and forks; verification run during the traffic and against tampered copies",
    "P22": "every verdict compared with the rules, the upload and the ledger; counts and progress checked when the run ends",
    "P23": "every answer compared with what the key it carries allows at that moment",
    "P24": "final metadata of every entity compared with the acknowledged updates, each writing its own keys",
    "P25": "every change of a recorded row checked",
    "P26": "traces of dry runs watched in database, queue and network; predictions compared with the real request that follows",
    "P27": "hook calls compared with the registered hooks and with the recorded postings",
    "P29": "the stored identity judged after every commit, and every answer against the tokenizations and updates acknowledged before it",
}
