#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                          hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

T = "transaction_execution.go"
p("P01", "Money is conserved: every ledger movement debits and credits equally",
  "For every currency, the sum of all settled balances is zero, the sum of all inflight balances is zero and total credits equal total debits, in every committed state of the database, whatever mix of immediate, queued, inflight, refund, split, bulk or coalesced transactions ran. For every single balance, balance = credit - debit and inflight balance = inflight credit - inflight debit.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every committed database state of every concurrent history of ledger operations on several nodes, with node crashes, database errors, lost commit acknowledgements, lock expiry and Redis loss",
  "Unit tests check one UpdateBalances call or a mocked SQL expectation; integration tests sample one schedule. No test commits under crash, lock expiry, or two racing nodes.",
  [T, "model/transaction.go", "model/balance.go", "database/transaction.go", "database/balance.go", "transaction_coalescing.go"],
  [("one SQL transaction writes both balances and the record", "database/transaction.go RecordTransactionWithBalances"), ("optimistic balance version", "database/balance.go updateBalance")],
  ["rows of blnk.balances after every commit"])
p("P02", "Each balance equals the effect of exactly the transactions recorded for it",
  "In every committed state, a balance's credit, debit and inflight totals are exactly what its recorded APPLIED, INFLIGHT, COMMIT and VOID transactions add up to: no recorded transaction lacks its effect, and no effect exists without its recorded transaction. This survives crashes, lost commit acknowledgements, expired locks, stale reads and concurrent writers on other nodes.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every committed state of every interleaving of writers on several nodes, every crash point between and inside the SQL statements of one posting",
  "sqlmock tests fix one statement sequence; they cannot produce lost updates, a torn posting, or a commit whose acknowledgement is lost.",
  [T, "database/transaction.go", "database/balance.go", "transaction_coalescing.go", "database/transaction_coalescing.go", "transaction_inflight.go"],
  [("atomic posting", "database/transaction.go"), ("version check on balance update", "database/balance.go updateBalance"), ("per-balance distributed lock", T + " acquireLock")],
  ["rows of blnk.balances and blnk.transactions after every commit"])
p("P03", "A reference is posted at most once, and an acknowledged posting is durable",
  "For any transaction reference, at most one transaction takes effect, however often, from however many nodes, and with whatever retries, duplicate deliveries or crashes it is submitted. A submission that was acknowledged as APPLIED or INFLIGHT stays recorded with its effect after any later crash; a submission reported as a duplicate means the first one is recorded.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all concurrent and repeated submissions of the same reference through the API, client retries after ambiguous errors, redelivered queue tasks, crashes between commit and acknowledgement",
  "Tests submit a duplicate sequentially; they never race two nodes past the existence check, lose a commit acknowledgement, or redeliver a finished task.",
  [T, "transaction_queue.go", "cmd/workers.go", "database/transaction.go", "sql/1741695343.sql"],
  [("reference existence check and unique index", T + "; sql/"), ("duplicate-reference acknowledgement in the worker", "cmd/workers.go")],
  ["API responses", "rows of blnk.transactions"])
p("P04", "A balance never goes below zero or its overdraft limit",
  "A transaction without overdraft permission never makes its source's balance, less funds already reserved inflight, negative; one with an overdraft limit never takes it below minus the limit. This holds for every interleaving of spenders on several nodes and for inflight holds, refunds, queued, bulk and coalesced postings, even when locks expire or are lost.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of competing debits of one balance from several nodes and workers, with lock expiry, Redis loss, stalls and crashes",
  "Tests check one debit against one balance; double spending needs two spenders inside the read-check-write window, or a stalled lock holder.",
  [T, "model/transaction.go", "model/balance.go", "transaction_coalescing.go", "transaction_inflight.go"],
  [("canProcessTransaction check under the balance lock", "model/balance.go"), ("optimistic version", "database/balance.go")],
  ["rows of blnk.transactions in commit order", "blnk.balances"])
p("P05", "Synchronous postings and balance reads are linearizable",
  "Immediate transactions and balance reads issued concurrently by clients of several nodes behave as if each took effect atomically at one instant between its request and its response. A request that failed with a definite error (insufficient funds, duplicate) had no effect; one whose outcome is ambiguous took effect entirely or not at all.",
  ["schedules", "fault_sequences", "histories"],
  "all concurrent histories of synchronous transfers and reads over a few balances, with delays, stalls, crashes and connection loss",
  "Needs a recorded concurrent history checked against a sequential model; the tests are sequential.",
  [T, "balance.go", "database/balance.go", "api/transactions.go", "api/balance.go"],
  [("redis lock over source and destination", "internal/lock/lock.go"), ("single SQL transaction", "database/transaction.go")],
  ["HTTP responses stamped with simulator sequence numbers"])
p("P06", "An inflight hold is consumed at most once: commits plus void equal the hold",
  "For every inflight transaction, the sum of committed amounts never exceeds the held amount, a void releases exactly the uncommitted remainder once, and nothing is committed after the void. A fully committed or voided hold leaves no inflight funds behind, and when nothing has touched it the whole amount stays reserved. Each request commits at most once, an acknowledged void or commit of the rest leaves nothing, and nothing is consumed that nobody asked for.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of partial and full commits, voids and expiry of the same hold from several nodes, with retries, crashes and ambiguous failures",
  "Tests commit then void in sequence; over-commit needs two nodes reading the same remaining amount or a retry after an ambiguous commit.",
  ["transaction_inflight.go", "database/transaction_inflight.go", "model/balance.go", "api/transactions.go"],
  [("per-transaction inflight lock", "transaction_inflight.go"), ("remaining amount from recorded children", "transaction_inflight.go")],
  ["rows of blnk.transactions grouped by parent", "blnk.balances inflight columns"])
p("P07", "Inflight expiry and scheduled commits resolve every hold exactly once, on time",
  "An inflight transaction with an expiry is not expired before its time, and once faults stop it is voided by the system unless it was completely resolved before. A scheduled or queued commit or void takes effect at most once, never before its time, whatever redeliveries, retries and racing manual actions occur.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all timings of expiry tasks and queued commits against manual commits and voids, worker restarts and redelivery",
  "Expiry tests call the handler once; the race with a manual commit and the redelivery after a crash are never exercised.",
  ["cmd/workers.go", "queue.go", "transaction_inflight.go", "transaction_inflight_bulk.go"],
  [("asynq ProcessAt tasks with fixed ids", "queue.go"), ("idempotent inflight actions", "transaction_inflight.go RunInflightActionByParent")],
  ["rows of blnk.transactions with simulated timestamps"])
p("P08", "A transaction is refunded at most once and a refund is its exact reversal",
  "However many refund requests for one transaction arrive concurrently on however many nodes, at most one takes effect, and it moves exactly the original amount back from the original destination to the original source. Only applied or committed transactions can be refunded; refunding anything else leaves balances unchanged.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of refund requests for one transaction with each other, with crashes and client retries",
  "Tests refund twice sequentially; the check-then-act window between two nodes is not reachable by them.",
  ["transaction_refunds.go", "database/transaction_refunds.go", "api/transactions.go"],
  [("refund existence check and derived reference", "transaction_refunds.go")],
  ["rows of blnk.transactions with the original as parent"])
p("P09", "Every accepted queued transaction reaches exactly one terminal outcome",
  "A transaction acknowledged as QUEUED is, once faults stop, either applied (or held inflight) exactly once or rejected exactly once with a recorded reason, never both and never neither. Worker crashes and restarts, task redelivery, loss of the queue's storage, lock contention, hot-lane routing and database outages do not change this. While nothing fails, the workers settle every one of them by themselves, without the recovery sweep. What is recorded at the end carries what was accepted: accounts, amount, currency, effective date, description and metadata.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every crash and fault sequence over API nodes, workers, Redis and Postgres between acknowledgement and terminal state, plus a fault-free recovery period",
  "Worker tests call the handler with mocks; lost tasks, redelivery and recovery after two simulated hours are unreachable in real time.",
  ["transaction_queue.go", "queue.go", "queue_recovery.go", "cmd/workers.go", "transaction_rejection.go", "internal/hotpairs/router.go"],
  [("asynq retries", "queue.go"), ("recovery sweep of stuck QUEUED rows", "queue_recovery.go"), ("rejection on terminal errors", "transaction_rejection.go")],
  ["rows of blnk.transactions by parent after quiescence"])
p("P10", "Coalesced queue processing gives the same result as one-by-one processing",
  "When a worker coalesces several queued transactions into one batch, each included transaction is recorded once with its own amount, accounts, effective date, description and metadata, the balances change by exactly their sum, and overdraft rules hold for every one of them. A batch that cannot be applied leaves nothing behind and its members are still processed individually.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all sets of queued transactions over shared sources and destinations with coalescing on, against crashes mid-batch, redelivery of members and competing workers",
  "Coverage tests run one mocked batch; member tasks running on other workers during the batch and crash inside it are not sampled.",
  ["transaction_coalescing.go", "database/transaction_coalescing.go", "cmd/workers.go"],
  [("claim of sibling QUEUED rows", "database/transaction_coalescing.go"), ("batch posting in one SQL transaction", "database/transaction_coalescing.go")],
  ["rows of blnk.transactions and blnk.balances"])
p("P11", "Split transactions post completely or not at all, and parts add up to the whole",
  "A transaction with multiple sources or destinations produces exactly one part per named account, and the parts' amounts add up exactly to the transaction's amount. Retrying or redelivering a split never duplicates a part; after faults stop an atomic or acknowledged split is never left with only some of its parts in effect.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all distributions (fixed, percentage, left), all crash points between parts, retries and concurrent splits",
  "Distribution arithmetic is unit-tested; a crash or insufficient funds between two parts is not.",
  ["model/distribution.go", "transaction_queue.go", "model/transaction.go"],
  [("distribution calculation", "model/distribution.go"), ("per-part references", "model/transaction.go SplitTransactionPrecise")],
  ["rows of blnk.transactions", "API responses"])
p("P12", "An atomic bulk either takes effect completely or leaves no net effect",
  "If any member of an atomic bulk submission fails, then once faults stop every member already applied has been reversed or voided exactly once and all balances are as before; if all succeed all are in effect. A bulk's reported outcome agrees with what is recorded, and non-atomic bulks keep the members that succeeded.",
  ["schedules", "fault_sequences", "histories"],
  "all failing positions in atomic and non-atomic, inflight and immediate, synchronous and asynchronous bulks, concurrent with other traffic and transient faults",
  "Bulk tests use mocks for the rollback; concurrent spending and faults in the rollback itself are not sampled.",
  ["transaction_bulk.go", "api/transactions.go", "transaction_refunds.go", "transaction_inflight.go"],
  [("rollback by refund or void of the batch", "transaction_bulk.go")],
  ["rows of blnk.transactions of the batch", "API response", "bulk webhooks"])
p("P13", "A scheduled transaction never takes effect early and eventually takes effect",
  "A transaction scheduled for a future time has no effect on any balance before that time, and once faults stop and the time has passed it is applied or rejected exactly once. Worker restarts, redelivery, recovery sweeps and coalescing with other queued transactions do not pull it forward or lose it.",
  ["schedules", "crash_points", "fault_sequences"],
  "all schedule times relative to worker restarts, recovery sweeps, coalescing and other traffic on the same balances",
  "Needs a controlled clock over hours and a queue that survives crashes.",
  ["transaction_queue.go", "queue.go", "queue_recovery.go", "database/transaction_recovery.go", "database/transaction_coalescing.go"],
  [("asynq ProcessAt", "queue.go"), ("exclusion of scheduled rows from recovery and coalescing", "database/transaction_recovery.go")],
  ["commit time of the applied row"])
p("P14", "A distributed lock has one holder, and only its holder can release or extend it",
  "Within its validity period a lock key (single or multi-key) is held by at most one owner; release or extension by anyone else, including a former holder whose lock expired, never affects the current holder. A failed multi-key acquisition keeps no key, and once holders release or expire, a waiter within its timeout obtains the lock.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of acquire, extend, release, wait, expiry, lost replies, crashes over overlapping key sets on several nodes",
  "Lock tests are sequential against one miniredis; lost replies, expiry at a release, and overlapping key sets are not explored.",
  ["internal/lock/lock.go"],
  [("SET NX with TTL", "internal/lock/lock.go Lock"), ("compare-and-delete script", "internal/lock/lock.go Unlock"), ("sorted multi-key locking with rollback", "internal/lock/lock.go MultiLocker")],
  ["return values and Redis keys stamped with simulator sequence numbers"])
p("P15", "An indicator names one balance per currency, however it is first used",
  "Concurrent first uses of the same indicator and currency from any number of nodes resolve to one and the same balance: at most one balance row exists for an (indicator, currency) pair and every transaction naming it is posted there. No first-use transaction is lost because another node created the balance first.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of first uses of an indicator from several nodes and workers",
  "Tests create the indicator sequentially.",
  ["balance.go", "database/balance.go", T],
  [("get-or-create by indicator", "balance.go getOrCreateBalanceByIndicator"), ("unique index on (indicator, currency)", "sql/")],
  ["rows of blnk.balances", "API responses"])
p("P16", "A historical balance equals the ledger replayed up to that instant",
  "The balance reported for a past time equals the sum of the transactions effective at or before that time, whether it is computed from snapshots or from the source transactions, and whichever snapshots were taken in between, however often they repeat and whatever crashes. Taking snapshots never changes a balance.",
  ["schedules", "histories", "crash_points", "inputs"],
  "all histories of postings interleaved with snapshot runs, and all query times",
  "Snapshot tests mock the SQL; the two computations are never compared on a real history.",
  ["balance.go", "database/balance.go", "sql/1742099489.sql"],
  [("daily snapshot function", "sql/"), ("delta after the last snapshot", "database/balance.go GetBalanceAtTime")],
  ["GET /balances/:id/at responses"])
p("P17", "A balance monitor fires for every posting that meets its condition",
  "When a posting leaves a monitored balance in a state that satisfies a monitor's condition, a notification for that monitor is emitted, and none is emitted for a condition that the balance never met. Each monitor is evaluated against the balance it is attached to and the monitored field, in any interleaving with other traffic.",
  ["schedules", "histories", "inputs"],
  "all histories of postings on monitored balances, with concurrent postings on several nodes",
  "Monitor tests check one condition with a mocked datasource.",
  ["balance.go", "model/balance.go", T],
  [("checkBalanceMonitors after each posting", "balance.go"), ("condition evaluation", "model/balance.go CheckCondition")],
  ["webhook receiver", "webhook queue"])
p("P18", "Every committed event is delivered by signed webhook at least once, and no other",
  "Once faults stop, each committed transaction state change has reached the configured webhook receiver at least once with a body matching what is recorded and a signature that verifies under the configured secret. A webhook is never delivered for something that was not committed, and receiver errors, timeouts, worker restarts and redelivery only cause repeats.",
  ["schedules", "crash_points", "fault_sequences"],
  "all sequences of receiver failures, worker crashes and redelivery; node crashes only before the event is handed to the queue are excluded",
  "Tests send one webhook to a stub server that answers 200.",
  ["webhooks.go", "queue.go", "cmd/workers.go", T, "transaction_rejection.go"],
  [("queued webhook task with retries", "webhooks.go"), ("HMAC signature", "webhooks.go processHTTP")],
  ["requests seen by the simulated receiver"])
p("P19", "Fund lineage is conserved: provider shares always add up to the tracked funds",
  "For a balance with lineage tracking, once pending lineage work has drained, the shadow balances of its providers hold exactly what was received from each provider minus what was allocated to spending, and each spend is allocated completely to providers in the configured order (FIFO, LIFO or proportional) as far as tracked funds reach. Each credit and each spend is accounted for exactly once under crashes, retries and concurrent workers (as long as none of them is stalled for longer than its locks last).",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of credits, spends, inflight commits and voids with the lineage worker on several nodes, with crashes and retries",
  "Lineage tests are sequential with mocks or a real database that is absent here.",
  ["lineage.go", "lineage_debit.go", "lineage_credit.go", "lineage_allocation.go", "lineage_outbox.go", "lineage_worker.go", "lineage_shadow.go"],
  [("outbox row in the posting's SQL transaction", "database/lineage_outbox.go"), ("derived unique references of shadow transactions", "lineage_shadow.go")],
  ["shadow balances", "GET /balances/:id/lineage"])
p("P20", "Every lineage outbox entry is processed by one worker at a time and finishes",
  "An outbox entry is claimed by at most one worker within its lease, is retried at most the configured number of attempts and, once faults stop, ends completed or failed; it never stays pending for ever. A completed entry is never processed again.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of several lineage workers with crashes and stalls longer than the lease",
  "Tests run a single processor once.",
  ["lineage_worker.go", "lineage_outbox.go", "database/lineage.go"],
  [("claim with lease", "database/lineage.go ClaimPendingOutboxEntries")],
  ["rows of blnk.lineage_outbox"])
p("P21", "The transaction hash chain has no gaps or forks and exposes any tampering",
  "Once the chain worker has run, every transaction older than the settling window is in the chain exactly once with consecutive sequence numbers, each linked to its predecessor, however many chain workers run, overlap or crash. Verification accepts an untouched chain and reports a change to any sealed field (ids, balances, amounts, currency, status, reference, creation time) of a chained transaction, and any removed, reordered or truncated entry.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of several chain workers with writers and crashes; all single-row tamperings of the chained rows",
  "Tests hash fixed rows; overlapping workers, crashes mid-batch and tail truncation are not sampled.",
  ["chain_worker.go", "database/chain.go", "cmd/verify_chain.go", "model/transaction.go"],
  [("chain state row lock", "database/chain.go"), ("verification walk", "chain_worker.go VerifyChain")],
  ["rows of blnk.transactions and blnk.chain_state", "verify-chain result"])
p("P22", "Reconciliation gives every external transaction exactly one verdict",
  "A completed one-to-one or one-to-many reconciliation run marks each external transaction of its upload as either matched or unmatched, exactly once, and only pairs what one of its rules allows; a one-to-one run uses neither side of a match twice and calls nothing unmatched that a free transaction of the ledger matches. The reported counts agree with the recorded matches. A dry run records nothing, a run ends, and a failed run is never reported completed.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all interleavings of the matching workers of one run, concurrent runs, and faults at every statement",
  "Engine tests run the strategies over mocks; worker interleavings and mid-run failures are not explored.",
  ["reconciliation.go", "database/reconciliation.go", "api/reconciliation_api.go"],
  [("batched matching workers", "reconciliation.go"), ("matches recorded in one SQL transaction", "database/reconciliation.go")],
  ["rows of blnk.matches, blnk.reconciliations", "GET /reconciliation/:id"])
p("P23", "A revoked, expired or under-scoped API key is refused",
  "In secure mode a request is served only with the master key or a key that exists, is not expired, is not revoked and carries the scope the route needs; a refused request has no effect, and a key that meets all of this is not refused. A key makes, lists and revokes only keys of its own owner and hands on no right it lacks, and what it creates names it and is otherwise what was sent, amounts included. After a revocation is acknowledged no node accepts the key once the cache lifetime (five minutes and a minute) has passed, and the node that revoked it refuses it at once unless a request with it was under way; an expired key is refused everywhere immediately. No key is stored or listed in the clear.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "all interleavings of create, use, revoke and expire on several nodes with cache loss and clock advance",
  "Tests use one node and no clock.",
  ["api/middleware/auth.go", "apikey.go", "database/api_key.go", "model/api_key.go"],
  [("key lookup with bounded cache", "database/api_key.go"), ("scope check", "api/middleware")],
  ["HTTP status codes"])
p("P24", "Concurrent metadata updates never lose each other's keys",
  "Metadata updates of one transaction, ledger, balance or identity that name different keys all survive, whatever their interleaving over several nodes; for the same key the value is one of those written. An acknowledged update stays visible, and a failed one changes nothing or applies completely.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of metadata updates of one entity on several nodes",
  "Tests update sequentially.",
  ["metadata.go", "database/metadata.go", "database/transaction.go"],
  [("server-side JSON merge", "database/metadata.go")],
  ["meta_data columns", "API responses"])
p("P25", "A recorded transaction never changes and is never lost",
  "Once recorded, a transaction's amount, currency, source, destination, reference, status, parent, times and identity never change and the row never disappears, whatever operation, worker or recovery path runs afterwards; status progress is recorded only by new linked transactions. Only metadata and chain bookkeeping may be added.",
  ["schedules", "histories", "fault_sequences"],
  "every committed state along every history of operations, workers and recoveries",
  "Tests compare a row only directly after insertion.",
  ["database/transaction.go", "sql/1713790634.sql", "transaction_inflight.go", "transaction_rejection.go"],
  [("immutability trigger", "sql/"), ("child transactions per state change", "transaction_inflight.go")],
  ["rows of blnk.transactions after every commit"])
p("P26", "A dry run changes nothing and predicts the real outcome",
  "A dry-run request, single, bulk or inflight action, never writes to the database, queues nothing and emits no event, under any interleaving and any fault. When nothing else touches the balances in between, the real request then gives the outcome and the resulting balances that the dry run predicted. (Requests with skip_queue are compared one to one; queued ones by what their worker records.)",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "all ledger states reached by a random history, all request kinds, with concurrent traffic and faults",
  "Dry-run tests compare a few hand-written cases against mocks.",
  ["transaction_dryrun.go", "transaction_dryrun_bulk.go", "transaction_dryrun_inflight.go", "api/transactions.go"],
  [("preview on copies of the balances", "transaction_dryrun.go")],
  ["committed rows and queues before and after", "API responses"])
p("P27", "Transaction hooks run as registered: blocking order, retries and isolation",
  "The call of a registered active pre-transaction hook is queued before the posting takes effect; a post-transaction hook is called only for postings that were recorded, with the recorded data, and once unless its endpoint or the delivery fails, in which case the retries are bounded. A change or removal of a hook applies to the postings that begin after it was acknowledged and is never undone by calls in flight. Failures, timeouts and retries of a hook's endpoint never corrupt, duplicate or lose the posting itself. (A crash of the node right after a posting may lose its post-transaction calls.)",
  ["schedules", "crash_points", "fault_sequences"],
  "all sequences of hook endpoint failures, worker restarts and registrations relative to postings",
  "Hook tests call one endpoint that answers at once.",
  ["internal/hooks/manager.go", "internal/hooks/client.go", T, "cmd/workers.go"],
  [("hook manager over Redis", "internal/hooks/manager.go"), ("queued hook execution", "queue.go")],
  ["requests seen by the simulated hook endpoint"])
p("P28", "Search filters select exactly the records that satisfy them",
  "A list request with filters, sorting and paging returns exactly the records that satisfy every filter, each once, in the requested order. No filter input can change the query's meaning.",
  ["inputs"],
  "all filter expressions over all record sets",
  "Tests check generated SQL text for a few filters.",
  ["internal/filter/parser.go", "internal/filter/sql_builder.go", "database/transaction_filters.go"],
  [("parameterised SQL builder", "internal/filter/sql_builder.go")],
  ["list endpoint responses"])
p("P29", "Tokenized identity fields always give back their original value",
  "An acknowledged tokenization of an identity's field is lasting: from then on no read shows the plain value, the field is listed as tokenized, and detokenizing it returns exactly the original value, for every value. At every moment the stored fields and the marks in the identity's metadata agree: a marked field holds a token of its original value, an unmarked one the original value. A field is tokenized once. Tokenizing a field never undoes a concurrent tokenization of another field, an update of other fields or a metadata update of the same identity, nor the other way round. (Updates that overwrite a tokenizable field or replace the whole metadata are the caller's own doing and outside this property.)",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all field values; all interleavings of tokenizations, detokenizations, updates and metadata updates of one identity across servers; crashes and lost requests in between",
  "Tests tokenize a few strings, one at a time.",
  ["identity.go", "database/identity.go", "internal/tokenization/tokenization.go", "model/identity.go"],
  [("read-modify-write of an identity", "identity.go"), ("tokens", "internal/tokenization/tokenization.go")],
  ["stored identity rows", "answers of the tokenize, detokenize, tokenized-fields and identity endpoints"])
p("P30", "Amounts convert to integer minor units exactly at every precision",
  "For every amount and precision, the precise integer amount is the exact decimal product, rounding never creates or destroys a unit, and rates are applied with the documented rounding. Invalid amounts are refused.",
  ["inputs"],
  "all amounts, precisions and rates",
  "Tests use a few amounts; a pure function of its input.",
  ["model/transaction.go", "api/model/transaction.go"],
  [("decimal arithmetic", "model/transaction.go ApplyPrecision")],
  ["recorded precise amounts"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
