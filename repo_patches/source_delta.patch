From a26b45c8edd2cfea6f55ed1d99388f899c3b4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 01/37] fix: commit or void of a queued inflight transaction
 acts on its recorded hold

---
 transaction_inflight.go | 56 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/transaction_inflight.go b/transaction_inflight.go
index 8a75b97..ca560ef 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -215,6 +215,15 @@ func (l *Blnk) CommitInflightTransactionWithRef(ctx context.Context, transaction
 		return nil, err
 	}
 
+	if transaction.Status == StatusQueued {
+		legID, err := l.recordedInflightLeg(ctx, transactionID)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		return l.CommitInflightTransactionWithRef(ctx, legID, amount, reference)
+	}
+
 	if err := l.validateAndUpdateAmount(ctx, transaction, amount); err != nil {
 		span.RecordError(err)
 		return nil, err
@@ -255,6 +264,15 @@ func (l *Blnk) CommitInflightTransactionWithQueue(ctx context.Context, transacti
 		return nil, err
 	}
 
+	if transaction.Status == StatusQueued {
+		legID, err := l.recordedInflightLeg(ctx, transactionID)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		return l.CommitInflightTransactionWithQueue(ctx, legID, amount)
+	}
+
 	if err := l.validateAndUpdateAmount(ctx, transaction, amount); err != nil {
 		span.RecordError(err)
 		return nil, err
@@ -478,6 +496,15 @@ func (l *Blnk) VoidInflightTransactionWithRef(ctx context.Context, transactionID
 		return nil, err
 	}
 
+	if transaction.Status == StatusQueued {
+		legID, err := l.recordedInflightLeg(ctx, transactionID)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		return l.VoidInflightTransactionWithRef(ctx, legID, reference)
+	}
+
 	amountLeft, err := l.calculateRemainingAmount(ctx, transaction)
 	if err != nil {
 		span.RecordError(err)
@@ -564,6 +591,35 @@ func (l *Blnk) fetchAndValidateInflightTransaction(ctx context.Context, transact
 	return transaction, nil
 }
 
+// recordedInflightLeg returns the ID of the INFLIGHT transaction that a worker
+// recorded for a queued inflight transaction.
+//
+// A queued inflight transaction reserves nothing by itself: the funds are held by
+// its INFLIGHT child. Committing or voiding the QUEUED row would therefore consume
+// the reservations of other transactions and leave the child open to be committed
+// or voided once more. Until the child exists there is nothing to finalize, and
+// the error is a transient one.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - queuedTransactionID string: The ID of the QUEUED transaction.
+//
+// Returns:
+// - string: The ID of the INFLIGHT child.
+// - error: An error if there is no INFLIGHT child (yet) or it could not be fetched.
+func (l *Blnk) recordedInflightLeg(ctx context.Context, queuedTransactionID string) (string, error) {
+	legs, err := l.collectInflightLegs(ctx, queuedTransactionID)
+	if err != nil {
+		return "", err
+	}
+	for _, leg := range legs {
+		if leg.Status == StatusInflight && leg.ParentTransaction == queuedTransactionID {
+			return leg.TransactionID, nil
+		}
+	}
+	return "", fmt.Errorf("inflight transaction %s is still queued", queuedTransactionID)
+}
+
 // calculateRemainingAmount calculates the remaining amount for an inflight transaction by subtracting the committed amount from the precise amount.
 // It starts a tracing span, fetches the total committed amount, calculates the remaining amount, and records relevant events and errors.
 //
-- 
2.43.0


From 1ac0b24a1cfaf01040bc31b17b71f1857683f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 02/37] fix: recovery picks up scheduled transactions whose
 task was lost

---
 database/transaction_recovery.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/transaction_recovery.go b/database/transaction_recovery.go
index 37bde6d..bc4164a 100644
--- a/database/transaction_recovery.go
+++ b/database/transaction_recovery.go
@@ -39,8 +39,11 @@ func (d Datasource) GetStuckQueuedTransactions(ctx context.Context, threshold ti
 	rows, err := d.Conn.QueryContext(ctx, `
 		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
 		FROM blnk.transactions t
-		WHERE t.status = 'QUEUED'
-		  AND t.created_at < $1
+		WHERE (
+		      (t.status = 'QUEUED' AND t.created_at < $1)
+		      -- a scheduled transaction is stuck only once its time has come and gone
+		      OR (t.status = 'SCHEDULED' AND t.created_at < $1 AND t.scheduled_for < $1)
+		  )
 		  AND NOT EXISTS (
 		      SELECT 1 FROM blnk.transactions child
 		      WHERE child.parent_transaction = t.transaction_id
-- 
2.43.0


From 8611b0c896eab43718e0083b29742448e62aff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 03/37] fix: a refund no longer reverses the reversals of
 earlier refunds

---
 api/transactions.go             |  2 +-
 transaction_batch_processing.go | 47 +++++++++++++++++++++++++++++++++
 transaction_bulk.go             |  2 +-
 transaction_dryrun.go           | 17 +-----------
 transaction_refunds.go          |  7 ++++-
 5 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index 4c53f1e..c508d94 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -270,7 +270,7 @@ func (a Api) RefundTransaction(c *gin.Context) {
 		MetaData:    req.MetaData,
 	}
 
-	transaction, err := a.blnk.ProcessTransactionInBatches(c.Request.Context(), id, big.NewInt(0), 1, false, a.blnk.GetRefundableTransactionsByParentID, a.blnk.RefundWorkerWithRefundOptions(refundOptions))
+	transaction, err := a.blnk.ProcessTransactionInBatches(c.Request.Context(), id, big.NewInt(0), 1, false, a.blnk.RefundableTransactionsSnapshot(), a.blnk.RefundWorkerWithRefundOptions(refundOptions))
 	if err != nil {
 		respondError(c, err, withUpgrade(apierror.ErrGenNotFound, apierror.ErrTxnNotFound), withDefault(apierror.ErrGenBadRequest))
 		return
diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 3456a5c..ba8a11e 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -41,6 +41,53 @@ func (l *Blnk) GetRefundableTransactionsByParentID(ctx context.Context, parentTr
 	return transactions, nil
 }
 
+// RefundableTransactionsSnapshot returns a getTxns that hands out the transactions a
+// refund of parentTransactionID reverses, as they were before the refund started.
+//
+// The reversals that a refund records are themselves APPLIED rows that the query of
+// GetRefundableTransactionsByParentID matches: they are children of the transaction
+// they reverse, and they inherit its QUEUED_PARENT_TRANSACTION. They are no part of
+// the refund and are left out, and paging ends before the first of them is recorded:
+// otherwise a refund would reverse the reversals of an earlier one, or miss and
+// repeat rows because its own reversals shift the pages.
+//
+// Returns:
+// - getTxns: The function that returns all of them as one page.
+func (l *Blnk) RefundableTransactionsSnapshot() getTxns {
+	return func(ctx context.Context, parentTransactionID string, batchSize int, offset int64) ([]*model.Transaction, error) {
+		if offset > 0 {
+			return nil, nil
+		}
+		return l.collectRefundableTransactions(ctx, parentTransactionID, batchSize)
+	}
+}
+
+// collectRefundableTransactions pages through the refundable transactions of a parent
+// and leaves out the reversals recorded by earlier refunds. The parent itself stays in:
+// a refund may be refunded by its own ID.
+func (l *Blnk) collectRefundableTransactions(ctx context.Context, parentTransactionID string, batchSize int) ([]*model.Transaction, error) {
+	if batchSize <= 0 {
+		batchSize = 100
+	}
+
+	var all []*model.Transaction
+	for offset := int64(0); ; offset += int64(batchSize) {
+		batch, err := l.GetRefundableTransactionsByParentID(ctx, parentTransactionID, batchSize, offset)
+		if err != nil {
+			return nil, err
+		}
+		for _, txn := range batch {
+			if txn.TransactionID != parentTransactionID && txn.Reference == refundReference(txn.ParentTransaction) {
+				continue
+			}
+			all = append(all, txn)
+		}
+		if len(batch) < batchSize {
+			return all, nil
+		}
+	}
+}
+
 // ProcessTransactionInBatches processes transactions in batches or streams them based on the provided mode.
 // It starts a tracing span, initializes worker pools, fetches transactions, and processes them concurrently.
 //
diff --git a/transaction_bulk.go b/transaction_bulk.go
index 58614e6..9fe6c53 100644
--- a/transaction_bulk.go
+++ b/transaction_bulk.go
@@ -90,7 +90,7 @@ func (l *Blnk) refundNonInflightBatchTransactions(ctx context.Context, batchID s
 		big.NewInt(0),
 		1, // Assuming 1 worker is sufficient for rollback, adjust if needed
 		false,
-		l.GetRefundableTransactionsByParentID,
+		l.RefundableTransactionsSnapshot(),
 		l.RefundWorker,
 	)
 	return "refunded", err
diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 2b1c8e8..18d5c97 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -193,22 +193,7 @@ func (l *Blnk) PreviewRefund(ctx context.Context, transactionID string) (*model.
 // pages the same query until it is exhausted, so the projection pages it too
 // rather than reading a single row and answering for that one.
 func (l *Blnk) refundableLegsForPreview(ctx context.Context, transactionID string) ([]*model.Transaction, error) {
-	batchSize := l.Config().Transaction.BatchSize
-	if batchSize <= 0 {
-		batchSize = 100
-	}
-
-	var all []*model.Transaction
-	for offset := int64(0); ; offset += int64(batchSize) {
-		batch, err := l.datasource.GetRefundableTransactionsByParentID(ctx, transactionID, batchSize, offset)
-		if err != nil {
-			return nil, err
-		}
-		all = append(all, batch...)
-		if len(batch) < batchSize {
-			return all, nil
-		}
-	}
+	return l.collectRefundableTransactions(ctx, transactionID, l.Config().Transaction.BatchSize)
 }
 
 // normalizePreviewStatus assigns the status the transaction would carry by the
diff --git a/transaction_refunds.go b/transaction_refunds.go
index 5736f55..3cbc58e 100644
--- a/transaction_refunds.go
+++ b/transaction_refunds.go
@@ -195,11 +195,16 @@ type RefundOptions struct {
 	MetaData map[string]interface{}
 }
 
+// refundReference returns the reference of the reversal of a transaction.
+func refundReference(transactionID string) string {
+	return fmt.Sprintf("%s_refund", transactionID)
+}
+
 // prepareRefundTransaction creates and configures a new transaction object for the refund.
 func prepareRefundTransaction(originalTxn *model.Transaction, opts RefundOptions) *model.Transaction {
 	newTransaction := *originalTxn // Create a copy
 	newTransaction.TransactionID = model.GenerateUUIDWithSuffix("txn")
-	newTransaction.Reference = fmt.Sprintf("%s_refund", originalTxn.TransactionID)
+	newTransaction.Reference = refundReference(originalTxn.TransactionID)
 	newTransaction.ParentTransaction = originalTxn.TransactionID
 	newTransaction.Source = originalTxn.Destination // Swap source and destination
 	newTransaction.Destination = originalTxn.Source
-- 
2.43.0


From 7dbed177d5c2c3065ff29bdce5f6744c49dfa202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 04/37] fix: a partial commit is refused when the transaction's
 precision cannot be read

---
 api/transactions.go | 12 ++++++++++--
 model/model.go      | 18 ++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index c508d94..ef3eefd 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -513,7 +513,11 @@ func (a Api) UpdateInflightStatus(c *gin.Context) {
 		return
 	}
 
-	amount := model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: req.Amount, TransactionID: id}, ds.Conn)
+	amount, err := model.ResolveAmountWithDBLookup(&model.Transaction{Amount: req.Amount, TransactionID: id}, ds.Conn)
+	if err != nil {
+		respondError(c, err)
+		return
+	}
 
 	if req.PreciseAmount != nil {
 		if req.PreciseAmount.Sign() <= 0 {
@@ -946,7 +950,11 @@ func (a Api) BulkCommitInflight(c *gin.Context) {
 		if it.PreciseAmount != nil {
 			amount = it.PreciseAmount
 		} else {
-			amount = model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
+			amount, err = model.ResolveAmountWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
+			if err != nil {
+				respondError(c, err)
+				return
+			}
 		}
 		items[i] = blnk.BulkInflightItem{TransactionID: it.TransactionID, Amount: amount}
 	}
diff --git a/model/model.go b/model/model.go
index 1cb52a2..bb81cc4 100644
--- a/model/model.go
+++ b/model/model.go
@@ -353,6 +353,24 @@ func fetchTransactionPrecisionFromDB(db *sql.DB, transactionID string) (float64,
 	return precision, true, nil
 }
 
+// ResolveAmountWithDBLookup is ApplyPrecisionWithDBLookup for callers that act on the
+// result: when the precision of an existing transaction cannot be read, the amount in
+// minor units is unknown, and falling back to a default precision would move another
+// amount than the one requested. Without an amount there is nothing to convert.
+func ResolveAmountWithDBLookup(transaction *Transaction, db *sql.DB) (*big.Int, error) {
+	if db != nil && transaction.TransactionID != "" && transaction.Amount != 0 {
+		precision, found, err := fetchTransactionPrecisionFromDB(db, transaction.TransactionID)
+		if err != nil {
+			return nil, err
+		}
+		if found {
+			transaction.Precision = precision
+		}
+		return ApplyPrecision(transaction), nil
+	}
+	return ApplyPrecisionWithDBLookup(transaction, db), nil
+}
+
 // ApplyPrecisionWithDBLookup attempts to fetch precision from the database
 // and then applies it to the transaction. Falls back to transaction-defined
 // precision or a default of 1 if DB lookup fails or precision is invalid.
-- 
2.43.0


From 4060a8b4e4d7fb23eae39c07b1c609946e9f398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 05/37] fix: split parts are numbered and identified in the
 order of the request

---
 model/transaction.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 35f8a84..d592d51 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -427,7 +427,15 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 	var transactions []*Transaction
 	counter := 1
-	for direction, preciseAmount := range distributions {
+	// In the order of the request: the IDs below are written back to the parts by
+	// position, and the numbered references must come out the same every time.
+	for i := range ds {
+		direction := ds[i].Identifier
+		preciseAmount, ok := distributions[direction]
+		if !ok {
+			continue
+		}
+		delete(distributions, direction)
 		newTransaction := *transaction                               // Create a copy of the original transaction
 		newTransaction.TransactionID = GenerateUUIDWithSuffix("txn") // Set the transaction ID
 		newTransaction.PreciseAmount = preciseAmount                 // Set the precise amount based on the distribution
@@ -442,10 +450,10 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 		if len(transaction.Sources) > 0 {
 			newTransaction.Source = direction // Set the source
-			transaction.Sources[counter-1].TransactionID = newTransaction.TransactionID
+			transaction.Sources[i].TransactionID = newTransaction.TransactionID
 		} else if len(transaction.Destinations) > 0 {
 			newTransaction.Destination = direction // Set the destination
-			transaction.Destinations[counter-1].TransactionID = newTransaction.TransactionID
+			transaction.Destinations[i].TransactionID = newTransaction.TransactionID
 		}
 
 		newTransaction.Reference = fmt.Sprintf("%s-%d", transaction.Reference, counter)
-- 
2.43.0


From 1615a77d4654e13d476be3ebf9ad0c6ed8b0fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 06/37] fix: queued transactions keep their overdraft limit
 when they are rebuilt from the database

---
 transaction_coalescing.go | 4 ++++
 transaction_queue.go      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index bc2b02e..46ff616 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -605,4 +605,8 @@ func restoreTransactionFlagsFromMetadata(transaction *model.Transaction) {
 	if v, ok := transaction.MetaData["allow_overdraft"].(bool); ok {
 		transaction.AllowOverdraft = v
 	}
+	// Without its limit a limited overdraft would become an unlimited one.
+	if v, ok := transaction.MetaData["overdraft_limit"].(float64); ok && v > 0 {
+		transaction.OverdraftLimit = v
+	}
 }
diff --git a/transaction_queue.go b/transaction_queue.go
index e037dd2..856fa38 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -365,6 +365,9 @@ func setTransactionMetadata(transaction *model.Transaction) {
 	if transaction.AllowOverdraft {
 		transaction.MetaData["allow_overdraft"] = true
 	}
+	if transaction.OverdraftLimit > 0 {
+		transaction.MetaData["overdraft_limit"] = transaction.OverdraftLimit
+	}
 }
 
 // createQueueCopy creates a new copy of a transaction specifically for queueing.
-- 
2.43.0


From 1be01c33d06714e53185654d2d3f4c7fcfa694ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 07/37] fix: the expiry of a split inflight transaction voids
 its parts

---
 cmd/workers.go          |  5 ++---
 transaction_inflight.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/cmd/workers.go b/cmd/workers.go
index fa971ea..1c55653 100644
--- a/cmd/workers.go
+++ b/cmd/workers.go
@@ -336,9 +336,8 @@ func (b *blnkInstance) processInflightExpiry(cxt context.Context, t *asynq.Task)
 		return err
 	}
 
-	// Void the inflight transaction by its ID.
-	_, err := b.blnk.VoidInflightTransaction(cxt, txnID)
-	if err != nil {
+	// Void the inflight transaction (or every leg under it) by its ID.
+	if err := b.blnk.ExpireInflightTransaction(cxt, txnID); err != nil {
 		return err
 	}
 
diff --git a/transaction_inflight.go b/transaction_inflight.go
index ca560ef..154fba9 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -804,6 +804,35 @@ func (l *Blnk) RunInflightActionByParent(ctx context.Context, parentTransactionI
 	return false, nil
 }
 
+// ExpireInflightTransaction voids what is left of an inflight transaction whose
+// expiry date has passed. The expiry of a multi-source / multi-destination
+// transaction is scheduled under its parent ID, for which no row is recorded: it
+// voids every inflight leg under that parent, like a void by a client does.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - transactionID string: The ID the expiry was scheduled for.
+//
+// Returns:
+// - error: An error if the transaction could not be voided (completely).
+func (l *Blnk) ExpireInflightTransaction(ctx context.Context, transactionID string) error {
+	_, err := l.VoidInflightTransaction(ctx, transactionID)
+	if err == nil || classifyInflightError(err) != "NOT_FOUND" {
+		return err
+	}
+
+	legs, legErr := l.collectInflightLegs(ctx, transactionID)
+	if legErr != nil {
+		return legErr
+	}
+	if len(legs) == 0 {
+		return err
+	}
+
+	_, err = l.RunInflightActionByParent(ctx, transactionID, InflightActionVoid, big.NewInt(0), "expiry")
+	return err
+}
+
 // preValidateInflightAction performs the read-only checks an inflight commit/void
 // would perform, without mutating or persisting anything. It lets the API reject
 // an obviously-invalid request (not inflight, already finalized, amount too high)
-- 
2.43.0


From b8084106badeeccf3c5efe988f1b009e9ac802e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 08/37] fix: monitors with the equality operator stored as "="
 are compared

---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index bb81cc4..17eb917 100644
--- a/model/model.go
+++ b/model/model.go
@@ -83,7 +83,7 @@ func compare(value *big.Int, condition string, compareTo *big.Int) bool {
 		return cmp <= 0
 	case "!=":
 		return cmp != 0
-	case "==":
+	case "=", "==": // "=" is the spelling the database accepts
 		return cmp == 0
 	}
 	return false
-- 
2.43.0


From e54dfff7a6a9e7cda9763a1044f528552bc69ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 09/37] fix: updating a monitor's condition updates the value
 it compares

---
 balance.go          |  5 +++++
 database/balance.go | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/balance.go b/balance.go
index 7b904b2..5c69085 100644
--- a/balance.go
+++ b/balance.go
@@ -458,6 +458,11 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "UpdateMonitor")
 	defer span.End()
 
+	// Keep the threshold that conditions are compared with in step with the new value.
+	if monitor.Condition.Precision > 0 {
+		monitor.Condition.PreciseValue = model.Int64ToBigInt(int64(monitor.Condition.Value * monitor.Condition.Precision))
+	}
+
 	err := l.datasource.UpdateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
diff --git a/database/balance.go b/database/balance.go
index 56b0eed..56b31d9 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -1311,12 +1311,26 @@ func (d Datasource) GetBalanceMonitors(balanceID string) ([]model.BalanceMonitor
 // Returns:
 // - error: If the update fails, an appropriate `APIError` is returned.
 func (d Datasource) UpdateMonitor(monitor *model.BalanceMonitor) error {
-	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
-	result, err := d.Conn.ExecContext(context.Background(), `
+	query := `
 		UPDATE blnk.balance_monitors
 		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7
 		WHERE monitor_id = $1
-	`, monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL)
+	`
+	args := []interface{}{monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL}
+
+	// An update that states a precision also replaces the stored threshold, which is
+	// what the condition is evaluated against.
+	if monitor.Condition.Precision > 0 && monitor.Condition.PreciseValue != nil {
+		query = `
+		UPDATE blnk.balance_monitors
+		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7, precision = $8, precise_value = $9
+		WHERE monitor_id = $1
+	`
+		args = append(args, monitor.Condition.Precision, monitor.Condition.PreciseValue.String())
+	}
+
+	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
+	result, err := d.Conn.ExecContext(context.Background(), query, args...)
 	// If an error occurred during execution, return an internal server error
 	if err != nil {
 		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to update monitor", err)
-- 
2.43.0


From cbc336dcee13b577c9642e1d52e53e600b6a4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 10/37] fix: concurrent metadata updates of ledgers, balances
 and identities merge in the database

---
 database/metadata.go | 24 ++++++++++++------------
 metadata.go          |  6 +++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/database/metadata.go b/database/metadata.go
index 92965e4..46f67cc 100644
--- a/database/metadata.go
+++ b/database/metadata.go
@@ -5,12 +5,12 @@ import (
 	"encoding/json"
 )
 
-// UpdateLedgerMetadata updates the metadata for a specific ledger in the database.
-// It marshals the metadata map to JSON before storing it.
+// UpdateLedgerMetadata merges the given metadata into the metadata of a specific ledger.
+// The merge happens in the database, so that concurrent updates do not undo each other.
 //
 // Parameters:
 // - id: The ID of the ledger to update.
-// - metadata: The new metadata to store.
+// - metadata: The new metadata to merge with existing metadata.
 //
 // Returns:
 // - error: An error if the update operation fails.
@@ -22,7 +22,7 @@ func (d *Datasource) UpdateLedgerMetadata(id string, metadata map[string]interfa
 
 	_, err = d.Conn.ExecContext(context.Background(), `
 		UPDATE blnk.ledgers 
-		SET meta_data = $1
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE ledger_id = $2
 	`, metadataJSON, id)
 	return err
@@ -58,13 +58,13 @@ func (d *Datasource) UpdateTransactionMetadata(ctx context.Context, id string, m
 	return err
 }
 
-// UpdateBalanceMetadata updates the metadata for a specific balance in the database.
-// It marshals the metadata map to JSON before storing it.
+// UpdateBalanceMetadata merges the given metadata into the metadata of a specific balance.
+// The merge happens in the database, so that concurrent updates do not undo each other.
 //
 // Parameters:
 // - ctx: The context for the database operation.
 // - id: The ID of the balance to update.
-// - metadata: The new metadata to store.
+// - metadata: The new metadata to merge with existing metadata.
 //
 // Returns:
 // - error: An error if the update operation fails.
@@ -76,18 +76,18 @@ func (d *Datasource) UpdateBalanceMetadata(ctx context.Context, id string, metad
 
 	_, err = d.Conn.ExecContext(ctx, `
 		UPDATE blnk.balances 
-		SET meta_data = $1
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE balance_id = $2
 	`, metadataJSON, id)
 	return err
 }
 
-// UpdateIdentityMetadata updates the metadata for a specific identity in the database.
-// It marshals the metadata map to JSON before storing it.
+// UpdateIdentityMetadata merges the given metadata into the metadata of a specific identity.
+// The merge happens in the database, so that concurrent updates do not undo each other.
 //
 // Parameters:
 // - id: The ID of the identity to update.
-// - metadata: The new metadata to store.
+// - metadata: The new metadata to merge with existing metadata.
 //
 // Returns:
 // - error: An error if the update operation fails.
@@ -99,7 +99,7 @@ func (d *Datasource) UpdateIdentityMetadata(id string, metadata map[string]inter
 
 	_, err = d.Conn.ExecContext(context.Background(), `
 		UPDATE blnk.identity 
-		SET meta_data = $1
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE identity_id = $2
 	`, metadataJSON, id)
 	return err
diff --git a/metadata.go b/metadata.go
index 7abf089..2438bb7 100644
--- a/metadata.go
+++ b/metadata.go
@@ -66,7 +66,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := ledger.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
@@ -125,7 +125,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := balance.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
@@ -152,7 +152,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := identity.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
-- 
2.43.0


From b1b2af6a55f3421fd77b7d2cc1dd91abbb8750be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 11/37] fix: a hook call's status update never undoes a
 concurrent change or removal of the hook

---
 internal/hooks/client.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/hooks/client.go b/internal/hooks/client.go
index 4e9e586..3dd9700 100644
--- a/internal/hooks/client.go
+++ b/internal/hooks/client.go
@@ -23,12 +23,14 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
 	"strconv"
 	"time"
 
+	"github.com/redis/go-redis/v9"
 	"github.com/sirupsen/logrus"
 )
 
@@ -222,11 +224,31 @@ func (m *redisHookManager) updateHookStatus(ctx context.Context, hook *Hook, suc
 		"last_run":  hook.LastRun,
 	}).Info("Updated hook execution status")
 
-	data, err := json.Marshal(hook)
-	if err != nil {
-		return fmt.Errorf("failed to marshal hook: %w", err)
-	}
-
+	// The task carries a copy of the hook as it was when it was queued. Only the status is
+	// written back: the hook may have been changed or deleted in the meantime.
 	key := fmt.Sprintf("%s:%s", hookKeyPrefix, hook.ID)
-	return m.client.Set(ctx, key, data, 0).Err()
+	err := m.client.Watch(ctx, func(tx *redis.Tx) error {
+		data, err := tx.Get(ctx, key).Bytes()
+		if err != nil {
+			return err
+		}
+		var current Hook
+		if err := json.Unmarshal(data, &current); err != nil {
+			return fmt.Errorf("failed to unmarshal hook: %w", err)
+		}
+		current.LastRun = hook.LastRun
+		current.LastSuccess = hook.LastSuccess
+		if data, err = json.Marshal(&current); err != nil {
+			return fmt.Errorf("failed to marshal hook: %w", err)
+		}
+		_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.Set(ctx, key, data, 0)
+			return nil
+		})
+		return err
+	}, key)
+	if errors.Is(err, redis.Nil) || errors.Is(err, redis.TxFailedErr) {
+		return nil // deleted, or just changed by someone else
+	}
+	return err
 }
-- 
2.43.0


From 854bf2fc6bd01f822912c84722e4d70abb474bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 12/37] fix: a dry run of a commit or void of a queued hold
 projects the leg its worker recorded

---
 transaction_dryrun_inflight.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 964685d..537f95f 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -183,6 +183,15 @@ func (l *Blnk) PreviewInflightAction(ctx context.Context, txID, action string, a
 // the real commit and void paths expand it.
 func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*model.Transaction, error) {
 	transaction, err := l.fetchAndValidateInflightTransaction(ctx, txID)
+	if err == nil && transaction.Status == StatusQueued {
+		// The funds of a queued inflight transaction are held by the leg its
+		// worker recorded, and a real commit or void settles that leg.
+		legID, legErr := l.recordedInflightLeg(ctx, txID)
+		if legErr != nil {
+			return nil, legErr
+		}
+		transaction, err = l.fetchAndValidateInflightTransaction(ctx, legID)
+	}
 	if err == nil {
 		return []*model.Transaction{transaction}, nil
 	}
-- 
2.43.0


From 9e3e5b2906595c45dd281a502eb4ea77d19c97a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 13/37] fix: the rounding remainder of a split goes to the same
 part every time

---
 model/transaction.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index d592d51..ec03a51 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -249,12 +249,13 @@ func adjustPercentageAmounts(state *distributionState) {
 	}
 }
 
-// findLargestDecimal finds the key with the largest decimal value
+// findLargestDecimal finds the key with the largest decimal value. Equal values
+// are told apart by key, so that the answer doesn't depend on map order.
 func findLargestDecimal(amounts map[string]decimal.Decimal) (string, decimal.Decimal) {
 	var largestKey string
 	var largestAmount decimal.Decimal
 	for id, amount := range amounts {
-		if amount.Cmp(largestAmount) > 0 {
+		if c := amount.Cmp(largestAmount); c > 0 || (c == 0 && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
@@ -302,10 +303,12 @@ func balanceDistributions(state *distributionState) {
 		return
 	}
 
+	// Equal amounts are told apart by key: a dry run and the real split must give
+	// the remainder to the same part, whatever the map order.
 	var largestKey string
 	largestAmount := big.NewInt(0)
 	for id, amount := range state.result {
-		if amount.Cmp(largestAmount) > 0 {
+		if c := amount.Cmp(largestAmount); c > 0 || (c == 0 && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
-- 
2.43.0


From b813ca46e799e2bd409c5c5e33d4009beaf2bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 14/37] fix: verify-chain reports entries missing from the end
 of the chain

---
 chain_worker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chain_worker.go b/chain_worker.go
index 7c121cc..c7f2192 100644
--- a/chain_worker.go
+++ b/chain_worker.go
@@ -209,6 +209,13 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 		}
 	}
 
+	// The chain only grows, so it can be longer than recorded when the state was
+	// read, but never shorter: its last entries are missing.
+	if lastSeq < state.LastSeq {
+		return ChainVerifyResult{BrokenSeq: expectedSeq,
+			Reason: fmt.Sprintf("chain ends at %d, but chain_state records %d sealed transactions", lastSeq, state.LastSeq)}, nil
+	}
+
 	// The replayed head must match the recorded head at the recorded length.
 	if lastSeq == state.LastSeq && head != state.HeadHash {
 		return ChainVerifyResult{BrokenSeq: lastSeq, Reason: "replayed head does not match chain_state head_hash"}, nil
-- 
2.43.0


From 8c01fbf8bc85ec920d8b539d5a83a81fff4dd1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 15/37] fix: track the lineage of queued inflight transactions

A queued hold carries a parent and the inflight marker just as a commit does,
so prepareTransactionOutbox took it for one and recorded no lineage work.
---
 transaction_execution.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_execution.go b/transaction_execution.go
index d36f7a3..3c856b9 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -764,7 +764,7 @@ func (l *Blnk) prepareTransactionOutbox(ctx context.Context, transaction *model.
 	}
 
 	// Skip lineage for commits of inflight transactions - lineage was already created for the original.
-	isInflightCommit := transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
+	isInflightCommit := transaction.Status == StatusApplied && transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
 	if isInflightCommit {
 		return nil
 	}
-- 
2.43.0


From 3db06d809b3ee61fb94329a7306726983081f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 16/37] fix: do not allocate lineage funds already released to
 an inflight spend

getLineageSources ignored the inflight credits of a shadow balance, so that
funds released to one hold were allocated to the next spend as well.
---
 lineage_allocation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 0444713..9862dbc 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -53,6 +53,10 @@ func (l *Blnk) getLineageSources(ctx context.Context, mappings []model.LineageMa
 
 		if balance.DebitBalance != nil && balance.CreditBalance != nil && balance.DebitBalance.Cmp(big.NewInt(0)) > 0 {
 			available := new(big.Int).Sub(balance.DebitBalance, balance.CreditBalance)
+			// Funds already released to an inflight spend are spoken for.
+			if balance.InflightCreditBalance != nil {
+				available.Sub(available, balance.InflightCreditBalance)
+			}
 			if available.Cmp(big.NewInt(0)) > 0 {
 				sources = append(sources, LineageSource{
 					BalanceID: mapping.ShadowBalanceID,
-- 
2.43.0


From 150a0a5be57c0f06b0c84dc07aa5a83bece17c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 17/37] fix: resume a lineage debit that stopped half-way

A retry did not receive what an earlier attempt had released, allocated the
remainder to providers that release only once, and dropped the allocation of
the earlier attempt from the metadata; failed lookups completed the entry.
---
 lineage_debit.go | 80 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 13 deletions(-)

diff --git a/lineage_debit.go b/lineage_debit.go
index c5f6cb2..0d3e5c1 100644
--- a/lineage_debit.go
+++ b/lineage_debit.go
@@ -23,7 +23,6 @@ import (
 
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/model"
-	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/trace"
 )
@@ -43,8 +42,7 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		// If so, retry later after those credits are processed
 		hasPending, err := l.datasource.HasPendingCreditOutbox(ctx, sourceBalance.BalanceID)
 		if err != nil {
-			logrus.Warnf("failed to check pending credit outbox for balance %s: %v", sourceBalance.BalanceID, err)
-			return nil
+			return fmt.Errorf("failed to check pending credit outbox for balance %s: %w", sourceBalance.BalanceID, err)
 		}
 		if hasPending {
 			return fmt.Errorf("pending credit outbox entries exist for balance %s, retry later", sourceBalance.BalanceID)
@@ -64,12 +62,11 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 	if destinationBalance != nil && destinationBalance.TrackFundLineage && destinationBalance.IdentityID != "" {
 		destLineageBalances, err = l.prepareDestinationLineageBalances(ctx, mappings, destinationBalance)
 		if err != nil {
-			logrus.Warnf("failed to prepare destination lineage balances: %v", err)
-		} else {
-			for _, info := range destLineageBalances {
-				lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
-				lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
-			}
+			return fmt.Errorf("failed to prepare destination lineage balances: %w", err)
+		}
+		for _, info := range destLineageBalances {
+			lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
+			lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
 		}
 	}
 
@@ -89,12 +86,21 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 	if err != nil {
 		return err
 	}
+
+	// An earlier attempt may have stopped anywhere after its first release: complete what
+	// belongs to the releases it recorded, and leave their providers out of the allocation
+	// of the remainder, since a provider releases to a transaction only once.
+	released, err := l.resumeReleases(ctx, txn, mappings, sourceBalance, destinationBalance, destLineageBalances)
+	if err != nil {
+		return err
+	}
 	if remaining.Sign() <= 0 {
+		l.updateFundAllocationMetadata(ctx, txn, released, mappings)
 		span.AddEvent("Lineage debit already fully processed; nothing to allocate")
 		return nil
 	}
 
-	allocations := l.calculateAllocation(sources, remaining, sourceBalance.AllocationStrategy)
+	allocations := l.calculateAllocation(withoutReleased(sources, released), remaining, sourceBalance.AllocationStrategy)
 
 	sourceAggBalance, err := l.getSourceAggregateBalance(ctx, sourceBalance)
 	if err != nil {
@@ -104,7 +110,7 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 	if err := l.processAllocations(ctx, txn, allocations, mappings, sourceBalance, destinationBalance, sourceAggBalance, destLineageBalances); err != nil {
 		return err
 	}
-	l.updateFundAllocationMetadata(ctx, txn, allocations, mappings)
+	l.updateFundAllocationMetadata(ctx, txn, append(released, allocations...), mappings)
 
 	span.AddEvent("Lineage debit processed", trace.WithAttributes(attribute.Int("allocations", len(allocations))))
 	return nil
@@ -143,6 +149,47 @@ func (l *Blnk) remainingDebitAmount(ctx context.Context, txn *model.Transaction,
 	return new(big.Int).Sub(txn.PreciseAmount, released), nil
 }
 
+// resumeReleases completes the destination side of the releases that an earlier attempt recorded
+// for the transaction, and returns those releases.
+func (l *Blnk) resumeReleases(ctx context.Context, txn *model.Transaction, mappings []model.LineageMapping, sourceBalance, destinationBalance *model.Balance, destLineageBalances map[string]*destinationLineageInfo) ([]Allocation, error) {
+	var released []Allocation
+	for i := range mappings {
+		ref := releaseReference(txn.Reference, mappings[i].Provider)
+		exists, err := l.datasource.TransactionExistsByRef(ctx, ref)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check release idempotency: %w", err)
+		}
+		if !exists {
+			continue
+		}
+		prior, err := l.datasource.GetTransactionByRef(ctx, ref)
+		if err != nil {
+			return nil, fmt.Errorf("failed to load prior release %s: %w", ref, err)
+		}
+		alloc := Allocation{BalanceID: mappings[i].ShadowBalanceID, Amount: prior.PreciseAmount}
+		if err := l.processDestinationLineage(ctx, txn, alloc, &mappings[i], sourceBalance, destinationBalance, destLineageBalances); err != nil {
+			return nil, fmt.Errorf("failed to process destination lineage: %w", err)
+		}
+		released = append(released, alloc)
+	}
+	return released, nil
+}
+
+// withoutReleased drops the sources that already released funds to the transaction.
+func withoutReleased(sources []LineageSource, released []Allocation) []LineageSource {
+	rest := make([]LineageSource, 0, len(sources))
+	for _, source := range sources {
+		done := false
+		for _, alloc := range released {
+			done = done || alloc.BalanceID == source.BalanceID
+		}
+		if !done {
+			rest = append(rest, source)
+		}
+	}
+	return rest
+}
+
 // prepareDestinationLineageBalances pre-creates destination shadow and aggregate balances for all providers.
 // This is called BEFORE acquiring locks to avoid nested lock acquisition deadlocks.
 //
@@ -337,8 +384,15 @@ func (l *Blnk) processDestinationLineage(ctx context.Context, txn *model.Transac
 	destShadowBalance := destInfo.shadowBalance
 	destAggBalance := destInfo.aggregateBalance
 
-	if err := l.queueReceiveTransaction(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destShadowBalance, destAggBalance); err != nil {
-		return fmt.Errorf("failed to queue receive transaction: %w", err)
+	// A retry may find the funds received already.
+	exists, err := l.datasource.TransactionExistsByRef(ctx, receiveReference(txn.Reference, mapping.Provider))
+	if err != nil {
+		return fmt.Errorf("failed to check receive idempotency: %w", err)
+	}
+	if !exists {
+		if err := l.queueReceiveTransaction(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destShadowBalance, destAggBalance); err != nil {
+			return fmt.Errorf("failed to queue receive transaction: %w", err)
+		}
 	}
 
 	destMapping := model.LineageMapping{
-- 
2.43.0


From 5861637b3aef897e69925c726666d23b7d3c0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 18/37] fix: resume a lineage credit that stopped half-way

A retry failed for good on the reference its shadow credit had used already,
and a failed mapping left the funds of the provider unallocatable.
---
 lineage_credit.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lineage_credit.go b/lineage_credit.go
index 08da11f..2071294 100644
--- a/lineage_credit.go
+++ b/lineage_credit.go
@@ -22,7 +22,6 @@ import (
 	"math/big"
 
 	"github.com/blnkfinance/blnk/model"
-	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/trace"
 )
@@ -50,14 +49,21 @@ func (l *Blnk) processLineageCredit(ctx context.Context, txn *model.Transaction,
 	}
 	defer l.releaseLock(ctx, locker)
 
-	if err := l.queueShadowCreditTransaction(ctx, txn, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
-		return err
+	// A retry may find the shadow transaction recorded already by an attempt that stopped after it.
+	exists, err := l.datasource.TransactionExistsByRef(ctx, shadowCreditReference(txn.Reference, provider))
+	if err != nil {
+		return fmt.Errorf("failed to check shadow credit idempotency: %w", err)
+	}
+	if !exists {
+		if err := l.queueShadowCreditTransaction(ctx, txn, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
+			return err
+		}
 	}
 
+	// Without its mapping the provider's funds are never allocated, so a failure is retried.
 	if err := l.upsertCreditLineageMapping(ctx, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
-		logrus.Errorf("failed to create lineage mapping after shadow transaction: %v (txn: %s, provider: %s)", err, txn.TransactionID, provider)
 		span.RecordError(err)
-		// Don't return error - shadow transaction succeeded, mapping is for optimization
+		return err
 	}
 
 	span.AddEvent("Lineage credit processed", trace.WithAttributes(
@@ -130,6 +136,11 @@ func (l *Blnk) upsertCreditLineageMapping(ctx context.Context, destBalance *mode
 	return nil
 }
 
+// shadowCreditReference builds the reference of a provider's shadow credit, stable across retries.
+func shadowCreditReference(parentRef, provider string) string {
+	return fmt.Sprintf("%s_shadow_%s", parentRef, provider)
+}
+
 // queueShadowCreditTransaction queues a shadow transaction to track credited funds from a provider.
 //
 // Parameters:
@@ -151,7 +162,7 @@ func (l *Blnk) queueShadowCreditTransaction(ctx context.Context, txn *model.Tran
 		PreciseAmount: new(big.Int).Set(txn.PreciseAmount),
 		Currency:      destBalance.Currency,
 		Precision:     txn.Precision,
-		Reference:     fmt.Sprintf("%s_shadow_%s", txn.Reference, provider),
+		Reference:     shadowCreditReference(txn.Reference, provider),
 		Description:   fmt.Sprintf("Shadow credit from %s", provider),
 		MetaData: map[string]interface{}{
 			"_shadow_for":   txn.TransactionID,
-- 
2.43.0


From 0832da9c410f76e753b83f46999cb228ef9b754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 19/37] fix: settle the shadows of a hold settled before its
 lineage was processed

The commit or void found no shadow transactions then, and the shadows that
the outbox created afterwards stayed inflight for ever.
---
 lineage_outbox.go |  7 +++++++
 lineage_shadow.go | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/lineage_outbox.go b/lineage_outbox.go
index 8c14267..a496056 100644
--- a/lineage_outbox.go
+++ b/lineage_outbox.go
@@ -189,6 +189,13 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 		return err
 	}
 
+	if entry.Inflight {
+		if err := l.settleLateShadows(ctx, entry.TransactionID); err != nil {
+			span.RecordError(err)
+			return err
+		}
+	}
+
 	span.AddEvent("Lineage processing completed from outbox")
 	return nil
 }
diff --git a/lineage_shadow.go b/lineage_shadow.go
index f2431a9..30e5fa6 100644
--- a/lineage_shadow.go
+++ b/lineage_shadow.go
@@ -41,8 +41,7 @@ func (l *Blnk) commitShadowTransactions(ctx context.Context, parentTransactionID
 	for _, shadow := range shadowTxns {
 		_, err := l.CommitInflightTransaction(ctx, shadow.TransactionID, shadow.PreciseAmount)
 		if err != nil {
-			if strings.Contains(err.Error(), "already committed") ||
-				strings.Contains(err.Error(), "not in inflight status") {
+			if shadowAlreadySettled(err) {
 				span.AddEvent("Shadow transaction already processed, skipping", trace.WithAttributes(
 					attribute.String("shadow.id", shadow.TransactionID),
 				))
@@ -88,8 +87,7 @@ func (l *Blnk) voidShadowTransactions(ctx context.Context, parentTransactionID s
 	for _, shadow := range shadowTxns {
 		_, err := l.VoidInflightTransaction(ctx, shadow.TransactionID)
 		if err != nil {
-			if strings.Contains(err.Error(), "already committed") ||
-				strings.Contains(err.Error(), "not in inflight status") {
+			if shadowAlreadySettled(err) {
 				span.AddEvent("Shadow transaction already processed, skipping", trace.WithAttributes(
 					attribute.String("shadow.id", shadow.TransactionID),
 				))
@@ -112,6 +110,35 @@ func (l *Blnk) voidShadowTransactions(ctx context.Context, parentTransactionID s
 	return nil
 }
 
+// shadowAlreadySettled reports whether a shadow transaction could not be committed or voided
+// because nothing of it is left to settle.
+func shadowAlreadySettled(err error) bool {
+	msg := err.Error()
+	return strings.Contains(msg, "already committed") ||
+		strings.Contains(msg, "already been voided") ||
+		strings.Contains(msg, "not in inflight status")
+}
+
+// settleLateShadows settles the shadows of an inflight transaction that was committed or
+// voided before its lineage was processed: no shadows existed at that time.
+func (l *Blnk) settleLateShadows(ctx context.Context, parentTransactionID string) error {
+	voided, err := l.datasource.IsParentTransactionVoid(ctx, parentTransactionID)
+	if err != nil {
+		return fmt.Errorf("failed to check parent transaction status: %w", err)
+	}
+	committed, err := l.datasource.GetTotalCommittedTransactions(ctx, parentTransactionID)
+	if err != nil {
+		return fmt.Errorf("failed to get committed amount: %w", err)
+	}
+	if committed.Sign() > 0 {
+		return l.commitShadowTransactions(ctx, parentTransactionID, nil)
+	}
+	if voided {
+		return l.voidShadowTransactions(ctx, parentTransactionID)
+	}
+	return nil
+}
+
 // queueShadowWork processes shadow commit or void work synchronously first, and queues
 // to outbox for retry only if there are failures. This provides both immediate processing
 // and guaranteed delivery for failed operations.
-- 
2.43.0


From 4bb9cc5ebc8ef82ffc113facc75aea46a78a8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 20/37] fix: retry lineage work whose balances could not be
 read

The lookup error was logged and the entry completed without any lineage.
---
 lineage_outbox.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineage_outbox.go b/lineage_outbox.go
index a496056..556adfe 100644
--- a/lineage_outbox.go
+++ b/lineage_outbox.go
@@ -176,12 +176,16 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 		sourceBalance, err = l.datasource.GetBalanceByIDLite(entry.SourceBalanceID)
 		if err != nil {
 			logrus.Warnf("failed to get source balance %s for lineage processing: %v", entry.SourceBalanceID, err)
+			// Without its source a debit would be skipped and the entry completed all the same.
+			if entry.LineageType != model.LineageTypeCredit {
+				return fmt.Errorf("failed to get source balance %s: %w", entry.SourceBalanceID, err)
+			}
 		}
 	}
 	if entry.DestinationBalanceID != "" {
 		destinationBalance, err = l.datasource.GetBalanceByIDLite(entry.DestinationBalanceID)
 		if err != nil {
-			logrus.Warnf("failed to get destination balance %s for lineage processing: %v", entry.DestinationBalanceID, err)
+			return fmt.Errorf("failed to get destination balance %s: %w", entry.DestinationBalanceID, err)
 		}
 	}
 
-- 
2.43.0


From 4018f7f0783ca816d0af03e19948f0a6eaf5e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 21/37] fix: keep a lineage outbox entry completed when a late
 worker fails

A worker whose lease ran out set the entry another worker had completed back
to pending, and its lineage was processed again.
---
 database/lineage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/lineage.go b/database/lineage.go
index b6e089d..2e5b8a2 100644
--- a/database/lineage.go
+++ b/database/lineage.go
@@ -367,6 +367,7 @@ func (d Datasource) MarkOutboxCompleted(ctx context.Context, id int64) error {
 
 // MarkOutboxFailed marks an outbox entry as failed and increments the attempt counter.
 // If attempts exceed max_attempts, the status becomes 'failed', otherwise it returns to 'pending' for retry.
+// An entry that another worker completed after this one's lease ran out stays completed.
 func (d Datasource) MarkOutboxFailed(ctx context.Context, id int64, errMsg string) error {
 	_, err := d.Conn.ExecContext(ctx, `
 		UPDATE blnk.lineage_outbox
@@ -374,7 +375,7 @@ func (d Datasource) MarkOutboxFailed(ctx context.Context, id int64, errMsg strin
 			attempts = attempts + 1,
 			last_error = $3,
 			locked_until = NULL
-		WHERE id = $4
+		WHERE id = $4 AND status IN ('pending', 'processing')
 	`, model.OutboxStatusFailed, model.OutboxStatusPending, errMsg, id)
 	if err != nil {
 		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to mark outbox entry as failed", err)
-- 
2.43.0


From 4744b96483330b405ccac5274017c8e852b27096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 22/37] fix: key cached external transaction pages by upload

---
 database/reconciliation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/reconciliation.go b/database/reconciliation.go
index 1ede9d5..e6115c1 100644
--- a/database/reconciliation.go
+++ b/database/reconciliation.go
@@ -613,8 +613,8 @@ func (d Datasource) GetExternalTransactionsPaginated(ctx context.Context, upload
 	ctx, span := otel.Tracer("reconciliation.database").Start(ctx, "Fetching external transactions with pagination")
 	defer span.End()
 
-	// Create a cache key based on the pagination parameters
-	cacheKey := fmt.Sprintf("transactions:external:paginated:%d:%d", batchSize, offset)
+	// Create a cache key based on the upload and the pagination parameters
+	cacheKey := fmt.Sprintf("transactions:external:paginated:%s:%d:%d", uploadID, batchSize, offset)
 	var transactions []*model.ExternalTransaction
 
 	// Check if the data exists in the cache
-- 
2.43.0


From 4ed9225cfed0a5e00b9c35ed9ab28c1d2436e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 23/37] fix: match each internal and external transaction once
 in one-to-one runs

---
 reconciliation.go | 52 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 7fb337f..f20bda8 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -404,11 +404,12 @@ func (s *Blnk) initializeReconciliationProgress(ctx context.Context, reconciliat
 // Returns:
 // - reconciler: A function that performs reconciliation according to the specified strategy.
 func (s *Blnk) createReconciler(strategy string, uploadID string, groupCriteria string, matchingRules []model.MatchingRule) reconciler {
+	claims := newMatchClaims() // shared by all transactions of the run
 	return func(ctx context.Context, txns []*model.Transaction) ([]model.Match, []string) {
 		switch strategy {
 		case "one_to_one":
 			// Perform one-to-one reconciliation.
-			return s.oneToOneReconciliation(ctx, txns, matchingRules)
+			return s.oneToOneWithClaims(ctx, txns, matchingRules, claims)
 		case "one_to_many":
 			// Perform one-to-many reconciliation.
 			return s.oneToManyReconciliation(ctx, txns, groupCriteria, matchingRules, false)
@@ -628,6 +629,33 @@ func (s *Blnk) finalizeReconciliation(ctx context.Context, reconciliation model.
 // - []model.Match: A list of matched transactions.
 // - []string: A list of unmatched transaction IDs.
 func (s *Blnk) oneToOneReconciliation(ctx context.Context, externalTxns []*model.Transaction, matchingRules []model.MatchingRule) ([]model.Match, []string) {
+	return s.oneToOneWithClaims(ctx, externalTxns, matchingRules, newMatchClaims())
+}
+
+// matchClaims records the internal transactions matched so far in a one-to-one run,
+// so that none of them is matched with two external transactions.
+type matchClaims struct {
+	mu       sync.Mutex
+	internal map[string]struct{}
+}
+
+func newMatchClaims() *matchClaims {
+	return &matchClaims{internal: make(map[string]struct{})}
+}
+
+// claim reserves an internal transaction; it reports false if it is taken already.
+func (c *matchClaims) claim(transactionID string) bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if _, taken := c.internal[transactionID]; taken {
+		return false
+	}
+	c.internal[transactionID] = struct{}{}
+	return true
+}
+
+// oneToOneWithClaims is oneToOneReconciliation for one part of a run that shares its claims with the others.
+func (s *Blnk) oneToOneWithClaims(ctx context.Context, externalTxns []*model.Transaction, matchingRules []model.MatchingRule, claims *matchClaims) ([]model.Match, []string) {
 	conf, err := config.Fetch()
 	if err != nil {
 		logrus.Errorf("Error fetching configuration: %v", err)
@@ -653,7 +681,7 @@ func (s *Blnk) oneToOneReconciliation(ctx context.Context, externalTxns []*model
 			sem <- struct{}{}        // Acquire token
 			defer func() { <-sem }() // Release token
 
-			err := s.findMatchingInternalTransaction(ctx, extTxn, matchingRules, matchChan, unmatchedChan)
+			err := s.findMatchingInternalTransaction(ctx, extTxn, matchingRules, claims, matchChan, unmatchedChan)
 			if err != nil {
 				unmatchedChan <- extTxn.TransactionID
 				logrus.Errorf("No match found for external transaction %s: %v", extTxn.TransactionID, err)
@@ -1009,16 +1037,19 @@ func (s *Blnk) groupInternalTransactions(ctx context.Context, groupingCriteria s
 // - ctx: The context controlling the operation.
 // - externalTxn: The external transaction to match.
 // - matchingRules: The rules for matching transactions.
+// - claims: The internal transactions the run has matched already.
 // - matchChan: Channel to send matched transactions.
 // - unMatchChan: Channel to send unmatched transaction IDs.
 // Returns:
 // - error: If any error occurs during processing.
-func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn *model.Transaction, matchingRules []model.MatchingRule, matchChan chan model.Match, unMatchChan chan string) error {
+func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn *model.Transaction, matchingRules []model.MatchingRule, claims *matchClaims, matchChan chan model.Match, unMatchChan chan string) error {
 	conf, err := config.Fetch()
 	if err != nil {
 		return err
 	}
 
+	// The workers below run concurrently; only the first one to find a match records it.
+	var matchMu sync.Mutex
 	matchFound := false
 
 	minAmount, maxAmount, minDate, maxDate, currency := s.calculateMatchingBounds(externalTxn, matchingRules)
@@ -1040,7 +1071,11 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 				case <-ctx.Done():
 					return
 				default:
-					if s.matchesRules(externalTxn, *internalTxn, matchingRules) {
+					if !s.matchesRules(externalTxn, *internalTxn, matchingRules) {
+						continue
+					}
+					matchMu.Lock()
+					if !matchFound && claims.claim(internalTxn.TransactionID) {
 						matchChan <- model.Match{
 							ExternalTransactionID: externalTxn.TransactionID,
 							InternalTransactionID: internalTxn.TransactionID,
@@ -1048,6 +1083,10 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 							Date:                  externalTxn.CreatedAt,
 						}
 						matchFound = true
+					}
+					found := matchFound
+					matchMu.Unlock()
+					if found {
 						return
 					}
 				}
@@ -1058,7 +1097,10 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 		return err
 	}
 
-	if !matchFound {
+	matchMu.Lock()
+	found := matchFound
+	matchMu.Unlock()
+	if !found {
 		select {
 		case unMatchChan <- externalTxn.TransactionID:
 		default:
-- 
2.43.0


From 9e8f6d214c84c67420549316d2bf221cba8c446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 24/37] fix: search for matches by amount or date only where
 every rule bounds them

---
 reconciliation.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index f20bda8..6e0bf59 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -1531,10 +1531,12 @@ func (s *Blnk) calculateMatchingBounds(externalTxn *model.Transaction, matchingR
 
 	firstAmount := true
 	firstDate := true
-	hasAmountCriteria := false
-	hasDateCriteria := false
+	// A transaction matches when any one rule matches, so a bound applies only if every rule has one.
+	hasAmountCriteria := len(matchingRules) > 0
+	hasDateCriteria := len(matchingRules) > 0
 
 	for _, rule := range matchingRules {
+		ruleBoundsAmount, ruleBoundsDate := false, false
 		for _, criteria := range rule.Criteria {
 			if criteria.Field == "amount" && criteria.Operator == "equals" {
 				drift := criteria.AllowableDrift // fraction: 0.01 = 1%
@@ -1555,7 +1557,7 @@ func (s *Blnk) calculateMatchingBounds(externalTxn *model.Transaction, matchingR
 						highestMaxAmount = high
 					}
 				}
-				hasAmountCriteria = true
+				ruleBoundsAmount = true
 			}
 			if criteria.Field == "date" && criteria.Operator == "equals" {
 				drift := time.Duration(criteria.AllowableDrift) * time.Second
@@ -1575,9 +1577,11 @@ func (s *Blnk) calculateMatchingBounds(externalTxn *model.Transaction, matchingR
 						latestMaxDate = high
 					}
 				}
-				hasDateCriteria = true
+				ruleBoundsDate = true
 			}
 		}
+		hasAmountCriteria = hasAmountCriteria && ruleBoundsAmount
+		hasDateCriteria = hasDateCriteria && ruleBoundsDate
 	}
 
 	if hasAmountCriteria {
-- 
2.43.0


From 3e9a01c924184973d214079b31f83ab0441e8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 25/37] fix: give grouped reconciliation one verdict per
 transaction across pages of groups

---
 reconciliation.go | 110 ++++++++++++++++------------------------------
 1 file changed, 39 insertions(+), 71 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 6e0bf59..8da6b76 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -725,18 +725,14 @@ func (s *Blnk) oneToManyReconciliation(ctx context.Context, externalTxns []*mode
 
 	matchChan := make(chan model.Match, len(externalTxns))
 	unmatchedChan := make(chan string, len(externalTxns))
-	var wg sync.WaitGroup
 
 	// Initiate the one-to-many reconciliation process.
-	err = s.oneToMany(ctx, externalTxns, matchingRules, isExternalGrouped, &wg, groupCriteria, conf.Transaction.BatchSize, matchChan, unmatchedChan)
-	if err != nil {
-		logrus.Errorf("Error in one-to-many reconciliation: %v", err)
-	}
-
 	go func() {
-		wg.Wait()
-		close(matchChan)
-		close(unmatchedChan)
+		defer close(unmatchedChan)
+		defer close(matchChan)
+		if err := s.oneToMany(ctx, externalTxns, matchingRules, isExternalGrouped, groupCriteria, conf.Transaction.BatchSize, matchChan, unmatchedChan); err != nil {
+			logrus.Errorf("Error in one-to-many reconciliation: %v", err)
+		}
 	}()
 
 	for match := range matchChan {
@@ -766,19 +762,14 @@ func (s *Blnk) manyToOneReconciliation(ctx context.Context, internalTxns []*mode
 
 	matchChan := make(chan model.Match, len(internalTxns))
 	unmatchedChan := make(chan string, len(internalTxns))
-	var wg sync.WaitGroup
 
 	// Initiate the many-to-one reconciliation process.
-	err = s.manyToOne(ctx, internalTxns, uploadID, matchingRules, isExternalGrouped, &wg, groupCriteria, conf.Transaction.BatchSize, matchChan, unmatchedChan)
-	if err != nil {
-		logrus.Errorf("Error in many-to-one reconciliation: %v", err)
-	}
-
-	// Close channels after processing.
 	go func() {
-		wg.Wait()
-		close(matchChan)
-		close(unmatchedChan)
+		defer close(unmatchedChan)
+		defer close(matchChan)
+		if err := s.manyToOne(ctx, internalTxns, uploadID, matchingRules, isExternalGrouped, groupCriteria, conf.Transaction.BatchSize, matchChan, unmatchedChan); err != nil {
+			logrus.Errorf("Error in many-to-one reconciliation: %v", err)
+		}
 	}()
 
 	for match := range matchChan {
@@ -798,27 +789,23 @@ func (s *Blnk) manyToOneReconciliation(ctx context.Context, internalTxns []*mode
 // - internalTxns: The internal transactions to match against.
 // - matchingRules: The rules to apply during reconciliation.
 // - isExternalGrouped: Whether the external transactions are grouped or not.
-// - wg: The WaitGroup to manage goroutines.
 // - groupingCriteria: The criteria used to group transactions.
 // - batchSize: The size of each batch of transactions to process.
 // - matchChan: Channel to collect matched transactions.
 // - unMatchChan: Channel to collect unmatched transactions.
 // Returns:
 // - error: If any error occurs during processing.
-func (s *Blnk) manyToOne(ctx context.Context, internalTxns []*model.Transaction, uploadID string, matchingRules []model.MatchingRule, isExternalGrouped bool, wg *sync.WaitGroup, groupingCriteria string, batchSize int, matchChan chan model.Match, unMatchChan chan string) error {
+func (s *Blnk) manyToOne(ctx context.Context, internalTxns []*model.Transaction, uploadID string, matchingRules []model.MatchingRule, isExternalGrouped bool, groupingCriteria string, batchSize int, matchChan chan model.Match, unMatchChan chan string) error {
 	offset := int64(0)
 	ctx, span := otel.Tracer("blnk.reconciliation").Start(ctx, "ProcessManyToOne")
 	defer span.End()
 
-	processedAny := false
-	// Every input transaction must end up matched or unmatched; if the loop
-	// exits before any group batch was processed, report them all unmatched
-	// instead of silently dropping them from the reconciliation results.
+	// Every input transaction must end up matched or unmatched, exactly once: one that
+	// is in no page of groups is reported unmatched after the last page.
+	remaining := internalTxns
 	defer func() {
-		if !processedAny {
-			for _, txn := range internalTxns {
-				unMatchChan <- txn.TransactionID
-			}
+		for _, txn := range remaining {
+			unMatchChan <- txn.TransactionID
 		}
 	}()
 
@@ -833,19 +820,9 @@ func (s *Blnk) manyToOne(ctx context.Context, internalTxns []*model.Transaction,
 			span.AddEvent("No more grouped transactions to process")
 			break
 		}
-		processedAny = true
 		groupMap := s.buildGroupMap(groupedExternalTxns)
 		var groupMapMu sync.Mutex
-		err = s.processGroupedTransactions(internalTxns, groupedExternalTxns, groupMap, &groupMapMu, matchingRules, isExternalGrouped, wg, matchChan, unMatchChan)
-		if err != nil {
-			logrus.Errorf("Error processing grouped transactions: %v", err)
-		}
-		groupMapMu.Lock()
-		groupMapEmpty := len(groupMap) == 0
-		groupMapMu.Unlock()
-		if groupMapEmpty {
-			break
-		}
+		remaining = s.processGroupedTransactions(remaining, groupedExternalTxns, groupMap, &groupMapMu, matchingRules, isExternalGrouped, matchChan)
 		offset += int64(batchSize)
 	}
 	return nil
@@ -873,12 +850,10 @@ func (s *Blnk) groupExternalTransactions(ctx context.Context, uploadID string, g
 // - groupMap: A map indicating the groups that have not yet been matched.
 // - matchingRules: The rules to apply for matching transactions.
 // - isExternalGrouped: Whether the external transactions are grouped.
-// - wg: The WaitGroup managing goroutines.
 // - matchChan: Channel for collecting matches.
-// - unMatchChan: Channel for collecting unmatched transaction IDs.
 // Returns:
-// - error: If any error occurs during processing.
-func (s *Blnk) processGroupedTransactions(singleTxns []*model.Transaction, groupedTxns map[string][]*model.Transaction, groupMap map[string]bool, groupMapMu *sync.Mutex, matchingRules []model.MatchingRule, isExternalGrouped bool, wg *sync.WaitGroup, matchChan chan model.Match, unMatchChan chan string) error {
+// - []*model.Transaction: The single transactions that match none of the groups.
+func (s *Blnk) processGroupedTransactions(singleTxns []*model.Transaction, groupedTxns map[string][]*model.Transaction, groupMap map[string]bool, groupMapMu *sync.Mutex, matchingRules []model.MatchingRule, isExternalGrouped bool, matchChan chan model.Match) []*model.Transaction {
 	conf, err := config.Fetch()
 	if err != nil {
 		logrus.Errorf("Error fetching configuration: %v", err)
@@ -889,21 +864,27 @@ func (s *Blnk) processGroupedTransactions(singleTxns []*model.Transaction, group
 	}
 	sem := make(chan struct{}, maxWorkers) // Semaphore to limit concurrency
 
-	for _, singleTxn := range singleTxns {
+	var wg sync.WaitGroup
+	found := make([]bool, len(singleTxns))
+	for i, singleTxn := range singleTxns {
 		wg.Add(1)
-		go func(txn *model.Transaction) {
+		go func(i int, txn *model.Transaction) {
 			defer wg.Done()
 			sem <- struct{}{}        // Acquire token
 			defer func() { <-sem }() // Release token
 
-			matched := s.matchSingleTransaction(txn, groupedTxns, groupMap, groupMapMu, matchingRules, isExternalGrouped, matchChan)
-			if !matched {
-				unMatchChan <- txn.TransactionID
-			}
-		}(singleTxn)
+			found[i] = s.matchSingleTransaction(txn, groupedTxns, groupMap, groupMapMu, matchingRules, isExternalGrouped, matchChan)
+		}(i, singleTxn)
 	}
+	wg.Wait()
 
-	return nil
+	var unmatched []*model.Transaction
+	for i, txn := range singleTxns {
+		if !found[i] {
+			unmatched = append(unmatched, txn)
+		}
+	}
+	return unmatched
 }
 
 // matchSingleTransaction attempts to match a single transaction with a group of transactions based on matching rules.
@@ -965,19 +946,16 @@ func (s *Blnk) matchSingleTransaction(singleTxn *model.Transaction, groupedTxns
 // Parameters are similar to `manyToOne`, but it processes transactions in reverse (one external to many internal).
 // Returns:
 // - error: If any error occurs during processing.
-func (s *Blnk) oneToMany(ctx context.Context, singleTxn []*model.Transaction, matchingRules []model.MatchingRule, isExternalGrouped bool, wg *sync.WaitGroup, groupingCriteria string, batchSize int, matchChan chan model.Match, unMatchChan chan string) error {
+func (s *Blnk) oneToMany(ctx context.Context, singleTxn []*model.Transaction, matchingRules []model.MatchingRule, isExternalGrouped bool, groupingCriteria string, batchSize int, matchChan chan model.Match, unMatchChan chan string) error {
 	offset := int64(0)
 	ctx, span := otel.Tracer("blnk.reconciliation").Start(ctx, "ProcessOneToMany")
 	defer span.End()
 
-	processedAny := false
-	// Mirror manyToOne: inputs must never silently vanish when no group
-	// batch was processed.
+	// Mirror manyToOne: every input ends up matched or unmatched, exactly once.
+	remaining := singleTxn
 	defer func() {
-		if !processedAny {
-			for _, txn := range singleTxn {
-				unMatchChan <- txn.TransactionID
-			}
+		for _, txn := range remaining {
+			unMatchChan <- txn.TransactionID
 		}
 	}()
 
@@ -991,19 +969,9 @@ func (s *Blnk) oneToMany(ctx context.Context, singleTxn []*model.Transaction, ma
 			span.AddEvent("No more grouped transactions to process")
 			break
 		}
-		processedAny = true
 		groupMap := s.buildGroupMap(txns)
 		var groupMapMu sync.Mutex
-		err = s.processGroupedTransactions(singleTxn, txns, groupMap, &groupMapMu, matchingRules, isExternalGrouped, wg, matchChan, unMatchChan)
-		if err != nil {
-			logrus.Errorf("Error in one-to-many reconciliation: %v", err)
-		}
-		groupMapMu.Lock()
-		groupMapEmpty := len(groupMap) == 0
-		groupMapMu.Unlock()
-		if groupMapEmpty {
-			break
-		}
+		remaining = s.processGroupedTransactions(remaining, txns, groupMap, &groupMapMu, matchingRules, isExternalGrouped, matchChan)
 		offset += int64(batchSize)
 	}
 	return nil
-- 
2.43.0


From b67e201b89900d75655986b767d7e5284edab2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 26/37] fix: keep a reconciliation match whose search fails
 afterwards

---
 reconciliation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 8da6b76..b0fe567 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -1061,13 +1061,13 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 			}
 		},
 	)
-	if err != nil && err != context.Canceled {
-		return err
-	}
-
 	matchMu.Lock()
 	found := matchFound
 	matchMu.Unlock()
+	if err != nil && err != context.Canceled && !found { // a later error does not undo the match
+		return err
+	}
+
 	if !found {
 		select {
 		case unMatchChan <- externalTxn.TransactionID:
-- 
2.43.0


From 03659f201b13accced141598d7d4c2fc8e190902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 27/37] fix: detokenize values that contain a colon

---
 internal/tokenization/tokenization.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/tokenization/tokenization.go b/internal/tokenization/tokenization.go
index 9ccc45c..d791663 100644
--- a/internal/tokenization/tokenization.go
+++ b/internal/tokenization/tokenization.go
@@ -244,14 +244,16 @@ func (s *TokenizationService) formatPreservingDetokenize(token string) (string,
 		return "", fmt.Errorf("not a format-preserving token")
 	}
 
-	// Split the token
-	parts := strings.SplitN(token, ":", 3)
-	if len(parts) < 3 {
+	// Split the token. The standard token comes after the last colon: it is base64 and
+	// has none, while the format-preserving part keeps those of the original value.
+	visible := strings.TrimPrefix(token, "FPT:")
+	sep := strings.LastIndex(visible, ":")
+	if sep < 0 {
 		return "", fmt.Errorf("invalid format-preserving token format")
 	}
 
 	// Extract the standard token part
-	standardToken := parts[2]
+	standardToken := visible[sep+1:]
 
 	// Use standard detokenization to get the original value
 	return s.standardDetokenize(standardToken)
-- 
2.43.0


From 7010d5a6b060d80b631a7a3736fd4e56036d5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 28/37] fix: tokenizing an identity's field never undoes
 concurrent updates of the identity

---
 database/identity.go         | 83 ++++++++++++++++++++++++++++++------
 database/mocks/repo_mocks.go |  5 +++
 database/repository.go       |  3 ++
 identity.go                  | 59 ++++++++++++-------------
 4 files changed, 105 insertions(+), 45 deletions(-)

diff --git a/database/identity.go b/database/identity.go
index b05eeae..41c47a6 100644
--- a/database/identity.go
+++ b/database/identity.go
@@ -106,18 +106,36 @@ func (d Datasource) GetIdentityByID(id string) (*model.Identity, error) {
 		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to begin transaction", err)
 	}
 
-	// Query the database for the identity by ID
-	row := tx.QueryRow(`
+	identity, err := queryIdentityByID(ctx, tx, id, "")
+	if err != nil {
+		_ = tx.Rollback()
+		return nil, err
+	}
+
+	// Commit the transaction
+	err = tx.Commit()
+	if err != nil {
+		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to commit transaction", err)
+	}
+
+	// Return the retrieved identity
+	return identity, nil
+}
+
+// queryIdentityByID reads an identity inside a transaction. A lock clause such as
+// "FOR UPDATE" may be given.
+func queryIdentityByID(ctx context.Context, tx *sql.Tx, id, lock string) (*model.Identity, error) {
+	row := tx.QueryRowContext(ctx, `
 		SELECT identity_id, identity_type, first_name, last_name, other_names, gender, dob, email_address, phone_number, nationality, organization_name, category, street, country, state, post_code, city, created_at, meta_data
 		FROM blnk.identity
 		WHERE identity_id = $1
-	`, id)
+	`+lock, id)
 
 	identity := &model.Identity{}
 	var metaDataJSON []byte
 
 	// Scan the row into the identity object
-	err = row.Scan(
+	err := row.Scan(
 		&identity.IdentityID, &identity.IdentityType,
 		&identity.FirstName, &identity.LastName, &identity.OtherNames, &identity.Gender, &identity.DOB, &identity.EmailAddress, &identity.PhoneNumber, &identity.Nationality,
 		&identity.OrganizationName, &identity.Category,
@@ -125,7 +143,6 @@ func (d Datasource) GetIdentityByID(id string) (*model.Identity, error) {
 	)
 	// Handle potential errors during the scan
 	if err != nil {
-		_ = tx.Rollback()
 		if err == sql.ErrNoRows {
 			return nil, apierror.NewAPIError(apierror.ErrNotFound, fmt.Sprintf("Identity with ID '%s' not found", id), err)
 		}
@@ -135,17 +152,9 @@ func (d Datasource) GetIdentityByID(id string) (*model.Identity, error) {
 	// Unmarshal the metadata JSON into the identity's MetaData field
 	err = json.Unmarshal(metaDataJSON, &identity.MetaData)
 	if err != nil {
-		_ = tx.Rollback()
 		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to unmarshal metadata", err)
 	}
 
-	// Commit the transaction
-	err = tx.Commit()
-	if err != nil {
-		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to commit transaction", err)
-	}
-
-	// Return the retrieved identity
 	return identity, nil
 }
 
@@ -209,6 +218,52 @@ func (d Datasource) GetAllIdentities() ([]model.Identity, error) {
 // Returns:
 // - An error if the update fails, or nil if successful.
 func (d Datasource) UpdateIdentity(identity *model.Identity) error {
+	return updateIdentity(context.Background(), d.Conn, identity)
+}
+
+// ModifyIdentity reads an identity, lets modify change it, and stores the result, with the
+// identity locked so that no concurrent update is undone.
+// Parameters:
+// - id: The ID of the identity to modify.
+// - modify: Changes the identity; its error is returned as it is, with nothing stored.
+// Returns:
+// - An error if the identity is not found, modify fails or the update fails.
+func (d Datasource) ModifyIdentity(id string, modify func(identity *model.Identity) error) error {
+	ctx, cancel := context.WithTimeout(context.Background(), 1*time.Minute)
+	defer cancel()
+
+	tx, err := d.Conn.BeginTx(ctx, nil)
+	if err != nil {
+		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to begin transaction", err)
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	identity, err := queryIdentityByID(ctx, tx, id, "FOR UPDATE")
+	if err != nil {
+		return err
+	}
+
+	if err := modify(identity); err != nil {
+		return err
+	}
+
+	if err := updateIdentity(ctx, tx, identity); err != nil {
+		return err
+	}
+
+	if err := tx.Commit(); err != nil {
+		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to commit transaction", err)
+	}
+	return nil
+}
+
+// identityExecer is what updateIdentity runs on: the connection pool or a transaction.
+type identityExecer interface {
+	ExecContext(ctx context.Context, query string, args ...interface{}) (sql.Result, error)
+}
+
+// updateIdentity updates the fields of an identity that have a value.
+func updateIdentity(ctx context.Context, conn identityExecer, identity *model.Identity) error {
 	var setFields []string
 	var args []interface{}
 	argPosition := 1
@@ -282,7 +337,7 @@ func (d Datasource) UpdateIdentity(identity *model.Identity) error {
 	args = append(args, identity.IdentityID)
 
 	// Execute the update query
-	result, err := d.Conn.ExecContext(context.Background(), query, args...)
+	result, err := conn.ExecContext(ctx, query, args...)
 	if err != nil {
 		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to update identity", err)
 	}
diff --git a/database/mocks/repo_mocks.go b/database/mocks/repo_mocks.go
index 5d7875a..4ee4239 100644
--- a/database/mocks/repo_mocks.go
+++ b/database/mocks/repo_mocks.go
@@ -461,6 +461,11 @@ func (m *MockDataSource) UpdateIdentity(identity *model.Identity) error {
 	return args.Error(0)
 }
 
+func (m *MockDataSource) ModifyIdentity(id string, modify func(identity *model.Identity) error) error {
+	args := m.Called(id, modify)
+	return args.Error(0)
+}
+
 func (m *MockDataSource) DeleteIdentity(id string) error {
 	args := m.Called(id)
 	return args.Error(0)
diff --git a/database/repository.go b/database/repository.go
index 4ba28d4..5ef0dca 100644
--- a/database/repository.go
+++ b/database/repository.go
@@ -143,6 +143,9 @@ type identity interface {
 	UpdateIdentity(identity *model.Identity) error                         // Updates an identity
 	DeleteIdentity(id string) error                                        // Deletes an identity
 
+	// ModifyIdentity reads, changes and stores an identity under a row lock
+	ModifyIdentity(id string, modify func(identity *model.Identity) error) error
+
 	// Advanced filtering methods
 	GetAllIdentitiesWithFilter(ctx context.Context, filters *filter.QueryFilterSet, limit, offset int) ([]model.Identity, error)                                              // Retrieves identities with advanced filtering
 	GetAllIdentitiesWithFilterAndOptions(ctx context.Context, filters *filter.QueryFilterSet, opts *filter.QueryOptions, limit, offset int) ([]model.Identity, *int64, error) // Retrieves identities with filtering, sorting, and count
diff --git a/identity.go b/identity.go
index 0949d86..4dfbed8 100644
--- a/identity.go
+++ b/identity.go
@@ -164,44 +164,41 @@ func (l *Blnk) TokenizeIdentityField(identityID, fieldName string) error {
 		return fmt.Errorf("field %s is not tokenizable", fieldName)
 	}
 
-	// Get the identity
-	identity, err := l.GetIdentity(identityID)
-	if err != nil {
-		return err
-	}
-
-	// Check if field is already tokenized using the original field name
-	// as IsFieldTokenized will handle the conversion internally
-	if identity.IsFieldTokenized(fieldName) {
-		return fmt.Errorf("field %s is already tokenized", fieldName)
-	}
+	// Read, change and store the identity under a lock, so that tokenizing it never undoes
+	// a concurrent update or tokenization of another field
+	return l.datasource.ModifyIdentity(identityID, func(identity *model.Identity) error {
+		// Check if field is already tokenized using the original field name
+		// as IsFieldTokenized will handle the conversion internally
+		if identity.IsFieldTokenized(fieldName) {
+			return fmt.Errorf("field %s is already tokenized", fieldName)
+		}
 
-	// Get the field value using reflection with struct field name
-	val := reflect.ValueOf(identity).Elem()
-	fieldVal := val.FieldByName(structFieldName)
+		// Get the field value using reflection with struct field name
+		val := reflect.ValueOf(identity).Elem()
+		fieldVal := val.FieldByName(structFieldName)
 
-	if !fieldVal.IsValid() || !fieldVal.CanSet() {
-		return fmt.Errorf("field %s not found or cannot be set", fieldName)
-	}
+		if !fieldVal.IsValid() || !fieldVal.CanSet() {
+			return fmt.Errorf("field %s not found or cannot be set", fieldName)
+		}
 
-	// Get the string value
-	strVal := fieldVal.String()
+		// Get the string value
+		strVal := fieldVal.String()
 
-	// Tokenize the value
-	token, err := l.tokenizer.TokenizeWithMode(strVal, tokenization.FormatPreservingMode)
-	if err != nil {
-		return err
-	}
+		// Tokenize the value
+		token, err := l.tokenizer.TokenizeWithMode(strVal, tokenization.FormatPreservingMode)
+		if err != nil {
+			return err
+		}
 
-	// Set the tokenized value
-	fieldVal.SetString(token)
+		// Set the tokenized value
+		fieldVal.SetString(token)
 
-	// Mark the field as tokenized using the original field name
-	// as MarkFieldAsTokenized will handle the conversion internally
-	identity.MarkFieldAsTokenized(fieldName)
+		// Mark the field as tokenized using the original field name
+		// as MarkFieldAsTokenized will handle the conversion internally
+		identity.MarkFieldAsTokenized(fieldName)
 
-	// Update the identity
-	return l.UpdateIdentity(identity)
+		return nil
+	})
 }
 
 // DetokenizeIdentityField detokenizes a specific field in an identity.
-- 
2.43.0


From 475d4790ab4d14e78ad73787ba642f20a0c83160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 29/37] fix: keep the numbers of a request made with an API key
 as they were sent

The middleware records the key in the body's meta_data by decoding the body into a map
and encoding it again. Every number went through float64, so a precise_amount above
2^53 was rounded, or sent on in exponent form and refused.
---
 api/middleware/auth.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/middleware/auth.go b/api/middleware/auth.go
index 9625258..4446608 100644
--- a/api/middleware/auth.go
+++ b/api/middleware/auth.go
@@ -143,9 +143,12 @@ func injectAPIKeyToMetadata(c *gin.Context, apiKeyID string) error {
 	}
 	_ = c.Request.Body.Close()
 
-	// Parse the request body as JSON
+	// Parse the request body as JSON. Numbers are kept as they were written: decoding them
+	// into float64 would round a large precise_amount when the body is encoded again.
 	var bodyMap map[string]interface{}
-	if err := json.Unmarshal(bodyBytes, &bodyMap); err != nil {
+	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
+	decoder.UseNumber()
+	if err := decoder.Decode(&bodyMap); err != nil {
 		// If not valid JSON, restore the original body and continue
 		c.Request.Body = io.NopCloser(bytes.NewBuffer(bodyBytes))
 		return err
-- 
2.43.0


From d231a747446009a4ff7b4a0882629d73f57ed454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 30/37] fix: a partial commit of a transaction that is not
 recorded yet is not converted with precision 1

The amount of a commit is converted with the precision of the recorded transaction. While
the transaction was still on its way through the queue none was found and the amount was
taken as minor units (4.62 became 5); by the time the action was checked the transaction
was there, and the wrong amount was committed. Such a request is now answered not found,
as it is when the transaction never appears. The precision is also looked up through
QUEUED_PARENT_TRANSACTION, as the transactions of the action are.
---
 api/transactions.go     | 36 ++++++++++++++++++++++++------------
 model/model.go          |  7 +++++--
 transaction_inflight.go | 12 +++++++++---
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index ef3eefd..f85afb8 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -17,6 +17,7 @@ package api
 
 import (
 	"context"
+	"database/sql"
 	"errors"
 	"fmt"
 	"io"
@@ -514,7 +515,11 @@ func (a Api) UpdateInflightStatus(c *gin.Context) {
 	}
 
 	amount, err := model.ResolveAmountWithDBLookup(&model.Transaction{Amount: req.Amount, TransactionID: id}, ds.Conn)
-	if err != nil {
+	if err != nil && req.PreciseAmount == nil {
+		if errors.Is(err, sql.ErrNoRows) {
+			respondCode(c, apierror.ErrTxnNotFound, err.Error(), nil)
+			return
+		}
 		respondError(c, err)
 		return
 	}
@@ -772,7 +777,11 @@ func (a Api) respondBulkInflightPreview(c *gin.Context, action string, items []b
 	}
 
 	for _, item := range items {
-		itemPreview, err := a.blnk.PreviewInflightAction(c.Request.Context(), item.TransactionID, action, item.Amount)
+		var itemPreview *model.TransactionPreview
+		err := item.Err
+		if err == nil {
+			itemPreview, err = a.blnk.PreviewInflightAction(c.Request.Context(), item.TransactionID, action, item.Amount)
+		}
 		if err != nil {
 			// The id could not be resolved at all (missing, or an
 			// infrastructure failure). Report it against the item rather than
@@ -892,7 +901,10 @@ func (a Api) BulkVoidInflight(c *gin.Context) {
 func (a Api) queueBulkInflight(ctx context.Context, action string, items []blnk.BulkInflightItem) model2.BulkInflightResponse {
 	resp := model2.BulkInflightResponse{Results: make([]model2.BulkInflightResult, 0, len(items))}
 	for _, it := range items {
-		_, err := a.blnk.QueueInflightAction(ctx, it.TransactionID, it.Amount, action)
+		err := it.Err
+		if err == nil {
+			_, err = a.blnk.QueueInflightAction(ctx, it.TransactionID, it.Amount, action)
+		}
 		switch {
 		case err == nil:
 			resp.Results = append(resp.Results, model2.BulkInflightResult{TransactionID: it.TransactionID, Status: "queued", Code: "QUEUED"})
@@ -946,17 +958,17 @@ func (a Api) BulkCommitInflight(c *gin.Context) {
 	for i, it := range req.Transactions {
 		// Match single-tx semantics: precise_amount wins; else apply precision
 		// via the same DB-lookup helper used by UpdateInflightStatus.
-		var amount *big.Int
+		items[i].TransactionID = it.TransactionID
 		if it.PreciseAmount != nil {
-			amount = it.PreciseAmount
-		} else {
-			amount, err = model.ResolveAmountWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
-			if err != nil {
-				respondError(c, err)
-				return
-			}
+			items[i].Amount = it.PreciseAmount
+			continue
+		}
+		amount, err := model.ResolveAmountWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
+		if err != nil && !errors.Is(err, sql.ErrNoRows) {
+			respondError(c, err)
+			return
 		}
-		items[i] = blnk.BulkInflightItem{TransactionID: it.TransactionID, Amount: amount}
+		items[i].Amount, items[i].Err = amount, err
 	}
 
 	// Ahead of both the queueing and the synchronous branch: a dry run must
diff --git a/model/model.go b/model/model.go
index 17eb917..e3a2225 100644
--- a/model/model.go
+++ b/model/model.go
@@ -327,6 +327,7 @@ func fetchTransactionPrecisionFromDB(db *sql.DB, transactionID string) (float64,
 		FROM blnk.transactions
 		WHERE transaction_id = $1
 		OR parent_transaction = $1
+		OR meta_data->>'QUEUED_PARENT_TRANSACTION' = $1
 		LIMIT 1`
 	err := db.QueryRow(query, transactionID).Scan(&precision)
 	if err == sql.ErrNoRows {
@@ -363,9 +364,11 @@ func ResolveAmountWithDBLookup(transaction *Transaction, db *sql.DB) (*big.Int,
 		if err != nil {
 			return nil, err
 		}
-		if found {
-			transaction.Precision = precision
+		if !found {
+			// Not recorded (yet): it may be by the time the action looks for it.
+			return nil, fmt.Errorf("transaction %s not found: %w", transaction.TransactionID, sql.ErrNoRows)
 		}
+		transaction.Precision = precision
 		return ApplyPrecision(transaction), nil
 	}
 	return ApplyPrecisionWithDBLookup(transaction, db), nil
diff --git a/transaction_inflight.go b/transaction_inflight.go
index 154fba9..b8348e1 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -974,9 +974,13 @@ const (
 
 // BulkInflightItem is the internal per-item shape consumed by
 // BulkInflightUpdate. For void calls only TransactionID is used.
+//
+// Err is set when the item's amount could not be resolved; the item then fails
+// with it and nothing is done.
 type BulkInflightItem struct {
 	TransactionID string
 	Amount        *big.Int
+	Err           error
 }
 
 // BulkInflightOutcome is the per-item outcome from BulkInflightUpdate.
@@ -1078,10 +1082,12 @@ func (l *Blnk) BulkInflightUpdate(ctx context.Context, action BulkInflightAction
 			for j := range jobs {
 				var txn *model.Transaction
 				var err error
-				switch action {
-				case BulkInflightCommit:
+				switch {
+				case j.item.Err != nil:
+					err = j.item.Err
+				case action == BulkInflightCommit:
 					txn, err = l.CommitInflightTransaction(ctx, j.item.TransactionID, j.item.Amount)
-				case BulkInflightVoid:
+				case action == BulkInflightVoid:
 					txn, err = l.VoidInflightTransaction(ctx, j.item.TransactionID)
 				default:
 					err = fmt.Errorf("unknown bulk inflight action: %d", action)
-- 
2.43.0


From c9953241fe3b7bdc551c46212ce150e6da42c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 31/37] fix: a coalesced or recovered queued transaction keeps
 its effective date

The queries that load queued transactions for a coalesced batch and for recovery left
effective_date out, so a back- or post-dated transaction was recorded without it when its
worker took it along in a batch, or when recovery replayed it, and historical balances
counted it at another date.
---
 database/transaction_coalescing.go | 8 ++++----
 database/transaction_recovery.go   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/transaction_coalescing.go b/database/transaction_coalescing.go
index cffc0a7..47a77d2 100644
--- a/database/transaction_coalescing.go
+++ b/database/transaction_coalescing.go
@@ -36,7 +36,7 @@ func (d Datasource) GetQueuedTransactionsForCoalescing(ctx context.Context, sour
 	defer span.End()
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, effective_date, hash
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.source = $1
@@ -75,7 +75,7 @@ func (d Datasource) GetQueuedTransactionsForSourceCoalescing(ctx context.Context
 	defer span.End()
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, effective_date, hash
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.source = $1
@@ -113,7 +113,7 @@ func (d Datasource) GetQueuedTransactionsForDestinationCoalescing(ctx context.Co
 	defer span.End()
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, effective_date, hash
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.destination = $1
@@ -162,7 +162,7 @@ func scanQueuedTransactionsForCoalescing(rows *sql.Rows) ([]*model.Transaction,
 			&txn.TransactionID, &txn.ParentTransaction, &txn.Source, &txn.Reference,
 			&txn.Amount, &preciseAmountStr, &txn.Precision,
 			&txn.Currency, &txn.Destination, &txn.Description, &txn.Status,
-			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.Hash,
+			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.EffectiveDate, &txn.Hash,
 		); err != nil {
 			return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to scan queued transaction for coalescing", err)
 		}
diff --git a/database/transaction_recovery.go b/database/transaction_recovery.go
index bc4164a..55a4cb1 100644
--- a/database/transaction_recovery.go
+++ b/database/transaction_recovery.go
@@ -37,7 +37,7 @@ func (d Datasource) GetStuckQueuedTransactions(ctx context.Context, threshold ti
 	cutoff := time.Now().UTC().Add(-threshold)
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, effective_date, hash
 		FROM blnk.transactions t
 		WHERE (
 		      (t.status = 'QUEUED' AND t.created_at < $1)
@@ -70,7 +70,7 @@ func (d Datasource) GetStuckQueuedTransactions(ctx context.Context, threshold ti
 			&txn.TransactionID, &txn.ParentTransaction, &txn.Source, &txn.Reference,
 			&txn.Amount, &preciseAmountStr, &txn.Precision,
 			&txn.Currency, &txn.Destination, &txn.Description, &txn.Status,
-			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.Hash,
+			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.EffectiveDate, &txn.Hash,
 		)
 		if err != nil {
 			span.RecordError(err)
-- 
2.43.0


From 07bdb4ecb95fd0c482354711af07025f77532529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 32/37] fix: an overdraft limit beyond 64 bits of minor units
 does not wrap

---
 model/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index e3a2225..8d1071f 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,9 +186,9 @@ func canProcessTransaction(transaction *Transaction, sourceBalance *Balance) err
 		// decimal arithmetic: int64(limit*precision) truncates binary-float
 		// products (0.29*100 -> 28), rejecting transactions exactly at the
 		// configured limit.
-		overdraftLimitPrecise := decimal.NewFromFloat(transaction.OverdraftLimit).
-			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).IntPart()
-		overdraftLimitBigInt := new(big.Int).SetInt64(overdraftLimitPrecise)
+		// Limits beyond int64 (large amounts or fine precisions) must not wrap.
+		overdraftLimitBigInt := decimal.NewFromFloat(transaction.OverdraftLimit).
+			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).BigInt()
 
 		// Negative of overdraft limit (as balance will be negative)
 		negativeOverdraftLimit := new(big.Int).Neg(overdraftLimitBigInt)
-- 
2.43.0


From 7f14fc2c4a003467c3416774c77c60e6b2db5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 33/37] fix: fixed amounts of a split keep all their digits

---
 model/transaction.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index ec03a51..99a979e 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -175,11 +175,20 @@ func parseFixedAmount(dist Distribution, precisionDec decimal.Decimal) (decimal.
 	}
 
 	if dist.Distribution != "" {
-		fixedAmount, err := strconv.ParseFloat(dist.Distribution, 64)
+		approx, err := strconv.ParseFloat(dist.Distribution, 64)
 		if err != nil {
 			return decimal.Zero, errors.New("invalid fixed amount format")
 		}
-		return decimal.NewFromFloat(fixedAmount).Mul(precisionDec), nil
+		if approx == 0 {
+			return decimal.Zero, nil
+		}
+		// The amount itself is not taken from the float64, which cannot hold more than
+		// 15 digits.
+		fixedAmount, err := decimal.NewFromString(dist.Distribution)
+		if err != nil {
+			return decimal.Zero, errors.New("invalid fixed amount format")
+		}
+		return fixedAmount.Mul(precisionDec), nil
 	}
 
 	return decimal.Zero, nil
-- 
2.43.0


From c62c937205c82b93ce484827e0b6ceebeda43aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 34/37] fix: a webhook carries amounts with all their digits

---
 webhooks.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/webhooks.go b/webhooks.go
index 5eec46d..2939bd5 100644
--- a/webhooks.go
+++ b/webhooks.go
@@ -175,7 +175,11 @@ func (b *Blnk) ProcessWebhook(_ context.Context, task *asynq.Task) error {
 		return nil
 	}
 	var payload NewWebhook
-	if err := json.Unmarshal(task.Payload(), &payload); err != nil {
+	// Numbers are passed on as they are: an amount of more than 15 digits does not
+	// survive the way through a float64.
+	decoder := json.NewDecoder(bytes.NewReader(task.Payload()))
+	decoder.UseNumber()
+	if err := decoder.Decode(&payload); err != nil {
 		logrus.Errorf("Error unmarshaling task payload: %v", err)
 		return err
 	}
-- 
2.43.0


From 2c0cbee1d4fbf8925b085addb3906fa966a0fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 35/37] fix: the roll-back of an atomic bulk takes back the
 parts of its splits

---
 transaction_queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transaction_queue.go b/transaction_queue.go
index 856fa38..5d4ff33 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -85,6 +85,11 @@ func (l *Blnk) QueueTransaction(ctx context.Context, transaction *model.Transact
 
 	// If SkipQueue is true, process synchronously
 	if transaction.SkipQueue {
+		if len(transactions) > 0 && strings.HasPrefix(transaction.ParentTransaction, "bulk_") {
+			// The parts are children of their split; this is how the roll-back of an
+			// atomic bulk finds them.
+			transaction.MetaData["QUEUED_PARENT_TRANSACTION"] = transaction.ParentTransaction
+		}
 		_, err := l.processTxns(ctx, transaction, transactions, originalTxnID, originalRef)
 		if err != nil {
 			span.RecordError(err)
-- 
2.43.0


From 21664905ecd09ac1ee3c11a0f3b2e8219f0a9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 36/37] fix: the dry run of a commit or void does not count
 voided parts of a split

---
 transaction_dryrun_inflight.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 537f95f..ddb9e5e 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -217,6 +217,16 @@ func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*mode
 // refuses exactly what a real one would: an already-settled hold, or an amount
 // beyond what remains.
 func (l *Blnk) buildInflightSettlementForPreview(ctx context.Context, leg *model.Transaction, action string, amount *big.Int) (*model.Transaction, error) {
+	// A hold keeps its INFLIGHT row when it is voided, so the legs of a parent
+	// include those that are voided already.
+	voided, err := l.datasource.IsParentTransactionVoid(ctx, leg.TransactionID)
+	if err != nil {
+		return nil, err
+	}
+	if voided {
+		return nil, fmt.Errorf("transaction has already been voided")
+	}
+
 	// Work on a copy: validateAndUpdateAmount writes the settled amount onto
 	// the transaction it is given.
 	settlement := leg.Clone()
-- 
2.43.0


From c5a3768c544f5646c7c57111c1e41231385fc633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 37/37] fix: an account named twice in a split gets both its
 parts

---
 model/transaction.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 99a979e..7010b45 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -157,7 +157,8 @@ func processFixedDistributions(distributions []Distribution, state *distribution
 			return errors.New("fixed amount exceeds remaining transaction amount")
 		}
 
-		state.fixedAmounts[dist.Identifier] = fixedAmountDec
+		// An identifier may be named more than once; it gets all of what is named.
+		state.fixedAmounts[dist.Identifier] = state.fixedAmounts[dist.Identifier].Add(fixedAmountDec)
 		state.fixedTotalDec = state.fixedTotalDec.Add(fixedAmountDec)
 		state.amountLeftDec = state.amountLeftDec.Sub(fixedAmountDec)
 	}
@@ -216,10 +217,9 @@ func processPercentageDistributions(distributions []Distribution, state *distrib
 		rawAmountDec := state.totalAmountDec.Mul(percentageDec).Div(hundredDec)
 
 		if rawAmountDec.Sign() > 0 && rawAmountDec.Cmp(minValueDec) < 0 {
-			state.percentAmounts[dist.Identifier] = decimal.Zero
-		} else {
-			state.percentAmounts[dist.Identifier] = rawAmountDec
+			rawAmountDec = decimal.Zero
 		}
+		state.percentAmounts[dist.Identifier] = state.percentAmounts[dist.Identifier].Add(rawAmountDec)
 	}
 	return nil
 }
@@ -279,7 +279,7 @@ func combineDistributions(state *distributionState) {
 	}
 
 	for id, amountDec := range state.percentAmounts {
-		state.result[id] = amountDec.BigInt()
+		state.result[id] = amountDec.Add(state.fixedAmounts[id]).BigInt()
 		state.amountLeftDec = state.amountLeftDec.Sub(amountDec)
 	}
 }
-- 
2.43.0

