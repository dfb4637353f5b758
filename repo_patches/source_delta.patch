From 1a85861e6b4e54ef99d4037a1afc3ed274830874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 01/40] fix: a failed or expired trade can no longer be
 completed

Complete() acknowledged trades already marked as expired and brought accepted
trades that had failed (their coins are released) back to a live status.
---
 internal/core/domain/trade_service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..621cba9 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,6 +104,10 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
+	if t.Status.Code == Expired {
+		return nil, ErrTradeExpired
+	}
+
 	if t.Status.Code >= Completed {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
@@ -119,6 +123,12 @@ func (t *Trade) Complete(tx string) (*CompleteResult, error) {
 		return nil, ErrTradeExpired
 	}
 
+	// An accepted trade that was marked as failed has already released its
+	// coins and must never be brought back to a live status.
+	if t.Status.Failed {
+		return nil, ErrTradeMustBeAccepted
+	}
+
 	swapCompleteID, swapCompleteMsg, err := SwapParserManager.SerializeComplete(
 		t.SwapAccept.Message,
 		tx,
-- 
2.43.0


From ee3b68c868b3bf9af767c46bc33bca5d448d9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 02/40] fix: quotes with amounts out of range wrap around or
 crash

Amounts bigger than an int64, and those obtained from a price or from an
almost drained reserve that do not fit an uint64, were silently wrapped, and
a trader's amount of exactly 2^64-reserve made the balanced formula divide by
zero. They are now refused as too big.
---
 internal/core/domain/pluggable_strategy.go    | 28 +++++++++++++++++--
 pkg/marketmaking/formula/balanced_reserves.go | 15 ++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/internal/core/domain/pluggable_strategy.go b/internal/core/domain/pluggable_strategy.go
index 9aba40b..826b5c0 100644
--- a/internal/core/domain/pluggable_strategy.go
+++ b/internal/core/domain/pluggable_strategy.go
@@ -2,6 +2,7 @@ package domain
 
 import (
 	"errors"
+	"math"
 
 	"github.com/shopspring/decimal"
 	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
@@ -9,6 +10,10 @@ import (
 
 const PluggableStrategyType = 255
 
+// maxAmount is the biggest amount that can be increased by any percentage fee
+// without exceeding an int64.
+const maxAmount = math.MaxInt64 / 2
+
 type PluggableStrategyOpts struct {
 	BalanceIn  uint64
 	BalanceOut uint64
@@ -31,7 +36,10 @@ func (s PluggableStrategy) OutGivenIn(_opts interface{}, amountIn uint64) (uint6
 		return 0, ErrMarketPreviewAmountTooLow
 	}
 
-	amountR := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt().Uint64()
+	amountR, err := convertAmount(amountIn, opts.Price)
+	if err != nil {
+		return 0, err
+	}
 	amountR, _ = mathutil.LessFee(amountR, opts.Fee)
 	if amountR == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
@@ -51,7 +59,10 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 		return 0, ErrMarketPreviewAmountTooBig
 	}
 
-	amountP := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt().Uint64()
+	amountP, err := convertAmount(amountOut, opts.Price)
+	if err != nil {
+		return 0, err
+	}
 	amountP, _ = mathutil.PlusFee(amountP, opts.Fee)
 	if amountP == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
@@ -62,3 +73,16 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 func (s PluggableStrategy) FormulaType() int {
 	return PluggableStrategyType
 }
+
+// convertAmount returns the given amount multiplied by the price, or an error
+// if either is too big for the result to be represented with its fees.
+func convertAmount(amount uint64, price decimal.Decimal) (uint64, error) {
+	if amount > maxAmount {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	converted := decimal.NewFromInt(int64(amount)).Mul(price)
+	if converted.GreaterThan(decimal.NewFromInt(maxAmount)) {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	return converted.BigInt().Uint64(), nil
+}
diff --git a/pkg/marketmaking/formula/balanced_reserves.go b/pkg/marketmaking/formula/balanced_reserves.go
index 1bafafb..6157be1 100644
--- a/pkg/marketmaking/formula/balanced_reserves.go
+++ b/pkg/marketmaking/formula/balanced_reserves.go
@@ -3,6 +3,7 @@ package formula
 
 import (
 	"errors"
+	"math"
 
 	"github.com/shopspring/decimal"
 	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
@@ -23,8 +24,13 @@ var (
 	ErrAmountTooBig = errors.New("provided amount is too big")
 	// ErrBalanceTooLow ...
 	ErrBalanceTooLow = errors.New("reserve balance amount is too low")
+
 )
 
+// maxAmount is the biggest amount that can be increased by any percentage fee
+// without exceeding an int64.
+const maxAmount = math.MaxInt64 / 2
+
 //BalancedReservesOpts defines the parameters needed to calculate the spot price
 type BalancedReservesOpts struct {
 	BalanceIn  uint64
@@ -74,6 +80,9 @@ func (BalancedReserves) OutGivenIn(_opts interface{}, amountIn uint64) (uint64,
 	if amountIn == 0 {
 		return 0, ErrAmountTooLow
 	}
+	if amountIn > maxAmount {
+		return 0, ErrAmountTooBig
+	}
 
 	amount := amountIn
 	if opts.ChargeFeeOnTheWayIn {
@@ -142,6 +151,12 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 		).Sub(decimal.NewFromInt(1)),
 	)
 
+	// close to draining the reserve the amount grows without limits, make sure
+	// it never wraps around the range of an uint64, not even with the fees.
+	if amountInDecimal.GreaterThan(decimal.NewFromInt(maxAmount)) {
+		return 0, ErrAmountTooBig
+	}
+
 	amountIn := amountInDecimal.BigInt().Uint64()
 	if opts.ChargeFeeOnTheWayIn {
 		amountIn, _ = mathutil.PlusFee(amountIn, opts.Fee)
-- 
2.43.0


From 8d425c870dc4937b5b6501dad0bbd7693e78ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 03/40] fix: coins locked, spent or confirmed already are not
 counted as changed

---
 .../db/badger/unspent_repository_impl.go      | 22 +++++++++----------
 .../unspent_memory_repository_impl.go         |  5 ++---
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index 7d418e1..4838ee4 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -224,7 +224,7 @@ func (u unspentRepositoryImpl) spendUnspent(
 		return false, err
 	}
 
-	if unspent == nil {
+	if unspent == nil || unspent.IsSpent() {
 		return false, nil
 	}
 
@@ -264,7 +264,7 @@ func (u unspentRepositoryImpl) confirmUnspent(
 		return false, err
 	}
 
-	if unspent == nil {
+	if unspent == nil || unspent.IsConfirmed() {
 		return false, nil
 	}
 
@@ -314,11 +314,7 @@ func (u unspentRepositoryImpl) lockUnspent(
 		return false, nil
 	}
 
-	if err := u.insertLock(ctx, key, tradeID); err != nil {
-		return false, err
-	}
-
-	return true, nil
+	return u.insertLock(ctx, key, tradeID)
 }
 
 func (u unspentRepositoryImpl) unlockUnspents(
@@ -501,12 +497,12 @@ func (u unspentRepositoryImpl) insertLock(
 	ctx context.Context,
 	key domain.UnspentKey,
 	tradeID uuid.UUID,
-) error {
+) (bool, error) {
 	var err error
 
 	encKey, err := EncodeKey(key, LockedUnspentBadgerholdKeyPrefix)
 	if err != nil {
-		return err
+		return false, err
 	}
 
 	if ctx.Value("tx") != nil {
@@ -516,11 +512,13 @@ func (u unspentRepositoryImpl) insertLock(
 		err = u.lockStore.Insert(encKey, LockedUnspent{tradeID})
 	}
 	if err != nil {
-		if err != badgerhold.ErrKeyExists {
-			return err
+		// the coin got locked in the meantime
+		if err == badgerhold.ErrKeyExists {
+			return false, nil
 		}
+		return false, err
 	}
-	return nil
+	return true, nil
 }
 
 func (u unspentRepositoryImpl) deleteLock(
diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 2871252..40c2db6 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -179,7 +179,6 @@ func (r UnspentRepositoryImpl) ConfirmUnspents(
 		if unspent, ok := r.store.unspents[key]; ok {
 			if !unspent.IsConfirmed() {
 				unspent.Confirm()
-				unspent.Unlock()
 				r.store.unspents[key] = unspent
 				count++
 			}
@@ -312,7 +311,7 @@ func (r UnspentRepositoryImpl) lockUnspents(
 ) (int, error) {
 	count := 0
 	for _, key := range unspentKeys {
-		if unspent, ok := r.store.unspents[key]; ok {
+		if unspent, ok := r.store.unspents[key]; ok && !unspent.IsLocked() {
 			unspent.Lock(&tradeID)
 			r.store.unspents[key] = unspent
 			count++
@@ -326,7 +325,7 @@ func (r UnspentRepositoryImpl) unlockUnspents(
 ) (int, error) {
 	count := 0
 	for _, key := range unspentKeys {
-		if unspent, ok := r.store.unspents[key]; ok {
+		if unspent, ok := r.store.unspents[key]; ok && unspent.IsLocked() {
 			unspent.Unlock()
 			r.store.unspents[key] = unspent
 			count++
-- 
2.43.0


From 25432af06b662eb54dbf7b28061bd96d57f61c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 04/40] fix: in-memory store lists foreign coins for an empty
 list of addresses

---
 .../unspent_memory_repository_impl.go         | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 40c2db6..ee1ff1a 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -45,7 +45,13 @@ func (r UnspentRepositoryImpl) GetAvailableUnspents(_ context.Context) ([]domain
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	return r.getAvailableUnspents(nil), nil
+	unspents := make([]domain.Unspent, 0)
+	for _, u := range r.getAllUnspents(false) {
+		if u.IsConfirmed() && !u.IsLocked() {
+			unspents = append(unspents, u)
+		}
+	}
+	return unspents, nil
 }
 
 // GetAllUnspentsForAddresses ...
@@ -290,14 +296,10 @@ func (r UnspentRepositoryImpl) getUnspents(addresses []string, isLocked bool) []
 	unspents := make([]domain.Unspent, 0)
 	for _, u := range r.store.unspents {
 		if !u.IsSpent() && u.IsLocked() == isLocked && u.IsConfirmed() {
-			if len(addresses) == 0 {
-				unspents = append(unspents, u)
-			} else {
-				for _, addr := range addresses {
-					if addr == u.Address {
-						unspents = append(unspents, u)
-						break
-					}
+			for _, addr := range addresses {
+				if addr == u.Address {
+					unspents = append(unspents, u)
+					break
 				}
 			}
 		}
-- 
2.43.0


From 3049b6f4bbc15f9d21739d658efb9add499df730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 05/40] fix: in-memory store crashes on unknown markets and
 keeps deleted ones indexed

---
 .../inmemory/market_memory_repository_impl.go | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index f390bcb..7a5ab2d 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -117,6 +117,10 @@ func (r MarketRepositoryImpl) OpenMarket(_ context.Context, quoteAsset string) e
 		return err
 	}
 
+	if currentMarket == nil {
+		return ErrMarketNotFound
+	}
+
 	// We update the market status only if the market is closed.
 	if currentMarket.IsTradable() {
 		return nil
@@ -142,6 +146,10 @@ func (r MarketRepositoryImpl) CloseMarket(_ context.Context, quoteAsset string)
 		return err
 	}
 
+	if currentMarket == nil {
+		return ErrMarketNotFound
+	}
+
 	// We update the market status only if the market is open.
 	if !currentMarket.IsTradable() {
 		return nil
@@ -166,6 +174,10 @@ func (r *MarketRepositoryImpl) UpdatePrices(_ context.Context, accountIndex int,
 		return err
 	}
 
+	if market == nil {
+		return ErrMarketNotFound
+	}
+
 	err = market.ChangeBasePrice(prices.BasePrice)
 	if err != nil {
 		return err
@@ -183,7 +195,15 @@ func (r *MarketRepositoryImpl) DeleteMarket(
 	_ context.Context,
 	accountIndex int,
 ) error {
+	r.store.locker.Lock()
+	defer r.store.locker.Unlock()
+
 	delete(r.store.markets, accountIndex)
+	for asset, index := range r.store.accountsByAsset {
+		if index == accountIndex {
+			delete(r.store.accountsByAsset, asset)
+		}
+	}
 
 	return nil
 }
-- 
2.43.0


From c36e4df60b4c3f5e0a51d3026ab5b8dde0592241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 06/40] fix: in-memory store lists the same trade repeatedly

---
 .../storage/db/inmemory/trade_memory_repository_impl.go        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
index 5f4fad2..4638f82 100644
--- a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
@@ -133,7 +133,8 @@ func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade
 
 func (r tradeRepositoryImpl) getAllTrades() ([]*domain.Trade, error) {
 	allTrades := make([]*domain.Trade, 0)
-	for _, trade := range r.store.trades {
+	for _, t := range r.store.trades {
+		trade := t
 		allTrades = append(allTrades, &trade)
 	}
 	return allTrades, nil
-- 
2.43.0


From 528feff6f7ca30d7fb092b4f405df6e5eaa1ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 07/40] fix: disk-backed store keeps a stale price when the
 strategy changes

---
 .../storage/db/badger/market_repository_impl.go     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..9a56b27 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -107,12 +107,23 @@ func (m marketRepositoryImpl) UpdateMarket(
 		return ErrMarketNotFound
 	}
 
+	price := currentMarket.Price
 	updatedMarket, err := updateFn(currentMarket)
 	if err != nil {
 		return err
 	}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	if err := m.updateMarket(ctx, accountIndex, *updatedMarket); err != nil {
+		return err
+	}
+
+	// Prices live in their own store, let's keep it aligned if they changed.
+	newPrice := updatedMarket.Price
+	if newPrice.BasePrice.Equal(price.BasePrice) &&
+		newPrice.QuotePrice.Equal(price.QuotePrice) {
+		return nil
+	}
+	return m.updatePriceByAccountIndex(ctx, accountIndex, newPrice)
 }
 
 func (m marketRepositoryImpl) OpenMarket(
-- 
2.43.0


From 3de1afdeea99bbda5f0e40b91ea6465216f60080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 08/40] fix: a failing rollback leaves the other stores of a
 unit of work open

---
 internal/infrastructure/storage/db/uow/unit_of_work.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/uow/unit_of_work.go b/internal/infrastructure/storage/db/uow/unit_of_work.go
index 559a726..70c1285 100644
--- a/internal/infrastructure/storage/db/uow/unit_of_work.go
+++ b/internal/infrastructure/storage/db/uow/unit_of_work.go
@@ -63,7 +63,6 @@ func (u *UnitOfWork) Run(fn func(Contextual) error) (err error) {
 				// TODO: handle rollback failure
 				// - Shall we try to rollback again?
 				err = _err
-				return
 			}
 		}
 	}()
-- 
2.43.0


From 55f426717815d33f97c86ab98d35c8b46cd2a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 09/40] fix: a swap transaction with an input lacking its
 previous output crashes the daemon

---
 pkg/swap/complete.go |  4 ++++
 pkg/swap/request.go  | 10 +++-------
 pkg/swap/swap.go     | 41 ++++++++++++++++++++++++++++++++++++-----
 3 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..73335cc 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -76,6 +76,10 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 		return err
 	}
 
+	if err := populateWitnessUtxos(ptx); err != nil {
+		return err
+	}
+
 	swapRequest := opts.SwapRequest
 
 	totalP, err := countCumulativeAmount(ptx.Inputs, swapRequest.GetAssetP(), opts.InputBlindingKeys)
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..6cefb88 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -7,7 +7,6 @@ import (
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/pset"
-	"github.com/vulpemventures/go-elements/transaction"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -73,12 +72,9 @@ func checkTxAndBlindKeys(
 		if !in.IsSane() {
 			return fmt.Errorf("partial input %d is not sane", i)
 		}
-		var prevout *transaction.TxOutput
-		if in.WitnessUtxo != nil {
-			prevout = in.WitnessUtxo
-		} else {
-			txinIndex := ptx.UnsignedTx.Inputs[i].Index
-			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
+		prevout, err := prevoutOfInput(ptx, i)
+		if err != nil {
+			return err
 		}
 		if checkInputKeys {
 			script := hex.EncodeToString(prevout.Script)
diff --git a/pkg/swap/swap.go b/pkg/swap/swap.go
index 7f94cb5..bcc2d8d 100644
--- a/pkg/swap/swap.go
+++ b/pkg/swap/swap.go
@@ -3,6 +3,7 @@ package swap
 import (
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
@@ -17,11 +18,8 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 		return err
 	}
 
-	for index, input := range decodedFromRequest.Inputs {
-		if input.WitnessUtxo == nil && input.NonWitnessUtxo != nil {
-			inputVout := decodedFromRequest.UnsignedTx.Inputs[index].Index
-			decodedFromRequest.Inputs[index].WitnessUtxo = input.NonWitnessUtxo.Outputs[inputVout]
-		}
+	if err := populateWitnessUtxos(decodedFromRequest); err != nil {
+		return err
 	}
 
 	totalP, err := countCumulativeAmount(decodedFromRequest.Inputs, request.GetAssetP(), request.GetInputBlindingKey())
@@ -51,6 +49,10 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 			return err
 		}
 
+		if err := populateWitnessUtxos(decodedFromAccept); err != nil {
+			return err
+		}
+
 		if request.GetId() != accept.GetRequestId() {
 			return errors.New("id mismatch: SwapRequest.id and SwapAccept.request_id are not the same")
 		}
@@ -77,6 +79,35 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 	return nil
 }
 
+// prevoutOfInput returns the previous output spent by the given input of the
+// partial transaction, or an error if the input does not carry it.
+func prevoutOfInput(ptx *pset.Pset, index int) (*transaction.TxOutput, error) {
+	input := ptx.Inputs[index]
+	if input.WitnessUtxo != nil {
+		return input.WitnessUtxo, nil
+	}
+	if input.NonWitnessUtxo != nil {
+		vout := ptx.UnsignedTx.Inputs[index].Index
+		if int(vout) < len(input.NonWitnessUtxo.Outputs) {
+			return input.NonWitnessUtxo.Outputs[vout], nil
+		}
+	}
+	return nil, fmt.Errorf("missing previous output for input %d", index)
+}
+
+// populateWitnessUtxos makes sure that every input of the partial transaction
+// carries its previous output as witness utxo.
+func populateWitnessUtxos(ptx *pset.Pset) error {
+	for i := range ptx.Inputs {
+		prevout, err := prevoutOfInput(ptx, i)
+		if err != nil {
+			return err
+		}
+		ptx.Inputs[i].WitnessUtxo = prevout
+	}
+	return nil
+}
+
 func outputFoundInTransaction(outputs []*transaction.TxOutput, value uint64, asset string, ouptutBlindKeys map[string][]byte) (bool, error) {
 	for _, output := range outputs {
 		// if confidential, unblind before check
-- 
2.43.0


From 73264f56b94fe8725bd315fe1f226a7ac835de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 10/40] fix: decrypting a cyphertext too short to hold nonce
 and salt panics

---
 pkg/wallet/cypher.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/wallet/cypher.go b/pkg/wallet/cypher.go
index 4a21eb2..e9c8574 100644
--- a/pkg/wallet/cypher.go
+++ b/pkg/wallet/cypher.go
@@ -9,6 +9,14 @@ import (
 	"golang.org/x/crypto/scrypt"
 )
 
+const (
+	// saltSize is the length in bytes of the salt appended to a cyphertext
+	saltSize = 32
+	// nonceSize is the length in bytes of the nonce prepended to a cyphertext,
+	// i.e. the standard size of GCM nonces
+	nonceSize = 12
+)
+
 // EncryptOpts is the struct given to Encrypt method
 type EncryptOpts struct {
 	PlainText  string
@@ -65,7 +73,12 @@ func (o DecryptOpts) validate() error {
 	if len(o.CypherText) <= 0 {
 		return ErrNullCypherText
 	}
-	if _, err := base64.StdEncoding.DecodeString(o.CypherText); err != nil {
+	data, err := base64.StdEncoding.DecodeString(o.CypherText)
+	if err != nil {
+		return ErrInvalidCypherText
+	}
+	// a cyphertext carries at least the nonce and the salt
+	if len(data) < nonceSize+saltSize {
 		return ErrInvalidCypherText
 	}
 	if len(o.Passphrase) <= 0 {
-- 
2.43.0


From dd6e3e7641344b1305ad65ad562a140f54c584d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/40] fix: transaction size and fee estimation undershoot or
 panic

The size estimate missed bytes of wrapped segwit, legacy and p2wsh inputs, of
p2pk outputs and of the surjection proofs of transactions with many inputs,
and panicked for outputs without a script. The fee lost a unit to floating
point rounding.
---
 pkg/wallet/estimation.go | 26 +++++++++++++++++---------
 pkg/wallet/util.go       | 31 ++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/pkg/wallet/estimation.go b/pkg/wallet/estimation.go
index 22027e6..0acd536 100644
--- a/pkg/wallet/estimation.go
+++ b/pkg/wallet/estimation.go
@@ -59,13 +59,13 @@ var (
 	scripsigtSizeByScriptType = map[int]int{
 		P2PK:        140, // len + opcode + sig + opcode + pubkey uncompressed
 		P2PKH:       108, // len + opcode + sig + opcode + pubkey
-		P2SH_P2WPKH: 23,  // len + p2wpkh script
-		P2SH_P2WSH:  35,  // len + p2wsh script
+		P2SH_P2WPKH: 24,  // len + opcode + p2wpkh script
+		P2SH_P2WSH:  36,  // len + opcode + p2wsh script
 		P2WPKH:      1,   // no scriptsig, still len is serialized
 		P2WSH:       1,   // no scriptsig
 	}
 	scriptPubKeySizeByScriptType = map[int]int{
-		P2PK:        67, // len + pubkey uncompressed + opcode
+		P2PK:        68, // len + opcode + pubkey uncompressed + opcode
 		P2PKH:       26, // len + opcodes (3) + hash(pubkey) + opcodes (2)
 		P2SH_P2WPKH: 24, // len + opcodes (2) + hash(script) + opcode
 		P2SH_P2WSH:  24, // len + opcodes (2) + hash(script) + opcode
@@ -120,19 +120,27 @@ func calcTxWitnessSize(
 	insSize := 0
 	auxCount := 0
 	for _, scriptType := range inScriptTypes {
-		if scriptType == P2SH_P2WPKH || scriptType == P2WPKH {
-			// len + witness[sig,pubkey] + no issuance proof + no token proof + no pegin
-			insSize += (1 + 107 + 1 + 1 + 1)
-		}
-		if scriptType == P2SH_P2WSH || scriptType == P2WSH {
+		// no issuance proof + no token proof + no pegin
+		insSize += 1 + 1 + 1
+		switch scriptType {
+		case P2SH_P2WPKH, P2WPKH:
+			// len + witness[sig,pubkey]
+			insSize += 1 + 107
+		case P2SH_P2WSH, P2WSH:
 			insSize += inAuxiliaryWitnessSize[auxCount]
 			auxCount++
+		default:
+			// no witness, still len is serialized
+			insSize += 1
 		}
 	}
 
 	numOutputs := len(outScriptTypes)
 	// size(range proof) + proof + size(surjection proof) + proof
-	outsSize := (3 + 4174 + 1 + 131) * numOutputs
+	// the surjection proof has a 2 bytes prefix, 1 bit for every input and 4
+	// 32 bytes elements
+	surjectionProofSize := 2 + (len(inScriptTypes)+7)/8 + 4*32
+	outsSize := (3 + 4174 + 1 + surjectionProofSize) * numOutputs
 	// size of proofs for unconf fee out
 	outsSize += 1 + 1
 
diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index 61a0086..fb94769 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -174,19 +174,12 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 			prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
 		}
 
-		sType := address.GetScriptType(prevout.Script)
+		sType := getScriptType(prevout.Script)
 		switch sType {
 		case address.P2ShScript:
 			if in.WitnessScript != nil {
 				inScriptTypes[i] = P2SH_P2WSH
-				// redeem script is treated as a multisig one. In case it's something
-				// different, it is treated as a singlesig instead.
-				m, _, _ := txscript.CalcMultiSigStats(in.RedeemScript)
-				if m <= 0 {
-					m = 1
-				}
-				scriptLen := len(in.RedeemScript)
-				scriptSize := 1 + (1+72)*m + 1 + varIntSerializeSize(uint64(scriptLen)) + scriptLen
+				scriptSize := calcWitnessSizeFromRedeemScript(in.WitnessScript)
 				inAuxiliaryWitnessSize = append(inAuxiliaryWitnessSize, scriptSize)
 			} else if in.RedeemScript != nil {
 				inScriptTypes[i] = P2SH_P2WPKH
@@ -197,7 +190,11 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 			break
 		case address.P2WshScript:
 			inScriptTypes[i] = P2WSH
-			scriptSize := calcWitnessSizeFromRedeemScript(in.RedeemScript)
+			witnessScript := in.WitnessScript
+			if witnessScript == nil {
+				witnessScript = in.RedeemScript
+			}
+			scriptSize := calcWitnessSizeFromRedeemScript(witnessScript)
 			inAuxiliaryWitnessSize = append(inAuxiliaryWitnessSize, scriptSize)
 			break
 		case address.P2PkhScript:
@@ -214,7 +211,7 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 	outScriptTypes := make([]int, len(ptx.Outputs), len(ptx.Outputs))
 	outAuxiliaryRedeemScriptSize := make([]int, 0)
 	for i, out := range ptx.UnsignedTx.Outputs {
-		sType := address.GetScriptType(out.Script)
+		sType := getScriptType(out.Script)
 		switch sType {
 		case address.P2PkhScript:
 			outScriptTypes[i] = P2PKH
@@ -234,6 +231,15 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 		outScriptTypes, outAuxiliaryRedeemScriptSize
 }
 
+// getScriptType returns the type of the given script, or -1 if it's too short to
+// have any, like that of a fee output.
+func getScriptType(script []byte) int {
+	if len(script) < 2 {
+		return -1
+	}
+	return address.GetScriptType(script)
+}
+
 func calcWitnessSizeFromRedeemScript(script []byte) int {
 	// redeem script is treated as a multisig one. In case it's something
 	// different, it is treated as a singlesig instead.
@@ -262,6 +268,5 @@ func calcFeeAmount(ptx *pset.Pset, nInputs, nOutputs, mSatsPerByte int) uint64 {
 		outScriptTypes, outAuxiliaryRedeemScriptSize,
 	)
 
-	millisatsPerByte := float64(mSatsPerByte) / 1000
-	return uint64(float64(txSize) * millisatsPerByte)
+	return uint64(txSize) * uint64(mSatsPerByte) / 1000
 }
-- 
2.43.0


From b18a75487390cce4ff589e63fc4ae1a6b8e3a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 12/40] fix: change output wraps around when the network fee
 exceeds the amount selected for it

---
 pkg/wallet/transaction.go | 23 +++++++++++++----------
 pkg/wallet/util.go        | 31 +++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..053e9bc 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -396,20 +396,21 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
+					selectedUnspents, change, fee, err := selectUnspentsForFees(
 						unspents,
-						DummyFeeAmount,
 						opts.Network.AssetID,
+						changeAmount,
+						func(nUnspents int) uint64 {
+							return calcFeeAmount(ptx, len(inputsToAdd)+nUnspents, len(outputsToAdd), opts.MilliSatsPerBytes)
+						},
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
-					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
-
+					feeAmount = fee
+					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(change)
 				}
 			} else {
 				// In case there's no LBTC change, it's necessary to choose some other
@@ -417,18 +418,20 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
+				selectedUnspents, change, fee, err := selectUnspentsForFees(
 					unspents,
-					DummyFeeAmount,
 					opts.Network.AssetID,
+					0,
+					func(nUnspents int) uint64 {
+						return calcFeeAmount(ptx, len(inputsToAdd)+nUnspents, len(outputsToAdd)+1, opts.MilliSatsPerBytes)
+					},
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fee
 
 				lbtcChangeOutput, _ := newTxOutput(
 					opts.Network.AssetID,
diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index fb94769..8f5b811 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -102,6 +102,37 @@ func getRemainingUnspents(unspents, unspentsToRemove []explorer.Utxo) []explorer
 	return remainingUnspents
 }
 
+// selectUnspentsForFees selects the LBTC unspents that, along with the already
+// available LBTC amount, cover the fee amount. This depends on how many unspents
+// are selected, therefore the selection is repeated with the true fee amount as
+// long as DummyFeeAmount is not enough. The change left, always greater than
+// zero, and the fee amount are returned with the selected unspents.
+func selectUnspentsForFees(
+	unspents []explorer.Utxo,
+	lbtcAsset string,
+	availableAmount uint64,
+	calcFee func(nUnspents int) uint64,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	targetAmount := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents,
+			targetAmount,
+			lbtcAsset,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+
+		feeAmount := calcFee(len(selectedUnspents))
+		totalAmount := availableAmount + targetAmount + change
+		if totalAmount > feeAmount {
+			return selectedUnspents, totalAmount - feeAmount, feeAmount, nil
+		}
+		targetAmount = feeAmount - availableAmount + 1
+	}
+}
+
 func varIntSerializeSize(val uint64) int {
 	// The value is small enough to be represented by itself, so it's
 	// just 1 byte.
-- 
2.43.0


From 2854321aadcd4ae1a06524c89e0604e941964d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 13/40] fix: a proposal of other assets than the market's is
 priced and accepted

The price check compares the amounts only, so that coins of a market could be
exchanged for those of any other asset, or in the opposite direction.
---
 internal/core/application/trade_service.go | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..602a4e7 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -349,6 +349,16 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
+	if !isValidTradeAssets(swapRequest, tradeType, mkt) {
+		trade.Fail(
+			swapRequest.GetId(),
+			int(pkgswap.ErrCodeInvalidSwapRequest),
+			"bad assets",
+		)
+		swapFail = trade.SwapFailMessage()
+		goto end
+	}
+
 	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 		trade.Fail(
 			swapRequest.GetId(),
@@ -881,6 +891,21 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradeAssets checks that the assets of the swap are those of the market,
+// to be exchanged in the direction defined by the type of the trade.
+func isValidTradeAssets(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	if tradeType == TradeSell {
+		return swapRequest.GetAssetP() == market.BaseAsset &&
+			swapRequest.GetAssetR() == market.QuoteAsset
+	}
+	return swapRequest.GetAssetP() == market.QuoteAsset &&
+		swapRequest.GetAssetR() == market.BaseAsset
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
-- 
2.43.0


From 70442f076997d1d8ccee190b98d0dcbeac657e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 14/40] fix: coins reserved for two trades or not reserved at
 all

Concurrent proposals could be filled with the same coins because they were
locked only afterwards and whether that worked was ignored. Proposals are now
answered one at a time and rejected if their coins cannot be locked.
---
 internal/core/application/trade_service.go | 39 ++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 602a4e7..2d93868 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -54,6 +55,10 @@ type tradeService struct {
 	expiryDuration     time.Duration
 	priceSlippage      decimal.Decimal
 	network            *network.Network
+
+	// proposals are answered one at a time, so that the coins offered for filling
+	// one are not selected for another one before they get locked.
+	proposalMtx sync.Mutex
 }
 
 func NewTradeService(
@@ -276,6 +281,9 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, domain.ErrMarketInvalidQuoteAsset
 	}
 
+	t.proposalMtx.Lock()
+	defer t.proposalMtx.Unlock()
+
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		log.Debugf("error while retrieving vault: %s", err)
@@ -414,15 +422,34 @@ end:
 	var selectedUnspentKeys []domain.UnspentKey
 
 	if swapAccept != nil {
-		log.Infof("trade with id %s accepted", trade.ID)
-
 		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
+		lockedUnspents, err := t.repoManager.RunTransaction(
 			ctx,
-			selectedUnspentKeys,
-			trade.ID,
+			!readOnlyTx,
+			func(ctx context.Context) (interface{}, error) {
+				return t.repoManager.UnspentRepository().LockUnspents(
+					ctx,
+					selectedUnspentKeys,
+					trade.ID,
+				)
+			},
 		)
-		log.Debugf("locked %d unspents", lockedUnspents)
+		if err != nil {
+			log.WithError(err).Warnf("unable to lock unspents for trade with id %s", trade.ID)
+			trade.Fail(
+				swapRequest.GetId(),
+				int(pkgswap.ErrCodeRejectedSwapRequest),
+				"unable to reserve funds",
+			)
+			swapAccept, swapExpiryTime = nil, 0
+			swapFail = trade.SwapFailMessage()
+		} else {
+			log.Debugf("locked %v unspents", lockedUnspents)
+		}
+	}
+
+	if swapAccept != nil {
+		log.Infof("trade with id %s accepted", trade.ID)
 
 		// set timer for trade expiration
 		go func() {
-- 
2.43.0


From 01a001e7600e6d7339a6cf4fe387ee09c4388332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 15/40] fix: aborted or expired trades release coins of other
 trades or crash

A counterparty could abort a completed or settled trade, aborting an unknown
one crashed the daemon, and aborting a trade twice or its expiration released
coins that meanwhile had been reserved for another trade.
---
 internal/core/application/trade_service.go | 60 +++++++++++++++++++---
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 2d93868..34bd590 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -8,6 +8,7 @@ import (
 	"sync"
 	"time"
 
+	"github.com/google/uuid"
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -591,11 +592,20 @@ func (t *tradeService) tradeFail(
 		return nil, err
 	}
 
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
+
 	tradeID := trade.ID
 	if err := t.repoManager.TradeRepository().UpdateTrade(
 		ctx,
 		&tradeID,
 		func(trade *domain.Trade) (*domain.Trade, error) {
+			// only a pending trade can be aborted by the counter-party, coins of any
+			// other one have been either spent or released already.
+			if !trade.IsAccepted() || trade.IsRejected() {
+				return nil, domain.ErrTradeMustBeAccepted
+			}
 			trade.Fail(
 				swapID,
 				int(pkgswap.ErrCodeFailedToComplete),
@@ -635,7 +645,11 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 }
 
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
-	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
+	p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+	if err != nil {
+		log.WithError(err).Warnf("invalid pset for trade with id %s", trade.ID)
+		return
+	}
 	keyLen := len(p.Inputs)
 	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
 
@@ -646,10 +660,7 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 		}
 	}
 
-	count, err := t.repoManager.UnspentRepository().UnlockUnspents(
-		context.Background(),
-		unspentKeys,
-	)
+	count, err := t.unlockUnspents(context.Background(), unspentKeys, trade.ID)
 	if err != nil {
 		log.Warnf(
 			"unable to unlock unspents for trade with id %s. You must run "+
@@ -661,6 +672,37 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 	log.Debugf("unlocked %d unspents", count)
 }
 
+// unlockUnspents unlocks those of the given unspents that are locked for the
+// given trade. The others might have been locked for another one meanwhile.
+func (t *tradeService) unlockUnspents(
+	ctx context.Context,
+	unspentKeys []domain.UnspentKey,
+	tradeID uuid.UUID,
+) (int, error) {
+	count, err := t.repoManager.RunTransaction(
+		ctx,
+		!readOnlyTx,
+		func(ctx context.Context) (interface{}, error) {
+			unspentRepo := t.repoManager.UnspentRepository()
+			lockedKeys := make([]domain.UnspentKey, 0, len(unspentKeys))
+			for _, key := range unspentKeys {
+				u, err := unspentRepo.GetUnspentWithKey(ctx, key)
+				if err != nil {
+					return nil, err
+				}
+				if u != nil && u.IsLocked() && *u.LockedBy == tradeID {
+					lockedKeys = append(lockedKeys, key)
+				}
+			}
+			return unspentRepo.UnlockUnspents(ctx, lockedKeys)
+		},
+	)
+	if err != nil {
+		return -1, err
+	}
+	return count.(int), nil
+}
+
 func (t *tradeService) checkTradeExpiration(
 	tradeTxID string,
 	selectedUnspentKeys []domain.UnspentKey,
@@ -669,12 +711,16 @@ func (t *tradeService) checkTradeExpiration(
 
 	// if the trade is expired it's required to unlock the unspents used as input
 	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	trade, err := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil || trade == nil {
+		log.WithError(err).Warnf("unable to find trade with txid %s", tradeTxID)
+		return
+	}
 
 	if trade.IsExpired() {
 		t.blockchainListener.StopObserveTx(trade.TxID)
 
-		count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, selectedUnspentKeys)
+		count, err := t.unlockUnspents(ctx, selectedUnspentKeys, trade.ID)
 		if err != nil {
 			log.WithError(err).Warnf(
 				"trade with id %s has expired but an error occured while "+
-- 
2.43.0


From 27fccc944a64085872be58ba80b6ef1b52b01961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 16/40] fix: inputs with other witnesses than p2wpkh crash the
 daemon

---
 internal/core/application/types.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..f9f7b60 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -260,9 +260,13 @@ func (t transactionManager) ExtractUnspents(
 	unspentsToSpend := make([]domain.UnspentKey, 0)
 
 	for _, in := range tx.Inputs {
-		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		// our unspents are native-segiwt only, inputs with any other kind of
+		// witness belong to someone else
+		if len(in.Witness) == 2 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
-- 
2.43.0


From 2bfd7c320c8be23544bcad696e61af5cd93be602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 17/40] fix: coins of a trade settled without completion are
 neither added nor spent

---
 .../core/application/blockchain_listener.go   | 42 +++++++------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..94ae6b8 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -311,37 +311,27 @@ func (b *blockchainListener) confirmOrAddUnspents(
 		return err
 	}
 
-	uLen := len(unspentsToAdd)
-	unspentAddresses := make([]string, uLen, uLen)
-	for i, u := range unspentsToAdd {
-		unspentAddresses[i] = u.Address
+	// the unspents could be either unknown or already stored as unconfirmed.
+	// Those unknown must be inserted already confirmed.
+	unspentKeys := make([]domain.UnspentKey, 0, len(unspentsToAdd))
+	for i := range unspentsToAdd {
+		unspentsToAdd[i].Confirmed = true
+		unspentKeys = append(unspentKeys, unspentsToAdd[i].Key())
 	}
-
-	u, err := b.repoManager.UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)
-	if err != nil {
+	if err := addUnspents(b.repoManager.UnspentRepository(), unspentsToAdd); err != nil {
 		return err
 	}
-	if len(u) > 0 {
-		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
-		for i, u := range unspentsToAdd {
-			unspentKeys[i] = u.Key()
-		}
-		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
-		if err != nil {
-			return err
-		}
-		log.Debugf("confirmed %d unspents", count)
-		return nil
+	count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
+	if err != nil {
+		return err
 	}
+	log.Debugf("confirmed %d unspents", count)
 
-	go func() {
-		// these unspents must be inserted already confirmed.
-		for i := range unspentsToAdd {
-			unspentsToAdd[i].Confirmed = true
-		}
-		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
-		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
-	}()
+	count, err = spendUnspents(b.repoManager.UnspentRepository(), unspentsToSpend)
+	if err != nil {
+		return err
+	}
+	log.Debugf("spent %d unspents", count)
 
 	return nil
 }
-- 
2.43.0


From 6c60b92d28fb0c7d18f6de51de8e2b3297489d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 18/40] fix: deposit claims with a negative index crash, fund a
 market with other assets than claimed, or leave coins unconfirmed

---
 internal/core/application/operator_service.go | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..6b6e797 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1029,7 +1029,9 @@ func (o *operatorService) ClaimMarketDeposit(
 		}
 	}
 
-	return o.claimDeposit(ctx, infoPerAccount, outpoints, marketDeposit)
+	return o.claimDeposit(
+		ctx, infoPerAccount, outpoints, marketDeposit, marketReq.QuoteAsset,
+	)
 }
 
 // ClaimFeeDeposit adds unspents to the Fee Account
@@ -1048,7 +1050,7 @@ func (o *operatorService) ClaimFeeDeposit(
 	infoPerAccount := make(map[int]domain.AddressesInfo)
 	infoPerAccount[domain.FeeAccount] = info
 
-	return o.claimDeposit(ctx, infoPerAccount, outpoints, feeDeposit)
+	return o.claimDeposit(ctx, infoPerAccount, outpoints, feeDeposit, "")
 }
 
 func (o *operatorService) DropMarket(
@@ -1126,6 +1128,7 @@ func (o *operatorService) claimDeposit(
 	infoPerAccount map[int]domain.AddressesInfo,
 	outpoints []TxOutpoint,
 	depositType int,
+	quoteAsset string,
 ) error {
 	// group all addresses info by script
 	infoByScript := make(map[string]domain.AddressInfo)
@@ -1157,7 +1160,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
 			return ErrInvalidOutpoint
 		}
 
@@ -1196,7 +1199,7 @@ func (o *operatorService) claimDeposit(
 	for accountIndex, count := range counter {
 		if count == len(outpoints) {
 			if depositType == marketDeposit {
-				if err := o.fundMarket(accountIndex, unspents); err != nil {
+				if err := o.fundMarket(accountIndex, quoteAsset, unspents); err != nil {
 					return err
 				}
 				log.Infof("funded market with account %d", accountIndex)
@@ -1204,6 +1207,16 @@ func (o *operatorService) claimDeposit(
 
 			go func() {
 				addUnspentsAsync(o.repoManager.UnspentRepository(), unspents)
+				// those already stored as unconfirmed must be confirmed.
+				unspentKeys := make([]domain.UnspentKey, 0, len(unspents))
+				for _, u := range unspents {
+					unspentKeys = append(unspentKeys, u.Key())
+				}
+				if _, err := o.repoManager.UnspentRepository().ConfirmUnspents(
+					context.Background(), unspentKeys,
+				); err != nil {
+					log.Warn(err)
+				}
 				if depositType == feeDeposit {
 					if err := o.checkAccountBalance(infoPerAccount[accountIndex]); err != nil {
 						log.Warn(err)
@@ -1222,6 +1235,7 @@ func (o *operatorService) claimDeposit(
 
 func (o *operatorService) fundMarket(
 	accountIndex int,
+	quoteAsset string,
 	unspents []domain.Unspent,
 ) error {
 	outpoints := make([]domain.OutpointWithAsset, 0, len(unspents))
@@ -1241,6 +1255,10 @@ func (o *operatorService) fundMarket(
 			if err := m.FundMarket(outpoints, o.marketBaseAsset); err != nil {
 				return nil, err
 			}
+			// the assets deposited must be those of the market claimed.
+			if m.QuoteAsset != quoteAsset {
+				return nil, domain.ErrMarketInvalidQuoteAsset
+			}
 
 			return m, nil
 		},
-- 
2.43.0


From 0d7579254950cecff08aa82569e3ff1410ab9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 19/40] fix: withdrawals of confidential coins fail, swap the
 keys of their changes, and mark coins spent when not broadcasted

---
 internal/core/application/operator_service.go | 17 ++--
 internal/core/application/wallet_service.go   | 92 ++++++++++++++++---
 2 files changed, 88 insertions(+), 21 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 6b6e797..5670a50 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -853,13 +853,16 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
-		o.repoManager.UnspentRepository(),
-		o.repoManager.VaultRepository(),
-		o.network,
-		txHex,
-		market.AccountIndex,
-	)
+	// the utxo set changes only if the transaction has been broadcasted.
+	if req.Push {
+		go extractUnspentsFromTxAndUpdateUtxoSet(
+			o.repoManager.UnspentRepository(),
+			o.repoManager.VaultRepository(),
+			o.network,
+			txHex,
+			market.AccountIndex,
+		)
+	}
 
 	// Publish message for topic AccountWithdraw to pubsub service.
 	if svc := o.blockchainListener.PubSubService(); svc != nil {
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..8374f08 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -564,13 +565,16 @@ func (w *walletService) SendToMany(
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
-		w.repoManager.UnspentRepository(),
-		w.repoManager.VaultRepository(),
-		w.network,
-		txHex,
-		domain.FeeAccount,
-	)
+	// the utxo set changes only if the transaction has been broadcasted.
+	if req.Push {
+		go extractUnspentsFromTxAndUpdateUtxoSet(
+			w.repoManager.UnspentRepository(),
+			w.repoManager.VaultRepository(),
+			w.network,
+			txHex,
+			domain.FeeAccount,
+		)
+	}
 
 	rawTx, _ := hex.DecodeString(txHex)
 	return rawTx, nil
@@ -1029,9 +1033,13 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	outputsBlindingKeys, err := appendChangeBlindingKeys(
+		opts.outputsBlindingKeys,
+		updateResult.PsetBase64,
+		updateResult.ChangeOutputsBlindingKeys,
+	)
+	if err != nil {
+		return "", err
 	}
 
 	// add inputs for paying network fees
@@ -1048,13 +1056,23 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	outputsBlindingKeys, err = appendChangeBlindingKeys(
+		outputsBlindingKeys,
+		feeUpdateResult.PsetBase64,
+		feeUpdateResult.ChangeOutputsBlindingKeys,
+	)
+	if err != nil {
+		return "", err
 	}
 
-	// blind the transaction
-	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
+	// blind the transaction. The proofs of the unspents might not be stored,
+	// therefore the inputs' blinding data are those of the (revealed) unspents.
+	selectedUnspents := make([]explorer.Utxo, 0)
+	selectedUnspents = append(selectedUnspents, updateResult.SelectedUnspents...)
+	selectedUnspents = append(selectedUnspents, feeUpdateResult.SelectedUnspents...)
+	blindedPset, err := w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{
 		PsetBase64:         feeUpdateResult.PsetBase64,
+		InputBlindingData:  getBlindingDataOfUnspents(selectedUnspents),
 		OutputBlindingKeys: outputsBlindingKeys,
 	})
 	if err != nil {
@@ -1094,6 +1112,52 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// appendChangeBlindingKeys adds to the list of blinding keys of the first
+// outputs of the given transaction those of the remaining ones, in order.
+func appendChangeBlindingKeys(
+	blindingKeys [][]byte,
+	psetBase64 string,
+	changeBlindingKeys map[string][]byte,
+) ([][]byte, error) {
+	ptx, err := pset.NewPsetFromBase64(psetBase64)
+	if err != nil {
+		return nil, err
+	}
+
+	outputs := ptx.UnsignedTx.Outputs
+	keys := append(make([][]byte, 0, len(outputs)), blindingKeys...)
+	for i := len(blindingKeys); i < len(outputs); i++ {
+		key, ok := changeBlindingKeys[hex.EncodeToString(outputs[i].Script)]
+		if !ok {
+			return nil, fmt.Errorf("missing blinding key for output %d", i)
+		}
+		keys = append(keys, key)
+	}
+	return keys, nil
+}
+
+func getBlindingDataOfUnspents(
+	unspents []explorer.Utxo,
+) map[int]wallet.BlindingData {
+	blinderOrZero := func(blinder []byte) []byte {
+		if len(blinder) <= 0 {
+			return make([]byte, 32)
+		}
+		return blinder
+	}
+
+	blindingData := make(map[int]wallet.BlindingData)
+	for i, u := range unspents {
+		blindingData[i] = wallet.BlindingData{
+			Asset:         u.Asset(),
+			Amount:        u.Value(),
+			AssetBlinder:  blinderOrZero(u.AssetBlinder()),
+			AmountBlinder: blinderOrZero(u.ValueBlinder()),
+		}
+	}
+	return blindingData
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
-- 
2.43.0


From ce7ee490ac7ba9f8ba3fe517652d01f6ae1a336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 20/40] fix: a failed restore cannot be repeated and an
 unfunded market prevents restoring the wallet

---
 internal/core/application/wallet_service.go | 34 ++++++++++++++++-----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 8374f08..d72ae35 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -180,6 +180,8 @@ func (w *walletService) InitWallet(
 
 	if restore {
 		w.setSyncing(true)
+		// the restoration can be retried also in case this attempt fails
+		defer w.setSyncing(false)
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
@@ -190,7 +192,15 @@ func (w *walletService) InitWallet(
 		log.Debug("creating wallet")
 	}
 
-	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+	var vault *domain.Vault
+	var err error
+	if restore {
+		// the vault is stored only at the end of the restoration, so that nothing
+		// is left behind in case this fails
+		vault, err = domain.NewVault(mnemonic, passphrase, w.network)
+	} else {
+		vault, err = w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+	}
 	if err != nil {
 		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
 		return
@@ -248,7 +258,9 @@ func (w *walletService) InitWallet(
 			i++
 		}
 
-		if err := w.persistRestoredState(ctx, vault, unspents, markets); err != nil {
+		if err := w.persistRestoredState(
+			ctx, mnemonic, passphrase, vault, unspents, markets,
+		); err != nil {
 			chErr <- fmt.Errorf("unable to persist restored state: %v", err)
 			return
 		}
@@ -274,9 +286,6 @@ func (w *walletService) InitWallet(
 		CurrentPwd: passphrase,
 	}
 	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
 	log.Debug("done")
 }
 
@@ -740,7 +749,11 @@ func (w *walletService) restoreMarket(
 		}
 
 		if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
-			return nil, err
+			// the market can be funded later by claiming new deposits, this must
+			// not prevent the rest of the wallet from being restored
+			log.WithError(err).Warnf(
+				"market with account %d is restored but not funded", accountIndex,
+			)
 		}
 	}
 
@@ -749,6 +762,8 @@ func (w *walletService) restoreMarket(
 
 func (w *walletService) persistRestoredState(
 	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
 	vault *domain.Vault,
 	unspents []domain.Unspent,
 	markets []*domain.Market,
@@ -757,7 +772,12 @@ func (w *walletService) persistRestoredState(
 		ctx,
 		false,
 		func(ctx context.Context) (interface{}, error) {
-			// update changes to vault
+			// create the vault and update it with the restored accounts
+			if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+				ctx, mnemonic, passphrase, w.network,
+			); err != nil {
+				return nil, fmt.Errorf("unable to persist the vault: %s", err)
+			}
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
 				func(v *domain.Vault) (*domain.Vault, error) {
-- 
2.43.0


From 001ebbf5b58c3e7319594668d30b516ac4369fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 21/40] fix: addresses derived at the same time are handed out
 twice or lost

---
 internal/core/application/operator_service.go | 81 ++++++++++---------
 internal/core/application/trade_service.go    | 18 +++--
 internal/core/application/wallet_service.go   | 17 ++++
 3 files changed, 71 insertions(+), 45 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 5670a50..1ff7176 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -137,6 +137,9 @@ func (o *operatorService) DepositMarket(
 	quoteAsset string,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
 	var accountIndex int
 
 	// First case: the assets are given. If are valid and a market exist we need to derive a new address for that account.
@@ -177,7 +180,7 @@ func (o *operatorService) DepositMarket(
 		nextAccountIndex := latestAccountIndex + 1
 		accountIndex = nextAccountIndex
 	}
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
@@ -198,33 +201,32 @@ func (o *operatorService) DepositMarket(
 		}
 	}
 
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
-			// this makes sure that the market is created if it needs to. Otherwise,
-			// this does not commit any change to the marekt repo.
-			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
-				ctx,
-				&domain.Market{
-					AccountIndex: accountIndex,
-					Fee:          o.marketFee,
-				},
-			); err != nil {
-				return nil, err
-			}
-
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
+	// the addresses are handed out only once they're stored.
+	if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
+		// this makes sure that the market is created if it needs to. Otherwise,
+		// this does not commit any change to the marekt repo.
+		if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
+			ctx,
+			&domain.Market{
+				AccountIndex: accountIndex,
+				Fee:          o.marketFee,
+			},
+		); err != nil {
+			return nil, err
+		}
 
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
+		if err := o.repoManager.VaultRepository().UpdateVault(
+			ctx,
+			func(_ *domain.Vault) (*domain.Vault, error) {
+				return vault, nil
+			}); err != nil {
+			return nil, err
 		}
-	}()
+
+		return nil, nil
+	}); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -233,7 +235,10 @@ func (o *operatorService) DepositFeeAccount(
 	ctx context.Context,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
-	if numOfAddresses == 0 {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
@@ -255,16 +260,15 @@ func (o *operatorService) DepositFeeAccount(
 		}
 	}
 
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
+	// the addresses are handed out only once they're stored.
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(_ *domain.Vault) (*domain.Vault, error) {
+			return vault, nil
+		},
+	); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -706,6 +710,9 @@ func (o *operatorService) WithdrawMarketFunds(
 	ctx context.Context,
 	req WithdrawMarketReq,
 ) ([]byte, error) {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
 	if req.BaseAsset != o.marketBaseAsset {
 		return nil, domain.ErrMarketInvalidBaseAsset
 	}
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 34bd590..9b7689b 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -284,6 +284,8 @@ func (t *tradeService) TradePropose(
 
 	t.proposalMtx.Lock()
 	defer t.proposalMtx.Unlock()
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
 
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
@@ -428,6 +430,14 @@ end:
 			ctx,
 			!readOnlyTx,
 			func(ctx context.Context) (interface{}, error) {
+				if err := t.repoManager.VaultRepository().UpdateVault(
+					ctx,
+					func(_ *domain.Vault) (*domain.Vault, error) {
+						return vault, nil
+					},
+				); err != nil {
+					return nil, err
+				}
 				return t.repoManager.UnspentRepository().LockUnspents(
 					ctx,
 					selectedUnspentKeys,
@@ -475,14 +485,6 @@ end:
 				}); err != nil {
 					return nil, err
 				}
-
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
-						return nil, err
-					}
-				}
 				return nil, nil
 			},
 		); err != nil {
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index d72ae35..5e840dc 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -67,6 +67,11 @@ type WalletService interface {
 	PassphraseChan() chan PassphraseMsg
 }
 
+// vaultMtx serializes the operations that change the vault, from when this is
+// read until the changes are stored, so that none of them works on an outdated
+// copy and hands out, or loses, the addresses derived by another one.
+var vaultMtx sync.Mutex
+
 type walletService struct {
 	repoManager        ports.RepoManager
 	explorerService    explorer.Service
@@ -293,6 +298,9 @@ func (w *walletService) UnlockWallet(
 	ctx context.Context,
 	passphrase string,
 ) error {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
 	if w.isSyncing() {
 		return ErrWalletIsSyncing
 	}
@@ -361,6 +369,9 @@ func (w *walletService) ChangePassword(
 	currentPassphrase string,
 	newPassphrase string,
 ) error {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
 	if w.isSyncing() {
 		return ErrWalletIsSyncing
 	}
@@ -409,6 +420,9 @@ func (w *walletService) PassphraseChan() chan PassphraseMsg {
 func (w *walletService) GenerateAddressAndBlindingKey(
 	ctx context.Context,
 ) (address string, blindingKey string, err error) {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
 	if w.isSyncing() {
 		return "", "", ErrWalletIsSyncing
 	}
@@ -476,6 +490,9 @@ func (w *walletService) SendToMany(
 	ctx context.Context,
 	req SendToManyRequest,
 ) ([]byte, error) {
+	vaultMtx.Lock()
+	defer vaultMtx.Unlock()
+
 	if w.isSyncing() {
 		return nil, ErrWalletIsSyncing
 	}
-- 
2.43.0


From f4eb5995fce91ed939f09c7d69fbd6ab70341cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 22/40] fix: changing the password of the secure store loses or
 corrupts entries

---
 pkg/securestore/bolt/store.go | 152 ++++++++++++++--------------------
 1 file changed, 64 insertions(+), 88 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..7c1580e 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -93,7 +91,8 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 	s.encKeyMtx.Lock()
 	defer s.encKeyMtx.Unlock()
 
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+	var newEncKey *snacl.SecretKey
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -111,7 +110,7 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 				return ErrInvalidPassword
 			}
 
-			s.encKey = encKey
+			newEncKey = encKey
 			return nil
 		}
 
@@ -127,9 +126,15 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 			return err
 		}
 
-		s.encKey = encKey
+		newEncKey = encKey
 		return nil
-	}, func() {})
+	}, func() { newEncKey = nil }); err != nil {
+		return err
+	}
+
+	// The store is unlocked only once the key is known to be stored.
+	s.encKey = newEncKey
+	return nil
 }
 
 // ChangePassword decrypts the store (included the root key) with the old
@@ -175,27 +180,25 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+	// Decrypt all data with the old key and encrypt them again with the new one,
+	// along with storing the new encryption key parameters, all or nothing.
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		if err := s.updateEncryptedBucket(bucket, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
@@ -440,84 +443,57 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
-}
+// updateEncryptedBucket encrypts all data of the given bucket, and of those
+// nested into it, with the new key.
+func (s *boltSecureStorage) updateEncryptedBucket(
+	bucket kvdb.RwBucket, newKey *snacl.SecretKey,
+) error {
+	type entry struct {
+		key, value []byte
+	}
+	entries := make([]entry, 0)
+	nestedBuckets := make([][]byte, 0)
+
+	// The bucket must not be modified while being iterated.
+	if err := bucket.ForEach(func(k, v []byte) error {
+		key := append([]byte{}, k...)
+		if v == nil {
+			nestedBuckets = append(nestedBuckets, key)
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
 
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
+		value, err := s.encKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		encryptedValue, err := newKey.Encrypt(value)
+		if err != nil {
+			return err
+		}
+		entries = append(entries, entry{key, encryptedValue})
+		return nil
+	}); err != nil {
 		return err
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
-
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
-
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
-	}
 
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for _, e := range entries {
+		if err := bucket.Put(e.key, e.value); err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
-		}
 	}
 
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, key := range nestedBuckets {
+		nestedBucket := bucket.NestedReadWriteBucket(key)
+		if nestedBucket == nil {
+			return ErrBucketNotFound
+		}
+		if err := s.updateEncryptedBucket(nestedBucket, newKey); err != nil {
+			return err
+		}
 	}
 
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From 588382685a150c5460bb0617b7cc5751ec6e533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 23/40] fix: changing the password of the macaroon store loses
 all root keys but the default one

---
 pkg/macaroons/store.go | 78 ++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..a05e262 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -96,7 +96,8 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var newEncKey *snacl.SecretKey
+	if err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -116,7 +117,7 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 				return err
 			}
 
-			r.encKey = encKey
+			newEncKey = encKey
 			return nil
 		}
 
@@ -133,14 +134,23 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 			return err
 		}
 
-		r.encKey = encKey
+		newEncKey = encKey
 		return nil
-	}, func() {})
+	}, func() { newEncKey = nil }); err != nil {
+		return err
+	}
+
+	// The store is unlocked only once the key is known to be stored.
+	r.encKey = newEncKey
+	return nil
 }
 
-// ChangePassword decrypts the macaroon root key with the old password and then
-// encrypts it again with the new password.
+// ChangePassword decrypts all macaroon root keys with the old password and then
+// encrypts them again with the new password.
 func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
+	r.encKeyMtx.Lock()
+	defer r.encKeyMtx.Unlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB.
 	if r.encKey == nil {
@@ -152,7 +162,8 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var newEncKey *snacl.SecretKey
+	if err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -186,21 +197,36 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 			return err
 		}
 
-		// Now try to decrypt the root key with the old encryption key,
-		// encrypt it with the new one and then store it in the DB.
-		decryptedKey, err := encKeyOld.Decrypt(rootKeyDb)
-		if err != nil {
-			return err
+		// Now try to decrypt all root keys with the old encryption key,
+		// encrypt them with the new one and then store them in the DB.
+		// The bucket must not be modified while being iterated.
+		type rootKey struct {
+			id, encryptedKey []byte
 		}
-		rootKey := make([]byte, len(decryptedKey))
-		copy(rootKey, decryptedKey)
-		encryptedKey, err := encKeyNew.Encrypt(rootKey)
+		rootKeys := make([]rootKey, 0)
+		err = bucket.ForEach(func(k, v []byte) error {
+			if bytes.Equal(k, encryptionKeyID) {
+				return nil
+			}
+			decryptedKey, err := encKeyOld.Decrypt(v)
+			if err != nil {
+				return err
+			}
+			encryptedKey, err := encKeyNew.Encrypt(decryptedKey)
+			if err != nil {
+				return err
+			}
+			id := append([]byte{}, k...)
+			rootKeys = append(rootKeys, rootKey{id, encryptedKey})
+			return nil
+		})
 		if err != nil {
 			return err
 		}
-		err = bucket.Put(DefaultRootKeyID, encryptedKey)
-		if err != nil {
-			return err
+		for _, k := range rootKeys {
+			if err := bucket.Put(k.id, k.encryptedKey); err != nil {
+				return err
+			}
 		}
 
 		// Finally, store the new encryption key parameters in the DB
@@ -210,9 +236,14 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 			return err
 		}
 
-		r.encKey = encKeyNew
+		newEncKey = encKeyNew
 		return nil
-	}, func() {})
+	}, func() { newEncKey = nil }); err != nil {
+		return err
+	}
+
+	r.encKey = newEncKey
+	return nil
 }
 
 // Get implements the Get method for the bakery.RootKeyStorage interface.
@@ -313,6 +344,9 @@ func (r *RootKeyStorage) RootKey(ctx context.Context) ([]byte, []byte, error) {
 // GenerateNewRootKey generates a new macaroon root key, replacing the previous
 // root key if it existed.
 func (r *RootKeyStorage) GenerateNewRootKey() error {
+	r.encKeyMtx.RLock()
+	defer r.encKeyMtx.RUnlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB that can be replaced.
 	if r.encKey == nil {
@@ -383,7 +417,9 @@ func (r *RootKeyStorage) ListMacaroonIDs(_ context.Context) ([][]byte, error) {
 		appendRootKey := func(k, _ []byte) error {
 			// Only append when the key value is not encryptedKeyID.
 			if !bytes.Equal(k, encryptionKeyID) {
-				rootKeySlice = append(rootKeySlice, k)
+				// The key is valid only during the transaction.
+				id := append([]byte{}, k...)
+				rootKeySlice = append(rootKeySlice, id)
 			}
 			return nil
 		}
-- 
2.43.0


From 96f8c90a6947c6b3e458d1db4a1211cc2a4e6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 24/40] fix: the report of market fees can never be called when
 authentication is enabled

---
 internal/interfaces/grpc/permissions/permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..5634b40 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -247,6 +247,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityMarket,
 			Action: "read",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityMarket,
+			Action: "read",
+		}},
 		"/Operator/DropMarket": {{
 			Entity: EntityMarket,
 			Action: "write",
-- 
2.43.0


From bece2b5c241cecff7915abd57504e5e2cd1e78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 25/40] fix: authentication is disabled if the macaroon service
 cannot be created

---
 internal/interfaces/grpc/service.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..ee0342e 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,14 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		// without macaroon service any request would be authorized
+		var err error
+		macaroonSvc, err = macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to create macaroon service: %s", err)
+		}
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From 97bb6855e3cf7f2facdafc5d7479554169c5fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 26/40] fix: a completion with neither a completion nor a
 failure message crashes the daemon

---
 internal/interfaces/grpc/handler/trade.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/interfaces/grpc/handler/trade.go b/internal/interfaces/grpc/handler/trade.go
index e39ed13..d70c22f 100644
--- a/internal/interfaces/grpc/handler/trade.go
+++ b/internal/interfaces/grpc/handler/trade.go
@@ -273,6 +273,10 @@ func (t traderHandler) tradeComplete(
 	req *pb.TradeCompleteRequest,
 	stream pb.Trade_TradeCompleteServer,
 ) error {
+	if err := validateTradeComplete(req); err != nil {
+		return status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	var swapCompletePtr *domain.SwapComplete
 	var swapComplete domain.SwapComplete
 	if s := req.SwapComplete; s != nil {
@@ -347,6 +351,13 @@ func validateSwapRequest(swapRequest *pbswap.SwapRequest) error {
 	return nil
 }
 
+func validateTradeComplete(req *pb.TradeCompleteRequest) error {
+	if req.GetSwapComplete() == nil && req.GetSwapFail() == nil {
+		return errors.New("swap complete and swap fail are both null")
+	}
+	return nil
+}
+
 func validateAsset(asset string) error {
 	if buf, err := hex.DecodeString(asset); err != nil || len(buf) != 32 {
 		return errors.New("invalid asset")
-- 
2.43.0


From 8b61bafdc6d8154abaf8348eab67b94816df9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 27/40] fix: updating a market price with an undefined or
 infinite number crashes the daemon

---
 internal/interfaces/grpc/handler/operator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 5a4e361..474fdc4 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -3,6 +3,7 @@ package grpchandler
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -847,8 +848,13 @@ func validatePrice(price *pbtypes.Price) error {
 	if price == nil {
 		return errors.New("price is null")
 	}
-	if price.GetBasePrice() <= 0 || price.GetQuotePrice() <= 0 {
-		return errors.New("base or quote price are too low")
+	for _, p := range []float32{price.GetBasePrice(), price.GetQuotePrice()} {
+		if math.IsNaN(float64(p)) || math.IsInf(float64(p), 0) {
+			return errors.New("base or quote price are not valid numbers")
+		}
+		if p <= 0 {
+			return errors.New("base or quote price are too low")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From a5109d7d256c8087601293beacc68c789adf9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 28/40] fix: a failed initialization of the wallet is reported
 as successful

---
 internal/interfaces/grpc/handler/wallet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..a328bff 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -121,7 +121,8 @@ func (w walletHandler) initWallet(
 			return err
 		case reply, ok := <-chReplies:
 			if !ok {
-				return nil
+				// the service is done, either successfully or not
+				return <-chErr
 			}
 			if err := stream.Send(&pb.InitWalletReply{
 				Account: uint64(reply.AccountIndex),
@@ -129,6 +130,12 @@ func (w walletHandler) initWallet(
 				Status:  pb.InitWalletReply_Status(reply.Status),
 				Data:    reply.Data,
 			}); err != nil {
+				// prevent the service from waiting forever for someone to get its
+				// replies
+				go func() {
+					for range chReplies {
+					}
+				}()
 				return err
 			}
 		}
-- 
2.43.0


From 06231dd15975cd6fe4bb4a15bed896614b14371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 29/40] fix: markets with pluggable strategy are listed with an
 unknown strategy type

---
 internal/core/application/operator_service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 1ff7176..bea96bb 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -631,6 +631,10 @@ func (o *operatorService) ListMarket(
 
 	marketInfo := make([]MarketInfo, 0, len(markets))
 	for _, market := range markets {
+		strategyType := market.Strategy.Type
+		if market.IsStrategyPluggable() {
+			strategyType = int(domain.StrategyTypePluggable)
+		}
 		marketInfo = append(marketInfo, MarketInfo{
 			AccountIndex: uint64(market.AccountIndex),
 			Market: Market{
@@ -638,7 +642,7 @@ func (o *operatorService) ListMarket(
 				QuoteAsset: market.QuoteAsset,
 			},
 			Tradable:     market.Tradable,
-			StrategyType: market.Strategy.Type,
+			StrategyType: strategyType,
 			Price:        market.Price,
 			Fee: Fee{
 				BasisPoint:    market.Fee,
-- 
2.43.0


From 174e9ed8f3ae4d3603930cad870a1e4169e2da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 30/40] fix: do not lose changes made to a market at the same
 time

The changes of a market are read-modify-write sequences over 2 stores: those
given at the same time overwrote each other, and a change of strategy
interrupted in the middle left the market with the prices of the former one.
---
 internal/core/application/operator_service.go | 30 +++++++-------
 .../db/badger/market_repository_impl.go       | 40 ++++++++++++++-----
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index bea96bb..1b52d25 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -375,7 +375,7 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -386,15 +386,16 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
-		return nil, err
-	}
-
+	var mkt domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
+				return nil, err
+			}
+			mkt = *m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -431,7 +432,7 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -442,15 +443,16 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
-		return nil, err
-	}
-
+	var mkt domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
+				return nil, err
+			}
+			mkt = *m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index 9a56b27..11aaae4 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -3,6 +3,7 @@ package dbbadger
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -14,17 +15,23 @@ import (
 type marketRepositoryImpl struct {
 	store      *badgerhold.Store
 	priceStore *badgerhold.Store
+	// mtx prevents concurrent changes of the markets, whose data is spread over 2
+	// stores, from overwriting each other.
+	mtx *sync.Mutex
 }
 
 // NewMarketRepositoryImpl initialize a badger implementation of the domain.MarketRepository
 func NewMarketRepositoryImpl(store, priceStore *badgerhold.Store) domain.MarketRepository {
-	return marketRepositoryImpl{store, priceStore}
+	return marketRepositoryImpl{store, priceStore, &sync.Mutex{}}
 }
 
 func (m marketRepositoryImpl) GetOrCreateMarket(
 	ctx context.Context,
 	market *domain.Market,
 ) (*domain.Market, error) {
+	m.mtx.Lock()
+	defer m.mtx.Unlock()
+
 	return m.getOrCreateMarket(ctx, market)
 }
 
@@ -99,6 +106,9 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
+	m.mtx.Lock()
+	defer m.mtx.Unlock()
+
 	currentMarket, err := m.getMarket(ctx, accountIndex)
 	if err != nil {
 		return err
@@ -113,23 +123,29 @@ func (m marketRepositoryImpl) UpdateMarket(
 		return err
 	}
 
-	if err := m.updateMarket(ctx, accountIndex, *updatedMarket); err != nil {
-		return err
-	}
-
 	// Prices live in their own store, let's keep it aligned if they changed.
+	// This is done first so that, if interrupted, the market doesn't end up with
+	// the prices of its former strategy.
 	newPrice := updatedMarket.Price
-	if newPrice.BasePrice.Equal(price.BasePrice) &&
-		newPrice.QuotePrice.Equal(price.QuotePrice) {
-		return nil
+	if !newPrice.BasePrice.Equal(price.BasePrice) ||
+		!newPrice.QuotePrice.Equal(price.QuotePrice) {
+		if err := m.updatePriceByAccountIndex(
+			ctx, accountIndex, newPrice,
+		); err != nil {
+			return err
+		}
 	}
-	return m.updatePriceByAccountIndex(ctx, accountIndex, newPrice)
+
+	return m.updateMarket(ctx, accountIndex, *updatedMarket)
 }
 
 func (m marketRepositoryImpl) OpenMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
+	m.mtx.Lock()
+	defer m.mtx.Unlock()
+
 	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
 	markets, err := m.findMarkets(ctx, query)
 	if err != nil {
@@ -160,6 +176,9 @@ func (m marketRepositoryImpl) CloseMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
+	m.mtx.Lock()
+	defer m.mtx.Unlock()
+
 	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
 	markets, err := m.findMarkets(ctx, query)
 	if err != nil {
@@ -187,6 +206,9 @@ func (m marketRepositoryImpl) CloseMarket(
 }
 
 func (m marketRepositoryImpl) UpdatePrices(ctx context.Context, accountIndex int, prices domain.Prices) error {
+	m.mtx.Lock()
+	defer m.mtx.Unlock()
+
 	err := m.updatePriceByAccountIndex(ctx, accountIndex, prices)
 	if err != nil {
 		return err
-- 
2.43.0


From 9e609c639b48bdae6551e4d8b7ed0d2b416f94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 31/40] fix: keep webhooks consistent if registered
 concurrently or on storage failures

---
 .../infrastructure/pubsub/webhook/service.go  | 70 +++++++++++++------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..c236d1d 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -18,6 +19,9 @@ type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
 	cb         *gobreaker.CircuitBreaker
+	// mtx prevents concurrent changes of the managed hooks from overwriting each
+	// other.
+	mtx sync.Mutex
 }
 
 func NewWebhookPubSubService(
@@ -109,6 +113,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.mtx.Lock()
+	defer ws.mtx.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -122,7 +129,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -130,6 +139,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.mtx.Lock()
+	defer ws.mtx.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
@@ -138,13 +150,15 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
 		return err
 	}
-
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	// the hook is forgotten last so that, if interrupted, this can be repeated.
+	if err := ws.removeHookByAction(hook); err != nil {
+		return err
+	}
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -179,40 +193,51 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
-		hh, _ := NewWebhookFromBytes(buf)
+		hh, err := NewWebhookFromBytes(buf)
+		if err != nil {
+			return err
+		}
 		if hh.ID == hook.ID {
 			index = i
 			break
 		}
 	}
+	if index < 0 {
+		return nil
+	}
 
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+	rawHooks, _ := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
 		hook, _ := NewWebhookFromBytes(buf)
@@ -221,13 +246,16 @@ func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook
 	return hooks
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-- 
2.43.0


From 90c1b8a2d5a1c96f50293dd53a6215b70f4f0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 32/40] fix: keep observing items after an explorer error and
 report confirmed transactions with their hex

---
 pkg/crawler/observable.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..2fa9607 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -50,6 +50,9 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// make sure that the observable gets observed again even in case of errors
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -64,8 +67,6 @@ func (a *AddressObservable) Observe(
 	}
 	unspents := iUnspents.([]explorer.Utxo)
 
-	observableStatus.Set(Processed)
-
 	var eventType EventType
 	switch a.AccountIndex {
 	case domain.FeeAccount:
@@ -111,6 +112,9 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// make sure that the observable gets observed again even in case of errors
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -125,18 +129,6 @@ func (t *TransactionObservable) Observe(
 	}
 	txStatus := iTxStatus.(map[string]interface{})
 
-	if len(t.TxHex) <= 0 {
-
-		iTxHex, err := t.cb.Execute(func() (interface{}, error) {
-			return explorerSvc.GetTransactionHex(t.TxID)
-		})
-		if err == nil {
-			t.TxHex = iTxHex.(string)
-		}
-	}
-
-	observableStatus.Set(Processed)
-
 	var confirmed bool
 	var blockHash string
 	var blockTime float64
@@ -159,6 +151,20 @@ func (t *TransactionObservable) Observe(
 
 	}
 
+	if len(t.TxHex) <= 0 {
+
+		iTxHex, err := t.cb.Execute(func() (interface{}, error) {
+			return explorerSvc.GetTransactionHex(t.TxID)
+		})
+		if err == nil {
+			t.TxHex = iTxHex.(string)
+		} else if confirmed {
+			// a confirmed transaction is reported only along with its hex
+			errChan <- err
+			return
+		}
+	}
+
 	trxStatus := TransactionUnConfirmed
 	if confirmed {
 		trxStatus = TransactionConfirmed
@@ -243,7 +249,6 @@ func newObservableHandler(
 
 func (oh *observableHandler) start() {
 	oh.logAction("start")
-	oh.wg.Add(1)
 	for {
 		select {
 		case <-oh.ticker.C:
-- 
2.43.0


From ee12167d7cc19339c1bb68706ff32e9564afa1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 33/40] fix: stopping the crawler or forgetting an item does
 not crash or block it

The wait group is increased before an item starts being watched, the error
channel is not closed under observables still reporting errors, the lock is not
held while the closing event is queued, and a stopped crawler ignores any other
request.
---
 pkg/crawler/service.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..3c06211 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -18,6 +18,8 @@ type blockchainCrawler struct {
 	explorerSvc  explorer.Service
 	errChan      chan error
 	eventChan    chan Event
+	quitChan     chan struct{}
+	stopped      bool
 	observables  map[string]*observableHandler
 	errorHandler func(err error)
 	mutex        *sync.RWMutex
@@ -49,6 +51,7 @@ func NewService(opts Opts) Service {
 		explorerSvc:  opts.ExplorerSvc,
 		errChan:      make(chan error, errorQueueMaxSize),
 		eventChan:    make(chan Event, eventQueueMaxSize),
+		quitChan:     make(chan struct{}),
 		observables:  map[string]*observableHandler{},
 		errorHandler: opts.ErrorHandler,
 		mutex:        &sync.RWMutex{},
@@ -61,25 +64,37 @@ func NewService(opts Opts) Service {
 // events/Observable object
 func (bc *blockchainCrawler) Start() {
 	for {
-		err, more := <-bc.errChan
-		if !more {
+		select {
+		case err := <-bc.errChan:
+			go bc.errorHandler(err)
+		case <-bc.quitChan:
 			return
 		}
-		go bc.errorHandler(err)
 	}
 }
 
-// Stop stops crawler
+// Stop stops crawler. Once stopped, the crawler cannot be started again and
+// does not accept any other Observable.
 func (bc *blockchainCrawler) Stop() {
 	bc.mutex.Lock()
-	defer bc.mutex.Unlock()
-	for _, obsHandler := range bc.observables {
+	if bc.stopped {
+		bc.mutex.Unlock()
+		return
+	}
+	bc.stopped = true
+	for key, obsHandler := range bc.observables {
 		go obsHandler.stop()
+		delete(bc.observables, key)
 	}
 	bc.wg.Wait()
+	// the lock must not be held while waiting for the listener to make room for
+	// the closing event, since it might need it to go on.
+	bc.mutex.Unlock()
+
 	bc.eventChan <- CloseEvent{}
-	close(bc.errChan)
-	return
+	// the error channel is left open since some observables might be still
+	// about to report an error.
+	close(bc.quitChan)
 }
 
 // GetEventChannel returns Event channel which can be used to "listen" to
@@ -96,6 +111,10 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
@@ -108,6 +127,7 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 		)
 
 		bc.observables[observable.Key()] = obsHandler
+		bc.wg.Add(1)
 		go obsHandler.start()
 	}
 }
-- 
2.43.0


From c90d1f6efe0f54af3fb00c1b483dbcda457d3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 34/40] fix: the trade client refuses failed, empty or
 meaningless answers of the server

---
 pkg/trade/buy.go     | 13 ++++++++++++-
 pkg/trade/preview.go | 19 +++++++++++++++++++
 pkg/trade/wallet.go  |  2 +-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 75f6891..d81c9d3 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -193,17 +193,25 @@ func (t *Trade) marketOrderRequest(
 		SwapRequest: swapRequestMsg,
 		TradeType:   tradeType,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
 		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
 	}
+	if reply.GetSwapAccept() == nil {
+		return nil, errors.New("trade proposal has not been accepted by the server")
+	}
 
 	return proto.Marshal(reply.GetSwapAccept())
 }
 
 func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, error) {
 	swapAccept := &pb.SwapAccept{}
-	proto.Unmarshal(swapAcceptMsg, swapAccept)
+	if err := proto.Unmarshal(swapAcceptMsg, swapAccept); err != nil {
+		return "", err
+	}
 
 	psetBase64 := swapAccept.GetTransaction()
 	signedPset, err := w.Sign(psetBase64)
@@ -228,6 +236,9 @@ func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, er
 	if swapFail := reply.GetSwapFail(); swapFail != nil {
 		return "", errors.New(swapFail.GetFailureMessage())
 	}
+	if len(reply.GetTxid()) <= 0 {
+		return "", errors.New("trade has not been completed by the server")
+	}
 
 	return reply.GetTxid(), nil
 }
diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index c2d7d18..ccd52fa 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -18,6 +18,10 @@ var (
 	ErrInvalidTradeType = errors.New("trade type must be either BUY or SELL")
 	// ErrInvalidAmount ...
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
+	// ErrUnknownAsset ...
+	ErrUnknownAsset = errors.New("asset must be one of the market pair")
+	// ErrInvalidPreview ...
+	ErrInvalidPreview = errors.New("server returned an invalid market price")
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -41,6 +45,9 @@ func (o PreviewOpts) validate() error {
 	if buf, err := hex.DecodeString(o.Asset); err != nil || len(buf) != 32 {
 		return ErrInvalidAsset
 	}
+	if o.Asset != o.Market.BaseAsset && o.Asset != o.Market.QuoteAsset {
+		return ErrUnknownAsset
+	}
 	return nil
 }
 
@@ -69,8 +76,20 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(reply.GetPrices()) <= 0 {
+		return nil, ErrInvalidPreview
+	}
 	preview := reply.GetPrices()[0]
 
+	// the previewed amount must be that of the other asset of the market
+	counterAsset := opts.Market.BaseAsset
+	if opts.Asset == opts.Market.BaseAsset {
+		counterAsset = opts.Market.QuoteAsset
+	}
+	if preview.GetAsset() != counterAsset {
+		return nil, ErrInvalidPreview
+	}
+
 	assetToSend := preview.GetAsset()
 	amountToSend := preview.GetAmount()
 	assetToReceive := opts.Asset
diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index ffcb7a7..9b9ab46 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -113,7 +113,7 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 
 	for i, in := range ptx.Inputs {
 		script, witnessScript := w.Script()
-		if bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
+		if in.WitnessUtxo != nil && bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
 			hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
 				i,
 				script,
-- 
2.43.0


From f3d373b5b3841b47af1b5d46cc278d5d358c3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 35/40] fix: a trade completed, given up, timed out or
 confirmed at the same time keeps one outcome

Completing a trade, its failure by the counterparty, its timeout and its
confirmation changed copies of the trade read before the others were stored,
so that a completed trade could be marked failed and its coins be released,
or a settled one be turned back into a completed one.
---
 .../core/application/blockchain_listener.go   |  5 +-
 internal/core/application/trade_service.go    | 65 ++++++++++++++++---
 2 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 94ae6b8..e55ef1c 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -268,9 +268,10 @@ func (b *blockchainListener) startPendingObservables() {
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
-	if err := b.repoManager.TradeRepository().UpdateTrade(
+	if err := updateTrade(
 		context.Background(),
-		tradeID,
+		b.repoManager,
+		*tradeID,
 		func(t *domain.Trade) (*domain.Trade, error) {
 			mustAddTxHex := t.IsAccepted()
 			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 9b7689b..21b3e98 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -60,6 +60,9 @@ type tradeService struct {
 	// proposals are answered one at a time, so that the coins offered for filling
 	// one are not selected for another one before they get locked.
 	proposalMtx sync.Mutex
+	// accepted trades are completed, aborted or expired one at a time, so that a
+	// trade that's being broadcasted is not given up before it is stored.
+	tradeMtx sync.Mutex
 }
 
 func NewTradeService(
@@ -521,6 +524,14 @@ func (t *tradeService) tradeComplete(
 	ctx context.Context,
 	swapComplete domain.SwapComplete,
 ) (txID string, swapFail domain.SwapFail, err error) {
+	t.tradeMtx.Lock()
+	broadcasted := false
+	defer func() {
+		if !broadcasted {
+			t.tradeMtx.Unlock()
+		}
+	}()
+
 	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapComplete.GetAcceptId())
 	if err != nil {
 		return
@@ -552,6 +563,7 @@ func (t *tradeService) tradeComplete(
 		return
 	}
 
+	broadcasted = true
 	txID = res.TxID
 	log.Infof("trade with id %s broadcasted: %s", trade.ID, txID)
 
@@ -560,10 +572,19 @@ func (t *tradeService) tradeComplete(
 	// this method will take care to retry to handle potential
 	// datastore conflicts (if any) at repository level
 	go func() {
-		if err := t.repoManager.TradeRepository().UpdateTrade(
+		defer t.tradeMtx.Unlock()
+
+		if err := updateTrade(
 			ctx,
-			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
+			t.repoManager,
+			trade.ID,
+			func(previousTrade *domain.Trade) (*domain.Trade, error) {
+				// the tx could have been confirmed in the meantime.
+				if previousTrade.IsSettled() {
+					return previousTrade, nil
+				}
+				return trade, nil
+			},
 		); err != nil {
 			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
 		}
@@ -588,6 +609,9 @@ func (t *tradeService) tradeFail(
 	ctx context.Context,
 	swapFail domain.SwapFail,
 ) (domain.SwapFail, error) {
+	t.tradeMtx.Lock()
+	defer t.tradeMtx.Unlock()
+
 	swapID := swapFail.GetMessageId()
 	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapID)
 	if err != nil {
@@ -598,10 +622,10 @@ func (t *tradeService) tradeFail(
 		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
 	}
 
-	tradeID := trade.ID
-	if err := t.repoManager.TradeRepository().UpdateTrade(
+	if err := updateTrade(
 		ctx,
-		&tradeID,
+		t.repoManager,
+		trade.ID,
 		func(trade *domain.Trade) (*domain.Trade, error) {
 			// only a pending trade can be aborted by the counter-party, coins of any
 			// other one have been either spent or released already.
@@ -709,6 +733,9 @@ func (t *tradeService) checkTradeExpiration(
 	tradeTxID string,
 	selectedUnspentKeys []domain.UnspentKey,
 ) {
+	t.tradeMtx.Lock()
+	defer t.tradeMtx.Unlock()
+
 	ctx := context.Background()
 
 	// if the trade is expired it's required to unlock the unspents used as input
@@ -734,9 +761,10 @@ func (t *tradeService) checkTradeExpiration(
 		}
 		log.Debugf("unlocked %d unspents", count)
 
-		if err := t.repoManager.TradeRepository().UpdateTrade(
+		if err := updateTrade(
 			ctx,
-			&trade.ID,
+			t.repoManager,
+			trade.ID,
 			func(tt *domain.Trade) (*domain.Trade, error) {
 				if _, err := tt.Expire(); err != nil {
 					return nil, err
@@ -752,6 +780,27 @@ func (t *tradeService) checkTradeExpiration(
 	}
 }
 
+// updateTrade changes the trade with the given id within a transaction, so that
+// changes made in the meantime, like those of the blockchain listener, do not
+// get lost.
+func updateTrade(
+	ctx context.Context,
+	repoManager ports.RepoManager,
+	tradeID uuid.UUID,
+	updateFn func(trade *domain.Trade) (*domain.Trade, error),
+) error {
+	_, err := repoManager.RunTransaction(
+		ctx,
+		!readOnlyTx,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, repoManager.TradeRepository().UpdateTrade(
+				ctx, &tradeID, updateFn,
+			)
+		},
+	)
+	return err
+}
+
 func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{
 		SigningMnemonic: opts.Mnemonic,
-- 
2.43.0


From 509b809a1a4e8631647c8efc483fff0e8a71a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 36/40] fix: unspents stored as unconfirmed become available
 once their transaction is confirmed

---
 .../core/application/blockchain_listener.go   | 33 +++++++++++++++++--
 internal/core/application/operator_service.go |  1 +
 internal/core/application/trade_service.go    |  1 +
 internal/core/application/wallet_service.go   | 19 ++++++++++-
 4 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index e55ef1c..bcb9617 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -166,8 +166,20 @@ func (b *blockchainListener) listenToEventChannel() {
 			ctx := context.Background()
 
 			trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
-			if err != nil {
-				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
+			if err != nil || trade == nil {
+				// the transaction might be one of those paying the unconfirmed
+				// unspents of the wallet, like the changes of a withdrawal.
+				count, _err := b.confirmUnspents(e.TxID)
+				if _err != nil {
+					log.Warnf("trying to confirm unspents: %v", _err)
+					break
+				}
+				if count <= 0 {
+					log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
+					break
+				}
+				log.Debugf("confirmed %d unspents", count)
+				b.StopObserveTx(e.TxID)
 				break
 			}
 
@@ -291,6 +303,23 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 	return nil
 }
 
+// confirmUnspents confirms the stored unspents of the given transaction.
+func (b *blockchainListener) confirmUnspents(txID string) (int, error) {
+	ctx := context.Background()
+	unspentRepo := b.repoManager.UnspentRepository()
+
+	unspentKeys := make([]domain.UnspentKey, 0)
+	for _, u := range unspentRepo.GetAllUnspents(ctx) {
+		if u.TxID == txID && !u.IsConfirmed() {
+			unspentKeys = append(unspentKeys, u.Key())
+		}
+	}
+	if len(unspentKeys) <= 0 {
+		return 0, nil
+	}
+	return unspentRepo.ConfirmUnspents(ctx, unspentKeys)
+}
+
 func (b *blockchainListener) confirmOrAddUnspents(
 	txHex string,
 	txID string,
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 1b52d25..90a1d0f 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -871,6 +871,7 @@ func (o *operatorService) WithdrawMarketFunds(
 		go extractUnspentsFromTxAndUpdateUtxoSet(
 			o.repoManager.UnspentRepository(),
 			o.repoManager.VaultRepository(),
+			o.blockchainListener,
 			o.network,
 			txHex,
 			market.AccountIndex,
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 21b3e98..eed0bf1 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -596,6 +596,7 @@ func (t *tradeService) tradeComplete(
 		extractUnspentsFromTxAndUpdateUtxoSet(
 			t.repoManager.UnspentRepository(),
 			t.repoManager.VaultRepository(),
+			nil, // the tx of the trade is already being watched
 			t.network,
 			res.TxHex,
 			accountIndex,
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 5e840dc..81bc346 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -596,6 +596,7 @@ func (w *walletService) SendToMany(
 		go extractUnspentsFromTxAndUpdateUtxoSet(
 			w.repoManager.UnspentRepository(),
 			w.repoManager.VaultRepository(),
+			w.blockchainListener,
 			w.network,
 			txHex,
 			domain.FeeAccount,
@@ -1344,7 +1345,19 @@ func fetchAndAddUnspents(
 		return nil
 	}
 	go startObserveUnconfirmedUnspents(bcListener, unspents)
-	return addUnspents(unspentRepo, unspents)
+	if err := addUnspents(unspentRepo, unspents); err != nil {
+		return err
+	}
+
+	// those already stored might have been confirmed in the meantime.
+	confirmedKeys := make([]domain.UnspentKey, 0, len(unspents))
+	for _, u := range unspents {
+		if u.IsConfirmed() {
+			confirmedKeys = append(confirmedKeys, u.Key())
+		}
+	}
+	_, err = unspentRepo.ConfirmUnspents(context.Background(), confirmedKeys)
+	return err
 }
 
 func spendUnspents(
@@ -1427,6 +1440,7 @@ func extractUnspentsFromTx(
 func extractUnspentsFromTxAndUpdateUtxoSet(
 	unspentRepo domain.UnspentRepository,
 	vaultRepo domain.VaultRepository,
+	bcListener BlockchainListener,
 	net *network.Network,
 	txHex string,
 	accountIndex int,
@@ -1447,4 +1461,7 @@ func extractUnspentsFromTxAndUpdateUtxoSet(
 	}
 	addUnspentsAsync(unspentRepo, unspentsToAdd)
 	spendUnspentsAsync(unspentRepo, unspentsToSpend)
+	if bcListener != nil {
+		startObserveUnconfirmedUnspents(bcListener, unspentsToAdd)
+	}
 }
-- 
2.43.0


From 3ccc838da5fc934db9149e66f4a34ddda3d4d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 37/40] fix: trades pending when the daemon stops are carried
 on when it starts again

---
 .../core/application/blockchain_listener.go   |  10 +-
 internal/core/application/trade_service.go    | 102 ++++++++++++++----
 2 files changed, 89 insertions(+), 23 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index bcb9617..85323b1 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -183,14 +183,16 @@ func (b *blockchainListener) listenToEventChannel() {
 				break
 			}
 
-			if err := b.settleTrade(&trade.ID, e); err != nil {
-				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
-				break
-			}
+			// the utxo set is updated first because settled trades are not resumed in
+			// case of shutdown.
 			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
 				log.Warnf("trying to confirm or add unspents: %v", err)
 				break
 			}
+			if err := b.settleTrade(&trade.ID, e); err != nil {
+				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
+				break
+			}
 
 			// Publish message for topic TradeSettled to pubsub service.
 			if b.pubsubSvc != nil {
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index eed0bf1..bc4d5ca 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -94,7 +94,7 @@ func newTradeService(
 	priceSlippage decimal.Decimal,
 	net *network.Network,
 ) *tradeService {
-	return &tradeService{
+	t := &tradeService{
 		repoManager:        repoManager,
 		explorerSvc:        explorerSvc,
 		blockchainListener: bcListener,
@@ -103,6 +103,8 @@ func newTradeService(
 		priceSlippage:      priceSlippage,
 		network:            net,
 	}
+	t.resumeTrades()
+	return t
 }
 
 func (t *tradeService) GetTradableMarkets(ctx context.Context) (
@@ -567,28 +569,29 @@ func (t *tradeService) tradeComplete(
 	txID = res.TxID
 	log.Infof("trade with id %s broadcasted: %s", trade.ID, txID)
 
-	// we make sure that any problem happening at this point
-	// is not influencing the trade therefore we run as goroutine
-	// this method will take care to retry to handle potential
+	// the completed trade is stored before replying, so that it is not taken as
+	// still pending, and then expired, if the daemon gets restarted.
+	// Any problem happening at this point must not influence the trade.
+	// This method will take care to retry to handle potential
 	// datastore conflicts (if any) at repository level
+	if err := updateTrade(
+		ctx,
+		t.repoManager,
+		trade.ID,
+		func(previousTrade *domain.Trade) (*domain.Trade, error) {
+			// the tx could have been confirmed in the meantime.
+			if previousTrade.IsSettled() {
+				return previousTrade, nil
+			}
+			return trade, nil
+		},
+	); err != nil {
+		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
+	}
+
 	go func() {
 		defer t.tradeMtx.Unlock()
 
-		if err := updateTrade(
-			ctx,
-			t.repoManager,
-			trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) {
-				// the tx could have been confirmed in the meantime.
-				if previousTrade.IsSettled() {
-					return previousTrade, nil
-				}
-				return trade, nil
-			},
-		); err != nil {
-			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
-		}
-
 		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
 			ctx,
 			trade.MarketQuoteAsset,
@@ -730,6 +733,67 @@ func (t *tradeService) unlockUnspents(
 	return count.(int), nil
 }
 
+// resumeTrades takes charge of the trades pending since the last shutdown: the
+// transactions of those accepted or completed are watched again, those still to
+// be completed expire in due time, and the unspents reserved for any trade
+// that's not pending anymore, or that was never stored, are released.
+func (t *tradeService) resumeTrades() {
+	ctx := context.Background()
+
+	trades, err := t.repoManager.TradeRepository().GetAllTrades(ctx)
+	if err != nil {
+		log.WithError(err).Warn("unable to resume pending trades")
+		return
+	}
+
+	unspentKeysByTrade := make(map[uuid.UUID][]domain.UnspentKey)
+	for _, u := range t.repoManager.UnspentRepository().GetAllUnspents(ctx) {
+		if u.IsLocked() && !u.IsSpent() {
+			unspentKeysByTrade[*u.LockedBy] = append(
+				unspentKeysByTrade[*u.LockedBy], u.Key(),
+			)
+		}
+	}
+
+	for _, trade := range trades {
+		isPending := trade.IsAccepted() && !trade.IsRejected()
+		if !isPending && !trade.IsCompleted() && !trade.IsSettled() {
+			continue
+		}
+
+		unspentKeys := unspentKeysByTrade[trade.ID]
+		delete(unspentKeysByTrade, trade.ID)
+		if trade.IsSettled() {
+			continue
+		}
+
+		t.blockchainListener.StartObserveTx(trade.TxID)
+
+		if isPending {
+			txID := trade.TxID
+			expiryDate := time.Unix(int64(trade.ExpiryTime), 0)
+			go func() {
+				// admit a tollerance of 1 minute past the expiration time, that's also
+				// the time given to those already expired to result as confirmed.
+				time.Sleep(time.Until(expiryDate))
+				time.Sleep(time.Minute)
+				t.checkTradeExpiration(txID, unspentKeys)
+			}()
+		}
+	}
+
+	for tradeID, unspentKeys := range unspentKeysByTrade {
+		count, err := t.unlockUnspents(ctx, unspentKeys, tradeID)
+		if err != nil {
+			log.WithError(err).Warnf(
+				"unable to unlock unspents for trade with id %s", tradeID,
+			)
+			continue
+		}
+		log.Debugf("unlocked %d unspents", count)
+	}
+}
+
 func (t *tradeService) checkTradeExpiration(
 	tradeTxID string,
 	selectedUnspentKeys []domain.UnspentKey,
-- 
2.43.0


From 087d787bdeecec4b2d2deb65a5747686e03cdf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 38/40] fix: keep the credentials and webhooks stores on the
 wallet password

The password of a locked daemon could not be changed in the stores of the
macaroons and of the webhooks, which stayed on the former one, and the webhook
store could be initialized after it was unlocked, and so was left locked.
---
 internal/core/application/wallet_service.go   | 82 +++++++++----------
 .../infrastructure/pubsub/webhook/store.go    |  8 ++
 internal/interfaces/grpc/service.go           | 35 ++++----
 3 files changed, 69 insertions(+), 56 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 81bc346..5c2c110 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -273,17 +273,17 @@ func (w *walletService) InitWallet(
 		go startObserveUnconfirmedUnspents(w.blockchainListener, unspents)
 	}
 
+	// the commands of the pubsub store are executed in the same order of those
+	// of the wallet, otherwise it may be left locked or with another password
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().Init(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while initializing pubsub service. " +
-						"Pubsub not available for the current session.",
-				)
-			}
-		}()
+		if err := w.blockchainListener.PubSubService().Store().Init(
+			passphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -331,29 +331,7 @@ func (w *walletService) UnlockWallet(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			// For backward compatibility, check if the pubsub store has been
-			// initialized by wallet.Init, otherwise it is initialized before being
-			// unlocked here.
-			if w.blockchainListener.PubSubService().Store().IsLocked() {
-				if err := w.blockchainListener.PubSubService().Store().Init(
-					passphrase,
-				); err != nil {
-					log.WithError(err).Warn(
-						"an error occured while initializing pubsub service. " +
-							"Pubsub not available for the current session.",
-					)
-					return
-				}
-			}
-			if err := w.blockchainListener.PubSubService().Store().Unlock(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while unlocking pubsub internal store",
-				)
-			}
-		}()
+		w.unlockPubSubStore(passphrase)
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -393,15 +371,13 @@ func (w *walletService) ChangePassword(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().ChangePassword(
-				currentPassphrase, newPassphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while updating pubsub service password",
-				)
-			}
-		}()
+		if err := w.blockchainListener.PubSubService().Store().ChangePassword(
+			currentPassphrase, newPassphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while updating pubsub service password",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -417,6 +393,28 @@ func (w *walletService) PassphraseChan() chan PassphraseMsg {
 	return w.pwChan
 }
 
+func (w *walletService) unlockPubSubStore(passphrase string) {
+	store := w.blockchainListener.PubSubService().Store()
+
+	// For backward compatibility, check if the pubsub store has been
+	// initialized by wallet.Init, otherwise it is initialized before being
+	// unlocked here.
+	if store.IsLocked() {
+		if err := store.Init(passphrase); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+			return
+		}
+	}
+	if err := store.Unlock(passphrase); err != nil {
+		log.WithError(err).Warn(
+			"an error occured while unlocking pubsub internal store",
+		)
+	}
+}
+
 func (w *walletService) GenerateAddressAndBlindingKey(
 	ctx context.Context,
 ) (address string, blindingKey string, err error) {
diff --git a/internal/infrastructure/pubsub/webhook/store.go b/internal/infrastructure/pubsub/webhook/store.go
index 7d00245..0a85ac1 100644
--- a/internal/infrastructure/pubsub/webhook/store.go
+++ b/internal/infrastructure/pubsub/webhook/store.go
@@ -47,6 +47,14 @@ func (ws webhookStore) Unlock(password string) error {
 }
 
 func (ws webhookStore) ChangePassword(oldPwd, newPwd string) error {
+	// The store must be unlocked for its password to be changed, while that of
+	// the wallet can be changed only if this is locked, and so is the store.
+	if ws.IsLocked() {
+		if err := ws.Unlock(oldPwd); err != nil {
+			return err
+		}
+		defer ws.Lock()
+	}
 	return ws.store.ChangePassword([]byte(oldPwd), []byte(newPwd))
 }
 
diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index ee0342e..e59f1bc 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -283,22 +283,12 @@ func (s *service) startListeningToPassphraseChan() {
 		if s.withMacaroons() {
 			switch msg.Method {
 			case application.UnlockWallet:
-				pwd := []byte(msg.CurrentPwd)
-				if err := s.macaroonSvc.CreateUnlock(&pwd); err != nil {
-					if err != macaroons.ErrAlreadyUnlocked {
-						log.WithError(err).Warn(
-							"an error occured while unlocking macaroon service",
-						)
-					}
-				}
-				ctx := context.Background()
-				if err := genMacaroons(
-					ctx, s.macaroonSvc, s.opts.macaroonsDatadir(),
-				); err != nil {
-					log.WithError(err).Warn("an error occured while creating macaroons")
-				}
+				s.unlockMacaroonSvc(msg.CurrentPwd)
 				break
 			case application.ChangePassphrase:
+				// the macaroon service is still locked, if the daemon has been
+				// restarted, but it must be unlocked to change its password
+				s.unlockMacaroonSvc(msg.CurrentPwd)
 				currentPwd := []byte(msg.CurrentPwd)
 				newPwd := []byte(msg.NewPwd)
 				if err := s.macaroonSvc.ChangePassword(currentPwd, newPwd); err != nil {
@@ -325,6 +315,23 @@ func (s *service) startListeningToPassphraseChan() {
 	}
 }
 
+func (s *service) unlockMacaroonSvc(password string) {
+	pwd := []byte(password)
+	if err := s.macaroonSvc.CreateUnlock(&pwd); err != nil {
+		if err != macaroons.ErrAlreadyUnlocked {
+			log.WithError(err).Warn(
+				"an error occured while unlocking macaroon service",
+			)
+		}
+	}
+	ctx := context.Background()
+	if err := genMacaroons(
+		ctx, s.macaroonSvc, s.opts.macaroonsDatadir(),
+	); err != nil {
+		log.WithError(err).Warn("an error occured while creating macaroons")
+	}
+}
+
 func generateOperatorTLSKeyCert(
 	datadir string, extraIPs, extraDomains []string,
 ) error {
-- 
2.43.0


From ca1145ed24d89e334b2c9692d6869c0a7d9fb1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 39/40] fix: fail instead of crashing on wrong coins told by
 the explorer

A transaction that cannot be parsed, or has not the listed output, crashed the
daemon.
---
 pkg/explorer/esplora/unspents.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index f8a5082..192b7fe 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -161,7 +161,17 @@ func (e *esplora) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	trx, _ := transaction.NewTxFromHex(prevoutTxHex)
+	trx, err := transaction.NewTxFromHex(prevoutTxHex)
+	if err != nil {
+		chRes <- utxoResult{err: fmt.Errorf("invalid tx hex: %s", err)}
+		return
+	}
+	if int(utxo.Index()) >= len(trx.Outputs) {
+		chRes <- utxoResult{
+			err: fmt.Errorf("output %s:%d does not exist", utxo.Hash(), utxo.Index()),
+		}
+		return
+	}
 	prevout := trx.Outputs[utxo.Index()]
 
 	if utxo.IsConfidential() {
-- 
2.43.0


From bca775b6d70d27502f2252e413ca02dc1a2855f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 40/40] fix: parse the transactions told by the explorer

All the transactions listed for an address were returned without any data.
---
 pkg/explorer/esplora/transaction.go |  53 ++---------
 pkg/explorer/esplora/types.go       | 143 ++++++++++++++++++++--------
 2 files changed, 111 insertions(+), 85 deletions(-)

diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 22fc37c..4d82184 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
-	"sync"
 
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 )
@@ -173,56 +172,20 @@ func (e *esplora) getTransactionStatus(hash string) (map[string]interface{}, err
 	return trxStatus, nil
 }
 
-type txResult struct {
-	tx  explorer.Transaction
-	err error
-}
-
 func parseTransactions(txList string) ([]explorer.Transaction, error) {
-	txInterfaces := make([]interface{}, 0)
-	if err := json.Unmarshal([]byte(txList), &txInterfaces); err != nil {
+	rawTxs := make([]json.RawMessage, 0)
+	if err := json.Unmarshal([]byte(txList), &rawTxs); err != nil {
 		return nil, err
 	}
 
-	txs := make([]explorer.Transaction, 0, len(txInterfaces))
-	chRes := make(chan txResult)
-	wg := &sync.WaitGroup{}
-	wg.Add(len(txInterfaces))
-
-	go func() {
-		wg.Wait()
-		close(chRes)
-	}()
-
-	for i := range txInterfaces {
-		txi := txInterfaces[i]
-
-		go parseTransaction(txi, chRes, wg)
-	}
-
-	for r := range chRes {
-		if r.err != nil {
-			return nil, r.err
+	txs := make([]explorer.Transaction, 0, len(rawTxs))
+	for _, rawTx := range rawTxs {
+		tx, err := NewTxFromJSON(string(rawTx))
+		if err != nil {
+			return nil, err
 		}
-		txs = append(txs, r.tx)
+		txs = append(txs, tx)
 	}
 
 	return txs, nil
 }
-
-func parseTransaction(txi interface{}, chRes chan txResult, wg *sync.WaitGroup) {
-	defer wg.Done()
-
-	trx, err := json.Marshal(txi)
-	if err != nil {
-		chRes <- txResult{err: err}
-		return
-	}
-	tx, err := NewTxFromJSON(string(trx))
-	if err != nil {
-		chRes <- txResult{err: err}
-		return
-	}
-
-	chRes <- txResult{tx: tx}
-}
diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 5dd87ff..c69d354 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
-	"github.com/vulpemventures/go-elements/elementsutil"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -84,63 +83,127 @@ func (t *tx) Confirmed() bool {
 	return t.TxConfirmed
 }
 
-func parseInput(i interface{}) *transaction.TxInput {
-	m := i.(map[string]interface{})
+type txJSON struct {
+	TxID     string         `json:"txid"`
+	Version  int            `json:"version"`
+	Locktime int            `json:"locktime"`
+	Size     int            `json:"size"`
+	Weight   int            `json:"weight"`
+	Vin      []txInputJSON  `json:"vin"`
+	Vout     []txOutputJSON `json:"vout"`
+	Status   status         `json:"status"`
+}
+
+type txInputJSON struct {
+	TxID      string   `json:"txid"`
+	Vout      uint32   `json:"vout"`
+	ScriptSig string   `json:"scriptsig"`
+	Witness   []string `json:"witness"`
+	IsPegin   bool     `json:"is_pegin"`
+	Sequence  uint32   `json:"sequence"`
+}
+
+type txOutputJSON struct {
+	ScriptPubKey    string  `json:"scriptpubkey"`
+	Asset           string  `json:"asset"`
+	Value           *uint64 `json:"value"`
+	AssetCommitment string  `json:"assetcommitment"`
+	ValueCommitment string  `json:"valuecommitment"`
+}
 
-	txid := interfaceToBytes(m["txid"])
-	vout := uint32(m["vout"].(float64))
-	in := transaction.NewTxInput(elementsutil.ReverseBytes(txid), vout)
+// UnmarshalJSON parses the transaction from the format used by the explorer.
+func (t *tx) UnmarshalJSON(data []byte) error {
+	parsed := txJSON{}
+	if err := json.Unmarshal(data, &parsed); err != nil {
+		return err
+	}
+
+	inputs := make([]*transaction.TxInput, 0, len(parsed.Vin))
+	for _, in := range parsed.Vin {
+		input, err := parseInput(in)
+		if err != nil {
+			return err
+		}
+		inputs = append(inputs, input)
+	}
 
-	in.Script = interfaceToBytes(m["scriptsig"])
+	outputs := make([]*transaction.TxOutput, 0, len(parsed.Vout))
+	for _, out := range parsed.Vout {
+		output, err := parseOutput(out)
+		if err != nil {
+			return err
+		}
+		outputs = append(outputs, output)
+	}
 
-	if m["witness"] != nil {
-		in.Witness = parseWitness(m["witness"])
+	*t = tx{
+		TxHash:      parsed.TxID,
+		TxVersion:   parsed.Version,
+		TxLocktime:  parsed.Locktime,
+		TxInputs:    inputs,
+		TxOutputs:   outputs,
+		TxSize:      parsed.Size,
+		TxWeight:    parsed.Weight,
+		TxConfirmed: parsed.Status.Confirmed,
 	}
+	return nil
+}
 
-	in.Sequence = uint32(m["sequence"].(float64))
-	in.IsPegin = m["is_pegin"].(bool)
+func parseInput(i txInputJSON) (*transaction.TxInput, error) {
+	txid, err := bufferutil.TxIDToBytes(i.TxID)
+	if err != nil {
+		return nil, err
+	}
+	in := transaction.NewTxInput(txid, i.Vout)
+
+	if in.Script, err = hex.DecodeString(i.ScriptSig); err != nil {
+		return nil, err
+	}
+	for _, item := range i.Witness {
+		buf, err := hex.DecodeString(item)
+		if err != nil {
+			return nil, err
+		}
+		in.Witness = append(in.Witness, buf)
+	}
+
+	in.Sequence = i.Sequence
+	in.IsPegin = i.IsPegin
 
 	// TODO: parse issuance
-	return in
+	return in, nil
 }
 
-func parseOutput(i interface{}) *transaction.TxOutput {
-	m := i.(map[string]interface{})
+func parseOutput(o txOutputJSON) (*transaction.TxOutput, error) {
+	var asset, value []byte
+	var err error
 
-	asset := make([]byte, 33)
-	if m["asset"] != nil {
-		asset, _ = bufferutil.AssetHashToBytes(m["asset"].(string))
+	if len(o.Asset) > 0 {
+		asset, err = bufferutil.AssetHashToBytes(o.Asset)
 	} else {
-		asset = interfaceToBytes(m["assetcommitment"])
+		asset, err = bufferutil.CommitmentToBytes(o.AssetCommitment)
+	}
+	if err != nil {
+		return nil, err
 	}
 
-	value := make([]byte, 0)
-	if m["value"] != nil {
-		value, _ = bufferutil.ValueToBytes(uint64(m["value"].(float64)))
+	if o.Value != nil {
+		value, err = bufferutil.ValueToBytes(*o.Value)
 	} else {
-		value = interfaceToBytes(m["valuecommitment"])
+		value, err = bufferutil.CommitmentToBytes(o.ValueCommitment)
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	script, err := hex.DecodeString(o.ScriptPubKey)
+	if err != nil {
+		return nil, err
 	}
-	script := interfaceToBytes(m["scriptpubkey"])
 
 	// TODO: parse nonce and proof; these values must be retrieved by parsing the
 	// hex of the transaction like done in getUtxoDetails
-	return transaction.NewTxOutput(asset, value, script)
-}
-
-func interfaceToBytes(i interface{}) []byte {
-	s := i.(string)
-	buf, _ := hex.DecodeString(s)
-	return buf
-}
-
-func parseWitness(i interface{}) transaction.TxWitness {
-	witnesses := i.([]interface{})
-	buf := make(transaction.TxWitness, 0, len(witnesses))
-	for _, wit := range witnesses {
-		b := interfaceToBytes(wit)
-		buf = append(buf, b)
-	}
-	return buf
+	return transaction.NewTxOutput(asset, value, script), nil
 }
 
 /**** UTXO *****/
-- 
2.43.0

