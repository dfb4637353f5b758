#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

D='internal/core/domain/'; A='internal/core/application/'; MEM='internal/infrastructure/storage/db/inmemory/'; BAD='internal/infrastructure/storage/db/badger/'

p('C01','A trade only ever moves forward through its life cycle',
 "Whatever sequence of propose, accept, complete, settle, fail and expire requests a trade receives, its stage never moves backwards and a stage is only reached from the one that must precede it; a trade that failed or expired can never be accepted or completed any more, and only its confirmation on chain (settling) clears the failure mark. A request that does not change the stage leaves all recorded messages, timestamps and ids as they were.",
 ['histories','inputs'],"All request sequences from every reachable trade state, all message contents accepted or rejected by the message parser, all clock values.",
 "Unit tests drive one happy path and a handful of hand-built statuses; they never take the cross product of state, request and parser answer.",
 [D+'trade_service.go',D+'trade_model.go'],[('trade state transitions',D+'trade_service.go'),('status predicates',D+'trade_model.go')])
p('C02','An expired acceptance can never be completed, and never expires early',
 "After acceptance the deadline is the acceptance time plus the granted duration. Completing the swap before the deadline is allowed and from the deadline on it is refused; a trade without a deadline, or whose deadline has not been reached, cannot be marked expired, and one that settled cannot be marked expired at all.",
 ['inputs','schedules'],"All acceptance times, durations and later clock readings (non-decreasing clock).",
 "Tests sleep or set one past timestamp; the boundary and every clock ordering are not explored.",
 [D+'trade_service.go',D+'trade_model.go'],[('expiry checks',D+'trade_service.go')])
p('C03','Market settings obey their limits and can only change while it is safe',
 "A market's percentage fee always stays within 0-9999 basis points and its fixed fees are never negative and either both or neither set; fees and strategy can change only while the market is closed. A market can be opened only when both assets are known and, if priced by the operator, once prices have been set for its current strategy; every refused change leaves the market untouched.",
 ['histories','inputs'],"All sequences of configuration requests up to the stated length and all numeric arguments, including negative and overflowing ones.",
 "Tests check one value on each side of each limit on fixed fixtures, not sequences of changes and not the interplay of fee, price, strategy and open/closed state.",
 [D+'market_service.go',D+'market_model.go'],[('market setters and guards',D+'market_service.go')])
p('C04','Percentage fees are computed exactly and never wrap or overcharge',
 "Adding a percentage fee to an amount yields exactly amount + floor-rounded fee, deducting it yields exactly the floor of the remaining percentage; the reported fee is the floor-rounded percentage of the amount, so it equals the difference between the two amounts when adding and is within one unit below it when deducting. The charged amount is never below and the discounted amount never above the original, and both grow with the amount and with the fee rate.",
 ['inputs'],"All 64-bit amounts up to the total supply of a Liquid asset and all basis points 0-9999.",
 "Tests evaluate a few amounts with one fee; truncation errors appear only at particular residues.",
 ['pkg/mathutil/fee.go','pkg/mathutil/math.go'],[('fee arithmetic','pkg/mathutil/fee.go'),('fixed-point operators','pkg/mathutil/math.go')])
p('C05','Quotes at an operator-set price charge price, percentage and fixed fee exactly',
 "For a market priced by its operator, the amount quoted for any requested amount is the price-converted amount with the percentage fee applied in the provider's favour and the fixed fee of the quoted asset added to what the trader pays or removed from what he receives. A quote is refused instead of returned when the trader's payout would not be positive or would exceed the market's balance, and a returned quote names the other asset of the pair.",
 ['inputs','configurations'],"All amounts, balances, fee settings within limits, both trade directions and both asset sides; all prices within the stated range.",
 "Tests evaluate about a dozen fixed amount/price/fee triples.",
 [D+'market_service.go',D+'pluggable_strategy.go',A+'trade_service.go'],[('quote computation',D+'market_service.go'),('operator price conversion',D+'pluggable_strategy.go')])
p('C06','Balanced-reserve quotes never drain the pool and follow the constant product',
 "For a market priced by its reserves, a quote never gives out the whole reserve, and the amount agrees with the constant-product price up to the decimal precision of the computation, never exceeding it by more than that, with the fee applied to what the trader pays and the fixed fee in the provider's favour; asking for at least the whole reserve or for a zero amount is refused. Paying more never yields less, and the fee never turns into a discount.",
 ['inputs'],"All reserves and amounts within the stated ranges, both directions, fee rates 0-9999.",
 "Tests evaluate a few dozen fixed reserve/amount pairs.",
 ['pkg/marketmaking/formula/balanced_reserves.go'],[('constant product formula','pkg/marketmaking/formula/balanced_reserves.go')])
p('C07','A proposal is accepted only if its price is within the allowed slippage',
 "A swap proposal in a market whose quoted price it undercuts (to the provider's disadvantage) by more than the configured slippage is never accepted, in either trade direction and for either side's asset; a proposal exactly at the quote is always acceptable. The comparison uses the market's current balance and fees.",
 ['inputs','configurations'],"All proposal amounts, balances, fee settings, slippage settings from a grid, both trade directions.",
 "Tests propose at the quoted price only.",
 [A+'trade_service.go'],[('price tolerance check',A+'trade_service.go')])
p('C08','A coin is never reserved for two trades and a spent coin never comes back',
 "A coin locked for one trade cannot be locked for another until it is released; releasing makes it available again, spending is final, and confirming never changes whether it is spent or locked. Requests naming unknown coins change nothing, and the reported number of changed coins equals the number that actually changed.",
 ['histories','inputs'],"All sequences of add/lock/unlock/spend/confirm over up to the stated number of coins and two trades, for the in-memory and the disk-backed store.",
 "Tests run one scripted sequence per operation on fixed fixtures.",
 [D+'unspent_service.go',MEM+'unspent_memory_repository_impl.go',BAD+'unspent_repository_impl.go'],[('coin lock/spend state',D+'unspent_service.go'),('stores',BAD+'unspent_repository_impl.go')])
p('C09','Reported balances are exactly the sums of the coins they describe',
 "For any set of stored coins, the total, confirmed and unlocked balance of an asset over a set of addresses equals the sum of the values of exactly the matching coins (unspent; unspent and confirmed; unspent, confirmed and unlocked respectively), and the lists of available or all coins contain exactly the matching coins, each once. Both storage back ends give the same answers.",
 ['inputs','configurations'],"All coin sets up to the stated size with arbitrary flags, assets, owners and values.",
 "Tests use one fixed coin set.",
 [MEM+'unspent_memory_repository_impl.go',BAD+'unspent_repository_impl.go'],[('balance queries',BAD+'unspent_repository_impl.go')])
p('C10','The market book stores and finds markets faithfully in both back ends',
 "A market is found by its account and by its quote asset exactly as last stored, creating an existing one returns the stored one, and the tradable list holds exactly the open markets. Opening, closing, repricing or deleting affects exactly the named market; for an unknown one nothing changes, no other market is affected and the service does not crash.",
 ['histories','inputs'],"All operation sequences up to the stated length over up to three markets with arbitrary settings.",
 "Tests script one sequence; the two back ends are never compared.",
 [MEM+'market_memory_repository_impl.go',BAD+'market_repository_impl.go'],[('market stores',BAD+'market_repository_impl.go')])
p('C11','The trade book stores and finds trades faithfully in both back ends',
 "Every stored trade can be found by its id, by the id of its accept message and by its transaction id exactly as last updated; the list of all trades contains each stored trade once, and per-market and completed lists contain exactly the matching ones. Looking up an unknown key reports absence and changes nothing.",
 ['histories','inputs'],"All contents of up to the stated number of trades and all updates.",
 "Tests read back one trade.",
 [MEM+'trade_memory_repository_impl.go',BAD+'trade_repository_impl.go'],[('trade stores',BAD+'trade_repository_impl.go')])
p('C12','The wallet seed is only revealed by the right password',
 "The seed is readable only while the vault is unlocked; unlocking a locked vault succeeds only with the current password, locking always hides the seed again, and changing the password requires the vault to be locked and the old password to be right, after which only the new one unlocks and yields the same seed. A refused request changes nothing, and a text that was never encrypted is refused rather than decrypted.",
 ['histories','inputs'],"All sequences of lock, unlock and change-password requests up to the stated length with arbitrary passwords.",
 "Tests run one scripted sequence.",
 [D+'vault_service.go',D+'vault_model.go','pkg/wallet/cypher.go'],[('vault lock state',D+'vault_service.go')])
p('C13','Every handed-out address is fresh, remembered and owned by one account',
 "Below the end of a chain (2^31 positions) each derivation request on an account returns an address at the next unused position of the requested chain, so no address is handed out twice and accounts never share one. Every address handed out is found again with its account, its derivation path and its blinding key, and listing an account returns exactly the addresses derived so far in order. This holds for requests for deposit and wallet addresses and for trades served at the same time, and for a daemon that stops as soon as it has answered.",
 ['histories'],"All sequences of derivation requests (account, chain) up to the stated length, including from any position below the end of a chain (2^31 positions).",
 "Tests derive a couple of addresses.",
 [D+'vault_service.go',D+'vault_model.go'],[('address derivation bookkeeping',D+'vault_service.go')])
p('C14','Coin selection covers the target with the right, distinct coins',
 "Whenever the available coins of the requested asset sum to at least the target, selection succeeds; the chosen coins are distinct members of the offered set, all of that asset, their sum covers the target and the returned change is exactly the excess. If they are insufficient the request is refused, and the order in which coins are offered never turns success into failure.",
 ['inputs'],"All coin lists up to the stated length with arbitrary values and asset labels, all positive targets within the supply.",
 "Tests use a few fixed coin lists.",
 ['pkg/explorer/coinselection.go'],[('coin selection','pkg/explorer/coinselection.go')])
p('C15','Building a transaction conserves every asset and pays the stated fee',
 "When the wallet completes a transaction, for every asset the value of the coins added as inputs equals the value of the outputs added, plus the network fee for the fee asset; no coin is added twice and every change output belongs to the wallet and has its blinding key returned. The operation is refused, rather than producing a negative or wrapped-around output, when the coins do not suffice.",
 ['inputs'],"All coin lists up to the stated length with arbitrary values over two assets, all output amounts, all fee rates within limits.",
 "Tests build a few transactions with fixed values and check only that no error is returned.",
 ['pkg/wallet/transaction.go','pkg/wallet/util.go'],[('coin selection and change','pkg/wallet/transaction.go'),('fee amount','pkg/wallet/util.go')])
p('C16','The network fee estimate never undershoots the transaction it is for',
 "The estimated size of a transaction is no less than the virtual size of any transaction with those input and output kinds, signatures and proofs of the greatest length included, and exactly that for the native segwit coins of a wallet; it grows with everything added by at least what that weighs, and counts length prefixes exactly. The network fee is the size times the rate in whole units: it never falls short of the rate by a whole unit, is never nothing, and for wallet coins is never above the rate. No script of an input or output, even an empty one, makes the estimation fail.",
 ['inputs'],"All multisets of input/output kinds up to the stated counts and all fee rates.",
 "Tests compare a handful of fixed shapes.",
 ['pkg/wallet/estimation.go','pkg/wallet/util.go'],[('size estimate','pkg/wallet/estimation.go'),('var-int length and fee','pkg/wallet/util.go')])
p('C17','Derivation paths survive printing and parsing, and malformed ones are refused',
 "Printing any derivation path and parsing it back yields the same path, with hardened steps preserved at every position and value. A string that is not a sequence of in-range steps is refused and never silently truncated, wrapped or reinterpreted.",
 ['inputs'],"All step values (32-bit) for paths up to the stated length; all short strings over the path alphabet.",
 "Tests list about twenty strings.",
 ['pkg/wallet/derivation_path.go'],[('path parser and printer','pkg/wallet/derivation_path.go')])
p('C18','Asset ids, amounts and transaction ids survive encoding and decoding',
 "Encoding any asset id, amount, transaction id or commitment to its wire form and decoding it back yields the same value, and decoding then encoding yields the same bytes; different values never share an encoding. Text that is not valid hexadecimal is refused.",
 ['inputs'],"All byte contents at the real widths (32-byte ids, 9-byte values, 33-byte commitments).",
 "Tests use one fixed vector each.",
 ['pkg/bufferutil/bufferutil.go'],[('codecs','pkg/bufferutil/bufferutil.go')])
p('C19','Swap messages are accepted only if the transaction really pays what they say',
 "A transaction is declared to match a swap request only if the inputs that can be read with the given keys supply at least the offered amount of the offered asset and one output pays exactly the requested amount of the requested asset; it matches an accept only if that accept refers to the request and its transaction supplies the requested and pays the offered amount. A message produced by the library carries exactly the amounts, assets, transaction and the input and output blinding keys it was given, every id reference points at the message it answers, a completion is produced only for a fully and validly signed transaction, and no transaction that can be decoded crashes the check.",
 ['inputs'],"All amounts, assets, ids and blinding-key maps; transactions up to the stated number of inputs and outputs.",
 "Tests replay captured messages.",
 ['pkg/swap/request.go','pkg/swap/accept.go','pkg/swap/complete.go','pkg/swap/fail.go','pkg/swap/swap.go'],[('message construction and checks','pkg/swap/swap.go')])
p('C20','Answering a proposal either reserves coins for one accepted trade or nothing',
 "For every proposal exactly one of acceptance, rejection message or error is returned. On acceptance the trade is stored as accepted with its deadline and every provider coin used is locked for it and for no other trade; on rejection the stored trade is marked failed; a rejection or error leaves every coin as it was, also when two proposals are answered concurrently.",
 ['inputs','schedules','fault_sequences'],"All proposal amounts and prices, all outcomes of wallet, transaction building, signing and storage steps, all interleavings of two proposals at storage-operation granularity.",
 "Tests run single proposals against mocks that always succeed.",
 [A+'trade_service.go'],[('proposal handling',A+'trade_service.go')])
p('C21','Completing, failing or timing out a trade settles the fate of its coins once',
 "A completion is acknowledged with a transaction id only if the swap was valid, in time and broadcast, and the trade is then stored as completed; a counterparty failure or an elapsed deadline marks the trade failed or expired and unlocks exactly the coins reserved for it. An unknown trade reference yields an error, and no request crashes the service or releases coins of a completed or settled trade. A completion, a failure, a timeout and a confirmation of the same trade at the same time leave it in one of the states they would have left it in one after the other.",
 ['inputs','schedules','fault_sequences'],"All trade states, message contents, broadcast outcomes and clock values; all orders of completion, failure and timeout.",
 "Tests cover the happy path with mocks.",
 [A+'trade_service.go'],[('completion, failure and expiry handling',A+'trade_service.go')])
p('C22','A trade settles only when its transaction is confirmed on chain',
 "When the chain reports a trade's transaction as confirmed, that trade and no other becomes settled with the reported block time, the provider coins it consumed are spent, and its outputs paying the provider become available coins; reports for unknown or unconfirmed transactions change no trade. Repeated reports change nothing further.",
 ['histories','inputs'],"All trade states and report sequences up to the stated length.",
 "No unit test exercises the listener.",
 [A+'blockchain_listener.go',A+'trade_service.go'],[('settlement on confirmation',A+'blockchain_listener.go')])
p('C23','A deposit claim credits exactly the confirmed coins that belong to the account',
 "Claiming transaction outputs succeeds only if every named output exists, its transaction is confirmed and it pays an address of the account being funded; then exactly those outputs become available coins with their true asset and amount, and the deposit opening a new market must consist of exactly the base asset and the quote asset the claim names. Any other claim is refused without crediting anything and without crashing.",
 ['inputs','configurations'],"All outpoint lists up to the stated length (including negative and too large indexes), all confirmation states, owners and assets.",
 "Tests claim one valid and one invalid outpoint.",
 [A+'operator_service.go'],[('deposit claim',A+'operator_service.go')])
p('C24','Withdrawals never exceed the balance and only spend coins when broadcast',
 "A withdrawal from a market is refused if the base or quote amount exceeds what the market holds or is not covered; a successful one spends only coins of that market and of the fee account, marks them spent only when the transaction was broadcast, and reports the withdrawn amounts. The receiver gets exactly the amounts asked, the wallet can read its change and the fee account pays the network fee. Payments sent from the wallet account behave alike. A refused, failed or not broadcast one leaves all coins as they were.",
 ['inputs','fault_sequences'],"All balances and requested amounts, both broadcast settings, all failures of the wallet and explorer steps.",
 "Tests withdraw one fixed amount.",
 [A+'operator_service.go',A+'wallet_service.go'],[('market withdrawal',A+'operator_service.go'),('payments of the wallet',A+'wallet_service.go')])
p('C25','The fee report is exactly the fees earned by completed trades',
 "For any set of trades the report of a market lists one entry per successfully completed or settled trade of that market with the fee rate stored with that trade, the asset the trader paid and that percentage of the amount paid (rounded down), and the per-asset totals are the sums of the listed entries. Trades of other markets, failed or unfinished ones never contribute.",
 ['inputs'],"All sets of trades up to the stated size in arbitrary states with arbitrary amounts and fee settings.",
 "Tests check one trade.",
 [A+'operator_service.go'],[('collected fees',A+'operator_service.go')])
p('C26','A group of storage changes is kept or dropped as a whole',
 "When the grouped operation reports success every participating store is committed exactly once and its result returned; when it fails, or a commit fails, every store not yet committed is rolled back, none is committed afterwards, and the caller receives an error. A store that takes part several times is begun and finished once. In the disk-backed store a group that fails leaves nothing behind and a read-only group changes nothing.",
 ['fault_sequences'],"All outcomes of the handler, each begin, each commit and each rollback, for up to the stated number of stores.",
 "Tests cover one commit and one rollback.",
 ['internal/infrastructure/storage/db/uow/unit_of_work.go',BAD+'db_manager.go',MEM+'db_manager.go'],[('unit of work','internal/infrastructure/storage/db/uow/unit_of_work.go')])
p('C27','Every remote method needs the right permission and no method is left out',
 "Every method the daemon serves is either on the public list or requires a permission held by the administrator, and when authentication is on a call to any other method name, or without a valid credential carrying the required permission, never reaches its handler. Read-only credentials never grant a state-changing method, and a credential for prices, markets, wallet or webhooks grants only methods of its own area.",
 ['inputs','configurations'],"All method names, credential permission sets and validator answers.",
 "Tests list a few methods.",
 ['internal/interfaces/grpc/permissions/permissions.go','internal/interfaces/grpc/interceptor/auth.go'],[('permission tables','internal/interfaces/grpc/permissions/permissions.go'),('interceptor','internal/interfaces/grpc/interceptor/auth.go')])
p('C28','The encrypted store never loses, leaks or mixes up entries',
 "While locked the store reveals and changes nothing; once unlocked with its password every entry reads back exactly as last written, for any bucket and key names, and other entries are unaffected. Changing the password needs the right old one and keeps every entry readable with the new password only, wherever in the process a storage step fails.",
 ['histories','inputs','fault_sequences'],"All sequences of operations up to the stated length over arbitrary bucket and key names, all failures of storage steps.",
 "Tests use two buckets with simple names and no faults.",
 ['pkg/securestore/bolt/store.go'],[('encrypted bolt store','pkg/securestore/bolt/store.go')])
p('C29','Subscribers are notified of exactly the events they registered for',
 "A registered webhook is listed under its event and an event reaches exactly the endpoints registered for it or for all events, each once, with the given message; after removal it is neither listed nor called, and others stay registered. Unknown events and malformed registrations are refused. Registrations and removals made at the same time do not lose each other, and one that meets a storage failure or a stop of the daemon is done or not, is reported as failed, affects no other and can be repeated.",
 ['histories','inputs','schedules','fault_sequences'],"All sequences of subscribe, unsubscribe and publish up to the stated length with arbitrary events and endpoints, all orders of the storage steps of two, all failures of those of one.",
 "Tests register a fixed list.",
 ['internal/infrastructure/pubsub/webhook/service.go','internal/infrastructure/pubsub/webhook/webhook.go'],[('webhook registry','internal/infrastructure/pubsub/webhook/service.go')])
p('C30','The chain watcher watches each item once and forgets removed ones',
 "An address or transaction is watched at most once however often it is added, is reported as watched until removed, and removal stops exactly that item. The events emitted for it carry its own address or id and the state the explorer reported. A failure of the explorer is reported and the item is observed again afterwards. Stopping, also repeatedly, at any moment and with any number of events not yet consumed, ends the observation of all items, tells the listener once, and neither crashes nor hangs.",
 ['histories','inputs','fault_sequences','schedules'],"All sequences of add/remove/query up to the stated length over arbitrary items, explorer answers and failures; the interleavings of two requests or a stop with observations under way.",
 "Tests run the crawler against fixed mocks for a few seconds.",
 ['pkg/crawler/service.go','pkg/crawler/observable.go'],[('observable registry','pkg/crawler/service.go')])
p('C31','Malformed remote requests never reach the trading or operator logic',
 "A request with a missing or foreign market, unknown trade or strategy type, non-positive amount, a price that is not a positive finite number, missing password, seed, output or swap message, or a too low fee rate is answered with an invalid-argument error without side effects; a valid one is passed on unchanged exactly once. Replies carry the service's values unchanged, field by field, failures of the service are never answered as success, and a client that goes away while the wallet is created or restored does not hold that up.",
 ['inputs'],"All field values of each request message, including absent sub-messages, and all service answers.",
 "There are hardly any handler tests.",
 ['internal/interfaces/grpc/handler/trade.go','internal/interfaces/grpc/handler/operator.go','internal/interfaces/grpc/handler/wallet.go'],[('request validation','internal/interfaces/grpc/handler/trade.go')])
p('C32','Wallet totals and restored accounts account for every coin and address found',
 "The reported wallet balance per asset is the sum of the wallet account's coins, split into confirmed and unconfirmed parts that add up to the total. Restoring the accounts from their seed, with an explorer that answers which addresses were used, finds every used address that is not beyond a gap of 20 consecutive unused ones, and resumes derivation right after the last used one. The fee and market coins of the addresses found are stored as they are, unconfirmed ones are watched, and a market account is restored, funded when it holds the base and one other asset. A restore that fails, because the explorer does, is reported and leaves nothing behind, also for a restarted daemon, and can be repeated.",
 ['inputs','histories'],"All coin sets and all patterns of used addresses within the stated bounds.",
 "Tests restore one fixed pattern.",
 [A+'wallet_service.go'],[('balance totals and restore',A+'wallet_service.go')])
p('C33','The client library trades in the direction and amounts the server quoted',
 "For any quote, a buy sends the quote asset and receives the base asset and a sell does the opposite, with the requested amount on the side the caller asked about and the quoted amount on the other. Invalid orders, also for an asset outside the market, are refused before contacting the server; a quote without a price or for another asset than the market's is not followed; a proposal or completion that was refused, failed or answered with nothing is reported as an error, never as success; and no answer of the server crashes the client.",
 ['inputs','fault_sequences'],"All amounts, asset choices, trade types and server answers (including empty ones).",
 "Tests need a live server and cover one amount.",
 ['pkg/trade/preview.go','pkg/trade/buy.go','pkg/trade/sell.go','pkg/trade/wallet.go','pkg/trade/client/market.go'],[('order construction','pkg/trade/preview.go')])
p('C34','Authentication root keys stay usable across password changes',
 "A root key, once created for an id, is returned unchanged for that id until explicitly deleted or regenerated, also after the password is changed or the store reopened; without the right password no key is revealed or created, and the reserved entries can be neither read as a root key nor deleted.",
 ['histories','inputs'],"All sequences of operations up to the stated length over arbitrary key ids.",
 "Tests cover the default key only.",
 ['pkg/macaroons/store.go'],[('root key store','pkg/macaroons/store.go')])
p('C35','Operator commands on a market take effect exactly or not at all',
 "Opening or closing a market and changing its percentage fee, fixed fees, prices or strategy does exactly what was asked to exactly the market asked for, or is refused and changes nothing: malformed or foreign assets, unknown markets, values outside the limits, an open market whose fees or strategy would change, and opening without an address to pay network fees from or without prices are refused, anything else is accepted. Replies and the market list tell what is stored. Commands given at the same time do not lose each other's changes: the outcome is that of giving them one after the other. If the daemon stops while carrying one out, the market is afterwards as before or as after it.",
 ['inputs','schedules','crash_points'],"All commands with any arguments on a market in any state; all interleavings of the storage steps of two commands; a stop before any storage step of one.",
 "Tests give one command at a time to fixed markets; no test runs two at a time or stops in between.",
 [A+'operator_service.go',BAD+'market_repository_impl.go',MEM+'market_memory_repository_impl.go'],[('market commands',A+'operator_service.go'),('read-modify-write of markets',BAD+'market_repository_impl.go')])
p('C36','Traders are told exactly the markets, prices and balances they can get',
 "While the wallet is unlocked the markets listed to traders are exactly the open ones, each once with its current fees; nothing is listed while it is locked. The price told for an amount of either asset is the one the rules of the market give for its coins that are available (confirmed, unspent, not locked by another trade), together with that balance and the current fees, and is refused for closed or unknown markets, foreign assets and amounts that cannot be traded. The balance of a market is the sum of its confirmed unspent coins and of no one else's.",
 ['inputs'],"All amounts, fees, coin values and coin states within the bounds, open and closed markets, well-formed, unknown and malformed requests.",
 "Tests query one funded market with all coins available.",
 [A+'trade_service.go',D+'market_service.go'],[('public market queries',A+'trade_service.go')])
p('C37','A coin becomes available once its transaction is confirmed',
 "A coin of the daemon that is stored while its transaction is unconfirmed — a deposit, the change of a withdrawal or payment, the proceeds of a trade — is watched for, and counts as available funds as soon as the chain, a reload of the coins or the start of the daemon shows that the transaction is confirmed. No other coin changes, none appears or vanishes, and a coin's amount, owner, reservation or spent state is not touched by that.",
 ['inputs','histories'],"All sets of stored and listed coins within the bounds, in every state, and every report of the chain about their transactions or others, reloads and restarts.",
 "Tests never store an unconfirmed coin.",
 [A+'blockchain_listener.go',A+'utils.go',A+'wallet_service.go',A+'operator_service.go'],[('blockchain listener and coin updates',A+'blockchain_listener.go')])
p('C38','A restarted daemon carries on with the trades it had',
 "A daemon that stops at any point while it serves a trade and is started again carries on: a trade it acknowledged as completed is still completed; a pending trade can be completed or given up by its taker, keeps its coins reserved, expires at its deadline and settles when its transaction is confirmed; and coins reserved for a trade that is over, or that was never stored, are free again. Other trades and their coins are not changed by that.",
 ['crash_points','histories','inputs'],"All stops before any change of a trade or coin and with any work left undone, all stages of an earlier trade, and every continuation within the bounds.",
 "Tests never restart the daemon's services over existing trades.",
 [A+'trade_service.go',A+'blockchain_listener.go'],[('trade service and blockchain listener',A+'trade_service.go')])
p('C39','The transaction signed for an accepted swap is exactly the agreed deal',
 "When the daemon fills the transaction of a swap, the proposer's inputs and outputs stay as they are and unsigned; the daemon adds only coins it was offered, each once and signed with its own key for the final transaction; the market gives exactly the amount asked for (the rest returns to its change address), gets exactly the amount proposed at its own address, and the fee account pays exactly the one network fee output; all outputs are blinded to match the inputs and readable with the keys handed over, which are those of the transaction and no others. A proposal that cannot be completed so is refused without a crash, one that can is filled.",
 ['inputs'],"All proposals, coins and amounts within the bounds.",
 "The tests replace the filling of proposals or run a few fixed transactions against a live network.",
 [A+'trade_service.go','pkg/wallet/blind.go','pkg/wallet/sign.go','pkg/wallet/transaction.go'],[('fillProposal',A+'trade_service.go'),('BlindSwapTransactionWithData, ExtractBlindingDataFromTx','pkg/wallet/blind.go'),('SignInput','pkg/wallet/sign.go'),('UpdateSwapTx, UpdateTx','pkg/wallet/transaction.go')])
p('C40','The operator is told exactly the trades, coins, addresses and hooks there are',
 "The list of trades has every stored trade once, in order of request time, with its own terms, price, outcome and times, and for a settled trade a link to its transaction with the data that unblinds the daemon's view of it. The list of coins has every stored coin once, under its account and its state (free, reserved, spent); the balance of the fee account is that of its confirmed unspent base coins. The addresses listed for a market are exactly its receiving ones. Dropping a market removes that market and no other. A webhook is registered, listed and removed exactly as asked, or refused when its type is unknown or there is no service for it.",
 ['inputs','histories'],"All trades, coins, addresses and hooks within the bounds.",
 "The tests list a few fixed trades and coins and check that something comes back.",
 [A+'operator_service.go'],[('ListTrades, ListUtxos, FeeAccountBalance, ListMarketExternalAddresses, DropMarket, AddWebhook, RemoveWebhook, ListWebhooks',A+'operator_service.go'),('tradesToTradeInfo, tradeToTradeInfo',A+'operator_service.go')])
p('C41','One password opens the wallet, its credentials and its webhooks',
 "Creating, unlocking and re-keying the wallet with the right password in the right state succeeds; with another password, or in another state, it is refused and changes nothing. After any sequence of restarts, unlocks and password changes the current password, and no earlier or other one, opens the wallet, the store of the credentials and the store of the webhooks: the seed is the same, the credentials issued at the start stay valid and no webhook is lost, whether or not the daemon was unlocked since it was started.",
 ['histories','inputs','configurations'],"All sequences of the commands and restarts up to the stated length, with the right or another password, with credentials and webhooks used or not.",
 "The tests of each store know nothing of the other two; none restarts the daemon and changes the password.",
 [A+'wallet_service.go','internal/interfaces/grpc/service.go','internal/infrastructure/pubsub/webhook/store.go','pkg/macaroons/store.go'],[('InitWallet, UnlockWallet, ChangePassword',A+'wallet_service.go'),('password listener of the credentials','internal/interfaces/grpc/service.go'),('ChangePassword','internal/infrastructure/pubsub/webhook/store.go')])
E='pkg/explorer/esplora/'
p('C42','The explorer client tells exactly what the explorer answers',
 "Asked for the coins of addresses, the client returns every coin the explorer lists once, with its outpoint, script, status, commitments and proofs as its transaction has them, and, for a hidden coin that one of the given keys reads, its true asset, amount and blinders. Asked for transactions, a status, the chain's height or to broadcast, it returns what the explorer answered, whole and unchanged, also for amounts of any size. If an answer is refused, cut off, garbled, names an output its transaction does not have, or lists a hidden coin that no given key reads, the request fails with an error; the daemon never crashes on an answer and never takes a failure for success.",
 ['inputs','fault_sequences'],"All lists of coins and transactions within the bounds, any amounts, every kind of malformed, missing or refused answer.",
 "The tests need a live node; they see a few fixed transactions and none of the malformed answers.",
 [E+'unspents.go',E+'transaction.go',E+'types.go',E+'block.go',E+'client.go'],[('GetUnspents, GetUnspentsForAddresses',E+'unspents.go'),('GetTransaction, GetTransactionHex, GetTransactionStatus, IsTransactionConfirmed, GetTransactionsForAddress, BroadcastTransaction',E+'transaction.go'),('NewTxFromJSON, NewTxFromHex, Parse',E+'types.go'),('GetBlockHeight',E+'block.go')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
