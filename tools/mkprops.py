#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
H, I, S, F, C = "histories", "inputs", "schedules", "fault_sequences", "configurations"

SP = "staking-pool/src/lib.rs"; SPI = "staking-pool/src/internal.rs"
p("P01", "The staking pool can always pay every delegator in full",
  "At every moment the tokens held by a staking pool (liquid plus locked in staking) are at least the sum of everything it reports as owed to its delegators, staked and unstaked. Rounding never costs the pool more than 1 yoctoNEAR per operation, and if all delegators unstake everything, wait for unlocking and withdraw, every one of them is paid their reported balance.",
  [H, I, S], "any history of deposits, stakes, unstakes, withdrawals, pings, rewards, direct transfers, pauses and epochs by any delegators, with any amounts, and any interleaving with the pool's own pending staking receipts",
  "Unit tests replay a few fixed histories with round NEAR amounts on a mocked chain in which promises never execute; solvency is a relation over every history and every rounding.",
  [SP, SPI], [("share purchase/sale rounding and guarantee fund", SPI + ": internal_stake, inner_unstake, num_shares_from_staked_amount_*, staked_amount_from_num_shares_*"), ("withdrawals", SPI + ": internal_withdraw")],
  [("total_staked_balance / total_stake_shares / accounts", "share ledger", SP)], ["get_account", "get_total_staked_balance", "account balance"])
p("P02", "A delegator's own operation changes their balances by the stated amounts",
  "A deposit adds exactly the attached amount to the caller's unstaked balance and a withdrawal pays exactly the requested amount (or all of it) to the caller's account and removes exactly that from their unstaked balance. Staking X takes at most X (and less than one share's price less than X) from the unstaked balance, unstaking X adds at least X and less than X plus one share's price, neither lowers the sum of the caller's balances, and unstaking everything leaves nothing staked. Requests for zero, or for more than the caller has (beyond the rounding of one share's price when staking), fail and change nothing.",
  [H, I], "every operation and amount in every reachable pool state, including share prices that make amounts round",
  "The tests use amounts for which the share price divides evenly or compare within a tolerance; rounding boundaries, zero results and excess requests need every small amount in every price state.",
  [SP, SPI], [("deposit/stake/unstake/withdraw", SPI), ("public methods", SP + ": deposit, deposit_and_stake, stake, stake_all, unstake, unstake_all, withdraw, withdraw_all")],
  (), ["get_account", "wallet balances"])
p("P03", "No pool operation by one party reduces another delegator's balances",
  "No deposit, stake, unstake, withdrawal, ping, administration call or epoch change ever lowers the reported staked or unstaked balance of any account other than the caller's own, and the value of a share never falls. Nor does a delegator gain more from others' operations, beyond rewards, than rounding of about one share's price.",
  [H, I], "all histories of operations by several delegators and all share prices",
  "Tests check the actor's own balances in single scenarios; isolation quantifies over all other accounts in every state.",
  [SP, SPI], [("price-preserving rounding", SPI + ": internal_stake, inner_unstake")], (), ["get_account of every delegator"])
p("P04", "Unstaked tokens unlock exactly four epochs after the last unstake",
  "After unstaking, a delegator's unstaked balance is reported unavailable and cannot be withdrawn until four epochs have passed since their most recent unstake, and from then on it is available and withdrawable. No deposit, stake, withdrawal, ping, pause, reward or operation by anyone else shortens or extends that period.",
  [H, S], "every ordering of unstake, other operations and epoch boundaries",
  "Tests advance a mock epoch counter along one path; the property quantifies over interleavings of unstakes, other operations and epoch boundaries.",
  [SP, SPI], [("unlock epoch", SPI + ": inner_unstake, internal_withdraw"), ("NUM_EPOCHS_TO_UNLOCK", SP)], (), ["is_account_unstaked_balance_available", "withdraw"])
p("P05", "Rewards are credited exactly once and the owner gets exactly the fee",
  "Tokens the pool gains (validation rewards or direct transfers, never deposits attached to calls) are added to the total staked balance exactly once, when the pool is first touched in a later epoch. The owner's stake receives the configured fee fraction of them and all holders of shares split the rest in proportion to their stake, up to rounding; with nobody staking or no gain, nothing changes.",
  [H, I], "all sequences of operations, rewards and gifts over several epochs, all fee fractions",
  "Tests use one reward at one time with one fee; the property is about every ordering of operations within and across epochs, where double counting or attached deposits being taken for rewards can occur.",
  [SP, SPI], [("internal_ping", SPI), ("last_total_balance bookkeeping", SPI + ": internal_deposit, internal_withdraw")], (), ["ping", "get_total_staked_balance", "get_account_staked_balance"])
p("P06", "The pool's stake proposal always matches its total staked balance",
  "Once its receipts have settled, an unpaused pool's latest staking proposal equals its total staked balance under the current staking key after every operation that changed either one. A paused pool proposes zero stake and no delegator operation restakes until the owner resumes; if the network rejects any of the pending proposals while tokens are locked, the pool proposes to unstake everything instead.",
  [H, S, F], "all operation sequences, interleavings of operations with pending staking receipts, and rejected staking actions",
  "The mocked unit tests never execute the staking promise nor its callback, so proposal/ledger agreement and failure handling are not observed at all.",
  [SP, SPI], [("internal_restake", SPI), ("on_stake_action", SP), ("pause_staking/resume_staking", SP)], (), ["locked balance and stake action of the account"])
p("P07", "Only the pool owner administers the pool, and callbacks are private",
  "Changing the staking key or reward fee, pausing, resuming and voting succeed only for the owner, take effect exactly as requested, and reject invalid values (fee above one, zero denominator, pausing twice, resuming when not paused). Anyone else's attempt, and any outside call of the pool's internal callback, fails and changes nothing.",
  [H, I], "all callers, arguments and states",
  "Tests cover the owner's successful calls and few rejections; authority must hold for every method, caller and state.",
  [SP, SPI], [("assert_owner / predecessor check", SP), ("RewardFeeFraction::assert_valid", SP)], (), ["owner methods and views"])
p("P08", "The pool lists exactly the accounts that hold something",
  "The number of accounts and the paginated account list always contain exactly the accounts with a non-zero staked or unstaked balance, each once and with the same numbers as the individual views; every page is the right slice for its start and limit.",
  [H, I], "all histories including accounts that empty and refill, all pagination arguments",
  "Tests never empty accounts and then list them; the property needs every order of removals and insertions.",
  [SP, SPI], [("internal_save_account", SPI), ("get_accounts", SP)], (), ["get_accounts", "get_number_of_accounts"])
p("P09", "A staking pool initializes once, only with valid parameters",
  "Initialization succeeds only for a valid owner account, a valid fee fraction (positive denominator, at most one) and more than the reserved 1e12 yoctoNEAR of balance, and a second initialization always fails without effect. After it the reported owner, key and fee are those given, staking is not paused, and the balance beyond the reserve is proposed for staking.",
  [I, C], "all combinations of initialization arguments and balances",
  "Tests initialize with one set of valid arguments.",
  [SP], [("new", SP)], (), ["new", "views"])

W = "whitelist/src/lib.rs"
p("W01", "Only authorised callers change the whitelists, with exact set semantics",
  "Staking pools can be added only by the foundation or a currently approved factory, and removed only by the foundation; factories are added and removed only by the foundation, and initialization happens once. The two lists are independent sets: membership views always equal the set of accepted additions not later removed, and each change returns whether it changed the set. Invalid account ids are refused everywhere, and no method accepts tokens.",
  [H, I], "all sequences of calls by foundation, factories, pools and strangers over both lists",
  "Each test runs one short fixed sequence; the property quantifies over all orders of approvals, removals and callers.",
  [W], [("assert_called_by_foundation", W), ("add_staking_pool", W)], (), ["is_whitelisted", "is_factory_whitelisted"])

V = "voting/src/lib.rs"
p("V01", "Transfers are voted in exactly when more than 2/3 of stake supports it",
  "The poll ends in the first vote or first-in-epoch ping at which the recorded yes-stake exceeds two thirds of the total validator stake, never otherwise, and the recorded result is that block's timestamp. Once set the result never changes and no later call changes anything.",
  [H, I], "all sequences of votes, withdrawals, stake changes and epochs",
  "Tests run two or three histories with uniform stakes; thresholds, stake changes and withdrawal orders need exhaustive small cases.",
  [V], [("check_result", V), ("vote", V), ("ping", V)], (), ["get_result"])
p("V02", "Recorded votes are exactly the current supporters at their stakes",
  "The votes reported are exactly those validators whose latest vote is yes, each at their stake as of their vote or the latest first-in-epoch refresh, with those no longer staking dropped at refresh, and the reported total equals their sum. Accounts without stake cannot vote yes.",
  [H, I], "all sequences of votes, re-votes, withdrawals, stake changes and epochs",
  "The tests assert totals after a handful of scripted changes.",
  [V], [("vote", V), ("ping", V)], (), ["get_votes", "get_total_voted_stake"])

SF = "staking-pool-factory/src/lib.rs"
p("F01", "A created staking pool is exactly what was asked for and whitelisted",
  "A successful creation yields a new account named by the requested prefix under the factory, running the staking pool contract with exactly the given owner, key and fee, funded with exactly the attached deposit, counted once, and added to the whitelist by the factory. Requests below the minimum deposit, with an invalid name, owner or fee, or reusing an existing or pending name fail without effect and return the deposit.",
  [I, H, S], "all argument combinations, repeated and concurrent requests",
  "The unit tests mock promises; they never deploy, initialize or whitelist a pool, and never overlap two requests.",
  [SF], [("create_staking_pool", SF)], (), ["create_staking_pool", "whitelist views"])
p("F02", "A failed staking pool creation is refunded once and whitelists nothing",
  "If the pool's account cannot be created or initialized, the caller gets the whole attached deposit back exactly once, the name becomes available again, nothing is counted and nothing is whitelisted. The completion callback cannot be called from outside, so no pool is whitelisted and no refund paid except as the result of a real creation.",
  [F, S, I], "every failure point of the creation (existing account, failing initialization, failing whitelisting) and every interleaving of concurrent creations",
  "Tests only feed a failed promise result to the callback; refunds across real receipts and interleavings are not executed.",
  [SF], [("on_staking_pool_create", SF), ("assert_self", "staking-pool-factory/src/utils.rs")], (), ["balances", "get_number_of_staking_pools_created"])
LF = "lockup-factory/src/lib.rs"
p("F03", "A created lockup has the derived address and exactly the requested terms",
  "A successful creation yields the account whose name is the first 20 bytes of the SHA-256 of the owner's account id in hex under the factory, holding exactly the attached deposit and running the lockup contract with the given owner, durations, timestamps and vesting, the factory's or the given whitelist, and transfers already enabled. The foundation can terminate it exactly when a vesting schedule was given. Deposits below the minimum are rejected.",
  [I, C], "all combinations of optional arguments and owners",
  "Unit tests only build the promise; the deployed lockup's terms are never observed.",
  [LF, "lockup-factory/src/types.rs"], [("create", LF)], (), ["lockup views"])
p("F04", "A failed lockup creation refunds the deposit exactly once",
  "If the lockup account already exists or cannot be initialized, the caller gets back the whole deposit exactly once, the factory keeps nothing of it, and an existing lockup is not affected. The completion callback cannot be called from outside.",
  [F, S, I], "all failure causes and interleavings of concurrent creations for the same or different owners",
  "Tests call the callback with a mocked failure only.",
  [LF, "lockup-factory/src/utils.rs"], [("on_lockup_create", LF)], (), ["balances"])
MF = "multisig-factory/src/lib.rs"
p("F05", "A created multisig has exactly the requested members and threshold",
  "A successful creation yields a new account of the requested name under the factory, running the multisig contract with exactly the given members and number of confirmations, funded with exactly the attached deposit and with no other access keys. A creation that fails leaves no account, changes no existing one, and returns the whole deposit to the caller exactly once; the completion callback cannot be called from outside.",
  [I, C], "all member lists and thresholds up to the bound, names in use",
  "The factory has no tests at all.",
  [MF], [("create", MF), ("on_multisig_create", MF)], (), ["multisig2 views", "account access keys", "balances"])

L = "lockup/src/lib.rs"; LI = "lockup/src/internal.rs"; LG = "lockup/src/getters.rs"; LO = "lockup/src/owner.rs"; LOC = "lockup/src/owner_callbacks.rs"; LFD = "lockup/src/foundation.rs"; LFC = "lockup/src/foundation_callbacks.rs"; LT = "lockup/src/types.rs"
p("L01", "The locked amount follows the lockup, release and vesting schedules",
  "At any time the locked amount is the larger of what the lockup and linear release still hold back (everything before the later of the lockup timestamp and the lockup duration after transfers were enabled, then, with a release duration, a linear share over that duration counted from that moment, reduced by what a termination already withdrew) and what is still unvested (all before the cliff, linear from the schedule's start to its end, nothing after; with a hashed schedule, none until it is revealed). It never increases with time, and a release or vesting that has ended leaves nothing locked.",
  [I, C, H], "all schedule configurations and all times, in particular all boundaries",
  "Tests sample a few times for a few configurations; the formula is a function of seven parameters and time.",
  [LG, LI, LT], [("get_locked_amount / get_unreleased_amount / get_unvested_amount", LI)], (), ["get_locked_amount", "get_unvested_amount", "get_liquid_owners_balance"])
p("L02", "The owner can never take out tokens that are still locked",
  "As long as the account has no full access key, whatever the owner does, each transfer leaves at least the locked amount on the account and in the staking pool together (a hashed schedule counts for nothing until it is revealed), and transfers by the owner are limited to the reported liquid balance. The reported liquid balance never exceeds what is on the account minus the storage reserve, nor the total owned minus the locked amount.",
  [H, I, S], "all owner histories over transfers, staking and refreshes, over all points of the schedule and all interleavings of pending receipts",
  "Tests check single transfers in single states; theft through combinations of staking, refresh and transfers needs histories.",
  [L, LI, LO], [("transfer", LO), ("get_liquid_owners_balance", LG), ("assert_transfers_enabled", LI)], (), ["transfer", "balances"])
p("L03", "Vesting termination pays the foundation exactly the unvested part",
  "When the foundation terminates vesting, the unvested amount at that moment is fixed; it all (as far as the account with its staking pool holds more than the storage reserve) can be withdrawn by the foundation to the account it names, in total exactly once and no more, and vested tokens stay with the owner. The owner's remaining lockup and release continue as if only that amount had been removed.",
  [H, I, S, C], "termination at any time, with tokens staked or not, withdrawn at once or in parts, all interleavings",
  "Tests terminate at one or two moments with mocked promise results; the payout over real receipts and partial balances is not executed.",
  [L, LFD, LFC, LI], [("terminate_vesting, termination_withdraw", LFD), ("on_withdraw_unvested_amount", LFC)], (), ["get_terminated_unvested_balance", "balances"])
p("L04", "The owner cannot obstruct a termination in progress",
  "While a terminated vesting has not been fully withdrawn, the owner cannot stake, unstake, withdraw from or change the staking pool nor take the tokens owed to the foundation. The foundation can always drive the process on (unstaking and withdrawing from the pool as needed) until it is paid, and afterwards the owner's rights are restored.",
  [H, S, F], "all interleavings of owner and foundation calls and staking pool replies, including failing replies",
  "Tests step through one successful path.",
  [LFD, LFC, LO, LI], [("assert_no_termination", LI), ("termination_prepare_to_withdraw", LFD)], (), ["get_termination_status"])
p("L05", "Locked tokens can only be delegated to one whitelisted staking pool",
  "Tokens leave for a staking pool only after the owner selected it while it was whitelisted (as answered by the configured whitelist), at most one pool is selected at a time, and it can be replaced or dropped only when the known deposit is zero and nothing is under way.",
  [H, S, F], "all sequences of selection, unselection, deposits and whitelist replies in all interleavings",
  "Tests feed mocked whitelist answers one at a time.",
  [LO, LOC, LI], [("select_staking_pool / on_whitelist_is_whitelisted", LO), ("unselect_staking_pool", LO)], (), ["get_staking_pool_account_id", "receipts to pools"])
p("L06", "Staking operations are mutually exclusive and never get stuck",
  "While a staking pool operation is in flight no other owner staking operation (deposit, stake, unstake, withdrawal, refresh or unselecting) can start; such calls fail without effect, as do transfers and the adding of a key. When the replies have arrived, successful or failed, the lockup accepts operations again.",
  [S, F, H], "all interleavings of calls with pending receipts and all success/failure outcomes of the staking pool's mutating calls",
  "Tests run callbacks immediately after calls with a fixed result; overlapping and failing operations need schedules.",
  [LO, LOC, LI], [("set_staking_pool_status Busy/Idle", LI), ("callbacks", LOC)], (), ["get_staking_pool_account_id", "owner calls"])
p("L07", "The known deposit records exactly what went to and came back from the pool",
  "The deposit known to the lockup increases exactly by each deposit the pool accepted, decreases exactly by each successful withdrawal (never below zero), and is replaced by the pool's total for the lockup account when refreshed; failed operations leave it unchanged. When no operation is under way and the pool has been refreshed or only grew, the owner's total balance view never exceeds the tokens the lockup could recover, up to share rounding.",
  [S, F, H, I], "all sequences and interleavings of staking operations, rewards and failures",
  "Tests check single callbacks with chosen values.",
  [LO, LOC], [("on_staking_pool_deposit/withdraw, on_get_account_total_balance", LOC)], (), ["get_known_deposited_balance", "get_owners_balance"])
p("L08", "A full access key can be added only when nothing is locked",
  "The owner can obtain a full access key on the lockup account only when the locked amount is zero, transfers are enabled, no termination is in progress and no tokens remain unvested under a known schedule, and the key added is exactly the requested one. No other call ever adds a key.",
  [H, I, C], "all states and times",
  "Tests try it in one locked and one unlocked state.",
  [LO, LI], [("add_full_access_key", LO)], (), ["access keys"])
p("L09", "Lockup methods are reserved to owner, foundation or the contract itself",
  "Every owner method fails for anyone but the owner, every termination method fails for anyone but the foundation (and always if there is none), and every callback fails unless called by the contract itself. Such failed calls leave the state and all balances unchanged and attached tokens are returned.",
  [I, H], "all callers x methods x states",
  "Tests check a few methods in one state.",
  [LO, LFD, LOC, LFC, LI], [("assert_owner, assert_called_by_foundation, assert_self", LI)], (), ["all methods"])
p("L10", "Transfers stay disabled until the poll approved them, then for ever enabled",
  "If a lockup starts with transfers disabled, the owner can transfer nothing and everything is locked until the named poll reports a result; then that timestamp is recorded, becomes the start of the lockup duration and never changes. Refreshing without a poll result, or a failing poll, changes nothing.",
  [H, F, S], "all interleavings of checks, poll answers and owner calls",
  "Tests feed a single mocked answer.",
  [LO, LOC, LI], [("check_transfers_vote / on_get_result_from_transfer_poll", LO)], (), ["are_transfers_enabled"])
p("L11", "A lockup initializes once, only with a consistent configuration",
  "Initialization fails unless all accounts named are valid, a foundation is named exactly when there is a vesting schedule, and an explicit vesting schedule has start <= cliff <= end and start < end. A second initialization always fails, and the locked amount is fixed to the account balance at initialization.",
  [I, C], "all combinations of initialization arguments",
  "Tests use valid arguments and two or three rejections.",
  [L, LT], [("new", L), ("VestingSchedule::assert_valid", LT)], (), ["new", "views"])
p("L12", "Lockup, pool and whitelist together neither lose nor create the owner's tokens",
  "Run against the real staking pool and whitelist, in every interleaving, the owner's tokens on the lockup account plus those credited to it in the pool equal what was put in plus rewards minus what was paid out, up to share rounding. Once all receipts are delivered the lockup's record agrees with the pool's and everything unlocked can be brought back and transferred out.",
  [S, H], "all interleavings of lockup operations with the receipts of pool and whitelist, and epochs",
  "The simulation tests run one linear happy path.",
  [LO, LOC, SP, SPI], [("cross-contract protocol", LO + " and " + LOC), ("staking pool", SP)], (), ["balances of all accounts"])
p("L13", "A private vesting schedule is usable only with the exact committed data",
  "With a hashed vesting schedule, termination requires the schedule and salt whose SHA-256 matches the stored hash, and then behaves exactly as with that explicit schedule; any other schedule or salt, or none, is rejected without effect. While the hash is kept, no token counts as unvested.",
  [I, H], "all wrong and right schedule/salt variants in all states",
  "Tests use one right and one wrong salt.",
  [LFD, LI, LT], [("assert_vesting / VestingScheduleWithSalt::hash", LFD)], (), ["terminate_vesting", "get_vesting_information"])

M = "multisig/src/lib.rs"
p("M01", "A multisig request executes exactly once, after K distinct keys confirmed it",
  "A request's actions are performed exactly as requested, in order, towards its receiver, at the moment the number of distinct keys that confirmed it reaches the required number, never before and never twice. Only calls by the contract's own access keys count, and no key counts twice.",
  [H, I], "all sequences of adding, confirming and deleting requests by several keys, all action kinds and thresholds",
  "Tests follow one or two confirmation orders and check no executed action.",
  [M], [("confirm / execute_request", M)], (), ["receipts sent", "get_confirmations"])
p("M02", "Multisig requests are listed, limited and deletable exactly as specified",
  "Request ids are never reused, listed requests are exactly those added and not yet executed or deleted, with unchanged content, and deletion is possible for any key only more than 15 minutes after creation. A key can have at most the configured number of active requests, and the reported number per key is always its number of active requests.",
  [H], "all histories of add, confirm, delete, limit changes and time",
  "Tests cover one limit and one early deletion.",
  [M], [("add_request", M), ("delete_request / remove_request", M)], (), ["list_request_ids", "get_num_requests_pk"])
p("M03", "A key removed from the multisig keeps no influence",
  "When the multisig deletes one of its keys, all requests made by that key disappear together with their confirmations, the key's confirmations of other pending requests no longer count, and it can neither confirm nor add requests.",
  [H], "all pending-request situations at removal and all later histories",
  "The test deletes a key with a single pending request.",
  [M], [("DeleteKey in execute_request", M)], (), ["get_confirmations", "list_request_ids"])
p("M04", "Multisig administration happens only through confirmed self-directed requests",
  "Keys, threshold and limit of the multisig change only by executing a confirmed request whose receiver is the multisig itself, threshold and limit changes only as single-action requests; a request violating this fails without any effect when confirmed. Calls by other accounts and a second initialization always fail.",
  [I, H], "all action combinations, receivers and callers",
  "Tests cover one key and one threshold change.",
  [M], [("assert_self_request / assert_one_action_only", M)], (), ["views", "access keys"])
M2 = "multisig2/src/lib.rs"
p("N01", "A multisig2 request executes exactly once, after K distinct members confirmed it",
  "A request's actions are performed exactly as requested, in order, towards its receiver, at the moment the number of distinct members (accounts or keys) that confirmed it reaches the required number, never before and never twice. Only current members can add or confirm, and no member counts twice.",
  [H, I], "all sequences of adding, confirming and deleting requests by members of both kinds and by outsiders, all action kinds and thresholds",
  "Tests follow one or two confirmation orders.",
  [M2], [("confirm / execute_request", M2), ("current_member", M2)], (), ["receipts sent", "get_confirmations"])
p("N02", "Multisig2 requests are listed, limited and deletable exactly as specified",
  "Request ids are never reused, listed requests are exactly those added and not yet executed or deleted, with unchanged content, and deletion is possible for any member only more than 15 minutes after creation. A member can have at most the configured number of active requests, and the reported number per member is always its number of active requests.",
  [H], "all histories of add, confirm, delete, limit changes and time",
  "Tests cover one limit and one early deletion.",
  [M2], [("add_request", M2), ("delete_request / remove_request", M2)], (), ["list_request_ids", "get_num_requests_per_member"])
p("N03", "A member removed from multisig2 keeps no influence",
  "When a member is removed, all its requests disappear together with their confirmations, its confirmations of other pending requests no longer count, its access key (if it was a key, and the request's actions succeed) is deleted, and it can neither confirm nor add requests.",
  [H], "all pending-request situations at removal and all later histories",
  "The test removes a member with a single pending request.",
  [M2], [("delete_member", M2)], (), ["get_members", "get_confirmations"])
p("N04", "Multisig2 administration happens only through confirmed self-directed requests",
  "Members, keys, threshold and limit change only by executing a confirmed request whose receiver is the multisig itself, threshold and limit changes only as single-action requests; a request violating this fails without any effect when confirmed. Calls by non-members and a second initialization always fail.",
  [I, H], "all action combinations, receivers and callers",
  "Tests cover one member and one threshold change.",
  [M2], [("assert_self_request / assert_one_action_only", M2)], (), ["views", "access keys"])
p("N05", "Multisig2 always has enough members to reach its threshold",
  "From initialization on, the number of distinct members is never below the number of confirmations required, whatever requests are executed: initializations, removals and threshold changes that would break this fail without effect.",
  [H, I], "all initial member lists (with duplicates) and all sequences of member and threshold changes",
  "The test tries one removal.",
  [M2], [("new", M2), ("delete_member", M2), ("SetNumConfirmations", M2)], (), ["get_members", "get_num_confirmations"])
p("N06", "A key member's access key can call exactly the multisig2 request methods",
  "Every key that is a member, from initialization or added by a request whose actions all succeed, is an access key of the account that can call the multisig itself only, with unlimited allowance and no other method than the four a member needs: add a request, add and confirm, confirm and delete. No other keys are created by membership changes.",
  [H, C], "all initial member lists and later membership changes",
  "Unit tests never look at the resulting access keys nor submit transactions through them.",
  [M2], [("add_member / MULTISIG_METHOD_NAMES", M2)], (), ["account access keys", "transactions signed with the key"])

T = "w-near/src/w_near.rs"; TL = "w-near/src/lib.rs"
p("T01", "Wrapped NEAR is always fully backed and the supply is the sum of balances",
  "The token supply always equals the sum of all account balances, and the NEAR held by the contract always covers the supply plus the storage deposits of all registered accounts. No transfer changes the supply; only deposits, withdrawals and the burning of an account's balance when it is forcibly unregistered do.",
  [H, I, S, F], "all histories of deposits, withdrawals, transfers, transfer-and-call with any receiver behaviour, registrations and unregistrations, in all interleavings",
  "The simulation tests run a few transfers in sequence.",
  [T, TL], [("near_deposit / near_withdraw", T), ("fungible token standard", TL)], (), ["ft_total_supply", "ft_balance_of", "account balance"])
p("T02", "Transfer-and-call moves exactly the amount the receiver kept",
  "After a transfer-and-call has resolved, the receiver has gained and the sender lost exactly the amount minus the refund, where the refund is what the receiver reported unused, capped by the amount and by what the receiver still has, and everything if the receiver's call failed. The refund goes back to the sender (or is burnt if the sender has unregistered), the call returns the amount used, and no outsider can resolve a transfer.",
  [S, F, I], "all receiver answers (any unused amount, failure, spending in between) and all interleavings with other operations of sender and receiver",
  "Tests use one well-behaved receiver with two answers.",
  [TL], [("impl_fungible_token_core: ft_transfer_call / ft_resolve_transfer", TL)], (), ["ft_balance_of"])
p("T03", "Wrapping and unwrapping exchange NEAR one to one",
  "A deposit credits the caller exactly the attached NEAR, less the registration price when the caller was not registered, and fails if that is not covered or nothing is attached; a withdrawal removes exactly the amount from the caller's balance and pays exactly that plus the attached yocto to the caller's account. A withdrawal of more than the balance, without exactly one yocto or by an unregistered account fails without effect. The metadata announces the 24 decimals of NEAR.",
  [H, I], "all amounts, callers and registration states",
  "Tests wrap and unwrap once.",
  [T], [("near_deposit", T), ("near_withdraw", T)], (), ["ft_balance_of", "wallets"])
p("T04", "Registration costs exactly the storage price and is fully returned",
  "An account is registered by a sufficient storage deposit (by anyone) or a first wrap; it pays exactly the fixed price, any excess is returned at once, and registering again returns everything. Unregistering pays the price back to the account owner only, and requires an empty balance or the explicit force option; only registered accounts can receive or send tokens.",
  [H, I], "all histories of registration, unregistration and transfers",
  "Tests register each account once and never unregister.",
  [TL], [("impl_fungible_token_storage", TL)], (), ["storage_balance_of", "wallets"])
p("T05", "Wrapped tokens move only on their owner's explicit one-yocto call",
  "An account's token balance decreases only by its own call of transfer, transfer-and-call, withdrawal or unregistration with exactly one yoctoNEAR attached, by exactly the amount asked. Calls without exactly one yocto, with zero amount, to itself, to unregistered receivers or exceeding the balance fail without effect, and initialization happens only once.",
  [H, I], "all callers, amounts, deposits and receivers in all states",
  "Tests cover a few successful transfers and few rejections.",
  [TL, T], [("assert_one_yocto, internal_transfer", TL), ("near_withdraw", T)], (), ["ft_balance_of"])

X = "state-manipulation/src/lib.rs"
p("X01", "State replacement and cleanup change exactly the listed keys",
  "Replacing sets every listed key to its listed value (the last one wins for repeated keys), cleaning removes every listed key whether or not present, and no other key is touched. Malformed input (bad encoding or structure at any position) changes nothing at all.",
  [I, H], "all small states and entry lists, including empty keys and values, duplicates and malformed entries at every position",
  "The only test needs a network sandbox and does not run; it uses random valid data only.",
  [X], [("replace", X), ("clean", X)], (), ["contract storage"])
p("X02", "Each state-manipulation build exposes only the features it was built with",
  "The cleanup build exports only the cleaning method, the replacement build only the replacing one, and the full build exactly both; the single-feature builds behave on their method exactly as the full one.",
  [C, I], "the three build configurations, all small inputs",
  "No test builds or runs the single-feature variants.",
  [X, "state-manipulation/Cargo.toml"], [("cfg(feature)", X)], (), ["wasm exports"])

p("T06", "Upgrading the deployed legacy token contract keeps every balance",
  "When the code of a wrapped-NEAR account running the legacy contract is replaced by this one, whatever was done before and even with transfers under way, every balance, registration and the supply are as before, and from then on the account behaves as if it had always run this contract: all other token properties hold and every holder can unwrap in full.",
  [H, S], "every history on the legacy contract, every moment of the upgrade (also between the receipts of a transfer), every history after it",
  "No test loads state written by the legacy contract (only the storage interface has a compatibility test).",
  [TL, T], [("LegacyStorage / state layout", TL), ("Contract state", T)], (), ["ft_balance_of", "ft_total_supply", "wallets"])
p("V03", "The poll enables transfers on lockups exactly when validators voted for it",
  "With staking pools as validators voting through their owners, a lockup naming the voting contract has transfers enabled by its owner's request exactly when the pools' recorded stakes reached more than two thirds of the total, with the timestamp the poll recorded; each pool votes with the stake locked for it at the latest refresh, only its owner can make it vote, and no order of receipts, votes, withdrawn votes, stake changes or failures makes the contracts disagree.",
  [H, S, F], "all sequences of pool votes, delegations, epochs and lockup requests, and all delivery orders of their receipts",
  "Each contract is tested alone with a mocked counterpart; the chain pool -> poll -> lockup is never run.",
  [V, SP, LO, LOC], [("vote", SP), ("vote / ping / get_result", V), ("check_transfers_vote", LO), ("on_get_result_from_transfer_poll", LOC)], (), ["get_result", "get_votes", "are_transfers_enabled"])

p("G01", "Documented gas suffices for lockup operations and factory creations",
  "Every lockup operation called with the amount of gas its documentation says it requires completes its whole chain of cross-contract calls and callbacks without running out of gas, against the real staking pool and whitelist. In particular no such call can leave the lockup stuck in its busy state. The lockup and multisig factories create their accounts with the gas given in their documentation.",
  [H, C], "every documented operation in every reachable state of the bounded lockup/pool histories; every kind of creation",
  "Unit tests run with unlimited gas on mocks; chained gas budgets are never exercised.",
  [LO, LFD, "lockup/src/gas.rs", LF, MF], [("gas constants", "lockup/src/gas.rs"), ("attached gas per promise", LO), ("gas given to the new account", LF)], (), ["receipt outcomes"])
p("G02", "An operation given too little gas takes effect completely or not at all",
  "Whatever amount of gas a call is given, in any of the contracts, the result is either that of the same call with plenty of gas, or nothing has changed and attached tokens are back, or it is one of the documented outcomes of a failing step (a refused creation is refunded; a token receiver that fails keeps nothing). No amount of gas leaves balances, records or locks half-updated.",
  [I, F], "every operation of every contract with every amount of gas up to 300 Tgas in steps",
  "Unit tests run with unlimited gas on mocks, where promises and callbacks never execute.",
  [LO, LOC, LFD, SP, SPI, SF, LF, MF, TL], [("attached gas per promise", LO), ("callback gas", SF), ("callback gas", LF), ("VOTE_GAS, ON_STAKE_ACTION_GAS", SP)], (), ["all accounts after the call"])
p("G03", "Operations that expect no tokens refuse attached ones",
  "A change operation of any contract (the state manipulation tool aside) that is not documented to take a payment fails when tokens are attached to it, changes nothing, and the tokens return to the caller; so does a wrapped-token operation documented to take exactly one yoctoNEAR when any other amount is attached. Tokens are never silently kept.",
  [I, C], "every non-payable operation of every contract in a state where it would succeed, several amounts",
  "Tests never attach deposits to non-payable methods (the unit-test mocks bypass the exported wrappers that check it).",
  [SP, LO, LFD, W, V, SF, LF, MF, "w-near/src/w_near.rs", "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("#[payable] annotations and the generated checks", "near_bindgen methods")], (), ["outcome", "balances"])

p("G04", "Locked tokens reach only pools the foundation or its factory vouched for",
  "Taken together, the whitelist, the staking pool factories and the lockups made by the lockup factory form an unbroken chain: an account is listed only if the foundation listed it or a factory the foundation approves at that moment created it as a staking pool, whoever else asks; a lockup sends tokens only to the pool it has selected after the whitelist confirmed it as listed, and uses none but that. Delisting a pool or disapproving its factory ends new selections, never the return of tokens already there: the owner can always bring everything back, and stake with any pool listed then.",
  [H, S, F], "every sequence of creations, approvals, listings and their withdrawals, selections and stakings by foundation, lockup owner and strangers, with the contracts' receipts in every order and lost whitelist or deposit calls",
  "Each contract's tests mock all the others; no test runs a pool from its creation by the factory to a lockup's tokens in it.",
  [W, SF, SP, LFD, LO, LOC], [("add_staking_pool / is_whitelisted", W), ("on_staking_pool_create", SF), ("select_staking_pool / on_whitelist_is_whitelisted", LO)], (), ["is_whitelisted", "get_staking_pool_account_id", "balances"])

p("G05", "Other users never make an operation fail or grow in cost",
  "However many others use a contract - delegators of a pool, holders of the wrapped token, listed pools and factories, created pools, pending multisig requests - an operation that succeeds without them succeeds with them, for at most a fixed extra amount of gas (3 Tgas), and so does a read of the contract. Nobody can be kept from their tokens by an operation whose cost grows with the number of accounts. (Excepted: what counts all votes of the validators, and removing a multisig member, which goes through the pending requests.)",
  [I, C], "every operation and read of every contract, with up to 250 (thorough: 3000) others",
  "Tests have one to three accounts and, on mocks, no gas limit; a step that visits every account stays unnoticed until there are hundreds.",
  [SP, SPI, W, T, LO, SF, "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("accounts by key, without iteration", SPI + ": internal_get_account, internal_save_account, internal_ping"), ("staking_pool_account_ids", SF), ("whitelist, factory_whitelist", W)], (), ["gas burnt", "outcome"])
p("G06", "Reading a contract changes nothing and gives everyone the same answer",
  "Every view of every contract, in every state - also between the receipts of an operation - can be read without a transaction, gives the same answer again, and gives that answer to whoever calls it in a transaction; reading changes no state, sends nothing and fails in a transaction exactly where it fails as a view.",
  [S, C], "every view, several arguments, before, between and after the receipts of every operation of every contract, alone and with others using it",
  "Unit tests call the Rust methods directly: the read-only mode of the chain, in which writing, sending and asking for the caller are forbidden, is not exercised.",
  [SP, LO, "lockup/src/getters.rs", W, V, T, SF, LF, "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("&self methods", "near_bindgen methods"), ("getters", "lockup/src/getters.rs")], (), ["views", "all accounts after the call"])
p("G07", "A contract is initialised exactly once, and unusable before",
  "Before a contract that needs initialisation is initialised, no operation of it succeeds or changes anything, whoever calls. Once initialised, no second initialisation by anyone - a stranger, its owner or foundation, the account itself - with any arguments succeeds or changes anything, in any state: with nothing recorded yet, between the receipts of an operation, paused, decided, or terminated.",
  [S, C], "every operation of every contract on an uninitialised account, and initialisations by four callers before, between and after the receipts of each operation and four epochs later",
  "Tests construct the contract struct in memory; the check against existing state and the exported wrappers are not exercised.",
  [SP, LO, W, V, T, SF, LF, "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("new, impl Default / PanicOnDefault", "each lib.rs")], (), ["new", "all accounts after the call"])

p("G08", "Authority comes from the immediate caller, never from the signer",
  "Every operation of every contract has the same outcome and effect whoever signed the transaction in which it is called: a contract that a member, owner or foundation calls for some other purpose cannot act in that signer's name, and an account's own call is never refused or changed because another account or key signed. (Excepted: access keys that are members of a multisig.)",
  [S], "every operation of every contract, called by its proper caller and by a stranger's contract, in transactions signed by everybody involved",
  "Unit tests set signer and predecessor to the same account throughout.",
  [SP, LO, LOC, W, V, T, SF, LF, "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("env::predecessor_account_id in every assert_* and internal_*", "each lib.rs"), ("assert_valid_request / current_member", "multisig2/src/lib.rs")], (), ["all accounts after the call", "outcome"])
p("G09", "Malformed arguments are refused without effect",
  "A call of an operation with an argument missing, of the wrong kind, out of range, given twice, or that is not valid JSON fails and changes nothing, wherever in the arguments the fault lies; only arguments documented as optional may be left out. Numbers are never truncated, rounded or read as something else.",
  [I], "every argument at every depth of every operation of every contract, with each kind of fault",
  "Unit tests call the Rust methods with typed values; the parsing of arguments on chain is not exercised.",
  [SP, LO, LOC, W, V, T, SF, LF, "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("argument types of the exported methods", "each lib.rs"), ("WrappedDuration, WrappedBalance, VestingSchedule", "lockup/src/types.rs")], (), ["all accounts after the call", "outcome"])
p("G10", "Callbacks and helpers have no effect when called from outside",
  "Whatever a contract exports besides its documented public operations - callbacks of its own promises, helpers - has no effect when anybody but the contract itself calls it, owner and foundation included, with any arguments and any forged promise results, in any state, also between the receipts of an operation.",
  [S, C], "every such export of every contract, several arguments and promise results, before, between and after the receipts of every operation",
  "Unit tests call callbacks as the contract itself; which Rust methods the compiled contract exports is not visible in them.",
  [SP, LO, "lockup/src/owner_callbacks.rs", "lockup/src/foundation_callbacks.rs", SF, LF, "multisig-factory/src/lib.rs", T, V, "multisig/src/lib.rs", "multisig2/src/lib.rs"], [("assert_self", "lockup/src/internal.rs and each factory"), ("#[private], on_stake_action", SP), ("private fn in near_bindgen impls", "each lib.rs")], (), ["all accounts after the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
