#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, I, C, F, S = "histories", "inputs", "configurations", "fault_sequences", "schedules"
PV = "packages/dao-voting/src/"
SI = "contracts/proposal/dao-proposal-single/src/"
MU = "contracts/proposal/dao-proposal-multiple/src/"
CO = "contracts/proposal/dao-proposal-condorcet/src/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state, observe, tech, note, ready=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, tech=tech, note=note, ready=ready))


prop("C01", "Single-choice proposals resolve exactly as their vote history dictates",
     "At every moment a yes/no/abstain proposal's status is the one determined by its threshold and quorum, the ballots cast, the total voting power when it was created, and its deadlines: after expiry by the final tally alone (undecided means rejected), and before expiry it is passed or rejected only when no further ballots could change that result. "
     "With revoting allowed nothing is decided before expiry, and a minimum voting period delays passing but not rejection. "
     "Percentages are met at `>=` (a majority at strictly more than half, abstentions leave the yes/no ratio, all-abstain never passes) up to a billionth of a vote, and later configuration changes do not affect existing proposals.",
     [H, I, C], "all electorates, weights, threshold/quorum kinds and values, ballot orders, and clock positions",
     "Unit tests sample a few tallies per threshold kind; the claim is about every tally, every order of ballots and every block relative to the deadlines, including the exact boundaries.",
     [SI + "proposal.rs", SI + "contract.rs", PV + "voting.rs", PV + "threshold.rs"],
     [SI + "proposal.rs: is_passed / is_rejected / current_status", PV + "voting.rs: compare_vote_count, does_vote_count_pass, does_vote_count_fail"],
     [("proposal", "votes, total power, threshold, expiration, stored status")],
     ["proposal / list_proposals queries after every step"],
     "reference-model monitor over randomized hostile histories",
     "Held on the histories run (thousands of distinct ones per run, oracle evaluated after every operation); electorates up to 8 addresses, weights up to 1e15. Trusts cw-multi-test and cw4-group as the execution environment.")

prop("C02", "Multiple-choice proposals resolve exactly as their vote history dictates",
     "A multiple-choice proposal passes only if quorum of the voting power at creation is met and a single option other than none-of-the-above has strictly the most votes, either at expiry or earlier when no further ballots could change that winner; it is rejected at expiry otherwise, and earlier only when no further ballots could make it pass. "
     "With revoting allowed nothing is decided before expiry, and a minimum voting period delays passing but not rejection. "
     "A proposal has 2 to 20 options plus none-of-the-above, and only the winning option's messages are ever executed.",
     [H, I, C], "all electorates, option counts, quorums, ballot orders and clock positions",
     "Tests sample a handful of tallies; ties, near-unbeatable leads and none-of-the-above endings at every tally and time are not enumerable by example.",
     [MU + "proposal.rs", MU + "contract.rs", PV + "multiple_choice.rs"],
     [MU + "proposal.rs: is_passed / is_rejected / is_choice_unbeatable / calculate_vote_result", PV + "multiple_choice.rs: into_checked, tally arithmetic"],
     [("proposal", "vote weights per option, total power, quorum, expiration, stored status")],
     ["proposal / list_proposals queries after every step; payee balances"],
     "reference-model monitor over randomized hostile histories",
     "Held on the histories run, oracle after every operation; up to 8 addresses, up to 21 options. Trusts cw-multi-test and cw4-group.")

prop("C03", "Ranked-choice proposals elect the Condorcet winner or nobody",
     "A ranked-choice proposal passes only after its minimum period, and only for the option that beats every other option pairwise among the ranked ballots cast; it is decided before its deadline only when the ballots still outstanding could not change that, and it is rejected when no such winner can emerge, or when quorum is missed at the deadline; none-of-the-above is an option like the others, with no messages. "
     "Each address votes once, with a complete permutation of the options, weighted by its voting power at creation. "
     "A passed proposal executes only the winner's messages, once, by a holder of voting power at creation.",
     [H, I, C], "all electorates, option counts, ranked ballots, ballot orders and clock positions",
     "The existing tests check a few matrices and a fixed set of elections; the pairwise-margin claim ranges over all ballot profiles and all cut-off points.",
     [CO + "tally.rs", CO + "m.rs", CO + "cell.rs", CO + "proposal.rs", CO + "contract.rs", CO + "vote.rs"],
     [CO + "m.rs: pairwise margin matrix and stats", CO + "tally.rs: winner bookkeeping", CO + "proposal.rs: status"],
     [("tally", "pairwise margins and outstanding power"), ("proposal", "choices, quorum, deadlines, last status")],
     ["proposal query after every step; payee balances"],
     "reference-model monitor (pairwise counts recomputed from ballots) over randomized histories",
     "Held on the histories run; the winner, the cannot-change and the no-winner-possible verdicts are recomputed from the raw ballots by worst-case and best-case completion of the outstanding power. Trusts cw4-group's snapshots and cw-multi-test.")

prop("C04", "Each address's ballot counts once, with its power when the proposal was created",
     "For every proposal the reported tallies equal the sum over addresses of at most one ballot each, weighed by that address's voting power at the height the proposal was created; power gained, lost or transferred later, or in that very block, changes nothing, and the reported total power is that same snapshot. "
     "A ballot is accepted exactly from addresses with non-zero snapshot power until the proposal expires; a second ballot is accepted only if the proposal allows revoting and names a different option, and then replaces the first. "
     "Ballots, their rationale and their listing are reported exactly as cast.",
     [H, I, C], "all membership histories interleaved with all ballot histories, per proposal",
     "Tests vote with fixed memberships; the interleaving of power changes, same-block changes and re-votes across several live proposals is unsampled (the total was in fact taken from a different snapshot than the ballots; see the fix commits).",
     [SI + "contract.rs", MU + "contract.rs", PV + "voting.rs", PV + "multiple_choice.rs", "contracts/voting/dao-voting-cw4/src/contract.rs", "contracts/dao-dao-core/src/contract.rs"],
     [SI + "contract.rs: execute_vote, execute_propose", MU + "contract.rs: execute_vote, execute_propose", PV + "voting.rs: get_voting_power / get_total_power, add_vote/remove_vote"],
     [("ballots", "proposal x voter -> vote, power, rationale"), ("proposal.votes", "tally")],
     ["get_vote, list_votes and proposal queries after every step"],
     "reference-model monitor over randomized hostile histories",
     "Held on the histories run; memberships change before, inside and after creation blocks. Trusts cw4-group's own snapshots.")

prop("C05", "A proposal's effects happen once, completely, and only after it passed",
     "A proposal's messages take effect only if it passed, at most once ever, and all of them or none; execution is possible for as long as it stays passed, by anyone or (if so configured) only by addresses with voting power when it was created. "
     "If the messages fail, either the call fails and the proposal stays passed, or (if so configured) the proposal ends as execution-failed with no effect; a rejected proposal can be closed and nothing else, and executed, closed, failed and vetoed are final. "
     "Proposals are numbered consecutively and stay listed with their original terms, and only the DAO itself changes a proposal module's configuration, which is refused, there and at creation, if its terms are impossible (thresholds of zero or above one hundred percent, minimum periods longer than the voting period, mixed units).",
     [H, I, C, F], "all interleavings of propose, vote, execute, close, veto, config change and clock moves, with failing and re-entrant messages",
     "Tests run single lifecycles; double execution, re-entrancy, execution racing expiry, and config changes between passing and execution are properties of histories.",
     [SI + "contract.rs", MU + "contract.rs", PV + "reply.rs", PV + "status.rs", "contracts/dao-dao-core/src/contract.rs"],
     [SI + "contract.rs: execute_execute, execute_close, reply", MU + "contract.rs: execute_execute, execute_close, reply", "contracts/dao-dao-core/src/contract.rs: execute_proposal_hook"],
     [("proposal.status", "lifecycle state")],
     ["proposal status and payee/treasury balances after every step"],
     "conservation and exactly-once monitor with a lifecycle reference model",
     "Held on the histories run; every proposal pays a unique payee so an effect identifies its cause. Trusts cw-multi-test's transaction rollback.")

prop("C06", "Veto and time lock hold for exactly the configured window",
     "With a veto configured, a passed proposal is locked until the configured delay after its expiry has elapsed: inside that window only the vetoer can act on it, vetoing it, or executing it if early execution was allowed; after it the veto right is gone and execution is open as for any passed proposal. "
     "An open proposal can be vetoed only by the vetoer and only if veto before passing was allowed; a vetoed proposal can never be executed. "
     "The veto terms are those in force when the proposal was created.",
     [H, I, C], "all veto configurations, all action orders, every block around each boundary",
     "Tests fix a delay and probe one side of it; the boundary blocks, early passing followed by expiry, and config changes in between are sampled nowhere.",
     [PV + "veto.rs", SI + "contract.rs", SI + "proposal.rs", MU + "contract.rs", MU + "proposal.rs"],
     [PV + "veto.rs: VetoConfig checks", SI + "contract.rs: execute_veto, execute_execute", MU + "contract.rs: execute_veto, execute_execute"],
     [("proposal.status", "open / veto time lock / passed / vetoed"), ("proposal.veto", "terms")],
     ["acceptance of veto and execute, status and its reported lock expiry, payee balances"],
     "reference-model monitor over randomized histories aimed at the window boundaries",
     "Held on the histories run, with clock moves aimed at the block before, at and after each deadline. Trusts cw-multi-test.")

prop("C07", "Only enabled modules and the admin can make the DAO act",
     "The DAO executes messages only on behalf of an enabled proposal module or its current admin; its configuration, items, token and subDAO lists, modules and pause can be changed only by the DAO itself. "
     "While paused, nobody but the admin and the DAO itself can make it do anything, and only the admin can end a pause early. "
     "Admin rights move only by nomination by the current admin and acceptance by the nominee, or back to the DAO; a past admin, a withdrawn nominee and a disabled module have no authority. "
     "The DAO always has exactly one voting module and at least one enabled proposal module, with unique prefixes in order of creation and correct counts, and a failing instantiation changes nothing.",
     [H, I, F], "all senders, message nestings, pause timings and admin and module histories",
     "Tests probe each permission with one sender in one state; authority is a property of the whole history of admins, modules and pauses.",
     ["contracts/dao-dao-core/src/contract.rs", "contracts/dao-dao-core/src/state.rs", "packages/dao-interface/src/state.rs"],
     ["contracts/dao-dao-core/src/contract.rs: execute (pause gate), execute_admin_msgs, execute_proposal_hook, execute_nominate_admin, execute_update_proposal_modules, reply"],
     [("admin / nominated_admin", "who may execute admin messages"), ("proposal_modules", "address -> prefix, status"), ("paused", "expiration of the pause")],
     ["acceptance of every message; dump_state, admin, pause and module queries and the treasury balance after every step"],
     "reference-model monitor over hostile histories with nested self-calls",
     "Held on the histories run; modules are stand-ins that exist only as addresses, the messages are the real ones. Trusts cw-multi-test's submessage and rollback semantics.")

prop("C22", "DAO registries and listings report exactly what was stored, each entry once",
     "Items, cw20 and cw721 token lists, subDAOs and modules of the DAO report exactly the last accepted write for each key and nothing that was removed; a token sent to the DAO is listed iff the DAO is configured to add it. "
     "Listings, with or without limit and for every page size, enumerate each stored entry exactly once in key order, reported balances are the token contracts' own, and voting-power queries answer with the voting module's answer for the same height. "
     "The same holds for proposal and ballot listings.",
     [H, I], "all write histories, page sizes and cursor positions",
     "Tests page through a handful of entries with one page size; completeness of enumeration is a claim about every store and cursor.",
     ["contracts/dao-dao-core/src/contract.rs", "packages/cw-paginate-storage/src/lib.rs", SI + "contract.rs", MU + "contract.rs"],
     ["packages/cw-paginate-storage/src/lib.rs: paginate_map and variants", "contracts/dao-dao-core/src/contract.rs: query_list_items, query_cw20_balances, query_active_proposal_modules, do_update_addr_list", SI + "contract.rs: query_list_proposals, query_reverse_proposals, query_list_votes"],
     [("items / cw20_list / cw721_list / subdao_list", "registries")],
     ["every listing query with random cursors and limits"],
     "reference-model monitor of registries with randomized pagination",
     "Held on the histories run.")

VO = "contracts/voting/"
ST = "contracts/staking/"

prop("C08", "Voting power is the stake or weight at the start of the asked height",
     "For every voting module and every height, an address's power is what it had staked (or its member weight, or the weight of the roles it held) at the start of that block, and the total is the sum over all addresses at that moment; nothing done in or after a block changes an answer about it. "
     "Power is never created or lost by staking, unstaking, claiming, transferring or configuration changes: it follows exactly what was deposited and taken out.",
     [H, I], "all stake and membership histories, several changes per block included, and all queried heights",
     "Tests ask at two or three heights after one change; the snapshot claim is about all heights of all histories, especially several changes within a block.",
     [VO + "dao-voting-token-staked/src/contract.rs", VO + "dao-voting-cw20-staked/src/contract.rs", VO + "dao-voting-cw721-staked/src/contract.rs", VO + "dao-voting-onft-staked/src/contract.rs",
      VO + "dao-voting-cw4/src/contract.rs", VO + "dao-voting-cw721-roles/src/contract.rs", ST + "cw20-stake/src/contract.rs"],
     [VO + "dao-voting-token-staked/src/contract.rs: STAKED_BALANCES / STAKED_TOTAL, query_voting_power_at_height", VO + "dao-voting-cw721-staked/src/state.rs: register_staked_nfts, register_unstaked_nfts", ST + "cw20-stake/src/contract.rs: execute_stake, execute_unstake"],
     [("STAKED_BALANCES / NFT_BALANCES / MEMBERS", "snapshot maps of power"), ("STAKED_TOTAL / TOTAL_STAKED_NFTS / TOTAL", "snapshot items of the total")],
     ["voting_power_at_height and total_power_at_height at current, past and future heights after every step"],
     "reference-model monitor with snapshot oracle over randomized histories",
     "Held on the histories run. x/tokenfactory and x/onft are stand-ins; cw4-group and cw20-base are the real crates.")

prop("C09", "Staked assets stay in custody and come back in full to their owner",
     "A staking contract always holds at least everything that is staked or waiting to be claimed (and, apart from transfers nobody announced, exactly that), and never pays anyone more than is theirs. "
     "Only the owner can unstake, and only up to what they staked; unstaked assets become claimable exactly when the unstaking period in force at that moment has passed, once each, and by their owner alone; without a period they return at once. "
     "Assets of another contract or denom are never accepted as stake, and everyone can always withdraw everything that is theirs.",
     [H, I, F], "all interleavings of stake, unstake, claim, reconfiguration and time",
     "Tests run one or two stakers through one unstake; custody is an invariant of every interleaving and of every moment around a release.",
     [VO + "dao-voting-token-staked/src/contract.rs", VO + "dao-voting-cw721-staked/src/contract.rs", VO + "dao-voting-onft-staked/src/contract.rs", ST + "cw20-stake/src/contract.rs", "packages/cw721-controllers/src/nft_claim.rs"],
     [ST + "cw20-stake/src/contract.rs: execute_unstake, execute_claim", VO + "dao-voting-cw721-staked/src/contract.rs: execute_unstake, execute_claim_nfts", VO + "dao-voting-onft-staked/src/contract.rs: prepare_stake, confirm_stake, cancel_stake", "packages/cw721-controllers/src/nft_claim.rs: NftClaims"],
     [("CLAIMS / NFT_CLAIMS", "what is waiting, for whom, until when"), ("STAKED_BALANCES / STAKED_NFTS_PER_OWNER", "what is staked")],
     ["wallets, NFT owners, claims and holdings after every step; a full withdrawal by everyone at the end"],
     "custody and claim-queue monitor over randomized histories",
     "Held on the histories run; the DAO's documented power to move ONFTs out of the module is not exercised on staked ones.")

prop("C10", "cw20-stake shares out the pool fairly and stays solvent",
     "In cw20-stake a deposit receives shares in proportion to its part of the pool, rounded down, funding raises everyone's value in proportion to their shares, and unstaking pays exactly the value of the shares, rounded down: nobody gains by any sequence of staking and unstaking, what all stakers and claims are owed never exceeds what the contract holds, and the value queries report exactly what unstaking would pay for every reachable pool. "
     "Tokens of other contracts neither stake nor fund, and unannounced transfers change nobody's value.",
     [H, I], "all pool sizes, deposits, fundings and orders",
     "Tests use round numbers and a few fundings; rounding exploits and overflows appear only for particular ratios and sizes.",
     [ST + "cw20-stake/src/contract.rs", ST + "cw20-stake/src/math.rs"],
     [ST + "cw20-stake/src/math.rs: amount_to_stake, amount_to_claim", ST + "cw20-stake/src/contract.rs: execute_fund, query_staked_value"],
     [("BALANCE", "pool value"), ("STAKED_TOTAL", "shares")],
     ["staked_value, total_value, staked balances, wallets and claims after every step"],
     "exact-arithmetic (512-bit) reference monitor over randomized histories",
     "Held on the histories run with amounts up to 2^122.")

prop("C20", "A role's voting weight always belongs to whoever holds the role",
     "In a cw721-roles DAO every member's weight is the sum of the weights of the role tokens they hold and the total is the sum over all tokens, whatever is minted, burned, re-weighted, transferred or sent, at the current and every past height. "
     "Only the owner can do any of that: holders cannot move, approve or burn their roles. Roles, URIs and weights read back as last set; an operation that would overflow or name a missing token is refused and changes nothing. "
     "The owner's role passes only by offer and acceptance, so the DAO can own the contract made for it.",
     [H, I, F], "all sequences of role operations, weights and holders",
     "Tests check a mint, a burn and a re-weight in isolation; the sum must survive every combination, in particular moves followed by burns.",
     ["contracts/external/cw721-roles/src/contract.rs", VO + "dao-voting-cw721-roles/src/contract.rs"],
     ["contracts/external/cw721-roles/src/contract.rs: execute_mint, execute_burn, execute_transfer, execute_send, execute_update_token_weight"],
     [("MEMBERS", "weight per holder"), ("TOTAL", "sum of all weights"), ("tokens", "owner, role, weight, URI")],
     ["every token, every member's weight, total and past powers after every step"],
     "reference-model monitor over randomized histories",
     "Held on the histories run.")

prop("C21", "Hook receivers hear of every event once; a failing one never harms a vote",
     "Every registered receiver is told of each proposal creation, status change and ballot, and of each stake, unstake and membership change, exactly once, in order and with the right contents; unregistered ones hear nothing, and only the DAO (or the staking contract's owner) registers or removes them. "
     "A proposal or vote hook that fails is removed, without effect on the proposal, the ballot or the other receivers, and a pre-propose module that fails on completion loses its post; a failing stake or membership hook blocks that change entirely, leaving nothing behind.",
     [H, F], "all registrations, failure patterns and event orders",
     "Tests register one hook that works or fails; which receivers are told and which are removed depends on the whole list, on several failures at once and on actions that change the list.",
     ["packages/cw-hooks/src/lib.rs", "packages/dao-hooks/src/proposal.rs", "packages/dao-hooks/src/vote.rs", "packages/dao-hooks/src/stake.rs", "packages/dao-hooks/src/nft_stake.rs", SI + "contract.rs", MU + "contract.rs"],
     ["packages/cw-hooks/src/lib.rs: Hooks", "packages/dao-hooks/src/proposal.rs: proposal_status_changed_hooks, proposal_completed_hooks", SI + "contract.rs: reply"],
     [("PROPOSAL_HOOKS / VOTE_HOOKS / HOOKS", "registered receivers"), ("CREATION_POLICY", "pre-propose module in office")],
     ["what recording receivers got; hook lists and creation policy; proposals and ballots against a twin module whose receivers never fail"],
     "event-log monitor with fault injection and a differential twin",
     "Held on the histories run except for two recorded findings (several failures in one response, and detaching a failing pre-propose module).")

prop("C23", "A DAO counts as active exactly when enough of the asset is staked",
     "With an active threshold, the voting module reports active iff the staked amount is at least the absolute count, or at least the given percentage of the total supply at that moment (any fraction rounding up); without one it is always active. "
     "Only the DAO changes the threshold; impossible ones (zero, above one hundred percent, a count above the supply) are refused at creation and later, and an inactive DAO's single- and multiple-choice modules accept no proposals.",
     [H, I, C], "all stakes, supplies and thresholds, including the exact boundary",
     "Tests place the stake well on one side of the line; rounding at the boundary for arbitrary supplies is what decides.",
     [VO + "dao-voting-token-staked/src/contract.rs", VO + "dao-voting-cw20-staked/src/contract.rs", VO + "dao-voting-cw721-staked/src/contract.rs", VO + "dao-voting-onft-staked/src/contract.rs", PV + "threshold.rs"],
     [PV + "threshold.rs: assert_valid_absolute_count_threshold, assert_valid_percentage_threshold", VO + "dao-voting-token-staked/src/contract.rs: query_is_active"],
     [("ACTIVE_THRESHOLD", "the threshold")],
     ["is_active and active_threshold after every step; acceptance of changes"],
     "exact-arithmetic monitor aimed at boundary percentages",
     "Held on the histories run; a stake within a billionth of a token below the percentage may count, as the contracts compute with nine extra digits.")

prop("C25", "A new voting module starts with exactly what was announced, in the DAO's hands",
     "A voting module created with a new token, collection or group starts with exactly the announced holders and amounts and nothing else, and the DAO ends up as the owner, minter or admin of everything created for it, with no rights left to the creator or to the module beyond what the DAO must first accept. "
     "Creation fails, leaving nothing, for an empty or ineligible distribution, an invalid period or threshold, or a staking contract of another token.",
     [C, I], "all setups: asset kinds, new and existing, distributions, periods and thresholds",
     "Tests create one module of each kind; leftovers and invalid combinations depend on the options chosen together.",
     [VO + "dao-voting-token-staked/src/contract.rs", VO + "dao-voting-cw20-staked/src/contract.rs", VO + "dao-voting-cw721-staked/src/contract.rs", VO + "dao-voting-cw721-roles/src/contract.rs", VO + "dao-voting-cw4/src/contract.rs"],
     [VO + "dao-voting-token-staked/src/contract.rs: instantiate, reply", VO + "dao-voting-cw721-staked/src/contract.rs: reply", VO + "dao-voting-cw20-staked/src/contract.rs: instantiate, reply"],
     [("TOKEN / STAKING_CONTRACT / DENOM / CONFIG", "what the module governs by")],
     ["balances, supply, owners, minters and admins after creation; acceptance of creation"],
     "post-state monitor over randomized setups",
     "Held on the setups run.")

prop("C11", "Every proposal deposit is taken in full and goes where its outcome says",
     "A proposal is accepted through a pre-propose module iff the sender may propose and pays exactly the configured deposit (no more, no less, nothing else). Each deposit leaves the module once: to the proposer or to the DAO, as the refund policy in force at submission says for the way the proposal ended. "
     "Later configuration changes do not alter deposits already taken, deposits of different proposals never mix, only the DAO can withdraw or reconfigure, and nobody but the proposal module can report a completion.",
     [H, I, F], "all payments, policies, configurations and outcomes, with many proposals in flight",
     "Tests follow one deposit through one outcome; mixing, double refunds and changed configurations show only with several deposits and a changing policy.",
     ["packages/dao-pre-propose-base/src/execute.rs", "packages/dao-voting/src/deposit.rs", "packages/dao-voting/src/pre_propose.rs", "contracts/pre-propose/dao-pre-propose-single/src/contract.rs", "contracts/pre-propose/dao-pre-propose-multiple/src/contract.rs", "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs"],
     ["packages/dao-pre-propose-base/src/execute.rs: execute_propose, execute_proposal_completed_hook, execute_withdraw, check_can_submit", "packages/dao-voting/src/deposit.rs: check_native_deposit_paid, get_take_deposit_messages, get_return_deposit_message"],
     [("DEPOSITS", "deposit and proposer per proposal"), ("CONFIG", "deposit and submission policy in force")],
     ["every balance, deposit record, configuration and can_propose answer after every step"],
     "ledger monitor over randomized histories of real DAOs",
     "Held on the histories run; withdrawing deposits that are still owed is the DAO's documented power and excluded.")

prop("C12", "A pre-proposal is decided once, and only as the approver decides",
     "With the approval module nothing becomes a proposal before the approver approves it; then exactly the submitted proposal is created, once, in the name of its proposer. A rejected one never becomes a proposal. Nobody but the approver decides, no pre-proposal is decided twice, and listings and lookups of pending and decided ones are complete. "
     "With an approver DAO, its decision follows the outcome of its own proposal: passed and executed approves, rejected or vetoed rejects.",
     [H, I], "all submissions, decisions, approver changes and outcomes in both DAOs",
     "Tests approve or reject one pre-proposal; repeated, competing and delegated decisions need longer histories over two DAOs.",
     ["contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs", "contracts/pre-propose/dao-pre-propose-approver/src/contract.rs"],
     ["contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs: execute_propose, execute_approve, execute_reject, execute_update_approver", "contracts/pre-propose/dao-pre-propose-approver/src/contract.rs: execute_propose, execute_proposal_completed, execute_reset_approver"],
     [("PENDING_PROPOSALS / COMPLETED_PROPOSALS", "state of each pre-proposal"), ("CREATED_PROPOSAL_TO_COMPLETED_PROPOSAL", "proposal it became")],
     ["every pre-proposal, listing, resulting proposal and balance after every step"],
     "reference-model monitor over randomized histories of two DAOs",
     "Held on the histories run.")

prop("C13", "Rewards accrue exactly by voting power and emission, and stay payable",
     "Whatever happens to voting power, funding, emission rates and time, an address's pending plus claimed rewards of a distribution equal the emission of every moment times its share of voting power at that moment, less at most one token per update, never more; nobody else's actions change what it already earned. "
     "The distributor always holds enough to pay everyone's pending rewards and the undistributed rest; a claim pays exactly what is pending, a withdrawal exactly what is not yet distributed, to the right destination, by the owner only; funding extends or restarts the emission as documented, and only genuine reports of power changes are heard and never blocked.",
     [H, I, C], "all interleavings of power changes, fundings, claims, rate changes and time, and all rates, amounts and powers",
     "Tests integrate a few constant phases by hand; accrual must be exact for arbitrary sequences in which every operation can fall at any moment of an epoch.",
     ["contracts/distribution/dao-rewards-distributor/src/contract.rs", "contracts/distribution/dao-rewards-distributor/src/rewards.rs", "contracts/distribution/dao-rewards-distributor/src/state.rs", "contracts/distribution/dao-rewards-distributor/src/hooks.rs"],
     ["contracts/distribution/dao-rewards-distributor/src/rewards.rs: update_rewards, get_active_total_earned_puvp, get_accrued_rewards_not_yet_accounted_for", "contracts/distribution/dao-rewards-distributor/src/contract.rs: execute_fund, execute_claim, execute_withdraw, execute_update", "contracts/distribution/dao-rewards-distributor/src/state.rs: transition_epoch, get_undistributed_rewards"],
     [("DISTRIBUTIONS", "epochs, funds and rewards per unit of power"), ("USER_REWARDS", "what each address was credited")],
     ["pending_rewards, undistributed_rewards, distribution(s), wallets and holdings after every step"],
     "exact-integral (512-bit) reference monitor over randomized histories on real voting modules",
     "Held on the histories run except for one recorded finding (instant rewards in the block of a power change).")

prop("C14", "Stakers earn external rewards exactly by stake and schedule, fully payable",
     "An external-rewards contract pays each staker, for every block of a reward period, the period's rate times its share of the stake at that block, less at most rounding; what it already earned never changes through others' actions, and every later-paid or pending reward plus the undistributed rest is covered by the contract's holdings. "
     "Funding starts a period at rate amount over duration and refuses to overlap it or to lose money, only the owner configures and funds only by the owner count, and only the staking contract's own reports of stake changes are heard. "
     "A reward distributor sends exactly its rate times the blocks since the last payment, or all it has when that is less, to the staking contract and nobody else, and its owner can withdraw the rest.",
     [H, I, C], "all interleavings of stakes, fundings, claims, distributions, blocks and amounts",
     "Tests follow one or two hand-computed timelines; per-block accrual must be exact when stakes, fundings and claims fall anywhere, including the first and last block of a period.",
     ["contracts/staking/cw20-stake-external-rewards/src/contract.rs", "contracts/staking/cw20-stake-external-rewards/src/state.rs", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs"],
     ["contracts/staking/cw20-stake-external-rewards/src/contract.rs: execute_fund, update_rewards, get_reward_per_token, get_last_time_reward_applicable, execute_claim", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs: get_distribution_msg, execute_update_config, execute_withdraw"],
     [("REWARD_CONFIG", "period end, rate and duration"), ("USER_REWARD_PER_TOKEN, PENDING_REWARDS", "what each staker was credited")],
     ["info, pending rewards, wallets and contract holdings after every step"],
     "exact-integral reference monitor over randomized histories on a real staking pool",
     "Held on the histories run. Stakes come from the real cw20-stake; changing the distributor's configuration restarts its clock without paying, as the code's tests do.")

prop("C15", "A fund distributor pays each member its share of power at one height",
     "Tokens can be added to a fund distributor only during its funding period and claimed only after it. Then an address can claim, of every token added, in the end exactly its share (rounded down) of the voting power at the distribution height, once: claiming again yields nothing, nobody's claim changes another's entitlement, and all entitlements together never exceed what the contract holds. "
     "Power that changes after the height is irrelevant. Only the contract's admin can redistribute, which makes exactly the unclaimed rest claimable anew, by the power at the given height.",
     [H, I, C], "all powers at any height, tokens, amounts and orders of funding, claims and redistributions",
     "Tests claim once or twice at one ratio; the shares must add up for every ratio, every order of late funding and partial claims and every change of the DAO's membership around the height.",
     ["contracts/distribution/cw-fund-distributor/src/contract.rs", "contracts/distribution/cw-fund-distributor/src/state.rs"],
     ["contracts/distribution/cw-fund-distributor/src/contract.rs: get_relative_share, get_entitlement, execute_claim_cw20s, execute_claim_natives, execute_redistribute_unclaimed_funds"],
     [("TOTAL_POWER, DISTRIBUTION_HEIGHT", "the electorate that shares"), ("CW20_CLAIMS, NATIVE_CLAIMS", "what each address claimed of each token")],
     ["entitlement, token listing and balance queries, wallets after every step"],
     "exact reference-ledger monitor over randomized histories on real voting modules",
     "Held on the histories run. Junk cw20 tokens (anyone can register one, and collective claims then fail) are not generated.")

prop("C16", "A vesting payment releases exactly what its schedule has vested",
     "At every moment a vesting contract has paid, and can pay, the recipient no more and no less than its schedule has vested (interpolated exactly, monotone, from nothing before the start to the total at the end), never twice. "
     "Cancellation, by the owner only, fixes the total at what had vested: the owner gets the unvested rest at once, the recipient what was vested, now or later. "
     "A payment is funded once, with exactly its tokens; nobody but the recipient's payout and the owner's cancellation ever takes tokens out; anyone may trigger a distribution but it always goes to the recipient; in the end every token of the vest has been paid to one of them.",
     [H, I, C], "all schedules, totals up to 2^126, times, and orders of distribution, cancellation and ownership change",
     "Tests check fixed points of a few schedules; payouts must be exact at every second of every schedule and in every order with cancellation and funding.",
     ["contracts/external/cw-vesting/src/contract.rs", "contracts/external/cw-vesting/src/vesting.rs", "contracts/external/cw-vesting/src/state.rs", "packages/cw-wormhole/src/lib.rs"],
     ["contracts/external/cw-vesting/src/vesting.rs: Vest::vested, into_curve, distribute, distributable, cancel", "contracts/external/cw-vesting/src/contract.rs: execute_receive_cw20, execute_distribute, execute_cancel_vesting_payment"],
     [("vesting", "schedule, total, claimed, status"), ("UNBONDING_DURATION_SECONDS", "only relevant to C17")],
     ["info, vested, distributable and duration queries; wallets and holdings after every step"],
     "exact-arithmetic reference monitor over randomized histories with boundary times",
     "Held on the histories run. cw20 tokens are honest ones.")

prop("C17", "Staking vesting tokens never lets anyone lose or gain unvested tokens",
     "Tokens of a vest can be staked by the recipient (with vested and unvested tokens alike, but only what is liquid), and the contract's record of what is bonded, unbonding and with how many validators, at any past, present or future time, matches the chain as long as slashes are registered. "
     "Staked or unbonding tokens are never counted as payable, slashes reduce what can be paid and are borne as documented, the recipient gets all staking rewards before cancellation and the owner after it. "
     "After cancellation only undelegating and withdrawing remain, the owner can be paid only its unvested rest and the recipient only what had vested, and everything is payable when all has unbonded.",
     [H, I, C, F], "all interleavings of staking operations, slashes, late registrations, cancellation and time",
     "Tests register one slash or cancel once; the record must stay consistent through every order of delegations, unbondings, slashes and payouts.",
     ["contracts/external/cw-vesting/src/contract.rs", "contracts/external/cw-vesting/src/vesting.rs", "packages/cw-stake-tracker/src/lib.rs", "packages/cw-wormhole/src/lib.rs"],
     ["packages/cw-stake-tracker/src/lib.rs: on_delegate, on_undelegate, on_redelegate, on_bonded_slash, on_unbonding_slash", "contracts/external/cw-vesting/src/vesting.rs: Vest::liquid, register_slash, on_delegate, cancel, withdraw_canceled", "contracts/external/cw-vesting/src/contract.rs: execute_delegate, execute_undelegate, execute_withdraw_delegator_reward, execute_register_slash", "packages/cw-wormhole/src/lib.rs: increment, decrement, dangerously_update, load"],
     [("staking", "history of staked totals, per validator and how many"), ("vesting", "claimed, slashed, status")],
     ["stake-history queries at past, present and future times, distributable, holdings and the chain's delegations after every step"],
     "exact-history reference monitor with fault injection (slashes, late registration) on a staking stand-in",
     "Held on the histories run except for one recorded finding (unbonding slashes that overlap other recorded changes). The chain's staking module is cw-multi-test's plus a slash stand-in.")

prop("C18", "A token swap completes for both parties or not at all",
     "Each counterparty can only deposit exactly what it promised, once, and until both have, each can take back exactly what it deposited and nobody else anything. "
     "In the very transaction in which the second deposit arrives both promised amounts go to the other side, after which nothing can be withdrawn or deposited any more. "
     "Wrong amounts, tokens, senders or forged cw20 notices are refused, and a party never loses its tokens without getting the other's.",
     [H, I], "all kinds and amounts of tokens and orders of deposits, withdrawals and forgeries",
     "Tests walk the happy path and single refusals; atomicity must survive every order of deposits, withdrawals and re-deposits and every combination of token kinds.",
     ["contracts/external/cw-token-swap/src/contract.rs", "contracts/external/cw-token-swap/src/state.rs"],
     ["contracts/external/cw-token-swap/src/contract.rs: do_fund, execute_fund, execute_receive, execute_withdraw"],
     [("COUNTERPARTY_ONE, COUNTERPARTY_TWO", "promise and whether provided")],
     ["status query, everybody's holdings of every token after every step"],
     "ledger monitor over randomized histories with forged and misdirected deposits",
     "Held on the histories run. cw20 tokens are honest ones.")

prop("C19", "A token issuer enforces its allowances, freezes and lists on every path",
     "Tokens come into being only through a minter with a remaining mint allowance, which shrinks by exactly that amount, and disappear only through a burner's; only the owner sets allowances, freezes, lists, hook, metadata, admin and ownership, and can force transfers. "
     "With its before-send hook set, while frozen nothing is transferred or minted unless the sender (minter) or the receiver is allowlisted, nothing is ever transferred from or to a denylisted address, and everybody else's transfers go through. "
     "Every query reports exactly what the transactions established.",
     [H, I, C], "all interleavings of allowances, list changes, freezes, hook changes, mints, burns and transfers",
     "Tests try each gate once; an allowance or a freeze is only worth something if no sequence of grants, lists, hooks and transfers gets around it.",
     ["contracts/external/cw-tokenfactory-issuer/src/execute.rs", "contracts/external/cw-tokenfactory-issuer/src/hooks.rs", "contracts/external/cw-tokenfactory-issuer/src/helpers.rs", "contracts/external/cw-tokenfactory-issuer/src/contract.rs"],
     ["contracts/external/cw-tokenfactory-issuer/src/execute.rs: mint, burn, force_transfer, set_before_send_hook, freeze, deny, allow", "contracts/external/cw-tokenfactory-issuer/src/hooks.rs: beforesend_hook", "contracts/external/cw-tokenfactory-issuer/src/helpers.rs: check_is_not_denied, check_is_not_frozen"],
     [("MINTER_ALLOWANCES, BURNER_ALLOWANCES", "remaining allowances"), ("DENYLIST, ALLOWLIST, IS_FROZEN", "transfer rules")],
     ["every query, every balance, the supply and the chain's admin and hook records after every step"],
     "exact reference-model monitor over randomized histories on a tokenfactory stand-in with send hooks",
     "Held on the histories run. The tokenfactory module is a stand-in that enforces admin and calls the before-send hook as Osmosis does.")

prop("C24", "Factories create exactly what was asked, owned and funded as asked",
     "A payroll factory creates vesting contracts for anyone, or only for its owner when it has one, each with the configured code, administered by the payment's owner and funded at once with exactly the tokens its creator sent for it: payments whose denom or amount is not what was sent are refused, and tokens lying at the factory are never touched. "
     "Its listings name every payment exactly once, in either order, by instantiator or recipient, at most 10 per page unless asked for up to 50. "
     "An admin factory makes each contract it creates its own admin, for its admin only when it has one, passes the funds on, and fails if the address is not the expected one, however creations nest. "
     "The fantoken factory mints exactly the initial balances and leaves the DAO, and nobody else, as minter and authority.",
     [H, I, C], "all requests, right or wrong, orders, owners and nestings",
     "Tests create one contract per factory and check a few refusals; forged or mismatched requests, nested creations and paging need every combination.",
     ["contracts/external/cw-payroll-factory/src/contract.rs", "contracts/external/cw-payroll-factory/src/state.rs", "contracts/external/cw-admin-factory/src/contract.rs", "contracts/external/cw-admin-factory/src/state.rs", "contracts/external/btsg-ft-factory/src/contract.rs", "contracts/voting/dao-voting-token-staked/src/contract.rs"],
     ["contracts/external/cw-payroll-factory/src/contract.rs: execute_receive_cw20, instantiate_contract, reply, query", "contracts/external/cw-admin-factory/src/contract.rs: instantiate2_contract, reply", "contracts/external/btsg-ft-factory/src/contract.rs: execute_issue, reply"],
     [("vesting_contracts", "who created what for whom"), ("EXPECT", "addresses expected of creations in progress")],
     ["every listing and ownership query, each created contract's admin, code, configuration and funds, the chain's fantoken records, after every step"],
     "reference-model monitor over randomized histories with forged, mismatched and nested requests",
     "Held on the histories run. The fantoken module is a stand-in; a malicious cw20 contract may name any sender for its own worthless tokens.")

prop("C26", "Migration preserves state, powers, deposits, claims and behaviour",
     "Migrating a contract from an earlier release, or to the code it already runs, changes no answer it gave: proposals, ballots, tallies, thresholds, expirations, configuration, hooks, items, token lists, staked balances past and present, pending claims, deposits and pending rewards are as before, "
     "and from then on it answers every query and message, tells its hooks and pays out as a contract that ran the current code all along. It works at any point of a contract's life, including before its first use. "
     "A migration meant for another release, or one that would lose outstanding proposal deposits, is refused and changes nothing.",
     [H, I, S], "all histories before and after, all migration points, releases and configurations",
     "Tests migrate one hand-made state and look at a few fields; losing or misreading state that only some histories have, or behaving differently long after, needs twin worlds over many histories.",
     ["contracts/dao-dao-core/src/contract.rs", "contracts/proposal/dao-proposal-single/src/contract.rs", "contracts/proposal/dao-proposal-multiple/src/contract.rs", "packages/dao-pre-propose-base/src/execute.rs", "contracts/staking/cw20-stake/src/contract.rs", "contracts/staking/cw20-stake-external-rewards/src/contract.rs",
      "contracts/staking/cw20-stake-reward-distributor/src/contract.rs", "contracts/voting/dao-voting-cw20-staked/src/contract.rs", "contracts/voting/dao-voting-token-staked/src/contract.rs", "contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-cw4/src/contract.rs", "contracts/distribution/dao-rewards-distributor/src/contract.rs"],
     ["contracts/dao-dao-core/src/contract.rs: migrate", "contracts/proposal/dao-proposal-single/src/contract.rs: migrate", "contracts/staking/cw20-stake/src/contract.rs: migrate", "packages/dao-pre-propose-base/src/execute.rs: migrate"],
     [("contract_info", "the release the storage was written by"), ("all storage", "must be readable by, and mean the same to, the current code")],
     ["every query before and after; message outcomes, hook notices and balances of the migrated world and its never-migrated twin"],
     "twin-world differential monitor over randomized histories against the published earlier releases",
     "Held on the histories run. dao-migrator (v1 DAO to v2 in one message) is not exercised: its git dependencies cannot be built offline.")

#MORE

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"where": m.split(": ", 1)[0], "name": m.split(": ", 1)[1]} for m in p["mechanism"]],
                    "state": [{"name": a, "meaning": b} for a, b in p["state"]],
                    "observe_at": p["observe"],
                },
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["ready"] is True:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"bash tools/check.sh {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough bash tools/check.sh {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "runtime monitoring: " + p["tech"],
                "level": "exploration",
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": p["ready"] or "the monitor for it is not built yet"})
    json.dump({
        "version": 1,
        "setup_cmd": "bash tools/setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every monitored fact is observable through messages, queries, balances and replies. "
                 "The checks compile /repo's packages from a copy in .build/ws (tools/mkws.py), because /repo's own manifests cannot be resolved offline.",
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
