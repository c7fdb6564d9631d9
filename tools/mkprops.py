"""writes /verif/properties.jsonl"""
import json
P=[]
def p(id,title,st,over,text,why,files,mech,state,obs,hook=False):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b) for a,b in state],observe_at=obs,hook_needed=None)))
PR="src/state/process.rs"; SM="src/smr/state_machine.rs"; PA="src/state/parallel.rs"; CO="src/state/collection.rs"; AM="src/utils/auth_manage.rs"; TI="src/timer.rs"; CD="src/codec.rs"; WT="src/wal/wal_type.rs"; TY="src/types.rs"
API="the application, network and WAL trait calls of a node, and the messages handed to it"
p("C01","Agreement: no two honest nodes commit different blocks at one height",
 "As long as validators with less than one third of the vote weight misbehave, no two correct validators (including one validator across its own crashes and restarts) ever hand different blocks to the application for the same height. This holds whatever the network delays, drops, duplicates or reorders, and whatever conflicting messages the misbehaving validators sign.",
 ["schedules","fault_sequences","crash_points","histories"],"all message schedules, byzantine messages, crash/restart points and timer races of up to one third faulty weight",
 "The integration tests run honest in-process nodes with random delays for a few heights; they contain no equivocating validator and sample a handful of schedules.",
 [SM,PR],[("lock / unlock rule and vote choice",SM+": handle_proposal, handle_prevote, update_polc"),("vote counting and certificate building",PR+": counting_vote, generate_qc"),("commit",PR+": handle_commit")],
 [("lock","the block and round a validator is bound to"),("persisted record","what survives a crash")],[API,"blocks handed to the application by every node of a simulated cluster"])
p("C02","Every commit carries a valid more-than-2/3 certificate for exactly that block",
 "Whenever a node hands a block to the application as committed, the accompanying proof names that height and that block, and carries precommits of current validators whose weight is strictly more than two thirds of the total, verifiable with the public signature scheme and voter bitmap. The content handed over is the content the application itself accepted for that height and hash.",
 ["inputs","histories","configurations"],"all validator sets and weights, and all message histories including forged, truncated and sub-quorum certificates and reused block names",
 "Tests use equal weights and honest certificates; nothing forges a certificate, varies weights or supplies two contents under one hash.",
 [PR,PA,AM,CO],[("certificate verification",PA+": verify_qc"),("threshold",AM+": is_above_threshold"),("proof",PR+": handle_commit")],
 [("authority","validators and weights of the current height"),("verified blocks","contents accepted by the application")],["the commit call of the application interface and every earlier message and check result"])
p("C03","Only authenticated messages of current validators affect a node",
 "A proposal, vote, choke or certificate influences what a node votes, persists, sends, or commits only if its signature (or aggregate signature with a more-than-2/3 bitmap) is valid for the content and comes from current validators, and a proposal only if it comes from the leader of its height and round. This includes certificates nested in other messages and messages that arrived before the node reached their height.",
 ["inputs","histories","schedules"],"all forged, re-attributed, truncated, nested and early messages, in every order relative to height changes",
 "Tests mock the crypto so that every signature verifies, so no forged message exists in them.",
 [PA,PR],[("signature verification",PA+": parallel_verify, verify_qc"),("membership and proposer checks",PR+": verify_address, verify_proposer"),("re-verification at a new height",PR+": re_check_*")],
 [("verified queue","messages that passed verification")],[API])
p("C04","A correct node never equivocates, even across crashes",
 "A node never signs two different votes of the same type for one height and round, nor two different proposals for one height and round, in any execution including any number of crashes and restarts from what it had persisted.",
 ["crash_points","schedules","histories"],"all schedules of messages, timeouts, application delays, WAL failures and crash points",
 "WAL tests stop nodes at random moments and only look at progress; no test compares all signatures a node ever released.",
 [PR,SM,WT],[("step guards",SM+": handle_proposal, handle_prevote"),("persist then send",PR+": handle_vote_event"),("recovery",PR+": start_with_wal")],
 [("step","how far the node went in the round"),("persisted record","height, round, step, lock")],["all messages sent by the node over all of its incarnations"])
p("C05","Locked validators only vote for their locked block until a newer certificate",
 "After precommitting a block, a validator prevotes and precommits only that block (or abstains on precommit with an empty vote) at that height, until it has seen a more-than-2/3 prevote certificate of a later round for another block or for the empty value, or a proposal carrying such a certificate. The obligation survives crash and restart.",
 ["histories","schedules","crash_points"],"all multi-round histories with competing proposals, proof-of-lock proposals, chokes, timeouts and restarts",
 "No test drives a node through several rounds with competing proposals; the unit tests do not cover locking.",
 [SM,PR],[("lock update",SM+": update_polc, handle_proposal"),("proposal proof-of-lock check",PR+": handle_signed_proposal")],
 [("lock","locked hash and round")],["votes sent, certificates and proposals received, over all incarnations"])
p("C06","A block is precommitted only with a quorum of prevotes and an application check",
 "A validator signs a non-empty precommit only if it holds a verified more-than-2/3 prevote certificate for that block at that height (of the vote's round; or of the round directly before it, if it came to the vote's round with that certificate and prevoted nothing else there) and, unless it restarted with that lock, the application has accepted the block at that height.",
 ["inputs","histories","schedules"],"all orders of proposals, certificates, slow and failing block checks and round changes",
 "Tests' applications accept every block immediately; certificates always arrive after proposals.",
 [PR,SM],[("block check gate",PR+": try_get_full_txs, handle_resp"),("prevote certificate handling",SM+": handle_prevote")],
 [("check results","blocks accepted by the application at this height")],["check_block results, certificates received or built, precommits sent"])
p("C07","State is persisted before anything that depends on it is sent",
 "Every vote, choke and commit is preceded by a successful WAL write of the same height, round and step (with the lock it depends on), and if that write fails the vote or choke is not sent and the block is not committed. Entering a round or height is persisted before the node proposes in it.",
 ["crash_points","fault_sequences","schedules"],"all interleavings with WAL failures, delays and crashes at every interface call",
 "The tests' WAL never fails and no test observes the order between WAL writes and messages.",
 [PR,WT],[("write-ahead",PR+": save_wal, save_wal_with_lock_round, handle_vote_event, handle_brake, handle_commit")],
 [("persisted record","height, round, step, lock, reason of entering the round")],["order of WAL writes and outgoing messages"])
p("C08","Recovery restores exactly the persisted position",
 "A restarted node resumes at the height, round, step and lock it last persisted: it takes no step it had already passed, keeps its lock, re-announces its stall if it was stalled, completes an interrupted commit with the same block and proof, and then continues with the timeout of the step it is in. Without any record it starts at the configured height, waiting.",
 ["crash_points","histories"],"every crash point and every persisted record, including locks, every step and every kind of round-entry reason",
 "The WAL tests restart nodes but check only that the chain goes on growing.",
 [PR,SM,WT],[("recovery",PR+": start_with_wal, load_wal"),("state machine recovery",SM+": handle_wal, set_timer_after_wal")],
 [("persisted record","what was saved last")],[API])
p("C09","Heights are committed in order, at most once per run",
 "While its storage works, within one run a node hands each height to the application at most once successfully, in strictly increasing height order, and always the height it is working on; after the application acknowledged a commit the node works on the height the application reported. A commit interrupted by a crash is re-delivered after restart with the same block, never with another one.",
 ["schedules","crash_points","histories"],"all orders of duplicate certificates, late check results, status messages, application errors and crashes around a commit",
 "Tests only compare committed blocks of well-behaved runs.",
 [PR,SM],[("commit",PR+": handle_commit"),("new height",PR+": goto_new_height"),("commit step guard",SM+": handle_precommit")],
 [("height","height being decided")],["commit calls and their results"])
p("C10","Leader rotation is deterministic and only the leader proposes",
 "For every validator list (in any order), height and round the leader is the same function everywhere: position (height x largest prime below the list length + round) modulo the length in the address-sorted list, and the public leader helper agrees with what nodes do. A node proposes only in rounds it leads, sends its votes to the leader of the round, and acts only on proposals of the leader.",
 ["inputs","configurations"],"all validator lists, orders, heights and rounds up to the maximum integer",
 "No test covers rotation values, large heights, list order or the public helper.",
 [AM,PR],[("rotation",AM+": rotation_leader_index, get_leader, get_proposer"),("proposer check",PR+": is_proposer, verify_proposer")],
 [("authority","sorted validator list")],["get_leader results; proposals broadcast; targets of transmitted votes"])
p("C11","A locked leader re-proposes its locked block with its proof of lock",
 "A leader that is locked proposes exactly the locked block and content together with the prevote certificate that locked it; an unlocked leader proposes the block the application supplies for that height. A proposal carrying a proof of lock is followed only if that proof is a valid certificate for the proposed block, of an earlier round of the same height, as declared.",
 ["histories","inputs"],"all lock histories before a node becomes leader and all combinations of proof fields in received proposals",
 "No test reaches a round in which a locked node is leader, nor a proposal with an inconsistent proof.",
 [PR,SM],[("proposing",PR+": handle_new_round"),("proof check",PR+": handle_signed_proposal")],
 [("lock","locked block, round, certificate")],["proposals broadcast and reactions to proposals with a proof of lock"])
p("C12","Rounds only move forward and only on quorum evidence",
 "Within a height the round of a node never decreases, and it enters a round above zero only because of a verified certificate of the round it leaves behind (prevote, empty precommit or stall certificate of more than two thirds), which it then quotes truthfully in its persisted record and stall messages.",
 ["inputs","histories","schedules"],"all histories of certificates, stall messages and timeouts, genuine or forged",
 "Tests have no stalled rounds, so round changes are hardly exercised.",
 [SM,PR],[("round change",SM+": handle_prevote, handle_precommit, handle_continue_round"),("evidence",PR+": set_update_from")],
 [("round","current round"),("reason","certificate that justified entering the round")],["persisted records, votes and chokes sent"])
p("C13","No wedge: a correct quorum with a timely network keeps committing heights",
 "Whatever happened before (lost messages, crashes, competing proposals, failed proposals), once correct validators with more than two thirds of the weight run and their messages arrive in time, every one of them eventually commits new heights. A single node with consensus power, whose application and storage work, never stays silent forever: it keeps asking for progress.",
 ["schedules","fault_sequences","crash_points","histories"],"all prefixes of faulty behaviour followed by a synchronous period; all states a single node can be driven into",
 "Integration tests show progress only on friendly schedules and cannot put nodes into arbitrary reachable states.",
 [SM,PR,TI],[("timeouts in every step",TI+": set_timer"),("brake retransmission",SM+": handle_brake_timeout")],
 [("step and timers","every step has a pending timeout")],["commits of a simulated cluster after faults stop; periodic chokes of an isolated node"])
p("C14","Certificates are built only from a quorum of distinct, matching votes",
 "A node broadcasts a certificate only when it holds votes of the same type, height, round and hash from distinct validators whose weight is strictly more than two thirds; its bitmap marks exactly those validators in sorted order, its signature aggregates exactly their votes, and the public voter extraction returns them. Each validator's first vote counts and repeats or conflicting later votes do not.",
 ["inputs","configurations","histories"],"all vote multisets, duplicates, conflicts, orders and weight distributions including extreme weights",
 "The collector test inserts random votes but never checks weights, bitmaps or extraction.",
 [PR,CO,AM],[("counting",PR+": counting_vote"),("building",PR+": generate_qc"),("extraction",AM+": extract_voters, get_voters")],
 [("votes","first vote per validator, type, height, round")],["certificates broadcast; votes received; extract_voters results"])
p("C15","Synchronisation: a newer status moves the node, early messages are used then",
 "A status for a higher height moves the node to that height with the validators, interval and timing it states; equal or lower ones change nothing. Messages for the next heights that arrived early are kept (within the documented window), verified against the validators of their height when the node gets there, and then take effect as if they had just arrived.",
 ["histories","schedules","inputs"],"all orders of status messages, commits and early messages relative to height changes",
 "No test checks the use of early messages or the effect of outdated status messages.",
 [PR,CO],[("new height",PR+": goto_new_height, re_check_*"),("early message caches",CO)],
 [("height","current height"),("caches","early proposals, votes, certificates")],[API])
p("C16","A node without consensus power is silent, and rejoins when readmitted",
 "While a node is not in the validator list of its height it sends no proposal, vote, stall message or certificate, persists nothing and commits nothing; when a status lists it again, it takes part from that height on. Validator changes take effect exactly at the height the application announced them for.",
 ["histories","configurations"],"all sequences of validator set changes by status and by commit, including removal and readmission of the node itself",
 "Tests change weights of a fixed set; a node is never removed or readmitted.",
 [PR,AM],[("membership",PR+": goto_new_height, handle_msg"),("list update",AM+": update")],
 [("consensus power","whether the node is a validator at its height")],[API])
p("C17","No message crashes a node; outdated and far-future messages are ignored",
 "No message from the network, whatever its fields, panics or stops the node (status and stop messages come from its own application). Messages for past heights, past rounds (except a decision for the current height), more than 5 heights ahead or more than 10 rounds ahead have no effect on what the node does, and they are not kept in memory; what was kept of a height is released once the node has moved past it.",
 ["inputs","histories"],"all field values including maximal integers, empty and oversized fields, unknown tags",
 "Tests send well-formed messages near the current height only.",
 [PR,CD,AM],[("filter",PR+": filter_message, filter_signed_proposal"),("arithmetic",AM+": rotation_leader_index")],
 [("height, round","current position")],["panics, all outputs after such messages, number of signatures and block contents still allocated"])
p("C18","Timeouts follow the configured ratios with exponential back-off",
 "Each step times out after interval x its configured ratio / 10, doubled per round up to 2^5 except for the stall step which repeats at a constant period; new interval or ratios of a status apply from that height on. A leader of the next height that committed early waits for the rest of the block interval, nobody else waits.",
 ["configurations","histories","schedules"],"all intervals, ratio configurations, rounds and changes of both by status",
 "Timer tests check which trigger fires, not when, nor back-off or reconfiguration.",
 [TI,"src/utils/timer_config.rs",PR],[("timeouts",TI+": set_timer"),("ratios","src/utils/timer_config.rs"),("pacing",PR+": handle_commit")],
 [("interval, config","current timing parameters")],["virtual time of every action the node takes on timeout"])
p("C19","Stop ends the node cleanly in any state",
 "A stop message makes the node finish: run returns, and no message is sent, nothing is persisted and nothing is committed after it took effect, in whatever state the node is, including when it has no consensus power. It never panics.",
 ["schedules","histories"],"stop at every point of every history",
 "Tests stop nodes by aborting tasks; the stop message is not exercised.",
 [PR,SM,TI],[("stop",PR+": run, handle_msg; "+SM+": poll_next; "+TI+": poll_next")],
 [("stopped","stop requested")],["return of run, outputs after a stop"])
p("C20","Wire and WAL encodings are unambiguous, stable and total",
 "Encoding then decoding any message, certificate, status or WAL record yields an equal value (a status without interval or timer configuration equals one with zeros), and the bytes are the documented RLP layout (field order, tags), so signatures and records interoperate between nodes and versions. Decoding arbitrary bytes yields a value or an error, never a panic.",
 ["inputs"],"all values of all message types with optional parts present or absent and extreme integers; all byte strings",
 "Round-trip tests cover random values with fixed shape; no test fixes the byte layout or decodes malformed input.",
 [CD,WT,"src/serde_hex.rs","src/serde_multi_hex.rs"],[("RLP",CD),("hex serialisation","src/serde_hex.rs, src/serde_multi_hex.rs")],
 [],["bytes produced and values decoded by the public codec"])
p("C21","Round changes are reported with the true reason",
 "Each time a node leaves a round without deciding, it reports exactly once the height, the round it leaves and why: a higher certificate it followed (with both rounds), or for the same round the first missing item among proposal, successful block check, prevote certificate, precommit certificate, or, as leader, which votes were too few.",
 ["histories","schedules"],"all ways of leaving a round combined with everything that may or may not have arrived",
 "No test looks at these reports.",
 [PR,"src/smr/smr_types.rs"],[("reason",PR+": view_change_reason; src/smr/smr_types.rs: to_reason")],
 [("received items","proposal, check result, certificates of the round")],["report_view_change calls"])
p("C22","A stalled round is left through a quorum of chokes, and only then",
 "After prevote and precommit timeouts a node broadcasts a signed choke for its height and round and repeats it until it leaves the round; it leaves because of chokes only if more than two thirds of the validators choked on that round or a later one, or someone proves that they did. A node lagging behind follows the verified certificate carried by a choke of a later round.",
 ["schedules","fault_sequences","inputs"],"all sets and orders of chokes of equal, earlier and later rounds with any carried certificate, genuine or forged",
 "No test contains a choke message.",
 [PR,SM,CO],[("choke handling",PR+": handle_brake, handle_signed_choke, handle_aggregated_choke, check_choke_above_threshold"),("round change",SM+": handle_continue_round, handle_brake_timeout")],
 [("chokes","chokes per round, one per validator")],["chokes sent and round changes after received chokes"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
