#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python for readability)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Only authentic gossip objects verify",
 "A gossip object verifies if and only if its signature was made, with the key of the signer it names, over exactly the statement (entity, kind, period, content) it presents, and loggers and CAs only speak for themselves. Altering the type, period, entity, content, signer or signature, signing with another key, moving bytes between fields or reusing a signature for another kind of object makes it invalid; every object an honest entity produces verifies.",
 ["inputs"],"all objects of every type reachable from an honestly produced object by combinations of field alterations, re-signing with other (known or unknown) keys and signature grafting",
 "definition/TestVerify is empty; the crypto tests only verify honestly made signatures, never an altered field or a grafted signature.",
 ["definition/Verify.go","crypto/crypto_config.go","crypto/rsa.go","crypto/bls.go","crypto/types.go","Logger/server.go","CA/ca.go","monitor/monitor.go"],
 [("Gossip_object.Verify","definition/Verify.go"),("CryptoConfig.Verify/FragmentVerify","crypto/crypto_config.go")],
 observe=["verdict of verification at every entity"])

p("C02","Conflict proofs are sound",
 "A conflict proof against an entity verifies if and only if it contains two different statements of the same kind and the same period, each validly signed by that entity itself. Hence no conflict proof can be fabricated against an entity that signed at most one statement per kind and period.",
 ["inputs","histories"],"all pairs of statements (any kind, period, entity, content), all signatures over them, all labels of the proof",
 "no test builds a conflict proof from anything but two conflicting honest objects, so false accusations are never tried.",
 ["definition/Verify.go","gossiper/gen.go"],
 [("Verify_CON","definition/Verify.go"),("Generate_CON_INIT","gossiper/gen.go")],
 observe=["verdict of verification","conflict proofs gossipers emit"])

p("C03","Equivocation is always detected and published",
 "A gossiper that receives two different valid statements of one logger or CA of the same kind and period, in any order, on any route, from any sender and even at the same time, produces exactly one valid conflict proof, sends it to every peer and to its monitor and treats the entity as blacklisted. It also stores, relays and forwards a valid conflict proof that it receives.",
 ["histories","schedules"],"all sequences and interleavings of deliveries of conflicting and repeated statements",
 "one integration run has one misbehaving logger with one timing; concurrent handling of the two statements and other orders are never exercised.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go","gossiper/gen.go"],
 [("IsMalicious / Handle_*_INIT","gossiper/gossiper_server.go"),("Store_gossip_object","gossiper/Interface.go")],
 [("STH_INIT, REV_INIT, CON_INIT","what the gossiper holds per entity and period","gossiper/types.go")],
 ["messages sent to peers and monitor"])

p("C04","A proven-misbehaving entity is shut out for good",
 "Once a gossiper holds a conflict proof or a threshold accusation against an entity it never again signs, relays or forwards any statement, fragment or threshold object of that entity, including a fragment whose waiting time was already running, in that period and in every later one. (Answering a peer's explicit request for a revocation statement it already holds is not relaying.)",
 ["histories","schedules"],"all histories in which the proof arrives before, during or after the entity's objects, over several periods",
 "no test continues past the period in which a proof is made, nor delivers objects of a blacklisted entity.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go"],
 [("InBlacklistPerm check in Handle_Gossip_object and in the delayed signing","gossiper/gossiper_server.go")],
 [("BLACKLIST_PERM","entities with a proof","gossiper/types.go")],["messages sent to peers and monitor"])

p("C05","Threshold objects are issued exactly at T matching signers",
 "A gossiper hands its monitor a threshold object for a statement exactly once, as soon as and only after it holds valid fragments on that very statement from T different gossipers, in whatever order fragments, duplicates, invalid fragments and fragments on other statements arrive; the object verifies everywhere. Every new valid fragment below the threshold is relayed to every peer exactly once.",
 ["histories","schedules"],"all sequences and interleavings of valid, duplicate, invalid and conflicting fragments, for every threshold",
 "TestFragHandler feeds a few valid fragments in one order and only counts; duplicates by one signer, mixed payloads and concurrency are untested.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go","gossiper/gen.go","crypto/bls.go"],
 [("Handle_OBJ_FRAG, Read_and_Store_If_Needed","gossiper/gossiper_server.go, gossiper/Interface.go"),("Generate_Gossip_Object_FULL","gossiper/gen.go")],
 [("STH_FRAG, REV_FRAG, ACC_FRAG","fragments held","gossiper/types.go")],["messages to peers and monitor"])

p("C06","Threshold objects need T different known signers",
 "A threshold object verifies if and only if its aggregate signature was made over the statement it presents by at least T different gossipers listed in the configuration, and it names exactly those. Unknown signers, a signer counted twice, missing or foreign contributions never make up for a missing signer.",
 ["inputs","configurations"],"all lists of signer names (known, unknown, repeated, missing) against all sets of actual contributions, for every threshold",
 "crypto tests aggregate the full set of honest signers once.",
 ["crypto/crypto_config.go","crypto/bls.go","definition/Verify.go"],
 [("ThresholdVerify, ThresholdAggregate","crypto/crypto_config.go, crypto/bls.go")],observe=["verdict of verification"])

p("C07","Gossip converges and terminates",
 "When a valid statement of an entity that does not equivocate is handed to any one gossiper of a connected network, every gossiper relays it, hands it to its monitor once, and after the gossip waiting time every monitor receives a threshold object for it, whatever the order and delay of messages. An equivocation seen by any gossiper reaches every gossiper and monitor, and message traffic always dies out. (Revocation statements: provided they spread faster than the gossip waiting time.)",
 ["schedules","configurations"],"all delivery orders of the messages in flight, all connected topologies and thresholds in bounds",
 "the integration test runs one topology with one (real time) schedule.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go"],
 [("Send_to_Gossipers, Send_to_Monitor, payload notification/request","gossiper/gossiper_server.go")],observe=["messages at monitors"])

p("C08","Bad input never harms a process",
 "No request to an endpoint of a gossiper, monitor, logger or CA - malformed, forged, wrongly typed, out of period or from an unknown party - makes the process exit, abort the request by a panic, stop answering or change how it handles later valid requests.",
 ["inputs","histories"],"all endpoints times a catalogue of malformed and forged bodies, at every point of a history",
 "tests never send a malformed or forged body to any endpoint.",
 ["gossiper/gossiper_server.go","monitor/monitor.go","monitor/client-update-monitor.go","Logger/server.go","CA/server.go"],
 [("request handlers","gossiper/gossiper_server.go, monitor/monitor.go, Logger/server.go, CA/server.go")],observe=["HTTP status, process liveness, later behaviour"])

p("C09","At most one endorsed statement per entity, kind and period",
 "During a period a gossiper signs at most one statement per logger or CA and kind, only one it received validly signed, and not before the gossip waiting time has passed since it first received it without conflict; a repeated statement is neither relayed, forwarded nor signed again while its period lasts. Objects of earlier periods are forgotten at the start of a new one, so the next period's statements are handled.",
 ["histories","schedules"],"all histories of statements over consecutive periods and all timings around the waiting time and the period boundary",
 "tests count objects at the end of an honest run; they never repeat a statement late in the period or race the period boundary.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go"],
 [("Store/DupCheckInLock, delayed signing, WipeStorage in PeriodicTasks","gossiper/gossiper_server.go, gossiper/Interface.go")],observe=["fragments sent, objects relayed"])

p("C10","Monitors accuse exactly the silent or lying",
 "In every period a monitor accuses a logger or CA it watches, towards its own gossiper, once and after the gossip waiting time, if and only if the entity did not answer its query with its own valid statement for the current period, no valid statement of it for the period came through gossip meanwhile, and neither a conflict proof nor, for that period, a threshold accusation against it is known; an entity with such a proof is not queried either. A valid answer is passed to the gossiper unchanged, and a gossiper supports only accusations of its own monitor.",
 ["histories","fault_sequences","schedules"],"all combinations of entity answers (valid, silent, error, malformed, forged, other entity, other type, stale period, bad revocation hash) and gossip arrivals before, at and after the waiting time, over several periods",
 "integration tests have an all-honest or all-silent entity; the mixed answers and race with gossip are never made.",
 ["monitor/monitor.go","monitor/types.go","gossiper/gossiper_server.go"],
 [("QueryLoggers, QueryAuthorities, Wait_then_accuse, AccuseEntity","monitor/monitor.go"),("Handle_ACC_INIT","gossiper/gossiper_server.go")],
 [("Storage_TEMP, Storage_ACCUSATION_POM, Storage_CONFLICT_POM","what the monitor knows","monitor/types.go")],["requests to the gossiper"])

p("C11","Client updates are complete, verified and published once",
 "The client update a monitor publishes for a period contains exactly the valid threshold objects and proofs it received since the previous update: each appears in one update only, invalid objects never do, and the statements of an entity with a conflict proof are left out. A client asking for a published period gets precisely that update, and asking for anything else gets an error.",
 ["histories","schedules"],"all sequences of valid, invalid and repeated objects arriving at any second of consecutive periods, and all requests",
 "no test reads a client update back or delivers objects between publications.",
 ["monitor/monitor.go","monitor/types.go","monitor/client-update-monitor.go"],
 [("GenerateUpdate, SaveStorage, WipeStorage, Clean_Conflicting_Object, requestupdate","monitor/")],observe=["/monitor/get-update responses"])

p("C12","Clients accept exactly the certificates CTng vouches for",
 "A client accepts a certificate if and only if at least one logger named in it is not proven misbehaving, has a valid statement in the certificate whose root equals the root the client learned for that logger and period, and proves inclusion of this certificate under it; and the client has revocation information of the issuer in which the certificate's revocation number is not set.",
 ["inputs","histories"],"all certificates (any subset of loggers with correct, foreign, missing or tampered statements and proofs) against all client states",
 "client tests print results without asserting, on committed data files.",
 ["client/client.go","crypto/MerkleTree.go","crypto/certpool.go","CA/types.go","util/helpers.go"],
 [("VerifyCTngextension","client/client.go")],observe=["verdict on the certificate"])

p("C13","Clients apply only verified updates and keep what they learned",
 "A client that verifies updates never takes into its state an object that does not verify as the kind of object it is listed as, or a revocation update not matching the issuer's signed revocation hash; a rejected update leaves the client able to process later updates. Roots, revocations and proofs learned from verified updates are never lost or replaced by later ones of other entities or periods.",
 ["inputs","histories"],"all sequences of updates containing valid, invalid, mistyped and unchained objects",
 "TestInit handles two well-formed updates and asserts nothing.",
 ["client/client.go","client/parser.go"],
 [("HandleUpdate, VerifySRH","client/client.go")],[("STH_database, CRV_database, POM_database","what the client knows","client/types.go")],["verdicts on certificates, return value of update handling"])

p("C14","Revocations reach clients and stay in force",
 "A certificate number revoked at a CA is contained in the CA's next signed revocation statement; after the period's gossip every monitor and every client that applies the updates in order regards it as revoked in all later periods, and numbers that were never revoked are never regarded as revoked. Every period's statement of an honest CA passes the monitors' and clients' revocation hash check.",
 ["histories","inputs"],"all sequences of revocations over consecutive periods (none, one, many, repeated numbers)",
 "no test revokes in more than one period or follows a revocation to a client.",
 ["CA/CRV.go","CA/ca.go","CA/server.go","monitor/monitor.go","monitor/types.go","client/client.go"],
 [("CRV, GetREV, VerifySRH on monitor and client","CA/CRV.go, monitor/monitor.go, client/client.go")],observe=["revocation statements, monitor accusations, client verdicts"])

p("C15","Loggers log what they accept and prove it",
 "Every precertificate a logger accepts from one of its CAs is in the tree of exactly one period; the issuing CA then receives a proof of inclusion that verifies against the root in the logger's signed statement, and that same statement is what CAs and monitors get for the next period. Precertificates that are malformed or not validly signed by a listed CA are never logged.",
 ["histories","inputs","schedules"],"all sequences of submissions (any number per round, duplicates, invalid ones, any time in the period) over several rounds",
 "TestMerkle builds one tree; empty, single and odd sized rounds, late submissions and invalid ones are untested.",
 ["Logger/server.go","Logger/Types.go","Logger/buildmerkle.go","crypto/MerkleTree.go","crypto/certpool.go"],
 [("receive_pre_cert, PeriodicTask, BuildMerkleTreeFromCerts","Logger/")],observe=["statements and proofs sent, /ctng/v2/get-sth answers"])

p("C16","All entities agree on the period label",
 "At every minute of the hour, including the turn of the hour, the statement a logger or CA serves to monitors is labelled, inside and outside, with the two digit minute in which it is served, so that monitors, gossipers and clients file and accept it under one and the same period; the updates of a monitor are numbered consecutively from its first period on.",
 ["configurations","histories"],"all 60 minutes of the hour as start and serving minute",
 "tests run whenever they run; single digit minutes and the hour wrap are hit by chance and not asserted.",
 ["util/helpers.go","Logger/server.go","CA/server.go","CA/ca.go","monitor/monitor.go"],
 [("GetCurrentPeriod and next-period labels","util/helpers.go, Logger/server.go, CA/server.go")],observe=["labels in served statements"])

p("C17","CA issues uniquely numbered certificates with proven log evidence",
 "All certificates a CA issues carry pairwise different revocation numbers and its signature, and a certificate leaves the pool with the statement and inclusion proof of a logger only if that logger's statement was validly signed for the period and the proof verifies for this certificate. A certificate is given the evidence of every logger that supplied its statement and then the proof, irrespective of the number of loggers and of how the messages of different loggers interleave. (What becomes of a proof that arrives before its statement, and of the evidence of a logger that signed two statements for one period, is left open.)",
 ["histories","schedules","inputs"],"all orders and interleavings of statements and proofs from several loggers, including forged, stale and unprovable ones, over several rounds",
 "TestCreateCert creates certificates once and asserts nothing about proofs or numbers.",
 ["CA/server.go","CA/ca.go","CA/types.go","CA/CRV.go"],
 [("receive_sth, receive_poi, GetRIDs/Generate_N_Signed_PreCert","CA/")],observe=["certificates in the pool, precertificates sent"])

p("C18","Generated configurations fit together",
 "For every number of loggers, CAs, monitors and gossipers and threshold the generator supports, the written configurations describe one consistent network: every address an entity is told to contact belongs to a generated entity of the right kind, every monitor and its gossiper name each other, and an object signed with any entity's generated key verifies with every other entity's generated configuration, thresholds included.",
 ["configurations"],"all small numbers of entities and thresholds, with local and with remote addresses",
 "Gen tests only write committed fixed-size configurations.",
 ["Gen/Gen.go","Gen/IPmapping.go","crypto/crypto_IO.go"],
 [("Generateall, IP mapping","Gen/Gen.go, Gen/IPmapping.go")],observe=["written configuration files"])

p("C19","Saved state survives a restart",
 "A client that saves its databases and restarts gives the same verdict on every certificate and update as one that did not restart; what a monitor published before stays available unchanged to clients afterwards.",
 ["crash_points","histories"],"all points of a history at which the client is restarted",
 "no test restarts anything.",
 ["client/types.go","util/IO.go","monitor/types.go"],
 [("Save*Database / Load*Database, InitializeClientContext","client/types.go")],observe=["verdicts after restart"])

p("C20","Revocation payload optimisation changes no outcome",
 "Gossiping revocation statements by notification, request and payload-free fragments yields the same relayed statements, threshold objects and conflict proofs as sending them in full: a gossiper lacking the announced statement asks the announcer for it and receives it, one holding it does not ask again, and a fragment without payload counts towards exactly the statement its signer signed.",
 ["histories","schedules"],"all orders of notifications, requests, statements and fragments among gossipers, with missing, repeated and conflicting statements",
 "the integration run has one honest CA and one timing.",
 ["gossiper/gossiper_server.go","gossiper/gen.go","gossiper/Interface.go"],
 [("Gossip_notification_handler, Gossip_request_handler, ReconstructPayload, SavePayload","gossiper/")],
 [("REV_PAYLOAD","full revocation statements held","gossiper/types.go")],["messages to peers and monitor"])

p("C21","The whole system keeps honest entities clean and exposes faulty ones",
 "In a running network of loggers, CAs, gossipers and monitors, entities that behave correctly are never accused nor proven misbehaving and their statement of every period is in every monitor's update; an entity that stays silent towards all monitors gets a threshold accusation and one that signs conflicting statements a conflict proof in the update of every monitor of that period.",
 ["fault_sequences","configurations"],"all assignments of the built-in fault modes to loggers and CAs and of start minutes in bounds, over consecutive periods",
 "the integration tests run one honest configuration live and otherwise read committed logs.",
 ["Logger/server.go","CA/server.go","gossiper/gossiper_server.go","monitor/monitor.go"],
 [("whole protocol","all server packages")],observe=["updates of all monitors"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
